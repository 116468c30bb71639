#include "hooks.hh"
#include <atomic>
#include <dlfcn.h>
#include <sched.h>
#include <unistd.h>

namespace hooks {

std::function<void(clingo_propagate_control_t *, clingo_literal_t const *, size_t)> on_clause;
std::function<void(clingo_propagate_init_t *, clingo_literal_t const *, size_t)> on_init_clause;
std::vector<Option> *options = nullptr;

namespace {
std::atomic<uint32_t> delay_seed{0};
std::atomic<int> delay_strength{0};
std::atomic<uint32_t> threads{0};

void delay() {
    uint32_t seed = delay_seed.load(std::memory_order_relaxed);
    if (seed == 0) { return; }
    thread_local uint64_t state = 0;
    thread_local uint32_t mine = 0;
    if (mine != seed) { mine = seed; state = seed * 0x9e3779b97f4a7c15ULL + ++threads; }
    state ^= state << 13;
    state ^= state >> 7;
    state ^= state << 17;
    uint32_t r = static_cast<uint32_t>(state >> 40);
    static uint32_t const rate[] = {64, 16, 6};
    if (r % rate[delay_strength.load(std::memory_order_relaxed)] == 0) {
        if (r & 0x10000) { usleep((r >> 17) % 120); }
        else { sched_yield(); }
    }
}

template <class F> F next(char const *name) {
    auto *f = dlsym(RTLD_NEXT, name);
    if (f == nullptr) { abort(); }
    return reinterpret_cast<F>(f);
}
} // namespace

void Delay::start(uint32_t seed, int strength) { delay_strength = strength; delay_seed = seed; }
void Delay::stop() { delay_seed = 0; }

} // namespace hooks

#define FORWARD(ret, name, params, args)                                                                               \
    extern "C" ret name params {                                                                                       \
        static auto f = hooks::next<ret(*) params>(#name);                                                             \
        hooks::delay();                                                                                                \
        return f args;                                                                                                 \
    }

FORWARD(bool, clingo_propagate_control_propagate, (clingo_propagate_control_t * c, bool *r), (c, r))
FORWARD(bool, clingo_propagate_control_add_literal, (clingo_propagate_control_t * c, clingo_literal_t *r), (c, r))
FORWARD(bool, clingo_propagate_control_add_watch, (clingo_propagate_control_t * c, clingo_literal_t l), (c, l))
FORWARD(uint32_t, clingo_assignment_decision_level, (clingo_assignment_t const *a), (a))
FORWARD(bool, clingo_assignment_level, (clingo_assignment_t const *a, clingo_literal_t l, uint32_t *r), (a, l, r))
FORWARD(bool, clingo_assignment_is_total, (clingo_assignment_t const *a), (a))

extern "C" bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *clause, size_t size, clingo_clause_type_t type, bool *result) {
    static auto f = hooks::next<bool (*)(clingo_propagate_control_t *, clingo_literal_t const *, size_t, clingo_clause_type_t, bool *)>("clingo_propagate_control_add_clause");
    hooks::delay();
    if (hooks::on_clause) { hooks::on_clause(c, clause, size); }
    bool ret = f(c, clause, size, type, result);
    hooks::delay();
    return ret;
}

extern "C" bool clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *clause, size_t size, bool *result) {
    static auto f = hooks::next<bool (*)(clingo_propagate_init_t *, clingo_literal_t const *, size_t, bool *)>("clingo_propagate_init_add_clause");
    if (hooks::on_init_clause) { hooks::on_init_clause(i, clause, size); }
    return f(i, clause, size, result);
}

extern "C" bool clingo_options_add(clingo_options_t *o, char const *group, char const *option, char const *description, bool (*parse)(char const *, void *), void *data, bool multi, char const *argument) {
    static auto f = hooks::next<bool (*)(clingo_options_t *, char const *, char const *, char const *, bool (*)(char const *, void *), void *, bool, char const *)>("clingo_options_add");
    if (hooks::options) { hooks::options->push_back({group, option, description, parse, data, nullptr, multi}); return true; }
    return f(o, group, option, description, parse, data, multi, argument);
}

extern "C" bool clingo_options_add_flag(clingo_options_t *o, char const *group, char const *option, char const *description, bool *target) {
    static auto f = hooks::next<bool (*)(clingo_options_t *, char const *, char const *, char const *, bool *)>("clingo_options_add_flag");
    if (hooks::options) { hooks::options->push_back({group, option, description, nullptr, nullptr, target, false}); return true; }
    return f(o, group, option, description, target);
}
