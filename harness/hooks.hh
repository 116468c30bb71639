// Interposed clingo functions: the definitions in hooks.cc shadow those of the
// shared library for the code under test, forward to them, and let a check
// observe the calls or delay them.
#pragma once
#include <clingo.hh>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace hooks {

// seeded delays in the calls the theory makes during search
struct Delay {
    Delay() = default;
    ~Delay() { stop(); }
    void start(uint32_t seed, int strength);
    void stop();
};

// called before a clause is handed to the solver
extern std::function<void(clingo_propagate_control_t *, clingo_literal_t const *, size_t)> on_clause;
extern std::function<void(clingo_propagate_init_t *, clingo_literal_t const *, size_t)> on_init_clause;

struct Option {
    std::string group, name, description;
    bool (*parse)(char const *, void *) = nullptr;
    void *data = nullptr;
    bool *flag = nullptr;
    bool multi = false;
};
// collects registered options instead of forwarding while set
extern std::vector<Option> *options;

} // namespace hooks
