// C26: theories of one process do not influence each other; runs are repeatable
#include "global_oracle.hh"
#include <exception>
#include <thread>

using namespace shared;

namespace {

struct World {
    Prog p;
    Options o;
    Step st;
    int solves = 1;
    Session::Drive drive = Session::Drive::Callback;
    bool early = false;
    size_t stop = 0;
    Expected e;
    std::vector<Result> alone, got;
    std::unique_ptr<Session> ses;
    int op = 0;
    bool busy = false;
    int last() const { return 2 + solves; } // last operation: destroy
    bool done() const { return op > last(); }
};

std::map<std::string, std::string> read_values(Session &ses, unsigned thread) {
    std::map<std::string, std::string> got;
    size_t index = 0;
    clingolpx_assignment_begin(ses.theory(), thread, &index);
    while (clingolpx_assignment_next(ses.theory(), thread, &index)) {
        clingolpx_value_t v;
        clingolpx_assignment_get_value(ses.theory(), thread, index, &v);
        auto sym = Clingo::Symbol{clingolpx_get_symbol(ses.theory(), index)};
        size_t again = 0;
        CHECK(clingolpx_lookup_symbol(ses.theory(), sym.to_c(), &again) && again == index, "lookup of " << sym << " gives another index than the iteration");
        got[sym.to_string()] = Clingo::Symbol{v.symbol}.string();
    }
    return got;
}

// performs the next operation; other is called at each model
void advance(World &w, std::vector<Result> &out, std::function<void()> const &other) {
    struct Busy {
        Busy(World &w) : w{w} { w.busy = true; }
        ~Busy() { w.busy = false; }
        World &w;
    } busy{w};
    int op = w.op++;
    if (op == 0) {
        w.ses = std::make_unique<Session>(w.o, w.e.models.size() + 20);
        w.ses->drive = w.drive;
        w.ses->early = w.early;
        w.ses->stop = w.stop;
        w.ses->hook = [&w, other](Clingo::Model &m, Model const &r) {
            if (!other) { return; }
            auto before = read_values(*w.ses, m.thread_id());
            CHECK(before == r.raw, "values read differ from those in the model " << r.id());
            other();
            CHECK(read_values(*w.ses, m.thread_id()) == before, "values of a model changed while another theory was used: " << r.id());
        };
        return;
    }
    if (op == 1) {
        w.ses->add("base", w.p.text());
        w.ses->ground("base");
        return;
    }
    if (op < w.last()) {
        out.push_back(w.ses->solve());
        return;
    }
    w.ses.reset();
}

std::string trace(Result const &r) {
    std::ostringstream s;
    for (auto const &m : r.models) {
        s << m.id() << ":";
        for (auto const &[k, v] : m.raw) { s << " " << k << "=" << v; }
        if (m.objective) { s << " objective " << m.raw_objective << (m.objective->second ? "" : " unbounded"); }
        s << "\n";
    }
    s << (r.sat ? "sat" : r.unsat ? "unsat" : "unknown") << " pivots " << r.step.pivots << "/" << r.accu.pivots << " bounds " << r.step.bounds << "/" << r.accu.bounds;
    return s.str();
}

void judge(World const &w, std::vector<Result> const &rs, std::string const &what) {
    for (auto const &r : rs) {
        try {
            CHECK(!r.error, "unexpected error: " << r.msg);
            for (auto const &m : r.models) {
                auto const *x = w.e.find(m.atoms);
                CHECK(x != nullptr, "answer " << m.id() << " is not a stable model of the regular part");
                check_sound(w.p, m, x->rows, w.o.strict);
                check_objective(w.p, m, x->rows);
            }
            if (r.stopped) { continue; }
            if (w.o.objective.rfind("global", 0) == 0) { check_global(w.p, w.e, r.models, w.st, w.o.strict); }
            else { check_answers(w.e, r); }
        } catch (pbt::Fail const &f) { throw pbt::Fail(what + f.what()); }
    }
}

void c26(Ctx &c) {
    auto &s = c.src;
    int n = s.range(2, s.chance(20) ? 4 : 2);
    std::vector<World> ws(static_cast<size_t>(n));
    bool share = s.chance(45); // the same program under different options
    bool common = s.chance(20); // all with the same way of propagating
    std::string bounds = s.chance(60) ? "changed" : "full";
    std::string log;
    for (int i = 0; i < n; ++i) {
        auto &w = ws[static_cast<size_t>(i)];
        bool strict = s.chance(25);
        if (i > 0 && share) { w.p = ws[0].p; }
        else {
            auto conf = mixed(s, strict);
            conf.must_objective = s.chance(50);
            w.p = gen_prog(s, conf);
        }
        strict = strict || w.p.strict;
        w.o = i > 0 && share && s.chance(30) ? ws[0].o : gen_options(s, strict, true);
        w.o.strict = w.o.strict || strict;
        if (common) { w.o.bounds = bounds; }
        multi_shot(w.o);
        if (w.p.has_objective() && s.chance(35)) { w.st = gen_step(s, w.o.strict); w.o.objective = w.st.text; }
        else { w.o.objective.clear(); }
        w.solves = s.range(1, 2);
        w.drive = s.chance(70) ? Session::Drive::Callback : Session::Drive::Yield;
        w.early = s.chance(30);
        w.stop = s.chance(15) ? 1 + s.u(3) : 0;
        log += "== theory " + std::to_string(i) + ": " + w.o.str() + (w.drive == Session::Drive::Yield ? " yield" : "") + (w.stop ? " stop " + std::to_string(w.stop) : "") + ", " + std::to_string(w.solves) + " solve calls\n" + w.p.text();
    }
    bool threads = s.chance(30);
    bool first = s.chance(50); // run alone before or after
    c.describe(log + (threads ? "== in different threads\n" : "== in turn\n"));
    for (auto &w : ws) { w.e = expected(w.p, 200); }
    auto alone = [&] {
        for (auto &w : ws) {
            for (w.op = 0; !w.done();) { advance(w, w.alone, nullptr); }
            c.ran();
        }
    };
    if (first) { alone(); }
    for (auto &w : ws) { w.op = 0; }
    size_t switches = 0;
    if (threads) {
        std::vector<std::exception_ptr> ex(ws.size());
        std::vector<std::thread> ts;
        for (size_t i = 0; i < ws.size(); ++i) {
            ts.emplace_back([&, i] {
                auto &w = ws[i];
                try {
                    while (!w.done()) { advance(w, w.got, [] { std::this_thread::yield(); }); }
                } catch (...) { ex[i] = std::current_exception(); }
                w.ses.reset();
            });
        }
        for (auto &t : ts) { t.join(); }
        for (auto &x : ex) { if (x) { std::rethrow_exception(x); } }
        switches = 2;
        c.label("different threads");
    } else {
        std::function<void()> other = [&] {
            while (s.chance(40)) {
                std::vector<World *> free;
                for (auto &w : ws) { if (!w.busy && !w.done()) { free.push_back(&w); } }
                if (free.empty()) { return; }
                auto &w = *free[s.u(static_cast<uint32_t>(free.size()))];
                if (w.op > 1) { ++switches; }
                advance(w, w.got, other);
            }
        };
        World *prev = nullptr;
        for (;;) {
            std::vector<World *> free;
            for (auto &w : ws) { if (!w.done()) { free.push_back(&w); } }
            if (free.empty()) { break; }
            auto &w = *free[s.u(static_cast<uint32_t>(free.size()))];
            if (prev && prev != &w && w.op > 1) { ++switches; }
            prev = &w;
            advance(w, w.got, other);
        }
        c.label("in turn");
    }
    c.ran(ws.size());
    if (!first) { alone(); }
    size_t models = 0, useful = 0;
    for (size_t i = 0; i < ws.size(); ++i) {
        auto &w = ws[i];
        judge(w, w.alone, "alone: theory " + std::to_string(i) + ": ");
        judge(w, w.got, "interleaved: theory " + std::to_string(i) + ": ");
        CHECK(w.alone.size() == w.got.size(), "number of solve calls");
        for (size_t k = 0; k < w.got.size(); ++k) {
            auto a = trace(w.alone[k]), b = trace(w.got[k]);
            CHECK(a == b, "theory " << i << " gives other results in solve call " << k << " if other theories are used meanwhile; alone:\n" << a << "\ninterleaved:\n" << b);
            models += w.got[k].models.size();
        }
        if (!w.got.empty() && !w.got[0].models.empty() && w.p.cons.size() > 1) { ++useful; }
    }
    if (share) { c.label("same program"); }
    if (n > 2) { c.label("more than two theories"); }
    if (models > 20) { c.label(">20 answers"); }
    c.nontrivial = useful >= 2 && switches > 1;
}

pbt::Register r26{{"C26", c26,
                   "two to four theories with programs (45% the same program) and options of their own, each with its control and 1-2 solve calls (callback or yield, some stopped), "
                   "whose operations are interleaved: in one thread, also nested within the model callbacks of each other, or each in a thread of its own; every result is compared "
                   "with the exact reference, and answers, their order, values, objectives and statistics with those of the same theory used alone; non-trivial: at least two of the "
                   "theories have two constraints and an answer, and operations of different theories followed each other after grounding at least twice (or threads ran)",
                   14000, 250000, 60, true}};

} // namespace
