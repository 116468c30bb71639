// C13 C16 C17 C20: clauses, the C interface, configuration and statistics
#include "global_oracle.hh"
#include "history.hh"
#include "hooks.hh"
#include "other.hh"
#include "theory_eval.hh"
#include <atomic>
#include <mutex>
#ifndef NO_INTERNALS
#include <solving.hh>
#endif

// Counts calls of Tableau::pivot where the linker can wrap it (see check.py);
// if the function is named differently the count stays zero and is not used.
static std::atomic<uint64_t> pivot_calls{0};
extern "C" {
__attribute__((weak)) void __real__ZN7Tableau5pivotEjjR7IntegerS1_(void *t, unsigned i, unsigned j, void *a, void *d);
void __wrap__ZN7Tableau5pivotEjjR7IntegerS1_(void *t, unsigned i, unsigned j, void *a, void *d) {
    ++pivot_calls;
    __real__ZN7Tableau5pivotEjjR7IntegerS1_(t, i, j, a, d);
}
}

using namespace shared;

namespace {

struct Unhook {
    ~Unhook() {
        hooks::on_clause = nullptr;
        hooks::on_init_clause = nullptr;
        hooks::options = nullptr;
    }
};

// ---- C13

using Clingo::literal_t;

// decides whether a clause is implied
class ClauseOracle {
  public:
    std::vector<theory_eval::Atom> atoms;
    size_t checked = 0, wide = 0, vacuous = 0, skipped = 0, with_unknown = 0;

    // fixed: truth value of a literal on the top level (0 unknown)
    std::string check(std::vector<literal_t> const &clause, std::function<int(literal_t)> const &fixed) {
        std::map<literal_t, bool> val; // by positive literal
        auto value = [&](literal_t l) -> int {
            auto it = val.find(std::abs(l));
            if (it != val.end()) { return it->second == (l > 0) ? 1 : -1; }
            return fixed(l);
        };
        for (auto l : clause) {
            if (fixed(l) > 0) { ++vacuous; return ""; }
            auto [it, ins] = val.emplace(std::abs(l), l < 0);
            if (!ins && it->second != (l < 0)) { ++vacuous; return ""; } // l and -l
        }
        ++checked;
        if (clause.size() > 1) { ++wide; }
        std::vector<theory_eval::Atom const *> active;
        std::vector<literal_t> open; // distinct unknown conditions
        for (auto const &a : atoms) {
            if (value(a.lit) <= 0) { continue; }
            active.push_back(&a);
            for (auto const &e : a.elems) {
                if (e.cond != 0 && value(e.cond) == 0) {
                    auto l = std::abs(e.cond);
                    if (std::find(open.begin(), open.end(), l) == open.end()) { open.push_back(l); }
                }
            }
        }
        int n = 0;
        auto rows = [&](std::map<literal_t, bool> const *completion) {
            std::vector<ref::Row> r;
            for (auto const *a : active) {
                ref::Lin l;
                for (auto const &e : a->elems) {
                    int v = e.cond == 0 ? 1 : value(e.cond);
                    if (v == 0 && completion) { v = completion->at(std::abs(e.cond)) == (e.cond > 0) ? 1 : -1; }
                    if (v > 0) { l.add(e.lin); }
                    if (v == 0) { l.co["$" + std::to_string(n++)] = 1; } // anything
                }
                r.push_back(ref::make_row(l, a->rel, ref::Lin{}));
            }
            return r;
        };
        if (!ref::feasible(rows(nullptr))) { return ""; }
        if (open.empty()) { return text(clause, rows(nullptr)); }
        ++with_unknown;
        if (open.size() > 7) { ++skipped; --checked; return ""; }
        for (unsigned m = 0; m < (1U << open.size()); ++m) {
            std::map<literal_t, bool> comp;
            for (size_t i = 0; i < open.size(); ++i) { comp[open[i]] = (m >> i & 1) != 0; }
            auto rs = rows(&comp);
            if (ref::feasible(rs)) { return text(clause, rs); }
        }
        return "";
    }

  private:
    static std::string text(std::vector<literal_t> const &clause, std::vector<ref::Row> const &rows) {
        std::string r = "clause {";
        for (auto l : clause) { r += " " + std::to_string(l); }
        r += " } is not implied: falsifying it leaves the satisfiable system";
        for (auto const &x : rows) { r += " [" + x.str() + "]"; }
        return r;
    }
};

void c13(Ctx &c) {
    auto &s = c.src;
    Unhook unhook;
    bool strict = s.chance(20);
    HistoryConf hc;
    hc.conf = mixed(s, strict);
    hc.dense = s.chance(60);
    hc.objective = s.chance(40);
    if (s.chance(40)) { hc.conf.fix_cond = 60; }
    auto h = gen_history(s, hc);
    strict = strict || h.p.strict;
    auto o = gen_options(s, strict, true);
    if (o.bounds.empty() && s.chance(70)) { o.bounds = s.chance(70) ? "full" : "changed"; }
    multi_shot(o);
    hooks::Delay delay;
    bool threads = s.chance(15);
    if (threads) {
        o.clasp.push_back("-t" + std::to_string(s.range(2, 3)) + (s.chance(50) ? ",compete" : ",split"));
        delay.start(1 + s.u(100000), 1);
    }
    std::string log = "options:" + o.str() + "\n";
    Other other;
    bool with = !threads && !h.p.choice.empty() && s.chance(15), own = false;
    if (with) { log += "and a propagator for\n" + other.gen(s, h.p.choice); }
    other.adding = [&](bool x) { own = x; };
    c.describe(log);
    Session ses{o, 3000, [&](Clingo::Control &ctl) { if (with) { ctl.register_propagator(other); } }};
    ClauseOracle oracle;
    std::mutex mutex;
    std::string failure;
    std::set<std::pair<unsigned, std::vector<literal_t>>> seen;
    size_t clauses = 0, init_clauses = 0, limit = 400;
    int inits = 0;
    bool bad_terms = false;
    ses.on_init([&](Clingo::PropagateInit &init) {
        ++inits;
        try {
            for (auto &a : theory_eval::atoms(init)) { oracle.atoms.push_back(std::move(a)); }
        } catch (theory_eval::Bad const &) { bad_terms = true; }
        seen.clear();
    });
    auto judge = [&](unsigned thread, Clingo::Assignment const &ass, literal_t const *lits, size_t n, bool init) {
        std::lock_guard<std::mutex> g{mutex};
        if (bad_terms || !failure.empty()) { return; }
        std::vector<literal_t> cl{lits, lits + n};
        std::sort(cl.begin(), cl.end());
        cl.erase(std::unique(cl.begin(), cl.end()), cl.end());
        if (!seen.emplace(thread, cl).second || oracle.checked > limit) { return; }
        (init ? init_clauses : clauses) += 1;
        try {
            failure = oracle.check(cl, [&](literal_t l) { return !ass.is_fixed(l) ? 0 : ass.is_true(l) ? 1 : -1; });
            if (!failure.empty()) { failure += init ? " (added during initialisation)" : " (added during search)"; }
        } catch (std::exception const &e) { failure = std::string("?") + e.what(); }
    };
    hooks::on_clause = [&](clingo_propagate_control_t *ctl, literal_t const *lits, size_t n) {
        if (own) { return; }
        Clingo::PropagateControl pc{ctl};
        judge(pc.thread_id() + 1, pc.assignment(), lits, n, false);
    };
    hooks::on_init_clause = [&](clingo_propagate_init_t *i, literal_t const *lits, size_t n) {
        Clingo::PropagateInit in{i};
        judge(0, in.assignment(), lits, n, true);
    };
    run_history(c, ses, h, hc, log, nullptr, [&](int, Result const &r) {
        CHECK(!r.error, "unexpected error: " << r.msg);
        if (!failure.empty()) {
            if (failure[0] == '?') { throw pbt::OracleBug(failure); }
            pbt::fail(failure);
        }
    });
    if (bad_terms) { throw pbt::OracleBug("term not understood"); }
    if (clauses) { c.label("clauses during search"); }
    if (init_clauses) { c.label("clauses during initialisation"); }
    if (oracle.with_unknown) { c.label("clause with undecided conditions"); }
    if (oracle.skipped) { c.label("clause skipped"); }
    if (other.clauses) { c.label("clauses of another propagator"); }
    if (oracle.wide >= 5) { c.label(">=5 clauses with several literals"); }
    if (oracle.checked > limit) { c.label("clause limit reached"); }
    if (h.steps > 1) { c.label("several parts"); }
    if (threads) { c.label("several threads"); }
    if (strict) { c.label("strict mode"); }
    c.nontrivial = oracle.wide >= 2;
}
pbt::Register r13{{"C13", c13,
                   "histories of 1-3 parts and several solve calls under random options (propagate-bounds full or changed in most, 15% with threads), every clause handed to "
                   "clingo during initialisation and search is intercepted; falsifying it together with the top level literals must activate an infeasible system, for every "
                   "completion of undecided condition literals (exact LP; clauses with more than 7 undecided conditions are skipped and counted); non-trivial: at least "
                   "two distinct clauses with several literals were decided",
                   70000, 1500000, 60, true}};

// ---- C16

void c16(Ctx &c) {
    auto &s = c.src;
    bool strict = s.chance(25);
    HistoryConf hc;
    hc.conf = mixed(s, strict);
    hc.conf.rich = s.range(1, 2);
    hc.max_solves = 2;
    auto h = gen_history(s, hc);
    strict = strict || h.p.strict;
    auto o = gen_options(s, strict, s.chance(60));
    multi_shot(o);
    if (s.chance(25)) { o.clasp.push_back("-t" + std::to_string(s.range(2, s.chance(15) ? 8 : 4)) + (s.chance(50) ? ",compete" : ",split")); }
    if (h.objective && s.chance(30)) { o.objective = gen_step(s, strict).text; }
    std::string log = "options:" + o.str() + "\n";
    c.describe(log);
    std::string failure;
    std::map<std::string, size_t> index_of; // over the whole life of the control
    std::map<size_t, std::string> symbol_of;
    std::set<std::string> must; // variables of constraints the theory was given
    size_t models = 0, most = 0;
    std::set<unsigned> threads;
    Session ses{o, 200};
    ses.on_init([&](Clingo::PropagateInit &init) {
        for (auto const &a : theory_eval::atoms(init)) {
            if (init.assignment().is_fixed(a.lit) && init.assignment().is_false(a.lit)) { continue; }
            std::map<literal_t, ref::Lin> by_cond;
            for (auto const &e : a.elems) {
                if (e.cond != 0 && init.assignment().is_fixed(e.cond) && init.assignment().is_false(e.cond)) { continue; }
                bool t = e.cond == 0 || (init.assignment().is_fixed(e.cond) && init.assignment().is_true(e.cond));
                by_cond[t ? 0 : e.cond].add(e.lin);
            }
            for (auto const &[l, x] : by_cond) {
                if (by_cond.size() > 1 && l != 0) { continue; } // contributions may cancel out
                for (auto const &[v, q] : x.co) { must.insert(v); }
            }
        }
    });
    ses.hook = [&](Clingo::Model &m, Model const &r) {
        ++models;
        threads.insert(m.thread_id());
        auto *t = ses.theory();
        auto th = m.thread_id();
        std::set<size_t> idx;
        std::map<std::string, std::string> got;
        size_t index = 77, largest = 0;
        clingolpx_assignment_begin(t, th, &index);
        CHECK(index == 0, "iteration does not start before the first index");
        while (clingolpx_assignment_next(t, th, &index)) {
            CHECK(index > 0, "index zero visited");
            CHECK(idx.insert(index).second, "index " << index << " visited twice");
            CHECK(idx.size() < 10000, "iteration does not end");
            largest = std::max(largest, index);
            Clingo::Symbol sym{clingolpx_get_symbol(t, index)};
            CHECK(sym.type() != Clingo::SymbolType::Number, "auxiliary variable " << sym << " visited");
            size_t back = 0;
            CHECK(clingolpx_lookup_symbol(t, sym.to_c(), &back), "symbol " << sym << " of the assignment cannot be looked up");
            CHECK(back == index, "symbol " << sym << " has index " << index << " but looking it up gives " << back);
            CHECK(clingolpx_assignment_has_value(t, th, index), "visited symbol " << sym << " has no value");
            clingolpx_value_t v{};
            clingolpx_assignment_get_value(t, th, index, &v);
            CHECK(v.type == clingolpx_value_type_symbol, "value of " << sym << " has type " << v.type);
            Clingo::Symbol vs{v.symbol};
            CHECK(vs.type() == Clingo::SymbolType::String, "value of " << sym << " is not a string");
            auto name = sym.to_string();
            CHECK(got.emplace(name, vs.string()).second, "symbol " << name << " visited twice");
            auto [it, ins] = index_of.emplace(name, index);
            CHECK(it->second == index, "index of " << name << " changed from " << it->second << " to " << index);
            auto [jt, jns] = symbol_of.emplace(index, name);
            CHECK(jt->second == name, "symbol of index " << index << " changed from " << jt->second << " to " << name);
            (void)ins; (void)jns;
        }
        CHECK(!clingolpx_assignment_next(t, th, &index), "iteration continues after its end");
        CHECK(!clingolpx_assignment_has_value(t, th, 0), "index zero has a value");
        CHECK(!clingolpx_assignment_has_value(t, th, largest + 100000), "index beyond the end has a value");
        // the indices with a value are a range, all of them are symbols of the theory
        size_t end = 1;
        for (; clingolpx_assignment_has_value(t, th, end); ++end) {
            size_t back = 0;
            auto sym = clingolpx_get_symbol(t, end);
            CHECK(clingolpx_lookup_symbol(t, sym, &back) && back == end, "index " << end << " has a value but does not belong to a symbol");
            CHECK(idx.count(end) || Clingo::Symbol{sym}.type() == Clingo::SymbolType::Number, "variable with index " << end << " has a value but is not visited");
            CHECK(end < 100000, "endless range of indices");
        }
        CHECK(largest < end, "index " << largest << " is visited but " << end << " has no value");
        for (size_t i = end; i < end + 5; ++i) { CHECK(!clingolpx_assignment_has_value(t, th, i), "index " << i << " beyond the end has a value"); }
        CHECK(got == r.raw, "values obtained by index differ from those in the model " << r.id());
        for (auto const &v : must) { CHECK(got.count(v), "variable " << v << " of the program is not visited"); }
        std::set<std::string> known(h.p.vars.begin(), h.p.vars.end());
        for (auto const &[v, x] : got) { CHECK(known.count(v), "unknown variable " << v << " visited"); }
        most = std::max(most, got.size());
        // symbols that are no variables
        for (auto const &n : {"nosuchvariable", "f(nosuch,1)", "x0(0,0,0)", "\"x0\"", "#inf", "(x0,)", "-nosuch"}) {
            if (known.count(n)) { continue; }
            size_t dummy = 4711;
            CHECK(!clingolpx_lookup_symbol(t, Clingo::parse_term(n).to_c(), &dummy), "unknown symbol " << n << " has index " << dummy);
        }
    };
    {
        int x = -1, y = -1, z = -1;
        auto mask = s.u(8);
        clingolpx_version(mask & 1 ? nullptr : &x, mask & 2 ? nullptr : &y, mask & 4 ? nullptr : &z);
        CHECK(x == (mask & 1 ? -1 : CLINGOLPX_VERSION_MAJOR) && y == (mask & 2 ? -1 : CLINGOLPX_VERSION_MINOR) && z == (mask & 4 ? -1 : CLINGOLPX_VERSION_REVISION), "wrong version " << x << "." << y << "." << z);
        CHECK(std::to_string(CLINGOLPX_VERSION_MAJOR) + "." + std::to_string(CLINGOLPX_VERSION_MINOR) + "." + std::to_string(CLINGOLPX_VERSION_REVISION) == CLINGOLPX_VERSION, "version text differs");
    }
    bool yields = false;
    auto drive = [&](int) {
        using Drive = Session::Drive;
        ses.drive = s.weighted({60, 40}) == 0 ? Drive::Callback : std::vector<Drive>{Drive::Yield, Drive::YieldAsync, Drive::Async}[s.u(3)];
        ses.late = s.chance(40);
        ses.early = s.chance(40);
        ses.stop = s.chance(15) ? 1 + s.u(3) : 0;
        yields = yields || ses.drive == Drive::Yield || ses.drive == Drive::YieldAsync;
    };
    run_history(c, ses, h, hc, log, drive, [&](int, Result const &r) { CHECK(!r.error, "unexpected error: " << r.msg); });
    if (yields) { c.label("values read while the search is paused"); }
    if (threads.size() > 1) { c.label("answers from several threads"); }
    if (h.steps > 1) { c.label("several parts"); }
    if (strict) { c.label("strict mode"); }
    if (most > 3) { c.label(">3 variables"); }
    if (models > 4) { c.label(">4 answers"); }
    c.nontrivial = models >= 2 && most >= 2;
}
pbt::Register r16{{"C16", c16,
                   "histories of 1-3 parts, solve calls with externals and assumptions, some with threads or a global objective; at every model the assignment is iterated and "
                   "compared with the model's values, the program's variables, lookups in both directions and all earlier models of the control; non-trivial: at "
                   "least two models and two variables",
                   80000, 1500000, 60, true}};

// ---- C17

struct Captured {
    std::vector<hooks::Option> opts;
    explicit Captured(clingolpx_theory_t *t) {
        hooks::options = &opts;
        bool ok = clingolpx_register_options(t, nullptr);
        hooks::options = nullptr;
        CHECK(ok, "registering options failed");
    }
    hooks::Option const *find(std::string const &n) const {
        for (auto const &o : opts) { if (o.name == n || o.name.rfind(n + ",", 0) == 0) { return &o; } }
        return nullptr;
    }
};

std::string random_case(Src &s, std::string t) {
    if (s.chance(60)) { return t; }
    for (auto &ch : t) { if (s.chance(50)) { ch = static_cast<char>(toupper(ch)); } }
    return t;
}

enum class Verdict { Valid, Invalid };

struct Setting {
    std::string key, value;
    Verdict expected;
    bool flag = false, flag_value = false;
};

Setting gen_setting(Src &s) {
    static std::map<std::string, std::vector<std::string>> const words{
        {"select", {"none", "match", "conflict"}}, {"store", {"no", "partial", "total"}}, {"propagate-bounds", {"none", "changed", "full"}}};
    Setting r;
    r.key = std::vector<std::string>{"strict", "propagate-conflicts", "select", "store", "propagate-bounds", "objective"}[s.u(6)];
    bool valid = s.chance(60);
    r.expected = valid ? Verdict::Valid : Verdict::Invalid;
    r.flag = r.key == "strict" || r.key == "propagate-conflicts";
    auto mutate = [&](std::string w) {
        switch (s.u(7)) {
            case 0: return w + "x";
            case 1: return "x" + w;
            case 2: return w.substr(0, w.size() - 1) + "?";
            case 3: return std::string();
            case 4: return w + " ";
            case 5: return w + "," + w;
            default: return std::string("-") + w;
        }
    };
    if (r.flag) {
        static std::vector<std::string> const yes{"yes", "on", "1"}, no{"no", "off", "0"};
        r.flag_value = s.chance(50);
        r.value = s.pick(r.flag_value ? yes : no);
        if (valid) { r.value = random_case(s, r.value); }
        else if (s.chance(40)) { r.value = std::vector<std::string>{"maybe", "2", "full", "none", "partial", "local", "yesno", "00", "of", "y e s"}[s.u(10)]; }
        else { r.value = mutate(r.value); }
        return r;
    }
    if (r.key == "objective") {
        if (valid) {
            switch (s.u(6)) {
                case 0: r.value = random_case(s, "local"); break;
                case 1: r.value = random_case(s, "global"); break;
                case 2: r.value = random_case(s, "global") + "," + random_case(s, "e"); break;
                case 3: r.value = random_case(s, "global") + "," + std::to_string(s.range(0, 20)); break;
                case 4: r.value = "global," + std::to_string(s.range(0, 30)) + "/" + std::to_string(s.range(1, 12)); break;
                default: r.value = "global,100000000000000000000000/" + std::to_string(s.range(1, 9)); break;
            }
        } else {
            r.value = std::vector<std::string>{"", "global,", "global,x", "global,1/0", "global,0/0", "global;1", "globally", "local,1", "lokal", "loca", "globa", "global,e2",
                                               "global,1e", "global,ee", "global,1/2/3", "yes", "no", "global,1,2", "global 1", "global,--1", "global,/2", "global,1/", ",1", "globale", "local "}[s.u(25)];
        }
        return r;
    }
    auto const &w = words.at(r.key);
    if (valid) { r.value = random_case(s, s.pick(w)); }
    else if (s.chance(50)) { r.value = mutate(s.pick(w)); }
    else {
        std::vector<std::string> other;
        for (auto const &x : {"none", "match", "conflict", "no", "partial", "total", "changed", "full", "yes", "on", "off", "0", "1", "local", "global"}) {
            if (std::find(w.begin(), w.end(), x) == w.end()) { other.push_back(x); }
        }
        r.value = s.pick(other);
    }
    return r;
}

// what a theory does: deterministic for a single thread
std::string fingerprint(clingolpx_theory_t *t, std::string const &text, std::vector<std::string> const &clasp) {
    std::string r;
    bool valid = clingolpx_validate_options(t);
    if (!valid) { return "validation fails"; }
    try {
        std::vector<char const *> args{"0"};
        for (auto const &a : clasp) { args.push_back(a.c_str()); }
        Clingo::Control ctl{Clingo::StringSpan{args.data(), args.size()}, [](Clingo::WarningCode, char const *) {}, 1000};
        Clingo::Detail::handle_error(clingolpx_register(t, ctl.to_c()));
        ctl.add("base", {}, text.c_str());
        ctl.ground({{"base", {}}});
        struct H : Clingo::SolveEventHandler {
            clingolpx_theory_t *t;
            std::string &r;
            size_t n = 0;
            H(clingolpx_theory_t *t, std::string &r) : t{t}, r{r} {}
            bool on_model(Clingo::Model &m) override {
                Clingo::Detail::handle_error(clingolpx_on_model(t, m.to_c()));
                r += "\n";
                for (auto const &x : m.symbols(Clingo::ShowType::Shown)) { r += x.to_string() + " "; }
                auto th = m.symbols(Clingo::ShowType::Theory);
                std::sort(th.begin(), th.end());
                for (auto const &x : th) { r += x.to_string() + " "; }
                return ++n < 300;
            }
            void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
                Clingo::Detail::handle_error(clingolpx_on_statistics(t, step.to_c(), accu.to_c()));
            }
        } h{t, r};
        auto res = ctl.solve(Clingo::LiteralSpan{}, &h, false, false).get();
        r += res.is_satisfiable() ? "\nSAT" : "\nUNSAT";
        auto st = ctl.statistics();
        if (st.has_subkey("user_step")) {
            auto x = st["user_step"]["Simplex"];
            r += " pivots " + std::to_string(x["Pivots"].value()) + " bounds " + std::to_string(x["Bounds propagated"].value());
        }
    } catch (pbt::Fail const &) {
        throw;
    } catch (std::exception const &e) { r += std::string("\nerror: ") + e.what(); }
    return r;
}

#ifndef NO_INTERNALS
// the same with the propagator itself and the options as they should have been understood
template <class Value> std::string direct(::Options const &o, std::string const &text, std::vector<std::string> const &clasp) {
    std::string r;
    try {
        std::vector<char const *> args{"0"};
        for (auto const &a : clasp) { args.push_back(a.c_str()); }
        Propagator<Value> prop{o};
        Clingo::Control ctl{Clingo::StringSpan{args.data(), args.size()}, [](Clingo::WarningCode, char const *) {}, 1000};
        prop.register_control(ctl);
        ctl.add("base", {}, text.c_str());
        ctl.ground({{"base", {}}});
        struct H : Clingo::SolveEventHandler {
            Propagator<Value> &prop;
            std::string &r;
            size_t n = 0;
            H(Propagator<Value> &prop, std::string &r) : prop{prop}, r{r} {}
            bool on_model(Clingo::Model &m) override {
                r += "\n";
                auto str = [](auto const &x) { std::ostringstream ss; ss << x; return Clingo::String(ss.str().c_str()); };
                std::vector<Clingo::Symbol> th;
                for (uint32_t i = 0, e = prop.n_values(m.thread_id()); i < e; ++i) {
                    auto sym = prop.get_symbol(i);
                    if (sym.type() != Clingo::SymbolType::Number) { th.push_back(Clingo::Function("__lpx", {sym, str(prop.get_value(m.thread_id(), i))})); }
                }
                if (auto obj = prop.get_objective(m.thread_id())) { th.push_back(Clingo::Function("__lpx_objective", {str(obj->first), Clingo::Number(obj->second ? 1 : 0)})); }
                prop.on_model(m);
                for (auto const &x : m.symbols(Clingo::ShowType::Shown)) { r += x.to_string() + " "; }
                std::sort(th.begin(), th.end());
                for (auto const &x : th) { r += x.to_string() + " "; }
                return ++n < 300;
            }
            void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override { prop.on_statistics(step, accu); }
        } h{prop, r};
        auto res = ctl.solve(Clingo::LiteralSpan{}, &h, false, false).get();
        r += res.is_satisfiable() ? "\nSAT" : "\nUNSAT";
        auto st = ctl.statistics();
        if (st.has_subkey("user_step")) {
            auto x = st["user_step"]["Simplex"];
            r += " pivots " + std::to_string(x["Pivots"].value()) + " bounds " + std::to_string(x["Bounds propagated"].value());
        }
    } catch (pbt::Fail const &) {
        throw;
    } catch (std::exception const &e) { r += std::string("\nerror: ") + e.what(); }
    return r;
}
#endif

bool known_key(std::string const &k) {
    for (auto const &x : {"strict", "objective", "propagate-conflicts", "propagate-bounds", "select", "store"}) { if (k == x) { return true; } }
    return false;
}

void c17(Ctx &c) {
    auto &s = c.src;
    Unhook unhook;
    bool strict_rel = s.chance(25);
    auto conf = mixed(s, strict_rel);
    conf.must_objective = s.chance(70);
    conf.atoms_lo = std::max(conf.atoms_lo, 2);
    conf.atoms_hi = std::max(conf.atoms_hi, 3);
    auto p = gen_prog(s, conf);
    run::Options clasp;
    gen_clasp(s, clasp);
    Theory by_key, by_option;
    Captured cap_key{by_key.get()}, cap{by_option.get()};
    std::string log = p.text() + "clasp options:" + clasp.str() + "\n";
    int n = s.range(1, 7), accepted = 0, rejected = 0;
    std::map<std::string, std::string> final_setting;
    for (int i = 0; i < n; ++i) {
        clingo_set_error(clingo_error_success, "");
        if (s.chance(12)) { // unknown keys
            std::string k = std::vector<std::string>{"", "strictly", "stric", "Strict", "propagate", "propagate_bounds", "propagate-bound", "obj", "objectives", "select ", "SELECT", "stores", "unknown", "-strict", "--strict"}[s.u(15)];
            std::string v = std::vector<std::string>{"yes", "no", "none", "global", "full"}[s.u(5)];
            log += "configure '" + k + "' '" + v + "'\n";
            c.describe(log);
            CHECK(!known_key(k), "oracle: key");
            CHECK(!clingolpx_configure(by_key.get(), k.c_str(), v.c_str()), "unknown key '" << k << "' is accepted");
            char const *m = clingo_error_message();
            CHECK(m != nullptr && *m != '\0', "no error message for unknown key '" << k << "'");
            ++rejected;
            continue;
        }
        auto x = gen_setting(s);
        log += "configure '" + x.key + "' '" + x.value + "'\n";
        c.describe(log);
        bool ok = clingolpx_configure(by_key.get(), x.key.c_str(), x.value.c_str());
        if (!ok) {
            char const *m = clingo_error_message();
            CHECK(m != nullptr && *m != '\0', "no error message for value '" << x.value << "' of key '" << x.key << "'");
        }
        auto const *opt = cap.find(x.key);
        CHECK(opt != nullptr, "no command-line option --" << x.key);
        if (x.flag) {
            CHECK(opt->flag != nullptr, "option --" << x.key << " is not a flag");
            if (ok && x.expected == Verdict::Valid) { *opt->flag = x.flag_value; }
        } else {
            CHECK(opt->parse != nullptr, "option --" << x.key << " is a flag");
            CHECK(!opt->multi, "option --" << x.key << " accepts several values");
            bool opt_ok = false;
            try { opt_ok = opt->parse(x.value.c_str(), opt->data); } catch (std::exception const &) {} // clingo reports this as an error
            CHECK(opt_ok == ok, "value '" << x.value << "' is " << (ok ? "accepted" : "rejected") << " for key '" << x.key << "' but " << (opt_ok ? "accepted" : "rejected") << " for option --" << x.key);
        }
        CHECK(ok == (x.expected == Verdict::Valid), "value '" << x.value << "' is " << (ok ? "accepted" : "rejected") << " for key '" << x.key << "'");
        ok ? ++accepted : ++rejected;
        if (ok) { final_setting[x.key] = x.value; }
    }
    // a third theory gets only what was accepted, once, in any order
    Theory fresh;
    for (auto const &[k, v] : final_setting) { CHECK(clingolpx_configure(fresh.get(), k.c_str(), v.c_str()), "value '" << v << "' of key '" << k << "' is rejected now"); }
    auto lower = [](std::string t) { for (auto &ch : t) { ch = static_cast<char>(tolower(ch)); } return t; };
    auto is_yes = [&](std::string const &k) { auto it = final_setting.find(k); return it != final_setting.end() && (lower(it->second) == "yes" || lower(it->second) == "on" || it->second == "1"); };
    bool strict = is_yes("strict");
    bool eps = final_setting.count("objective") && lower(final_setting["objective"]) == "global,e";
    clingo_set_error(clingo_error_success, "");
    bool valid = clingolpx_validate_options(by_key.get());
    CHECK(valid == !(eps && !strict), "validation " << (valid ? "accepts" : "rejects") << (eps ? " an infinitesimal step" : "") << (strict ? " in strict mode" : ""));
    if (!valid) {
        char const *m = clingo_error_message();
        CHECK(m != nullptr && *m != '\0', "validation fails without message");
    }
    auto text = p.text();
    auto f1 = fingerprint(by_key.get(), text, clasp.clasp), f2 = fingerprint(by_option.get(), text, clasp.clasp), f3 = fingerprint(fresh.get(), text, clasp.clasp);
    c.ran(3);
    CHECK(f1 == f2, "configured by key:" << f1 << "\nconfigured by option:" << f2);
    CHECK(f1 == f3, "after the whole sequence:" << f1 << "\nafter the accepted values only:" << f3);
#ifndef NO_INTERNALS
    if (valid) {
        ::Options o;
        auto get = [&](std::string const &k) { auto it = final_setting.find(k); return it != final_setting.end() ? lower(it->second) : std::string(); };
        auto select = get("select"), store = get("store"), bounds = get("propagate-bounds"), objective = get("objective");
        if (select == "match") { o.select = SelectionHeuristic::Match; }
        if (select == "conflict") { o.select = SelectionHeuristic::Conflict; }
        if (store == "partial") { o.store_sat_assignment = StoreSATAssignments::Partial; }
        if (store == "total") { o.store_sat_assignment = StoreSATAssignments::Total; }
        if (bounds == "changed") { o.propagate_mode = PropagateMode::Changed; }
        if (bounds == "full") { o.propagate_mode = PropagateMode::Full; }
        o.propagate_conflicts = is_yes("propagate-conflicts");
        if (objective == "global") { o.global_objective = RationalQ{0}; }
        else if (eps) { o.global_objective = RationalQ{Rational{0}, Rational{1}}; }
        else if (objective.rfind("global,", 0) == 0) {
            Rational step{objective.c_str() + 7, 10};
            step.canonicalize();
            o.global_objective = RationalQ{std::move(step)};
        }
        auto f4 = strict ? direct<RationalQ>(o, text, clasp.clasp) : direct<Rational>(o, text, clasp.clasp);
        c.ran(1);
        CHECK(f1 == f4, "configured by key:" << f1 << "\npropagator with these options:" << f4);
    }
#endif
    if (valid) {
        if (final_setting.count("select") + final_setting.count("store") + final_setting.count("propagate-bounds") > 0) { c.label("search options"); }
    }
    if (valid && p.strict && !strict) { CHECK(f1.find("error:") != std::string::npos, "strict relations accepted without strict mode"); }
    if (valid && !(p.strict && !strict)) {
        CHECK(f1.find("error:") == std::string::npos, "unexpected error:" << f1);
        auto it = final_setting.find("propagate-bounds");
        if (it != final_setting.end() && lower(it->second) == "none" && f1.find(" bounds ") != std::string::npos) { CHECK(f1.find(" bounds 0.0") != std::string::npos, "bounds propagated with propagate-bounds=none"); }
        if (final_setting.count("propagate-bounds") == 0) { c.label("default propagation"); }
        // local: every answer; global: never two answers below one another
        auto models = static_cast<size_t>(std::count(f1.begin(), f1.end(), '\n'));
        if (models > 2) { c.label("several answers"); }
    }
    if (rejected) { c.label("rejected values"); }
    if (!valid) { c.label("validation fails"); }
    if (strict) { c.label("strict mode"); }
    c.nontrivial = accepted >= 1 && rejected >= 1 && valid;
}
pbt::Register r17{{"C17", c17,
                   "sequences of 1-7 configure calls (valid values in any letter case, invalid values, unknown keys); acceptance is compared with the documented values and "
                   "with the captured command-line parsers, errors need a message, and a random program solved with the theory configured by key, by option, and by the accepted "
                   "values only, and with the propagator itself and the options these values stand for, must behave identically (answers in order, values, pivots, bounds); non-trivial: values accepted and rejected and a valid configuration",
                   50000, 900000}};

// ---- C20

void c20(Ctx &c) {
    auto &s = c.src;
    Unhook unhook;
    bool strict = s.chance(15);
    HistoryConf hc;
    hc.conf = mixed(s, strict);
    hc.dense = s.chance(50);
    auto h = gen_history(s, hc);
    strict = strict || h.p.strict;
    auto o = gen_options(s, strict, true);
    if (o.bounds.empty() && s.chance(60)) { o.bounds = s.chance(70) ? "full" : "changed"; }
    multi_shot(o);
    hooks::Delay delay;
    bool threads = s.chance(30);
    if (threads) {
        o.clasp.push_back("-t" + std::to_string(s.range(2, s.chance(15) ? 8 : 4)) + (s.chance(50) ? ",compete" : ",split"));
        delay.start(1 + s.u(100000), 1);
    }
    bool global = h.objective && s.chance(25);
    if (global) { o.objective = gen_step(s, strict).text; }
    std::string log = "options:" + o.str() + "\n";
    c.describe(log);
    Session ses{o, 2000};
    std::atomic<uint64_t> added{0}, open{0};
    hooks::on_clause = [&](clingo_propagate_control_t *ctl, literal_t const *lits, size_t n) {
        Clingo::PropagateControl pc{ctl};
        auto ass = pc.assignment();
        ++added;
        if (!std::all_of(lits, lits + n, [&](literal_t l) { return ass.is_false(l); })) { ++open; }
    };
    Stats sum{0, 0};
    size_t calls = 0, with_pivots = 0, with_bounds = 0;
    uint64_t before_pivots = 0;
    bool known = true; // statistics were reported so far
    // The counters of a call start at the initialisation: init may pivot, too.
    size_t cut = 0;
    auto start = [&](int) {
        before_pivots = pivot_calls; added = 0; open = 0;
        using Drive = Session::Drive;
        ses.drive = s.weighted({70, 30}) == 0 ? Drive::Callback : std::vector<Drive>{Drive::Yield, Drive::YieldAsync, Drive::Async}[s.u(3)];
        ses.late = s.chance(40);
        ses.stop = s.chance(20) ? 1 + s.u(2) : 0;
    };
    run_history(c, ses, h, hc, log, start, [&](int, Result const &r) {
        CHECK(!r.error, "unexpected error: " << r.msg);
        ++calls;
        if (r.stopped) { ++cut; }
        auto const &st = r.step;
        auto const &ac = r.accu;
        if (st.pivots < 0 && st.bounds < 0 && ac.pivots < 0) { known = false; return; } // clingo did not ask for statistics
        CHECK(st.pivots >= 0 && st.bounds >= 0 && ac.pivots >= 0 && ac.bounds >= 0, "statistics missing or negative: step " << st.pivots << "/" << st.bounds << " accumulated " << ac.pivots << "/" << ac.bounds);
        for (auto x : {st.pivots, st.bounds, ac.pivots, ac.bounds}) { CHECK(x == static_cast<double>(static_cast<uint64_t>(x)), "statistic " << x << " is not a whole number"); }
        sum.pivots += st.pivots;
        sum.bounds += st.bounds;
        CHECK(sum.pivots == ac.pivots, "pivots of solve calls sum up to " << sum.pivots << " but " << ac.pivots << " are accumulated (call " << calls << ", " << st.pivots << " in this call)");
        CHECK(sum.bounds == ac.bounds, "propagated bounds of solve calls sum up to " << sum.bounds << " but " << ac.bounds << " are accumulated");
        if (o.bounds == "none") { CHECK(st.bounds == 0, st.bounds << " bounds propagated with propagate-bounds=none"); }
        if (!global) {
            CHECK(st.bounds >= static_cast<double>(open), "only " << st.bounds << " bounds propagated but " << open << " propagating clauses were added");
            CHECK(st.bounds <= static_cast<double>(added), st.bounds << " bounds propagated but only " << added << " clauses were added");
        }
        uint64_t wrapped = pivot_calls - before_pivots;
        if (pivot_calls > 0 && __real__ZN7Tableau5pivotEjjR7IntegerS1_ != nullptr) {
            CHECK(st.pivots == static_cast<double>(wrapped), st.pivots << " pivots in the statistics but the tableau was pivoted " << wrapped << " times");
            c.label("pivots counted");
        }
        if (st.pivots > 0) { ++with_pivots; }
        if (st.bounds > 0) { ++with_bounds; }
    });
    if (!known) { c.label("call without statistics"); }
    if (cut) { c.label("interrupted solve call"); }
    if (with_bounds) { c.label("bounds propagated"); }
    if (threads) { c.label("several threads"); }
    if (with_pivots > 1) { c.label("pivots in several calls"); }
    if (h.steps > 1) { c.label("several parts"); }
    if (global) { c.label("global objective"); }
    c.nontrivial = calls >= 2 && with_pivots >= 1;
}
pbt::Register r20{{"C20", c20,
                   "histories of 1-3 parts with several solve calls, 30% with 2-4 threads and injected delays, some with a global objective; step and accumulated statistics are "
                   "compared with each other, with the intercepted clauses and with the number of times the tableau was pivoted; non-trivial: at least two solve calls "
                   "and some pivots",
                   70000, 1500000, 60, true}};

} // namespace
