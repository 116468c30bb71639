#include "run.hh"
#include <algorithm>

namespace run {

std::string Options::str() const {
    std::string r;
    if (strict) { r += " strict"; }
    auto add = [&](char const *k, std::string const &v) { if (!v.empty()) { r += std::string(" ") + k + "=" + v; } };
    add("objective", objective);
    add("select", select);
    add("store", store);
    add("propagate-bounds", bounds);
    add("propagate-conflicts", conflicts);
    for (auto const &c : clasp) { r += " " + c; }
    return r;
}

std::string Model::id() const {
    std::string s;
    for (auto const &a : atoms) { s += (s.empty() ? "" : " ") + a; }
    return "{" + s + "}";
}

std::string Result::str() const {
    std::ostringstream o;
    if (error) { o << "error: " << msg << "\n"; }
    o << (sat ? "SAT" : "") << (unsat ? "UNSAT" : "") << (exhausted ? " exhausted" : "") << (truncated ? " truncated" : "") << "\n";
    size_t n = 0;
    for (auto const &m : models) {
        if (++n > 40) { o << "...\n"; break; }
        o << m.id() << " |";
        for (auto const &[k, v] : m.raw) { o << " " << k << "=" << v; }
        if (m.objective) { o << " | objective " << m.raw_objective << (m.objective->second ? " bounded" : " unbounded"); }
        o << "\n";
    }
    return o.str();
}

void configure(clingolpx_theory_t *t, Options const &o) {
    auto set = [&](char const *k, std::string const &v) {
        if (v.empty()) { return; }
        if (!clingolpx_configure(t, k, v.c_str())) {
            char const *m = clingo_error_message();
            throw std::runtime_error(std::string("configure: ") + (m ? m : "?"));
        }
    };
    set("strict", o.strict ? "yes" : "");
    set("objective", o.objective);
    set("select", o.select);
    set("store", o.store);
    set("propagate-bounds", o.bounds);
    set("propagate-conflicts", o.conflicts);
}

void ConditionMonitor::init(Clingo::PropagateInit &init) {
    // with a conflict, literals might not be part of the assignment
    if (init.assignment().has_conflict()) { return; }
    if (callback) { callback(init); }
    if (threads) {
        init.set_check_mode(Clingo::PropagatorCheckMode::Both);
        atoms_.clear();
        for (auto a : init.symbolic_atoms()) { atoms_.emplace_back(a.symbol(), init.solver_literal(a.literal())); }
        truth_.assign(static_cast<size_t>(init.number_of_threads()), std::vector<char>(atoms_.size(), 0));
    }
    auto ass = init.assignment();
    for (auto a : init.theory_atoms()) {
        for (auto e : a.elements()) {
            auto cond = e.condition();
            if (cond.size() < 2) { continue; }
            auto lit = init.solver_literal(e.condition_id());
            bool any_false = false, all_true = true;
            for (auto x : cond) {
                auto l = init.solver_literal(x);
                any_false = any_false || (ass.is_fixed(l) && ass.is_false(l));
                all_true = all_true && ass.is_fixed(l) && ass.is_true(l);
            }
            if (!ass.is_fixed(lit)) { continue; }
            if (ass.is_false(lit) ? !any_false : !all_true) { suspicious = true; }
        }
    }
}

void ConditionMonitor::check(Clingo::PropagateControl &ctl) {
    if (!threads) { return; }
    auto ass = ctl.assignment();
    auto &t = truth_[ctl.thread_id()];
    for (size_t i = 0; i < atoms_.size(); ++i) { t[i] = ass.is_true(atoms_[i].second) ? 1 : ass.is_false(atoms_[i].second) ? -1 : 0; }
}

bool ConditionMonitor::stale(Clingo::Model const &m) const {
    if (!threads) { return false; }
    auto const &t = truth_[m.thread_id()];
    for (size_t i = 0; i < atoms_.size(); ++i) {
        if (t[i] != 0 && m.contains(atoms_[i].first) != (t[i] > 0)) { return true; }
    }
    return false;
}

Session::Session(Options const &o, size_t cap, std::function<void(Clingo::Control &)> const &before) : o_{o}, cap_{cap} {
    th_ = std::make_unique<Theory>();
    configure(th_->get(), o);
    if (!clingolpx_validate_options(th_->get())) {
        char const *m = clingo_error_message();
        throw std::runtime_error(std::string("validate: ") + (m ? m : "?"));
    }
    std::vector<char const *> args{"0"};
    for (auto const &a : o_.clasp) { args.push_back(a.c_str()); }
    ctl_ = std::make_unique<Clingo::Control>(Clingo::StringSpan{args.data(), args.size()}, [this](Clingo::WarningCode, char const *m) { last_error_ = m; }, 1000);
    monitor_.threads = std::any_of(o_.clasp.begin(), o_.clasp.end(), [](std::string const &a) { return a.rfind("-t", 0) == 0; });
    ctl_->register_propagator(monitor_);
    if (before) { before(*ctl_); }
    Clingo::Detail::handle_error(clingolpx_register(th_->get(), ctl_->to_c()));
}

void Session::add(std::string const &part, std::string const &text) {
    // through the theory's rewriting interface, as documented
    std::string full = part == "base" ? text : "#program " + part + ".\n" + text;
    struct D { clingo_program_builder_t *b; clingolpx_theory_t *t; };
    clingo_program_builder_t *b = nullptr;
    using Clingo::Detail::handle_error;
    handle_error(clingo_program_builder_init(ctl_->to_c(), &b));
    handle_error(clingo_program_builder_begin(b));
    D d{b, th_->get()};
    handle_error(clingo_ast_parse_string(
        full.c_str(),
        [](clingo_ast_t *ast, void *data) {
            auto *d = static_cast<D *>(data);
            return clingolpx_rewrite_ast(d->t, ast, [](clingo_ast_t *a, void *bb) { return clingo_program_builder_add(static_cast<clingo_program_builder_t *>(bb), a); }, d->b);
        },
        &d, ctl_->to_c(), [](clingo_warning_t, char const *m, void *data) { *static_cast<std::string *>(data) = m; }, &last_error_, 1000));
    handle_error(clingo_program_builder_end(b));
}

void Session::ground(std::string const &part) {
    ctl_->ground({{part.c_str(), {}}});
    Clingo::Detail::handle_error(clingolpx_prepare(th_->get(), ctl_->to_c()));
}

bool Session::on_model(Clingo::Model &m) {
    bool yields = drive == Drive::Yield || drive == Drive::YieldAsync;
    return yields && late ? true : extend(m);
}

bool Session::extend(Clingo::Model &m) {
    std::map<std::string, std::string> before;
    bool read = early;
    if (read) {
        auto *t = th_->get();
        size_t index = 0;
        for (clingolpx_assignment_begin(t, m.thread_id(), &index); clingolpx_assignment_next(t, m.thread_id(), &index);) {
            clingolpx_value_t v{};
            clingolpx_assignment_get_value(t, m.thread_id(), index, &v);
            CHECK(v.type == clingolpx_value_type_symbol && Clingo::Symbol{v.symbol}.type() == Clingo::SymbolType::String, "value with index " << index << " is not a string");
            before.emplace(Clingo::Symbol{clingolpx_get_symbol(t, index)}.to_string(), Clingo::Symbol{v.symbol}.string());
        }
    }
    Clingo::Detail::handle_error(clingolpx_on_model(th_->get(), m.to_c()));
    if (monitor_.stale(m)) { monitor_.suspicious = true; }
    Model r;
    r.thread = m.thread_id();
    for (auto const &s : m.symbols(Clingo::ShowType::Shown)) { r.atoms.insert(s.to_string()); }
    std::string err;
    for (auto const &s : m.symbols(Clingo::ShowType::Theory)) {
        if (s.match("__lpx", 2)) {
            auto a = s.arguments();
            auto n = a[0].to_string();
            CHECK(a[1].type() == Clingo::SymbolType::String, "value of " << n << " is not a string");
            CHECK(r.raw.emplace(n, a[1].string()).second, "two values for " << n);
            auto v = ref::parse_value(a[1].string(), o_.strict, err);
            CHECK(v, "value of " << n << ": " << err);
            r.values[n] = *v;
        } else if (s.match("__lpx_objective", 2)) {
            auto a = s.arguments();
            CHECK(!r.objective, "two objective values");
            CHECK(a[0].type() == Clingo::SymbolType::String, "objective is not a string");
            auto v = ref::parse_value(a[0].string(), o_.strict, err);
            CHECK(v, "objective: " << err);
            CHECK(a[1] == Clingo::Number(0) || a[1] == Clingo::Number(1), "objective flag " << a[1]);
            r.raw_objective = a[0].string();
            r.objective = {*v, a[1] == Clingo::Number(1)};
        } else {
            pbt::fail("unexpected theory symbol " + s.to_string());
        }
    }
    if (read) { CHECK(before == r.raw, "values read before passing the model to the theory differ from those added to it"); }
    cur_->models.push_back(std::move(r));
    bool yields = drive == Drive::Yield || drive == Drive::YieldAsync;
    if (hook && !yields) { hook(m, cur_->models.back()); }
    if (cur_->models.size() >= cap_) { cur_->truncated = true; return false; }
    if (!yields && stop && cur_->models.size() >= stop) { cur_->stopped = true; return false; }
    return true;
}

void Session::on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) {
    Clingo::Detail::handle_error(clingolpx_on_statistics(th_->get(), step.to_c(), accu.to_c()));
}

Result Session::solve(std::vector<std::pair<std::string, bool>> const &assumptions) {
    Result r;
    cur_ = &r;
    std::vector<Clingo::SymbolicLiteral> ass;
    for (auto const &[a, v] : assumptions) { ass.emplace_back(Clingo::parse_term(a.c_str()), v); }
    std::optional<pbt::Fail> fail;
    try {
        bool async = drive == Drive::YieldAsync || drive == Drive::Async;
        bool yields = drive == Drive::Yield || drive == Drive::YieldAsync;
        std::vector<std::pair<Clingo::literal_t, size_t>> lits;
        bool all = true; // assumptions are atoms of the program
        for (size_t i = 0; i < ass.size(); ++i) {
            auto it = ctl_->symbolic_atoms().find(ass[i].symbol());
            if (!it) { all = false; continue; }
            lits.emplace_back(ass[i].is_positive() ? it->literal() : -it->literal(), i);
        }
        auto h = ctl_->solve(Clingo::SymbolicLiteralSpan{ass.data(), ass.size()}, this, async, yields);
        if (yields) {
            for (size_t n = 1;; ++n) {
                h.resume();
                if (async) { h.wait(); }
                auto const &m = h.model();
                if (!m) { break; }
                CHECK(r.models.size() == (late ? n - 1 : n), "model " << n << " has been reported " << r.models.size() << " times");
                Clingo::Model copy{m.to_c()};
                if (late && !extend(copy)) { h.cancel(); break; }
                if (hook) { hook(copy, r.models.back()); }
                if (stop && n >= stop) { r.stopped = true; h.cancel(); break; }
            }
        }
        if (async && !yields && interrupt_us >= 0) {
            if (!h.wait(interrupt_us * 1e-6)) { h.cancel(); r.stopped = true; }
        }
        auto res = h.get();
        r.sat = res.is_satisfiable();
        r.unsat = res.is_unsatisfiable();
        r.exhausted = res.is_exhausted();
        if (r.exhausted) { r.stopped = false; }
        if (r.unsat && all && !ass.empty()) {
            r.core.emplace();
            std::set<Clingo::literal_t> core;
            for (auto l : h.core()) { core.insert(l); }
            for (auto const &[l, i] : lits) {
                if (core.count(l)) { r.core->push_back(assumptions[i]); }
            }
            // externals are assumptions of clingo, too; cores with other literals are not judged
            for (auto a : ctl_->symbolic_atoms()) {
                if (a.is_external()) { core.erase(a.literal()); core.erase(-a.literal()); }
            }
            for (auto const &[l, i] : lits) { core.erase(l); }
            if (!core.empty()) { r.core.reset(); }
        }
    } catch (pbt::Fail const &) {
        cur_ = nullptr;
        if (monitor_.suspicious) { throw pbt::Discard{}; }
        throw;
    }
    cur_ = nullptr;
    if (monitor_.suspicious) { throw pbt::Discard{}; }
    auto st = ctl_->statistics();
    auto get = [&](char const *root, Stats &out) {
        if (!st.has_subkey(root)) { return; }
        auto u = st[root];
        if (!u.has_subkey("Simplex")) { return; }
        auto x = u["Simplex"];
        if (x.has_subkey("Pivots")) { out.pivots = x["Pivots"].value(); }
        if (x.has_subkey("Bounds propagated")) { out.bounds = x["Bounds propagated"].value(); }
    };
    get("user_step", r.step);
    get("user_accu", r.accu);
    return r;
}

static Result lpx(std::string const &text, Options const &o, size_t cap, Clingo::Heuristic *other, bool before) {
    try {
        Session s{o, cap, [&](Clingo::Control &ctl) { if (other && before) { ctl.register_propagator(*other); } }};
        if (other && !before) { s.ctl().register_propagator(*other); }
        s.add("base", text);
        s.ground("base");
        return s.solve();
    } catch (pbt::Fail const &) {
        throw;
    } catch (pbt::Discard const &) {
        throw;
    } catch (std::exception const &e) {
        Result r;
        r.error = true;
        r.msg = e.what();
        return r;
    }
}

Result lpx(std::string const &text, Options const &o, size_t cap) { return lpx(text, o, cap, nullptr, false); }
Result lpx(std::string const &text, Options const &o, size_t cap, Clingo::Heuristic &other, bool before) { return lpx(text, o, cap, &other, before); }

std::vector<Atoms> stable_models(std::string const &text, size_t cap) {
    Clingo::Control ctl{{"0"}, [](Clingo::WarningCode, char const *) {}, 1000};
    ctl.add("base", {}, text.c_str());
    ctl.ground({{"base", {}}});
    std::vector<Atoms> r;
    for (auto const &m : ctl.solve()) {
        Atoms a;
        for (auto const &s : m.symbols(Clingo::ShowType::Shown)) { a.insert(s.to_string()); }
        r.push_back(std::move(a));
        if (r.size() > cap) { throw pbt::Discard{}; }
    }
    std::sort(r.begin(), r.end());
    return r;
}

void gen_clasp(pbt::Src &s, Options &o) {
    switch (s.weighted({30, 15, 10, 10})) {
        case 1: o.clasp.push_back("--sign-def=pos"); break;
        case 2: o.clasp.push_back("--sign-def=rnd"); break;
        case 3: o.clasp.push_back("--sign-def=neg"); break;
        default: break;
    }
    if (s.chance(35)) { o.clasp.push_back(s.chance(50) ? "--rand-freq=1" : "--rand-freq=0.3"); }
    if (s.chance(30)) { o.clasp.push_back("--seed=" + std::to_string(1 + s.u(1000))); }
    if (s.chance(20)) { o.clasp.push_back(s.chance(50) ? "--enum-mode=record" : "--enum-mode=bt"); }
    if (s.chance(15)) {
        auto c = std::vector<std::string>{"tweety", "jumpy", "handy", "crafty", "trendy", "frumpy"}[s.u(6)];
        o.clasp.push_back("--configuration=" + c);
        // clasp 3.3.10 crashes in its own preprocessor with backpropagation, which these two enable
        if (c == "handy" || c == "crafty") { o.clasp.push_back("--no-backprop"); }
    }
    if (s.chance(10)) { o.clasp.push_back("--restarts=F," + std::to_string(1 + s.u(4))); }
    if (s.chance(8)) { o.clasp.push_back("--heuristic=" + std::vector<std::string>{"Berkmin", "Vmtf", "Vsids", "Unit", "None"}[s.u(5)]); }
    if (s.chance(6)) { o.clasp.push_back("--lookahead=" + std::vector<std::string>{"atom", "body", "hybrid"}[s.u(3)]); }
    if (s.chance(6)) { o.clasp.push_back("--sat-prepro=" + std::to_string(s.u(3))); }
    if (s.chance(6)) { o.clasp.push_back("--eq=0"); }
    if (s.chance(6)) { o.clasp.push_back("--deletion=basic,50"); }
}

Options gen_options(pbt::Src &s, bool strict, bool vary) {
    Options o;
    o.strict = strict;
    if (!vary) { return o; }
    if (s.chance(35)) { o.select = std::vector<std::string>{"none", "match", "conflict"}[s.u(3)]; }
    if (s.chance(40)) { o.store = std::vector<std::string>{"no", "partial", "total"}[s.u(3)]; }
    if (s.chance(45)) { o.bounds = std::vector<std::string>{"none", "changed", "full"}[s.u(3)]; }
    if (s.chance(35)) { o.conflicts = s.chance(70) ? "yes" : "no"; }
    gen_clasp(s, o);
    return o;
}

// ---- oracles

Expected::M const *Expected::find(Atoms const &a) const {
    for (auto const &m : models) { if (m.atoms == a) { return &m; } }
    return nullptr;
}

Expected expected(prog::Prog const &p, std::vector<Atoms> const &ms, int upto) {
    Expected e;
    std::map<std::string, bool> cache;
    for (auto const &a : ms) {
        Expected::M m;
        m.atoms = a;
        m.rows = p.rows(a, upto);
        std::string key;
        for (auto const &r : m.rows) { key += r.str() + ";"; }
        auto it = cache.find(key);
        if (it == cache.end()) { it = cache.emplace(key, ref::feasible(m.rows)).first; }
        m.feasible = it->second;
        if (m.feasible) { ++e.feasible; }
        e.models.push_back(std::move(m));
    }
    return e;
}

Expected expected(prog::Prog const &p, size_t cap) { return expected(p, stable_models(p.regular_text(), cap), 1 << 30); }

void check_sound(prog::Prog const &p, Model const &m, std::vector<ref::Row> const &rows, bool strict) {
    for (auto const &r : rows) {
        for (auto const &[v, c] : r.co) { CHECK(m.values.count(v), "answer " << m.id() << " has no value for variable " << v); }
        CHECK(ref::satisfies(r, m.values), "answer " << m.id() << " violates active constraint " << r.str());
    }
    std::set<std::string> known(p.vars.begin(), p.vars.end());
    for (auto const &[v, q] : m.values) {
        CHECK(known.count(v), "answer " << m.id() << " has a value for unknown variable " << v);
        CHECK(strict || q.k == 0, "epsilon in non-strict mode");
    }
}

void check_objective(prog::Prog const &p, Model const &m, std::vector<ref::Row> const &rows, int upto) {
    if (!p.has_objective(upto)) {
        CHECK(!m.objective, "objective reported without objective statement");
        return;
    }
    auto obj = p.objective(m.atoms, upto);
    if (!m.objective) {
        CHECK(obj.constant() && obj.cst == 0, "answer " << m.id() << ": no objective value reported");
        return;
    }
    auto o = ref::optimum(rows, obj);
    if (!o.feasible) { return; } // unsound answers are found by other properties
    CHECK(o.bounded == m.objective->second, "answer " << m.id() << ": optimum is " << (o.bounded ? "bounded" : "unbounded") << " but reported as "
                                                        << (m.objective->second ? "bounded" : "unbounded") << " " << m.raw_objective);
    if (o.bounded) {
        CHECK(o.sup == m.objective->first.c, "answer " << m.id() << ": optimum is " << o.sup << " but " << m.raw_objective << " is reported");
        CHECK(o.attained ? m.objective->first.k == 0 : m.objective->first.k < 0,
              "answer " << m.id() << ": optimum " << o.sup << (o.attained ? " is attained" : " is not attained") << " but " << m.raw_objective << " is reported");
        for (auto const &[v, c] : obj.co) { CHECK(m.values.count(v), "no value for objective variable " << v); }
        auto val = obj.eval(m.values);
        CHECK(val == m.objective->first, "answer " << m.id() << ": assignment has objective value " << val.str() << " but " << m.raw_objective << " is reported");
    }
}

void check_answers(Expected const &e, Result const &r) {
    CHECK(!r.error, "unexpected error: " << r.msg);
    std::set<Atoms> seen;
    for (auto const &m : r.models) {
        auto const *x = e.find(m.atoms);
        CHECK(x != nullptr, "answer " << m.id() << " is not a stable model of the regular part");
        CHECK(x->feasible, "answer " << m.id() << " has an unsatisfiable constraint system");
        CHECK(seen.insert(m.atoms).second, "answer " << m.id() << " reported twice");
    }
    CHECK(!r.truncated, "too many answers");
    for (auto const &x : e.models) {
        if (x.feasible && !seen.count(x.atoms)) {
            Model m;
            m.atoms = x.atoms;
            pbt::fail("answer " + m.id() + " is missing although its constraint system is satisfiable");
        }
    }
    CHECK(r.sat == (e.feasible > 0) && r.unsat == (e.feasible == 0), "wrong verdict");
    CHECK(r.exhausted, "search not exhausted");
}

std::string show(prog::Prog const &p, Options const &o) { return "options:" + o.str() + "\n" + p.text(); }

} // namespace run
