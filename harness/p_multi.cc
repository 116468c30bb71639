// C06 C07: parallel and multi-shot solving
#include "global_oracle.hh"
#include "hooks.hh"

using namespace shared;

namespace {

struct Mirror { // plain clingo with the same parts, externals and assumptions
    Clingo::Control ctl{{"0"}, [](Clingo::WarningCode, char const *) {}, 1000};
    std::vector<Atoms> solve(std::vector<std::pair<std::string, bool>> const &assumptions, size_t cap) {
        std::vector<Clingo::SymbolicLiteral> ass;
        for (auto const &[a, v] : assumptions) { ass.emplace_back(Clingo::parse_term(a.c_str()), v); }
        std::vector<Atoms> r;
        for (auto const &m : ctl.solve(Clingo::SymbolicLiteralSpan{ass.data(), ass.size()})) {
            Atoms a;
            for (auto const &s : m.symbols(Clingo::ShowType::Shown)) { a.insert(s.to_string()); }
            r.push_back(std::move(a));
            if (r.size() > cap) { throw pbt::Discard{}; }
        }
        std::sort(r.begin(), r.end());
        return r;
    }
};

// one history of a control, compared call by call with the reference
void history(Ctx &c, bool parallel) {
    auto &s = c.src;
    bool strict = s.chance(15);
    Conf conf;
    conf.strict = strict;
    conf.rich = s.range(1, 2);
    bool dense = s.chance(parallel ? 60 : 30); // more choices and learning, fewer parts
    int steps = parallel && s.chance(65) ? 1 : dense ? s.range(1, 2) : s.range(1, 4);
    Prog p;
    p.regular.resize(static_cast<size_t>(steps));
    auto all_vars = gen_vars(s, 1, 5, 1);
    std::vector<std::string> vars; // introduced so far
    bool objective = s.chance(55);
    std::string clash;
    std::vector<std::vector<std::string>> ext_of(static_cast<size_t>(steps));
    std::string pre;
    for (int i = 0; i < steps; ++i) {
        auto &rules = p.regular[static_cast<size_t>(i)];
        std::string sfx = i == 0 ? "" : "_" + std::to_string(i);
        if (i > 0) { rules.push_back("#program p" + std::to_string(i) + "."); }
        Conf ci = conf;
        ci.atoms_lo = 0;
        ci.atoms_hi = 2;
        if (dense) { ci.atoms_lo = 2; ci.atoms_hi = i == 0 ? 5 : 2; }
        int ne = s.chance(45) ? s.range(1, 2) : 0;
        for (int j = 0; j < ne; ++j) {
            std::string e = "e" + std::to_string(j) + sfx;
            rules.push_back("#external " + e + ".");
            ext_of[static_cast<size_t>(i)].push_back(e);
            p.choice.push_back(e);
        }
        gen_regular(s, ci, p, rules, p.choice, sfx);
        size_t upto = i == 0 ? 1 + s.u(static_cast<uint32_t>(all_vars.size())) : vars.size() + s.u(static_cast<uint32_t>(all_vars.size() - vars.size() + 1));
        for (size_t k = vars.size(); k < upto; ++k) { vars.push_back(all_vars[k]); }
        p.vars = vars;
        auto st = gen_style(s, ci, vars);
        int n = 0;
        while (s.more(static_cast<uint32_t>(n), i == 0 ? 1 : 0, dense ? 14 : 7, dense ? 9 : 3)) {
            auto k = gen_con(s, st, ci, vars, p.choice);
            k.step = i;
            p.cons.push_back(k);
            ++n;
        }
        // constraints of earlier parts once more, with the same or other bodies
        while (i > 0 && !p.cons.empty() && s.chance(22)) {
            auto k = s.pick(p.cons);
            k.step = i;
            if (s.chance(70)) { k.body = gen_body(s, p.choice, 2); }
            if (s.chance(25)) { k.rel = std::vector<Rel>{Rel::LE, Rel::GE, Rel::EQ}[s.u(3)]; }
            p.cons.push_back(k);
        }
        if (i == 0 && !ext_of[0].empty() && s.chance(2)) {
            // inconsistent once the external is released; clasp sees this while it simplifies the program
            auto const &e = ext_of[0][0];
            for (auto const &r : {"c0 :- not " + e + ".", "c1 :- not " + e + ", c0.", "c2 :- " + e + ".", std::string(":- c1, c0.")}) { rules.push_back(r); }
            auto k = gen_con(s, st, ci, vars, p.choice);
            for (auto &el : k.elems) { if (k.kind == Con::Sum) el.cond = {{"c0", false}, {"c1", true}}; }
            p.cons.push_back(k);
            clash = e;
        }
        if (std::vector<std::string> pool; std::any_of(p.choice.begin(), p.choice.end(), [&](auto const &a) { return a == "k0" + sfx; })) {
            for (auto const &a : p.choice) { if (a[0] == 'k') { pool.push_back(a); } }
            auto sk = st;
            sk.cond = 90;
            auto k = gen_con(s, sk, ci, vars, pool);
            k.step = i;
            p.cons.push_back(k);
        }
        if (dense && i == 0) { box(s, p, 70); }
        if (objective && s.chance(60)) { gen_objective(s, st, ci, p, vars, p.choice, i); }
    }
    p.strict = std::any_of(p.cons.begin(), p.cons.end(), [](Con const &x) { return x.strict(); });
    strict = strict || p.strict;
    auto o = gen_options(s, strict, true);
    multi_shot(o);
    int threads = 1;
    hooks::Delay delay;
    if (parallel) {
        threads = s.range(2, s.chance(20) ? 6 : 3);
        o.clasp.push_back("-t" + std::to_string(threads) + (s.chance(60) ? ",compete" : ",split"));
        if (s.chance(20) && std::none_of(o.clasp.begin(), o.clasp.end(), [](auto const &a) { return a.rfind("--configuration", 0) == 0; })) { o.clasp.push_back("--configuration=many"); }
        if (s.chance(25)) { o.clasp.push_back("--distribute=" + std::vector<std::string>{"conflict,global,4", "all,global,16", "all,local,100"}[s.u(3)]); }
        if (s.chance(25)) { o.clasp.push_back("--integrate=" + std::vector<std::string>{"all", "unsat", "active", "gp"}[s.u(4)]); }
        delay.start(s.chance(70) ? 1 + s.u(1000000) : 0, static_cast<int>(s.u(3)));
    }
    Step st;
    bool global = objective && s.chance(dense ? 60 : 25);
    if (global) { st = gen_step(s, strict); o.objective = st.text; }
    std::string log = "options:" + o.str() + "\n";
    c.describe(log);
    Mirror mirror;
    Session ses{o, 2000};
    std::set<unsigned> reporting;
    std::vector<std::string> live, known;
    bool blocking = false; // add clauses while models are enumerated
    std::vector<std::pair<size_t, std::vector<std::pair<std::string, bool>>>> clauses; // number of models before, literals
    size_t nth = 0;
    ses.hook = [&](Clingo::Model &m, Model const &r) {
        reporting.insert(r.thread);
        ++nth;
        if (blocking && !known.empty() && s.chance(45)) {
            std::vector<Clingo::SymbolicLiteral> lits;
            std::vector<std::pair<std::string, bool>> cl;
            for (int i = s.range(1, 3); i > 0; --i) {
                auto a = s.pick(known);
                // mostly clauses that exclude the current model
                bool v = s.chance(80) ? r.atoms.count(a) == 0 : s.chance(50);
                cl.emplace_back(a, v);
                lits.emplace_back(Clingo::parse_term(a.c_str()), v);
            }
            m.context().add_clause(Clingo::SymbolicLiteralSpan{lits.data(), lits.size()});
            clauses.emplace_back(nth, cl);
        }
        // the values read for the reporting thread are those of the model
        std::map<std::string, std::string> got;
        size_t index = 0;
        clingolpx_assignment_begin(ses.theory(), m.thread_id(), &index);
        while (clingolpx_assignment_next(ses.theory(), m.thread_id(), &index)) {
            clingolpx_value_t v;
            clingolpx_assignment_get_value(ses.theory(), m.thread_id(), index, &v);
            got[Clingo::Symbol{clingolpx_get_symbol(ses.theory(), index)}.to_string()] = Clingo::Symbol{v.symbol}.string();
        }
        CHECK(got == r.raw, "values read for the reporting thread differ from those in the model " << r.id());
    };
    int solves = 0, changed = 0, nonempty = 0, cut = 0, cores = 0;
    std::string last;
    for (int i = 0; i < steps; ++i) {
        std::string part = i == 0 ? "base" : "p" + std::to_string(i);
        std::string reg = p.regular_text(i), th = p.theory_text(i);
        log += reg + th + "== ground " + part + "\n";
        c.describe(log);
        // regular_text(i) starts with the #program directive
        mirror.ctl.add("base", {}, reg.c_str());
        ses.add("base", reg + th);
        mirror.ctl.ground({{part.c_str(), {}}});
        ses.ground(part);
        for (auto const &e : ext_of[static_cast<size_t>(i)]) { live.push_back(e); }
        for (auto const &a : p.choice) {
            bool here = i == 0 ? a.find('_') == std::string::npos : a.size() > 2 && a.compare(a.size() - 2, 2, "_" + std::to_string(i)) == 0;
            if (here) { known.push_back(a); }
        }
        int m = s.range(i + 1 == steps ? 1 : 0, dense ? 4 : 3);
        for (int k = 0; k < m; ++k) {
            // change externals
            for (size_t j = 0; j < live.size();) {
                auto sym = Clingo::parse_term(live[j].c_str());
                bool gone = false;
                switch (live[j] == clash ? s.weighted({50, 5, 5, 5, 35}) : s.weighted({50, 20, 12, 12, 6})) {
                    case 1: mirror.ctl.assign_external(sym, Clingo::TruthValue::True); ses.ctl().assign_external(sym, Clingo::TruthValue::True); log += "== " + live[j] + " true\n"; break;
                    case 2: mirror.ctl.assign_external(sym, Clingo::TruthValue::False); ses.ctl().assign_external(sym, Clingo::TruthValue::False); log += "== " + live[j] + " false\n"; break;
                    case 3: mirror.ctl.assign_external(sym, Clingo::TruthValue::Free); ses.ctl().assign_external(sym, Clingo::TruthValue::Free); log += "== " + live[j] + " free\n"; break;
                    case 4: mirror.ctl.release_external(sym); ses.ctl().release_external(sym); log += "== " + live[j] + " released\n"; gone = true; break;
                    default: break;
                }
                if (gone) { live.erase(live.begin() + static_cast<long>(j)); } else { ++j; }
            }
            std::vector<std::pair<std::string, bool>> ass;
            if (!known.empty() && s.chance(40)) {
                int na = s.range(1, 2);
                for (int j = 0; j < na; ++j) { ass.emplace_back(s.pick(known), s.chance(50)); }
            }
            log += "== solve";
            for (auto const &[a, v] : ass) { log += std::string(v ? " " : " not ") + a; }
            log += "\n";
            c.describe(log);
            if (parallel && solves > 0 && s.chance(25)) {
                int t = s.range(1, 4);
                auto mode = std::to_string(t) + (s.chance(50) ? ",compete" : ",split");
                ses.ctl().configuration()["solve"]["parallel_mode"] = mode.c_str();
                log += "== parallel mode " + mode + "\n";
                c.describe(log);
                c.label("changed number of threads");
            }
            auto models = mirror.solve(ass, 150);
            auto e = expected(p, models, i);
            using Drive = Session::Drive;
            ses.drive = s.weighted({70, 30}) == 0 ? Drive::Callback : std::vector<Drive>{Drive::Yield, Drive::YieldAsync, Drive::Async}[s.u(3)];
            ses.late = s.chance(40);
            ses.early = s.chance(30);
            ses.stop = s.chance(20) ? 1 + s.u(3) : 0;
            ses.interrupt_us = parallel && ses.drive == Drive::Async && s.chance(50) ? static_cast<int>(s.u(1500)) : -1;
            if (ses.drive != Drive::Callback || ses.stop) {
                static char const *names[] = {"callback", "yield", "yield async", "async"};
                log += std::string("== by ") + names[static_cast<int>(ses.drive)] + (ses.stop ? ", stop after " + std::to_string(ses.stop) : "") + "\n";
                c.describe(log);
            }
            blocking = !parallel && !global && !ses.stop && ses.drive != Drive::Async && ses.drive != Drive::YieldAsync && s.chance(12);
            clauses.clear();
            nth = 0;
            auto r = ses.solve(ass);
            c.ran();
            if (!clauses.empty()) {
                for (auto const &[n, cl] : clauses) {
                    log += "== clause after model " + std::to_string(n) + ":";
                    for (auto const &[a, v] : cl) { log += (v ? " " : " not ") + a; }
                    log += "\n";
                }
                c.describe(log);
                c.label("clauses added with models");
            }
            std::string what = "solve call " + std::to_string(solves + 1) + ": ";
            try {
                if (r.stopped) {
                    // what has been reported so far is part of the answer
                    ++cut;
                    CHECK(!r.error && !r.truncated, "unexpected error: " << r.msg);
                    CHECK(ses.stop == 0 || r.models.size() <= ses.stop, r.models.size() << " models reported but the search ended after " << ses.stop);
                    std::set<std::string> seen;
                    for (auto const &mo : r.models) {
                        auto const *x = e.find(mo.atoms);
                        CHECK(x && x->feasible, "answer " << mo.id() << " is not a feasible stable model");
                        check_sound(p, mo, x->rows, strict);
                        check_objective(p, mo, x->rows, i);
                        CHECK(global || seen.insert(mo.id()).second, "answer " << mo.id() << " reported twice");
                    }
                    CHECK(r.models.empty() || (r.sat && !r.unsat), "wrong verdict");
                } else if (!clauses.empty()) {
                    CHECK(!r.error, "unexpected error: " << r.msg);
                    CHECK(!r.truncated, "too many answers");
                    CHECK(r.exhausted, "search not exhausted");
                    auto sat = [](Atoms const &at, auto const &cl) { return std::any_of(cl.begin(), cl.end(), [&](auto const &l) { return (at.count(l.first) > 0) == l.second; }); };
                    std::set<Atoms> seen;
                    for (size_t n = 0; n < r.models.size(); ++n) {
                        auto const &mo = r.models[n];
                        auto const *x = e.find(mo.atoms);
                        CHECK(x && x->feasible, "answer " << mo.id() << " is not a feasible stable model");
                        check_sound(p, mo, x->rows, strict);
                        check_objective(p, mo, x->rows, i);
                        CHECK(seen.insert(mo.atoms).second, "answer " << mo.id() << " reported twice");
                        for (auto const &[k, cl] : clauses) { CHECK(k > n || sat(mo.atoms, cl), "answer " << mo.id() << " violates a clause added after answer " << k); }
                    }
                    for (auto const &x : e.models) {
                        if (!x.feasible || seen.count(x.atoms)) { continue; }
                        CHECK(std::any_of(clauses.begin(), clauses.end(), [&](auto const &y) { return !sat(x.atoms, y.second); }), "an answer that satisfies all clauses is missing");
                    }
                } else if (global && parallel) {
                    CHECK(!r.error, "unexpected error: " << r.msg);
                    CHECK(!r.truncated, "too many answers");
                    CHECK(r.exhausted, "search not exhausted");
                    check_global(p, e, r.models, st, strict, i, false);
                    CHECK(r.sat == (e.feasible > 0) && r.unsat == (e.feasible == 0), "wrong verdict");
                } else if (global) {
                    CHECK(!r.error, "unexpected error: " << r.msg);
                    CHECK(!r.truncated, "too many answers");
                    CHECK(r.exhausted, "search not exhausted");
                    check_global(p, e, r.models, st, strict, i);
                    CHECK(r.sat == (e.feasible > 0) && r.unsat == (e.feasible == 0), "wrong verdict");
                } else {
                    check_answers(e, r);
                    for (auto const &mo : r.models) {
                        auto const *x = e.find(mo.atoms);
                        check_sound(p, mo, x->rows, strict);
                        check_objective(p, mo, x->rows, i);
                    }
                }
                // with split based search, clasp gives the core of one part of the search space
                if (r.core && !ass.empty() && !parallel) {
                    auto cm = mirror.solve(*r.core, 150);
                    auto ce = expected(p, cm, i);
                    CHECK(ce.feasible == 0, "the " << r.core->size() << " of " << ass.size() << " assumptions in the unsatisfiable core have " << ce.feasible << " feasible models");
                    ++cores;
                    if (e.models.size() > 0) { c.label("core due to the theory"); }
                }
            } catch (pbt::Fail const &f) { throw pbt::Fail(what + f.what()); }
            ++solves;
            std::string now;
            for (auto const &mo : r.models) { now += mo.id(); }
            if (solves > 1 && now != last) { ++changed; }
            last = now;
            if (e.feasible > 0) { ++nonempty; }
        }
    }
    if (cut) { c.label("interrupted solve call"); }
    if (cores) { c.label("unsatisfiable core"); }
    if (steps > 1) { c.label("several parts"); }
    if (!live.empty()) { c.label("externals"); }
    if (global) { c.label("global objective"); }
    if (objective) { c.label("objective"); }
    if (solves > 2) { c.label("more than two solve calls"); }
    if (nonempty && nonempty < solves) { c.label("satisfiable and unsatisfiable calls"); }
    if (parallel) {
        if (reporting.size() > 1) { c.label("answers from several threads"); }
        c.label(std::to_string(threads) + " threads");
        c.nontrivial = p.cons.size() >= 2 && nonempty > 0 && reporting.size() > 1;
        return;
    }
    c.nontrivial = solves >= 2 && nonempty >= 1 && (changed > 0 || steps > 1);
}
void c07(Ctx &c) { history(c, false); }
void c06(Ctx &c) { history(c, true); }
pbt::Register r06{{"C06", c06,
                   "histories as for C07 (65% with a single part, with more choices) solved by 2-6 threads (compete and split, several clause distribution and integration "
                   "policies, local and global objectives) while seeded delays are injected into the calls the theory makes; answers, assignments and optima are "
                   "compared with the sequential exact reference and values read for the reporting thread with those in the model; non-trivial: at least two "
                   "constraints and answers of one control came from different threads",
                   18000, 150000, 60, true}};
pbt::Register r07{{"C07", c07,
                   "histories of one control: 1-4 parts (choices, externals, constraints and objective terms over old and new atoms and variables) added and grounded in turn, "
                   "externals set true/false/free or released, 0-3 solve calls per step with and without assumptions, local and global objectives; every call is compared "
                   "with plain clingo on the accumulated regular part plus the exact reference on the accumulated rows; non-trivial: at least two solve calls, one with "
                   "a feasible answer, and the answers changed or several parts were grounded",
                   36000, 500000}};

} // namespace
