// C24: clasp's reasoning modes on top of the theory
#include "shared.hh"

using namespace shared;

namespace {

struct Weak { long w; long p; Lit l; };

struct Seen {
    Atoms shown, all;
    std::vector<long> cost;
    bool proven = false;
};

std::string str(Atoms const &a) {
    std::string r = "{";
    for (auto const &x : a) { r += " " + x; }
    return r + " }";
}

// what a list of models has to be in one of the enumeration modes
void judge(Prog const &p, Options const &o, Expected const &e, std::vector<Seen> const &seen, std::vector<Model> const &models, std::string const &mode, size_t limit, bool &differs) {
    if (mode == "brave" || mode == "cautious") {
        bool brave = mode == "brave";
        if (e.feasible == 0) { return; }
        // only the last model is the answer
        std::optional<Atoms> want, regular;
        auto combine = [&](std::optional<Atoms> &w, Atoms const &a) {
            if (!w) { w = a; }
            else if (brave) { w->insert(a.begin(), a.end()); }
            else { for (auto it = w->begin(); it != w->end();) { if (a.count(*it)) { ++it; } else { it = w->erase(it); } } }
        };
        for (auto const &m : e.models) {
            if (m.feasible) { combine(want, m.atoms); }
            combine(regular, m.atoms);
        }
        CHECK(seen.back().shown == *want, mode << " consequences " << str(seen.back().shown) << " instead of " << str(*want));
        differs = *want != *regular;
        // each came with the assignment of the stable model that led to it
        for (size_t i = 0; i < seen.size(); ++i) {
            bool found = false;
            std::string why;
            for (auto const &x : e.models) {
                if (!x.feasible || !(brave ? std::includes(seen[i].shown.begin(), seen[i].shown.end(), x.atoms.begin(), x.atoms.end())
                                           : std::includes(x.atoms.begin(), x.atoms.end(), seen[i].shown.begin(), seen[i].shown.end()))) { continue; }
                try {
                    auto m = models[i];
                    m.atoms = x.atoms;
                    check_sound(p, m, x.rows, o.strict);
                    if (p.has_objective()) { check_objective(p, m, x.rows); }
                    found = true;
                    break;
                } catch (pbt::Fail const &f) { why = f.what(); }
            }
            CHECK(found, "the assignment reported with the " << mode << " consequences " << str(seen[i].shown) << " belongs to no feasible answer, e.g. " << why);
        }
        return;
    }
    std::set<Atoms> got;
    for (size_t i = 0; i < seen.size(); ++i) {
        CHECK(got.insert(seen[i].all).second, "answer reported twice");
        auto const *x = e.find(seen[i].all);
        CHECK(x != nullptr && x->feasible, "reported model " << str(seen[i].all) << " is not a feasible stable model");
        auto m = models[i];
        m.atoms = seen[i].all;
        check_sound(p, m, x->rows, o.strict);
        if (p.has_objective()) { check_objective(p, m, x->rows); }
    }
    size_t n = limit == 0 ? e.feasible : std::min(limit, e.feasible);
    CHECK(got.size() == n, got.size() << " answers instead of " << n);
}

void c24(Ctx &c) {
    auto &s = c.src;
    bool strict = s.chance(15);
    auto conf = mixed(s, strict);
    conf.atoms_lo = std::max(conf.atoms_lo, 2);
    conf.atoms_hi = std::max(conf.atoms_hi, conf.atoms_lo);
    conf.objective = s.chance(35);
    auto p = gen_prog(s, conf);
    auto o = gen_options(s, strict || p.strict, true);
    o.objective = "";
    enum Mode { Brave, Cautious, Project, Opt, OptN, Limit } mode = static_cast<Mode>(s.weighted({18, 18, 18, 15, 20, 10}));
    std::string extra;
    std::vector<Weak> weak;
    std::set<std::string> show(p.choice.begin(), p.choice.end());
    auto no_enum = [&] { o.clasp.erase(std::remove_if(o.clasp.begin(), o.clasp.end(), [](auto const &a) { return a.rfind("--enum-mode", 0) == 0; }), o.clasp.end()); };
    size_t limit = 0;
    std::vector<std::pair<std::string, size_t>> later; // further solve calls in other modes
    switch (mode) {
        case Brave: no_enum(); o.clasp.push_back("--enum-mode=brave"); break;
        case Cautious: no_enum(); o.clasp.push_back("--enum-mode=cautious"); break;
        case Project: {
            extra += "#show.\n";
            for (auto const &a : p.choice) {
                if (s.chance(50)) { show.erase(a); }
            }
            for (auto const &a : show) { extra += "#show " + a + " : " + a + ".\n"; }
            o.clasp.push_back("--project=show");
            break;
        }
        case Opt:
        case OptN: {
            no_enum();
            int n = s.range(1, 5);
            for (int i = 0; i < n && !p.choice.empty(); ++i) { weak.push_back({s.range(-3, 4), s.range(0, 1), {s.pick(p.choice), s.chance(30)}}); }
            for (size_t i = 0; i < weak.size(); ++i) {
                auto const &x = weak[i];
                if (s.chance(50)) { extra += "#minimize { " + std::to_string(x.w) + "@" + std::to_string(x.p) + ",w" + std::to_string(i) + " : " + x.l.str() + " }.\n"; }
                else { extra += ":~ " + x.l.str() + ". [" + std::to_string(x.w) + "@" + std::to_string(x.p) + ",w" + std::to_string(i) + "]\n"; }
            }
            o.clasp.push_back(mode == Opt ? "--opt-mode=opt" : "--opt-mode=optN");
            // clasp's core-guided strategies can loop in their own start-up (UncoreMinimize::pushPath)
            o.clasp.push_back("--opt-strategy=" + std::vector<std::string>{"bb,lin", "bb,hier", "bb,inc", "bb,dec"}[s.u(4)]);
            break;
        }
        case Limit: limit = 1 + s.u(5); break;
    }
    if (s.chance(15)) {
        o.clasp.erase(std::remove_if(o.clasp.begin(), o.clasp.end(), [](auto const &a) { return a.rfind("--heuristic", 0) == 0; }), o.clasp.end());
        o.clasp.push_back("--heuristic=Domain");
        int n = s.range(1, 3);
        for (int i = 0; i < n && !p.choice.empty(); ++i) {
            extra += "#heuristic " + s.pick(p.choice) + ". [" + std::to_string(s.range(-2, 3)) + "," + std::vector<std::string>{"level", "sign", "true", "false", "init", "factor"}[s.u(6)] + "]\n";
        }
        c.label("domain heuristic");
    }
    if ((mode == Brave || mode == Cautious || mode == Limit) && s.chance(40)) {
        int n = s.range(1, 3);
        for (int i = 0; i < n; ++i) {
            auto m = std::vector<std::string>{"brave", "cautious", "auto", "record"}[s.u(4)];
            later.emplace_back(m, m == "brave" || m == "cautious" || s.chance(50) ? 0 : 1 + s.u(4));
        }
        multi_shot(o);
        c.label("several modes");
    }
    std::string text = run::show(p, o) + extra;
    for (auto const &[m, l] : later) { text += "== solve again: " + m + " " + std::to_string(l) + "\n"; }
    c.describe(text);
    static char const *names[] = {"brave", "cautious", "projection", "optimum", "all optima", "limited number"};
    c.label(names[mode]);
    auto e = expected(p);
    classify(c, p, e);
    std::vector<Seen> seen;
    std::vector<Model> models;
    Result r;
    try {
        Session ses{o, 2000};
        ses.add("base", p.text() + extra);
        ses.ground("base");
        if (limit) { ses.ctl().configuration()["solve"]["models"] = std::to_string(limit).c_str(); }
        ses.hook = [&](Clingo::Model &m, Model const &) {
            Seen x;
            for (auto const &y : m.symbols(Clingo::ShowType::Shown)) { x.shown.insert(y.to_string()); }
            for (auto const &y : m.symbols(Clingo::ShowType::Atoms)) { x.all.insert(y.to_string()); }
            for (auto k : m.cost()) { x.cost.push_back(static_cast<long>(k)); }
            x.proven = m.optimality_proven();
            seen.push_back(std::move(x));
        };
        r = ses.solve();
        models = r.models;
        auto first = seen;
        for (auto const &[m, l] : later) {
            seen.clear();
            ses.ctl().configuration()["solve"]["enum_mode"] = m.c_str();
            ses.ctl().configuration()["solve"]["models"] = std::to_string(l).c_str();
            auto r2 = ses.solve();
            c.ran();
            CHECK(r2.sat == (e.feasible > 0), "reported " << (r2.sat ? "satisfiable" : "unsatisfiable") << " but " << e.feasible << " stable models are feasible");
            CHECK(!r2.truncated && (l > 0 || r2.exhausted), "the search was not exhausted");
            bool differs = false;
            judge(p, o, e, seen, r2.models, m, l, differs);
        }
        seen = first;
    } catch (pbt::Fail const &) { throw; } catch (pbt::Discard const &) { throw; } catch (std::exception const &x) {
        pbt::fail(std::string("unexpected error: ") + x.what());
    }
    c.ran();
    CHECK(r.sat == (e.feasible > 0), "reported " << (r.sat ? "satisfiable" : "unsatisfiable") << " but " << e.feasible << " stable models are feasible");
    CHECK(!r.truncated && (limit > 0 || r.exhausted), "the search was not exhausted");
    CHECK(seen.empty() == (e.feasible == 0), seen.size() << " models reported, " << e.feasible << " feasible");
    bool differs = e.feasible < e.models.size();
    if (mode == Brave || mode == Cautious) {
        judge(p, o, e, seen, models, names[mode], 0, differs);
        if (differs && e.feasible > 0) { c.label("consequences changed by the theory"); }
        c.nontrivial = e.feasible > 1 && differs;
        return;
    }
    // all others report stable models
    std::map<Atoms, std::vector<Seen const *>> by;
    for (size_t i = 0; i < seen.size(); ++i) {
        auto const *x = e.find(seen[i].all);
        CHECK(x != nullptr, "reported model " << str(seen[i].all) << " is not a stable model of the regular part");
        CHECK(x->feasible, "reported model " << str(seen[i].all) << " is not feasible");
        auto m = models[i];
        m.atoms = seen[i].all;
        check_sound(p, m, x->rows, o.strict);
        if (p.has_objective()) { check_objective(p, m, x->rows); }
    }
    auto cut = [&](Atoms const &a) {
        Atoms r;
        for (auto const &x : a) { if (show.count(x)) { r.insert(x); } }
        return r;
    };
    switch (mode) {
        case Project: {
            std::set<Atoms> want, got;
            for (auto const &m : e.models) { if (m.feasible) { want.insert(cut(m.atoms)); } }
            for (auto const &x : seen) {
                CHECK(x.shown == cut(x.all), "shown atoms do not match");
                CHECK(got.insert(x.shown).second, "projected answer reported twice");
            }
            CHECK(want == got, got.size() << " projected answers instead of " << want.size());
            c.nontrivial = e.feasible > want.size() && want.size() > 1;
            break;
        }
        case Opt:
        case OptN: {
            auto cost = [&](Atoms const &a) {
                std::map<long, long, std::greater<>> m;
                for (auto const &x : weak) { m[x.p] += holds({x.l}, a) ? x.w : 0; }
                std::vector<long> r;
                for (auto const &[k, v] : m) { r.push_back(v); }
                return r;
            };
            std::optional<std::vector<long>> best, best_regular;
            for (auto const &m : e.models) {
                auto k = cost(m.atoms);
                if (m.feasible && (!best || k < *best)) { best = k; }
                if (!best_regular || k < *best_regular) { best_regular = k; }
            }
            std::set<Atoms> want, got;
            for (auto const &m : e.models) { if (m.feasible && cost(m.atoms) == *best) { want.insert(m.atoms); } }
            for (auto const &x : seen) {
                // priorities of statements that ground away are not reported
                if (x.cost.size() == cost(x.all).size()) { CHECK(x.cost == cost(x.all), "cost of a model differs"); }
            }
            if (e.feasible > 0 && !weak.empty()) {
                CHECK(cost(seen.back().all) == *best, "the last model is not optimal");
                if (mode == OptN) {
                    for (auto const &x : seen) {
                        if (x.proven) { CHECK(got.insert(x.all).second, "optimal answer reported twice"); }
                    }
                    if (seen.back().proven) { CHECK(want == got, got.size() << " optimal answers instead of " << want.size()); }
                    else { CHECK(seen.back().cost.empty(), "optimality not proven"); }
                }
                differs = best != best_regular;
                if (differs) { c.label("optimum changed by the theory"); }
            }
            c.nontrivial = e.feasible > 1 && differs && !weak.empty();
            break;
        }
        default: {
            judge(p, o, e, seen, models, "limited", limit, differs);
            c.nontrivial = e.feasible > limit && differs;
            break;
        }
    }
}

pbt::Register r24{{"C24", c24,
                   "random programs as for C01 solved in one of clasp's reasoning modes (brave and cautious consequences, projection to shown atoms, one or all optima of weak "
                   "constraints under several optimisation strategies, a limited number of models; domain heuristics; 40% of the enumerating ones with further solve calls in other modes), under random theory options; compared with the same "
                   "mode evaluated over the feasible stable models, assignments and objectives with those of a feasible answer behind each result; non-trivial: several feasible models and the theory changes the result (for projection: fewer projected answers than answers)",
                   45000, 600000}};

} // namespace
