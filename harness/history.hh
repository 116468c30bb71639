// Histories of one control without an answer oracle: parts, externals and
// solve calls, with a callback after every solve call.
#pragma once
#include "shared.hh"

namespace shared {

struct HistoryConf {
    int max_steps = 3, max_solves = 3;
    bool objective = true;
    Conf conf;
    bool dense = false;
};

struct History {
    Prog p;
    std::vector<std::vector<std::string>> ext;
    int steps = 1;
    bool objective = false;
};

inline History gen_history(Src &s, HistoryConf const &hc) {
    History h;
    h.steps = s.chance(45) ? 1 : s.range(1, hc.max_steps);
    auto &p = h.p;
    p.regular.resize(static_cast<size_t>(h.steps));
    h.ext.resize(static_cast<size_t>(h.steps));
    auto all_vars = gen_vars(s, 1, 5, s.chance(20) ? 2 : 1);
    std::vector<std::string> vars;
    h.objective = hc.objective && s.chance(50);
    for (int i = 0; i < h.steps; ++i) {
        auto &rules = p.regular[static_cast<size_t>(i)];
        std::string sfx = i == 0 ? "" : "_" + std::to_string(i);
        if (i > 0) { rules.push_back("#program p" + std::to_string(i) + "."); }
        Conf ci = hc.conf;
        ci.atoms_lo = i == 0 ? (hc.dense ? 2 : 1) : 0;
        ci.atoms_hi = i == 0 ? (hc.dense ? 6 : 4) : 2;
        int ne = s.chance(35) ? s.range(1, 2) : 0;
        for (int j = 0; j < ne; ++j) {
            std::string e = "e" + std::to_string(j) + sfx;
            rules.push_back("#external " + e + ".");
            h.ext[static_cast<size_t>(i)].push_back(e);
            p.choice.push_back(e);
        }
        gen_regular(s, ci, p, rules, p.choice, sfx);
        size_t upto = i == 0 ? 1 + s.u(static_cast<uint32_t>(all_vars.size())) : vars.size() + s.u(static_cast<uint32_t>(all_vars.size() - vars.size() + 1));
        for (size_t k = vars.size(); k < upto; ++k) { vars.push_back(all_vars[k]); }
        p.vars = vars;
        auto st = gen_style(s, ci, vars);
        int n = 0;
        while (s.more(static_cast<uint32_t>(n), i == 0 ? 1 : 0, hc.dense ? 14 : 8, hc.dense ? 9 : 4)) {
            auto k = gen_con(s, st, ci, vars, p.choice);
            k.step = i;
            p.cons.push_back(k);
            ++n;
        }
        // constraints of earlier parts once more, with the same or other bodies
        while (i > 0 && !p.cons.empty() && s.chance(22)) {
            auto k = s.pick(p.cons);
            k.step = i;
            if (s.chance(70)) { k.body = gen_body(s, p.choice, 2); }
            if (s.chance(25)) { k.rel = std::vector<Rel>{Rel::LE, Rel::GE, Rel::EQ}[s.u(3)]; }
            p.cons.push_back(k);
        }
        if (std::vector<std::string> pool; std::any_of(p.choice.begin(), p.choice.end(), [&](auto const &a) { return a == "k0" + sfx; })) {
            for (auto const &a : p.choice) { if (a[0] == 'k') { pool.push_back(a); } }
            auto sk = st;
            sk.cond = 90;
            auto k = gen_con(s, sk, ci, vars, pool);
            k.step = i;
            p.cons.push_back(k);
        }
        if (h.objective && s.chance(60)) { gen_objective(s, st, ci, p, vars, p.choice, i); }
    }
    p.strict = std::any_of(p.cons.begin(), p.cons.end(), [](Con const &x) { return x.strict(); });
    return h;
}

// runs the history; after(step, result) is called for every solve call
inline void run_history(Ctx &c, Session &ses, History const &h, HistoryConf const &hc, std::string log, std::function<void(int)> const &before, std::function<void(int, Result const &)> const &after) {
    auto &s = c.src;
    std::vector<std::string> live, known;
    for (int i = 0; i < h.steps; ++i) {
        std::string part = i == 0 ? "base" : "p" + std::to_string(i);
        std::string text = h.p.regular_text(i) + h.p.theory_text(i);
        log += text + "== ground " + part + "\n";
        c.describe(log);
        ses.add("base", text);
        ses.ground(part);
        for (auto const &e : h.ext[static_cast<size_t>(i)]) { live.push_back(e); }
        for (auto const &a : h.p.choice) {
            bool here = i == 0 ? a.find('_') == std::string::npos : a.size() > 2 && a.compare(a.size() - 2, 2, "_" + std::to_string(i)) == 0;
            if (here) { known.push_back(a); }
        }
        int m = s.range(i + 1 == h.steps ? 1 : 0, hc.max_solves);
        for (int k = 0; k < m; ++k) {
            for (size_t j = 0; j < live.size();) {
                auto sym = Clingo::parse_term(live[j].c_str());
                bool gone = false;
                switch (s.weighted({50, 20, 12, 12, 6})) {
                    case 1: ses.ctl().assign_external(sym, Clingo::TruthValue::True); log += "== " + live[j] + " true\n"; break;
                    case 2: ses.ctl().assign_external(sym, Clingo::TruthValue::False); log += "== " + live[j] + " false\n"; break;
                    case 3: ses.ctl().assign_external(sym, Clingo::TruthValue::Free); log += "== " + live[j] + " free\n"; break;
                    case 4: ses.ctl().release_external(sym); log += "== " + live[j] + " released\n"; gone = true; break;
                    default: break;
                }
                if (gone) { live.erase(live.begin() + static_cast<long>(j)); } else { ++j; }
            }
            std::vector<std::pair<std::string, bool>> ass;
            if (!known.empty() && s.chance(35)) {
                int na = s.range(1, 2);
                for (int j = 0; j < na; ++j) { ass.emplace_back(s.pick(known), s.chance(50)); }
            }
            log += "== solve";
            for (auto const &[a, v] : ass) { log += std::string(v ? " " : " not ") + a; }
            log += "\n";
            c.describe(log);
            if (before) { before(i); }
            auto r = ses.solve(ass);
            c.ran();
            after(i, r);
        }
    }
}

} // namespace shared
