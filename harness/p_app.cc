// C18: the stand-alone program
#include "appout.hh"

using namespace appout;

namespace {

bool has_conditions(Prog const &p) {
    auto cond = [](Elem const &y) { return !y.cond.empty(); };
    return std::any_of(p.cons.begin(), p.cons.end(), [&](Con const &x) { return std::any_of(x.elems.begin(), x.elems.end(), cond); }) ||
           std::any_of(p.objs.begin(), p.objs.end(), [&](Obj const &x) { return std::any_of(x.elems.begin(), x.elems.end(), cond); });
}

std::string binary() { return pbt::env().bin + "/clingo-lpx"; }

void judge_verdict(Output const &out, proc::Out const &po, bool sat, bool complete, std::string const &what) {
    CHECK(po.signal == 0, what << "killed by signal " << po.signal);
    CHECK(out.verdicts.size() == 1, what << "expected one verdict, got " << out.verdicts.size() << " (exit code " << po.code << ")\n" << po.err);
    CHECK((out.verdicts[0] == "SATISFIABLE") == sat && (out.verdicts[0] == "UNSATISFIABLE") == !sat, what << "verdict " << out.verdicts[0] << " but the program is " << (sat ? "" : "un") << "satisfiable");
    if (sat) { CHECK(po.code == 30 || (!complete && po.code == 10), what << "exit code " << po.code << " for a satisfiable program"); }
    else { CHECK(po.code == 20, what << "exit code " << po.code << " for an unsatisfiable program"); }
}

void errors(Ctx &c) {
    auto &s = c.src;
    auto dir = proc::worker_dir(pbt::env().scratch);
    bool strict = s.chance(20);
    auto conf = mixed(s, strict);
    conf.cons_hi = 4;
    auto p = gen_prog(s, conf);
    auto o = gen_options(s, strict || p.strict, true);
    std::string text = p.text(), kind;
    auto args = theory_args(o);
    args.insert(args.begin(), binary());
    std::vector<std::string> files{"p.lp"};
    bool code = true;
    switch (s.u(7)) {
        case 0: case 1: {
            auto models = stable_models(p.regular_text(), 200);
            if (models.empty()) { throw pbt::Discard{}; }
            Style st;
            st.coef = static_cast<int>(s.u(3));
            auto bad = ill_formed(s, p.vars, st, {});
            if (bad.objective) { p.objs.clear(); }
            text = p.text() + bad.atom + ".\n";
            kind = bad.kind;
            break;
        }
        case 2: {
            static char const *const bad[] = {"&sum { x <= 3.", "&sum { x } < = 3.", "&sum { x } 3.", "&summ { x } <= 3.", "&sum { x ; } }= 2.", "&diff { x - } <= 2.", "a :- b", "&dom { 1 .. } = x.", "&sum { x } <= 3 &sum { y } >= 2.", "&sum(1) { x } <= 3.", "&maximize { x } <= 3.", "x } <= 3.", "&sum { x } <= 3 ; 4.", "&sum { \"x } <= 3.", "&dom { 1..2 } >= x.", "&diff { x - y } < > 3."};
            text += std::string(bad[s.u(16)]) + "\n";
            kind = "syntax error";
            break;
        }
        case 3: {
            static char const *const bad[] = {"--select=foo", "--store=yes", "--propagate-bounds=yes", "--objective=best", "--objective=global,x", "--objective=global,", "--objective=local,1", "--objective=global,1/0", "--select=", "--store", "--propagate-bounds=full,changed", "--strict=maybe", "--objective=globale", "--select=Match ", "--objective=global,1e", "--objective", "--objective=global,1,2"};
            args.push_back(bad[s.u(17)]);
            kind = "option " + args.back();
            if (args.back() == "--store" || args.back() == "--objective") { files.clear(); } // takes the next word as value
            break;
        }
        case 4:
            args.push_back("--no-strict");
            args.erase(std::remove(args.begin(), args.end(), "--strict"), args.end());
            args.erase(std::remove_if(args.begin(), args.end(), [](std::string const &a) { return a.rfind("--objective", 0) == 0; }), args.end());
            args.push_back("--objective=global,e");
            code = false; // clingo ends with 0 when the validation of options fails
            kind = "epsilon step without strict mode";
            break;
        case 5: files.push_back("missing.lp"); kind = "missing file"; break;
        default: args.push_back(s.chance(50) ? "--no-such-option" : "--propagate-bound=x"); kind = "unknown option"; break;
    }
    if (!s.chance(50)) { args.push_back("0"); }
    args.insert(args.end(), files.begin(), files.end());
    proc::spill(dir + "/p.lp", text);
    c.describe("invalid (" + kind + "):" + cmdline(args) + "\n" + text);
    auto po = proc::run(args, dir);
    c.ran();
    c.label("invalid input or options");
    CHECK(po.signal == 0, "killed by signal " << po.signal);
    CHECK(po.out.find("Answer:") == std::string::npos && po.out.find("SATISFIABLE") == std::string::npos, "answers or a verdict for invalid input (" << kind << ")");
    CHECK(po.err.find("rror") != std::string::npos || po.err.find("ERROR") != std::string::npos, "no error message for invalid input (" << kind << "), exit code " << po.code);
    if (code) { CHECK(po.code != 0 && po.code != 10 && po.code != 20 && po.code != 30, "exit code " << po.code << " for invalid input (" << kind << ")"); }
    c.nontrivial = true;
}

void c18(Ctx &c) {
    auto &s = c.src;
    if (s.u(400) == 0) { return about(c, {binary()}, proc::worker_dir(pbt::env().scratch)); }
    if (s.chance(15)) { return errors(c); }
    bool strict = s.chance(25);
    auto conf = mixed(s, strict);
    conf.must_objective = s.chance(50);
    conf.atoms_hi = std::min(conf.atoms_hi, 5);
    conf.atoms_lo = std::min(conf.atoms_lo, conf.atoms_hi);
    auto p = gen_prog(s, conf);
    if (s.chance(60)) { box(s, p, 60); }
    auto o = gen_options(s, strict || p.strict, true);
    if (!o.strict && s.chance(5)) { o.strict = true; }
    Step st;
    bool global = p.has_objective() && s.chance(25);
    if (global) {
        st = gen_step(s, o.strict);
        o.objective = st.text;
    }
    // where the text goes
    bool aspif = s.chance(35), in = s.chance(25);
    if (aspif && has_conditions(p) && std::find(o.clasp.begin(), o.clasp.end(), "--eq=0") == o.clasp.end()) { o.clasp.push_back("--eq=0"); } // see run::ConditionMonitor
    Show show;
    if (s.chance(15) && !p.choice.empty()) { show = gen_show(s, p); }
    bool project = !show.text.empty();
    int limit = s.chance(80) ? 0 : s.range(1, 3);
    int quiet = s.chance(88) ? 0 : s.range(1, 2);
    std::vector<std::string> defs;
    std::string more;
    bool extra = s.chance(12);
    if (extra) { more = extras(s, defs); }
    auto all = lines(p.text() + show.text + more);
    std::vector<std::string> parts(1);
    for (auto const &l : all) {
        if (parts.size() < 3 && s.chance(8)) { parts.emplace_back(); }
        parts.back() += l + "\n";
    }
    // a file that is included by another one
    bool include = extra && parts.size() > 1 && s.chance(60);
    if (include) { parts[0] += "#include \"f" + std::to_string(parts.size() - 1) + ".lp\".\n"; }
    auto args = theory_args(o);
    // options may come in any order
    for (auto const &x : o.clasp) { args.insert(args.begin() + s.u(static_cast<uint32_t>(args.size() + 1)), x); }
    if (quiet) { args.push_back("-q" + std::to_string(quiet)); }
    if (!aspif) { args.insert(args.end(), defs.begin(), defs.end()); }
    bool threads = s.chance(6);
    if (threads) { args.push_back(s.chance(50) ? "-t2" : "--parallel-mode=3,split"); }
    bool stats = s.chance(10);
    if (stats) { args.push_back("--stats"); }
    bool json = !stats && !project && s.chance(10);
    if (json) { args.push_back("--outf=2"); }
    args.push_back(std::to_string(limit));
    std::string desc = std::string(aspif ? "ASPIF" : "text") + (in ? " on standard input" : "") + ", arguments:" + cmdline(args) + "\n";
    for (size_t i = 0; i < parts.size(); ++i) { desc += "% file " + std::to_string(i) + "\n" + parts[i]; }
    c.describe(desc);

    auto e = expected(p, 200);
    classify(c, p, e);
    auto lib = lpx(p.text(), o, e.models.size() + 20); // discards cases with the defect of clasp described in run.hh
    auto dir = proc::worker_dir(pbt::env().scratch);
    std::vector<std::string> files;
    std::string input;
    for (size_t i = 0; i < parts.size(); ++i) {
        if (in && i == 0) {
            input = parts[i];
            files.push_back("-");
        } else {
            files.push_back("f" + std::to_string(i) + ".lp");
            proc::spill(dir + "/" + files.back(), parts[i]);
        }
    }
    if (include) { files.pop_back(); }
    if (in && files.size() == 1 && s.chance(50)) { files.clear(); } // standard input is the default
    if (aspif) {
        std::vector<std::string> a{binary(), "--mode=gringo"};
        if (o.strict) { a.push_back("--strict"); } // changes the syntax of theory atoms
        a.insert(a.end(), defs.begin(), defs.end());
        a.insert(a.end(), files.begin(), files.end());
        auto g = proc::run(a, dir, input);
        CHECK(g.code == 0 && g.signal == 0 && g.out.rfind("asp 1 0 0", 0) == 0, "grounding to ASPIF fails with exit code " << g.code << "\n" << g.err);
        files.clear();
        input.clear();
        if (in) { input = g.out; files.push_back("-"); }
        else { files.push_back("p.aspif"); proc::spill(dir + "/p.aspif", g.out); }
        c.ran();
        c.label("ASPIF");
    }
    args.insert(args.begin(), binary());
    args.insert(args.end(), files.begin(), files.end());
    auto po = proc::run(args, dir, input);
    c.ran();
    CHECK(po.signal == 0, "killed by signal " << po.signal << "\n" << po.err);
    CHECK(po.err.find("ERROR") == std::string::npos, "unexpected error: " << po.err);
    auto out = json ? parse_json(po.out, o.strict) : parse(po.out, std::set<std::string>(p.vars.begin(), p.vars.end()), o.strict);
    if (json) { c.label("JSON"); }
    bool sat = e.feasible > 0;
    judge_verdict(out, po, sat, limit == 0, "");
    auto &models = out.res.models;
    unsigned long reported = strtoul(out.models_line.c_str(), nullptr, 10);
    if (quiet == 0) { CHECK(reported == models.size(), "'Models:" << out.models_line << "' but " << models.size() << " answers printed"); }
    if (quiet == 1) { CHECK(models.size() == (reported > 0 ? 1U : 0U), models.size() << " answers printed with -q1"); }
    if (quiet == 2) { CHECK(models.empty(), models.size() << " answers printed with -q2"); }
    if (limit == 0) {
        if (!global) { CHECK(reported == e.feasible, "'Models:" << out.models_line << "' but " << e.feasible << " stable models are feasible"); }
        CHECK(out.models_line.find('+') == std::string::npos, "'Models:" << out.models_line << "' although all were requested");
    } else { CHECK(reported == std::min<size_t>(limit, e.feasible) || (global && reported <= static_cast<size_t>(limit)), "'Models:" << out.models_line << "' with limit " << limit << " and " << e.feasible << " feasible stable models"); }
    if (project) {
        c.label("shown subset");
        std::multiset<Atoms> want, got;
        for (auto const &x : e.models) {
            if (x.feasible) { want.insert(show.apply(x.atoms)); }
        }
        for (auto const &m : models) { got.insert(m.atoms); }
        bool sub = std::includes(want.begin(), want.end(), got.begin(), got.end());
        CHECK(sub, "printed answers are not the shown parts of feasible stable models");
        if (limit == 0 && quiet == 0 && !global) { CHECK(want == got, "shown parts of the answers differ from those of the feasible stable models"); }
    } else if (global && limit == 0 && quiet == 0) { check_global(p, e, models, st, o.strict, 1 << 30, !threads); }
    else {
        std::set<Atoms> seen;
        for (auto const &m : models) {
            auto const *x = e.find(m.atoms);
            CHECK(x != nullptr, "answer " << m.id() << " is not a stable model of the regular part");
            CHECK(x->feasible, "answer " << m.id() << " has an unsatisfiable constraint system");
            CHECK(seen.insert(m.atoms).second, "answer " << m.id() << " printed twice");
            check_sound(p, m, x->rows, o.strict);
            check_objective(p, m, x->rows);
        }
    }
    for (auto const &m : models) { CHECK(m.objective || !std::any_of(models.begin(), models.end(), [](Model const &x) { return x.objective.has_value(); }), "objective line missing for answer " << m.id()); }
    if (stats) {
        auto got = simplex_stats(po.out);
        for (auto const *k : {"Pivots", "Bounds propagated"}) {
            CHECK(got[k].size() == 1, got[k].size() << " values printed for statistic '" << k << "'");
            auto const &v = got[k][0];
            CHECK(!v.empty() && v.find_first_not_of("0123456789") == std::string::npos, "statistic '" << k << "' is '" << v << "'");
        }
        if (!aspif && !threads && !project && !extra && parts.size() == 1 && limit == 0) {
            auto same = [&](char const *k, double d) { CHECK(got[k][0] == std::to_string(static_cast<long long>(d)), "statistic '" << k << "' is " << got[k][0] << " but " << d << " with the library"); };
            same("Pivots", lib.accu.pivots);
            same("Bounds propagated", lib.accu.bounds);
            if (lib.accu.pivots > 0) { c.label("statistics"); }
        }
    }
    if (global) { c.label("global objective"); }
    if (extra) { c.label(include ? "included file" : "statements of other sorts"); }
    if (quiet) { c.label("quiet"); }
    if (threads) { c.label("several threads"); }
    if (limit) { c.label("limited number of answers"); }
    c.nontrivial = interesting(p, e) && quiet < 2;
}
pbt::Register r18{{"C18", c18,
                   "random programs (as for C01-C04, C12) written to one to three files or standard input, as text or as the ASPIF that the program itself grounds them to, with "
                   "random options, numbers of answers, verbosity and #show; everything printed and the exit code are compared with the exact reference; 15% invalid inputs or "
                   "options that must be rejected; non-trivial: as for C02, or invalid",
                   12000, 250000}};

} // namespace
