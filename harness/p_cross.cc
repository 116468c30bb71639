// C25: the solver's own invariants, compiled with its cross checks
#include "global_oracle.hh"
#include "history.hh"
#include "huge.hh"
#include "hooks.hh"
#include "other.hh"

using namespace shared;

namespace {

void c25(Ctx &c) {
    auto &s = c.src;
    if (s.u(300) == 0) { bool strict = s.chance(25), objective = s.chance(60); return huge(c, strict, objective, HugeMode::All); }
    if (s.chance(2)) { return large(c, s.chance(20), static_cast<int>(s.u(3))); }
    bool strict = s.chance(20);
    HistoryConf hc;
    hc.conf = mixed(s, strict);
    hc.conf.rich = 1;
    hc.dense = s.chance(70);
    auto h = gen_history(s, hc);
    strict = strict || h.p.strict;
    auto o = gen_options(s, strict, true);
    multi_shot(o);
    bool threads = s.chance(15);
    hooks::Delay delay;
    if (threads) {
        o.clasp.push_back("-t" + std::to_string(s.range(2, 3)) + (s.chance(50) ? ",compete" : ",split"));
        delay.start(1 + s.u(100000), 1);
    }
    bool global = h.objective && s.chance(40);
    if (global) { o.objective = gen_step(s, strict).text; }
    std::string log = "options:" + o.str() + "\n";
    Other other;
    bool with = !threads && !h.p.choice.empty() && s.chance(20);
    if (with) { log += "and a propagator for\n" + other.gen(s, h.p.choice); }
    c.describe(log);
    Session ses{o, 500, [&](Clingo::Control &ctl) { if (with) { ctl.register_propagator(other); } }};
    size_t calls = 0, cut = 0, models = 0;
    double pivots = 0;
    auto before = [&](int) {
        using Drive = Session::Drive;
        ses.drive = s.chance(80) ? Drive::Callback : Drive::Yield;
        ses.stop = s.chance(25) ? 1 + s.u(3) : 0;
    };
    run_history(c, ses, h, hc, log, before, [&](int, Result const &r) {
        CHECK(!r.error, "unexpected error: " << r.msg);
        ++calls;
        if (r.stopped) { ++cut; }
        models += r.models.size();
        if (r.step.pivots > 0) { pivots += r.step.pivots; }
    });
    if (h.objective) { c.label("objective"); }
    if (global) { c.label("global objective"); }
    if (cut) { c.label("interrupted solve call"); }
    if (calls > 1) { c.label("several solve calls"); }
    if (threads) { c.label("several threads"); }
    if (other.clauses) { c.label("clauses of another propagator"); }
    if (strict) { c.label("strict mode"); }
    if (pivots > 20) { c.label(">20 pivots"); }
    c.nontrivial = models >= 2 && pivots >= 3;
}

pbt::Register r25{{"C25", c25,
                   "histories of 1-3 parts with several solve calls (interrupted, with threads, local and global objectives, strict mode) under random options, run with the "
                   "library compiled with its own cross checks: after every step of the search the row equations hold for the current values, non-basic variables are "
                   "within their bounds, basic variables outside their bounds are queued, and solved, optimised or restored assignments satisfy all bounds; "
                   "non-trivial: at least two models and three pivots",
                   36000, 600000, 60, true}};

} // namespace
