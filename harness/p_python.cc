// C19: the Python package
#include "appout.hh"
#include "history.hh"
#include <clingo-lpx.h>
#include <poll.h>

using namespace appout;

namespace {

char const *const PYTHON = "/opt/clingo-venv/bin/python";

// A Python process that answers requests.
class Server {
  public:
    ~Server() { stop(); }
    std::vector<std::string> ask(std::string const &req) {
        start();
        size_t done = 0;
        std::vector<std::string> r;
        while (true) {
            pollfd p[2] = {{out_, POLLIN, 0}, {in_, static_cast<short>(done < req.size() ? POLLOUT : 0), 0}};
            int n = poll(p, 2, 90000);
            if (n == 0) { stop(); pbt::fail("the Python process does not answer"); }
            if ((p[1].revents & POLLOUT) != 0 && done < req.size()) {
                auto w = write(in_, req.data() + done, req.size() - done);
                if (w > 0) { done += static_cast<size_t>(w); }
            }
            if ((p[0].revents & (POLLIN | POLLHUP)) != 0 && line(r) && r.back() == "end") {
                r.pop_back();
                return r;
            }
        }
    }
    std::string version;

  private:
    bool line(std::vector<std::string> &r) {
        char b[1 << 16];
        auto n = read(out_, b, sizeof(b));
        if (n <= 0) {
            int st = 0;
            waitpid(pid_, &st, 0);
            pid_ = 0;
            stop();
            pbt::fail("the Python process ended " + (WIFSIGNALED(st) ? "by signal " + std::to_string(WTERMSIG(st)) : "with code " + std::to_string(WEXITSTATUS(st))) + "\n" + proc::slurp(err_));
        }
        buf_.append(b, static_cast<size_t>(n));
        size_t pos = 0, e;
        bool end = false;
        while (!end && (e = buf_.find('\n', pos)) != std::string::npos) {
            r.push_back(buf_.substr(pos, e - pos));
            pos = e + 1;
            end = r.back() == "end" || r.back().rfind("version\t", 0) == 0;
        }
        buf_.erase(0, pos);
        return end;
    }
    void start() {
        if (pid_ != 0 && owner_ == getpid()) { return; }
        pid_ = 0;
        owner_ = getpid();
        int i[2], o[2];
        err_ = proc::worker_dir(pbt::env().scratch) + "/python-stderr";
        if (pipe2(i, O_CLOEXEC) != 0 || pipe2(o, O_CLOEXEC) != 0) { throw pbt::OracleBug("pipe"); }
        signal(SIGPIPE, SIG_IGN);
        std::string script = pbt::env().bin + "/pyserver.py", path = pbt::env().bin + "/python";
        setenv("PYTHONPATH", path.c_str(), 1);
        setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
        pid_ = fork();
        if (pid_ == 0) {
            dup2(i[0], 0);
            dup2(o[1], 1);
            int e = open(err_.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (e >= 0) { dup2(e, 2); }
            signal(SIGPIPE, SIG_DFL);
            execl(PYTHON, PYTHON, script.c_str(), static_cast<char *>(nullptr));
            _exit(127);
        }
        close(i[0]);
        close(o[1]);
        in_ = i[1];
        out_ = o[0];
        std::vector<std::string> r;
        while (!line(r)) {}
        version = r.back();
    }
    void stop() {
        if (owner_ == getpid()) {
            if (in_ >= 0) { close(in_); }
            if (out_ >= 0) { close(out_); }
            if (pid_ > 0) {
                kill(pid_, SIGKILL);
                int st = 0;
                waitpid(pid_, &st, 0);
            }
        }
        in_ = out_ = -1;
        pid_ = 0;
        buf_.clear();
    }
    pid_t pid_ = 0, owner_ = 0;
    int in_ = -1, out_ = -1;
    std::string buf_, err_;
};

Server &server() {
    static Server s;
    return s;
}

std::vector<std::string> fields(std::string const &l) {
    std::vector<std::string> r;
    size_t pos = 0;
    while (true) {
        size_t e = l.find('\t', pos);
        r.push_back(l.substr(pos, e == std::string::npos ? e : e - pos));
        if (e == std::string::npos) { return r; }
        pos = e + 1;
    }
}

struct Reply {
    std::vector<Result> solves;
    bool error = false;
    std::string msg;
};

Reply read_reply(std::vector<std::string> const &ls, bool strict) {
    Reply r;
    for (auto const &l : ls) {
        auto f = fields(l);
        std::string err;
        if (f[0] == "bad") { pbt::fail("Python: " + f[1]); }
        else if (f[0] == "error") { r.error = true; r.msg = f[1]; }
        else if (f[0] == "solve") { r.solves.emplace_back(); }
        else {
            CHECK(!r.solves.empty(), "reply without solve call: " << l);
            auto &s = r.solves.back();
            if (f[0] == "result") { s.sat = f[1] == "1"; s.unsat = f[2] == "1"; s.exhausted = f[3] == "1"; }
            else if (f[0] == "stat") { auto &x = f[1] == "user_step" ? s.step : s.accu; x.pivots = atof(f[2].c_str()); x.bounds = atof(f[3].c_str()); }
            else if (f[0] == "model") { s.models.emplace_back(); }
            else if (f[0] == "atom") { s.models.back().atoms.insert(f[1]); }
            else if (f[0] == "val") {
                auto v = ref::parse_value(f[2], strict, err);
                CHECK(v, "value of " << f[1] << ": " << err);
                s.models.back().values[f[1]] = *v;
                s.models.back().raw[f[1]] = f[2];
            } else if (f[0] == "obj") {
                auto v = ref::parse_value(f[1], strict, err);
                CHECK(v, "objective: " << err);
                s.models.back().objective = {*v, f[2] == "1"};
                s.models.back().raw_objective = f[1];
            } else { throw pbt::OracleBug("reply " + l); }
        }
    }
    return r;
}

std::string request(Options const &o, std::string const &log) {
    std::string r;
    auto conf = [&](char const *k, std::string const &v) { if (!v.empty()) { r += std::string("conf ") + k + " " + v + "\n"; } };
    conf("strict", o.strict ? "yes" : "");
    conf("objective", o.objective);
    conf("select", o.select);
    conf("store", o.store);
    conf("propagate-bounds", o.bounds);
    conf("propagate-conflicts", o.conflicts);
    for (auto const &a : o.clasp) { r += "arg " + a + "\n"; }
    return r + log + "== end\n";
}

void same_models(std::vector<Model> const &a, std::vector<Model> const &b, std::string const &an, std::string const &bn, bool objective = true) {
    std::map<Atoms, Model const *> ma, mb;
    for (auto const &m : a) { CHECK(ma.emplace(m.atoms, &m).second, an << " reports " << m.id() << " twice"); }
    for (auto const &m : b) { CHECK(mb.emplace(m.atoms, &m).second, bn << " reports " << m.id() << " twice"); }
    for (auto const &m : a) { CHECK(mb.count(m.atoms), an << " reports " << m.id() << " but " << bn << " does not"); }
    for (auto const &m : b) {
        auto it = ma.find(m.atoms);
        CHECK(it != ma.end(), bn << " reports " << m.id() << " but " << an << " does not");
        auto const &n = *it->second;
        std::set<std::string> x, y;
        for (auto const &v : m.values) { x.insert(v.first); }
        for (auto const &v : n.values) { y.insert(v.first); }
        CHECK(x == y, bn << " and " << an << " report different variables for " << m.id());
        if (!objective) { continue; }
        CHECK(m.objective.has_value() == n.objective.has_value(), "one of " << bn << " and " << an << " reports an objective, the other does not for " << m.id());
        if (!m.objective) { continue; }
        CHECK(m.objective->second == n.objective->second, "one of " << bn << " and " << an << " reports a bounded objective, the other an unbounded one for " << m.id());
        if (m.objective->second) { CHECK(m.raw_objective == n.raw_objective, bn << " reports objective '" << m.raw_objective << "', " << an << " '" << n.raw_objective << "' for " << m.id()); }
    }
}

// the theory class
void klass(Ctx &c) {
    auto &s = c.src;
    bool strict = s.chance(25);
    HistoryConf hc;
    hc.conf.strict = strict;
    auto h = gen_history(s, hc);
    auto o = gen_options(s, strict || h.p.strict, true);
    multi_shot(o);
    static char const *const hows[] = {"callback", "async", "yield", "async-yield"};
    std::string how = hows[s.weighted({55, 10, 20, 15})];
    bool global = h.objective && s.chance(20);
    if (global) { o.objective = gen_step(s, o.strict).text; }
    std::string prefix = "options:" + o.str() + " (solving in Python: " + how + ")\n";
    struct R { Result r; int step; };
    std::vector<R> native;
    {
        Session ses{o};
        run_history(c, ses, h, hc, prefix, nullptr, [&](int step, Result const &r) { native.push_back({r, step}); });
    }
    std::string log = c.desc.substr(prefix.size());
    auto rep = read_reply(server().ask("how " + how + "\n" + request(o, log)), o.strict);
    c.ran();
    CHECK(!rep.error, "unexpected error in Python: " << rep.msg);
    CHECK(rep.solves.size() == native.size(), "number of solve calls");
    int major = 0, minor = 0, patch = 0;
    clingolpx_version(&major, &minor, &patch);
    CHECK(server().version == "version\t" + std::to_string(major) + "\t" + std::to_string(minor) + "\t" + std::to_string(patch), "versions differ");
    size_t models = 0, values = 0;
    for (size_t i = 0; i < native.size(); ++i) {
        auto const &a = native[i].r;
        auto const &b = rep.solves[i];
        std::string at = " (solve call " + std::to_string(i + 1) + ")";
        CHECK(a.sat == b.sat && a.unsat == b.unsat && a.exhausted == b.exhausted, "verdicts differ" << at);
        if (!global) { same_models(a.models, b.models, "the native library", "the Python package"); }
        else {
            CHECK(a.models.empty() == b.models.empty(), "one reports answers, the other does not" << at);
            if (!a.models.empty()) { CHECK(a.models.back().objective.has_value() == b.models.back().objective.has_value(), "one reports an objective, the other does not" << at); }
        }
        for (auto const &m : b.models) {
            ++models;
            values += m.values.size();
            check_sound(h.p, m, h.p.rows(m.atoms, native[i].step), o.strict);
        }
        CHECK((a.step.pivots < 0) == (b.step.pivots < 0) && (a.accu.bounds < 0) == (b.accu.bounds < 0), "one reports statistics, the other does not" << at);
    }
    c.label("theory class");
    if (how != "callback") { c.label("theory class: " + how); }
    if (native.size() > 1) { c.label("several solve calls"); }
    c.nontrivial = models > 0 && values > 0;
}

// rejection
void rejected(Ctx &c) {
    auto &s = c.src;
    Options o = gen_options(s, s.chance(20), true);
    std::string log, native;
    bool error = false;
    if (s.chance(35)) { // configuration
        static std::vector<std::pair<char const *, char const *>> const kv{{"select", "foo"}, {"select", "match"}, {"store", "yes"}, {"store", "partial"}, {"objective", "global,1/2"}, {"objective", "global,x"}, {"objective", "globally"}, {"propagate-bounds", "full"}, {"propagate-bounds", "on"}, {"propagate-conflicts", "maybe"}, {"propagate-conflicts", "yes"}, {"strict", "1"}, {"strict", "perhaps"}, {"no-such-key", "1"}, {"", ""}, {"objective", "global,e"}};
        auto [k, v] = kv[s.u(static_cast<uint32_t>(kv.size()))];
        std::string req;
        Theory t;
        if (o.strict) { req += "conf strict yes\n"; clingolpx_configure(t.get(), "strict", "yes"); }
        req += std::string("conf ") + k + " " + v + "\n";
        c.describe("key '" + std::string(k) + "' value '" + v + "'\n" + req);
        bool ok = clingolpx_configure(t.get(), k, v) && clingolpx_validate_options(t.get());
        std::string msg = ok ? "" : clingo_error_message() ? clingo_error_message() : "";
        auto rep = read_reply(server().ask(req + "a.\n== ground base\n== solve\n== end\n"), false);
        CHECK(rep.error == !ok, "the native library " << (ok ? "accepts" : "rejects") << " this, the Python package does not");
        CHECK(rep.msg == msg, "error message '" << rep.msg << "' in Python, '" << msg << "' natively");
        c.ran();
        c.label("configuration");
        c.nontrivial = true;
        return;
    }
    Conf conf;
    conf.cons_hi = 4;
    conf.atoms_hi = 3;
    auto p = gen_prog(s, conf);
    auto models = stable_models(p.regular_text(), 200);
    if (models.empty()) { throw pbt::Discard{}; }
    auto bad = ill_formed(s, p.vars, Style{}, {});
    if (bad.objective) { p.objs.clear(); }
    std::string text = p.text() + bad.atom + ".\n";
    log = text + "== ground base\n== solve\n";
    c.describe("ill-formed (" + bad.kind + "), options:" + o.str() + "\n" + log);
    auto r = lpx(text, o);
    auto rep = read_reply(server().ask(request(o, log)), o.strict);
    c.ran();
    CHECK(r.error == rep.error, "native library " << (r.error ? "rejects" : "accepts") << " the program (" << bad.kind << "), Python package does not");
    if (error) { CHECK(!rep.msg.empty(), "no error message"); }
    // the message of clingo's log function does not come with the exception
    c.label("ill-formed program");
    c.nontrivial = rep.error;
}

// running the package
void program(Ctx &c) {
    auto &s = c.src;
    bool strict = s.chance(25), bad = s.chance(25), refuse = false;
    auto conf = mixed(s, strict);
    conf.atoms_hi = std::min(conf.atoms_hi, 4);
    conf.atoms_lo = std::min(conf.atoms_lo, conf.atoms_hi);
    auto p = gen_prog(s, conf);
    auto o = gen_options(s, strict || p.strict, true);
    if (s.chance(15) && p.has_objective()) { o.objective = "global"; }
    std::string text = p.text();
    Show show;
    if (s.chance(30) && !p.choice.empty()) { show = gen_show(s, p); }
    text += show.text;
    auto args = theory_args(o);
    args.insert(args.end(), o.clasp.begin(), o.clasp.end());
    if (bad) {
        switch (s.u(5)) {
            case 4: // options that do not fit together
                refuse = true;
                args.erase(std::remove_if(args.begin(), args.end(), [](auto const &a) { return a == "--strict" || a.rfind("--objective", 0) == 0; }), args.end());
                args.push_back("--objective=global,e");
                break;
            case 0: text += "&sum { x*y } <= 3.\n"; break;
            case 1: text += "&sum { x } <= 3\n"; break;
            case 2: args.push_back(s.chance(50) ? "--select=foo" : "--objective=best"); break;
            default: args.push_back("--no-such-option"); break;
        }
    }
    bool in = s.chance(20), stats = s.chance(20), script = false, enabled = false;
    if (stats) { args.push_back("--stats"); }
    if (!bad && s.chance(15)) { // the script adds a constant term, which is not visible
        script = true;
        enabled = s.chance(65);
        text += "#script (python)\nimport clingo\ndef pbt(x): return clingo.Number(x.number - 7)\n#end.\n:- @pbt(7) != 0.\n";
        if (enabled) { args.push_back("--enable-python"); }
    }
    bool extra = !script && !stats && s.chance(15);
    if (extra) { text += extras(s, args); }
    bool json = !stats && !script && show.text.empty() && s.chance(10);
    if (json) { args.push_back("--outf=2"); }
    args.push_back("0");
    if (!in) { args.push_back("p.lp"); }
    c.describe("program arguments:" + cmdline(args) + (in ? " (standard input)" : "") + "\n" + text);
    lpx(p.text(), o, 1000); // discards cases with the defect of clasp described in run.hh
    auto dir = proc::worker_dir(pbt::env().scratch);
    proc::spill(dir + "/p.lp", text);
    std::vector<std::string> a{PYTHON, "-m", "clingolpx"}, n{pbt::env().bin + "/clingo-lpx"};
    a.insert(a.end(), args.begin(), args.end());
    n.insert(n.end(), args.begin(), args.end());
    if (script) { // the native program has no Python
        auto po = proc::run(a, dir, in ? text : "", 60, {"PYTHONPATH=" + pbt::env().bin + "/python", "PYTHONDONTWRITEBYTECODE=1"});
        c.ran();
        CHECK(po.signal == 0, "python -m clingolpx killed by signal " << po.signal << "\n" << po.err);
        c.label("package as program: script");
        c.nontrivial = true;
        if (!enabled) {
            CHECK(po.code != 0 && po.code != 10 && po.code != 20 && po.code != 30 && !po.err.empty(), "scripts run without --enable-python, exit code " << po.code);
            return;
        }
        bool global = o.objective == "global";
        auto out = parse(po.out, std::set<std::string>(p.vars.begin(), p.vars.end()), o.strict);
        auto e = expected(p, 200);
        CHECK(po.code == (e.feasible > 0 ? 30 : 20), "exit code " << po.code << " with " << e.feasible << " feasible stable models\n" << po.err);
        if (!global && show.text.empty()) { CHECK(out.res.models.size() == e.feasible, out.res.models.size() << " answers but " << e.feasible << " stable models are feasible"); }
        return;
    }
    auto no = proc::run(n, dir, in ? text : "");
    auto po = proc::run(a, dir, in ? text : "", 60, {"PYTHONPATH=" + pbt::env().bin + "/python", "PYTHONDONTWRITEBYTECODE=1"});
    c.ran(2);
    CHECK(po.signal == 0, "python -m clingolpx killed by signal " << po.signal << "\n" << po.err);
    if (refuse) { // clingo's bindings end with different codes if the validation fails
        CHECK(no.out.find("SATISFIABLE") == std::string::npos && po.out.find("SATISFIABLE") == std::string::npos, "solved despite options that do not fit together");
        CHECK(!no.err.empty() && !po.err.empty(), "no error message");
        c.label("package as program: rejected options");
        c.nontrivial = true;
        return;
    }
    CHECK(no.code == po.code, "exit code " << po.code << " but clingo-lpx ends with " << no.code << "\n" << po.err);
    std::set<std::string> vars(p.vars.begin(), p.vars.end());
    for (auto const *x : {"x", "y"}) { vars.insert(x); }
    auto read = [&](std::string const &x) { return json ? parse_json(x, o.strict) : parse(x, vars, o.strict); };
    auto no_out = read(no.out), py_out = read(po.out);
    if (json) { c.label("package as program: JSON"); }
    if (extra) { c.label("package as program: statements of other sorts"); }
    if (stats) {
        auto x = simplex_stats(no.out), y = simplex_stats(po.out);
        for (auto const *k : {"Pivots", "Bounds propagated"}) {
            CHECK(x[k].size() == y[k].size(), "statistic '" << k << "' is printed by one program only");
            if (!x[k].empty()) { CHECK(x[k] == y[k], "statistic '" << k << "' is " << y[k][0] << " but clingo-lpx prints " << x[k][0]); }
        }
        c.label("package as program: statistics");
    }
    CHECK(no_out.verdicts == py_out.verdicts, "verdicts differ from those of clingo-lpx");
    if (o.objective.empty()) {
        CHECK(no_out.models_line == py_out.models_line, "'Models:" << py_out.models_line << "' but clingo-lpx prints '" << no_out.models_line << "'");
        if (show.text.empty()) { same_models(no_out.res.models, py_out.res.models, "clingo-lpx", "python -m clingolpx", false); }
        else {
            std::multiset<Atoms> x, y;
            for (auto const &m : no_out.res.models) { x.insert(m.atoms); }
            for (auto const &m : py_out.res.models) { y.insert(m.atoms); }
            CHECK(x == y, "shown parts of the answers differ from those clingo-lpx prints");
            c.label("#show statements");
        }
    }
    if (!show.text.empty()) {
        // the values belong to a stable model with this shown part
        auto e = expected(p, 200);
        for (auto const &m : py_out.res.models) {
            bool ok = std::any_of(e.models.begin(), e.models.end(), [&](auto const &x) {
                if (show.apply(x.atoms) != m.atoms) { return false; }
                try { check_sound(p, m, x.rows, o.strict); return true; }
                catch (pbt::Fail const &) { return false; }
            });
            CHECK(ok, "answer " << m.id() << " is not the shown part of a stable model whose constraints the values satisfy");
        }
    }
    else for (auto const &m : py_out.res.models) { check_sound(p, m, p.rows(m.atoms), o.strict); }
    if (po.code != 10 && po.code != 20 && po.code != 30) { CHECK(!po.err.empty(), "no error message"); }
    c.label("package as program");
    c.nontrivial = bad || !py_out.res.models.empty();
}

void c19(Ctx &c) {
    if (c.src.u(400) == 0) { return about(c, {PYTHON, "-m", "clingolpx"}, proc::worker_dir(pbt::env().scratch), {"PYTHONPATH=" + pbt::env().bin + "/python", "PYTHONDONTWRITEBYTECODE=1"}); }
    switch (c.src.weighted({82, 12, 6})) {
        case 0: return klass(c);
        case 1: return rejected(c);
        default: return program(c);
    }
}
pbt::Register r19{{"C19", c19,
                   "random multi-shot histories run through the Python theory class and the native library, invalid configurations and programs given to both, and random programs run with "
                   "'python -m clingolpx' and clingo-lpx; answers, variables, objectives, verdicts, errors and exit codes must agree, values must satisfy the constraints, and the "
                   "class's functions must agree with the model; non-trivial: answers with values, or something invalid",
                   12000, 300000}};

} // namespace
