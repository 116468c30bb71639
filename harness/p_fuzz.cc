// C23: arbitrary input and call sequences under sanitizers
#include "illformed.hh"
#include "history.hh"
#include "theory_eval.hh"
#include <malloc.h>

using namespace shared;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HAVE_ASAN
#endif
#endif

namespace {

// ---- texts

std::string wild_number(Src &s) {
    static std::vector<std::string> const v{"0", "1", "2", "3", "7", "10", "100", "2147483647", "2147483648", "-2147483648", "4294967296", "9223372036854775807", "99999999999999999999999", "00", "007", "0x1F", "0b11", "1000000007"};
    return s.chance(60) ? std::to_string(s.u(12)) : s.pick(v);
}

std::string wild_string(Src &s) {
    static std::vector<std::string> const v{"1", "0", "-1", "1.5", "0.5", "-0.25", "-0", "-0.0", "000.100", "1.", ".5", ".", "-", "--1", "+1", "1e5", "1/2", "1/0", " 1", "1 ", "", "abc", "0x10", "1.2.3", "nan", "inf", "-.5", "1,5",
        "123456789012345678901234567890.123456789012345678901234567890", "0.00000000000000000000000000000000000000000000000001", "\\\"", "\\n", "\\\\", "1\\n", "٣", "e", "x+1", "9999999999999999999999999999999999999999999999"};
    return "\"" + s.pick(v) + "\"";
}

std::string wild_name(Src &s) {
    static std::vector<std::string> const v{"x", "y", "z", "x0", "x1", "x2", "f", "g", "_", "_a", "'x", "e", "__lpx", "sum", "inf", "not_", "x'"};
    return s.pick(v);
}

// any theory term clingo might take
std::string wild_term(Src &s, int d) {
    auto list = [&](char const *open, char const *close) {
        std::string r = open;
        int n = s.range(0, 3);
        for (int i = 0; i < n; ++i) { r += (i ? "," : "") + wild_term(s, d - 1); }
        if (s.chance(10)) { r += ","; }
        return r + close;
    };
    if (d <= 0) {
        switch (s.weighted({30, 30, 15, 5, 5})) {
            case 0: return wild_number(s);
            case 1: return wild_name(s);
            case 2: return wild_string(s);
            case 3: return s.chance(50) ? "#sup" : "#inf";
            default: return s.chance(50) ? "X" : "()";
        }
    }
    static std::vector<std::string> const ops{" + ", " - ", " * ", " / ", "+", "-", "*", "/", " .. ", " ** ", " & ", " <= ", "-*", "*-", " / -"};
    switch (s.weighted({14, 34, 10, 8, 8, 3, 3, 14, 3})) {
        case 0: return wild_term(s, 0);
        case 1: return wild_term(s, d - 1) + (s.chance(75) ? ops[s.u(8)] : s.pick(ops)) + wild_term(s, d - 1);
        case 2: return (s.chance(60) ? "-" : s.chance(50) ? "- " : s.chance(50) ? "+" : "--") + wild_term(s, d - 1);
        case 3: return wild_name(s) + list("(", ")");
        case 4: return list("(", ")");
        case 5: return list("{", "}");
        case 6: return list("[", "]");
        case 7: return "(" + wild_term(s, d - 1) + ")";
        default: return wild_term(s, d - 1) + " " + wild_term(s, d - 1);
    }
}

std::string deep_term(Src &s) {
    int n = 1 << s.range(3, 9);
    std::string l, r;
    int k = static_cast<int>(s.u(6));
    for (int i = 0; i < n; ++i) {
        switch (k) {
            case 0: l += "("; r += ")"; break;
            case 1: l += "f("; r += ")"; break;
            case 2: l += "-("; r += ")"; break;
            case 3: l += "(1+"; r += ")"; break;
            case 4: l += "2*("; r += ")"; break;
            default: l += "x+"; break;
        }
    }
    return l + (s.chance(50) ? "x" : "1") + r;
}

std::string wild_atom(Src &s, std::vector<std::string> const &atoms, bool tame) {
    if (tame && s.chance(70)) { // mostly well-formed
        static std::vector<std::string> const vars{"x", "y", "f(1)", "(1,)", "\"a\"", "-z", "g(-x,(2,\"1\"))", "f(1+1)", "(x)"};
        Style st;
        st.coef = static_cast<int>(s.u(4));
        auto lin = [&] { return s.chance(10) ? wild_term(s, 2) : s.chance(50) ? random_expr(s, vars, s.range(0, 3), st).text : s.pick(vars); };
        std::string rel = s.pick(std::vector<std::string>{"<=", ">=", "="});
        auto cnd = [&] { return !atoms.empty() && s.chance(25) ? " : " + s.pick(atoms) : ""; };
        switch (s.weighted({60, 12, 12, 16})) {
            case 1: return "&diff { " + s.pick(vars) + " - " + (s.chance(80) ? s.pick(vars) : wild_term(s, 0)) + " } " + rel + " " + lin();
            case 2: return "&dom { " + wild_number(s) + " .. " + (s.chance(50) ? wild_number(s) : wild_string(s)) + " } = " + s.pick(vars);
            case 3: return std::string(s.chance(50) ? "&maximize" : "&minimize") + " { " + s.pick(vars) + cnd() + "; 2*" + s.pick(vars) + (s.chance(10) ? "+" + lin() : "") + cnd() + " }";
            default: return "&sum { " + lin() + cnd() + (s.chance(50) ? "; " + lin() + cnd() : "") + " } " + rel + " " + lin();
        }
    }
    static std::vector<std::string> const names{"sum", "sum", "sum", "diff", "diff", "dom", "dom", "maximize", "minimize", "foo", "show", "minus"};
    static std::vector<std::string> const rels{"<=", ">=", "=", "<", ">", "!=", "<>", "==", "..", "<=-"};
    auto term = [&] { return s.chance(4) ? deep_term(s) : wild_term(s, s.range(0, 3)); };
    std::string n = s.pick(names), r = "&" + n;
    if (s.chance(4)) { r += "(" + wild_term(s, 1) + ")"; }
    r += " { ";
    int k = s.weighted({8, 55, 25, 12});
    for (int i = 0; i < k; ++i) {
        if (i) { r += "; "; }
        if (n == "diff" && s.chance(70)) { r += wild_name(s) + " - " + wild_name(s); }
        else if (n == "dom" && s.chance(70)) { r += wild_term(s, 1) + " .. " + wild_term(s, 1); }
        else { r += term(); }
        if (s.chance(8)) { r += ", " + term(); }
        if (s.chance(20)) {
            r += " : ";
            if (!atoms.empty() && s.chance(90)) { r += (s.chance(30) ? "not " : "") + s.pick(atoms); }
            if (s.chance(20)) { r += ", " + std::string(s.chance(50) ? "1=1" : "1=2"); }
        }
    }
    r += " }";
    if ((n == "maximize" || n == "minimize") ? s.chance(10) : s.chance(93)) { r += " " + (s.chance(80) ? rels[s.u(3)] : s.pick(rels)) + " " + term(); }
    return r;
}

std::vector<std::string> tokens(std::string const &t) {
    std::vector<std::string> r;
    for (size_t i = 0; i < t.size();) {
        size_t j = i + 1;
        auto word = [](char c) { return isalnum(static_cast<unsigned char>(c)) || c == '_'; };
        auto op = [](char c) { return strchr("<>=!.*-+/", c) != nullptr && c != 0; };
        if (t[i] == '"') { while (j < t.size() && t[j] != '"') { j += t[j] == '\\' ? 2 : 1; } j = std::min(t.size(), j + 1); }
        else if (word(t[i])) { while (j < t.size() && word(t[j])) { ++j; } }
        else if (op(t[i])) { while (j < t.size() && op(t[j])) { ++j; } }
        r.push_back(t.substr(i, j - i));
        i = j;
    }
    return r;
}

std::string mutate(Src &s, std::string const &text, int n) {
    static std::vector<std::string> const dict{"&sum", "&diff", "&dom", "&maximize", "&minimize", "{", "}", "(", ")", "[", "]", ";", ":", ",", ".", "..", ":-", "not ", "<=", ">=", "=", "<", ">", "+", "-", "*", "/", "|", "&", "#", "~", "-", "1", "0", "\"1.5\"", "\"a\"", "\"0\"", "x", "f(", "(,)", "(1,)", "2147483647", "-2147483648", "1=2", "#true", "#false", "not not ", "#external ", "#sum", " ", "\n", "%", "%*", "*%", "@f()", "X", "_", "#show.", "#const x=1.", "#project ", "#theory t {}.", "\xff", "\"", "'"};
    auto t = tokens(text);
    for (int k = 0; k < n && !t.empty(); ++k) {
        size_t i = s.u(static_cast<uint32_t>(t.size()));
        if (s.chance(65)) { // something of the same kind
            auto &x = t[i];
            static std::vector<std::string> const rels{"<=", ">=", "="}, ops{"+", "-", "*", "/"};
            if (isdigit(static_cast<unsigned char>(x[0]))) { x = s.chance(70) ? wild_number(s) : s.chance(50) ? wild_string(s) : "(" + wild_term(s, 1) + ")"; }
            else if (x[0] == '"') { x = wild_string(s); }
            else if (isalpha(static_cast<unsigned char>(x[0])) && x != "not") { x = t[s.u(static_cast<uint32_t>(t.size()))]; if (!isalpha(static_cast<unsigned char>(x[0]))) { x = "x"; } }
            else if (std::find(rels.begin(), rels.end(), x) != rels.end()) { x = s.pick(rels); }
            else if (std::find(ops.begin(), ops.end(), x) != ops.end()) { x = s.pick(ops); }
            else { t.insert(t.begin() + static_cast<long>(i), " "); }
            continue;
        }
        switch (s.weighted({22, 14, 14, 26, 18, 3, 3})) {
            case 0: t.erase(t.begin() + static_cast<long>(i)); break;
            case 1: t.insert(t.begin() + static_cast<long>(i), t[i]); break;
            case 2: std::swap(t[i], t[s.u(static_cast<uint32_t>(t.size()))]); break;
            case 3: t[i] = s.pick(dict); break;
            case 4: t.insert(t.begin() + static_cast<long>(i), s.chance(70) ? s.pick(dict) : s.chance(50) ? wild_term(s, 2) : wild_number(s)); break;
            case 5: t.resize(i); break;
            default: {
                auto c = t[i];
                if (!c.empty()) { c[s.u(static_cast<uint32_t>(c.size()))] = static_cast<char>(1 + s.u(255)); }
                t[i] = c;
            }
        }
    }
    std::string r;
    for (auto const &x : t) { r += x; }
    return r;
}

// grounding such a text might need too much memory
bool explosive(std::string const &t) {
    int depth = 0;
    bool dots = false, big = false;
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '{') { ++depth; }
        else if (t[i] == '}') { --depth; }
        else if (t[i] == '.' && i + 1 < t.size() && t[i + 1] == '.') { dots = true; }
        else if (isdigit(static_cast<unsigned char>(t[i]))) {
            size_t j = i;
            while (j < t.size() && isalnum(static_cast<unsigned char>(t[j]))) { ++j; }
            big = big || j - i > 3;
            i = j - 1;
        }
    }
    return (dots && big && t.find("&dom") == std::string::npos) || t.find("#script") != std::string::npos || t.find("#include") != std::string::npos;
}

struct Text { std::string text, kind; };

Text gen_text(Src &s, bool strict) {
    auto conf = mixed(s, strict);
    conf.atoms_hi = std::min(conf.atoms_hi, 5);
    conf.atoms_lo = std::min(conf.atoms_lo, conf.atoms_hi);
    conf.rich = 2;
    switch (s.weighted({20, 35, 35, 10})) {
        case 0: return {gen_prog(s, conf).text(), "well-formed"};
        case 1: {
            conf.cons_hi = std::min(conf.cons_hi, 5);
            auto p = gen_prog(s, conf);
            return {mutate(s, p.text(), s.range(1, 4)), "mutated"};
        }
        case 2: {
            std::vector<std::string> atoms;
            std::string r;
            int n = s.range(0, 3);
            bool tame = s.chance(70);
            for (int i = 0; i < n; ++i) { atoms.push_back("a" + std::to_string(i)); r += "{ " + atoms.back() + " }.\n"; }
            while (s.more(static_cast<uint32_t>(std::count(r.begin(), r.end(), '&')), 1, 6, 2)) {
                auto a = wild_atom(s, atoms, tame);
                switch (s.weighted({60, 20, 10, 5, 5})) {
                    case 0: r += a + ".\n"; break;
                    case 1: r += a + " :- " + (atoms.empty() ? "#true" : s.pick(atoms)) + ".\n"; break;
                    case 2: r += (atoms.empty() ? "b" : s.pick(atoms)) + " :- " + a + ".\n"; break;
                    case 3: r += ":- " + std::string(s.chance(50) ? "not " : "") + a + ".\n"; break;
                    default: r += a + " :- " + wild_atom(s, atoms, tame) + ".\n"; break;
                }
            }
            return {r, "random theory atoms"};
        }
        default: {
            conf.cons_hi = 3;
            auto p = gen_prog(s, conf);
            auto b = ill_formed(s, p.vars, Style{}, p.choice);
            return {p.text() + b.atom + ".\n", "ill-formed"};
        }
    }
}

// ---- plans: sequences of interface calls

enum class Act { Configure, Validate, Control, Add, Ground, External, Solve, Inspect, Drop };
struct Op {
    Act act = Act::Validate;
    std::string a, b;
    int n = 0, m = 0;
    std::vector<std::string> args;
    std::string str() const {
        switch (act) {
            case Act::Configure: return "configure '" + a + "' '" + b + "'";
            case Act::Validate: return "validate options";
            case Act::Control: { std::string r = "control and register"; for (auto const &x : args) { r += " " + x; } return r; }
            case Act::Add: return "add to " + a + ":\n" + b;
            case Act::Ground: return "ground " + a + (n ? "" : " without prepare");
            case Act::External: return "external " + a + " " + b;
            case Act::Solve: return "solve, models " + std::to_string(n) + (m == 1 ? ", then stop" : m == 2 ? ", then error in callback" : "");
            case Act::Inspect: return "inspect";
            default: return "destroy theory";
        }
    }
};

// Remembers the constraints that hold in the current total assignment.
class Monitor : public ConditionMonitor {
  public:
    std::vector<ref::Row> rows;
    bool evaluable = false;
    void init(Clingo::PropagateInit &init) override {
        ConditionMonitor::init(init);
        evaluable = true;
        if (init.assignment().has_conflict()) { evaluable = false; atoms_.clear(); return; }
        try { atoms_ = theory_eval::atoms(init); }
        catch (theory_eval::Bad const &) { evaluable = false; atoms_.clear(); }
    }
    void check(Clingo::PropagateControl &ctl) override {
        ConditionMonitor::check(ctl);
        if (single_ != ctl.thread_id()) { return; }
        rows.clear();
        auto ass = ctl.assignment();
        for (auto const &a : atoms_) {
            if (!ass.is_true(a.lit)) { continue; }
            ref::Lin l;
            for (auto const &e : a.elems) { if (e.cond == 0 || ass.is_true(e.cond)) { l.add(e.lin); } }
            rows.push_back(ref::make_row(l, a.rel, ref::Lin{}));
        }
    }

  private:
    std::vector<theory_eval::Atom> atoms_;
    Clingo::id_t single_ = 0;
};

struct Outcome {
    size_t judged = 0, odd = 0, models = 0, errors = 0, solves = 0, inits = 0, inits_ok = 0;
    std::set<std::string> messages;
};

std::string error_message() {
    auto const *m = clingo_error_message();
    return m ? m : "";
}

// executes a plan; everything is released when it is gone
class Runner {
  public:
    Runner(Outcome &out) : out_{out} { guard([&] { return clingolpx_create(&t_); }, "create"); }
    ~Runner() {
        // a theory may go before the control it is registered with
        if (first_) { drop(); ctl_.reset(); } else { ctl_.reset(); drop(); }
    }
    Runner(Runner const &) = delete;
    void run(std::vector<Op> const &plan) {
        for (auto const &op : plan) { if (!step(op)) { return; } }
    }
    void destroy_first() { first_ = true; }

  private:
    template <class F> bool guard(F f, char const *what) {
        bool ok = false;
        try { ok = f(); }
        catch (pbt::Fail const &) { throw; }
        catch (pbt::Discard const &) { throw; }
        catch (...) { pbt::fail(std::string("an exception leaves clingolpx_") + what); }
        if (!ok) {
            ++out_.errors;
            auto m = error_message();
            CHECK(!m.empty(), "clingolpx_" << what << " fails without error message");
            out_.messages.insert(m);
        }
        return ok;
    }
    void drop() {
        if (t_) { guard([&] { return clingolpx_destroy(t_); }, "destroy"); }
        t_ = nullptr;
    }
    void inspect(unsigned thread) {
        size_t idx = 0, n = 0;
        std::vector<Clingo::Symbol> syms{Clingo::Id("x"), Clingo::Id("x0"), Clingo::Number(0), Clingo::Number(3), Clingo::String("1"), Clingo::Function("", {}), Clingo::Function("f", {Clingo::Number(1)}), Clingo::Infimum(), Clingo::Id("zz")};
        for (clingolpx_assignment_begin(t_, thread, &idx); clingolpx_assignment_next(t_, thread, &idx); ++n) {
            auto sym = clingolpx_get_symbol(t_, idx);
            size_t back = 0;
            CHECK(clingolpx_lookup_symbol(t_, sym, &back), "visited symbol is not found");
            CHECK(back == idx, "index of a visited symbol");
            CHECK(clingolpx_assignment_has_value(t_, thread, idx), "visited symbol has no value");
            clingolpx_value_t v;
            clingolpx_assignment_get_value(t_, thread, idx, &v);
            CHECK(v.type == clingolpx_value_type_symbol && Clingo::Symbol{v.symbol}.type() == Clingo::SymbolType::String, "value is not a string");
            CHECK(n < 100000, "endless iteration");
        }
        for (auto const &x : syms) {
            size_t i = 0;
            if (clingolpx_lookup_symbol(t_, x.to_c(), &i)) {
                CHECK(clingolpx_get_symbol(t_, i) == x.to_c(), "symbol of a found index");
                if (clingolpx_assignment_has_value(t_, thread, i)) {
                    clingolpx_value_t v;
                    clingolpx_assignment_get_value(t_, thread, i, &v);
                }
            }
        }
        CHECK(!clingolpx_assignment_has_value(t_, thread, 0), "index zero has a value");
        // whatever is said to have a value can be read
        for (size_t i = 1; clingolpx_assignment_has_value(t_, thread, i); ++i) {
            CHECK(i < 100000, "endless range of indices");
            size_t back = 0;
            CHECK(clingolpx_lookup_symbol(t_, clingolpx_get_symbol(t_, i), &back) && back == i, "index with a value does not belong to a symbol");
            clingolpx_value_t v;
            clingolpx_assignment_get_value(t_, thread, i, &v);
        }
    }
    struct Handler : Clingo::SolveEventHandler {
        Runner *r = nullptr;
        int n = 0, m = 0;
        int seen = 0;
        bool on_model(Clingo::Model &mod) override {
            r->guard([&] { return clingolpx_on_model(r->t_, mod.to_c()); }, "on_model");
            ++r->out_.models;
            r->thread_ = mod.thread_id();
            r->inspect(mod.thread_id());
            r->values(mod);
            if (++seen >= n) {
                if (m == 2) { throw std::runtime_error("callback"); }
                return false;
            }
            return true;
        }
        void on_statistics(Clingo::UserStatistics a, Clingo::UserStatistics b) override {
            r->guard([&] { return clingolpx_on_statistics(r->t_, a.to_c(), b.to_c()); }, "on_statistics");
        }
    };
    void values(Clingo::Model &m) {
        std::map<std::string, ref::QK> vals;
        std::string err;
        for (auto const &s : m.symbols(Clingo::ShowType::Theory)) {
            if (s.match("__lpx", 2)) {
                auto v = ref::parse_value(s.arguments()[1].string(), strict_, err);
                CHECK(v, "value of " << s.arguments()[0] << ": " << err);
                vals[s.arguments()[0].to_string()] = *v;
            }
        }
        if (monitor_.suspicious || !monitor_.evaluable || threads_) { return; }
        for (auto const &row : monitor_.rows) {
            CHECK(ref::satisfies(row, vals), "answer " << m << " violates " << row.str());
        }
        ++out_.judged;
    }
    bool step(Op const &op) {
        monitor_.threads = false;
        switch (op.act) {
            case Act::Configure:
                if (t_) { guard([&] { return clingolpx_configure(t_, op.a.c_str(), op.b.c_str()); }, "configure"); }
                return true;
            case Act::Validate:
                // solving goes on only with options that fit together
                return !t_ || guard([&] { return clingolpx_validate_options(t_); }, "validate_options");
            case Act::Control: {
                if (!t_) { return false; }
                ctl_.reset();
                solved_ = false;
                std::vector<char const *> args{"0"};
                threads_ = false;
                for (auto const &a : op.args) { args.push_back(a.c_str()); threads_ = threads_ || a[1] == 't'; }
                try {
                    ctl_ = std::make_unique<Clingo::Control>(Clingo::StringSpan{args.data(), args.size()}, [](Clingo::WarningCode, char const *) {}, 1000);
                    ctl_->register_propagator(monitor_);
                } catch (std::exception const &) { return false; }
                return guard([&] { return clingolpx_register(t_, ctl_->to_c()); }, "register");
            }
            case Act::Add: {
                if (!t_ || !ctl_) { return false; }
                std::string full = op.a == "base" ? op.b : "#program " + op.a + ".\n" + op.b;
                struct D { clingo_program_builder_t *b; clingolpx_theory_t *t; } d{nullptr, t_};
                if (!clingo_program_builder_init(ctl_->to_c(), &d.b) || !clingo_program_builder_begin(d.b)) { return false; }
                bool ok = clingo_ast_parse_string(
                    full.c_str(),
                    [](clingo_ast_t *ast, void *data) {
                        auto *d = static_cast<D *>(data);
                        return clingolpx_rewrite_ast(d->t, ast, [](clingo_ast_t *a, void *bb) { return clingo_program_builder_add(static_cast<clingo_program_builder_t *>(bb), a); }, d->b);
                    },
                    &d, ctl_->to_c(), [](clingo_warning_t, char const *, void *) {}, nullptr, 1000);
                if (!ok) { ++out_.errors; }
                ok = clingo_program_builder_end(d.b) && ok;
                return ok;
            }
            case Act::Ground:
                if (!ctl_) { return false; }
                try { ctl_->ground({{op.a.c_str(), {}}}); }
                catch (std::exception const &) { ++out_.errors; return false; }
                if (op.n && t_) { return guard([&] { return clingolpx_prepare(t_, ctl_->to_c()); }, "prepare"); }
                return true;
            case Act::External:
                if (!ctl_) { return false; }
                try {
                    auto s = Clingo::parse_term(op.a.c_str());
                    if (op.b == "released") { ctl_->release_external(s); }
                    else { ctl_->assign_external(s, op.b == "true" ? Clingo::TruthValue::True : op.b == "free" ? Clingo::TruthValue::Free : Clingo::TruthValue::False); }
                } catch (std::exception const &) { return false; }
                return true;
            case Act::Solve: {
                if (!t_ || !ctl_) { return false; }
                Handler h;
                h.r = this;
                h.n = op.n;
                h.m = op.m;
                try {
                    auto res = ctl_->solve(Clingo::LiteralSpan{}, &h, false, false).get();
                    static_cast<void>(res);
                    ++out_.solves;
                    if (!monitor_.evaluable) { ++out_.odd; }
                    solved_ = true;
                } catch (pbt::Fail const &) { throw; }
                catch (std::exception const &e) {
                    ++out_.errors;
                    CHECK(*e.what() != 0, "error without message");
                    out_.messages.insert(e.what());
                    return false;
                }
                return true;
            }
            case Act::Inspect:
                if (t_ && solved_) { inspect(0); }
                return true;
            case Act::Drop:
                drop();
                return true;
        }
        return true;
    }

    Outcome &out_;
    clingolpx_theory_t *t_ = nullptr;
    std::unique_ptr<Clingo::Control> ctl_;
    Monitor monitor_;
    bool threads_ = false, strict_ = true, solved_ = false, first_ = false;
    unsigned thread_ = 0;
};

size_t live_bytes() {
#ifdef HAVE_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return mallinfo2().uordblks;
#endif
}

void c23(Ctx &c) {
    auto &s = c.src;
    std::vector<Op> plan;
    auto op = [&](Act a, std::string x = "", std::string y = "", int n = 0, int m = 0) { Op o; o.act = a; o.a = std::move(x); o.b = std::move(y); o.n = n; o.m = m; plan.push_back(o); };
    bool strict = s.chance(30);
    auto o = gen_options(s, strict, true);
    multi_shot(o);
    if (s.chance(10)) { o.clasp.push_back(s.chance(50) ? "-t2" : "-t3,split"); }
    auto set = [&](char const *k, std::string const &v) { if (!v.empty()) { op(Act::Configure, k, v); } };
    set("strict", strict ? "yes" : "");
    set("select", o.select);
    set("store", o.store);
    set("propagate-bounds", o.bounds);
    set("propagate-conflicts", o.conflicts);
    if (s.chance(15)) { op(Act::Configure, "objective", s.pick(std::vector<std::string>{"global", "global,1", "global,1/3", "global,0", "global,e", "local", "global,-1", "global,1/0", "global,", "global,x", "GLOBAL", "global,0/5", "", "global,1/2/3", "global, 1", "global,99999999999999999999999999", "global,1.5"})); }
    while (s.chance(8)) {
        op(Act::Configure, s.pick(std::vector<std::string>{"strict", "select", "store", "propagate-bounds", "propagate-conflicts", "objective", "", "x", "Strict"}),
           s.pick(std::vector<std::string>{"", "yes", "no", "none", "match", "conflict", "partial", "total", "full", "changed", "1", "on", "ON", "matc", "matchx", "\xff", "yes "}));
    }
    if (s.chance(95)) { op(Act::Validate); }
    std::string kinds;
    int controls = s.chance(6) ? 2 : 1;
    for (int k = 0; k < controls; ++k) {
        op(Act::Control);
        plan.back().args = o.clasp;
        int steps = s.chance(70) ? 1 : s.range(2, 3);
        for (int i = 0; i < steps; ++i) {
            std::string part = i == 0 ? "base" : "p" + std::to_string(i);
            auto t = gen_text(s, strict);
            if (explosive(t.text)) { throw pbt::Discard{}; }
            if (s.chance(8)) { t.text += "\n#external q" + std::to_string(i) + ".\n&sum{x0} <= " + std::to_string(i) + " :- q" + std::to_string(i) + ".\n"; }
            kinds += t.kind;
            c.label(t.kind);
            op(Act::Add, part, t.text);
            op(Act::Ground, part, "", s.chance(95) ? 1 : 0);
            if (s.chance(5)) { op(Act::External, "q" + std::to_string(i), s.pick(std::vector<std::string>{"true", "false", "free", "released"})); }
            int n = s.chance(85) ? 1 : s.range(0, 2);
            for (int j = 0; j < n; ++j) {
                op(Act::Solve, "", "", s.chance(80) ? 60 : s.range(1, 3), s.chance(8) ? 2 : 1);
                if (s.chance(10)) { op(Act::Inspect); }
            }
        }
    }
    if (s.chance(10)) { op(Act::Drop); }
    bool first = s.chance(25);
    if (s.chance(6)) { plan.resize(1 + s.u(static_cast<uint32_t>(plan.size()))); }
    bool leak = s.chance(6) && std::find(o.clasp.begin(), o.clasp.end(), "-t2") == o.clasp.end() && std::find(o.clasp.begin(), o.clasp.end(), "-t3,split") == o.clasp.end();
    std::string d;
    for (auto const &x : plan) { d += x.str() + "\n"; }
    d += first ? "(theory destroyed before control)\n" : "";
    c.describe(d);
    Outcome out;
    auto once = [&] {
        Runner r{out};
        if (first) { r.destroy_first(); }
        r.run(plan);
    };
    once();
    c.ran();
    if (leak) {
        // FLINT's pool of big numbers may grow for some time
        size_t last = 0;
        long first_growth = 0;
        int runs = 0;
        for (int i = 0; i < 24; ++i) {
            once();
            size_t x = live_bytes();
            long g = static_cast<long>(x) - static_cast<long>(last);
            last = x;
            if (i < 2) { continue; }
            if (runs == 0) { first_growth = g; }
            if (g <= 0 || g != first_growth) { runs = -1; break; }
            ++runs;
        }
        CHECK(runs < 0, "each execution of the same calls leaves " << first_growth << " more bytes allocated");
        c.label("leak check");
    }
    if (out.models > 0) { c.label("with answers"); }
    if (out.judged > 0) { c.label("answers judged"); }
    if (out.odd > 0) { c.label("accepted, but not evaluable"); }
    if (out.errors > 0) { c.label("with errors"); }
    if (getenv("C23_MSG")) { for (auto const &m : out.messages) { c.label("msg " + m.substr(0, 60)); } }
    c.nontrivial = out.models > 0 || out.errors > 0;
}

pbt::Register r23{{"C23", c23,
                   "program texts (well-formed, token-mutated, random theory atoms over any theory term, ill-formed, deeply nested) within random sequences of interface calls "
                   "(configuration, controls, parts, externals, solve calls that are stopped or fail, inspection, destruction) with the library built with AddressSanitizer and "
                   "UndefinedBehaviorSanitizer; every failing call has to give an error message, no exception may leave a C function, and repeating a history must not grow the heap; "
                   "non-trivial: an answer or an error was reported",
                   36000, 600000, 60, false, true}};

} // namespace
