// Ill-formed theory atoms and directives, shared by C09, C18 and C19.
#pragma once
#include "shared.hh"

namespace shared {

struct Bad { std::string atom, kind; bool objective = false; };

// a program fragment that has to be rejected
inline Bad ill_formed(Src &s, std::vector<std::string> const &vars, Style const &st, std::vector<std::string> const &open) {
    auto var = [&] { return spell_var(s, s.pick(vars), st.rich > 1 ? 2 : 0).text; };
    auto num = [&] { return num_expr(s, gen_q(s, st, false), s.range(0, 2)); };
    auto nz = [&] { return num_expr(s, gen_q(s, st, true), s.range(0, 2)); };
    auto par = [](Expr const &e) { return e.prec < 9 ? "(" + e.text + ")" : e.text; };
    auto lin = [&](int d) { return random_expr(s, vars, d, st); };
    // an expression in which a variable certainly occurs with a coefficient
    auto varexpr = [&]() -> std::string {
        switch (s.u(5)) {
            case 0: return var();
            case 1: return "(" + var() + "+" + par(num()) + ")";
            case 2: return "(" + par(nz()) + "*" + var() + ")";
            case 3: return "(" + var() + "-" + par(lin(1)) + ")";
            default: return "(" + var() + "/" + par(nz()) + ")";
        }
    };
    auto zero = [&]() -> std::string {
        switch (s.u(6)) {
            case 0: return "0";
            case 1: return "\"0\"";
            case 2: return "\"0.00\"";
            case 3: { auto n = par(num()); return "(" + n + " - " + n + ")"; }
            case 4: return "(0*" + par(num()) + ")";
            default: return "(-0)";
        }
    };
    // the ill-formed expression within something larger
    std::function<std::string(std::string, int)> wrap = [&](std::string const &e, int d) -> std::string {
        if (d <= 0) { return e; }
        switch (s.u(6)) {
            case 0: return wrap("(" + e + " + " + par(lin(1)) + ")", d - 1);
            case 1: return wrap("(" + par(lin(1)) + " - " + e + ")", d - 1);
            case 2: return wrap("(" + par(nz()) + " * " + e + ")", d - 1);
            case 3: return wrap("(" + e + " / " + par(nz()) + ")", d - 1);
            case 4: return wrap("(- " + e + ")", d - 1);
            default: return e;
        }
    };
    std::vector<std::string> const rels{"<=", ">=", "="};
    auto rel = [&] { return s.pick(rels); };
    auto cnd = [&]() -> std::string { return !open.empty() && s.chance(30) ? " : " + s.pick(open) : ""; };
    // place an expression where a linear expression is expected
    auto place = [&](std::string const &e) -> std::string {
        switch (s.weighted({40, 25, 15, 10, 10})) {
            case 0: return "&sum { " + e + cnd() + " } " + rel() + " " + lin(1).text;
            case 1: return "&sum { " + lin(1).text + " } " + rel() + " " + e;
            case 2: return "&sum { " + var() + "; " + e + cnd() + " } " + rel() + " " + par(num());
            case 3: return std::string(s.chance(50) ? "&maximize" : "&minimize") + " { " + e + " }";
            default: return "&diff { " + s.pick(vars) + " - " + s.pick(vars) + " } " + rel() + " " + e;
        }
    };
    auto e0 = [&](std::string const &e, std::string const &k) { return Bad{place(wrap(e, s.range(0, 2))), k}; };
    switch (s.u(14)) {
        case 0: case 1: return e0("(" + varexpr() + " * " + varexpr() + ")", "product of two variable expressions");
        case 2: return e0("(" + varexpr() + " / " + varexpr() + ")", "division by a variable expression");
        case 3: return e0("(" + par(s.chance(50) ? num() : lin(1)) + " / " + zero() + ")", "division by zero");
        case 4: { // division by zero in &dom
            auto z = "(" + par(num()) + " / " + zero() + ")";
            return {"&dom { " + (s.chance(50) ? z + " .. " + par(num()) : par(num()) + " .. " + z) + " } = " + s.pick(vars), "division by zero in &dom"};
        }
        case 5: return {s.chance(50) ? "&sum { " + lin(1).text + " }" : s.chance(50) ? "&diff { " + s.pick(vars) + " - " + s.pick(vars) + " }" : "&dom { 1 .. 2 }", "missing guard"};
        case 6: { // number of elements
            auto d = [&] { return s.pick(vars) + " - " + s.pick(vars); };
            if (s.chance(50)) {
                std::string a = d(), b = d();
                if (a == b) { b = "yyy - " + s.pick(vars); }
                return {s.chance(80) ? "&diff { " + a + "; " + b + " } <= 1" : "&diff { } <= 1", "number of elements in &diff"};
            }
            return {s.chance(80) ? "&dom { 1 .. 2; 2 .. 3 } = " + s.pick(vars) : "&dom { } = " + s.pick(vars), "number of elements in &dom"};
        }
        case 7: { // conditions
            std::string a = open.empty() ? "" : s.pick(open);
            if (a.empty()) { return {"&sum { } ", "missing guard"}; }
            return {s.chance(50) ? "&diff { " + s.pick(vars) + " - " + s.pick(vars) + " : " + a + " } <= 1" : "&dom { 1 .. 2 : " + a + " } = " + s.pick(vars), "condition in &dom or &diff"};
        }
        case 8: { // bounds of &dom
            std::string b = s.pick(vars);
            if (s.chance(30)) { b = "(" + b + "+1)"; }
            switch (s.u(4)) {
                case 0: return {"&dom { " + b + " .. 3 } = " + s.pick(vars), "non-numeric &dom bound"};
                case 1: return {"&dom { 1 .. " + b + " } = " + s.pick(vars), "non-numeric &dom bound"};
                case 2: return {"&dom { " + par(num()) + " } = " + s.pick(vars), "&dom without interval"};
                default: return {"&dom { \"abc\" .. 3 } = " + s.pick(vars), "non-numeric &dom bound"};
            }
        }
        case 9: return {"&dom { 1 .. 2 } = " + (s.chance(50) ? std::to_string(s.range(0, 3)) : "(1+" + std::to_string(s.range(0, 3)) + ")"), "numeric &dom variable"};
        case 10: { // constants in the objective
            auto e = lin(2);
            Q d = s.range(1, 4);
            if (e.val.cst == 0) { e = mk_add(s, e, num_expr(s, d, 0), s.chance(50)); }
            return {std::string(s.chance(50) ? "&maximize" : "&minimize") + " { " + e.text + " }", "constant in objective", true};
        }
        case 11: case 12: { // arithmetic over non-numbers inside names
            std::string inner;
            std::string x = s.pick(std::vector<std::string>{"x", "f(1)", "\"1\"", "\"a\"", "(1,)"});
            switch (s.u(7)) {
                case 0: inner = x + "+1"; break;
                case 1: inner = "1-" + x; break;
                case 2: inner = "2*" + x; break;
                case 3: inner = x + "/2"; break;
                case 4: inner = "1/2"; break;
                case 5: inner = "-" + s.pick(std::vector<std::string>{"\"a\"", "(1,)", "\"1\""}); break;
                default: inner = "1/(1-1)"; break;
            }
            std::string v = s.pick(std::vector<std::string>{"f(", "g(a,", "(", "h(k("}) + inner;
            if (v[0] == '(') { v += ",1"; }
            v += v[0] == 'h' ? "))" : ")";
            if (s.chance(20)) { return {"&dom { 1 .. 2 } = " + v, "arithmetic over non-numbers in a name"}; }
            return e0(v, "arithmetic over non-numbers in a name");
        }
        default: { // &diff that is not a difference
            std::string e;
            switch (s.u(4)) {
                case 0: e = s.pick(vars); break;
                case 1: e = s.pick(vars) + " + " + s.pick(vars); break;
                case 2: e = "2*" + s.pick(vars) + " - " + s.pick(vars); break;
                default: e = s.pick(vars) + " - " + s.pick(vars) + " - " + s.pick(vars); break;
            }
            return {"&diff { " + e + " } <= 3", "&diff that is not a difference"};
        }
    }
}

} // namespace shared
