// Independent evaluation of ground theory atoms (as clingo presents them).
#pragma once
#include "run.hh"

namespace theory_eval {

using Clingo::TheoryTerm;
using Clingo::TheoryTermType;
using ref::Lin;
using ref::Q;

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };

inline bool decimal(std::string const &t, Q &out) { // "…" with quotes
    if (t.size() < 3 || t.front() != '"' || t.back() != '"') { return false; }
    std::string b = t.substr(1, t.size() - 2);
    bool neg = b[0] == '-';
    if (neg) { b = b.substr(1); }
    auto dot = b.find('.');
    std::string i = b.substr(0, dot), f = dot == std::string::npos ? "" : b.substr(dot + 1);
    auto digits = [](std::string const &x) { return !x.empty() && x.find_first_not_of("0123456789") == std::string::npos; };
    if (!digits(i) || (dot != std::string::npos && !digits(f))) { return false; }
    mpz_class n(i + f, 10), d;
    mpz_ui_pow_ui(d.get_mpz_t(), 10, f.size());
    out = Q(n, d);
    out.canonicalize();
    if (neg) { out = -out; }
    return true;
}

// canonical text of a term inside a variable name; integers are evaluated
struct Val { bool num = false; Q q; std::string text; };
inline Val value(TheoryTerm const &t, bool num_str = false) { // num_str: strings may be numbers
    Val r;
    auto call = [](TheoryTerm const &x) {
        std::string s;
        bool first = true;
        for (auto const &a : x.arguments()) {
            auto v = value(a);
            if (v.num) { v.text = v.q.get_str(); }
            s += (first ? "" : ",") + v.text;
            first = false;
        }
        return s;
    };
    switch (t.type()) {
        case TheoryTermType::Number: r.num = true; r.q = t.number(); return r;
        case TheoryTermType::Symbol: if (num_str && decimal(t.name(), r.q)) { r.num = true; } else { r.text = t.name(); } return r;
        case TheoryTermType::Tuple: r.text = "(" + call(t) + (t.arguments().size() == 1 ? ",)" : ")"); return r;
        case TheoryTermType::Function: {
            std::string n = t.name();
            auto a = t.arguments();
            if (a.size() == 2 && (n == "+" || n == "-" || n == "*" || n == "/")) {
                auto x = value(a.front(), num_str), y = value(a.back(), num_str);
                if (!x.num || !y.num || (n == "/" && y.q == 0)) { throw Bad("arithmetic"); }
                r.num = true;
                r.q = n == "+" ? Q(x.q + y.q) : n == "-" ? Q(x.q - y.q) : n == "*" ? Q(x.q * y.q) : Q(x.q / y.q);
                return r;
            }
            if (a.size() == 1 && n == "-") {
                auto x = value(a.front(), num_str);
                if (x.num) { r.num = true; r.q = -x.q; return r; }
                r.text = x.text[0] == '-' ? x.text.substr(1) : "-" + x.text;
                return r;
            }
            r.text = a.empty() ? n : n + "(" + call(t) + ")";
            return r;
        }
        default: throw Bad("term");
    }
}

inline Lin linear(TheoryTerm const &t) {
    Lin r;
    if (t.type() == TheoryTermType::Number) { r.cst = t.number(); return r; }
    if (t.type() == TheoryTermType::Function) {
        std::string n = t.name();
        auto a = t.arguments();
        if (a.size() == 2 && (n == "+" || n == "-")) { r = linear(a.front()); r.add(linear(a.back()), n == "+" ? 1 : -1); return r; }
        if (a.size() == 1 && n == "-") { r.add(linear(a.front()), -1); return r; }
        if (a.size() == 2 && n == "*") {
            auto x = linear(a.front()), y = linear(a.back());
            if (x.constant()) { r.add(y, x.cst); } else if (y.constant()) { r.add(x, y.cst); } else { throw Bad("product"); }
            return r;
        }
        if (a.size() == 2 && n == "/") {
            auto y = linear(a.back());
            if (!y.constant() || y.cst == 0) { throw Bad("division"); }
            r.add(linear(a.front()), Q(1) / y.cst);
            return r;
        }
    }
    Q q;
    if (t.type() == TheoryTermType::Symbol && decimal(t.name(), q)) { r.cst = q; return r; }
    auto v = value(t);
    if (v.num) { r.cst = v.q; return r; }
    r.co[v.text] = 1;
    return r;
}

struct Element { Lin lin; Clingo::literal_t cond = 0; }; // 0: unconditional
struct Atom {
    Clingo::literal_t lit = 0;
    std::vector<Element> elems; // sum of elements rel 0
    ref::Rel rel = ref::Rel::LE;
};

// rows of all constraints, as conditional sums compared with zero
inline std::vector<Atom> atoms(Clingo::PropagateInit &init) {
    std::vector<Atom> r;
    for (auto a : init.theory_atoms()) {
        std::string n = a.term().to_string();
        if (n != "sum" && n != "diff" && n != "dom") { continue; }
        auto lit = init.solver_literal(a.literal());
        if (!a.has_guard()) { throw Bad("guard"); }
        auto g = a.guard();
        for (auto e : a.elements()) { if (e.tuple().empty()) { throw Bad("tuple"); } }
        if (n == "dom") {
            if (a.elements().size() != 1 || a.elements()[0].tuple()[0].type() != TheoryTermType::Function || a.elements()[0].tuple()[0].arguments().size() != 2) { throw Bad("elements"); }
            auto t = a.elements()[0].tuple()[0];
            auto name = value(g.second);
            if (name.num) { throw Bad("variable"); }
            Lin v;
            v.co[name.text] = 1;
            for (int k = 0; k < 2; ++k) {
                Atom x;
                x.lit = lit;
                x.rel = k == 0 ? ref::Rel::GE : ref::Rel::LE;
                Lin l = v;
                l.add(linear(k == 0 ? t.arguments().front() : t.arguments().back()), -1);
                x.elems.push_back({l, 0});
                r.push_back(x);
            }
            continue;
        }
        Atom x;
        x.lit = lit;
        std::string rel = g.first;
        x.rel = rel == "<=" ? ref::Rel::LE : rel == ">=" ? ref::Rel::GE : rel == "=" ? ref::Rel::EQ : rel == "<" ? ref::Rel::LT : ref::Rel::GT;
        for (auto e : a.elements()) {
            Element el;
            auto t = e.tuple()[0];
            if (n == "diff") { // the arguments are names or numbers
                if (a.elements().size() != 1 || t.type() != TheoryTermType::Function || std::string(t.name()) != "-" || t.arguments().size() != 2) { throw Bad("difference"); }
                for (int k = 0; k < 2; ++k) {
                    auto v = value(k == 0 ? t.arguments().front() : t.arguments().back(), true);
                    Lin l;
                    if (v.num) { l.cst = v.q; } else { l.co[v.text] = 1; }
                    el.lin.add(l, k == 0 ? 1 : -1);
                }
            } else { el.lin = linear(t); }
            if (!e.condition().empty()) { el.cond = init.solver_literal(e.condition_id()); }
            x.elems.push_back(el);
        }
        Lin gl;
        gl.add(linear(g.second), -1);
        x.elems.push_back({gl, 0});
        r.push_back(x);
    }
    return r;
}

} // namespace theory_eval
