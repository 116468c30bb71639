#include "prog.hh"
#include <algorithm>

namespace prog {

bool holds(std::vector<Lit> const &body, Atoms const &m) {
    return std::all_of(body.begin(), body.end(), [&](Lit const &l) { return (m.count(l.atom) > 0) != l.neg; });
}
std::string body_str(std::vector<Lit> const &body) {
    std::string s;
    for (auto const &l : body) { s += (s.empty() ? "" : ", ") + l.str(); }
    return s;
}
static std::string elems_str(std::vector<Elem> const &es) {
    std::string s;
    for (auto const &e : es) { s += (s.empty() ? " " : "; ") + e.str(); }
    return s + " ";
}
std::string Con::head() const {
    switch (kind) {
        case Sum: return "&sum {" + elems_str(elems) + "} " + ref::rel_str(rel) + " " + guard.text;
        case Diff: return "&diff {" + elems_str(elems) + "} " + ref::rel_str(rel) + " " + guard.text;
        case Dom: return "&dom { " + dom_lo.text + " .. " + dom_hi.text + " } = " + guard.text;
    }
    return "";
}
static Lin elems_val(std::vector<Elem> const &es, Atoms const &m) {
    Lin l;
    for (auto const &e : es) { if (holds(e.cond, m)) { l.add(e.e.val); } }
    return l;
}
void Con::rows(Atoms const &m, std::vector<ref::Row> &out) const {
    if (!holds(body, m)) { return; }
    if (kind == Dom) {
        out.push_back(ref::make_row(guard.val, Rel::GE, dom_lo.val));
        out.push_back(ref::make_row(guard.val, Rel::LE, dom_hi.val));
        return;
    }
    out.push_back(ref::make_row(elems_val(elems, m), rel, guard.val));
}
std::string Obj::str() const { return !alt.empty() ? alt : std::string(minimise ? "&minimize {" : "&maximize {") + elems_str(elems) + "}."; }
Lin Obj::eval(Atoms const &m) const {
    Lin l;
    l.add(elems_val(elems, m), minimise ? -1 : 1);
    return l;
}
std::string Prog::regular_text(int step) const {
    std::string t;
    if (step < steps()) { for (auto const &r : regular[step]) { t += r + "\n"; } }
    return t;
}
std::string Prog::theory_text(int step) const {
    std::string t;
    for (auto const &c : cons) { if (c.step == step) { t += c.str() + "\n"; } }
    for (auto const &o : objs) { if (o.step == step) { t += o.str() + "\n"; } }
    return t;
}
std::vector<ref::Row> Prog::rows(Atoms const &m, int upto) const {
    std::vector<ref::Row> r;
    for (auto const &c : cons) { if (c.step <= upto) { c.rows(m, r); } }
    return r;
}
bool Prog::has_objective(int upto) const { return std::any_of(objs.begin(), objs.end(), [&](Obj const &o) { return o.step <= upto; }); }
Lin Prog::objective(Atoms const &m, int upto) const {
    Lin l;
    for (auto const &o : objs) { if (o.step <= upto) { l.add(o.eval(m)); } }
    return l;
}

// ---- expressions

static std::string paren(Expr const &e) { return "(" + e.text + ")"; }
static bool starts_op(std::string const &t) { return !t.empty() && t[0] == '-'; }
static Expr binary(Src &s, char op, int prec, Expr a, Expr b) {
    Expr r;
    std::string l = a.prec < prec ? paren(a) : a.text;
    std::string rr = b.prec <= prec ? paren(b) : b.text;
    bool space = s.chance(50) || starts_op(rr);
    r.text = l + (space ? " " : "") + op + (space ? " " : "") + rr;
    r.key = std::string("(") + a.key + op + b.key + ")";
    r.prec = prec;
    r.numeric = a.numeric && b.numeric;
    return r;
}
Expr mk_add(Src &s, Expr a, Expr b, bool minus) {
    Expr r = binary(s, minus ? '-' : '+', 1, a, b);
    r.val = a.val;
    r.val.add(b.val, minus ? -1 : 1);
    return r;
}
Expr mk_mul(Src &s, Expr a, Expr b) {
    Expr r = binary(s, '*', 2, a, b);
    if (a.val.constant()) { r.val.add(b.val, a.val.cst); } else { r.val.add(a.val, b.val.cst); }
    return r;
}
Expr mk_div(Src &s, Expr a, Expr b) {
    Expr r = binary(s, '/', 2, a, b);
    r.val.add(a.val, Q(1) / b.val.cst);
    return r;
}
Expr mk_neg(Src &, Expr a) {
    Expr r;
    std::string t = a.prec < 3 ? paren(a) : a.text;
    r.text = (starts_op(t) ? "- " : "-") + t;
    r.key = "-(" + a.key + ")";
    r.prec = 3;
    r.val.add(a.val, -1);
    r.numeric = a.numeric;
    return r;
}

static Expr atomic(std::string const &t, Lin const &v, bool numeric) {
    Expr e;
    e.text = e.key = t;
    e.val = v;
    e.numeric = numeric;
    return e;
}
static Lin cst(Q const &q) { Lin l; l.cst = q; return l; }

static std::string decimal(Src &s, Q const &v) { // v with denominator 2^a 5^b
    Q a = abs(v);
    std::string digits;
    size_t frac = 0;
    { // number of fractional digits
        mpz_class d = a.get_den();
        size_t twos = 0, fives = 0;
        while (d % 2 == 0) { d /= 2; ++twos; }
        while (d % 5 == 0) { d /= 5; ++fives; }
        frac = std::max(twos, fives);
        mpz_class ten;
        mpz_ui_pow_ui(ten.get_mpz_t(), 10, frac);
        a *= Q(ten);
    }
    if (a.get_den() != 1) { return ""; }
    digits = a.get_num().get_str();
    while (digits.size() <= frac) { digits = "0" + digits; }
    std::string r = digits.substr(0, digits.size() - frac);
    if (s.chance(10)) { r = std::string(1 + s.u(2), '0') + r; }
    std::string f = digits.substr(digits.size() - frac);
    if (s.chance(20)) { f += std::string(1 + s.u(3), '0'); }
    if (!f.empty()) { r += "." + f; }
    if (v < 0) { r = "-" + r; }
    return "\"" + r + "\"";
}
static bool dec_ok(Q const &v) {
    mpz_class d = v.get_den();
    while (d % 2 == 0) { d /= 2; }
    while (d % 5 == 0) { d /= 5; }
    return d == 1;
}

Expr num_expr(Src &s, Q const &v, int rich) {
    mpz_class const lim = 2147483647;
    bool isint = v.get_den() == 1;
    bool small = isint && abs(v.get_num()) <= lim;
    size_t k = rich > 0 ? s.weighted({60, 15, 10, 5, 5, 5}) : 0;
    auto base = [&](Q const &x) -> Expr { // shortest
        bool i = x.get_den() == 1;
        if (i && abs(x.get_num()) <= lim) {
            if (x < 0) { return mk_neg(s, atomic(Q(-x).get_str(), cst(-x), true)); }
            return atomic(x.get_str(), cst(x), true);
        }
        if (i) { return atomic("\"" + x.get_str() + "\"", cst(x), true); }
        Expr n = num_expr(s, Q(x.get_num()), 0), d = num_expr(s, Q(x.get_den()), 0);
        return mk_div(s, n, d);
    };
    switch (k) {
        case 1: if (dec_ok(v)) { return atomic(decimal(s, v), cst(v), true); } return base(v);
        case 2: { Q d = s.range(-3, 3); return mk_add(s, num_expr(s, v - d, rich - 1), num_expr(s, d, 0), false); }
        case 3: { Q d = s.range(-3, 3); return mk_add(s, num_expr(s, v + d, 0), num_expr(s, d, rich - 1), true); }
        case 4: { Q d = s.range(1, 4); return mk_div(s, num_expr(s, v * d, rich - 1), num_expr(s, d, 0)); }
        case 5: { Q d = s.range(1, 4); return mk_mul(s, num_expr(s, v / d, rich - 1), num_expr(s, d, 0)); }
        default: break;
    }
    if (!small && !isint && dec_ok(v) && s.chance(50)) { return atomic(decimal(s, v), cst(v), true); }
    return base(v);
}

// canonical names; index i makes them distinct
std::string var_name(Src &s, int i, int rich) {
    std::string n = std::to_string(i);
    switch (rich > 0 ? s.weighted({50, 12, 12, 6, 6, 5, 5, 4}) : 0) {
        case 1: return "f(" + n + ")";
        case 2: return "v(" + n + "," + std::to_string(s.range(-3, 9)) + ")";
        case 3: return "(" + n + ",a)";
        case 4: return "\"s " + n + "\"";
        case 5: return "g(\"" + n + ".5\")";
        case 6: return "h(-k(" + n + "),(x,(" + n + ",)))";
        case 7: return "(f(" + n + "),\"0\\\\\\\"\\n\")";
        default: return "x" + n;
    }
}

// end of the (canonical) term starting at i
static size_t term_end(std::string const &c, size_t i) {
    int depth = 0;
    bool str = false;
    for (; i < c.size(); ++i) {
        if (str) {
            if (c[i] == '\\') { ++i; }
            else if (c[i] == '"') { str = false; }
            continue;
        }
        if (c[i] == '"') { str = true; }
        else if (c[i] == '(') { ++depth; }
        else if (c[i] == ')') { if (depth-- == 0) { return i; } }
        else if (c[i] == ',' && depth == 0) { return i; }
    }
    return i;
}

static bool signable(std::string const &c, size_t i) { // a constant or function, possibly with a minus sign
    if (i < c.size() && c[i] == '-') { ++i; }
    return i < c.size() && (islower(static_cast<unsigned char>(c[i])) || c[i] == '_');
}

// respell the integers inside a canonical name by arithmetic expressions, and
// the terms t in it by -(-t)
static std::string respell(Src &s, std::string const &c, int rich) {
    std::string r;
    bool str = false;
    for (size_t i = 0; i < c.size();) {
        char ch = c[i];
        if (str) {
            if (ch == '\\') { r += ch; r += c[i + 1]; i += 2; continue; }
            if (ch == '"') { str = false; }
            r += ch; ++i; continue;
        }
        if (ch == '"') { str = true; r += ch; ++i; continue; }
        bool start = i > 0 && (c[i - 1] == '(' || c[i - 1] == ',');
        bool num = isdigit(static_cast<unsigned char>(ch)) || (ch == '-' && i + 1 < c.size() && isdigit(static_cast<unsigned char>(c[i + 1])));
        if (start && num) {
            size_t j = i + 1;
            while (j < c.size() && isdigit(static_cast<unsigned char>(c[j]))) { ++j; }
            long v = std::stol(c.substr(i, j - i));
            bool plain = !s.chance(40) || std::labs(v) > 100000000;
            std::string t;
            if (plain || rich == 0) { t = c.substr(i, j - i); }
            else {
                // no decimal strings here: strings are not numbers inside terms
                switch (s.u(5)) {
                    case 0: { int d = s.range(-3, 3); t = d < 0 ? std::to_string(v - d) + " + " + "(" + std::to_string(d) + ")" : std::to_string(v - d) + "+" + std::to_string(d); break; }
                    case 1: { int d = s.range(0, 3); t = std::to_string(v + d) + "-" + std::to_string(d); break; }
                    case 2: { int d = s.range(1, 3); t = std::to_string(v * d) + "/" + std::to_string(d); break; }
                    case 3: { int d = s.range(2, 5); t = "(" + std::to_string(v * d) + "/" + std::to_string(d * 2) + ")*2"; break; }
                    default: t = "-(" + std::to_string(-v) + ")"; break;
                }
            }
            r += t;
            i = j;
            continue;
        }
        if (start && rich > 0 && signable(c, i) && s.chance(15)) {
            size_t j = term_end(c, i), f = ch == '-' ? i + 1 : i;
            std::string t = c.substr(f, j - f);
            // the inner term is respelled as an argument
            t = respell(s, "(" + t, rich).substr(1);
            if (ch == '-') { r += s.chance(50) ? "-(-(-(" + t + ")))" : "-(" + t + ")"; }
            else { r += s.chance(70) ? "-(-(" + t + "))" : "-(-(-(-(" + t + "))))"; }
            i = j;
            continue;
        }
        r += ch;
        ++i;
    }
    return r;
}

Expr spell_name(Src &s, std::string const &canon, int rich) {
    Expr e = spell_var(s, canon, rich);
    if (rich > 1 && signable(canon, 0) && canon[0] != '-' && s.chance(8)) {
        e = atomic("(-(-" + e.text + "))", e.val, false);
        e.key = canon;
    }
    return e;
}

Expr spell_var(Src &s, std::string const &canon, int rich) {
    Lin l;
    l.co[canon] = 1;
    Expr e;
    e.text = rich > 1 ? respell(s, canon, rich) : canon;
    e.key = canon; // different spellings count as equal (safe: only used to keep elements apart)
    e.val = l;
    return e;
}

Expr term_expr(Src &s, Q const &c, std::string const &var, int rich) {
    Expr v = spell_var(s, var, rich);
    if (c == 1 && !s.chance(10)) { return v; }
    if (c == -1 && s.chance(80)) { return mk_neg(s, v); }
    if (rich > 0) {
        switch (s.weighted({50, 12, 12, 8})) {
            case 1: return mk_mul(s, v, num_expr(s, c, rich - 1));
            case 2: if (c != 0) { return mk_div(s, v, num_expr(s, 1 / c, rich - 1)); } break;
            case 3: if (c != 0) { Q d = s.range(1, 3); return mk_div(s, mk_mul(s, num_expr(s, c * d, 0), v), num_expr(s, d, 0)); } break;
            default: break;
        }
    }
    return mk_mul(s, num_expr(s, c, rich), v);
}

Expr lin_expr(Src &s, Lin const &l, int rich) {
    std::optional<Expr> r;
    auto join = [&](Expr e) {
        if (!r) { r = e; return; }
        if (e.prec == 3 && s.chance(50)) { r = mk_add(s, *r, e, false); return; }
        r = mk_add(s, *r, e, false);
    };
    for (auto const &[v, c] : l.co) {
        if (r && c < 0 && s.chance(70)) { r = mk_add(s, *r, term_expr(s, -c, v, rich), true); }
        else { join(term_expr(s, c, v, rich)); }
    }
    if (l.cst != 0 || !r) {
        if (r && l.cst < 0 && s.chance(70)) { r = mk_add(s, *r, num_expr(s, -l.cst, rich), true); }
        else { join(num_expr(s, l.cst, rich)); }
    }
    return *r;
}

Q gen_q(Src &s, Style const &st, bool nonzero) {
    Q q;
    switch (st.coef) {
        case 0: { static std::vector<int> v{1, -1, 2, -2, 3, 0, -3}; q = v[s.u(nonzero ? 5 : 7)]; break; }
        case 1: q = s.range(0, 20) * (s.chance(40) ? -1 : 1); break;
        case 2: {
            Q n = s.range(0, 12) * (s.chance(40) ? -1 : 1);
            static std::vector<int> d{1, 2, 10, 3, 4, 7, 100};
            q = n / d[s.u(7)];
            break;
        }
        default: {
            switch (s.u(4)) {
                case 0: q = s.range(0, 9); break;
                case 1: q = Q(mpz_class(2147483647) - s.range(0, 3)); break;
                case 2: {
                    mpz_class z = 1;
                    z <<= 30 + s.u(100);
                    z += s.range(-2, 2);
                    q = z;
                    break;
                }
                default: {
                    mpz_class z = 1, d = 1;
                    z <<= s.u(70);
                    z += s.range(-2, 2);
                    d <<= s.u(66);
                    d += s.range(0, 2);
                    q = Q(z, d);
                    q.canonicalize();
                    break;
                }
            }
            if (s.chance(40)) { q = -q; }
        }
    }
    if (nonzero && q == 0) { q = 1; }
    return q;
}

Expr random_expr(Src &s, std::vector<std::string> const &vars, int depth, Style const &st) {
    if (depth <= 0 || s.chance(15)) {
        if (s.chance(60)) { return spell_var(s, s.pick(vars), st.rich); }
        return num_expr(s, gen_q(s, st, false), st.rich);
    }
    auto num = [&](bool nonzero) {
        Style z = st;
        return num_expr(s, gen_q(s, z, nonzero), 1 + s.range(0, depth));
    };
    switch (s.weighted({25, 20, 20, 15, 10, 10})) {
        case 0: { auto a = random_expr(s, vars, depth - 1, st); auto b = random_expr(s, vars, depth - 1, st); return mk_add(s, a, b, false); }
        case 1: { auto a = random_expr(s, vars, depth - 1, st); auto b = random_expr(s, vars, depth - 1, st); return mk_add(s, a, b, true); }
        case 2: { auto a = num(false); auto b = random_expr(s, vars, depth - 1, st); return mk_mul(s, a, b); }
        case 3: { auto a = random_expr(s, vars, depth - 1, st); auto b = num(false); return mk_mul(s, a, b); }
        case 4: { auto a = random_expr(s, vars, depth - 1, st); auto b = num(true); return mk_div(s, a, b); }
        default: return mk_neg(s, random_expr(s, vars, depth - 1, st));
    }
}

// ---- programs

std::vector<Lit> gen_body(Src &s, std::vector<std::string> const &atoms, int hi) {
    std::vector<Lit> b;
    if (atoms.empty()) { return b; }
    int n = 1;
    while (n < hi && s.chance(25)) { ++n; }
    for (int i = 0; i < n; ++i) {
        auto const &a = s.pick(atoms);
        if (std::any_of(b.begin(), b.end(), [&](Lit const &l) { return l.atom == a; })) { continue; }
        b.push_back(Lit{a, s.chance(35)});
    }
    return b;
}

std::vector<std::string> gen_vars(Src &s, int lo, int hi, int rich) {
    std::vector<std::string> v;
    int n = s.range(lo, hi);
    for (int i = 0; i < n; ++i) { v.push_back(var_name(s, i, rich)); }
    return v;
}

Style gen_style(Src &s, Conf const &c, std::vector<std::string> const &vars) {
    Style st;
    st.coef = static_cast<int>(s.weighted({55, 15, 20, 10}));
    st.shape = static_cast<int>(s.weighted({60, 15, 15, 10}));
    st.point = static_cast<int>(s.weighted({50, 20, 15, 15}));
    if (c.fix_coef >= 0) { st.coef = c.fix_coef; }
    if (c.fix_shape >= 0) { st.shape = c.fix_shape; }
    if (c.fix_point >= 0) { st.point = c.fix_point; }
    st.rich = c.rich > 0 ? s.range(0, c.rich) : 0;
    st.strict = c.strict && s.chance(75);
    st.cond = c.conditions && s.chance(45) ? 10 + s.u(50) : 0;
    if (c.fix_cond != 999) { st.cond = c.fix_cond; }
    st.eq = 5 + 10 * s.u(5);
    st.body = static_cast<uint32_t>(std::vector<int>{50, 20, 80, 95}[s.u(4)]);
    for (auto const &v : vars) { st.hidden[v] = s.range(-4, 4); }
    return st;
}

// avoid equal elements within one atom (they would denote the same element)
static void unique_elems(Src &s, std::vector<Elem> &es) {
    std::set<std::string> seen;
    for (auto &e : es) {
        while (!seen.insert(e.e.key).second) {
            Lin one;
            one.cst = 1;
            Expr u;
            u.text = u.key = "1";
            u.val = one;
            u.numeric = true;
            e.e = mk_mul(s, u, e.e);
        }
    }
}

static Lin gen_lin(Src &s, Style const &st, std::vector<std::string> const &vars) {
    Lin l;
    size_t n = vars.size();
    auto add = [&](std::string const &v, Q const &q) { if (q != 0) { Lin t; t.co[v] = q; l.add(t); } };
    size_t shape = st.shape == 0 ? s.weighted({25, 25, 35, 15}) : st.shape == 1 ? 0 : st.shape == 2 ? 1 : 3;
    switch (shape) {
        case 0: add(s.pick(vars), gen_q(s, st, true)); break;
        case 1: { auto a = s.u(n), b = s.u(n); Q q = gen_q(s, st, true); if (st.shape == 2 && s.chance(85)) { q = 1; } add(vars[a], q); add(vars[b], -q); break; }
        case 2: {
            int k = s.range(2, static_cast<int>(std::min<size_t>(n + 1, 4)));
            for (int i = 0; i < k; ++i) { add(s.pick(vars), gen_q(s, st, true)); }
            break;
        }
        default: for (auto const &v : vars) { add(v, gen_q(s, st, false)); } break;
    }
    return l;
}

Con gen_con(Src &s, Style const &st, Conf const &c, std::vector<std::string> const &vars, std::vector<std::string> const &atoms) {
    Con con;
    auto rel = [&] {
        if (s.chance(st.eq)) { return Rel::EQ; }
        bool ge = s.chance(50);
        bool strict = st.strict && s.chance(50);
        return ge ? (strict ? Rel::GT : Rel::GE) : (strict ? Rel::LT : Rel::LE);
    };
    if (!atoms.empty() && s.chance(st.body)) { con.body = gen_body(s, atoms, 3); }
    size_t kind = c.dom_diff ? s.weighted({80, 10, 10}) : 0;
    auto at_hidden = [&](Lin const &l) {
        Q v = l.cst;
        for (auto const &[x, q] : l.co) { auto it = st.hidden.find(x); if (it != st.hidden.end()) { v += q * it->second; } }
        return v;
    };
    auto rhs_for = [&](Lin const &l, Rel r) -> Q { // l rel result
        switch (st.point) {
            case 1: {
                Q slack = abs(gen_q(s, st, false));
                if (s.chance(10)) { slack = -slack; }
                Q v = at_hidden(l);
                if (r == Rel::EQ) { return v; }
                if (r == Rel::LE || r == Rel::LT) { return v + slack; }
                return v - slack;
            }
            case 2: { Q v = at_hidden(l); return s.chance(12) ? Q(v + s.range(-1, 1)) : v; }
            case 3: return s.chance(80) ? Q(0) : gen_q(s, st, false);
            default: return gen_q(s, st, false);
        }
    };
    if (kind == 2) {
        con.kind = Con::Dom;
        auto const &v = s.pick(vars);
        con.guard = spell_name(s, v, st.rich);
        Q lo = gen_q(s, st, false), hi = lo + abs(gen_q(s, st, false));
        if (st.point == 1 || st.point == 2) {
            auto it = st.hidden.find(v);
            if (it != st.hidden.end() && s.chance(85)) { lo = it->second - s.range(0, 3); hi = it->second + s.range(0, 3); }
        } else if (s.chance(10)) { std::swap(lo, hi); }
        con.dom_lo = num_expr(s, lo, st.rich);
        con.dom_hi = num_expr(s, hi, st.rich);
        return con;
    }
    if (kind == 1 && vars.size() > 1) {
        con.kind = Con::Diff;
        auto a = s.u(vars.size()), b = s.u(vars.size());
        Elem e;
        // one side may be a number
        Expr ea = s.chance(12) ? num_expr(s, gen_q(s, st, false), 0) : spell_name(s, vars[a], st.rich);
        Expr eb = s.chance(12) ? num_expr(s, gen_q(s, st, false), 0) : spell_name(s, vars[b], st.rich);
        e.e = mk_add(s, ea, eb, true);
        con.elems.push_back(e);
        con.rel = rel();
        Lin g;
        g.cst = rhs_for(e.e.val, con.rel);
        con.guard = num_expr(s, g.cst, st.rich);
        return con;
    }
    con.kind = Con::Sum;
    con.rel = rel();
    Lin l = gen_lin(s, st, vars);
    if (l.co.empty() && !s.chance(40)) { l.co[vars[0]] = 1; }
    Q rhs = rhs_for(l, con.rel);
    // distribute terms over elements and guard
    Lin guard;
    guard.cst = rhs;
    bool conds = !atoms.empty() && st.cond > 0;
    for (auto const &[v, q] : l.co) {
        if (s.chance(12)) { Lin t; t.co[v] = q; guard.add(t, -1); continue; }
        Elem e;
        e.e = term_expr(s, q, v, st.rich);
        if (st.rich > 1 && s.chance(15)) { Lin t; t.co[v] = q; t.cst = s.range(-2, 2); guard.cst += t.cst; e.e = lin_expr(s, t, st.rich); }
        if (conds && s.chance(st.cond)) { e.cond = gen_body(s, atoms, 2); }
        con.elems.push_back(e);
        if (conds && s.chance(10)) { // the same term under another condition
            Elem e2 = e;
            e2.cond = gen_body(s, atoms, 2);
            con.elems.push_back(e2);
        }
    }
    if (conds && s.chance(st.cond / 3)) { // conditional constant
        Elem e;
        e.e = num_expr(s, gen_q(s, st, true), st.rich);
        e.cond = gen_body(s, atoms, 2);
        con.elems.push_back(e);
    }
    if (con.elems.empty()) {
        Elem e;
        e.e = num_expr(s, 0, 0);
        con.elems.push_back(e);
    }
    unique_elems(s, con.elems);
    con.guard = lin_expr(s, guard, st.rich);
    return con;
}

void gen_regular(Src &s, Conf const &c, Prog &p, std::vector<std::string> &rules, std::vector<std::string> &atoms, std::string const &sfx) {
    std::vector<uint32_t> w;
    for (int i = 0; i <= c.atoms_hi; ++i) { w.push_back(i >= c.atoms_lo ? 1 : 0); }
    int na = static_cast<int>(s.weighted(w));
    std::vector<std::string> ch;
    for (int i = 0; i < na; ++i) { ch.push_back("a" + std::to_string(i) + sfx); }
    switch (na > 1 ? s.weighted({60, 15, 15, 10}) : 0) {
        case 1: { // at most / exactly one
            std::string r = s.chance(50) ? "1 {" : "{";
            for (int i = 0; i < na; ++i) { r += (i ? "; " : " ") + ch[i]; }
            rules.push_back(r + " } " + std::to_string(s.range(1, std::max(1, na - 1))) + ".");
            break;
        }
        case 2: // even loops
            for (int i = 0; i < na; ++i) {
                if (s.chance(50)) { rules.push_back(ch[i] + " :- not n" + ch[i] + ". n" + ch[i] + " :- not " + ch[i] + "."); }
                else { rules.push_back("{ " + ch[i] + " }."); }
            }
            break;
        case 3: { // disjunction
            std::string r;
            for (int i = 0; i < na; ++i) { r += (i ? " ; " : "") + ch[i]; }
            rules.push_back(r + ".");
            break;
        }
        default: for (int i = 0; i < na; ++i) { rules.push_back("{ " + ch[i] + " }."); } break;
    }
    atoms.insert(atoms.end(), ch.begin(), ch.end());
    if (!atoms.empty() && s.chance(6)) { // definitions that are close to contradicting each other
        std::vector<std::string> pool{s.pick(atoms)};
        int n = s.range(2, 3);
        for (int i = 0; i < n; ++i) {
            std::string d = "k" + std::to_string(i) + sfx;
            rules.push_back(d + " :- " + body_str(gen_body(s, pool, 2)) + ".");
            pool.push_back(d);
            atoms.push_back(d);
        }
        rules.push_back(":- " + body_str(gen_body(s, pool, 2)) + ".");
    }
    if (na > 0) {
        int nd = s.chance(50) ? s.range(0, 3) : 0;
        for (int i = 0; i < nd; ++i) {
            std::string d = "d" + std::to_string(i) + sfx;
            int k = s.range(1, 2);
            for (int j = 0; j < k; ++j) { rules.push_back(d + " :- " + body_str(gen_body(s, atoms, 3)) + "."); }
            atoms.push_back(d);
        }
        if (s.chance(20)) { rules.push_back(":- " + body_str(gen_body(s, atoms, 3)) + "."); }
        if (s.chance(10)) { rules.push_back("fact" + sfx + "."); atoms.push_back("fact" + sfx); }
        if (s.chance(4)) { rules.push_back("undef" + sfx + " :- fact" + sfx + ", not fact" + sfx + "."); atoms.push_back("undef" + sfx); }
    }
}

// statements that become equal when grounding decides conditions would be one:
// one of the two needs an unconditional element the other does not have
static bool may_equal(Obj const &x, Obj const &y) {
    if (x.minimise != y.minimise) { return false; }
    auto subset = [](Obj const &u, Obj const &v) {
        return std::all_of(u.elems.begin(), u.elems.end(), [&](Elem const &e) {
            return !e.cond.empty() || std::any_of(v.elems.begin(), v.elems.end(), [&](Elem const &f) { return e.e.key == f.e.key; });
        });
    };
    return subset(x, y) && subset(y, x);
}

bool may_collapse(std::vector<Obj> const &objs) {
    for (size_t i = 0; i < objs.size(); ++i) {
        for (size_t j = 0; j < i; ++j) { if (may_equal(objs[i], objs[j])) { return true; } }
        std::set<std::string> keys;
        for (auto const &e : objs[i].elems) { if (!keys.insert(e.e.key).second) { return true; } }
    }
    return false;
}

void gen_objective(Src &s, Style const &st, Conf const &c, Prog &p, std::vector<std::string> const &vars, std::vector<std::string> const &atoms, int step) {
    int n = 1 + (s.chance(20) ? 1 : 0);
    for (int k = 0; k < n; ++k) {
        Obj o;
        o.step = step;
        o.minimise = s.chance(50);
        Lin l = gen_lin(s, st, vars);
        if (l.co.empty()) { l.co[vars[0]] = 1; }
        for (auto const &[v, q] : l.co) {
            Elem e;
            e.e = term_expr(s, q, v, st.rich);
            if (!atoms.empty() && st.cond > 0 && s.chance(st.cond)) { e.cond = gen_body(s, atoms, 2); }
            o.elems.push_back(e);
        }
        // constants need a condition that grounding cannot simplify away
        std::vector<std::string> open;
        std::string sfx = step > 0 ? "_" + std::to_string(step) : "";
        for (auto const &a : atoms) {
            bool now = step == 0 || (a.size() > sfx.size() && a.compare(a.size() - sfx.size(), sfx.size(), sfx) == 0);
            if (a[0] == 'a' && now) { open.push_back(a); }
        }
        if (!open.empty() && st.cond > 0 && s.chance(st.cond / 3)) {
            Elem e;
            e.e = num_expr(s, gen_q(s, st, true), 0);
            e.cond = gen_body(s, open, 2);
            o.elems.push_back(e);
        }
        unique_elems(s, o.elems);
        if (std::any_of(p.objs.begin(), p.objs.end(), [&](Obj const &x) { return may_equal(x, o); })) { continue; }
        p.objs.push_back(o);
    }
}

Prog gen_prog(Src &s, Conf const &c) {
    Prog p;
    p.regular.resize(1);
    p.vars = gen_vars(s, c.vars_lo, c.vars_hi, c.rich);
    gen_regular(s, c, p, p.regular[0], p.choice, "");
    Style st = gen_style(s, c, p.vars);
    int n = 0;
    while (s.more(n, c.cons_lo, c.cons_hi, c.avg_cons)) {
        p.cons.push_back(gen_con(s, st, c, p.vars, p.choice));
        ++n;
    }
    if (c.must_objective || (c.objective && s.chance(40))) { gen_objective(s, st, c, p, p.vars, p.choice, 0); }
    p.strict = std::any_of(p.cons.begin(), p.cons.end(), [](Con const &x) { return x.strict(); });
    return p;
}

} // namespace prog
