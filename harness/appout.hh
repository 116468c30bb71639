// Reading what the clingo-lpx programs print.
#pragma once
#include "global_oracle.hh"
#include "illformed.hh"
#include "proc.hh"

namespace appout {

using namespace shared;

struct Output {
    Result res;
    std::vector<std::string> verdicts;
    std::string models_line;
    size_t answers = 0;
};

inline std::vector<std::string> lines(std::string const &s) {
    std::vector<std::string> r;
    std::istringstream in(s);
    for (std::string l; std::getline(in, l);) { r.push_back(l); }
    return r;
}

// vars: names of theory variables; the values line is read against them
inline Output parse(std::string const &text, std::set<std::string> const &vars, bool strict) {
    Output o;
    auto ls = lines(text);
    for (size_t i = 0; i < ls.size(); ++i) {
        auto const &l = ls[i];
        if (l == "SATISFIABLE" || l == "UNSATISFIABLE" || l == "UNKNOWN" || l == "OPTIMUM FOUND") { o.verdicts.push_back(l); }
        if (l.rfind("Models ", 0) == 0) { o.models_line = l.substr(l.find(':') + 1); }
        if (l.rfind("Answer:", 0) != 0) { continue; }
        ++o.answers;
        CHECK(strtoul(l.c_str() + 7, nullptr, 10) >= 1, "answer without number: " << l);
        CHECK(i + 3 < ls.size(), "incomplete answer");
        Model m;
        std::istringstream at(ls[i + 1]);
        for (std::string a; at >> a;) { CHECK(m.atoms.insert(a).second, "atom " << a << " printed twice"); }
        CHECK(ls[i + 2] == "Assignment:", "expected 'Assignment:' but got '" << ls[i + 2] << "'");
        std::string const &v = ls[i + 3];
        size_t pos = 0;
        while (pos < v.size()) {
            std::string name;
            for (auto const &x : vars) {
                if (x.size() > name.size() && v.compare(pos, x.size(), x) == 0 && pos + x.size() < v.size() && v[pos + x.size()] == '=') { name = x; }
            }
            CHECK(!name.empty(), "cannot read the assignment at '" << v.substr(pos) << "'");
            pos += name.size() + 1;
            size_t end = v.find(' ', pos);
            if (end == std::string::npos) { end = v.size(); }
            std::string val = v.substr(pos, end - pos), err;
            CHECK(m.raw.emplace(name, val).second, "two values for " << name);
            auto q = ref::parse_value(val, strict, err);
            CHECK(q, "value of " << name << ": " << err);
            m.values[name] = *q;
            pos = end;
            if (pos < v.size()) {
                ++pos;
                CHECK(pos < v.size(), "trailing blank in assignment");
            }
        }
        i += 3;
        if (i + 1 < ls.size() && ls[i + 1].rfind("Optimization: ", 0) == 0) {
            std::string l2 = ls[++i].substr(14), err;
            size_t b = l2.find(' ');
            CHECK(b != std::string::npos, "objective line without flag: " << l2);
            std::string flag = l2.substr(b + 1);
            CHECK(flag == "[bounded]" || flag == "[unbounded]", "objective flag '" << flag << "'");
            auto q = ref::parse_value(l2.substr(0, b), strict, err);
            CHECK(q, "objective: " << err);
            m.raw_objective = l2.substr(0, b);
            m.objective = {*q, flag == "[bounded]"};
        }
        o.res.models.push_back(std::move(m));
    }
    return o;
}

// what is printed with --outf=2
inline Output parse_json(std::string const &text, bool strict) {
    Output o;
    size_t pos = 0;
    // the string at pos, which is behind its opening quote
    auto str = [&]() {
        std::string r;
        for (; pos < text.size() && text[pos] != '"'; ++pos) {
            if (text[pos] == '\\') { ++pos; r += text[pos] == 'n' ? '\n' : text[pos] == 't' ? '\t' : text[pos]; }
            else { r += text[pos]; }
        }
        CHECK(pos < text.size(), "string without end in the output");
        ++pos;
        return r;
    };
    auto number = [&](char const *key) {
        auto at = text.find(key);
        return at == std::string::npos ? std::string() : std::to_string(strtoul(text.c_str() + at + strlen(key), nullptr, 10));
    };
    for (pos = 0; (pos = text.find("\"Result\": \"", pos)) != std::string::npos;) {
        pos += 11;
        o.verdicts.push_back(str());
    }
    o.models_line = number("\"Number\": ");
    if (text.find("\"More\": \"yes\"") != std::string::npos) { o.models_line += '+'; }
    for (pos = 0; (pos = text.find("\"Value\": [", pos)) != std::string::npos;) {
        pos += 10;
        ++o.answers;
        Model m;
        for (;; ++pos) {
            CHECK(pos < text.size(), "answer without end");
            if (text[pos] == ']') { break; }
            if (text[pos] != '"') { continue; }
            ++pos;
            auto sym = str();
            --pos;
            std::string err;
            if (sym.rfind("__lpx", 0) != 0) {
                CHECK(m.atoms.insert(sym).second, "atom " << sym << " printed twice");
                continue;
            }
            auto t = Clingo::parse_term(sym.c_str());
            auto a = t.arguments();
            CHECK(a.size() == 2, "unexpected symbol " << sym);
            if (t.match("__lpx", 2)) {
                auto n = a[0].to_string();
                CHECK(m.raw.emplace(n, a[1].string()).second, "two values for " << n);
                auto v = ref::parse_value(a[1].string(), strict, err);
                CHECK(v, "value of " << n << ": " << err);
                m.values[n] = *v;
            } else {
                CHECK(t.match("__lpx_objective", 2) && !m.objective, "unexpected symbol " << sym);
                auto v = ref::parse_value(a[0].string(), strict, err);
                CHECK(v, "objective: " << err);
                m.raw_objective = a[0].string();
                m.objective = {*v, a[1] == Clingo::Number(1)};
            }
        }
        o.res.models.push_back(std::move(m));
    }
    return o;
}

// values printed in the section of the theory with --stats
inline std::map<std::string, std::vector<std::string>> simplex_stats(std::string const &out) {
    std::map<std::string, std::vector<std::string>> got;
    bool simplex = false;
    for (auto const &l : lines(out)) {
        if (l == "Simplex") { simplex = true; }
        else if (l.empty() || l[0] != ' ') { simplex = false; }
        else if (auto d = l.find(':'); simplex && d != std::string::npos && d > 2) {
            auto k = l.substr(2, l.find_last_not_of(' ', d - 1) - 1), v = l.substr(d + 1);
            v.erase(0, v.find_first_not_of(' '));
            v.erase(v.find_last_not_of(' ') + 1);
            got[k].push_back(v);
        }
    }
    return got;
}

// #show statements over the choice atoms
struct Show {
    std::string text;
    bool hide = false; // only what is listed is shown
    std::set<std::string> preds;
    std::vector<std::pair<std::string, std::vector<Lit>>> terms;
    Atoms apply(Atoms const &a) const {
        Atoms r;
        for (auto const &x : a) { if (!hide || preds.count(x)) { r.insert(x); } }
        for (auto const &[t, body] : terms) {
            if (std::all_of(body.begin(), body.end(), [&](Lit const &l) { return (a.count(l.atom) > 0) != l.neg; })) { r.insert(t); }
        }
        return r;
    }
};

inline Show gen_show(Src &s, Prog const &p) {
    Show r;
    if (s.chance(70)) {
        r.hide = true;
        for (auto const &a : p.choice) { if (s.chance(50)) { r.preds.insert(a); } }
        for (auto const &a : r.preds) { r.text += "#show " + a + "/0.\n"; }
        if (r.preds.empty()) { r.text = "#show.\n"; }
    }
    if (!r.hide || s.chance(40)) {
        static char const *const names[] = {"s", "t(1)", "t(2)", "\"text\"", "7", "u(\"a\",-1)",
                                            // what the theory itself adds to answers has these names
                                            "__lpx(x,\"7\")", "__lpx(zz,\"1\")", "__lpx_objective(\"3\",1)"};
        for (int i = 0, n = s.range(1, 3); i < n; ++i) {
            std::string t = names[s.u(9)];
            std::vector<Lit> body;
            for (int j = 0, m = s.range(0, 2); j < m; ++j) { body.push_back(Lit{s.pick(p.choice), s.chance(30)}); }
            r.text += "#show " + t + (body.empty() ? "" : " : ");
            for (size_t j = 0; j < body.size(); ++j) { r.text += (j ? ", " : "") + std::string(body[j].neg ? "not " : "") + body[j].atom; }
            r.text += ".\n";
            r.terms.emplace_back(t, body);
        }
    }
    return r;
}

// Statements of all sorts that do not change what the program means but only
// if they are passed on as they are.  Each is one line; args gets what has to
// be given on the command line.
inline std::string extras(Src &s, std::vector<std::string> &args) {
    std::string r;
    uint32_t kind = s.u(9);
    for (int n = s.range(1, 3); n > 0; --n) {
        switch (kind++ % 9) {
            case 0: r += "#const pbt_a = 7. :- pbt_a != 7.\n"; break;
            case 1:
                r += "#const pbt_b = 7. :- pbt_b != 8.\n";
                args.push_back("-c");
                args.push_back("pbt_b=8");
                break;
            case 2: r += "#external pbt_c. :- pbt_c.\n"; break;
            case 3: r += "#program pbt_d(pbt_k). :- not pbt_e. #program base.\n"; break;
            case 4: r += "#defined pbt_f/1. :- pbt_f(X).\n"; break;
            case 5: r += "%* :- not pbt_g. *% % :- not pbt_h.\n"; break;
            case 6: r += ":- #sum { X : X = 1..4 } != 10. :- #count { X,Y : X = 1..2, Y = (a;b) } != 4.\n"; break;
            case 7: r += "#edge (pbt_u,pbt_v). #edge (pbt_v,pbt_w).\n"; break;
            default: r += "pbt_i :- #false. #false :- pbt_i. :- not #true, 1 = 1.\n"; break;
        }
    }
    return r;
}

inline std::vector<std::string> theory_args(Options const &o) {
    std::vector<std::string> r;
    if (o.strict) { r.push_back("--strict"); }
    if (!o.objective.empty()) { r.push_back("--objective=" + o.objective); }
    if (!o.select.empty()) { r.push_back("--select=" + o.select); }
    if (!o.store.empty()) { r.push_back("--store=" + o.store); }
    if (!o.bounds.empty()) { r.push_back("--propagate-bounds=" + o.bounds); }
    if (!o.conflicts.empty()) { r.push_back(o.conflicts == "no" ? "--no-propagate-conflicts" : "--propagate-conflicts"); }
    return r;
}

inline std::string cmdline(std::vector<std::string> const &a) {
    std::string r;
    for (auto const &x : a) { r += " " + x; }
    return r;
}

// what a program says about itself
inline void about(Ctx &c, std::vector<std::string> args, std::string const &dir, std::vector<std::string> const &env = {}) {
    auto &s = c.src;
    bool version = s.chance(50);
    args.push_back(version ? (s.chance(50) ? "--version" : "-v") : s.chance(50) ? "--help" : s.chance(50) ? "--help=2" : "--help=3");
    c.describe("program:" + cmdline(args));
    auto po = proc::run(args, dir, "", 60, env);
    c.ran();
    CHECK(po.signal == 0 && po.code == 0, "exit code " << po.code << "\n" << po.err);
    if (version) {
        int major = -1, minor = -1, patch = -1;
        clingolpx_version(&major, &minor, &patch);
        auto want = std::to_string(major) + "." + std::to_string(minor) + "." + std::to_string(patch);
        std::istringstream in{po.out};
        std::string line, word;
        std::getline(in, line);
        std::istringstream words{line};
        std::vector<std::string> ws;
        while (words >> word) { ws.push_back(word); }
        CHECK(!ws.empty() && ws.back() == want, "'" << line << "' is printed by version " << want);
    } else {
        for (auto const &k : {"strict", "propagate-conflicts", "propagate-bounds", "objective", "select", "store"}) {
            bool found = po.out.find(std::string("--") + k) != std::string::npos || po.out.find(std::string("--[no-]") + k) != std::string::npos;
            CHECK(found, "option " << k << " is missing in the output of" << cmdline(args));
        }
    }
    c.label("version and help");
    c.nontrivial = true;
}

} // namespace appout
