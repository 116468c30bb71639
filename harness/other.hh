// A further propagator of the same control: it decides on literals, enforces
// integrity constraints lazily, and leaves the theory to the theory.
#pragma once
#include "shared.hh"

namespace shared {

class Other : public Clingo::Heuristic {
  public:
    using Nogood = std::vector<Lit>; // must not hold together
    std::vector<Nogood> nogoods;
    uint32_t state = 1;
    uint32_t eager = 0, unit = 0, decisions = 0, nested = 0; // chances in percent
    Clingo::PropagatorCheckMode mode = Clingo::PropagatorCheckMode::Total;
    Clingo::PropagatorUndoMode undo_mode = Clingo::PropagatorUndoMode::Default;
    Clingo::ClauseType type = Clingo::ClauseType::Learnt;
    size_t clauses = 0, decided = 0;

    std::function<void(bool)> adding; // around the own clauses

    // random behaviour; returns the text of the constraints
    std::string gen(Src &s, std::vector<std::string> const &atoms) {
        std::string r;
        for (int k = s.range(0, 4); k > 0; --k) {
            auto b = gen_body(s, atoms, 3);
            r += ":- " + body_str(b) + ".\n";
            nogoods.push_back(b);
        }
        using namespace Clingo;
        state = s.u(1 << 20);
        eager = s.u(101);
        unit = s.u(101);
        decisions = s.u(101);
        nested = s.u(101);
        mode = std::vector<PropagatorCheckMode>{PropagatorCheckMode::Total, PropagatorCheckMode::Both}[s.u(2)];
        undo_mode = std::vector<PropagatorUndoMode>{PropagatorUndoMode::Default, PropagatorUndoMode::Always}[s.u(2)];
        type = std::vector<ClauseType>{ClauseType::Learnt, ClauseType::Static, ClauseType::Volatile, ClauseType::VolatileStatic}[s.u(4)];
        return r;
    }
    // clasp accepts a model if a clause added while it is checked turns the
    // assignment into another total one, without asking the propagators
    // registered earlier again
    void last() {
        eager = 100;
        mode = Clingo::PropagatorCheckMode::Total;
    }

    void init(Clingo::PropagateInit &init) override {
        lits_.clear();
        free_.clear();
        init.set_check_mode(mode);
        init.set_undo_mode(undo_mode);
        auto lit = [&](Lit const &l) {
            auto a = init.symbolic_atoms().find(Clingo::parse_term(l.atom.c_str()));
            if (a == init.symbolic_atoms().end()) { return std::optional<Clingo::literal_t>{}; } // false
            auto x = init.solver_literal(a->literal());
            return std::optional<Clingo::literal_t>{l.neg ? -x : x};
        };
        for (auto const &n : nogoods) {
            std::vector<Clingo::literal_t> r;
            bool never = false;
            for (auto const &l : n) {
                auto x = lit(l);
                if (!x) { never = never || !l.neg; }
                else { r.push_back(*x); }
            }
            if (never) { continue; }
            for (auto x : r) { init.add_watch(x); }
            lits_.push_back(std::move(r));
        }
        for (auto a : init.symbolic_atoms()) { free_.push_back(init.solver_literal(a.literal())); }
        for (auto a : init.theory_atoms()) { free_.push_back(init.solver_literal(a.literal())); }
    }
    void propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan) override { add(ctl, eager, unit); }
    void check(Clingo::PropagateControl &ctl) override { add(ctl, ctl.assignment().is_total() ? 100 : eager, unit); }
    Clingo::literal_t decide(Clingo::id_t, Clingo::Assignment const &ass, Clingo::literal_t) override {
        if (free_.empty() || !chance(decisions)) { return 0; }
        for (int i = 0; i < 4; ++i) {
            auto l = free_[rand() % free_.size()];
            if (ass.truth_value(l) == Clingo::TruthValue::Free) {
                ++decided;
                return rand() % 2 ? l : -l;
            }
        }
        return 0;
    }

  private:
    uint32_t rand() { state = state * 1664525 + 1013904223; return state >> 8; }
    bool chance(uint32_t p) { return rand() % 100 < p; }
    void add(Clingo::PropagateControl &ctl, uint32_t violated, uint32_t near) {
        auto ass = ctl.assignment();
        for (auto const &n : lits_) {
            size_t t = 0, f = 0;
            for (auto l : n) {
                t += ass.is_true(l);
                f += ass.is_false(l);
            }
            bool bad = t == n.size(), almost = t + 1 == n.size() && f == 0;
            if (!(bad && chance(violated)) && !(almost && chance(near))) { continue; }
            std::vector<Clingo::literal_t> c;
            for (auto l : n) { c.push_back(-l); }
            ++clauses;
            if (adding) { adding(true); }
            bool ok = ctl.add_clause(Clingo::LiteralSpan{c.data(), c.size()}, type);
            if (adding) { adding(false); }
            if (!ok) { return; }
            if (chance(nested) && !ctl.propagate()) { return; }
        }
    }
    std::vector<std::vector<Clingo::literal_t>> lits_;
    std::vector<Clingo::literal_t> free_;
};

} // namespace shared
