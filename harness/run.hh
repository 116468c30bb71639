// Running programs: the system under test through its C interface, and plain
// clingo for the part without theory atoms.
#pragma once
#include "prog.hh"
#include <clingo-lpx.h>
#include <clingo.hh>

namespace run {

using prog::Atoms;
using ref::QK;

struct Options {
    bool strict = false;
    std::string objective = "";  // "", "local", "global", "global,1/2", "global,e"
    std::string select = "", store = "", bounds = "", conflicts = ""; // "" = leave default
    std::vector<std::string> clasp;
    std::string str() const;
};

struct Model {
    Atoms atoms;
    std::map<std::string, QK> values;
    std::map<std::string, std::string> raw;
    std::optional<std::pair<QK, bool>> objective;
    std::string raw_objective;
    unsigned thread = 0;
    std::string id() const;
};

struct Stats { double pivots = -1, bounds = -1; };

struct Result {
    bool error = false;
    std::string msg;
    bool sat = false, unsat = false, exhausted = false, truncated = false;
    bool stopped = false; // on request, see Session::stop
    std::vector<Model> models;
    std::optional<std::vector<std::pair<std::string, bool>>> core; // of the assumptions, if unsatisfiable
    Stats step, accu;
    std::string str() const;
};

class Theory {
  public:
    Theory() { if (!clingolpx_create(&t_)) { throw std::runtime_error("create"); } }
    ~Theory() { if (t_) { clingolpx_destroy(t_); } }
    Theory(Theory const &) = delete;
    clingolpx_theory_t *get() { return t_; }
  private:
    clingolpx_theory_t *t_ = nullptr;
};

// throws std::runtime_error if a configuration call fails
void configure(clingolpx_theory_t *t, Options const &o);

// Clasp's equivalence preprocessing may replace the literal of a conjunctive
// element condition by false (clasp 3.3, e.g. `:- not a. &sum { x : a, b } = 1.`;
// gone with --eq=0).  Cases in which clingo hands out such a literal are not
// judged: what the theory sees there is not the program that was written.
class ConditionMonitor : public Clingo::Propagator {
  public:
    bool suspicious = false;
    std::function<void(Clingo::PropagateInit &)> callback;
    // With several threads, clasp (3.4) may report a model that it integrated
    // further information into after storing it: clasp::ParallelSolve checks a
    // stored model once more, and if this check adds a clause that turns the
    // assignment into another total one, then the old model is still the one
    // that is reported.  While set, assignments are recorded so that such
    // stale models can be told apart.
    bool threads = false;
    bool stale(Clingo::Model const &m) const;
    void init(Clingo::PropagateInit &init) override;
    void check(Clingo::PropagateControl &ctl) override;

  private:
    std::vector<std::pair<Clingo::Symbol, Clingo::literal_t>> atoms_;
    std::vector<std::vector<char>> truth_; // per thread
};

class Session : public Clingo::SolveEventHandler {
  public:
    Session(Options const &o, size_t cap = 100000, std::function<void(Clingo::Control &)> const &before = nullptr);
    Clingo::Control &ctl() { return *ctl_; }
    clingolpx_theory_t *theory() { return th_->get(); }
    // called with each initialisation, before that of the theory
    void on_init(std::function<void(Clingo::PropagateInit &)> f) { monitor_.callback = std::move(f); }
    void add(std::string const &part, std::string const &text);
    void ground(std::string const &part);
    Result solve(std::vector<std::pair<std::string, bool>> const &assumptions = {});
    std::function<void(Clingo::Model &, Model const &)> hook; // called for every model after extension
    // how the next solve calls are driven: models are looked at in the callback
    // or in the caller's loop; solving runs in the caller's or another thread
    enum class Drive { Callback, Yield, YieldAsync, Async } drive = Drive::Callback;
    bool late = false;    // in the caller's loop, also extend the model there
    bool early = false; // read the values also before the model is passed to the theory
    size_t stop = 0;      // end the search after that many models (0: never)
    int interrupt_us = -1; // interrupt an asynchronous search after that time (-1: never)
    bool on_model(Clingo::Model &m) override;
    bool extend(Clingo::Model &m);
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override;

  private:
    std::unique_ptr<Theory> th_; // must outlive the control
    ConditionMonitor monitor_;
    std::unique_ptr<Clingo::Control> ctl_;
    Options o_;
    size_t cap_;
    Result *cur_ = nullptr;
    std::string last_error_;
};

// one-shot: all errors end up in Result::error
Result lpx(std::string const &text, Options const &o, size_t cap = 100000);
// with another propagator that is registered before or after the theory
Result lpx(std::string const &text, Options const &o, size_t cap, Clingo::Heuristic &other, bool before);
// stable models of a program without theory atoms
std::vector<Atoms> stable_models(std::string const &text, size_t cap = 4096);

// random solver options
Options gen_options(pbt::Src &s, bool strict, bool vary);
void gen_clasp(pbt::Src &s, Options &o);

// ---- oracles shared by several properties

struct Expected {
    struct M { Atoms atoms; std::vector<ref::Row> rows; bool feasible; };
    std::vector<M> models;
    size_t feasible = 0;
    M const *find(Atoms const &a) const;
};
// feasible stable models by the reference; throws Discard if there are too many
Expected expected(prog::Prog const &p, size_t cap = 600);
Expected expected(prog::Prog const &p, std::vector<Atoms> const &models, int upto);

// every reported value satisfies the active constraints (C01)
void check_sound(prog::Prog const &p, Model const &m, std::vector<ref::Row> const &rows, bool strict);
// reported objective is the optimum of this model's constraint system (C03)
void check_objective(prog::Prog const &p, Model const &m, std::vector<ref::Row> const &rows, int upto = 1 << 30);
// reported models are exactly the feasible ones (C02)
void check_answers(Expected const &e, Result const &r);

std::string show(prog::Prog const &p, Options const &o);

} // namespace run
