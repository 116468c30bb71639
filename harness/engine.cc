#include "engine.hh"
#if __has_include(<valgrind/valgrind.h>)
#include <valgrind/valgrind.h>
#else
#define VALGRIND_COUNT_ERRORS 0U
#endif
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

// present in the ThreadSanitizer variant
__attribute__((weak)) unsigned pbt_races();
__attribute__((weak)) std::string pbt_last_race();

namespace pbt {

std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }
Env &env() { static Env e; return e; }

namespace {

using Clock = std::chrono::steady_clock;
double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

enum Outcome { Pass = 0, Failed = 1, Crashed = 2, Hung = 3, Oracle = 4 };
char const *name(Outcome o) {
    switch (o) { case Pass: return "pass"; case Failed: return "fail"; case Crashed: return "crash"; case Hung: return "hang"; case Oracle: return "oracle"; }
    return "?";
}
constexpr int EXIT_FAIL = 71, EXIT_HANG = 77, EXIT_ORACLE = 78;

template <class T> T *shared(size_t n = 1) {
    void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return static_cast<T *>(p);
}

struct Shm {
    volatile uint64_t evaluations, executions, discarded, oracle, next_flush;
    volatile uint64_t done_index; // next index to run
    volatile uint64_t case_start_ms;
};

void on_prof(int) { _exit(EXIT_HANG); }

void arm(int secs) {
    itimerval it{};
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &it, nullptr);
}

uint64_t now_ms() { return std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now().time_since_epoch()).count(); }

void child_setup() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPROF, on_prof);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
#if defined(__has_feature)
#if !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer)
#define PBT_LIMIT_AS
#endif
#else
#define PBT_LIMIT_AS
#endif
#endif
#ifdef PBT_LIMIT_AS
    rlimit as{6ULL << 30, 6ULL << 30};
    setrlimit(RLIMIT_AS, &as);
#endif
}

void set_msg(Record *rec, std::string const &m) {
    size_t n = std::min(m.size(), sizeof(rec->msg));
    std::memcpy(rec->msg, m.data(), n);
    rec->msg_len = static_cast<uint32_t>(n);
}
std::string get_msg(Record *rec) { return {rec->msg, rec->msg_len}; }
std::string get_desc(Record *rec) { return {rec->desc, rec->desc_len}; }

Outcome run_case(Prop const &p, Src &src, Record *rec, Ctx &ctx) {
    rec->msg_len = 0;
    rec->desc_len = 0;
    auto errors = VALGRIND_COUNT_ERRORS;
    auto races = pbt_races ? pbt_races() : 0;
    try {
        p.fn(ctx);
        if (pbt_races && pbt_races() > races) { throw Fail("ThreadSanitizer reports a data race in clingo-lpx: " + pbt_last_race()); }
        if (VALGRIND_COUNT_ERRORS > errors) { throw Fail("valgrind's memcheck reports an invalid access or a use of an uninitialised value"); }
        return Pass;
    } catch (Fail const &e) {
        set_msg(rec, e.what());
        return Failed;
    } catch (Discard const &) {
        ctx.label("discarded");
        ctx.nontrivial = false;
        return Pass;
    } catch (OracleBug const &e) {
        set_msg(rec, std::string("oracle: ") + e.what());
        return Oracle;
    } catch (std::bad_alloc const &) {
        ctx.label("out-of-memory");
        ctx.nontrivial = false;
        return Pass;
    } catch (std::exception const &e) {
        set_msg(rec, std::string("unexpected exception: ") + e.what());
        return Failed;
    }
}

struct Stats {
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
};

// text file: one record per line
void flush_stats(std::string const &path, Stats &s) {
    std::ofstream f(path, std::ios::app);
    for (auto const &[k, v] : s.labels) { f << "L " << v << " " << k << "\n"; }
    for (auto h : s.distinct) { f << "H " << h << "\n"; }
    for (auto const &x : s.samples) {
        std::string e;
        for (char c : x) { if (c == '\n') { e += "\\n"; } else if (c == '\\') { e += "\\\\"; } else { e += c; } }
        f << "S " << e << "\n";
    }
    s.labels.clear();
    s.distinct.clear();
    s.samples.clear();
}

std::string json_str(std::string const &s) {
    std::ostringstream o;
    o << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o << '\\' << c; }
        else if (c == '\n') { o << "\\n"; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o << b; }
        else { o << c; }
    }
    o << '"';
    return o.str();
}

struct Driver {
    Prop const &p;
    std::string tier;
    uint64_t seed;
    uint64_t ncases;
    int workers;
    double wall_cap;
    Record *recs{};
    Shm *shm{};
    Record *probe{};
    double shrink_s{1000};

    uint64_t case_seed(uint64_t i) const { return mix(mix(seed) ^ hash_str(p.id) ^ mix(i * 2 + 1)); }

    void worker(int w, uint64_t first) {
        child_setup();
        Record *rec = recs + w;
        Shm &s = shm[w];
        Stats st;
        std::string path = env().scratch + "/stats." + std::to_string(w);
        auto nsample = 0;
        for (uint64_t i = first; i < ncases; i += workers) {
            rec->index = i;
            s.done_index = i;
            Src src{case_seed(i), rec};
            Ctx ctx{src, rec};
            ctx.thorough = tier == "thorough";
            arm(p.cpu_limit);
            s.case_start_ms = now_ms();
            auto o = run_case(p, src, rec, ctx);
            arm(0);
            s.evaluations = s.evaluations + 1;
            s.executions = s.executions + ctx.counted;
            for (auto const &l : ctx.labels) { ++st.labels[l]; }
            if (ctx.nontrivial) {
                ++st.labels["nontrivial"];
                st.distinct.insert(hash_str(ctx.desc));
                if (nsample < 3 && i < static_cast<uint64_t>(workers) * 60) { ++nsample; st.samples.push_back(ctx.desc.substr(0, 4000)); }
            }
            if (o == Failed) { flush_stats(path, st); _exit(EXIT_FAIL); }
            if (o == Oracle) { flush_stats(path, st); _exit(EXIT_ORACLE); }
            if (st.distinct.size() >= 512 || i + workers >= ncases) { flush_stats(path, st); }
            s.done_index = i + workers;
        }
        flush_stats(path, st);
        _exit(0);
    }

    // run one choice sequence in a fresh process
    Outcome probe_case(std::vector<uint32_t> const &choices, std::string &msg, std::string &desc, std::vector<uint32_t> &used, int cpu = 0) {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            child_setup();
            Src src{choices, probe};
            Ctx ctx{src, probe};
            ctx.thorough = tier == "thorough";
            ctx.minimising = true;
            arm(cpu > 0 ? cpu : p.cpu_limit);
            auto o = run_case(p, src, probe, ctx);
            _exit(o == Failed ? EXIT_FAIL : o == Oracle ? EXIT_ORACLE : 0);
        }
        auto o = wait_one(pid, cpu > 0 ? cpu : p.cpu_limit);
        msg = get_msg(probe);
        desc = get_desc(probe);
        used.assign(probe->data, probe->data + probe->n);
        return o;
    }

    static Outcome classify(int status) {
        if (WIFEXITED(status)) {
            switch (WEXITSTATUS(status)) {
                case 0: return Pass;
                case EXIT_FAIL: return Failed;
                case EXIT_HANG: return Hung;
                case EXIT_ORACLE: return Oracle;
                default: return Crashed;
            }
        }
        return Crashed;
    }
    // a process that sleeps without using CPU time (deadlock) also counts as hung
    Outcome wait_one(pid_t pid, int cpu) {
        auto t = Clock::now();
        useconds_t nap = 200;
        while (true) {
            int st = 0;
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) { return classify(st); }
            if (since(t) > cpu * 5.0 + 60) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                return Hung;
            }
            usleep(nap);
            nap = std::min<useconds_t>(nap * 2, 20000);
        }
    }

    std::vector<uint32_t> shrink(std::vector<uint32_t> cur, Outcome kind, std::string &msg, std::string &desc) {
        auto t = Clock::now();
        double budget = std::min(shrink_s, kind == Hung ? 100.0 : 60.0);
        int cpu = kind == Hung ? std::max(5, p.cpu_limit / 4) : 0;
        int attempts = 0;
        std::set<std::vector<uint32_t>> seen;
        auto attempt = [&](std::vector<uint32_t> const &c) {
            if (since(t) > budget || ++attempts > 6000 || !seen.insert(c).second) { return false; }
            std::string m, d;
            std::vector<uint32_t> used;
            if (probe_case(c, m, d, used, cpu) != kind) { return false; }
            while (!used.empty() && used.back() == 0) { used.pop_back(); }
            if (used.size() > cur.size() || (used.size() == cur.size() && !(used < cur))) { return false; }
            cur = used;
            msg = m;
            desc = d;
            return true;
        };
        bool again = true;
        while (again && since(t) < budget) {
            again = false;
            for (size_t len : {64, 32, 16, 8, 6, 5, 4, 3, 2, 1}) {
                for (size_t i = 0; i + len <= cur.size();) {
                    auto c = cur;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (attempt(c)) { again = true; } else { i += std::max<size_t>(1, len / 2); }
                    if (since(t) > budget) { return cur; }
                }
            }
            for (size_t i = 0; i < cur.size(); ++i) {
                if (cur[i] == 0) { continue; }
                auto c = cur;
                c[i] = 0;
                if (attempt(c)) { again = true; continue; }
                uint32_t lo = 0, hi = i < cur.size() ? cur[i] : 0;
                while (lo + 1 < hi && i < cur.size()) {
                    c = cur;
                    c[i] = lo + (hi - lo) / 2;
                    auto mid = c[i];
                    if (attempt(c)) { again = true; hi = mid; } else { lo = mid; }
                }
                if (since(t) > budget) { return cur; }
            }
        }
        return cur;
    }
};

std::string write_replay(std::string const &dir, Prop const &p, std::vector<uint32_t> const &c, Outcome kind, std::string const &msg,
                         std::string const &desc, std::string const &how) {
    std::ostringstream body;
    body << "property " << p.id << "\nkind " << name(kind) << "\nhow " << how << (getenv("PBT_TAG") != nullptr ? std::string(" ") + getenv("PBT_TAG") : std::string()) << "\nchoices";
    for (auto x : c) { body << " " << x; }
    body << "\n--- message\n" << msg << "\n--- case\n" << desc << "\n";
    mkdir(dir.c_str(), 0755);
    char h[32];
    snprintf(h, sizeof h, "%016llx", static_cast<unsigned long long>(hash_str(body.str())));
    std::string path = dir + "/" + p.id + "-" + h + ".case";
    std::ofstream(path) << body.str();
    return path;
}

std::vector<uint32_t> read_replay(std::string const &path) {
    std::ifstream f(path);
    std::string line;
    std::vector<uint32_t> c;
    while (std::getline(f, line)) {
        if (line.rfind("choices", 0) == 0) {
            std::istringstream is(line.substr(7));
            uint32_t x;
            while (is >> x) { c.push_back(x); }
        }
        if (line.rfind("--- ", 0) == 0) { break; }
    }
    return c;
}

} // namespace

int run_main(int argc, char **argv) {
    double shrink_s = 1000;
    std::string id, tier = "quick", evidence, summary, replays = "replays", replay, known;
    uint64_t seed = 1, cases = 0;
    int workers = 8;
    double cap = 0, prelude = 0;
    bool list = false, show = false;
    std::vector<std::string> bytes;
    std::string info;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") { id = val(); }
        else if (a == "--tier") { tier = val(); }
        else if (a == "--seed") { seed = strtoull(val().c_str(), nullptr, 10); }
        else if (a == "--cases") { cases = strtoull(val().c_str(), nullptr, 10); }
        else if (a == "--workers") { workers = atoi(val().c_str()); }
        else if (a == "--evidence") { evidence = val(); }
        else if (a == "--summary") { summary = val(); }
        else if (a == "--replays") { replays = val(); }
        else if (a == "--shrink") { shrink_s = atof(val().c_str()); }
        else if (a == "--replay") { replay = val(); }
        else if (a == "--bin") { env().bin = val(); }
        else if (a == "--scratch") { env().scratch = val(); }
        else if (a == "--cap") { cap = atof(val().c_str()); }
        else if (a == "--prelude") { prelude = atof(val().c_str()); }
        else if (a == "--known") { known = val(); }
        else if (a == "--list") { list = true; }
        else if (a == "--show") { show = true; }
        else if (a == "--bytes") { bytes.push_back(val()); }
        else if (a == "--info") { info += ",\n  " + json_str(val()); info += ": " + val(); }
    }
    if (list) { for (auto const &p : registry()) { std::cout << p.id << "\n"; } return 0; }
    auto it = std::find_if(registry().begin(), registry().end(), [&](Prop const &p) { return p.id == id; });
    if (it == registry().end()) { std::cerr << "unknown property " << id << "\n"; return 2; }
    Prop const &p = *it;
    auto t0 = Clock::now();
    uint64_t n = cases > 0 ? cases : tier == "thorough" ? p.thorough : p.quick;
    if (cap <= 0) { cap = tier == "thorough" ? 5400 : 240; }
    Driver d{p, tier, seed, n, workers, cap};
    d.recs = shared<Record>(workers);
    d.shm = shared<Shm>(workers);
    d.probe = shared<Record>();
    d.shrink_s = shrink_s;
    std::string msg, desc;
    std::vector<uint32_t> used;
    if (!replay.empty()) {
        if (!std::ifstream(replay)) { std::cerr << "cannot read " << replay << "\n"; return 2; }
        auto c = read_replay(replay);
        auto o = d.probe_case(c, msg, desc, used);
        std::cout << "outcome: " << name(o) << "\n" << msg << "\n--- case\n" << desc << "\n";
        if (o == Failed || o == Crashed || o == Hung) {
            std::cout << "VIOLATION property=" << p.id << " replay=" << replay << "\n";
            return 1;
        }
        return 0;
    }
    if (show) {
        for (uint64_t i = 0; i < n; ++i) {
            Src src{d.case_seed(i), d.probe};
            Ctx ctx{src, d.probe};
            auto o = run_case(p, src, d.probe, ctx);
            std::cout << "=== case " << i << " " << name(o) << " nontrivial=" << ctx.nontrivial << " labels:";
            for (auto const &l : ctx.labels) { std::cout << " " << l; }
            std::cout << "\n" << get_msg(d.probe) << "\n" << ctx.desc << "\n";
        }
        return 0;
    }

    std::vector<pid_t> pids(workers, 0);
    auto spawn = [&](int w, uint64_t first) {
        fflush(nullptr);
        d.shm[w].case_start_ms = now_ms();
        pid_t pid = fork();
        if (pid == 0) { d.worker(w, first); }
        pids[w] = pid;
    };
    for (int w = 0; w < workers; ++w) { spawn(w, w); }

    struct Found { uint64_t index; Outcome kind; std::vector<uint32_t> choices; std::string msg, desc; };
    std::vector<Found> found;
    uint64_t oracle = 0, unreproduced = 0, slow = 0;
    uint64_t best = UINT64_MAX;
    bool capped = false;
    auto tfound = Clock::now();
    int running = workers;
    while (running > 0) {
        int status = 0;
        pid_t pid = waitpid(-1, &status, WNOHANG);
        if (pid > 0) {
            int w = static_cast<int>(std::find(pids.begin(), pids.end(), pid) - pids.begin());
            if (w == workers) { continue; }
            auto o = Driver::classify(status);
            Record *rec = d.recs + w;
            if (o == Pass) { pids[w] = 0; --running; continue; }
            uint64_t i = rec->index;
            if (o == Hung && p.hang_ok) {
                ++slow;
            } else if (o == Oracle) {
                ++oracle;
                std::cerr << "ORACLE-ERROR case " << i << ": " << get_msg(rec) << "\n" << get_desc(rec) << "\n";
            } else {
                std::vector<uint32_t> c(rec->data, rec->data + rec->n);
                found.push_back({i, o, c, get_msg(rec), get_desc(rec)});
                if (best == UINT64_MAX) { tfound = Clock::now(); }
                best = std::min(best, i);
            }
            uint64_t nxt = i + workers;
            if (nxt < n && !capped && found.size() < 24 && nxt < best) { spawn(w, nxt); }
            else { pids[w] = 0; --running; }
            continue;
        }
        bool late = best != UINT64_MAX && since(tfound) > 10;
        if (since(t0) > cap) { capped = true; }
        for (int w = 0; w < workers; ++w) {
            if (pids[w] == 0) { continue; }
            // deadlocked worker: no progress although much wall time passed
            uint64_t start = d.shm[w].case_start_ms; // read before the clock
            bool stuck = start != 0 && now_ms() > start + static_cast<uint64_t>(p.cpu_limit) * 5000 + 60000;
            if (capped || late || (best != UINT64_MAX && d.recs[w].index >= best && d.shm[w].done_index > best)) {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &status, 0);
                pids[w] = 0;
                --running;
            } else if (stuck) {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &status, 0);
                Record *rec = d.recs + w;
                if (!p.hang_ok) {
                    found.push_back({rec->index, Hung, {rec->data, rec->data + rec->n}, "no progress", get_desc(rec)});
                    best = std::min(best, static_cast<uint64_t>(rec->index));
                }
                pids[w] = 0;
                --running;
            }
        }
        usleep(2000);
    }

    // merge statistics
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evaluations = 0, executions = 0;
    for (int w = 0; w < workers; ++w) {
        evaluations += d.shm[w].evaluations;
        executions += d.shm[w].executions;
        std::ifstream f(env().scratch + "/stats." + std::to_string(w));
        std::string line;
        while (std::getline(f, line)) {
            if (line[0] == 'L') {
                std::istringstream is(line.substr(2));
                uint64_t k; std::string l;
                is >> k; is.ignore(1); std::getline(is, l);
                labels[l] += k;
            } else if (line[0] == 'H') {
                distinct.insert(strtoull(line.c_str() + 2, nullptr, 10));
            } else if (line[0] == 'S' && samples.size() < 6) {
                std::string s;
                for (size_t k = 2; k < line.size(); ++k) {
                    if (line[k] == '\\' && k + 1 < line.size()) { ++k; s += line[k] == 'n' ? '\n' : line[k]; } else { s += line[k]; }
                }
                samples.push_back(s);
            }
        }
    }

    if (slow > 0) { labels["time limit"] += slow; }

    // what a coverage-guided fuzzer found
    for (auto const &b : bytes) {
        std::ifstream f(b, std::ios::binary);
        std::string data((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            child_setup();
            Src src{reinterpret_cast<uint8_t const *>(data.data()), data.size(), d.probe};
            Ctx ctx{src, d.probe};
            arm(p.cpu_limit);
            auto o = run_case(p, src, d.probe, ctx);
            _exit(o == Failed ? EXIT_FAIL : o == Oracle ? EXIT_ORACLE : 0);
        }
        auto o = d.wait_one(pid, p.cpu_limit);
        if (o == Failed || o == Crashed || (o == Hung && !p.hang_ok)) {
            found.push_back({UINT64_MAX - 1, o, {d.probe->data, d.probe->data + d.probe->n}, get_msg(d.probe), get_desc(d.probe)});
        }
    }

    // confirm and shrink
    int violations = 0;
    std::string vline;
    std::sort(found.begin(), found.end(), [](Found const &a, Found const &b) { return a.index < b.index; });
    auto tconfirm = Clock::now();
    for (auto &f : found) {
        if (since(tconfirm) > 300) { break; }
        int tries = p.racy ? 40 : f.kind == Hung ? 2 : 3, hits = 0;
        Outcome kind = f.kind;
        for (int k = 0; k < tries && hits < (p.racy ? 1 : tries); ++k) {
            auto o = d.probe_case(f.choices, msg, desc, used);
            if (o == Failed || o == Crashed || (o == Hung && !p.hang_ok)) { ++hits; kind = o; }
            else if (!p.racy) { break; }
            if (since(tconfirm) > 400) { break; }
        }
        bool ok = p.racy ? (hits >= 1 || f.kind == Failed) : hits >= tries;
        std::string how = "choices";
        if (!ok && !p.racy && (f.kind == Crashed || f.kind == Failed)) {
            // it may need what earlier cases of this worker did: rerun them
            int again = 0;
            for (int k = 0; k < 2; ++k) {
                uint64_t lo = f.index % workers;
                uint64_t from = f.index > 400ULL * workers ? f.index - 400ULL * workers : lo;
                fflush(nullptr);
                pid_t pid = fork();
                if (pid == 0) {
                    child_setup();
                    for (uint64_t i = from; i <= f.index; i += workers) {
                        Src src{d.case_seed(i), d.probe};
                        Ctx ctx{src, d.probe};
                        arm(p.cpu_limit);
                        if (run_case(p, src, d.probe, ctx) == Failed) { _exit(EXIT_FAIL); }
                    }
                    _exit(0);
                }
                if (d.wait_one(pid, 120) == f.kind) { ++again; }
            }
            if (again == 2) { ok = true; how = "sequence of cases up to index " + std::to_string(f.index); }
        }
        if (!ok) {
            ++unreproduced;
            std::cerr << "UNREPRODUCED " << name(f.kind) << " case " << f.index << ": " << f.msg << "\n" << f.desc << "\n";
            continue;
        }
        auto c = f.choices;
        msg = f.msg; desc = f.desc;
        if (how == "choices" && !(p.racy && hits == 0)) {
            d.probe_case(c, msg, desc, used);
            std::string m2 = msg, d2 = desc;
            c = d.shrink(c, kind, m2, d2);
            msg = m2; desc = d2;
        }
        if (msg.empty()) { msg = std::string("process ") + name(kind); }
        auto path = write_replay(replays, p, c, kind, msg, desc, how);
        std::cout << "property " << p.id << " broken (" << name(kind) << "): " << msg << "\n--- case\n" << desc << "\n---\n";
        vline = "VIOLATION property=" + p.id + " replay=" + path;
        violations = 1;
        break;
    }

    if (!summary.empty()) {
        std::ofstream(summary) << "{\"cases\": " << evaluations << ", \"distinct_nontrivial\": " << distinct.size() << ", \"seconds\": " << since(t0) << "}";
    }
    if (!evidence.empty()) {
        std::ofstream e(evidence);
        e << "{\n \"property\": " << json_str(p.id) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evaluations
          << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"executions_of_code_under_test\": " << executions
          << ",\n  \"rule\": " << json_str(p.rule) << ",\n  \"planned_cases\": " << n << ",\n  \"stopped_by_wall_clock\": "
          << (capped ? "true" : "false") << info << ",\n  \"oracle_errors\": " << oracle << ",\n  \"unreproduced\": " << unreproduced << ",\n  \"classes\": {";
        bool first = true;
        for (auto const &[k, v] : labels) { e << (first ? "" : ",") << "\n   " << json_str(k) << ": " << v; first = false; }
        e << "\n  },\n  \"samples\": [";
        first = true;
        if (samples.empty()) { for (auto const &f : found) { samples.push_back(f.desc); } }
        for (auto const &s : samples) { e << (first ? "" : ",") << "\n   " << json_str(s); first = false; }
        e << "\n  ]\n },\n \"violations\": " << violations << ",\n \"wall_s\": " << since(t0) + prelude << "\n}\n";
    }
    std::cout << p.id << ": " << evaluations << " cases, " << distinct.size() << " distinct non-trivial, " << executions
              << " executions, " << since(t0) << " s" << (capped ? " (stopped by wall clock)" : "") << "\n";
    if (violations) { std::cout << vline << std::endl; return 1; }
    return 0;
}

int fuzz_one(uint8_t const *data, size_t size) {
    static Record *rec = shared<Record>();
    static Prop const *p = [] {
        auto const *id = getenv("PBT_PROP");
        auto const *dir = getenv("PBT_SCRATCH");
        env().scratch = dir ? dir : "/tmp";
        for (auto const &x : registry()) { if (id && x.id == id) { return &x; } }
        std::cerr << "PBT_PROP?\n";
        _exit(2);
    }();
    Src src{data, size, rec};
    Ctx ctx{src, rec};
    auto o = run_case(*p, src, rec, ctx);
    if (o == Failed) {
        std::cerr << "FAILED: " << get_msg(rec) << "\n" << get_desc(rec) << "\n";
        abort();
    }
    return 0;
}

} // namespace pbt
