// Linked into the ThreadSanitizer variant only: counts data races between two
// accesses that both come from the sources of clingo-lpx.  Clingo and FLINT are
// not instrumented, so synchronisation inside clasp that does not go through
// intercepted functions is invisible; races whose accesses are not directly in
// clingo-lpx's code are not judged.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>

extern "C" {
int __tsan_get_report_data(void *report, const char **description, int *count, int *stack_count, int *mop_count, int *loc_count, int *mutex_count, int *thread_count,
                           int *unique_tid_count, void **sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void *report, unsigned long idx, int *tid, void **addr, int *size, int *write, int *atomic, void **trace, unsigned long trace_size);
void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out_buf, size_t out_buf_size);
}

namespace {

constexpr unsigned long Frames = 48;
constexpr unsigned Max = 64;
struct Report { void *trace[2][Frames]; };
Report reports[Max]; // written while the runtime holds its report lock
volatile unsigned n_reports = 0;
unsigned judged = 0, races = 0;
std::string last;

// first frame that is neither of the runtime nor of the standard library
std::string where(void *const *trace) {
    for (unsigned long i = 0; i < Frames && trace[i] != nullptr; ++i) {
        // all functions inlined at that position, separated by null characters
        char buf[4096] = {};
        __sanitizer_symbolize_pc(trace[i], "%f|%S|%m", buf, sizeof(buf) - 2);
        for (char const *p = buf; *p != '\0'; p += std::strlen(p) + 1) {
            std::string f = p;
            auto k = f.rfind("libclingo-lpx/");
            if (k != std::string::npos) { return f.substr(0, f.find('|')) + " (" + f.substr(k, f.find('|', k) - k) + ")"; }
            bool foreign = f.find(".so") != std::string::npos && f.find("libstdc++") == std::string::npos && f.find("libc.so") == std::string::npos;
            bool std = f.find("/usr/") != std::string::npos || f.find("operator new") == 0 || f.find("operator delete") == 0 || f.find("|<null>") != std::string::npos || f.find("||") != std::string::npos;
            if (foreign || !std) { return ""; }
        }
    }
    return "";
}

} // namespace

// called between cases, when no other threads are running
unsigned pbt_races() {
    for (; judged < n_reports; ++judged) {
        auto a = where(reports[judged].trace[0]), b = where(reports[judged].trace[1]);
        if (getenv("PBT_TSAN_DEBUG")) { fprintf(stderr, "race: %s / %s\n", a.c_str(), b.c_str()); }
        if (a.empty() || b.empty()) { continue; }
        last = a + " and " + b;
        ++races;
    }
    return races;
}
std::string pbt_last_race() { return last; }

extern "C" __attribute__((no_sanitize("thread"))) void __tsan_on_report(void *report) {
    char const *what = nullptr;
    int count, stacks, mops = 0, locs, mutexes, threads, tids;
    void *trace[1];
    __tsan_get_report_data(report, &what, &count, &stacks, &mops, &locs, &mutexes, &threads, &tids, trace, 1);
    if (mops < 2 || n_reports == Max) { return; }
    for (unsigned long i = 0; i < 2; ++i) {
        int tid, size, write, atomic;
        void *addr;
        __tsan_get_report_mop(report, i, &tid, &addr, &size, &write, &atomic, reports[n_reports].trace[i], Frames);
    }
    n_reports = n_reports + 1;
}
