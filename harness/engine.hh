// Property-based testing engine: choice-sequence generation, parallel case
// execution in forked workers, crash/hang attribution, shrinking and replay.
//
// A case is a pure function of a sequence of small integers ("choices").  In
// generation mode the choices come from a PRNG seeded with (VERIF_SEED,
// property, case index); they are recorded in shared memory while they are
// drawn, so the case is known even if the process dies.  Shrinking edits the
// sequence; a replay file holds the sequence plus a human readable rendering.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard : std::runtime_error { Discard() : std::runtime_error("discard") {} };
// The oracle itself is inconsistent: never reported as a violation.
struct OracleBug : std::runtime_error { using std::runtime_error::runtime_error; };

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(std::string const &s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ULL; }
    return mix(h);
}

constexpr size_t MAX_CHOICES = 1 << 16;

struct Record { // lives in shared memory
    volatile uint64_t index;
    volatile uint64_t n;
    uint32_t data[MAX_CHOICES];
    volatile uint32_t msg_len;
    char msg[1 << 16];
    volatile uint32_t desc_len;
    char desc[1 << 17];
};

class Src {
  public:
    Src(uint64_t seed, Record *rec) : state_{seed}, rec_{rec}, replay_{nullptr} { if (rec_) { rec_->n = 0; } }
    Src(std::vector<uint32_t> const &choices, Record *rec) : rec_{rec}, replay_{&choices} { if (rec_) { rec_->n = 0; } }
    Src(uint8_t const *data, size_t size, Record *rec) : rec_{rec}, bytes_{data}, size_{size}, fuzz_{true} { if (rec_) { rec_->n = 0; } }

    // uniform in [0,n); 0 is the simplest value
    uint32_t u(uint32_t n) {
        if (n <= 1) { return 0; }
        return draw(n, [&] { return static_cast<uint32_t>((static_cast<unsigned __int128>(next()) * n) >> 64); });
    }
    int range(int a, int b) { return a + static_cast<int>(u(static_cast<uint32_t>(b - a + 1))); }
    bool chance(uint32_t num, uint32_t den = 100) {
        return draw(2, [&] { return static_cast<uint32_t>((next() >> 11) % den < num); }) != 0;
    }
    size_t weighted(std::vector<uint32_t> const &w) {
        uint64_t sum = 0;
        for (auto x : w) { sum += x; }
        uint32_t i = draw(static_cast<uint32_t>(w.size()), [&] {
            uint64_t r = (next() >> 11) % sum;
            for (uint32_t i = 0; i < w.size(); ++i) {
                if (r < w[i]) { return i; }
                r -= w[i];
            }
            return 0U;
        });
        // a replayed choice may name something that is impossible here
        for (uint32_t k = 0; k < w.size() && w[i] == 0; ++k) { i = (i + 1) % static_cast<uint32_t>(w.size()); }
        return i;
    }
    // number of elements between lo and hi, biased to fewer; drawn element by
    // element so that deleting a chunk of choices removes an element
    bool more(uint32_t cur, uint32_t lo, uint32_t hi, uint32_t avg) {
        if (cur < lo) { return true; }
        if (cur >= hi) { return false; }
        return chance(avg * 100 / (avg + 1), 100);
    }
    template <class T> T const &pick(std::vector<T> const &v) { return v[u(static_cast<uint32_t>(v.size()))]; }
    size_t used() const { return n_; }

  private:
    uint64_t next() { return state_ = mix(state_ + n_ * 0x9e3779b97f4a7c15ULL + 1); }
    template <class G> uint32_t draw(uint32_t n, G gen) {
        if (n_ >= MAX_CHOICES) { throw Discard{}; }
        uint32_t v = 0;
        if (fuzz_) {
            if (pos_ < size_) { v = bytes_[pos_++]; }
            if (n > 256 && pos_ < size_) { v = v * 256 + bytes_[pos_++]; }
            if (n > 65536 && pos_ < size_) { v = v * 256 + bytes_[pos_++]; }
            v %= n;
        } else if (replay_ != nullptr) {
            v = n_ < replay_->size() ? (*replay_)[n_] % n : 0;
        } else {
            v = gen();
        }
        if (rec_) {
            rec_->data[n_] = v;
            rec_->n = n_ + 1;
        }
        ++n_;
        return v;
    }
    uint64_t state_ = 0;
    Record *rec_ = nullptr;
    std::vector<uint32_t> const *replay_ = nullptr;
    uint8_t const *bytes_ = nullptr;
    size_t size_ = 0, pos_ = 0;
    bool fuzz_ = false;
    size_t n_ = 0;
};

struct Ctx {
    Ctx(Src &s, Record *r) : src{s}, rec{r} {}
    Src &src;
    Record *rec;
    std::string desc;
    std::set<std::string> labels;
    bool nontrivial = false;
    uint64_t counted = 0; // executions of the code under test inside this case
    bool thorough = false;
    bool minimising = false;
    // publish the rendering (also visible if the process dies afterwards)
    void describe(std::string const &d) {
        desc = d;
        if (rec) {
            size_t n = std::min(d.size(), sizeof(rec->desc));
            std::memcpy(rec->desc, d.data(), n);
            rec->desc_len = static_cast<uint32_t>(n);
        }
    }
    void label(std::string const &l) { labels.insert(l); }
    void ran(uint64_t n = 1) { counted += n; }
};

[[noreturn]] inline void fail(std::string const &msg) { throw Fail(msg); }
#define CHECK(c, m)                                                                                                    \
    do {                                                                                                               \
        if (!(c)) {                                                                                                    \
            std::ostringstream oss_;                                                                                   \
            oss_ << m;                                                                                                 \
            pbt::fail(oss_.str());                                                                                     \
        }                                                                                                              \
    } while (false)

struct Prop {
    std::string id;
    std::function<void(Ctx &)> fn;
    std::string rule;
    uint64_t quick;
    uint64_t thorough;
    int cpu_limit = 60;    // CPU seconds for one case before it counts as not ending
    bool racy = false;     // outcome may depend on thread timing
    bool hang_ok = false;  // a case may need more time than it gets
};

std::vector<Prop> &registry();
struct Register { Register(Prop p) { registry().push_back(std::move(p)); } };

// directories passed by the driver
struct Env {
    std::string bin;      // directory with the built artefacts
    std::string scratch;  // private scratch directory of this run
};
Env &env();

int run_main(int argc, char **argv);
// one input of a coverage-guided fuzzer: its bytes are the choices
int fuzz_one(uint8_t const *data, size_t size);

} // namespace pbt
