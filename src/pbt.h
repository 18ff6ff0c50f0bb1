// Property-based testing engine: choice-tape generation, forked workers,
// crash attribution, shrinking, replay, evidence.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace pbt {

// ---- generator over a recorded tape of choices --------------------------
struct Gen {
    const uint32_t *in = nullptr;   // tape to replay (nullptr: random)
    size_t inLen = 0, inPos = 0;
    uint32_t *out = nullptr;        // recording
    size_t outCap = 0;
    uint32_t *outLen = nullptr;
    uint64_t state = 0;
    uint64_t next64();
    // Uniform in [0,n). 0 should always be the simplest choice.
    uint32_t below(uint32_t n);
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint32_t)(hi - lo + 1)); }
    bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
    // Weighted choice, index of weights.
    size_t weighted(std::initializer_list<uint32_t> w);
    size_t weighted(const std::vector<uint32_t> &w);
    uint32_t bits();                // 32 random bits
    int32_t integer();              // biased to small and boundary values
    float flt();                    // biased, finite
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
};

struct DiscardEx {};

struct Case {
    Gen &g;
    uint64_t index;
    int directed = -1;              // >= 0: the n-th directed case
    int size = 10;                  // 1..100
    bool replaying = false;
    Case(Gen &g_) : g(g_) {}
    // Outcome.
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void failStr(const std::string &s);
    [[noreturn]] void discard(const char *why);
    void check(bool ok, const char *what) { if(!ok) failStr(what); }
    // Description of the case (kept for crash reports and samples).
    void describe(const std::string &s);
    void appendDescription(const std::string &s);
    // Classification.
    void label(const char *name, uint64_t n = 1);
    void nontrivial(uint64_t hash);
    void evaluations(uint64_t extra);   // more than one execution in this case
};

uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }
inline uint64_t hashMix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); return a * 0xff51afd7ed558ccdull; }

struct Property {
    const char *id;
    const char *level = "exploration";
    const char *rule = "";          // how cases are made, what is non-trivial
    std::vector<std::string> assumptions;
    uint64_t quickCases = 1000, thoroughCases = 10000;
    int directedCases = 0;
    int quickWall = 150, thoroughWall = 1500; // safety caps, seconds
    int caseCpu = 20;               // seconds of CPU per case
    int minSize = 1, maxSize = 100;
    std::function<void(Case &)> run;
};

// Runs the property (argv: --replay FILE, --cases N, --seed N, --only IDX).
int main(const Property &p, int argc, char **argv);

// Runs fn in a forked child; returns true if it exited normally with 0.
bool inChild(const std::function<void()> &fn, int cpuSeconds, int *statusOut = nullptr);

} // namespace pbt
