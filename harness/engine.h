// Choice-sequence property-testing engine: generation, execution in forked
// workers, crash recovery, shrinking, replay, evidence.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>

struct Fail { std::string msg; };
struct HarnessError { std::string msg; };

[[noreturn]] void failf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void harnessf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define REQUIRE(c, ...) do { if(!(c)) failf(__VA_ARGS__); } while(0)

uint64_t mix64(uint64_t x);
uint64_t hashBytes(const void *p, size_t n, uint64_t h = 0x9e3779b97f4a7c15ull);
std::string hexs(const void *p, size_t n, size_t limit = 200);
inline std::string hexs(const std::string &s, size_t limit = 200) { return hexs(s.data(), s.size(), limit); }

struct Rng { uint64_t s; uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); } };

// Source of choices. In random mode choices come from the RNG and are recorded;
// in replay mode they come from the recorded bytes (then zeroes). Choice 0 is
// always the simplest alternative.
struct Src
{
    const uint8_t *in = nullptr; size_t n = 0, pos = 0;   // replay
    bool random = false; Rng rng{0};
    uint8_t *rec = nullptr; size_t recLen = 0, recCap = 0; size_t *recLenOut = nullptr;

    uint8_t byte();
    uint64_t raw(int bytes);
    uint64_t below(uint64_t n);                 // 0..n-1
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // false is simplest
    uint32_t u32() { return (uint32_t)raw(4); }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    bool exhausted() const { return !random && pos >= n; }
};

struct Ctx
{
    // per-case outcome
    bool nontrivial = false;
    uint64_t hash = 0;
    std::string desc;
    std::map<std::string, uint64_t> *labels = nullptr;
    uint64_t subEvals = 0;     // executions of the code under test in this case, if more than one
    bool thorough = false;
    bool fuzzing = false;
    bool again = false;        // a case that failed before is tried again
    int worker = 0;
    mutable int giant = 0;     // the first hierarchy of the case is this giant one (enumerated cases)
    std::string scratch;       // scratch directory of this worker

    void label(const std::string &l) const { if(labels) (*labels)[l]++; }
    void count(const std::string &l, uint64_t k) { if(labels) (*labels)[l] += k; }
    void nontriv(uint64_t h) { nontrivial = true; hash = h; }
};

struct Prop
{
    const char *id;
    const char *level;             // exploration / fault_enumeration
    const char *rule;
    std::function<void(Src &, Ctx &)> fn;
    uint64_t quick, thorough;      // number of random cases
    uint64_t fuzzRuns;             // coverage guided executions (per process) in the thorough tier
    // enumerated cases: choice strings executed in addition to the random ones
    std::function<std::vector<std::vector<uint8_t>>(bool thorough)> fixed;
    std::vector<std::string> assumptions;
    std::function<void(std::map<std::string, std::string> &)> extra = nullptr; // unused
    int cpuLimit = 20;             // CPU seconds per case
    bool schedules = false;        // whether a failure shows depends on the scheduler: tried several times
    unsigned giants = 0;           // set of giant hierarchies (see genGiant) that are tried in addition
};

std::vector<Prop> &props();
constexpr unsigned GIANTS = 15, GIANT_DATA = 0x1f, GIANT_WIDE = 0x3e0, GIANT_DEEP = 0xc00, GIANT_ODD = 0x7000;
struct RegProp { RegProp(Prop p, unsigned giants = 0, bool schedules = false) { p.giants = giants; p.schedules = schedules; props().push_back(std::move(p)); } };
