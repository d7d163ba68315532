// Deterministic simulation core: PRNG, scenario (schedule + fault trace),
// per-run context, check registry.  Every run is a pure function of one
// scenario file; every scenario is a pure function of one seed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>

namespace sim {

// --- PRNG (xoshiro256**, seeded by splitmix64) ------------------------------

static inline uint64_t splitmix(uint64_t &s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t s = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull + (a << 6));
    return splitmix(s);
}

struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1) { for (auto &v : s) v = splitmix(seed); }
    uint64_t u64()
    {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    // uniform in [0, n)
    int64_t below(int64_t n) { return n <= 1 ? 0 : (int64_t)(u64() % (uint64_t)n); }
    // uniform in [a, b]
    int64_t range(int64_t a, int64_t b) { return b <= a ? a : a + below(b - a + 1); }
    double unit() { return (u64() >> 11) * 0x1p-53; }
    bool chance(double p) { return unit() < p; }
    double gauss()
    {
        double v = 0;
        for (int i = 0; i < 6; i++) v += unit();
        return (v - 3) * 1.414213562;
    }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    int pickw(std::initializer_list<double> w)
    {
        double t = 0; for (double x : w) t += x;
        double r = unit() * t; int i = 0;
        for (double x : w) { if (r < x) return i; r -= x; i++; }
        return (int)w.size() - 1;
    }
};

static inline uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
    return h;
}

// --- Scenario ---------------------------------------------------------------

struct Op {
    std::string k;
    std::vector<int64_t> a;
    int64_t arg(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; }
};

struct Scn {
    std::string check;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    int64_t get(const std::string &k, int64_t d = 0) const
    { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    void add(const std::string &k, std::vector<int64_t> a = {}) { ops.push_back({ k, a }); }
    std::string text() const;
    bool parse(const std::string &txt, std::map<std::string, std::string> *meta = nullptr);
    uint64_t hash() const { auto t = text(); return fnv(t.data(), t.size()); }
};

// --- Result slot, shared between a run (forked child) and the engine ---------

enum Status { ST_NONE = 0, ST_OK, ST_FAIL, ST_CRASH, ST_HANG, ST_ERROR };

struct Slot {
    int status, step, nontrivial;
    char cls[128], msg[600];
    uint64_t hash, simtime_us, steps;
    uint32_t ncnt, nsig;
    struct { char name[40]; uint64_t n; } cnt[160];
    uint64_t sigs[1024];
};

inline uint64_t setup_turn;      // turns the equivalent forms of a set-up call, from the seed of the run

struct Ctx {
    Slot *s;
    const Scn &scn;
    bool trace = false;
    Ctx(Slot *s, const Scn &c) : s(s), scn(c) {}

    void step(int i) { s->step = i; s->steps++; }
    void ev(uint64_t v) { s->hash = mix(s->hash, v); }
    void ev(const void *p, size_t n) { ev(fnv(p, n)); }
    // "fault:<kind>" and "probe:<name>" counters
    void count(const char *name, uint64_t n = 1);
    void fault(const char *kind, uint64_t n = 1)
    { char b[64]; snprintf(b, sizeof b, "fault:%s", kind); count(b, n); }
    void probe(const char *name, uint64_t n = 1)
    { char b[64]; snprintf(b, sizeof b, "probe:%s", name); count(b, n); }
    void sig(uint64_t h)
    {
        for (uint32_t i = 0; i < s->nsig; i++) if (s->sigs[i] == h) return;
        if (s->nsig < 1024) s->sigs[s->nsig++] = h;
    }
    void time(uint64_t us) { s->simtime_us += us; }
    void nontrivial() { s->nontrivial = 1; }
    [[noreturn]] void fail(const char *cls, const char *fmt, ...)
        __attribute__((format(printf, 3, 4)));
    // harness problem: never a violation
    [[noreturn]] void broken(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void say(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

// --- Registry ---------------------------------------------------------------

struct Check {
    const char *id;
    Scn (*gen)(uint64_t seed, int tier);
    void (*exec)(const Scn &, Ctx &);
    int cpu_limit_s;      // progress bound of one run, CPU seconds
};

std::vector<Check> &registry();
struct Register { Register(Check c) { registry().push_back(c); } };

}
