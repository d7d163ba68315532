// Access to the library under test: guarded memory, configurations, formats.
#pragma once
#include "sim.h"
#include "ref.h"
#include "audio.h"
extern "C" {
#include "lc3.h"
}
#include <sys/mman.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#endif

namespace sim {

// A buffer whose end touches an inaccessible page and whose other side is
// covered by a canary (and poisoned when built with ASan).
struct Guard {
    uint8_t *map, *end; size_t cap, maplen; uint8_t *cur = 0; size_t curn = 0; uint8_t fill = 0xa5;
    static const size_t PRE = 320;
    explicit Guard(size_t max)
    {
        cap = (max + PRE + 4095) & ~(size_t)4095;
        maplen = cap + 8192;
        map = (uint8_t *)mmap(0, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(map, 4096, PROT_NONE);
        mprotect(map + 4096 + cap, 4096, PROT_NONE);
        end = map + 4096 + cap;
    }
    Guard(const Guard &) = delete;
    ~Guard() { unpoison(); munmap(map, maplen); }
    void unpoison()
    {
#ifdef SIM_ASAN
        ASAN_UNPOISON_MEMORY_REGION(map + 4096, cap);
#endif
    }
    // n bytes ending at the guard page, filled with `fill`
    uint8_t *get(size_t n, uint8_t f = 0xa5, size_t align = 1, size_t off = 0)
    {
        unpoison();
        uint8_t *p = (uint8_t *)((uintptr_t)(end - n) & ~(uintptr_t)(align - 1)) - off;
        memset(p, f, n);
        memset(p - PRE, f ^ 0xff, PRE);
        memset(p + n, f ^ 0xff, end - (p + n));
        fill = f; cur = p; curn = n;
#ifdef SIM_ASAN
        ASAN_POISON_MEMORY_REGION(map + 4096, p - (map + 4096));
        ASAN_POISON_MEMORY_REGION(p + n, end - (p + n));
#endif
        return p;
    }
    // Nothing around the buffer was written (ASan sees that by itself)
    bool intact() const
    {
#ifndef SIM_ASAN
        if (!cur) return true;
        for (size_t i = 1; i <= PRE; i++) if (cur[-(ssize_t)i] != (uint8_t)(fill ^ 0xff)) return false;
        for (uint8_t *p = cur + curn; p < end; p++) if (*p != (uint8_t)(fill ^ 0xff)) return false;
#endif
        return true;
    }
};

struct Cfg {
    int dt, sr, srp;       // identifiers of the model; srp: PCM rate
    bool hr() const { return ref::is_hr(sr); }
    int us() const { return ref::dt_us(dt); }
    int hz() const { return ref::sr_hz(sr); }
    int pcm_hz() const { return ref::sr_hz(srp); }
    int ns() const { return ref::ns(dt, srp); }
    int nbmin() const { return ref::min_bytes(dt, sr); }
    int nbmax() const { return ref::max_bytes(dt, sr); }
    size_t dec_size() const { return lc3_hr_decoder_size(hr(), us(), pcm_hz()); }
    // the ways of the interface to say the same set-up, in turn
    lc3_encoder_t new_enc(void *m) const
    {
        unsigned t = mix(setup_turn++, 71) >> 5; int pz = srp != sr || t & 1 ? pcm_hz() : t & 6 ? 0 : -1;
        return !hr() && t & 8 ? lc3_setup_encoder(us(), hz(), pz, m) : lc3_hr_setup_encoder(hr(), us(), hz(), pz, m);
    }
    lc3_decoder_t new_dec(void *m) const
    {
        unsigned t = mix(setup_turn++, 72) >> 5; int pz = srp != sr || t & 1 ? pcm_hz() : t & 6 ? 0 : -1;
        return !hr() && t & 8 ? lc3_setup_decoder(us(), hz(), pz, m) : lc3_hr_setup_decoder(hr(), us(), hz(), pz, m);
    }
    size_t enc_size() const { return lc3_hr_encoder_size(hr(), us(), pcm_hz()); }
};

// A supported configuration; p_up: chance of a higher PCM rate
static inline Cfg pick_cfg(Rng &r, double p_up = 0.2, double p_hr = 0.2)
{
    Cfg c;
    if (r.chance(p_hr)) {
        c.sr = ref::SR_48HR + r.below(2);
        c.dt = std::vector<int>{ 0, 1, 3 }[r.below(3)];
    } else { c.sr = r.below(5); c.dt = r.below(4); }
    c.srp = c.sr;
    if (r.chance(p_up)) {
        if (ref::is_hr(c.sr)) c.srp = ref::SR_96HR;
        else c.srp = c.sr + r.below(5 - c.sr);
    }
    return c;
}

static inline void put_cfg(Scn &s, const Cfg &c) { s.cfg["dt"] = c.dt; s.cfg["sr"] = c.sr; s.cfg["srp"] = c.srp; }
static inline Cfg get_cfg(const Scn &s) { return { (int)s.get("dt"), (int)s.get("sr"), (int)s.get("srp") }; }

static inline int fmt_bytes(int fmt) { return fmt == LC3_PCM_FORMAT_S16 ? 2 : fmt == LC3_PCM_FORMAT_S24_3LE ? 3 : 4; }
static const char *const fmt_name[] = { "s16", "s24", "s24_3le", "float" };

// Write sample v (in [-1, 1]) with the given format
static inline void put_pcm(int fmt, void *p, double v)
{
    if (fmt == LC3_PCM_FORMAT_S16) {
        double w = std::max(-32768., std::min(32767., floor(v * 32768 + .5)));
        int16_t s = (int16_t)w; memcpy(p, &s, 2);
    } else if (fmt == LC3_PCM_FORMAT_FLOAT) { float f = (float)v; memcpy(p, &f, 4); }
    else {
        int32_t s = (int32_t)std::max(-8388608., std::min(8388607., floor(v * 8388608 + .5)));
        if (fmt == LC3_PCM_FORMAT_S24) memcpy(p, &s, 4);
        else { uint8_t *b = (uint8_t *)p; b[0] = s; b[1] = s >> 8; b[2] = s >> 16; }
    }
}

// Read a sample as [-1, 1]
static inline double get_pcm(int fmt, const void *p)
{
    if (fmt == LC3_PCM_FORMAT_S16) { int16_t s; memcpy(&s, p, 2); return s / 32768.; }
    if (fmt == LC3_PCM_FORMAT_FLOAT) { float f; memcpy(&f, p, 4); return f; }
    if (fmt == LC3_PCM_FORMAT_S24) { int32_t s; memcpy(&s, p, 4); return s / 8388608.; }
    const uint8_t *b = (const uint8_t *)p;
    int32_t s = (int32_t)((uint32_t)b[0] << 8 | (uint32_t)b[1] << 16 | (uint32_t)b[2] << 24) >> 8;
    return s / 8388608.;
}

// The encoder under test with its audio source
struct Enc {
    Cfg c; Guard mem; lc3_encoder_t e; Signal sig; Guard pcm, out; int fmt = LC3_PCM_FORMAT_S16;
    Enc(const Cfg &c, int kind, uint64_t seed)
        : c(c), mem(c.enc_size()), sig(kind, seed, c.pcm_hz()),
          pcm(c.ns() * 4), out(c.nbmax())
    { e = c.new_enc(mem.get(c.enc_size(), 0xa5, 8)); }
    void restart()
    { e = c.new_enc(mem.get(c.enc_size(), 0x5a, 8)); }
    std::vector<uint8_t> frame(int nbytes, std::vector<double> *in = nullptr, int *ret = nullptr)
    {
        int b = fmt_bytes(fmt);
        uint8_t *p = pcm.get(c.ns() * b, 0xa5, b == 3 ? 1 : b);
        for (int i = 0; i < c.ns(); i++) {
            double v = sig.next();
            put_pcm(fmt, p + i * b, v);
            if (in) in->push_back(get_pcm(fmt, p + i * b));
        }
        uint8_t *o = out.get(nbytes);
        int r = lc3_encode(e, (enum lc3_pcm_format)fmt, p, 1, nbytes, o);
        if (ret) *ret = r;
        return std::vector<uint8_t>(o, o + nbytes);
    }
};

// The decoder under test
struct Dec {
    Cfg c; Guard mem, in, out; lc3_decoder_t d; int fmt; std::vector<uint8_t> pcm;
    Dec(const Cfg &c, int fmt = LC3_PCM_FORMAT_S16, uint8_t fill = 0xa5)
        : c(c), mem(c.dec_size()), in(2048), out(c.ns() * 4 * 4 + 64), fmt(fmt)
    { restart(fill); }
    void restart(uint8_t fill = 0x5a)
    { d = c.new_dec(mem.get(c.dec_size(), fill, 8)); }
    // contiguous decode into `pcm`
    int decode(const uint8_t *f, int n)
    {
        int b = fmt_bytes(fmt);
        uint8_t *o = out.get(c.ns() * b, 0xa5, b == 3 ? 1 : b), *i = nullptr;
        if (f) { i = in.get(n); memcpy(i, f, n); }
        int r = lc3_decode(d, i, n, (enum lc3_pcm_format)fmt, o, 1);
        pcm.assign(o, o + c.ns() * b);
        return r;
    }
    double sample(int i) const { return get_pcm(fmt, &pcm[i * fmt_bytes(fmt)]); }
};

}
