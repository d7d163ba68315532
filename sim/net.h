// The simulated deployment around a codec pair: a sender with an encoder and
// an audio source, a faulty packet network, and a receiver that plays one
// frame per tick.  gen_net() runs the network as a discrete-event simulation
// and leaves the receiver's view as a flat list of operations (the schedule
// and fault trace); Net executes those operations against the real code.
#pragma once
#include "lib.h"
#include <memory>

namespace sim {

struct NetOpt {
    int frames = 60;
    double loss = 0, burst = 0;          // Gilbert-Elliott: P(good->bad), mean bad length
    double corrupt = 0, dup = 0, reorder = 0, forge = 0, junk = 0, mixc = 0;
    double renc = 0, rdec = 0, fmtsw = 0, sigsw = 0, badcall = 0, bypass = 0;
    int partition = 0;                   // one long outage of so many frames
    int late = 0;                        // frames missed before joining
    int tail = 0;                        // fault-free frames at the end
    bool naive = false;                  // receiver plays whatever arrives next
    double drift = 0;                    // receiver clock skew (frames per frame)
    int rate = -1;                       // 0 CBR, 1 slow VBR, 2 wild VBR
};

static inline int pick_bytes(Rng &r, const Cfg &c)
{
    int lo = c.nbmin(), hi = c.nbmax();
    switch (r.pickw({ 4, 3, 2, 1, 1 })) {
    case 0: return r.range(lo, std::min(hi, lo + (hi - lo) / 4));
    case 1: return r.range(lo, hi);
    case 2: return std::min(hi, lo + (int)r.below(12));
    case 3: return lo;
    default: return hi;
    }
}

// bytes near a natural operating point, where LTPF is in use
static inline int usual_bytes(Rng &r, const Cfg &c)
{
    if (c.hr()) return r.range(c.nbmin(), std::min(c.nbmax(), 2 * c.nbmin() + 40));
    int b = (int)((1 + c.dt) * (8 + 4 * (c.sr + 1)) * (0.7 + 0.8 * r.unit()) * 0.75);
    return std::max(c.nbmin(), std::min(c.nbmax(), b));
}

static inline void add_cor(Scn &s, Rng &r, int id, int nb, int kind = -1)
{
    if (kind < 0) kind = r.below(11);
    int64_t a = 0, b = 0;
    switch (kind) {
    case 0: a = r.below(nb * 8); break;
    case 1: a = r.below(nb * 8); b = r.range(2, 60); break;
    case 2: a = r.below(nb); b = r.u64() >> 16; break;
    case 3: a = r.range(1, nb - 1); break;
    case 4: a = r.range(nb + 1, 2 * nb + 30); break;
    case 7: a = r.below(nb); break;
    case 8: a = nb * 8 - 1 - r.below(std::min(64, nb * 8)); b = r.range(1, 3); break;
    case 9: a = r.range(1, 3); break;
    case 10: a = r.range(1, 12); b = r.u64() >> 16; break;
    default: break;
    }
    s.add("cor", { id, kind, a, b });
}

static inline void add_forge(Scn &s, Rng &r, const Cfg &c, int nb = 0, int mag = 0, int flags = -1)
{
    if (!nb) nb = r.chance(.5) ? usual_bytes(r, c) : pick_bytes(r, c);
    // flags: gain class, LTPF, TNS, damage of the forged frame
    if (flags < 0) flags = r.below(256) | (r.chance(.12) ? 2048 : 0) | (r.chance(.2) ? 4096 : 0);
    s.add("forge", { (int64_t)(r.u64() >> 16), nb, mag ? mag : r.range(1, c.hr() ? 18 : 13), flags });
}

static inline NetOpt pick_net(Rng &r, int frames)
{
    NetOpt o; o.frames = frames;
    // swarm: every kind of fault is on or off for the whole run
    auto on = [&](double p, double lo, double hi) { return r.chance(p) ? lo + (hi - lo) * r.unit() : 0.; };
    o.loss = on(.6, .01, .2); o.burst = 1 + r.below(8);
    o.corrupt = on(.6, .02, .3);
    o.dup = on(.3, .01, .1); o.reorder = on(.3, .01, .2);
    o.forge = on(.5, .02, .4); o.junk = on(.4, .02, .2); o.mixc = on(.3, .02, .1);
    o.renc = on(.3, .01, .06); o.rdec = on(.3, .01, .06);
    o.sigsw = on(.4, .02, .1);
    o.partition = r.chance(.25) ? r.range(5, 60) : 0;
    o.late = r.chance(.2) ? r.range(1, 10) : 0;
    o.naive = r.chance(.4);
    o.drift = on(.3, -.05, .05);
    return o;
}

static inline void gen_net(Scn &s, Rng &r, const Cfg &c, NetOpt o)
{
    put_cfg(s, c);
    s.cfg["sig"] = r.below(SG_ALL);
    s.cfg["sigseed"] = r.u64() >> 20;
    if (!s.cfg.count("fmt")) s.cfg["fmt"] = r.below(4);
    if (o.rate < 0) o.rate = r.pickw({ 5, 3, 2 });
    int nb = r.chance(.75) ? usual_bytes(r, c) : pick_bytes(r, c);
    bool bad = false;
    int part0 = o.partition ? r.below(std::max(1, o.frames - o.partition)) : -1;
    struct Pkt { int id; double at; };
    std::vector<Pkt> air;
    std::vector<int> size(o.frames);
    double rclk = 0; int next_play = 0; const int depth = 2;
    for (int t = 0; t < o.frames; t++) {
        bool quiet = t >= o.frames - o.tail;
        if (!quiet) {
            if (r.chance(o.sigsw)) s.add("sig", { r.below(SG_ALL), (int64_t)(r.u64() >> 20) });
            if (r.chance(o.renc)) s.add("renc");
            if (r.chance(o.bypass)) s.add("byp");
        }
        if (o.rate == 1 && r.chance(.15)) nb = usual_bytes(r, c);
        if (o.rate == 2) nb = r.chance(.5) ? usual_bytes(r, c) : pick_bytes(r, c);
        size[t] = nb;
        s.add("enc", { t, nb });
        // the channel
        bad = bad ? !r.chance(1. / o.burst) : r.chance(o.loss);
        bool lost = !quiet && (bad || t < o.late || (part0 >= 0 && t >= part0 && t < part0 + o.partition));
        if (!lost) {
            double d = !quiet && r.chance(o.reorder) ? r.unit() * 5 : r.unit() * .9;
            air.push_back({ t, t + d });
            if (!quiet && r.chance(o.dup)) air.push_back({ t, t + r.unit() * 6 });
        }
        // the receiver plays as many frames as its clock says
        rclk += quiet ? 1 : 1 + o.drift;
        for (; rclk >= 1; rclk -= 1) {
            if (!quiet) {
                if (r.chance(o.rdec)) s.add("rdec");
                if (r.chance(o.fmtsw)) s.add("fmt", { r.below(4) });
                if (r.chance(o.badcall)) s.add("bad", { r.below(6), r.below(1 << 20) });
            }
            int id = -1;
            if (quiet) { id = t; air.clear(); next_play = t + 1; }
            else if (o.naive) {
                size_t best = air.size();
                for (size_t i = 0; i < air.size(); i++)
                    if (air[i].at <= t + 1 && (best == air.size() || air[i].at < air[best].at)) best = i;
                if (best < air.size()) { id = air[best].id; air.erase(air.begin() + best); }
            } else {
                int want = t - depth < 0 ? -2 : std::max(next_play, t - depth - 2);
                if (want == -2) continue;
                for (size_t i = 0; i < air.size(); i++)
                    if (air[i].id == want && air[i].at <= t + 1) { id = want; break; }
                next_play = want + 1;
                air.erase(std::remove_if(air.begin(), air.end(),
                    [&](const Pkt &p) { return p.id <= want; }), air.end());
            }
            if (!quiet && r.chance(o.forge)) { add_forge(s, r, c, r.chance(.5) ? nb : 0); continue; }
            if (!quiet && r.chance(o.junk)) {
                s.add("junk", { (int64_t)(r.u64() >> 16), r.chance(.5) ? nb : pick_bytes(r, c), r.below(4) });
                continue;
            }
            if (id < 0) s.add("lost", { r.chance(.5) ? nb : (int64_t)r.below(c.nbmax() + 1) });
            else if (!quiet && r.chance(o.corrupt)) add_cor(s, r, id, size[id]);
            else if (!quiet && id > 0 && r.chance(o.mixc))
                s.add("mix", { id, r.below(id), r.below(size[id]) });
            else s.add("dlv", { id });
        }
    }
}

struct Payload { bool frame = false; std::vector<uint8_t> d; int lost_n = 0; bool intact = false; int id = -1; };

struct Net {
    const Scn &s; Ctx &x; Cfg c;
    std::unique_ptr<Enc> enc;
    std::map<int, std::vector<uint8_t>> sent;
    bool in_fault = false;
    Net(const Scn &s, Ctx &x, bool enc_pcm_same = true) : s(s), x(x), c(get_cfg(s))
    {
        Cfg ce = c; if (!enc_pcm_same) ce.srp = ce.sr;
        enc.reset(new Enc(ce, s.get("sig"), s.get("sigseed")));
    }
    // Sender side operations; true when `o` was one
    bool sender(const Op &o)
    {
        if (o.k == "enc") {
            int nb = o.arg(1);
            if (nb < c.nbmin() || nb > c.nbmax()) return true;
            sent[o.arg(0)] = enc->frame(nb);
            x.time(c.us());
            return true;
        }
        if (o.k == "sig") { enc->sig = Signal(o.arg(0), o.arg(1), enc->c.pcm_hz()); return true; }
        if (o.k == "renc") { enc->restart(); x.fault("sender-restart"); return true; }
        if (o.k == "byp") { lc3_encoder_disable_ltpf(enc->e); return true; }
        return false;
    }
    // What the transport hands over for `o`; false when `o` is no delivery
    bool transport(const Op &o, Payload &p)
    {
        p = Payload();
        auto known = [&](int64_t id) { auto i = sent.find(id); return i == sent.end() ? nullptr : &i->second; };
        if (o.k == "lost") { p.lost_n = o.arg(0); x.fault("loss"); return true; }
        if (o.k == "dlv") {
            auto f = known(o.arg(0));
            if (!f) { x.fault("loss"); return true; }
            p.frame = p.intact = true; p.d = *f; p.id = o.arg(0); return true;
        }
        if (o.k == "junk") {
            Rng r(o.arg(0)); p.frame = true; p.d.resize(std::max<int64_t>(20, std::min<int64_t>(o.arg(1), c.nbmax())));
            for (auto &b : p.d) b = o.arg(2) == 0 ? r.u64() : o.arg(2) == 1 ? 0 : o.arg(2) == 2 ? 0xff : (r.chance(.8) ? 0 : r.u64());
            x.fault("junk-frame"); return true;
        }
        if (o.k == "forge") {
            Rng r(o.arg(0)); int n = std::max<int64_t>(20, std::min<int64_t>(o.arg(1), c.nbmax()));
            p.frame = true; p.d.resize(n);
            ref::Forge f; f.mag = std::max<int64_t>(1, std::min<int64_t>(o.arg(2), c.hr() ? 22 : 14));
            int fl = o.arg(3);
            if ((fl & 3) == 1) f.g_idx = 255; else if ((fl & 3) == 2) f.g_idx = r.below(40);
            if (fl & 4) f.pitch = 1, f.active = 1;
            if (fl & 8) f.tns = 2; else if (fl & 16) f.tns = 0;
            if (fl & 1024) f.g_idx = 60 + r.below(60);      // plausible level
            if (fl & 2048) f.bad = 1 + r.below(4), x.fault("forged-illegal-field");
            if (fl & 4096) f.edge = true, x.fault("forged-extreme-fields");
            ref::forge([&](int64_t m) { return r.below(m); }, c.dt, c.sr, n, f, p.d.data());
            x.fault("forged-frame");
            if ((fl & 0xc0) == 0x40) { p.d.resize(n - r.below(n - 19)); x.fault("forged-truncated"); }
            if ((fl & 0xc0) == 0x80) { p.d[r.below(n)] ^= 1 << r.below(8); x.fault("forged-flipped"); }
            return true;
        }
        if (o.k == "mix") {
            auto f = known(o.arg(0)), g = known(o.arg(1));
            if (!f || !g) { x.fault("loss"); return true; }
            p.frame = true; p.d = *f;
            for (size_t i = o.arg(2); i < f->size() && i < g->size(); i++) p.d[i] = (*g)[i];
            x.fault("torn-frame"); return true;
        }
        if (o.k == "cor") {
            auto f = known(o.arg(0));
            if (!f) { x.fault("loss"); return true; }
            p.frame = true; p.d = *f; size_t n = p.d.size();
            int64_t a = o.arg(2), b = o.arg(3);
            auto flip = [&](int64_t i) { if (i >= 0 && i < (int64_t)n * 8) p.d[i / 8] ^= 1 << (i % 8); };
            static const char *nm[] = { "bit-flip", "burst", "overwrite", "truncate", "extend", "swap-halves",
                "bit-flip", "zero-tail", "side-info-flip", "bad-arith-code", "multi-flip" };
            switch (o.arg(1)) {
            case 1: for (int64_t i = 0; i < b; i++) flip(a + i); break;
            case 2: { Rng r(b); for (size_t i = a; i < n; i++) p.d[i] = r.u64(); break; }
            case 3: p.d.resize(std::max<int64_t>(1, a)); break;
            case 4: p.d.resize(std::min<int64_t>(a, 700)); break;
            case 5: std::rotate(p.d.begin(), p.d.begin() + n / 2, p.d.end()); break;
            case 7: for (size_t i = a; i < n; i++) p.d[i] = 0; break;
            case 8: for (int64_t i = 0; i < b; i++) flip(a - i * 7); break;
            case 9: for (int64_t i = 0; i < a && i < (int64_t)n; i++) p.d[i] = 0xff; break;
            case 10: { Rng r(b); for (int64_t i = 0; i < a; i++) flip(r.below(n * 8)); break; }
            default: flip(a); break;
            }
            x.fault(nm[o.arg(1) >= 0 && o.arg(1) < 11 ? o.arg(1) : 0]);
            return true;
        }
        return false;
    }
};

// Leave rubbish where the next call keeps its locals
__attribute__((noinline)) static void scribble_stack(uint64_t v)
{
    volatile uint64_t a[3072];
    for (int i = 0; i < 3072; i++) a[i] = v + (v & 1 ? i * 0x9e3779b97f4a7c15ull : 0);
    __asm__ volatile("" : : "r"(a) : "memory");
}

}
