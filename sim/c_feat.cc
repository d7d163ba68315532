// C23: builds of the library with fewer features, next to the full one.
#include "net.h"
#include <memory>
using namespace sim;

#define DECL(p) extern "C" { \
    unsigned p##lc3_hr_encoder_size(bool, int, int); unsigned p##lc3_hr_decoder_size(bool, int, int); \
    lc3_encoder_t p##lc3_hr_setup_encoder(bool, int, int, int, void *); lc3_decoder_t p##lc3_hr_setup_decoder(bool, int, int, int, void *); \
    lc3_encoder_t p##lc3_setup_encoder(int, int, int, void *); lc3_decoder_t p##lc3_setup_decoder(int, int, int, void *); \
    unsigned p##lc3_encoder_size(int, int); unsigned p##lc3_decoder_size(int, int); \
    void p##lc3_encoder_disable_ltpf(lc3_encoder_t); \
    int p##lc3_encode(lc3_encoder_t, enum lc3_pcm_format, const void *, int, int, void *); \
    int p##lc3_decode(lc3_decoder_t, const void *, int, enum lc3_pcm_format, void *, int); \
    int p##lc3_hr_frame_samples(bool, int, int); int p##lc3_hr_frame_block_bytes(bool, int, int, int, int); int p##lc3_hr_delay_samples(bool, int, int); }
DECL(p0h0_) DECL(p1h0_) DECL(p0h1_)
struct Build {
    const char *name; bool plus, hr;
    unsigned (*esize)(bool, int, int), (*dsize)(bool, int, int);
    lc3_encoder_t (*esetup)(bool, int, int, int, void *); lc3_decoder_t (*dsetup)(bool, int, int, int, void *);
    void (*nol)(lc3_encoder_t);
    int (*enc)(lc3_encoder_t, enum lc3_pcm_format, const void *, int, int, void *);
    int (*dec)(lc3_decoder_t, const void *, int, enum lc3_pcm_format, void *, int);
    int (*samples)(bool, int, int), (*bytes)(bool, int, int, int, int), (*delay)(bool, int, int);
};
#define B(n, p, plus, hr) { n, plus, hr, p##lc3_hr_encoder_size, p##lc3_hr_decoder_size, p##lc3_hr_setup_encoder, p##lc3_hr_setup_decoder, \
    p##lc3_encoder_disable_ltpf, p##lc3_encode, p##lc3_decode, p##lc3_hr_frame_samples, p##lc3_hr_frame_block_bytes, p##lc3_hr_delay_samples }
static const Build builds[] = { B("full", , true, true), B("LC3_PLUS=0 LC3_PLUS_HR=0", p0h0_, false, false),
    B("LC3_PLUS_HR=0", p1h0_, true, false), B("LC3_PLUS=0", p0h1_, false, true) };
enum { NB = 4 };

static bool supports(const Build &b, const Cfg &c)
{ return (b.plus || c.dt >= 2) && (b.hr || !c.hr()); }

static Scn gen_c23(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C23"; s.seed = seed;
    // mostly configurations that a reduced build still supports
    Cfg c = pick_cfg(r, .25, .25);
    if (!c.hr() && r.chance(.5)) c.dt = 2 + r.below(2);
    NetOpt o = pick_net(r, r.range(8, tier ? 80 : 40));
    o.fmtsw = .08; o.bypass = r.chance(.2) ? .05 : 0;
    gen_net(s, r, c, o);
    for (int i = 0; i < 6; i++) s.ops.insert(s.ops.begin() + r.below(s.ops.size()), Op{ "ask", { (int64_t)(r.u64() >> 20) } });
    return s;
}

static void exec_c23(const Scn &s, Ctx &x)
{
    Net net(s, x); Cfg c = net.c; int ns = c.ns(), fmt = s.get("fmt");
    struct Peer { const Build *b; std::unique_ptr<Guard> em, dm; lc3_encoder_t e; lc3_decoder_t d; };
    std::vector<Peer> peers;
    Guard pcm(ns * 4), out(1024), o2(ns * 4), in(2048);
    auto refused = [&](const Build &b, bool hr, int us, int hz, int pz) {
        Guard g(40960); uint8_t *m = g.get(32768, 0x3c, 8);
        if (b.esetup(hr, us, hz, pz, m) || b.dsetup(hr, us, hz, pz, m)) x.fail("misread", "%s accepts hr %d, %d us, %d Hz, which it lacks", b.name, hr, us, hz);
        for (int i = 0; i < 32768; i++) if (m[i] != 0x3c) x.fail("misread", "%s writes on a refused setup", b.name);
        if (b.esize(hr, us, pz) || b.dsize(hr, us, pz)) x.fail("misread", "%s reports a size for a configuration it lacks", b.name);
        if (b.samples(hr, us, pz) >= 0 || b.bytes(hr, us, hz, 1, 64000) >= 0 || b.delay(hr, us, pz) >= 0) x.fail("misread", "%s answers queries for a configuration it lacks", b.name);
        x.fault("missing-feature");
    };
    for (auto &b : builds) {
        if (!supports(b, c)) { refused(b, c.hr(), c.us(), c.hz(), c.pcm_hz()); continue; }
        Peer p; p.b = &b;
        unsigned es = b.esize(c.hr(), c.us(), c.pcm_hz()), ds = b.dsize(c.hr(), c.us(), c.pcm_hz());
        if (!es || !ds) x.fail("refused", "%s has no size for a configuration it supports", b.name);
        p.em.reset(new Guard(es)); p.dm.reset(new Guard(ds));
        p.e = b.esetup(c.hr(), c.us(), c.hz(), c.pcm_hz(), p.em->get(es, 0x77, 8)); p.d = b.dsetup(c.hr(), c.us(), c.hz(), c.pcm_hz(), p.dm->get(ds, 0x77, 8));
        if (!p.e || !p.d) x.fail("refused", "%s refuses a configuration it supports", b.name);
        if (b.samples(c.hr(), c.us(), c.pcm_hz()) != ns) x.fail("query", "%s: frame of %d samples", b.name, b.samples(c.hr(), c.us(), c.pcm_hz()));
        peers.push_back(std::move(p));
    }
    x.probe(peers.size() == 4 ? "4-builds" : peers.size() == 3 ? "3-builds" : peers.size() == 2 ? "2-builds" : "1-build");
    Signal sig(s.get("sig"), s.get("sigseed"), c.pcm_hz());
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "ask") {
            Rng r(o.arg(0)); Cfg k = pick_cfg(r, .2, .4);
            for (auto &b : builds) {
                if (!supports(b, k)) refused(b, k.hr(), k.us(), k.hz(), k.pcm_hz());
                else for (int br : { 0, 16000, 64000, 320000 })
                    if (b.bytes(k.hr(), k.us(), k.hz(), 1, br) != lc3_hr_frame_block_bytes(k.hr(), k.us(), k.hz(), 1, br)) x.fail("query", "%s: frame size of %d bps", b.name, br);
            }
            continue;
        }
        if (o.k == "sig") { sig = Signal(o.arg(0), o.arg(1), c.pcm_hz()); continue; }
        if (o.k == "renc") { for (auto &p : peers) p.b->esetup(c.hr(), c.us(), c.hz(), c.pcm_hz(), p.em->cur); x.fault("sender-restart"); continue; }
        if (o.k == "rdec") { for (auto &p : peers) p.b->dsetup(c.hr(), c.us(), c.hz(), c.pcm_hz(), p.dm->cur); x.fault("receiver-restart"); continue; }
        if (o.k == "byp") { for (auto &p : peers) p.b->nol(p.e); continue; }
        if (o.k == "fmt") { fmt = o.arg(0) & 3; continue; }
        int b = fmt_bytes(fmt), al = b == 3 ? 1 : b;
        if (o.k == "enc") {
            int nb = o.arg(1); if (nb < c.nbmin() || nb > c.nbmax()) continue;
            uint8_t *p = pcm.get(ns * b, 0, al);
            for (int k = 0; k < ns; k++) put_pcm(fmt, p + k * b, sig.next());
            std::vector<uint8_t> f;
            for (auto &q : peers) {
                uint8_t *w = out.get(nb, 0x11);
                int r = q.b->enc(q.e, (enum lc3_pcm_format)fmt, p, 1, nb, w);
                if (r || !q.em->intact()) x.fail("encoder", "%s: encode returned %d", q.b->name, r);
                if (f.empty()) f.assign(w, w + nb);
                else if (memcmp(f.data(), w, nb)) x.fail("encoder", "frame %d of the %s build differs from the full build", (int)o.arg(0), q.b->name);
            }
            net.sent[o.arg(0)] = f; x.ev(f.data(), nb); x.time(c.us());
            continue;
        }
        Payload p; if (!net.transport(o, p)) continue;
        if (p.frame && ((int)p.d.size() < 20 || (int)p.d.size() > c.nbmax())) continue;
        std::vector<uint8_t> w0; int r0 = 0;
        for (auto &q : peers) {
            uint8_t *f = 0, *w = o2.get(ns * b, 0x22, al);
            if (p.frame) { f = in.get(p.d.size()); memcpy(f, p.d.data(), p.d.size()); }
            int r = q.b->dec(q.d, f, p.frame ? p.d.size() : p.lost_n, (enum lc3_pcm_format)fmt, w, 1);
            if (!q.dm->intact() || !o2.intact()) x.fail("overflow", "%s: decode wrote outside its memory", q.b->name);
            if (w0.empty()) { w0.assign(w, w + ns * b); r0 = r; }
            else {
                if (r != r0) x.fail("decoder", "%s build returns %d, full build %d", q.b->name, r, r0);
                if (memcmp(w, w0.data(), ns * b)) x.fail("decoder", "samples of the %s build differ from the full build", q.b->name);
            }
        }
        x.ev(w0.data(), w0.size()); x.ev(r0); if (peers.size() > 1) x.nontrivial();
        ref::Frame fr; if (p.frame) { ref::parse(p.d.data(), p.d.size(), c.dt, c.sr, fr); x.sig(mix(mix(c.dt * 8 + c.sr, fr.shape_sig()), peers.size() * 4 + r0)); }
    }
}
static Register r23({ "C23", gen_c23, exec_c23, 30 });
