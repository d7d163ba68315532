// Context checks: C07 own history only, C08 footprint, C09 checkpoint,
// C12 sample formats, C13 interleaved channels.
#include "net.h"
#include "alloc.h"
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>

using namespace sim;

// Storage of the library itself (sections renamed at build time)
extern "C" {
extern char __start_lc3data[] __attribute__((weak)), __stop_lc3data[] __attribute__((weak));
extern char __start_lc3bss[] __attribute__((weak)), __stop_lc3bss[] __attribute__((weak));
}
static uint64_t lib_storage()
{
    uint64_t h = 1;
    if (__start_lc3data) h = fnv(__start_lc3data, __stop_lc3data - __start_lc3data, h);
    if (__start_lc3bss) h = fnv(__start_lc3bss, __stop_lc3bss - __start_lc3bss, h);
    return h;
}

// --- C07 ---------------------------------------------------------------------

// One codec pair whose memory is reused over many lives
static Scn gen_c07(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C07"; s.seed = seed;
    Cfg c = pick_cfg(r, .25, .25);
    NetOpt o = pick_net(r, r.range(8, tier ? 80 : 40));
    o.fmtsw = .05; o.bypass = r.chance(.2) ? .05 : 0;
    gen_net(s, r, c, o);
    // lives before (and between): other configurations in the same memory
    std::vector<Op> ops;
    auto life = [&]() {
        Cfg k = pick_cfg(r, .2, .3);
        ops.push_back({ "life", { k.dt, k.sr, k.srp, r.range(1, 12), (int64_t)(r.u64() >> 20) } });
    };
    for (int i = r.below(3); i > 0; i--) life();
    for (auto &op : s.ops) {
        if (r.chance(.03)) { life(); ops.push_back(Op{ "renc", {} }); ops.push_back(Op{ "rdec", {} }); }
        if (r.chance(.15)) ops.push_back({ "other", { (int64_t)(r.u64() >> 20) } });
        ops.push_back(op);
    }
    s.ops = ops;
    return s;
}

struct World {
    Cfg c; Guard em, dm, pcm, out, in; lc3_encoder_t e = 0; lc3_decoder_t d = 0; uint64_t g;
    bool reuse;
    World(const Cfg &c, uint64_t g, bool reuse)
        : c(c), em(40960), dm(40960), pcm(16384), out(16384), in(2048), g(g), reuse(reuse)
    { ebase = em.get(32768, splitmix(this->g), 8); dbase = dm.get(32768, splitmix(this->g), 8); setup_e(); setup_d(); }
    uint8_t *ebase, *dbase;
    void fill(uint8_t *p) { uint64_t z = splitmix(g); for (int i = 0; i < 32768; i += 8) { uint64_t v = splitmix(z); memcpy(p + i, &v, 8); } }
    // World A starts every life in fresh memory, world B in what is there
    void setup_e() { if (!reuse) memset(ebase, splitmix(g), 32768); e = c.new_enc(ebase); }
    void setup_d() { if (!reuse) memset(dbase, splitmix(g), 32768); d = c.new_dec(dbase); }
    int encode(const double *v, int fmt, int nb, std::vector<uint8_t> &f)
    {
        int b = fmt_bytes(fmt); uint8_t *p = pcm.get(c.ns() * b, splitmix(g), b == 3 ? 1 : b), *o = out.get(nb, splitmix(g));
        for (int i = 0; i < c.ns(); i++) put_pcm(fmt, p + i * b, v[i]);
        scribble_stack(splitmix(g));
        int r = lc3_encode(e, (enum lc3_pcm_format)fmt, p, 1, nb, o);
        f.assign(o, o + nb); return r;
    }
    int decode(const Payload &p, int fmt, std::vector<uint8_t> &w)
    {
        int b = fmt_bytes(fmt); uint8_t *i = 0, *o = out.get(c.ns() * b, splitmix(g), b == 3 ? 1 : b);
        if (p.frame) { i = in.get(p.d.size(), splitmix(g)); memcpy(i, p.d.data(), p.d.size()); }
        scribble_stack(splitmix(g));
        int r = lc3_decode(d, i, p.frame ? p.d.size() : p.lost_n, (enum lc3_pcm_format)fmt, o, 1);
        w.assign(o, o + c.ns() * b);
        return r;
    }
};

// Some frames of another stream (anywhere)
static void other_stream(const Cfg &k, void *em, void *dm, int frames, uint64_t seed)
{
    Rng r(seed);
    lc3_encoder_t e = k.new_enc(em);
    lc3_decoder_t d = k.new_dec(dm);
    Signal sig(r.below(SG_ALL), r.u64(), k.pcm_hz());
    std::vector<int16_t> pcm(k.ns()), o(k.ns()); std::vector<uint8_t> f(k.nbmax());
    if (r.chance(.1)) lc3_encoder_disable_ltpf(e);
    for (int i = 0; i < frames; i++) {
        int nb = usual_bytes(r, k);
        for (auto &v : pcm) put_pcm(0, &v, sig.next());
        lc3_encode(e, LC3_PCM_FORMAT_S16, pcm.data(), 1, nb, f.data());
        if (r.chance(.2)) { ref::Forge q; q.mag = 12; ref::forge([&](int64_t m) { return r.below(m); }, k.dt, k.sr, nb, q, f.data()); }
        lc3_decode(d, r.chance(.15) ? 0 : f.data(), nb, LC3_PCM_FORMAT_S16, o.data(), 1);
    }
}

static void exec_c07(const Scn &s, Ctx &x)
{
    Net net(s, x); Cfg c = net.c;      // used for its transport only
    World A(c, s.seed, false), B(c, ~s.seed, true);
    B.fill(B.ebase); B.fill(B.dbase); B.setup_e(); B.setup_d();
    Signal sig(s.get("sig"), s.get("sigseed"), c.pcm_hz());
    int fmt = s.get("fmt"); bool life = false;
    std::vector<double> v(c.ns()); std::vector<uint8_t> fa, fb, wa, wb;
    std::vector<uint8_t> oe(32768), od(32768);
    auto rebuild = [&]() { B.setup_e(); B.setup_d(); };
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "life") {
            Cfg k = { (int)o.arg(0), (int)o.arg(1), (int)o.arg(2) };
            // another stream lives in B's memory: both of ours start again
            other_stream(k, B.ebase, B.dbase, o.arg(3), o.arg(4));
            A.setup_e(); A.setup_d(); rebuild(); life = true; x.fault("memory-reused"); continue;
        }
        if (o.k == "other") {
            Rng r(o.arg(0)); Cfg k = pick_cfg(r);
            other_stream(k, oe.data(), od.data(), r.range(1, 4), r.u64()); x.fault("other-stream-interleaved"); continue;
        }
        if (o.k == "sig") { sig = Signal(o.arg(0), o.arg(1), c.pcm_hz()); continue; }
        if (o.k == "renc") { A.setup_e(); B.setup_e(); x.fault("sender-restart"); continue; }
        if (o.k == "rdec") { A.setup_d(); B.setup_d(); x.fault("receiver-restart"); continue; }
        if (o.k == "byp") { lc3_encoder_disable_ltpf(A.e); lc3_encoder_disable_ltpf(B.e); continue; }
        if (o.k == "fmt") { fmt = o.arg(0); continue; }
        if (o.k == "enc") {
            int nb = o.arg(1); if (nb < c.nbmin() || nb > c.nbmax()) continue;
            for (auto &q : v) q = sig.next();
            int ra = A.encode(v.data(), fmt, nb, fa), rb = B.encode(v.data(), fmt, nb, fb);
            if (ra != rb || fa != fb) x.fail("encoder", "frame %d differs between two worlds (life before: %d)", (int)o.arg(0), life);
            net.sent[o.arg(0)] = fa; x.time(c.us()); x.ev(fa.data(), nb); x.nontrivial();
            continue;
        }
        Payload p; if (!net.transport(o, p)) continue;
        if (p.frame && ((int)p.d.size() < 20 || (int)p.d.size() > c.nbmax())) continue;
        int ra = A.decode(p, fmt, wa), rb = B.decode(p, fmt, wb);
        if (ra != rb) x.fail("decoder", "returns %d and %d in two worlds", ra, rb);
        if (wa != wb) x.fail("decoder", "samples differ between two worlds (life before: %d, ret %d)", life, ra);
        x.ev(wa.data(), wa.size()); x.ev(ra); x.nontrivial();
        ref::Frame f; if (p.frame) { ref::parse(p.d.data(), p.d.size(), c.dt, c.sr, f); x.sig(mix(mix(c.dt * 8 + c.sr, f.shape_sig()), ra * 2 + life)); }
    }
}
static Register r07({ "C07", gen_c07, exec_c07, 30 });

// --- C08 ---------------------------------------------------------------------

#define TT(S, hz) T(0, S, 2500, hz) T(1, S, 5000, hz) T(2, S, 7500, hz) T(3, S, 10000, hz)
#define TALL TT(0, 8000) TT(1, 16000) TT(2, 24000) TT(3, 32000) TT(4, 48000) \
    T(0, 5, 2500, 48000) T(1, 5, 5000, 48000) T(3, 5, 10000, 48000) \
    T(0, 6, 2500, 96000) T(1, 6, 5000, 96000) T(3, 6, 10000, 96000)
#define T(I, S, us, hz) typedef LC3_ENCODER_MEM_T(us, hz) te_##I##_##S; typedef LC3_DECODER_MEM_T(us, hz) td_##I##_##S;
TALL
#undef T
#define T(I, S, us, hz) { I, S, sizeof(te_##I##_##S), sizeof(td_##I##_##S) },
static const struct { int dt, sr; size_t e, d; } static_types[] = { TALL };
#undef T

static Scn gen_c08(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C08"; s.seed = seed;
    Cfg c = pick_cfg(r, .35, .3);
    NetOpt o = pick_net(r, r.range(6, tier ? 80 : 40));
    o.fmtsw = .08; o.bypass = r.chance(.2) ? .05 : 0;
    s.cfg["mem"] = r.below(3);             // exact / static type / generic 16k 48k type
    gen_net(s, r, c, o);
    for (int i = 0; i < 12; i++) s.ops.insert(s.ops.begin() + r.below(s.ops.size()), Op{ "ask", { (int64_t)(r.u64() >> 20) } });
    return s;
}

static void exec_c08(const Scn &s, Ctx &x)
{
    Net net(s, x); Cfg c = net.c;
    size_t es = c.enc_size(), ds = c.dec_size();
    if (!es || !ds) x.fail("size", "no size reported for a supported configuration");
    if (!c.hr() && (es != lc3_encoder_size(c.us(), c.pcm_hz()) || ds != lc3_decoder_size(c.us(), c.pcm_hz())))
        x.fail("size", "the two size queries differ");
    int kind = s.get("mem");
    if (kind == 1)
        for (auto &t : static_types) if (t.dt == c.dt && t.sr == c.srp) { es = t.e; ds = t.d; x.probe("static-type"); }
    if (kind == 2) {
        if (c.pcm_hz() <= 16000) es = sizeof(lc3_encoder_mem_16k_t), ds = sizeof(lc3_decoder_mem_16k_t), x.probe("mem-16k");
        else if (c.pcm_hz() <= 48000) es = sizeof(lc3_encoder_mem_48k_t), ds = sizeof(lc3_decoder_mem_48k_t), x.probe("mem-48k");
    }
    Guard em(es), dm(ds), pcm(16384), out(16384), in(2048);
    uint8_t *ep = em.get(es, 0x5c, 8), *dp = dm.get(ds, 0x5c, 8);
    // sizes are those of a struct: its end is the end of the memory
    uint64_t store = lib_storage();
    auto watch = [&](const char *what) {
        long n = alloc::calls(); alloc::watch(false);
        if (n) x.fail("allocation", "%s allocated or freed memory", what);
        if (lib_storage() != store) x.fail("storage", "%s changed storage outside the context", what);
        if (!em.intact() || !dm.intact()) x.fail("overflow", "%s wrote outside the context", what);
        if (!pcm.intact() || !out.intact()) x.fail("overflow", "%s wrote outside its buffers", what);
    };
    alloc::watch(true);
    lc3_encoder_t e = c.new_enc(ep);
    lc3_decoder_t d = c.new_dec(dp);
    watch("setup");
    if (!e || !d) x.fail("setup", "supported configuration refused");
    Signal sig(s.get("sig"), s.get("sigseed"), c.pcm_hz()); int fmt = s.get("fmt");
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "ask") {
            // size 0 exactly where setup refuses
            Rng r(o.arg(0));
            static const int us[] = { 2500, 5000, 7500, 10000, 0, 1, 2499, 10001, 20000, -2500 };
            static const int hz[] = { 8000, 16000, 24000, 32000, 48000, 96000, 0, 44100, 22050, 192000, -8000, 12000 };
            bool hr = r.chance(.4); int u = us[r.below(r.chance(.7) ? 4 : 10)], h = hz[r.below(r.chance(.7) ? 6 : 12)];
            Guard g(40960);
            unsigned n1 = lc3_hr_encoder_size(hr, u, h), n2 = lc3_hr_decoder_size(hr, u, h);
            if (n1 > 32768 || n2 > 32768) x.fail("size", "size %u / %u", n1, n2);
            bool ok1 = lc3_hr_setup_encoder(hr, u, h, h, g.get(n1 ? n1 : 32768, 0, 8));
            if (!g.intact()) x.fail("overflow", "setup of an encoder wrote outside the size reported");
            bool ok2 = lc3_hr_setup_decoder(hr, u, h, h, g.get(n2 ? n2 : 32768, 0, 8));
            if (!g.intact()) x.fail("overflow", "setup of a decoder wrote outside the size reported");
            if (!!n1 != ok1 || !!n2 != ok2) x.fail("size", "hr %d dt %d sr %d: sizes %u %u, setup %d %d", hr, u, h, n1, n2, ok1, ok2);
            x.fault("odd-configuration"); continue;
        }
        if (o.k == "sig") { sig = Signal(o.arg(0), o.arg(1), c.pcm_hz()); continue; }
        if (o.k == "renc") { alloc::watch(true); e = c.new_enc(ep); watch("setup"); x.fault("sender-restart"); continue; }
        if (o.k == "rdec") { alloc::watch(true); d = c.new_dec(dp); watch("setup"); x.fault("receiver-restart"); continue; }
        if (o.k == "byp") { lc3_encoder_disable_ltpf(e); continue; }
        if (o.k == "fmt") { fmt = o.arg(0); continue; }
        int b = fmt_bytes(fmt), al = b == 3 ? 1 : b, ns = c.ns();
        if (o.k == "enc") {
            int nb = o.arg(1); if (nb < c.nbmin() || nb > c.nbmax()) continue;
            uint8_t *p = pcm.get(ns * b, 0, al), *q = out.get(nb);
            for (int k = 0; k < ns; k++) put_pcm(fmt, p + k * b, sig.next());
            alloc::watch(true);
            int r = lc3_encode(e, (enum lc3_pcm_format)fmt, p, 1, nb, q);
            watch("encode");
            if (r) x.fail("refused", "encode returned %d", r);
            net.sent[o.arg(0)].assign(q, q + nb); x.ev(q, nb); x.time(c.us()); x.nontrivial();
            continue;
        }
        Payload p; if (!net.transport(o, p)) continue;
        uint8_t *f = 0, *q = out.get(ns * b, 0x33, al);
        if (p.frame) { f = in.get(p.d.size()); memcpy(f, p.d.data(), p.d.size()); }
        alloc::watch(true);
        int r = lc3_decode(d, f, p.frame ? p.d.size() : p.lost_n, (enum lc3_pcm_format)fmt, q, 1);
        watch("decode");
        x.ev(q, ns * b); x.ev(r); x.nontrivial();
        ref::Frame fr; if (p.frame) { ref::parse(p.d.data(), p.d.size(), c.dt, c.sr, fr); x.sig(mix(mix(c.dt * 8 + c.sr, fr.shape_sig()), kind * 4 + r)); }
    }
}
static Register r08({ "C08", gen_c08, exec_c08, 20 });

// --- C09 ---------------------------------------------------------------------

// A process with another address space layout (the same objects, linked at
// another place) resumes a context from its bytes.
struct RemoteReq { uint32_t magic, enc, size, fmt, nbytes, ns, lost, disable; };

int remote_main()
{
    auto rd = [](void *p, size_t n) { uint8_t *b = (uint8_t *)p; while (n) { ssize_t r = read(0, b, n); if (r <= 0) _exit(0); b += r; n -= r; } };
    auto wr = [](const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; while (n) { ssize_t r = write(1, b, n); if (r <= 0) _exit(1); b += r; n -= r; } };
    RemoteReq q; rd(&q, sizeof q);
    std::vector<uint8_t> pre(4096 + 64);
    uint8_t *m = (uint8_t *)aligned_alloc(64, 65536) + 8;
    std::vector<uint8_t> pcm(q.ns * 4 + 16), f(2048, 0);
    int b = fmt_bytes(q.fmt);
    rd(m, q.size);
    int32_t ret;
    if (q.enc) {
        rd(pcm.data(), q.ns * b);
        if (q.disable) lc3_encoder_disable_ltpf((lc3_encoder_t)m);
        ret = lc3_encode((lc3_encoder_t)m, (enum lc3_pcm_format)q.fmt, pcm.data(), 1, q.nbytes, f.data());
    } else {
        if (!q.lost) rd(f.data(), q.nbytes);
        ret = lc3_decode((lc3_decoder_t)m, q.lost ? 0 : f.data(), q.nbytes, (enum lc3_pcm_format)q.fmt, pcm.data(), 1);
    }
    wr(&ret, 4); wr(m, q.size);
    if (q.enc) wr(f.data(), q.nbytes); else wr(pcm.data(), q.ns * b);
    return 0;
}

static bool remote(Ctx &x, const RemoteReq &q, uint8_t *ctx, const void *in, size_t nin, std::vector<uint8_t> &out, int &ret)
{
    int a[2], b[2];
    if (pipe(a) || pipe(b)) x.broken("pipe");
    pid_t p = fork();
    if (p < 0) x.broken("fork");
    if (!p) {
        dup2(a[0], 0); dup2(b[1], 1);
        for (int i = 3; i < 64; i++) close(i);
        char self[512]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 8);
        if (n < 0) _exit(99);
        strcpy(self + n, "-alt");
        char *av[] = { self, (char *)"remote", 0 }, *ev[] = { (char *)"LC3SIM_CHILD=1", 0 };
        execve(self, av, ev); _exit(99);
    }
    close(a[0]); close(b[1]);
    bool ok = true;
    auto wr = [&](const void *d, size_t n) { const uint8_t *c = (const uint8_t *)d; while (n && ok) { ssize_t r = write(a[1], c, n); if (r <= 0) ok = false; else c += r, n -= r; } };
    auto rd = [&](void *d, size_t n) { uint8_t *c = (uint8_t *)d; while (n && ok) { ssize_t r = read(b[0], c, n); if (r <= 0) ok = false; else c += r, n -= r; } };
    signal(SIGPIPE, SIG_IGN);
    wr(&q, sizeof q); wr(ctx, q.size); if (nin) wr(in, nin);
    int32_t rr = -9; rd(&rr, 4); rd(ctx, q.size); rd(out.data(), out.size());
    close(a[1]); close(b[0]);
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) x.broken("no helper program");
    ret = rr;
    return ok && WIFEXITED(st) && !WEXITSTATUS(st);
}

static Scn gen_c09(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C09"; s.seed = seed;
    Cfg c = pick_cfg(r, .25, .25);
    NetOpt o = pick_net(r, r.range(8, tier ? 80 : 40));
    o.fmtsw = .05; o.bypass = r.chance(.3) ? .05 : 0;
    gen_net(s, r, c, o);
    std::vector<Op> ops;
    double pm = r.chance(.5) ? .3 : .08, pc = r.chance(.5) ? .1 : 0, pp = r.chance(.25) ? .06 : 0, pk = r.chance(.5) ? .1 : 0;
    for (auto &op : s.ops) {
        if (r.chance(pm)) ops.push_back({ "move", { r.below(2), r.below(16) } });
        if (r.chance(pc)) ops.push_back({ "clone", { r.below(2), r.range(1, 6), (int64_t)(r.u64() >> 20) } });
        if (r.chance(pk)) ops.push_back({ "crash", { r.below(2), r.range(1, 5), (int64_t)(r.u64() >> 20) } });
        if (r.chance(pp)) ops.push_back({ "proc", {} });
        ops.push_back(op);
    }
    s.ops = ops;
    return s;
}

static void exec_c09(const Scn &s, Ctx &x)
{
    Net net(s, x); Cfg c = net.c;
    const size_t es = c.enc_size(), ds = c.dec_size();
    Enc E(c, SG_SILENCE, 1); Dec D(c);      // never moved
    // two places for each; the live one alternates, the other is wiped
    std::unique_ptr<Guard> me[2], md[2]; int le = 0, ld = 0;
    for (int i = 0; i < 2; i++) { me[i].reset(new Guard(es + 256)); md[i].reset(new Guard(ds + 256)); }
    uint8_t *pe = me[0]->get(es, 0x71, 8), *pd = md[0]->get(ds, 0x17, 8);
    c.new_enc(pe);
    c.new_dec(pd);
    Signal sig(s.get("sig"), s.get("sigseed"), c.pcm_hz());
    int fmt = s.get("fmt"), ns = c.ns(), moves = 0, proc = 0;
    Guard pcm(ns * 4), out(ns * 4 + 1024), in(2048);
    std::vector<uint8_t> fa, fb;
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "move") {
            size_t off = (o.arg(1) & 15) * 8;
            uint8_t *&p = o.arg(0) ? pe : pd; int &l = o.arg(0) ? le : ld; size_t n = o.arg(0) ? es : ds;
            Guard &g = o.arg(0) ? *me[!l] : *md[!l], &old = o.arg(0) ? *me[l] : *md[l];
            uint8_t *q = g.get(n, 0x99, 8, off);
            memcpy(q, p, n); old.get(n, 0xdb, 8);      // the old place is wiped
            p = q; l = !l; moves++; x.fault("context-moved"); continue;
        }
        if (o.k == "clone" || o.k == "crash") {
            // clone: a copy goes its own way.  crash: the original goes on for
            // a while, dies, and the stream is resumed from the checkpoint.
            bool enc = o.arg(0), crash = o.k == "crash"; size_t n = enc ? es : ds;
            uint8_t *p = enc ? pe : pd;
            std::vector<uint64_t> cp(n / 8 + 2); uint8_t *q = (uint8_t *)cp.data();
            memcpy(q, p, n);
            uint8_t *run = crash ? p : q;
            Rng r(o.arg(2));
            std::vector<uint8_t> buf(ns * 4), f(c.nbmax());
            Signal sg(r.below(SG_ALL), r.u64(), c.pcm_hz());
            for (int64_t k = 0; k < o.arg(1); k++) {
                int nb = usual_bytes(r, c);
                if (enc) {
                    for (int j = 0; j < ns; j++) put_pcm(0, &buf[j * 2], sg.next());
                    lc3_encode((lc3_encoder_t)run, LC3_PCM_FORMAT_S16, buf.data(), 1, nb, f.data());
                    if (r.chance(.2)) lc3_encoder_disable_ltpf((lc3_encoder_t)run);
                } else {
                    ref::Forge w; w.mag = 10; ref::forge([&](int64_t m) { return r.below(m); }, c.dt, c.sr, nb, w, f.data());
                    lc3_decode((lc3_decoder_t)run, r.chance(.2) ? 0 : f.data(), nb, LC3_PCM_FORMAT_S16, buf.data(), 1);
                }
            }
            if (crash) memcpy(p, q, n);
            moves++; x.fault(crash ? "crash-resume" : "copy-diverges"); continue;
        }
        if (o.k == "proc") { proc = 1; continue; }
        if (o.k == "sig") { sig = Signal(o.arg(0), o.arg(1), c.pcm_hz()); continue; }
        if (o.k == "renc") { E.restart(); c.new_enc(pe); continue; }
        if (o.k == "rdec") { D.restart(); c.new_dec(pd); continue; }
        if (o.k == "byp") { lc3_encoder_disable_ltpf(E.e); lc3_encoder_disable_ltpf((lc3_encoder_t)pe); continue; }
        if (o.k == "fmt") { fmt = o.arg(0); continue; }
        int b = fmt_bytes(fmt), al = b == 3 ? 1 : b;
        if (o.k == "enc") {
            int nb = o.arg(1); if (nb < c.nbmin() || nb > c.nbmax()) continue;
            uint8_t *p = pcm.get(ns * b, 0, al);
            for (int k = 0; k < ns; k++) put_pcm(fmt, p + k * b, sig.next());
            uint8_t *q = out.get(nb, 1);
            lc3_encode(E.e, (enum lc3_pcm_format)fmt, p, 1, nb, q); fa.assign(q, q + nb);
            if (proc) {
                proc = 0; fb.assign(nb, 0); int r;
                RemoteReq rq = { 1, 1, (uint32_t)es, (uint32_t)fmt, (uint32_t)nb, (uint32_t)ns, 0, 0 };
                if (!remote(x, rq, pe, p, ns * b, fb, r)) x.fail("encoder-elsewhere", "encoding from the copied context fails in another process");
                x.fault("other-process");
                if (fa != fb) x.fail("encoder-elsewhere", "frame encoded in another process differs");
            } else {
                q = out.get(nb, 2);
                lc3_encode((lc3_encoder_t)pe, (enum lc3_pcm_format)fmt, p, 1, nb, q); fb.assign(q, q + nb);
            }
            if (fa != fb) x.fail("encoder", "frame %d differs after %d moves", (int)o.arg(0), moves);
            net.sent[o.arg(0)] = fa; x.ev(fa.data(), nb); x.time(c.us());
            if (moves) x.nontrivial();
            continue;
        }
        Payload p; if (!net.transport(o, p)) continue;
        if (p.frame && ((int)p.d.size() < 20 || (int)p.d.size() > c.nbmax())) continue;
        D.fmt = fmt;
        int ra = p.frame ? D.decode(p.d.data(), p.d.size()) : D.decode(0, p.lost_n), rb;
        if (proc) {
            proc = 0; fb.assign(ns * b, 0);
            RemoteReq rq = { 1, 0, (uint32_t)ds, (uint32_t)fmt, (uint32_t)(p.frame ? p.d.size() : p.lost_n), (uint32_t)ns, !p.frame, 0 };
            if (!remote(x, rq, pd, p.d.data(), p.frame ? p.d.size() : 0, fb, rb)) x.fail("decoder-elsewhere", "decoding from the copied context fails in another process");
            x.fault("other-process");
            if (ra != rb || fb != D.pcm) x.fail("decoder-elsewhere", "samples decoded in another process differ");
        } else {
            uint8_t *q = out.get(ns * b, 3, al), *f = 0;
            if (p.frame) { f = in.get(p.d.size()); memcpy(f, p.d.data(), p.d.size()); }
            rb = lc3_decode((lc3_decoder_t)pd, f, p.frame ? p.d.size() : p.lost_n, (enum lc3_pcm_format)fmt, q, 1);
            fb.assign(q, q + ns * b);
        }
        if (ra != rb || fb != D.pcm) x.fail("decoder", "output differs after %d moves (ret %d %d)", moves, ra, rb);
        x.ev(fb.data(), fb.size()); x.ev(ra);
        if (moves) x.nontrivial();
        ref::Frame fr; if (p.frame) { ref::parse(p.d.data(), p.d.size(), c.dt, c.sr, fr); x.sig(mix(mix(c.dt * 8 + c.sr, fr.shape_sig()), ra)); }
    }
}
static Register r09({ "C09", gen_c09, exec_c09, 20 });

// --- C12 ---------------------------------------------------------------------

static Scn gen_c12(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C12"; s.seed = seed;
    Cfg c = pick_cfg(r, .25, .25);
    NetOpt o = pick_net(r, r.range(8, tier ? 80 : 40));
    o.fmtsw = .3; o.bypass = r.chance(.2) ? .05 : 0;
    gen_net(s, r, c, o);
    for (auto &op : s.ops) if (op.k == "fmt") op.a.push_back(r.below(4));
    return s;
}

static void exec_c12(const Scn &s, Ctx &x)
{
    Net net(s, x); Cfg c = net.c; int ns = c.ns();
    // one encoder per format, one that switches; 24 bit audio on two more
    Enc *E[5], *W[3]; Dec *D[5];
    for (int i = 0; i < 5; i++) { E[i] = new Enc(c, 0, 0); D[i] = new Dec(c, i & 3); }
    for (int i = 0; i < 3; i++) W[i] = new Enc(c, 0, 0);
    Signal sig(s.get("sig"), s.get("sigseed"), c.pcm_hz());
    int fe = s.get("fmt"), fd = s.get("fmt");
    Guard pcm(ns * 16), out(1024);
    auto run = [&](Enc &e, int fmt, const std::vector<double> &v, int nb, int stride) {
        int b = fmt_bytes(fmt); uint8_t *p = pcm.get(((ns - 1) * stride + 1) * b, 0x7e, b == 3 ? 1 : b);
        for (int k = 0; k < ns; k++) put_pcm(fmt, p + k * b * stride, v[k]);
        // the unused byte of 24 bit samples in 32 bit words is the sign
        uint8_t *q = out.get(nb, fmt);
        if (lc3_encode(e.e, (enum lc3_pcm_format)fmt, p, stride, nb, q)) x.fail("refused", "encode of %s refused", fmt_name[fmt]);
        return std::vector<uint8_t>(q, q + nb);
    };
    Rng r(s.seed);
    std::vector<double> v(ns), v24(ns);
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "sig") { sig = Signal(o.arg(0), o.arg(1), c.pcm_hz()); continue; }
        if (o.k == "renc") { for (auto e : E) e->restart(); for (auto e : W) e->restart(); x.fault("sender-restart"); continue; }
        if (o.k == "rdec") { for (auto d : D) d->restart(); x.fault("receiver-restart"); continue; }
        if (o.k == "byp") { for (auto e : E) lc3_encoder_disable_ltpf(e->e); for (auto e : W) lc3_encoder_disable_ltpf(e->e); continue; }
        if (o.k == "fmt") { fd = o.arg(0) & 3; fe = o.arg(1) & 3; x.fault("format-switch"); continue; }
        if (o.k == "enc") {
            int nb = o.arg(1); if (nb < c.nbmin() || nb > c.nbmax()) continue;
            for (int k = 0; k < ns; k++) {
                double z = sig.next();
                v[k] = std::max(-32768., std::min(32767., floor(z * 32768 + .5))) / 32768;
                v24[k] = std::max(-8388608., std::min(8388607., floor(z * 8388608 + .5))) / 8388608;
            }
            std::vector<uint8_t> f[5];
            for (int k = 0; k < 5; k++) {
                f[k] = run(*E[k], k < 4 ? k : fe, v, nb, 1 + (k == 4 ? r.below(3) : 0));
                if (f[k] != f[0]) x.fail("encode", "frame of the same audio as %s differs from s16", k < 4 ? fmt_name[k] : "switched formats");
            }
            auto a = run(*W[0], 1, v24, nb, 1), b = run(*W[1], 2, v24, nb, 1), w = run(*W[2], 1 + (fe & 1), v24, nb, 1);
            if (a != b || a != w) x.fail("encode-24", "24 bit audio packed in 3 or 4 bytes gives different frames");
            net.sent[o.arg(0)] = i & 1 ? a : f[0]; x.time(c.us()); x.ev(a.data(), nb); x.ev(f[0].data(), nb);
            x.nontrivial();
            continue;
        }
        Payload p; if (!net.transport(o, p)) continue;
        if (p.frame && ((int)p.d.size() < 20 || (int)p.d.size() > c.nbmax())) continue;
        int ret[5];
        D[4]->fmt = fd;
        for (int k = 0; k < 5; k++) {
            ret[k] = p.frame ? D[k]->decode(p.d.data(), p.d.size()) : D[k]->decode(0, p.lost_n);
            if (ret[k] != ret[0]) x.fail("decode", "%s returned %d, s16 %d", fmt_name[D[k]->fmt], ret[k], ret[0]);
        }
        if (D[4]->pcm != D[fd]->pcm) x.fail("decode-switch", "output in %s differs when the format was switched", fmt_name[fd]);
        for (int k = 0; k < ns; k++) {
            double q[4];
            for (int j = 0; j < 4; j++) q[j] = D[j]->sample(k);
            if (q[1] != q[2]) x.fail("decode", "sample %d is %g in s24, %g in s24_3le", k, q[1], q[2]);
            if (fabs(q[0] - q[1]) > .5 / 32768 + .51 / 8388608 && !(q[0] >= 32767. / 32768 && q[1] >= 32766. / 32768))
                x.fail("decode", "sample %d is %.9g in s16, %.9g in s24", k, q[0], q[1]);
            if (fabs(q[3] - q[1]) > .75 / 8388608 + 1e-7 * fabs(q[3]) && !(q[1] >= 8388606. / 8388608 && q[3] > q[1]))
                x.fail("decode", "sample %d is %.9g in float, %.9g in s24", k, q[3], q[1]);
        }
        x.ev(D[3]->pcm.data(), D[3]->pcm.size()); x.nontrivial();
        ref::Frame fr; if (p.frame) { ref::parse(p.d.data(), p.d.size(), c.dt, c.sr, fr); x.sig(mix(mix(c.dt * 8 + c.sr, fr.shape_sig()), fd * 4 + fe)); }
    }
}
static Register r12({ "C12", gen_c12, exec_c12, 20 });

// --- C13 ---------------------------------------------------------------------

static Scn gen_c13(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C13"; s.seed = seed;
    Cfg c = pick_cfg(r, .2, .2);
    put_cfg(s, c);
    int n = r.chance(.7) ? r.range(2, 4) : r.range(1, 10);
    s.cfg["ch"] = n; s.cfg["fmt"] = r.below(4); s.cfg["sigseed"] = r.u64() >> 20;
    // lanes of the block, more than the channels in use
    s.cfg["wide"] = r.chance(.88) ? n : r.chance(.7) ? n + r.range(1, 120) : n + r.range(1, 500);
    double loss = r.chance(.6) ? r.unit() * .3 : 0, cor = r.chance(.6) ? r.unit() * .3 : 0, sw = r.chance(.3) ? .1 : 0,
        re = r.chance(.3) ? .03 : 0, byp = r.chance(.2) ? .05 : 0;
    int frames = r.range(5, tier ? 60 : 25), nb = usual_bytes(r, c);
    for (int t = 0; t < frames; t++) {
        if (r.chance(.1)) nb = pick_bytes(r, c);
        if (r.chance(sw)) s.add("fmt", { r.below(4) });
        // the channels of the block in any order, sizes of their own
        std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i);
        for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
        for (int ch : ord) {
            if (r.chance(re)) s.add("renc", { ch });
            if (r.chance(byp)) s.add("byp", { ch });
            s.add("enc", { ch, r.chance(.8) ? nb : pick_bytes(r, c) });
        }
        for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
        for (int ch : ord) {
            if (r.chance(re)) s.add("rdec", { ch });
            if (r.chance(loss)) s.add("lost", { ch });
            else if (r.chance(cor)) s.add("cor", { ch, r.below(8000), r.range(1, 60) });
            else s.add("dlv", { ch });
        }
    }
    return s;
}

static void exec_c13(const Scn &s, Ctx &x)
{
    Cfg c = get_cfg(s); int n = std::max<int64_t>(1, std::min<int64_t>(16, s.get("ch"))), ns = c.ns(), fmt = s.get("fmt");
    int w = std::max<int64_t>(n, std::min<int64_t>(1024, s.get("wide")));
    if (w > n) x.fault("wide-block");
    struct Ch { Enc *e, *se; Dec *d, *sd; Signal *sig; std::vector<uint8_t> f; };
    std::vector<Ch> ch(n);
    for (int i = 0; i < n; i++) {
        Rng r(mix(s.get("sigseed"), i));
        ch[i] = { new Enc(c, 0, 0), new Enc(c, 0, 0), new Dec(c, 0), new Dec(c, 0), new Signal(r.below(SG_ALL), r.u64(), c.pcm_hz()), {} };
    }
    Guard pcm((size_t)ns * w * 4 + 64), out(1024), one(ns * 4);
    uint64_t z = s.seed;
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "fmt") { fmt = o.arg(0); continue; }
        int k = o.arg(0); if (k < 0 || k >= n) continue;
        Ch &h = ch[k];
        int b = fmt_bytes(fmt), al = b == 3 ? 1 : b;
        size_t len = (size_t)ns * w * b; int l = k * w / n;
        if (o.k == "renc") { h.e->restart(); h.se->restart(); x.fault("channel-restart"); }
        else if (o.k == "rdec") { h.d->restart(); h.sd->restart(); x.fault("channel-restart"); }
        else if (o.k == "byp") { lc3_encoder_disable_ltpf(h.e->e); lc3_encoder_disable_ltpf(h.se->e); }
        else if (o.k == "enc") {
            int nb = o.arg(1); if (nb < c.nbmin() || nb > c.nbmax()) continue;
            // whole block full of other channels' (changing) audio
            uint8_t *p = pcm.get(len, 0, al), *q = one.get(ns * b, 0, al);
            uint64_t zz = splitmix(z);
            for (size_t j = 0; j < len; j++) p[j] = zz >> (j % 8 * 7) ^ j * 37;
            if (fmt == 3) for (int j = 0; j < ns * w; j++) put_pcm(3, p + j * 4, ((zz >> (j % 40)) & 0xff) / 256. - .5);
            for (int j = 0; j < ns; j++) { put_pcm(fmt, q + j * b, h.sig->next()); memcpy(p + ((size_t)j * w + l) * b, q + j * b, b); }
            std::vector<uint8_t> keep(p, p + len);
            uint8_t *f = out.get(nb, 1);
            int r1 = lc3_encode(h.e->e, (enum lc3_pcm_format)fmt, p + l * b, w, nb, f);
            h.f.assign(f, f + nb);
            if (memcmp(p, keep.data(), len) || !pcm.intact() || !out.intact()) x.fail("encode-writes", "encoding channel %d changed samples", k);
            f = out.get(nb, 2);
            int r2 = lc3_encode(h.se->e, (enum lc3_pcm_format)fmt, q, 1, nb, f);
            if (r1 || r2) x.fail("refused", "encode refused");
            if (memcmp(f, h.f.data(), nb)) x.fail("encode", "frame of channel %d of %d differs from a solo run (%s)", k, n, fmt_name[fmt]);
            x.ev(f, nb); if (k == 0) x.time(c.us());
        }
        else if (o.k == "dlv" || o.k == "lost" || o.k == "cor") {
            if (h.f.empty()) continue;
            std::vector<uint8_t> f = h.f;
            if (o.k == "cor") { Rng r(o.arg(1)); for (int64_t j = 0; j < o.arg(2); j++) f[r.below(f.size())] ^= 1 << r.below(8); x.fault("channel-damaged"); }
            bool lost = o.k == "lost"; if (lost) x.fault("channel-lost");
            uint8_t fill = splitmix(z);
            uint8_t *p = pcm.get(len, fill, al), *q;
            for (size_t j = 0; j < len; j++) p[j] = fill ^ (j * 29);
            uint8_t *g = out.get(f.size(), 0); memcpy(g, f.data(), f.size());
            int r1 = lc3_decode(h.d->d, lost ? 0 : g, f.size(), (enum lc3_pcm_format)fmt, p + l * b, w);
            q = one.get(ns * b, 0, al);
            int r2 = lc3_decode(h.sd->d, lost ? 0 : g, f.size(), (enum lc3_pcm_format)fmt, q, 1);
            if (r1 != r2) x.fail("decode", "channel %d returned %d, solo %d", k, r1, r2);
            if (!pcm.intact()) x.fail("decode-writes", "decoding channel %d wrote around the block", k);
            for (size_t j = 0; j < len; j++) {
                size_t smp = j / b; bool own = (int)(smp % w) == l;
                if (own ? p[j] != q[smp / w * b + j % b] : p[j] != (uint8_t)(fill ^ (j * 29)))
                    x.fail(own ? "decode" : "decode-writes", own ? "sample %zu of channel %d of %d differs from a solo run" :
                           "sample %zu was written while decoding channel %d of %d", own ? smp / w : smp, k, n);
            }
            x.ev(q, ns * b); x.ev(r1); if (n > 1) x.nontrivial();
            ref::Frame fr; ref::parse(f.data(), f.size(), c.dt, c.sr, fr); x.sig(mix(mix(c.dt * 8 + c.sr, fr.shape_sig()), n * 64 + fmt * 4 + r1));
        }
    }
}
static Register r13({ "C13", gen_c13, exec_c13, 30 });
