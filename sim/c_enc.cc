// Encoder checks: C10 exact frames, C11 end to end fidelity, C17 LTPF disable.
#include "net.h"
#include "refenc.h"
#include <cmath>

using namespace sim;

// A sender whose every call is surrounded by different garbage
struct RawEnc {
    Cfg c; Guard mem, pcm, out; lc3_encoder_t e = 0; uint64_t g;
    RawEnc(const Cfg &c, uint64_t g, int stride = 4) : c(c), mem(c.enc_size()), pcm(c.ns() * 4 * std::max(4, stride) + 64), out(c.nbmax()), g(g) { restart(); }
    void restart()
    { e = c.new_enc(mem.get(c.enc_size(), splitmix(g), 8)); }
    int frame(Ctx &x, const double *v, int fmt, int stride, int nb, std::vector<uint8_t> &f)
    {
        int b = fmt_bytes(fmt), ns = c.ns();
        size_t len = ((size_t)(ns - 1) * stride + 1) * b;
        uint8_t *p = pcm.get(len, splitmix(g), b == 3 ? 1 : b);
        for (int i = 0; i < ns; i++) put_pcm(fmt, p + (size_t)i * stride * b, v[i]);
        std::vector<uint8_t> keep(p, p + len);
        uint8_t *o = out.get(nb, splitmix(g));
        scribble_stack(splitmix(g));
        int r = lc3_encode(e, (enum lc3_pcm_format)fmt, p, stride, nb, o);
        if (!out.intact() || !mem.intact() || !pcm.intact()) x.fail("stray-write", "bytes around a buffer were written");
        if (memcmp(p, keep.data(), len)) x.fail("input-written", "the input samples were changed");
        f.assign(o, o + nb);
        return r;
    }
};

// --- C10 ---------------------------------------------------------------------

static Scn gen_enc(const char *id, uint64_t seed, int frames, double p_renc, double p_byp, double p_up)
{
    Rng r(seed); Scn s; s.check = id; s.seed = seed;
    Cfg c = pick_cfg(r, p_up, .25);
    put_cfg(s, c);
    s.cfg["sig"] = r.below(SG_ALL); s.cfg["sigseed"] = r.u64() >> 20;
    s.cfg["fmt"] = r.below(4); s.cfg["stride"] = r.chance(.6) ? 1 : r.chance(.1) ? r.range(5, 200) : r.range(2, 4);
    int rate = r.below(4), nb = r.chance(.6) ? usual_bytes(r, c) : pick_bytes(r, c);
    double psig = r.chance(.7) ? .08 : 0, pfmt = r.chance(.5) ? .1 : 0;
    if (!r.chance(.5)) p_renc = 0;
    if (!r.chance(.6)) p_byp = 0;
    for (int t = 0; t < frames; t++) {
        if (r.chance(psig)) s.add("sig", { r.below(SG_ALL), (int64_t)(r.u64() >> 20) });
        if (r.chance(pfmt)) s.add("fmt", { r.below(4) });
        if (r.chance(p_renc)) s.add("renc");
        if (r.chance(p_byp)) s.add("byp");
        if (rate == 1 && r.chance(.2)) nb = usual_bytes(r, c);
        if (rate == 2) nb = pick_bytes(r, c);
        if (rate == 3) nb = r.chance(.5) ? c.nbmin() : c.nbmax();
        s.add("enc", { t, nb });
    }
    return s;
}

static Scn gen_c10(uint64_t seed, int tier)
{ Rng r(seed ^ 77); return gen_enc("C10", seed, r.range(8, tier ? 120 : 50), .05, .03, .3); }

static void exec_c10(const Scn &s, Ctx &x)
{
    Cfg c = get_cfg(s);
    RawEnc A(c, s.seed, s.get("stride")), B(c, ~s.seed, s.get("stride"));
    Dec D(c, LC3_PCM_FORMAT_S16);
    Signal sig(s.get("sig"), s.get("sigseed"), c.pcm_hz());
    int fmt = s.get("fmt"), stride = std::max<int64_t>(1, s.get("stride"));
    std::vector<double> v(c.ns());
    std::vector<uint8_t> fa, fb, w;
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "sig") { sig = Signal(o.arg(0), o.arg(1), c.pcm_hz()); x.fault("signal-switch"); }
        else if (o.k == "fmt") { fmt = o.arg(0); }
        else if (o.k == "renc") { A.restart(); B.restart(); x.fault("sender-restart"); }
        else if (o.k == "byp") { lc3_encoder_disable_ltpf(A.e); lc3_encoder_disable_ltpf(B.e); x.fault("ltpf-disable"); }
        if (o.k != "enc") continue;
        int nb = o.arg(1); if (nb < c.nbmin() || nb > c.nbmax()) continue;
        for (auto &q : v) q = sig.next();
        int ra = A.frame(x, v.data(), fmt, stride, nb, fa), rb = B.frame(x, v.data(), fmt, stride, nb, fb);
        if (ra || rb) x.fail("refused", "encode of %d bytes returned %d / %d", nb, ra, rb);
        for (int k = 0; k < nb; k++)
            if (fa[k] != fb[k]) x.fail("undetermined", "byte %d of %d depends on memory outside the stream", k, nb);
        int rd = D.decode(fa.data(), nb);
        if (rd) x.fail("undecodable", "decoder returned %d for an encoded frame of %d bytes", rd, nb);
        ref::Frame f;
        if (!ref::parse(fa.data(), nb, c.dt, c.sr, f)) x.fail("undecodable", "model refuses a frame of %d bytes: %s", nb, f.why);
        w.assign(nb, 0);
        if (!ref::serialise(f.toks, c.dt, nb, 0, w.data())) x.fail("not-canonical", "content does not fit %d bytes", nb);
        for (int k = 0; k < nb; k++)
            if (w[k] != fa[k]) x.fail("not-canonical", "byte %d of %d is %02x, canonical %02x", k, nb, fa[k], w[k]);
        x.sig(mix(c.dt * 8 + c.sr, f.shape_sig()));
        x.ev(fa.data(), nb); x.time(c.us()); x.count("frames"); x.nontrivial();
        if (f.ltpf_active) x.probe("ltpf-active");
        if (f.lsb_mode) x.probe("lsb-mode");
        if (f.bits_left < 4) x.probe("budget-exhausted");
    }
}
static Register r10({ "C10", gen_c10, exec_c10, 20 });

// --- C11 ---------------------------------------------------------------------

static Scn gen_c11(uint64_t seed, int tier)
{
    Rng r(seed ^ 78);
    Scn s = gen_enc("C11", seed, r.range(12, tier ? 90 : 45), .03, .02, .3);
    s.cfg["stride"] = 1;
    s.cfg["dfmt"] = r.below(4);
    // outages of the receiver
    if (r.chance(.5)) {
        std::vector<Op> ops; int out = 0;
        for (auto &o : s.ops) {
            ops.push_back(o);
            if (o.k != "enc") continue;
            if (!out && r.chance(.06)) out = r.range(1, 6);
            ops.push_back({ out ? "lost" : "dlv", { o.arg(0) } });
            if (out) out--;
        }
        s.ops = ops;
    } else {
        std::vector<Op> ops;
        for (auto &o : s.ops) { ops.push_back(o); if (o.k == "enc") ops.push_back({ "dlv", { o.arg(0) } }); }
        s.ops = ops;
    }
    return s;
}

static void exec_c11(const Scn &s, Ctx &x)
{
    Cfg c = get_cfg(s); const int N = c.ns(), D = ref::nd(c.dt, c.srp), NE = ref::ne(c.dt, c.sr);
    RawEnc A(c, s.seed);
    Dec d(c, s.get("dfmt"));
    ref::Decoder M(c.dt, c.sr, c.srp), P(c.dt, c.sr, c.srp);
    ref::EncModel EM(c.dt, c.sr, c.srp);
    std::vector<double> mo, xs(N); std::vector<int16_t> xt(N);
    Signal sig(s.get("sig"), s.get("sigseed"), c.pcm_hz());
    int fmt = s.get("fmt");
    // Everything since the encoder was set up, 16 bit scale, D zeros first
    std::vector<double> in(D, 0.), v(N);
    std::vector<uint8_t> f;
    const int delay = lc3_hr_delay_samples(c.hr(), c.us(), c.pcm_hz());
    if (delay != ref::delay(c.dt, c.srp)) x.fail("delay", "documented delay %d, expected %d", delay, ref::delay(c.dt, c.srp));
    struct Fr { double err, sig; bool lt; };
    std::vector<Fr> hist;
    bool have = false; int outages = 0;
    double hold = 0;       // loudest recent content: its rounding errors linger
    double H = 0;          // loudness the pitch filter may still remember
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "sig") { sig = Signal(o.arg(0), o.arg(1), c.pcm_hz()); x.fault("signal-switch"); }
        else if (o.k == "fmt") { fmt = o.arg(0); }
        else if (o.k == "byp") { lc3_encoder_disable_ltpf(A.e); EM.bypass = true; x.fault("ltpf-disable"); }
        else if (o.k == "renc") {
            A.restart(); EM.restart(); in.assign(D, 0.); have = false; hist.clear(); P = ref::Decoder(c.dt, c.sr, c.srp); x.fault("sender-restart");
        }
        else if (o.k == "lost") {
            if (!have) continue;
            have = false; d.decode(0, 0); M.decode(0, 0, mo); hold = std::max(hold * .7, M.peak); hist.clear(); outages++; x.fault("loss");
        }
        else if (o.k == "enc") {
            int nb = o.arg(1); if (nb < c.nbmin() || nb > c.nbmax()) continue;
            if (have) { hist.clear(); outages++; d.decode(0, 0); M.decode(0, 0, mo); hold = std::max(hold * .7, M.peak); }
            for (auto &q : v) q = sig.next();
            if (A.frame(x, v.data(), fmt, 1, nb, f)) x.fail("refused", "encode returned an error");
            for (int k = 0; k < N; k++) {
                uint8_t b[4]; put_pcm(fmt, b, v[k]); in.push_back(xs[k] = get_pcm(fmt, b) * 32768);
                xt[k] = fmt == LC3_PCM_FORMAT_FLOAT ? (int16_t)std::max(-32768., std::min(32767., trunc(xs[k]))) : (int16_t)floor(xs[k]);
            }
            have = true; x.time(c.us());
            // What the quantiser was given, against what it sent
            ref::Frame fr;
            if (!ref::parse(f.data(), nb, c.dt, c.sr, fr)) x.fail("undecodable", "model refuses the frame: %s", fr.why);
            std::vector<double> X;
            ref::mdct(c.dt, c.srp, c.sr, &in[in.size() - N - D], X);
            double g = ref::shape_lines(c.dt, c.sr, nb, fr, X), mx = 0;
            for (int k = 0; k < NE; k++) mx = std::max(mx, fabs(X[k]));
            // rounding of the transform, relative to all the content (coded or not)
            std::vector<double> gains;
            ref::line_gains(c.dt, c.sr, fr, gains);
            double mf = 0, ig = 0;
            for (size_t k = in.size() - N - D; k < in.size(); k++) mf += in[k] * in[k];
            mf = sqrt(mf);
            for (double q : gains) ig = std::max(ig, 1 / q);
            double rnd = 3e-4 * mx / g + 1e-7 * mf * ig / g;
            double tol = (fr.lsb_mode ? 1.75 : .75) + rnd;
            int over = 0; double ov = 0;
            for (int k = 0; k < NE; k++) {
                double q = X[k] / g, e = fabs(q - (k < fr.nq ? fr.x[k] : 0));
                if (k < fr.nq) {
                    if (!(e <= tol)) x.fail("line", "line %d of frame is %g, sent as %g (tolerance %g, step %g)", k, q, fr.x[k], tol, g);
                } else if (fabs(q) > 1.02 + rnd) { over++; ov = std::max(ov, fabs(q)); }
            }
            // The step, the shape of the noise, and what is kept are those the
            // budget allows by the algorithm
            std::string cls, why;
            EM.st = {};
            if (!EM.frame(xs, xt, nb, fr, cls, why)) x.fail("wasted", "frame of %d bytes: %s: %s", nb, cls.c_str(), why.c_str());
            // Nothing audible is dropped, and no coarser step is used, while
            // much of the budget remains
            if (over && fr.bits_left > 100)
                x.fail("dropped", "%d lines up to %g steps dropped with %d bits left of %d", over, ov, fr.bits_left, nb * 8);
            if (!c.hr() && fr.g_idx > 0 && mx / g < 14000 && mx > .01 && fr.bits_left > 60 + 4 * nb)
                x.fail("unspent", "%d bits left of %d, step %g, largest line %g steps", fr.bits_left, nb * 8, g, mx / g);
            x.sig(mix(c.dt * 8 + c.sr, fr.shape_sig()));
        }
        else if (o.k == "dlv") {
            if (!have) continue;
            have = false;
            if (d.decode(f.data(), f.size())) x.fail("undecodable", "decoder refused an intact frame");
            ref::Frame fr; M.decode(f.data(), f.size(), mo, &fr);
            // what was sent is what is heard
            hold = std::max(hold * .7, M.peak);
            double q16 = d.fmt == LC3_PCM_FORMAT_S16 ? 1. : d.fmt == LC3_PCM_FORMAT_FLOAT ? 0 : 1. / 256;
            double tol = 2e-4 * hold + .02 + .52 * q16, hi = d.fmt == LC3_PCM_FORMAT_FLOAT ? 32768 : 32768 - q16;
            for (int k = 0; k < N; k++) {
                double m = std::max(-32768., std::min(hi, mo[k])), z = d.sample(k) * 32768;
                if (!(fabs(z - m) <= tol)) x.fail("unheard", "sample %d is %g, the frames give %g (tolerance %g)", k, z, m, tol);
            }
            // what a perfect quantiser would give
            std::vector<double> X, y;
            ref::mdct(c.dt, c.srp, c.sr, &in[in.size() - N - D], X);
            Fr q = { 0, 0, fr.ltpf_active };
            for (int k = 0; k < NE; k++) {
                double e = X[k] - M.xg[k];
                q.err += e * e; q.sig += X[k] * X[k];
            }
            ref::imdct(c.dt, c.srp, c.sr, X.data(), std::min(NE, N), P.mem, y);
            hist.push_back(q);
            H = std::max(H * .9, q.sig + q.err);
            x.nontrivial();
            if (hist.size() < 3) continue;
            auto &h1 = hist[hist.size() - 1], &h2 = hist[hist.size() - 2], &h3 = hist[hist.size() - 3];
            double E = h1.err + h2.err, S = h1.sig + h2.sig + h3.sig, e = 0, yy = 0;
            for (int k = 0; k < N; k++) {
                double w = std::max(-32768., std::min(32768., y[k])), z = d.sample(k) * 32768;
                e += (z - w) * (z - w); yy += w * w;
            }
            bool lt = h1.lt || h2.lt;
            double gain = (double)N / ref::ns(c.dt, c.sr);
            // The overlap-add of the two blocks at hand is all there is, unless
            // the pitch filter (a comb of unity mean gain) is at work
            double bound = 3 * gain * E + N * .6 + 1e-9 * yy;
            if (lt) {
                bound += 1.5 * gain * S + 1.5 * gain * H;
                x.probe("fidelity-ltpf");
            } else x.probe("fidelity");
            if (hist.size() == 3 && outages) x.probe("fidelity-after-outage");
            if (!(e <= bound))
                x.fail("fidelity", "frame error energy %g, bound %g (signal %g, pitch filter %d)", e, bound, yy, lt);
        }
        x.ev(f.data(), f.size());
    }
}
static Register r11({ "C11", gen_c11, exec_c11, 40 });

// --- C17 ---------------------------------------------------------------------

static Scn gen_c17(uint64_t seed, int tier)
{
    Rng r(seed ^ 79);
    Scn s = gen_enc("C17", seed, r.range(15, tier ? 120 : 50), .06, .06, .2);
    Cfg c = get_cfg(s);
    if (!r.chance(.2)) { s.cfg["sig"] = r.chance(.5) ? SG_PITCH : SG_VOICE; for (auto &o : s.ops) { if (o.k == "sig" && r.chance(.7)) o.a[0] = SG_VOICE; if (o.k == "enc" && r.chance(.9)) o.a[1] = usual_bytes(r, c); } }
    bool any = false; for (auto &o : s.ops) any |= o.k == "byp";
    if (!any) s.ops.insert(s.ops.begin() + r.below(s.ops.size()), Op{ "byp", {} });
    return s;
}

static void exec_c17(const Scn &s, Ctx &x)
{
    Cfg c = get_cfg(s); int N = c.ns();
    // A: as told; B: disabled again before every frame; F: never disabled;
    // G: set up anew and never disabled (what a restart must look like);
    // P: disabled from its start when A is
    RawEnc A(c, s.seed), B(c, s.seed ^ 5), F(c, s.seed ^ 9), F2(c, s.seed ^ 11);
    Dec d(c, LC3_PCM_FORMAT_S16);
    Signal sig(s.get("sig"), s.get("sigseed"), c.pcm_hz());
    int fmt = s.get("fmt"); bool off = false, fresh = true; int n = 0;
    std::vector<double> v(N); std::vector<uint8_t> fa, fb, ff, f2;
    uint64_t z = s.seed;
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "sig") sig = Signal(o.arg(0), o.arg(1), c.pcm_hz());
        else if (o.k == "fmt") fmt = o.arg(0);
        else if (o.k == "renc") { A.restart(); B.restart(); F.restart(); F2.restart(); off = false; fresh = true; x.fault("sender-restart"); }
        else if (o.k == "byp") {
            lc3_encoder_disable_ltpf(A.e); lc3_encoder_disable_ltpf(B.e);
            x.fault(off ? "ltpf-disable-again" : fresh ? "ltpf-disable-first" : "ltpf-disable-midstream");
            off = true;
        }
        if (o.k != "enc") continue;
        int nb = o.arg(1); if (nb < c.nbmin() || nb > c.nbmax()) continue;
        for (auto &q : v) q = sig.next();
        if (off) for (int k = splitmix(z) % 3; k > 0; k--) lc3_encoder_disable_ltpf(B.e);
        int ra = A.frame(x, v.data(), fmt, 1, nb, fa), rb = B.frame(x, v.data(), fmt, 1, nb, fb),
            rf = F.frame(x, v.data(), fmt, 1, nb, ff), r2 = F2.frame(x, v.data(), fmt, 1, nb, f2);
        if (ra || rb || rf || r2) x.fail("refused", "encode of %d bytes refused", nb);
        if (fa != fb) x.fail("repeat", "disabling again changed frame %d", n);
        if (ff != f2) x.fail("other-stream", "frame %d of an encoder never disabled depends on another one", n);
        ref::Frame p, q;
        if (!ref::parse(fa.data(), nb, c.dt, c.sr, p)) x.fail("undecodable", "model refuses the frame: %s", p.why);
        if (!ref::parse(ff.data(), nb, c.dt, c.sr, q)) x.fail("undecodable", "model refuses the frame: %s", q.why);
        if (d.decode(fa.data(), nb)) x.fail("undecodable", "decoder refuses the frame");
        if (off && p.ltpf_active) x.fail("still-active", "frame %d carries an active pitch filter after it was disabled", n);
        if (!off && fa != ff) x.fail("early", "frame %d differs though the filter is not disabled", n);
        if (off && q.ltpf_active) { x.probe("suppressed"); x.nontrivial(); }
        if (!off && q.ltpf_active) x.probe("active");
        x.sig(mix(mix(c.dt * 8 + c.sr, off * 4 + q.ltpf_active * 2 + q.pitch), mix(q.pitch_idx >> 3, nb >> 3)));
        x.ev(fa.data(), nb); x.time(c.us()); n++; fresh = false;
    }
}
static Register r17({ "C17", gen_c17, exec_c17, 20 });
