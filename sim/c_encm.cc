// C26: the encoder against the executable model of the encoder.
#include "net.h"
#include "refenc.h"
#include <cmath>

using namespace sim;

static Scn gen_c26(uint64_t seed, int tier)
{
    Rng r(seed ^ 1026); Scn s; s.check = "C26"; s.seed = seed;
    Cfg c = pick_cfg(r, .25, .25);
    put_cfg(s, c);
    auto kind = [&] { return (int64_t)(r.chance(.25) ? r.below(SG_NUM) : r.chance(.4) ? SG_BAND + r.below(SG_ALL - SG_BAND)
                                       : r.pick(std::vector<int>{ SG_PITCH, SG_VOICE, SG_GLIDE, SG_TRAIN, SG_ATTACK, SG_BREATH, SG_MIX })); };
    s.cfg["sig"] = kind(); s.cfg["sigseed"] = r.u64() >> 20;
    s.cfg["fmt"] = r.below(4);
    int frames = r.range(10, tier ? 150 : 60), rate = r.below(5);
    int nb = r.chance(.7) ? usual_bytes(r, c) : pick_bytes(r, c);
    double psig = r.chance(.7) ? .06 : 0, pfmt = r.chance(.4) ? .1 : 0, prenc = r.chance(.3) ? .03 : 0,
           pbyp = r.chance(.15) ? .05 : 0, pbad = r.chance(.3) ? .1 : 0, pmove = r.chance(.3) ? .1 : 0, poth = r.chance(.3) ? .2 : 0;
    for (int t = 0; t < frames; t++) {
        if (r.chance(psig)) s.add("sig", { kind(), (int64_t)(r.u64() >> 20) });
        if (r.chance(pfmt)) s.add("fmt", { r.below(4) });
        if (r.chance(prenc)) s.add("renc");
        if (r.chance(pbyp)) s.add("byp");
        if (r.chance(pbad)) s.add("bad", { r.chance(.5) ? r.range(-5, c.nbmin() - 1) : c.nbmax() + r.range(1, 400) });
        if (r.chance(pmove)) s.add("move", { (int64_t)(r.u64() & 255) });
        if (r.chance(poth)) s.add("other", { (int64_t)(r.u64() >> 30) });
        if (rate == 1 && r.chance(.2)) nb = usual_bytes(r, c);
        if (rate == 2) nb = pick_bytes(r, c);
        if (rate == 3) nb = r.chance(.5) ? c.nbmin() : c.nbmax();
        if (rate == 4 && r.chance(.1)) nb = r.range(c.nbmin(), std::min(c.nbmax(), c.nbmin() + 30));
        s.add("enc", { t, nb });
    }
    return s;
}

static void exec_c26(const Scn &s, Ctx &x)
{
    Cfg c = get_cfg(s); const int N = c.ns();
    Guard ma(c.enc_size()), mb(c.enc_size()), pcm(N * 4 + 64), out(c.nbmax());
    Guard *cur = &ma, *alt = &mb;
    lc3_encoder_t e = c.new_enc(cur->get(c.enc_size(), s.seed, 8));
    ref::EncModel M(c.dt, c.sr, c.srp);
    Signal sig(s.get("sig"), s.get("sigseed"), c.pcm_hz());
    int fmt = s.get("fmt"), n = 0;
    std::vector<double> xs(N); std::vector<int16_t> xt(N);
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "sig") { sig = Signal(o.arg(0), o.arg(1), c.pcm_hz()); x.fault("signal-switch"); }
        else if (o.k == "fmt") { fmt = o.arg(0); x.fault("format-switch"); }
        else if (o.k == "byp") { lc3_encoder_disable_ltpf(e); M.bypass = true; x.fault("ltpf-disable"); }
        else if (o.k == "renc") {
            e = c.new_enc(cur->get(c.enc_size(), s.seed + i, 8));
            M.restart(); x.fault("sender-restart");
        }
        else if (o.k == "move") {
            void *p = alt->get(c.enc_size(), o.arg(0), 8);
            memcpy(p, e, c.enc_size()); memset((void *)e, 0xee, c.enc_size());
            std::swap(cur, alt); e = (lc3_encoder_t)p; x.fault("context-moved");
        }
        else if (o.k == "bad") {
            uint8_t *p = pcm.get(N * fmt_bytes(fmt), 0x77, 4), *q = out.get(c.nbmax());
            if (o.arg(0) >= c.nbmin() && o.arg(0) <= c.nbmax()) continue;
            if (!lc3_encode(e, (enum lc3_pcm_format)fmt, p, 1, o.arg(0), q)) x.fail("accepted", "a frame of %d bytes was accepted", (int)o.arg(0));
            x.fault("refused-call");
        }
        else if (o.k == "other") {
            Rng r(o.arg(0)); Cfg d = pick_cfg(r);
            Enc E(d, r.below(SG_ALL), o.arg(0)); E.frame(usual_bytes(r, d)); x.fault("other-stream");
        }
        if (o.k != "enc") continue;
        int nb = o.arg(1); if (nb < c.nbmin() || nb > c.nbmax()) continue;
        int b = fmt_bytes(fmt);
        uint8_t *p = pcm.get(N * b, 0x5a, b == 3 ? 1 : b);
        for (int k = 0; k < N; k++) {
            put_pcm(fmt, p + k * b, sig.next());
            double v = get_pcm(fmt, p + k * b) * 32768;
            xs[k] = v;
            xt[k] = fmt == LC3_PCM_FORMAT_FLOAT ? (int16_t)std::max(-32768., std::min(32767., trunc(v))) : (int16_t)floor(v);
        }
        uint8_t *q = out.get(nb);
        if (lc3_encode(e, (enum lc3_pcm_format)fmt, p, 1, nb, q)) x.fail("refused", "encode of %d bytes returned an error", nb);
        ref::Frame f;
        if (!ref::parse(q, nb, c.dt, c.sr, f)) x.fail("undecodable", "model refuses the frame: %s", f.why);
        M.st = {};
        std::string cls, why;
        if (!M.frame(xs, xt, nb, f, cls, why)) x.fail(cls.c_str(), "frame %d of %d bytes: %s", n, nb, why.c_str());
        auto &t = M.st;
        if (t.checked && !(t.sns | t.tnsu | t.rate | t.values)) x.count("frames-decided");
        if (t.checked) { x.count("frames-followed"); x.nontrivial(); }
        if (t.sns) x.count("undecided-shaping");
        if (t.tnsu) x.count("undecided-tns");
        if (t.rate) x.count("undecided-gain");
        if (t.values) x.count("undecided-values");
        x.count("frames");
        if (t.att) x.probe("attack");
        if (t.nn) x.probe("near-nyquist");
        if (t.pitch) x.probe("pitch");
        if (t.active) x.probe("pitch-filter");
        if (t.adj_up) x.probe("gain-raised");
        if (t.adj_down) x.probe("gain-lowered");
        if (t.reset) x.probe("gain-floor");
        if (t.trunc) x.probe("truncated");
        if (t.lsb) x.probe("lsb-mode");
        if (t.tns) x.probe("tns");
        if (t.bwcut) x.probe("bandwidth-cut");
        x.sig(mix(c.dt * 8 + c.sr, mix(f.shape_sig(), t.att * 8 + t.nn * 4 + t.adj_up * 2 + t.adj_down)));
        x.ev(q, nb); x.time(c.us()); n++;
    }
}
static Register r26({ "C26", gen_c26, exec_c26, 40 });
