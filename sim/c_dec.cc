// Decoder checks: C01 survival, C02 damage = loss, C03 refused calls,
// C04 re-synchronisation, C05 concealment, C16 refinement of the model.
#include "net.h"
#include <limits.h>
#include <cmath>

using namespace sim;

static void note_frame(Ctx &x, const Cfg &c, const Payload &p, int ret)
{
    ref::Frame f;
    bool ok = ref::parse(p.d.data(), p.d.size(), c.dt, c.sr, f);
    x.sig(mix(mix(c.dt * 8 + c.sr, ok ? f.shape_sig() : fnv(f.why, strlen(f.why))), ret));
    if (!ok) { char b[40]; snprintf(b, sizeof b, "refused:%s", f.why); x.probe(b); }
    else if (f.ltpf_active) x.probe("ltpf-active");
}

// --- C01 ---------------------------------------------------------------------

static Scn gen_c01(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C01"; s.seed = seed;
    Cfg c = pick_cfg(r, .25, .25);
    NetOpt o = pick_net(r, r.range(10, tier ? 120 : 60));
    o.fmtsw = .1; o.badcall = .1;
    if (r.chance(.3)) { o.forge = .7; o.junk = .15; }
    s.cfg["stride"] = r.chance(.05) ? r.range(5, 200) : r.range(1, 4);
    gen_net(s, r, c, o);
    return s;
}

static void exec_c01(const Scn &s, Ctx &x)
{
    Net net(s, x);
    Cfg c = net.c;
    int stride = s.get("stride"), fmt = s.get("fmt"), ns = c.ns();
    Guard mem(c.dec_size()), in(2048), out(ns * 4 * std::max(4, stride) + 64);
    uint8_t *m = mem.get(c.dec_size(), 0xa5, 8);
    lc3_decoder_t d = c.new_dec(m);
    if (!d) x.fail("setup", "setup of a supported configuration refused");
    std::vector<uint8_t> save(c.dec_size()), after(c.dec_size());
    uint64_t rs = s.seed;
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (net.sender(o)) continue;
        if (o.k == "rdec") { x.fault("receiver-restart"); d = c.new_dec(m); continue; }
        if (o.k == "fmt") { fmt = o.arg(0); continue; }
        Payload p; int b = fmt_bytes(fmt), n;
        bool loss = false, oob = false; size_t have;
        if (o.k == "bad") {
            static const int sz[] = { 0, 19, 0, -1, INT_MAX, INT_MIN };
            n = o.arg(0) == 2 ? c.nbmax() + 1 + o.arg(1) % 3000 : o.arg(0) == 1 ? 1 + o.arg(1) % 19 : sz[o.arg(0)];
            p.d.assign(1, 0x55); have = 1; oob = true;
            x.fault("bad-size-call");
        } else {
            if (!net.transport(o, p)) continue;
            loss = !p.frame; n = loss ? p.lost_n : p.d.size(); have = p.d.size();
            oob = !loss && (n < 20 || n > c.nbmax());
        }
        uint8_t *f = nullptr;
        if (!loss) { f = in.get(have); memcpy(f, p.d.data(), have); }
        size_t len = ((size_t)(ns - 1) * stride + 1) * b;
        memcpy(save.data(), m, save.size());
        uint8_t first[2] = { 0, 0 }; (void)first;
        std::vector<uint8_t> ref;
        int ret = 0;
        for (int pass = 0; pass < 2; pass++) {
            uint8_t fill = pass ? 0x5a : 0xa5;
            uint8_t *q = out.get(len, fill, b == 3 ? 1 : b);
            if (pass) memcpy(m, save.data(), save.size());
            scribble_stack(splitmix(rs));
            int rr = lc3_decode(d, f, n, (enum lc3_pcm_format)fmt, q, stride);
            if (rr != 0 && rr != 1 && rr != -1) x.fail("return", "decode returned %d", rr);
            if (!loss && memcmp(f, p.d.data(), have)) x.fail("input-written", "decode changed its input");
            if (!out.intact() || !mem.intact() || (!loss && !in.intact()))
                x.fail("stray-write", "bytes around a buffer were written");
            if (oob && rr != -1) x.fail("oob-accepted", "size %d accepted (ret %d)", n, rr);
            if (!oob && rr == -1) x.fail("refused", "size %d refused", n);
            if (loss && rr != 1) x.fail("loss", "missing frame returned %d", rr);
            if (pass && rr != ret) x.fail("unrepeatable", "same call returned %d then %d", ret, rr);
            ret = rr;
            for (size_t k = 0; k < len; k++) {
                bool sample = k / b % stride == 0;
                if ((!sample || rr < 0) && q[k] != fill)
                    x.fail("gap-written", "byte %zu between samples written (ret %d)", k, rr);
            }
            if (!pass) { ref.assign(q, q + len); memcpy(after.data(), m, after.size()); }
            else if (rr >= 0)
                for (size_t k = 0; k < len; k++)
                    if (k / b % stride == 0 && q[k] != ref[k])
                        x.fail("sample-unwritten", "byte %zu of the output depends on its previous content", k);
        }
        if (p.frame && !oob) note_frame(x, c, p, ret);
        x.ev(ref.data(), ref.size()); x.ev(ret + 5);
        x.count(ret == 0 ? "decoded" : ret == 1 ? "concealed" : "refused-call");
        if (ret != 0) x.nontrivial();
        x.say("%s n=%d fmt=%d ret=%d", o.k.c_str(), n, fmt, ret);
    }
}
static Register r01({ "C01", gen_c01, exec_c01, 20 });

// --- C02 ---------------------------------------------------------------------

static Scn gen_c02(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C02"; s.seed = seed;
    Cfg c = pick_cfg(r, .2, .2);
    NetOpt o = pick_net(r, r.range(15, tier ? 120 : 60));
    o.corrupt = std::max(o.corrupt, .15); o.fmtsw = .03;
    gen_net(s, r, c, o);
    // damage that shows late in a frame: a few bytes missing, or a few bits
    for (auto &op : s.ops)
        if (op.k == "cor" && op.arg(1) == 3 && r.chance(.6)) op.a[2] = -r.range(1, 6);
    return s;
}

static void exec_c02(const Scn &s, Ctx &x)
{
    Net net(s, x);
    Cfg c = net.c; int fmt = s.get("fmt");
    Dec A(c, fmt, 0x11), B(c, fmt, 0xee);
    uint64_t rs = s.seed; int refused = 0, since = 0;
    for (size_t i = 0; i < s.ops.size(); i++) {
        Op o = s.ops[i]; x.step(i);
        if (net.sender(o)) continue;
        if (o.k == "rdec") { x.fault("receiver-restart"); A.restart(0x22); B.restart(0xcc); continue; }
        if (o.k == "fmt") { A.fmt = B.fmt = o.arg(0); continue; }
        if (o.k == "cor" && o.arg(1) == 3 && o.arg(2) < 0) {
            auto it = net.sent.find(o.arg(0));
            if (it != net.sent.end()) o.a[2] = (int64_t)it->second.size() + o.arg(2);
        }
        Payload p; if (!net.transport(o, p)) continue;
        scribble_stack(splitmix(rs));
        int ra = p.frame ? A.decode(p.d.data(), p.d.size()) : A.decode(0, p.lost_n);
        if (ra == -1) { x.count("refused-call"); continue; }
        if (!p.frame && ra != 1) x.fail("loss-not-reported", "missing frame returned %d", ra);
        scribble_stack(splitmix(rs));
        int rb = ra == 1 ? B.decode(0, splitmix(rs) % 700) : B.decode(p.d.data(), p.d.size());
        if (rb != ra) x.fail("return", "returns differ: %d with the frame, %d for the twin", ra, rb);
        for (size_t k = 0; k < A.pcm.size(); k++)
            if (A.pcm[k] != B.pcm[k])
                x.fail(ra == 1 ? "concealment-differs" : "later-frame-differs",
                       "sample %zu differs from the twin that lost the frame (%d refused so far)", k / fmt_bytes(A.fmt), refused);
        if (ra == 1 && p.frame) { refused++; since = 0; x.count("refused-frame"); }
        if (ra == 0 && refused && ++since == 1) x.nontrivial();
        if (p.frame) note_frame(x, c, p, ra);
        x.ev(A.pcm.data(), A.pcm.size()); x.ev(ra);
        x.say("%s ret=%d", o.k.c_str(), ra);
    }
}
static Register r02({ "C02", gen_c02, exec_c02, 20 });

// --- C03 ---------------------------------------------------------------------

static Scn gen_c03(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C03"; s.seed = seed;
    Cfg c = pick_cfg(r, .25, .25);
    NetOpt o = pick_net(r, r.range(10, tier ? 100 : 40));
    o.badcall = .3; o.fmtsw = .05; o.rate = r.below(3);
    gen_net(s, r, c, o);
    // refused calls on the sender's side
    std::vector<Op> ops;
    for (auto &op : s.ops) {
        if (op.k == "enc" && r.chance(.3)) ops.push_back({ "ebad", { r.below(8), r.below(1 << 20) } });
        if (r.chance(.02)) ops.push_back({ "setup", { r.below(6), r.below(1 << 20) } });
        ops.push_back(op);
    }
    s.ops = ops;
    return s;
}

static int bad_size(const Cfg &c, bool enc, int kind, int64_t arg)
{
    // below the lowest size any configuration of this kind can use; between
    // that and the documented minimum the outcome is not specified
    int lo = enc ? (c.hr() ? c.nbmin() / 2 - 1 : c.nbmin()) : 20;
    switch (kind) {
    case 0: return 0;
    case 1: return arg % std::max(1, lo);
    case 2: return lo - 1;
    case 3: return c.nbmax() + 1;
    case 4: return c.nbmax() + 1 + arg % 5000;
    case 5: return -1 - arg;
    case 6: return INT_MAX;
    default: return INT_MIN;
    }
}

static void bad_setup(Ctx &x, int kind, int64_t arg)
{
    Guard g(40000); uint8_t *m = g.get(32768, 0x3c, 8);
    Rng r(arg);
    static const int hzs[] = { 8000, 16000, 24000, 32000, 48000, 96000 };
    bool hr = r.chance(.4); int us, sr, srp; void *mem = m;
    for (;;) {
        us = std::vector<int>{ 2500, 5000, 7500, 10000 }[r.below(4)];
        sr = hzs[r.below(6)]; srp = hzs[r.below(6)];
        auto okhz = [&](int h) { return hr ? h == 48000 || h == 96000 : h <= 48000; };
        switch (kind) {
        case 0: mem = nullptr; srp = sr; if (!okhz(sr) || (hr && us == 7500)) continue; break;
        case 1: us = std::vector<int>{ 0, 1000, 2499, 6000, 20000, -10000, 9999, INT_MAX }[r.below(8)]; break;
        case 2: sr = std::vector<int>{ 1, 7999, 11025, 22050, 44100, 192000, 48001, 12000 }[r.below(8)]; break;
        case 3: srp = std::vector<int>{ 1, 11025, 44100, 192000, 47999 }[r.below(5)]; break;
        case 4: if (okhz(sr) && okhz(srp) && sr > srp) break; else continue;
        default: if (hr ? (us == 7500 || !okhz(sr) || !okhz(srp)) : (sr == 96000 || srp == 96000)) break; else continue;
        }
        break;
    }
    if (lc3_hr_setup_encoder(hr, us, sr, srp, mem) || lc3_hr_setup_decoder(hr, us, sr, srp, mem)
        || (!hr && (lc3_setup_encoder(us, sr, srp, mem) || lc3_setup_decoder(us, sr, srp, mem))))
        x.fail("setup-accepted", "unsupported setup accepted: hr=%d dt=%d sr=%d pcm=%d mem=%d", hr, us, sr, srp, !!mem);
    for (int i = 0; i < 32768; i++) if (m[i] != 0x3c) x.fail("setup-wrote", "refused setup wrote byte %d", i);
    if (!g.intact()) x.fail("setup-wrote", "refused setup wrote around the memory");
    x.fault("unsupported-setup");
}

static void exec_c03(const Scn &s, Ctx &x)
{
    Net net(s, x), twin(s, x);          // twin: no refused calls
    Cfg c = net.c; int fmt = s.get("fmt");
    Dec A(c, fmt), B(c, fmt);
    int refused = 0;
    Guard gi(c.ns() * 4 + 1024), go(c.ns() * 4 + 1024);
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "setup") { bad_setup(x, o.arg(0), o.arg(1)); continue; }
        if (o.k == "ebad" || o.k == "bad") {
            bool e = o.k == "ebad";
            int kind = std::max<int64_t>(0, o.arg(0)) % 8, n = bad_size(c, e, kind, std::max<int64_t>(0, o.arg(1)));
            bool null = o.arg(1) % 9 == 0;
            if (null) n = c.nbmax();
            // a full frame of audio and room for one: only the result is judged
            int no = e ? c.nbmax() : c.ns() * 4;
            uint8_t *in = gi.get(e ? c.ns() * 4 : c.nbmax(), 0x77, e ? 4 : 1), *out = go.get(no, 0xa5, e ? 1 : 4);
            int ret = e ? lc3_encode(null ? nullptr : net.enc->e, (enum lc3_pcm_format)(o.arg(1) & 3), in, 1, n, out)
                        : lc3_decode(null ? nullptr : A.d, in, n, (enum lc3_pcm_format)A.fmt, out, 1);
            if (ret != -1) x.fail("accepted", "%s call with size %d%s returned %d", e ? "encode" : "decode", n, null ? " and no context" : "", ret);
            for (int k = 0; k < no; k++) if (out[k] != 0xa5) x.fail("output-written", "refused call wrote its output");
            if (!go.intact() || !gi.intact()) x.fail("output-written", "refused call wrote around its buffers");
            x.fault(e ? "refused-encode" : "refused-decode"); refused++;
            continue;
        }
        if (o.k == "enc") {
            int nb = o.arg(1); if (nb < c.nbmin() || nb > c.nbmax()) continue;
            int r1, r2;
            auto f1 = net.enc->frame(nb, 0, &r1), f2 = twin.enc->frame(nb, 0, &r2);
            if (r1 || r2) x.fail("good-refused", "encode of %d bytes returned %d / %d", nb, r1, r2);
            if (f1 != f2) x.fail("encoder-disturbed", "frame %d differs after %d refused calls", (int)o.arg(0), refused);
            net.sent[o.arg(0)] = f1; x.time(c.us()); x.ev(f1.data(), f1.size());
            continue;
        }
        if (net.sender(o)) { twin.sender(o); continue; }
        if (o.k == "rdec") { x.fault("receiver-restart"); A.restart(); B.restart(); continue; }
        if (o.k == "fmt") { A.fmt = B.fmt = o.arg(0); continue; }
        Payload p; if (!net.transport(o, p)) continue;
        bool inr = !p.frame || ((int)p.d.size() >= 20 && (int)p.d.size() <= c.nbmax());
        int ra = p.frame ? A.decode(p.d.data(), p.d.size()) : A.decode(0, p.lost_n);
        if (!inr) {
            if (ra != -1) x.fail("accepted", "decode of %zu bytes returned %d", p.d.size(), ra);
            for (uint8_t v : A.pcm) if (v != 0xa5) x.fail("output-written", "refused call wrote its output");
            x.fault("refused-decode"); refused++;
            continue;
        }
        int rb = p.frame ? B.decode(p.d.data(), p.d.size()) : B.decode(0, p.lost_n);
        if (ra < 0 || rb < 0) x.fail("good-refused", "decode of %zu bytes returned %d", p.d.size(), ra);
        if (ra != rb || A.pcm != B.pcm)
            x.fail("decoder-disturbed", "output differs after %d refused calls (ret %d / %d)", refused, ra, rb);
        if (refused) x.nontrivial();
        if (p.frame) note_frame(x, c, p, ra);
        x.sig(mix(mix(refused > 20 ? 20 : refused, c.dt * 8 + c.sr), ra));
        x.ev(A.pcm.data(), A.pcm.size());
    }
}
static Register r03({ "C03", gen_c03, exec_c03, 20 });

// --- C04 ---------------------------------------------------------------------

static Scn gen_c04(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C04"; s.seed = seed;
    Cfg c = pick_cfg(r, .2, .15);
    int64_t ages = r.chance(.004) ? r.range(65400, 67000) : 0;      // beyond what counts in 16 bits
    if (ages) c = { 0, (int)r.below(2), 1 };
    int second = 1000000 / c.us();
    int chaos = r.range(3, tier ? 80 : 30);
    NetOpt o = pick_net(r, chaos);
    bool longtail = r.chance(tier ? .5 : .25);
    o.tail = longtail ? second + 20 : r.range(4, 14);
    o.frames = chaos + o.tail;
    o.partition = r.chance(.3) ? r.range(2, chaos) : 0;
    if (longtail) o.rate = r.below(2);
    else if (r.chance(.4)) { o.bypass = 1; }
    gen_net(s, r, c, o);
    if (ages || r.chance(.25)) {
        // nothing is sent for a while, the receiver goes on
        int64_t tail0 = -1; for (size_t i = 0; i < s.ops.size() && tail0 < 0; i++) if (s.ops[i].k == "enc" && s.ops[i].arg(0) >= chaos) tail0 = i;
        if (tail0 < 0) tail0 = s.ops.size();
        Op q{ "out", { ages ? ages : r.chance(.6) ? r.range(1, 120) : r.range(120, 1500), (int64_t)(r.u64() >> 30) } };
        s.ops.insert(s.ops.begin() + (r.chance(.5) ? tail0 : r.below(tail0 + 1)), q);
    }
    if (!longtail && r.chance(.5)) {
        // several bursts of trouble in one run
        Scn t; Rng q(r.u64());
        NetOpt o2 = pick_net(q, chaos); o2.tail = q.range(3, 8); o2.frames = chaos + o2.tail;
        gen_net(t, q, c, o2);
        for (auto op : t.ops) {
            if (op.k == "enc" || op.k == "dlv" || op.k == "cor") op.a[0] += 100000;
            if (op.k == "mix") { op.a[0] += 100000; op.a[1] += 100000; }
            s.ops.push_back(op);
        }
    }
    return s;
}

static void exec_c04(const Scn &s, Ctx &x)
{
    Net net(s, x);
    Cfg c = net.c; int fmt = s.get("fmt");
    Dec A(c, fmt, 0x11), R(c, fmt, 0xee);
    int last = -1, prev_dlv = -1, sync = 0, clean = 0, faults = 0;
    bool consumed = true; int rr = 0;
    int second = 1000000 / c.us();
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (net.sender(o)) {
            if (o.k == "enc" && net.sent.count(o.arg(0))) {
                if (!consumed) sync = clean = 0;
                last = o.arg(0); consumed = false;
                auto &f = net.sent[last];
                rr = R.decode(f.data(), f.size());
            }
            if (o.k == "renc") faults++;
            continue;
        }
        if (o.k == "rdec") { A.restart(); sync = clean = 0; faults++; x.fault("receiver-restart"); continue; }
        if (o.k == "fmt") { A.fmt = R.fmt = o.arg(0); continue; }
        if (o.k == "out") {
            uint64_t z = o.arg(1);
            for (int64_t k = std::min<int64_t>(o.arg(0), 70000); k > 0; k--) { A.decode(0, splitmix(z) % 500); x.time(c.us()); }
            sync = clean = 0; faults++; prev_dlv = -1; x.fault("outage"); if (o.arg(0) > 65000) x.probe("outage-of-ages");
            continue;
        }
        Payload p; if (!net.transport(o, p)) continue;
        int ra = p.frame ? A.decode(p.d.data(), p.d.size()) : A.decode(0, p.lost_n);
        x.ev(ra); x.ev(A.pcm.data(), A.pcm.size());
        bool match = p.intact && p.id == last && !consumed;
        consumed = consumed || match;
        if (!match) { sync = clean = 0; faults++; prev_dlv = -1; if (p.frame) note_frame(x, c, p, ra); continue; }
        (void)prev_dlv;
        ref::Frame f; ref::parse(p.d.data(), p.d.size(), c.dt, c.sr, f);
        sync++;
        clean = f.ltpf_active ? 0 : clean + 1;
        x.sig(mix(mix(f.shape_sig(), sync > 4 ? 4 : sync), mix(c.dt * 8 + c.sr, clean > 3 ? 3 : clean)));
        if (ra != rr) x.fail("return", "return %d for an intact frame, %d without faults", ra, rr);
        // `clean` frames in a row, all intact, none with an active pitch
        // filter.  At the third one nothing of the past can be left.
        if (clean >= 3 && clean == sync) {
            if (A.pcm != R.pcm) x.fail("no-resync", "still different at intact frame %d (no pitch filter)", sync);
            x.probe("resync-exact"); if (faults) x.nontrivial();
        } else if (sync > second) {
            double worst = 0;
            for (int k = 0; k < c.ns(); k++) {
                double v = fabs(A.sample(k) - R.sample(k));
                if (!(v <= worst)) worst = v;
            }
            if (!(worst <= 1.02 / 32768)) x.fail("no-resync", "difference %g one second after the last fault", worst);
            x.probe("resync-second"); if (faults) x.nontrivial();
        }
        x.say("intact %d sync %d clean %d ltpf %d", p.id, sync, clean, f.ltpf_active);
    }
}
static Register r04({ "C04", gen_c04, exec_c04, 30 });

// --- C05 ---------------------------------------------------------------------

static Scn gen_c05(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C05"; s.seed = seed;
    Cfg c = pick_cfg(r, .2, .25);
    bool ages = r.chance(.004);     // beyond what counts in 16 bits
    if (ages) c = { 0, (int)r.below(2), 1 };
    put_cfg(s, c);
    s.cfg["sig"] = r.below(SG_ALL); s.cfg["sigseed"] = r.u64() >> 20; s.cfg["fmt"] = r.below(4);
    int id = 0, rounds = r.range(1, 3);
    for (int k = 0; k < rounds; k++) {
        int nb = usual_bytes(r, c);
        bool byz = r.chance(.5);
        int good = r.range(1, 12);
        for (int i = 0; i < good; i++) {
            if (byz && r.chance(.5)) add_forge(s, r, c, nb, 0, (r.below(32)) | (r.chance(.5) ? 1024 : 0));
            else { s.add("enc", { id, nb }); s.add("dlv", { id++ }); }
            if (r.chance(.1)) s.add("sig", { r.below(SG_ALL), (int64_t)(r.u64() >> 20) });
        }
        int n = r.chance(.5) ? r.range(1, 40) : r.chance(.7) ? r.range(300, 800) : r.range(800, tier ? 6000 : 2200);
        if (ages && !k) n = r.range(65400, 67000);
        int chunk = std::max(1, n / 8);
        for (int i = 0; i < n; i += chunk) {
            s.add("out", { std::min(chunk, n - i), (int64_t)(r.u64() >> 30) });
            if (r.chance(.3)) s.add("fmt", { r.below(4) });
        }
    }
    return s;
}

static void exec_c05(const Scn &s, Ctx &x)
{
    Net net(s, x);
    Cfg c = net.c;
    Dec A(c, s.get("fmt"));
    ref::Decoder M(c.dt, c.sr, c.srp);
    std::vector<double> mo;
    int lost = 0; double ex = 0, lastpk = 0; std::vector<double> pks(12, 0); bool got = false;
    auto one = [&](const uint8_t *f, int n, uint64_t junk) {
        // the receiver
        int ra, rm = 1;
        std::vector<uint8_t> jb;
        if (!f && junk % 3 == 0) {       // damage instead of absence
            jb.assign(30, 0xff); ra = A.decode(jb.data(), 30); x.fault("damaged-frame");
        } else ra = A.decode(f, f ? n : junk % 500);
        if (f) { rm = M.decode(f, n, mo); if (rm != ra) x.fail("return", "returned %d, model %d", ra, rm); }
        else if (ra != 1) x.fail("return", "loss returned %d", ra);
        bool good = ra == 0;
        if (!f) { if (lost < 60) M.decode(0, 0, mo); else M.skip_lost(); }
        if (good) {
            lost = 0; got = true; ex = 0;
            for (double v : M.xg) ex += v * v;
            pks.erase(pks.begin()); pks.push_back(M.peak);
            lastpk = *std::max_element(pks.begin(), pks.end());
        } else lost++;
        // bound of the range and of the sign
        double e = 0, pk = 0;
        for (int k = 0; k < c.ns(); k++) {
            double v = A.sample(k);
            if (!(fabs(v) <= 1)) x.fail("range", "sample %d is %g", k, v);
            e += v * v * 32768. * 32768.; pk = std::max(pk, fabs(v));
            if (lost <= 60) {
                double m = mo[k] / 32768;
                double mt = 1e-3 * M.peak / 32768 + 1e-3;
                if (m > 1 + mt && v < .9999) x.fail("clip", "sample %d is %g, must clip at +1 (model %g)", k, v, m);
                if (m < -1 - mt && v > -.9999) x.fail("clip", "sample %d is %g, must clip at -1 (model %g)", k, v, m);
                if (fabs(m) > 1 + mt) x.count("clipped-samples");
            }
        }
        if (!good && got) {
            // A concealed frame is made of the last good spectrum, attenuated,
            // and of one overlap; the first frames also hold what was left by
            // the frames before
            double a = lost <= 8 ? 1 : pow(.93, lost - 8);
            double up = (double)ref::ns(c.dt, c.srp) / ref::ns(c.dt, c.sr);
            double bound = 8 * up * a * a * ex + c.ns();
            if (lost <= 3) bound += 8. * c.ns() * lastpk * lastpk;
            if (e > bound) x.fail("louder", "lost frame %d has energy %g, bound %g", lost, e, bound);
            if (getenv("SIM_MEASURE") && lost > 3) fprintf(stderr, "M %d %g\n", lost, e / (up * ex + 1e-9));
            if (lost > 300) {
                if (pk > (A.fmt == LC3_PCM_FORMAT_S16 ? 0 : 1.01 / 8388608.))
                    x.fail("not-silent", "lost frame %d has a sample of %g", lost, pk);
                if (lost == 301) { x.probe("silent-outage"); x.nontrivial(); }
                if (lost == 65536) x.probe("outage-of-ages");
            }
            if (lost == 4) x.nontrivial();
        }
        if (!got && !good)
            if (pk > 0) x.fail("not-silent", "sound before any frame was received (%g)", pk);
        x.ev(A.pcm.data(), A.pcm.size()); x.ev(ra);
        x.sig(mix(mix(c.dt * 8 + c.sr, A.fmt), mix(std::min(lost, 330), e > 0 ? ilogb(e) : -1)));
        if (!f) { x.fault("loss"); x.time(c.us()); }
        return ra;
    };
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (net.sender(o)) continue;
        if (o.k == "fmt") { A.fmt = o.arg(0); continue; }
        if (o.k == "out") {
            uint64_t z = o.arg(1);
            for (int64_t k = 0; k < o.arg(0); k++) one(0, 0, splitmix(z));
            x.say("outage, now %d lost", lost);
            continue;
        }
        Payload p; if (!net.transport(o, p)) continue;
        if (!p.frame) { one(0, 0, 1); continue; }
        int r = one(p.d.data(), p.d.size(), 0);
        x.say("%s ret %d", o.k.c_str(), r);
    }
}
static Register r05({ "C05", gen_c05, exec_c05, 60 });

// --- C16 ---------------------------------------------------------------------

static Scn gen_c16(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C16"; s.seed = seed;
    Cfg c = pick_cfg(r, .25, .2);
    NetOpt o;
    if (r.chance(.3)) { o.frames = r.range(20, 80); o.rate = r.below(3); o.renc = .03; o.sigsw = .06; }  // fault-free
    else o = pick_net(r, r.range(10, tier ? 120 : 50));
    o.fmtsw = .03; o.bypass = r.chance(.1) ? .05 : 0;
    gen_net(s, r, c, o);
    if (r.chance(.5))
        for (auto &op : s.ops) if (op.k == "forge") op.a[3] |= 1024;
    bool ages = c.dt == 0 && c.sr < 2 && c.srp < 2 && r.chance(.1);      // beyond what counts in 16 bits
    if (ages || r.chance(.3)) {
        // outages longer than any history of the decoder, often ended by a voiced frame
        for (int n = r.range(1, 2); n; n--) {
            std::vector<Op> w; w.push_back({ "out", { ages && n == 1 ? r.range(65400, 67000) : r.chance(.8) ? r.range(20, 150) : r.range(150, tier ? 1500 : 400) } });
            if (r.chance(.6)) {
                Scn t; for (int k = r.range(1, 3); k; k--) add_forge(t, r, c, 0, r.range(4, 8), 4 | 1024);
                w.insert(r.chance(.5) ? w.end() : w.begin(), t.ops.begin(), t.ops.end());
                if (r.chance(.5)) w.insert(w.end(), t.ops.begin(), t.ops.end());
            }
            s.ops.insert(s.ops.begin() + r.below(s.ops.size() + 1), w.begin(), w.end());
        }
    }
    return s;
}

static void exec_c16(const Scn &s, Ctx &x)
{
    Net net(s, x);
    Cfg c = net.c;
    Dec A(c, s.get("fmt"));
    ref::Decoder M(c.dt, c.sr, c.srp);
    std::vector<double> mo;
    double hold = 0, holdf = 0;       // loudest recent content: its rounding errors linger
    int64_t outage = 0;
    for (size_t i = 0; i < s.ops.size(); i += !outage) {
        const Op &o = s.ops[i]; x.step(i);
        if (net.sender(o)) continue;
        if (o.k == "rdec") { A.restart(); M = ref::Decoder(c.dt, c.sr, c.srp); hold = holdf = 0; x.fault("receiver-restart"); continue; }
        if (o.k == "fmt") { A.fmt = o.arg(0); continue; }
        Payload p;
        if (o.k == "out") {         // so many frames lost in a row
            if (!outage) outage = std::max<int64_t>(1, std::min<int64_t>(o.arg(0), 70000)) + 1;
            outage--; x.time(c.us());
            if (!outage) continue;
            x.fault("outage-frames");
        } else if (!net.transport(o, p)) continue;
        if (p.frame && ((int)p.d.size() < 20 || (int)p.d.size() > c.nbmax())) continue;
        int ra = p.frame ? A.decode(p.d.data(), p.d.size()) : A.decode(0, p.lost_n);
        ref::Frame f;
        int rm = M.decode(p.frame ? p.d.data() : 0, p.d.size(), mo, &f);
        if (ra != rm) x.fail("accept", "frame of %zu bytes: library returned %d, model %d (%s)", p.d.size(), ra, rm, f.why);
        hold = std::max(hold * .7, M.peak);
        // hostile side information (steep TNS filters) amplifies rounding
        holdf = std::max(holdf * .7, !p.frame ? holdf * .999 : p.intact ? 0 : M.peak);
        double q = A.fmt == LC3_PCM_FORMAT_S16 ? 1. : A.fmt == LC3_PCM_FORMAT_FLOAT ? 0 : 1. / 256;
        double tol = 1e-4 * hold + 2e-3 * holdf + .01 + (q ? .51 * q + 1e-3 * q : 0), worst = 0; int wk = 0;
        for (int k = 0; k < c.ns(); k++) {
            double hi = A.fmt == LC3_PCM_FORMAT_S16 ? 32767 : A.fmt == LC3_PCM_FORMAT_FLOAT ? 32768 : 32768 - 1. / 256;
            double m = std::max(-32768., std::min(hi, mo[k])), v = A.sample(k) * 32768;
            double e = fabs(v - m);
            if (!(e <= worst)) { worst = e; wk = k; }
        }
        if (getenv("SIM_MEASURE")) {
            double sc = hold + 1;
            if (worst > .55 * q + 1e-5 * sc) fprintf(stderr, "M %s worst %g hold %g rel %g fmt %d peak %g\n", o.k.c_str(), worst, hold, worst / sc, A.fmt, M.peak);
            x.count(worst > .5 * tol ? "near-tol-.5" : worst > .1 * tol ? "near-tol-.1" : "far");
        }
        if (!(worst <= tol))
            x.fail("samples", "sample %d off by %g of 32768 (tolerance %g, ret %d)", wk, worst, tol, ra);
        if (p.frame) note_frame(x, c, p, ra);
        x.sig(mix(M.state_sig(), c.dt * 8 + c.sr));
        x.nontrivial();
        x.count(ra ? "concealed" : "decoded");
        x.ev(A.pcm.data(), A.pcm.size()); x.ev(ra);
        x.say("%s ret=%d worst=%g tol=%g", o.k.c_str(), ra, worst, tol);
    }
}
static Register r16({ "C16", gen_c16, exec_c16, 40 });
