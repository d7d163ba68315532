// C14: the C++ wrapper against one C codec per channel.
#include "net.h"
#include "lc3_cpp.h"
#include "alloc.h"
#include <new>
#include <memory>

using namespace sim;

static Scn gen_c14(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C14"; s.seed = seed;
    s.cfg["sigseed"] = r.u64() >> 20;
    int lives = r.range(1, 4);
    double loss = r.unit() * .4, cor = r.unit() * .3, refuse = r.chance(.3) ? .1 : 0, mem = r.chance(.5) ? .6 : 0, reset = r.chance(.5) ? .08 : 0;
    for (int l = 0; l < lives; l++) {
        Cfg c = pick_cfg(r, .25, .25); int n = r.chance(.8) ? r.range(1, 4) : r.range(1, 9);
        // dt sr srp channels explicit-pcm fault
        auto make = [&](const char *k) {
            int64_t bad = r.chance(.06) ? r.range(1, 4) : 0;
            s.add(k, { c.dt, c.sr, c.srp, n, r.below(2), r.chance(mem) ? r.range(1, n + 2) : 0, bad, r.chance(.5) });
        };
        make("newe"); make("newd");
        int frames = r.range(3, tier ? 40 : 14), block = 0;
        for (int t = 0; t < frames; t++) {
            if (r.chance(.05)) make("newe");
            if (r.chance(.05)) make("newd");
            if (r.chance(reset)) s.add("rese");
            if (r.chance(reset)) s.add("resd");
            if (r.chance(.04)) s.add("byp");
            if (r.chance(refuse)) s.add("format", { r.chance(.7) ? r.range(4, 8) : (int64_t)(int32_t)r.u64(), r.below(2) });
            if (!block || r.chance(.2)) block = (r.chance(.7) ? usual_bytes(r, c) : pick_bytes(r, c)) * n + r.below(n);
            // api: 0-2 typed overloads, 3-6 explicit formats
            int b = r.chance(refuse) ? r.range(0, 12) : block;
            s.add("enc", { r.below(7), b });
            if (r.chance(loss)) s.add("lost", { r.below(7), r.chance(.4) ? 0 : block });
            else if (r.chance(cor)) s.add("cor", { r.below(7), (int64_t)(r.u64() >> 20), r.below(1 << n) });
            else s.add("dec", { r.below(7) });
            if (r.chance(refuse)) s.add("short", { r.below(7), r.range(1, 12) });
        }
    }
    return s;
}

static const int api_fmt[] = { 0, 1, 3, 0, 1, 2, 3 };

static void exec_c14(const Scn &s, Ctx &x)
{
    std::unique_ptr<lc3::Encoder> E; std::unique_ptr<lc3::Decoder> D;
    struct Side { Cfg c; int n = 0; bool usable = false; } se, sd;
    std::vector<std::unique_ptr<Guard>> em, dm; std::vector<lc3_encoder_t> ce; std::vector<lc3_decoder_t> cd;
    std::vector<Signal> sig; std::vector<uint8_t> block; int blk_n = 0; Cfg blk_c = { 0, 0, 0 };
    Guard pcm(960 * 2 * 16 * 4), ref(960 * 2 * 16 * 4), out(12000), rout(12000), in(12000);
    uint64_t z = s.seed;
    long live0 = alloc::live();
    auto frame_sizes = [](int block, int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(block / n + (i < block % n)); return v; };
    auto leak = [&](const char *when) {
        long l = alloc::live() - live0; int want = (E ? 1 : 0) + (D ? 1 : 0);
        if (alloc::on() && !want && l) x.fail("leak", "%ld allocations are left %s", l, when);
    };
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &o = s.ops[i]; x.step(i);
        if (o.k == "newe" || o.k == "newd") {
            bool e = o.k == "newe"; Side &q = e ? se : sd;
            q.c = { (int)o.arg(0), (int)o.arg(1), (int)o.arg(2) }; q.n = std::max<int64_t>(1, std::min<int64_t>(o.arg(3), 16));
            int us = q.c.us(), hz = q.c.hz(), pz = q.c.srp == q.c.sr && !o.arg(4) ? 0 : q.c.pcm_hz(); bool hr = q.c.hr(), bad = o.arg(6);
            switch (o.arg(6)) { case 1: us = 7000; break; case 2: hz = 44100; pz = 0; break; case 3: if (q.c.sr == 0 || hr) hz = 11025, pz = 0; else pz = hz / 2 == 12000 || hz / 2 == 8000 || hz / 2 == 24000 || hz / 2 == 16000 ? hz / 2 : 4000; break; case 4: hz = 96000; pz = 0; hr = false; break; }
            q.usable = !bad; if (bad) x.fault("unsupported-configuration");
            alloc::watch(true, o.arg(5));
            bool thrown = false;
            // the arguments with their default value are left out, or not
            int na = !o.arg(7) || hr ? 5 : q.n > 1 ? 4 : pz ? 3 : 2;
            auto make = [&](auto &p) {
                typedef typename std::remove_reference<decltype(*p)>::type T; p.reset();
                p.reset(na == 5 ? new T(us, hz, pz, q.n, hr) : na == 4 ? new T(us, hz, pz, q.n) : na == 3 ? new T(us, hz, pz) : new T(us, hz));
            };
            if (na < 5) x.probe("default-arguments");
            try { if (e) make(E); else make(D); }
            catch (const std::bad_alloc &) { thrown = true; }
            bool failed = alloc::failed(); alloc::watch(false);
            if (failed) x.fault("allocation-failure");
            if (thrown) {
                if (!failed) x.fail("throw", "bad_alloc without a failed allocation");
                q.usable = false; q.n = 0; x.probe("constructor-throws"); leak("after a constructor threw"); x.nontrivial(); continue;
            }
            if (failed) q.usable = false, x.probe("partial-object");
            if (!bad) {
                Rng r(mix(s.get("sigseed"), i + 77)); int rate = r.chance(.1) ? 0 : r.chance(.1) ? 0x7fffffff : r.range(1000, 700000) * q.n, size = r.range(20, 625) * q.n;
                int a[4], b[4] = { lc3_hr_frame_samples(hr, us, q.c.pcm_hz()), lc3_hr_frame_block_bytes(hr, us, hz, q.n, rate), lc3_hr_resolve_bitrate(hr, us, hz, size), lc3_hr_delay_samples(hr, us, q.c.pcm_hz()) };
                if (e) a[0] = E->GetFrameSamples(), a[1] = E->GetFrameBytes(rate), a[2] = E->ResolveBitrate(size), a[3] = E->GetDelaySamples();
                else a[0] = D->GetFrameSamples(), a[1] = D->GetFrameBytes(rate), a[2] = D->ResolveBitrate(size), a[3] = D->GetDelaySamples();
                for (int k = 0; k < 4; k++) if (a[k] != b[k]) x.fail("query", "query %d gives %d, the library %d", k, a[k], b[k]);
            }
            if (e) {
                em.clear(); ce.clear(); sig.clear();
                for (int k = 0; k < q.n && !bad; k++) {
                    em.emplace_back(new Guard(q.c.enc_size()));
                    ce.push_back(lc3_hr_setup_encoder(hr, us, hz, q.c.pcm_hz(), em.back()->get(q.c.enc_size(), k, 8)));
                }
                Rng r(mix(s.get("sigseed"), i)); for (int k = 0; k < q.n; k++) sig.emplace_back(r.below(SG_ALL), r.u64(), q.c.pcm_hz());
            } else {
                dm.clear(); cd.clear();
                for (int k = 0; k < q.n && !bad; k++) {
                    dm.emplace_back(new Guard(q.c.dec_size()));
                    cd.push_back(lc3_hr_setup_decoder(hr, us, hz, q.c.pcm_hz(), dm.back()->get(q.c.dec_size(), k, 8)));
                }
            }
            continue;
        }
        if (o.k == "rese" && E) {
            alloc::watch(true); E->Reset(); alloc::watch(false); x.fault("reset");
            for (size_t k = 0; k < ce.size(); k++) lc3_hr_setup_encoder(se.c.hr(), se.c.us(), se.c.hz(), se.c.pcm_hz(), em[k]->cur);
            continue;
        }
        if (o.k == "resd" && D) {
            alloc::watch(true); D->Reset(); alloc::watch(false); x.fault("reset");
            for (size_t k = 0; k < cd.size(); k++) lc3_hr_setup_decoder(sd.c.hr(), sd.c.us(), sd.c.hz(), sd.c.pcm_hz(), dm[k]->cur);
            continue;
        }
        if (o.k == "byp" && E) { E->DisableLTPF(); for (auto e : ce) lc3_encoder_disable_ltpf(e); continue; }
        if (o.k == "format") {
            // a sample format that does not exist
            lc3::PcmFormat bad = (lc3::PcmFormat)(int)o.arg(0); if ((unsigned)(int)o.arg(0) < 4) continue;
            Side &q = o.arg(1) ? sd : se; if (o.arg(1) ? !D || !q.n : !E || !q.n) continue;
            size_t len = (size_t)q.n * q.c.ns() * 4, bs = 60 * q.n; uint8_t *p = pcm.get(len, 0x33, 8), *f = out.get(bs, 0x33);
            alloc::watch(true);
            int r = o.arg(1) ? D->Decode(f, bs, bad, p) : E->Encode(bad, p, bs, f);
            alloc::watch(false);
            if (r != -1) x.fail("refusal", "an unknown sample format gives %d", r);
            for (size_t k = 0; k < len; k++) if (p[k] != 0x33) x.fail("refusal", "a refused call wrote samples");
            for (size_t k = 0; k < bs; k++) if (f[k] != 0x33) x.fail("refusal", "a refused call wrote to the block");
            x.fault("unknown-format"); continue;
        }
        int api = ((int)o.arg(0) % 7 + 7) % 7, fmt = api_fmt[api], b = fmt_bytes(fmt), al = b == 3 ? 1 : b;
        if (o.k == "enc") {
            if (!E || !se.n) continue;
            int n = se.n, ns = se.c.ns(), bs = std::max<int64_t>(0, std::min<int64_t>(o.arg(1), 625 * n + n));
            size_t len = (size_t)n * ns * b;
            uint8_t *p = pcm.get(len, 0, al), *q = out.get(bs, 0x55);
            for (int k = 0; k < ns * n; k++) put_pcm(fmt, p + (size_t)k * b, sig[k % n].next());
            alloc::watch(true);
            int r = api == 0 ? E->Encode((const int16_t *)p, bs, q) : api == 1 ? E->Encode((const int32_t *)p, bs, q) : api == 2 ? E->Encode((const float *)p, bs, q)
                  : E->Encode((lc3::PcmFormat)fmt, p, bs, q);
            bool al_used = alloc::calls(); alloc::watch(false);
            if (al_used) x.fail("allocation", "Encode uses the allocator");
            if (!out.intact() || !pcm.intact()) x.fail("overflow", "Encode wrote outside its buffer");
            if (!se.usable) {
                if (r != -1) x.fail("unusable", "an object that could not be set up encodes (%d)", r);
                for (int k = 0; k < bs; k++) if (q[k] != 0x55) x.fail("unusable", "an object that could not be set up wrote output");
                x.probe("refused-unusable"); x.nontrivial(); continue;
            }
            uint8_t *w = rout.get(bs, 0x55), *wp = w; int rr = 0; auto fs = frame_sizes(bs, n); bool bad = false;
            for (int k = 0; k < n; k++) { rr |= lc3_encode(ce[k], (enum lc3_pcm_format)fmt, p + k * b, n, fs[k], wp); wp += fs[k]; bad |= fs[k] < se.c.nbmin(); }
            if (r != rr) x.fail("encode", "Encode returned %d, the C codecs %d", r, rr);
            if (memcmp(q, w, bs)) x.fail("encode", "block of %d bytes, %d channels (api %d) differs from the C codecs", bs, n, api);
            if (r) { x.fault("refused-call"); continue; }
            block.assign(q, q + bs); blk_n = n; blk_c = se.c; x.time(se.c.us()); x.ev(q, bs);
            continue;
        }
        if (o.k == "dec" || o.k == "lost" || o.k == "cor" || o.k == "short") {
            if (!D || !sd.n) continue;
            int n = sd.n, ns = sd.c.ns(); size_t len = (size_t)n * ns * b;
            std::vector<uint8_t> f; int bs; const uint8_t *ip = 0;
            if (o.k == "lost") { bs = std::max<int64_t>(0, std::min<int64_t>(o.arg(1), 625 * n)); x.fault(bs ? "loss-with-size" : "loss"); }
            else {
                if (block.empty() || blk_n != n || blk_c.dt != sd.c.dt || blk_c.sr != sd.c.sr) continue;
                f = block; bs = f.size();
                if (o.k == "short") { bs = std::min<int64_t>(o.arg(1), 19 * n); f.resize(bs); x.fault("refused-call"); }
                if (o.k == "cor") {
                    Rng r(o.arg(1)); auto fs = frame_sizes(bs, n); int at = 0;
                    for (int k = 0; k < n; k++) { if (o.arg(2) >> k & 1) for (int j = r.range(1, 20); j > 0 && fs[k]; j--) f[at + r.below(fs[k])] ^= 1 << r.below(8); at += fs[k]; }
                    x.fault("damaged-channels");
                }
                uint8_t *g = in.get(bs); memcpy(g, f.data(), bs); ip = g;
            }
            uint8_t fill = splitmix(z);
            uint8_t *p = pcm.get(len, fill, al), *q = ref.get(len, fill, al);
            alloc::watch(true);
            int r = api == 0 ? D->Decode(ip, bs, (int16_t *)p) : api == 1 ? D->Decode(ip, bs, (int32_t *)p) : api == 2 ? D->Decode(ip, bs, (float *)p)
                  : D->Decode(ip, bs, (lc3::PcmFormat)fmt, p);
            bool al_used = alloc::calls(); alloc::watch(false);
            if (al_used) x.fail("allocation", "Decode uses the allocator");
            if (!pcm.intact()) x.fail("overflow", "Decode wrote outside its buffer (api %d)", api);
            if (!sd.usable) {
                if (r != -1) x.fail("unusable", "an object that could not be set up decodes (%d)", r);
                for (size_t k = 0; k < len; k++) if (p[k] != fill) x.fail("unusable", "an object that could not be set up wrote output");
                x.probe("refused-unusable"); x.nontrivial(); continue;
            }
            auto fs = frame_sizes(bs, n); int rr = 0; const uint8_t *g = ip;
            for (int k = 0; k < n; k++) { rr |= lc3_decode(cd[k], g, fs[k], (enum lc3_pcm_format)fmt, q + k * b, n); if (g) g += fs[k]; }
            if (o.k == "lost" && rr != 1) x.broken("loss returned %d", rr);
            if (r != rr) x.fail("decode", "Decode returned %d, the C codecs %d (%s)", r, rr, o.k.c_str());
            for (size_t k = 0; k < len; k++) if (p[k] != q[k])
                x.fail(o.k == "lost" ? "conceal" : "decode", "sample %zu of channel %zu of %d differs from the C codec (api %d, %s)", k / b / n, k / b % n, n, api, o.k.c_str());
            x.ev(p, len); x.ev(r); if (n > 1) x.nontrivial();
            x.sig(mix(mix(sd.c.dt * 8 + sd.c.sr, n * 64 + api), mix(bs % n, (r + 1) * 8 + o.k[0])));
            continue;
        }
    }
    alloc::watch(true); E.reset(); D.reset(); alloc::watch(false);
    leak("after both objects are gone");
}
static Register r14({ "C14", gen_c14, exec_c14, 30 });
