// C18 - C21: the command line tools on simulated files, pipes and clocks,
// against a model built on direct calls of the library.
#include "net.h"
#include "tool_host.h"
#include <memory>

using namespace sim;
typedef std::vector<uint8_t> Bytes;
extern "C" { int elc3_main(int, char **); int dlc3_main(int, char **); }

// --- Bytes --------------------------------------------------------------------

static void p16(Bytes &b, uint32_t v) { b.push_back(v); b.push_back(v >> 8); }
static void p32(Bytes &b, uint32_t v) { p16(b, v); p16(b, v >> 16); }
static void ptag(Bytes &b, const char *t) { b.insert(b.end(), t, t + 4); }
static uint32_t g16(const Bytes &b, size_t p) { return p + 2 <= b.size() ? b[p] | b[p + 1] << 8 : 0; }
static uint32_t g32(const Bytes &b, size_t p) { return g16(b, p) | g16(b, p + 2) << 16; }

// --- WAVE -----------------------------------------------------------------------

struct Wav { int rate = 0, nch = 0, bits = 0, sbytes = 0; int64_t nframes = 0, present = 0; size_t data = 0; bool odd_frame = false; };

static void wav_fmt(Bytes &b, int tag, int nch, int rate, int sbytes, int bits)
{ p16(b, tag); p16(b, nch); p32(b, rate); p32(b, rate * nch * sbytes); p16(b, nch * sbytes); p16(b, bits); }

static Bytes wav_header(int rate, int nch, int bits, int64_t nframes)
{
    Bytes b; uint32_t n = nframes * nch * (bits / 8);
    ptag(b, "RIFF"); p32(b, 36 + n); ptag(b, "WAVE"); ptag(b, "fmt "); p32(b, 16);
    wav_fmt(b, 1, nch, rate, bits / 8, bits); ptag(b, "data"); p32(b, n);
    return b;
}

// What the file says; false: not a file with audio the tool could take
static bool wav_parse(const Bytes &b, Wav &w)
{
    if (b.size() < 36 || g32(b, 0) != 0x46464952 || g32(b, 8) != 0x45564157 || g32(b, 12) != 0x20746d66) return false;
    uint32_t fs = g32(b, 16); int tag = g16(b, 20), bs = g16(b, 32);
    w.nch = g16(b, 22); w.rate = g32(b, 24); w.bits = g16(b, 34);
    if ((tag != 1 && tag != 0xfffe) || !w.nch || w.rate <= 0 || !bs || g32(b, 28) != (uint32_t)w.rate * bs || fs < 16) return false;
    w.sbytes = bs / w.nch; w.odd_frame = bs % w.nch;
    for (uint64_t p = 20 + (uint64_t)fs + (fs & 1); p + 8 <= b.size(); ) {
        uint32_t n = g32(b, p + 4);
        if (g32(b, p) == 0x61746164) {
            w.data = p + 8; w.nframes = n / bs; w.present = std::min<int64_t>(w.nframes, (b.size() - w.data) / bs);
            return true;
        }
        p += 8 + (uint64_t)n + (n & 1);
    }
    return false;
}

// --- LC3 stream -----------------------------------------------------------------

struct EncArgs { bool hr = false; int us = 10000, rate = 0, bitrate = 0; };
struct DecArgs { int bits = 16, rate = 0; };
struct Hdr { int us = 0, rate = 0, nch = 0; bool hr = false; uint32_t ns = 0; size_t pos = 0; };

static bool cfg_ok(bool hr, int us, int rate) { return lc3_hr_frame_samples(hr, us, rate) > 0; }

struct Codecs { std::vector<Bytes> mem; std::vector<lc3_encoder_t> e; std::vector<lc3_decoder_t> d; };

// The stream for the audio; false: the tool has to refuse
static bool model_encode(const Bytes &file, const Wav &w, const EncArgs &a, Bytes &out, int64_t maxframes = 1 << 30)
{
    int er = a.rate ? a.rate : w.rate;
    if (a.bitrate <= 0 || !cfg_ok(a.hr, a.us, w.rate) || !cfg_ok(a.hr, a.us, er) || er > w.rate || w.nch > 2) return false;
    if (!(w.bits == 16 && w.sbytes == 2) && !(w.bits == 24 && (w.sbytes == 3 || w.sbytes == 4))) return false;
    int block = lc3_hr_frame_block_bytes(a.hr, a.us, w.rate, w.nch, a.bitrate), br = lc3_hr_resolve_bitrate(a.hr, a.us, w.rate, block);
    int64_t es = w.nframes * er / w.rate, fs = lc3_hr_frame_samples(a.hr, a.us, w.rate), total = w.nframes + lc3_hr_delay_samples(a.hr, a.us, w.rate);
    out.clear();
    p16(out, 0xcc1c); p16(out, a.hr ? 20 : 18); p16(out, er / 100); p16(out, br / 100); p16(out, w.nch); p16(out, a.us / 10); p16(out, 0);
    p16(out, es); p16(out, es >> 16); if (a.hr) p16(out, 1);
    Codecs k; k.mem.resize(w.nch);
    for (int i = 0; i < w.nch; i++) { k.mem[i].resize(lc3_hr_encoder_size(a.hr, a.us, w.rate)); k.e.push_back(lc3_hr_setup_encoder(a.hr, a.us, er, w.rate, k.mem[i].data())); if (!k.e[i]) return false; }
    int bs = w.nch * w.sbytes; enum lc3_pcm_format f = w.sbytes == 4 ? LC3_PCM_FORMAT_S24 : w.sbytes == 3 ? LC3_PCM_FORMAT_S24_3LE : LC3_PCM_FORMAT_S16;
    std::vector<int32_t> buf(fs * w.nch + 2);
    for (int64_t i = 0; i * fs < total && i < maxframes && (maxframes > 200000 || out.size() < 400 << 10); i++) {
        memset(buf.data(), 0, buf.size() * 4);
        int64_t n = std::max<int64_t>(0, std::min(fs, w.present - i * fs));
        if (n) memcpy(buf.data(), file.data() + w.data + i * fs * bs, n * bs);
        p16(out, block); size_t at = out.size(); out.resize(at + block);
        for (int c = 0; c < w.nch; c++) { int fb = block / w.nch + (c < block % w.nch); lc3_encode(k.e[c], f, (uint8_t *)buf.data() + c * w.sbytes, w.nch, fb, &out[at]); at += fb; }
    }
    return true;
}

static bool hdr_parse(const Bytes &b, Hdr &h)
{
    if (b.size() < 18 || g16(b, 0) != 0xcc1c || g16(b, 2) < 18) return false;
    size_t hs = g16(b, 2);
    if (hs >= 20) { if (b.size() < 20) return false; h.hr = g16(b, 18) != 0; }
    h.rate = g16(b, 4) * 100; h.nch = g16(b, 8); h.us = g16(b, 10) * 10; h.ns = g16(b, 14) | g16(b, 16) << 16; h.pos = hs;
    return !g16(b, 12) && h.nch >= 1 && h.nch <= 2 && cfg_ok(h.hr, h.us, h.rate) && h.ns < 0x80000000u;
}

struct Out { Bytes wav; int bad = 0, silent = 0; bool cut = false, too_long = false; };

static bool model_decode(const Bytes &b, const DecArgs &a, Out &o, size_t limit)
{
    Hdr h;
    if (!hdr_parse(b, h) || (a.bits != 16 && a.bits != 24)) return false;
    if (a.rate && (!cfg_ok(h.hr, h.us, a.rate) || a.rate < h.rate)) return false;
    int pr = a.rate ? a.rate : h.rate, sb = a.bits / 8, nch = h.nch;
    int64_t ps = a.rate ? (int64_t)h.ns * pr / h.rate : h.ns, fs = lc3_hr_frame_samples(h.hr, h.us, pr), dl = lc3_hr_delay_samples(h.hr, h.us, pr);
    if (ps * nch * sb + 36 > 0xffffffffll) { o.too_long = true; return false; }
    o.wav = wav_header(pr, nch, a.bits, ps);
    size_t want = o.wav.size() + ps * nch * sb;
    Codecs k; k.mem.resize(nch);
    for (int i = 0; i < nch; i++) { k.mem[i].resize(lc3_hr_decoder_size(h.hr, h.us, pr)); k.d.push_back(lc3_hr_setup_decoder(h.hr, h.us, h.rate, pr, k.mem[i].data())); if (!k.d[i]) return false; }
    enum lc3_pcm_format f = sb == 3 ? LC3_PCM_FORMAT_S24_3LE : LC3_PCM_FORMAT_S16;
    size_t p = h.pos; std::vector<int32_t> buf(fs * nch + 2);
    auto take = [&](size_t n, const uint8_t *&q) { if (p >= b.size() || b.size() - p < n) { p = b.size(); return false; } q = b.data() + p; p += n; return true; };
    for (int64_t i = 0; i * fs < ps + dl; i++) {
        if (o.wav.size() > limit) { o.cut = true; break; }
        const uint8_t *q; bool have = false; int n = 0;
        if (take(2, q)) { n = q[0] | q[1] << 8; if (n && n <= nch * 625) have = take(n, q); }
        uint8_t *w = (uint8_t *)buf.data(); memset(w, 0, buf.size() * 4);
        if (!have) o.silent++;
        for (int c = 0; have && c < nch; c++) {
            int fb = n / nch + (c < n % nch), r = lc3_decode(k.d[c], q, fb, f, w + c * sb, nch);
            if (r < 0) lc3_decode(k.d[c], 0, 0, f, w + c * sb, nch);
            o.bad += r != 0; q += fb;
        }
        int64_t from = i ? 0 : dl, n2 = std::max<int64_t>(0, std::min(fs - from, ps + dl - i * fs - from));
        o.wav.insert(o.wav.end(), w + from * nch * sb, w + (from + n2) * nch * sb);
    }
    if (!o.cut && o.wav.size() != want) abort();
    return true;
}

// --- Scenario pieces --------------------------------------------------------------

struct Setup { EncArgs e; Wav w; int sig; uint64_t sigseed; DecArgs d; };

static void gen_setup(Scn &s, Rng &r, int maxms)
{
    Cfg c = pick_cfg(r, .25, .2);
    s.cfg["hr"] = c.hr(); s.cfg["us"] = c.us(); s.cfg["rate"] = c.pcm_hz(); s.cfg["enc"] = c.sr != c.srp ? c.hz() : r.chance(.2) ? c.hz() : 0;
    s.cfg["nch"] = r.range(1, 2); s.cfg["width"] = r.below(3);
    s.cfg["bitrate"] = r.chance(.15) ? (r.chance(.5) ? r.range(1, 2000) : r.range(400000, 3000000)) : r.range(16000, c.hr() ? 500000 : 160000);
    s.cfg["frames"] = r.chance(.15) ? r.below(3 * c.ns()) : r.below((int64_t)maxms * c.pcm_hz() / 1000);
    s.cfg["sig"] = r.below(SG_NUM); s.cfg["sigseed"] = r.u64() >> 20;
    s.cfg["dbits"] = r.chance(.5) ? 24 : 16;
    if (r.chance(.2)) { int q = c.hr() ? ref::SR_96HR : c.sr + r.below(5 - c.sr); s.cfg["drate"] = ref::sr_hz(q); } else s.cfg["drate"] = 0;
}

static Setup get_setup(const Scn &s)
{
    Setup u; static const int wb[] = { 16, 24, 24 }, ws[] = { 2, 3, 4 }; int k = (s.get("width") % 3 + 3) % 3;
    u.e.hr = s.get("hr"); u.e.us = s.get("us"); u.e.rate = s.get("enc"); u.e.bitrate = s.get("bitrate");
    u.w.rate = s.get("rate"); u.w.nch = s.get("nch"); u.w.bits = wb[k]; u.w.sbytes = ws[k]; u.w.nframes = std::max<int64_t>(0, std::min<int64_t>(s.get("frames"), 200000));
    u.sig = s.get("sig"); u.sigseed = s.get("sigseed"); u.d.bits = s.get("dbits"); u.d.rate = s.get("drate");
    return u;
}

static Bytes audio(const Setup &u)
{
    Bytes b; std::vector<Signal> sg; for (int i = 0; i < u.w.nch; i++) sg.emplace_back((u.sig + i * 5) % SG_NUM, mix(u.sigseed, i), u.w.rate);
    for (int64_t i = 0; i < u.w.nframes; i++)
        for (int c = 0; c < u.w.nch; c++) {
            uint8_t t[4]; put_pcm(u.w.sbytes == 2 ? 0 : u.w.sbytes == 3 ? 2 : 1, t, sg[c].next()); b.insert(b.end(), t, t + u.w.sbytes);
        }
    return b;
}

static Bytes plain_wav(const Setup &u)
{
    Bytes a = audio(u), b; ptag(b, "RIFF"); p32(b, 36 + a.size()); ptag(b, "WAVE"); ptag(b, "fmt "); p32(b, 16);
    wav_fmt(b, 1, u.w.nch, u.w.rate, u.w.sbytes, u.w.bits); ptag(b, "data"); p32(b, a.size());
    b.insert(b.end(), a.begin(), a.end());
    return b;
}

static std::vector<std::string> elc_args(const EncArgs &a, bool in, bool out, Rng &r)
{
    std::vector<std::vector<std::string>> o; char ms[16]; snprintf(ms, sizeof ms, "%g", a.us / 1000.);
    o.push_back({ "-b", std::to_string(a.bitrate) });
    if (a.us != 10000 || r.chance(.5)) o.push_back({ "-m", ms });
    if (a.rate) o.push_back({ "-r", std::to_string(a.rate) });
    if (a.hr) o.push_back({ "-H" });
    for (int i = o.size() - 1; i > 0; i--) std::swap(o[i], o[r.below(i + 1)]);
    if (in) { o.insert(o.begin() + r.below(o.size() + 1), { "%in" }); }
    if (out) { size_t p = 0; while (p < o.size() && o[p][0] != "%in") p++; if (p < o.size()) o.insert(o.begin() + p + 1 + r.below(o.size() - p), { "%out" }); }
    std::vector<std::string> v = { "elc3" }; for (auto &g : o) v.insert(v.end(), g.begin(), g.end());
    return v;
}

static std::vector<std::string> dlc_args(const DecArgs &a, bool in, bool out, Rng &r)
{
    std::vector<std::string> v = { "dlc3" };
    if (a.bits != 16 || r.chance(.3)) v.push_back("-b"), v.push_back(std::to_string(a.bits));
    if (a.rate) v.push_back("-r"), v.push_back(std::to_string(a.rate));
    if (in) v.push_back("%in");
    if (in && out) v.push_back("%out");
    return v;
}

// io: 1 input named, 2 output named, 4 input is a pipe, 8 output is a pipe, 16 split, 32 clock jumps
static tool::Inv inv(int (*m)(int, char **), const Bytes &in, int io, uint64_t seed)
{
    tool::Inv i; i.main = m; i.in = in; i.in_stdin = !(io & 1); i.out_stdout = !(io & 2) || !(io & 1);
    i.in_pipe = io & 4; i.out_pipe = io & 8; i.split = io & 16; i.clock_jumps = io & 32; i.seed = seed;
    return i;
}
static void io_faults(Ctx &x, int io)
{
    if (io & 4) x.fault("input-pipe"); if (io & 8) x.fault("output-pipe"); if (io & 16) x.fault("split-io"); if (io & 32) x.fault("clock-jump");
}
static tool::Inv elc(const Bytes &in, const EncArgs &a, int io, uint64_t seed) { auto i = inv(elc3_main, in, io, seed); Rng r(seed); i.args = elc_args(a, io & 1, (io & 3) == 3, r); return i; }
static tool::Inv dlc(const Bytes &in, const DecArgs &a, int io, uint64_t seed) { auto i = inv(dlc3_main, in, io, seed); Rng r(seed); i.args = dlc_args(a, io & 1, (io & 3) == 3, r); return i; }

static size_t diff(const Bytes &a, const Bytes &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; return i; }
static void note(Ctx &x, const tool::Res &r) { x.ev(r.exit); x.ev(r.out.data(), r.out.size()); x.s->steps++; }

// --- C18 ---------------------------------------------------------------------------

static Scn gen_c18(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C18"; s.seed = seed;
    gen_setup(s, r, tier ? 3000 : r.chance(.15) ? 2500 : 250);
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) s.add("elc3", { r.below(64), (int64_t)(r.u64() >> 20) });
    n = r.range(1, 3);
    for (int i = 0; i < n; i++) s.add("dlc3", { r.below(64), (int64_t)(r.u64() >> 20), r.chance(.3) ? 24 : 16, 0 });
    if (s.cfg["drate"] || s.cfg["dbits"] != 16) s.add("dlc3", { r.below(64), (int64_t)(r.u64() >> 20), s.cfg["dbits"], s.cfg["drate"] });
    return s;
}

static void exec_c18(const Scn &s, Ctx &x)
{
    Setup u = get_setup(s); Bytes wav = plain_wav(u), want; Wav w; Out o;
    if (!wav_parse(wav, w)) x.broken("own WAVE file");
    if (!model_encode(wav, w, u.e, want)) x.broken("options refused by the model");
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &op = s.ops[i]; x.step(i); io_faults(x, op.arg(0));
        if (op.k == "elc3") {
            tool::Res r = tool::run(x, elc(wav, u.e, op.arg(0), op.arg(1))); note(x, r);
            if (r.hang) x.fail("hang", "elc3 does not end");
            if (r.exit) x.fail("encoder-tool", "elc3 ended with %d on a good file: %.80s", r.exit, r.err.c_str());
            if (r.out != want) x.fail("encoder-tool", "stream of elc3 (%zu bytes) differs from the library's (%zu bytes) at byte %zu", r.out.size(), want.size(), diff(r.out, want));
        } else if (op.k == "dlc3") {
            DecArgs d = { (int)op.arg(2), (int)op.arg(3) };
            if (d.rate && (d.rate < (u.e.rate ? u.e.rate : w.rate) || !cfg_ok(u.e.hr, u.e.us, d.rate))) d.rate = 0;
            o = Out(); if (!model_decode(want, d, o, 1 << 30)) x.broken("stream refused by the model");
            tool::Res r = tool::run(x, dlc(want, d, op.arg(0), op.arg(1))); note(x, r);
            if (r.hang) x.fail("hang", "dlc3 does not end");
            if (r.exit) x.fail("decoder-tool", "dlc3 ended with %d on a good stream: %.80s", r.exit, r.err.c_str());
            if (o.bad) x.broken("the model conceals %d good frames", o.bad);
            if (r.err.find("failed") != std::string::npos) x.fail("decoder-tool", "dlc3 reports failed frames of a good stream");
            if (r.out != o.wav) x.fail("decoder-tool", "WAVE of dlc3 (%zu bytes) differs from the library's (%zu bytes) at byte %zu", r.out.size(), o.wav.size(), diff(r.out, o.wav));
            x.time(u.w.nframes * 1000000 / u.w.rate);
            if (u.w.nframes) x.nontrivial();
            x.sig(mix(mix(u.e.us + u.w.rate + u.e.hr, u.w.nch * 4 + u.w.sbytes), mix(u.e.rate, d.rate + d.bits)));
        }
    }
}
static Register r18({ "C18", gen_c18, exec_c18, 60 });

// --- C19 ---------------------------------------------------------------------------

static Scn gen_c19(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C19"; s.seed = seed;
    gen_setup(s, r, tier ? 1500 : r.chance(.1) ? 1500 : 120);
    int n = r.range(2, tier ? 12 : 6);
    for (int i = 0; i < n; i++) {
        int k = r.range(1, tool::F_NUM - 1); if (k == tool::F_KILL) k = tool::F_ENOSPC;
        s.add(r.chance(.5) ? "elc3" : "dlc3", { r.below(64), (int64_t)(r.u64() >> 20), k, r.chance(.3) ? r.below(3) : (int64_t)(r.u64() >> 34) });
    }
    return s;
}

static void exec_c19(const Scn &s, Ctx &x)
{
    Setup u = get_setup(s); Bytes wav = plain_wav(u), stream; Wav w; Out o;
    if (!wav_parse(wav, w) || !model_encode(wav, w, u.e, stream)) x.broken("options refused by the model");
    DecArgs d = u.d; if (d.rate && (d.rate < (u.e.rate ? u.e.rate : w.rate) || !cfg_ok(u.e.hr, u.e.us, d.rate))) d.rate = 0;
    if (!model_decode(stream, d, o, 1 << 30)) x.broken("stream refused by the model");
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &op = s.ops[i]; x.step(i);
        bool e = op.k == "elc3"; if (!e && op.k != "dlc3") continue;
        const Bytes &want = e ? stream : o.wav; const char *nm = e ? "elc3" : "dlc3";
        tool::Inv v = e ? elc(wav, u.e, op.arg(0), op.arg(1)) : dlc(stream, d, op.arg(0), op.arg(1));
        tool::Res c = tool::run(x, v);          // without the fault: what there is to fail
        if (c.hang) x.fail("hang", "%s does not end", nm);
        if (c.exit || c.out != want) x.fail("fault-free", "%s ends with %d and %zu of %zu bytes without any fault", nm, c.exit, c.out.size(), want.size());
        int k = op.arg(2); int64_t at = op.arg(3); if (k < 0 || k >= tool::F_NUM || k == tool::F_KILL) k = 0;
        auto wrap = [&](int64_t n) { return n > 0 ? at % n : 0; };
        v.fault = k;
        v.at = k == tool::F_READ_EIO || k == tool::F_READ_ONCE || k == tool::F_STALL ? wrap(c.reads) : k == tool::F_ENOSPC ? wrap(c.written) :
               k == tool::F_WRITE_EIO || k == tool::F_WRITE_ONCE ? wrap(c.writes) : k == tool::F_SEEK ? wrap(c.seeks) : k == tool::F_ALLOC ? wrap(c.allocs) : 0;
        tool::Res r = tool::run(x, v); note(x, r);
        if (r.fired) { x.fault(tool::kind_name[k]); x.nontrivial(); x.sig(mix(mix(k, v.at), mix(e + 2 * op.arg(0), c.reads + c.writes))); }
        x.say("%s %s at %lld of %d reads %d writes %lld bytes: fired %d, exit %d, %zu of %zu bytes, message '%.60s'", nm, tool::kind_name[k], (long long)v.at, c.reads, c.writes, (long long)c.written, r.fired, r.exit, r.out.size(), want.size(), r.err.c_str());
        if (r.hang) x.fail("hang", "%s does not end after %s", nm, tool::kind_name[k]);
        if (!r.exit && r.out != want) x.fail("false-success", "%s reports success with %zu of %zu bytes written, %zu of them right (%s at %lld)", nm, r.out.size(), want.size(), diff(r.out, want), tool::kind_name[k], (long long)v.at);
        if (!r.exit && r.fired && k == tool::F_CLOSE) x.fail("false-success", "%s reports success although the output could not be closed", nm);
        if (r.exit && (!r.fired || k == tool::F_STALL)) x.fail("false-failure", "%s ends with %d although nothing failed: %.80s", nm, r.exit, r.err.c_str());
        if (r.exit && r.err == c.err.substr(0, r.err.size())) x.fail("no-message", "%s ends with %d without a message after %s", nm, r.exit, tool::kind_name[k]);
    }
    x.time(u.w.nframes * 1000000 / u.w.rate);
}
static Register r19({ "C19", gen_c19, exec_c19, 60 });

// --- C20 ---------------------------------------------------------------------------

static void put16(Bytes &b, size_t p, int v) { if (p + 2 <= b.size()) b[p] = v, b[p + 1] = v >> 8; }

// Damage of a file; every argument is taken modulo what there is
static bool damage(Ctx &x, const Op &op, Bytes &b)
{
    uint64_t a = op.arg(0), n = op.arg(1), v = op.arg(2); size_t sz = b.size();
    Rng r(mix(a, mix(n, v)));
    if (op.k == "cut") { b.resize(a % (sz + 1)); x.fault("truncated"); }
    else if (op.k == "cut-end") { b.resize(sz - std::min<uint64_t>(sz, a)); x.fault("truncated"); }
    else if (op.k == "flip") { if (sz) b[a % sz] ^= 1 << (n & 7); x.fault("bit-flip"); }
    else if (op.k == "flip-head") { if (sz) b[a % std::min<size_t>(sz, 48)] ^= 1 << (n & 7); x.fault("header-bit-flip"); }
    else if (op.k == "byte") { if (sz) b[a % sz] = n; x.fault("byte-changed"); }
    else if (op.k == "torn") { for (size_t p = a % (sz + 1) & ~511, e = std::min<size_t>(sz, p + 512); p < e; p++) b[p] = n & 1 ? r.u64() : 0; x.fault("torn-sector"); }
    else if (op.k == "drop") { size_t p = a % (sz + 1), l = std::min<size_t>(sz - p, 1 + n % 600); b.erase(b.begin() + p, b.begin() + p + l); x.fault("lost-bytes"); }
    else if (op.k == "dup") { size_t p = a % (sz + 1), l = std::min<size_t>(sz - p, 1 + n % 600); Bytes t(b.begin() + p, b.begin() + p + l); b.insert(b.begin() + p, t.begin(), t.end()); x.fault("repeated-bytes"); }
    else if (op.k == "junk") { for (uint64_t i = 0; i < 1 + n % 3000; i++) b.push_back(r.u64()); x.fault("trailing-junk"); }
    else if (op.k == "random") { b.resize(a % 4000); for (auto &c : b) c = r.u64(); x.fault("junk-file"); }
    else if (op.k == "word") { put16(b, 2 * (a % 12), n); x.fault("hostile-header"); }
    else return false;
    return true;
}

static void add_damage(Scn &s, Rng &r, int n)
{
    static const char *const k[] = { "cut", "cut-end", "flip", "flip-head", "byte", "torn", "drop", "dup", "junk", "random" };
    for (int i = 0; i < n; i++)
        switch (r.pickw({ 5, 1, 4, 2, 3, 2, 2, 2, 1, .15 })) {
        case 0: s.add(k[0], { (int64_t)(r.u64() >> 24) }); break;
        case 1: s.add(k[1], { r.below(40) }); break;
        case 2: s.add(k[2], { (int64_t)(r.u64() >> 24), r.below(8) }); break;
        case 3: s.add(k[3], { r.below(48), r.below(8) }); break;
        case 4: s.add(k[4], { (int64_t)(r.u64() >> 24), r.chance(.3) ? 0 : r.chance(.4) ? 255 : r.below(256) }); break;
        case 5: s.add(k[5], { (int64_t)(r.u64() >> 24), r.below(2) }); break;
        case 6: s.add(k[6], { (int64_t)(r.u64() >> 24), r.chance(.5) ? r.below(8) : r.below(600) }); break;
        case 7: s.add(k[7], { (int64_t)(r.u64() >> 24), r.chance(.5) ? r.below(8) : r.below(600) }); break;
        case 8: s.add(k[8], { 0, r.below(3000) }); break;
        default: s.add(k[9], { r.below(4000) }); break;
        }
}

static Scn gen_c20(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C20"; s.seed = seed;
    gen_setup(s, r, tier ? 1500 : r.chance(.1) ? 1500 : 150);
    s.cfg["killed"] = r.chance(.15) ? 1 + r.below(1 << 20) : 0;
    s.cfg["io"] = r.below(64);
    int n = r.pickw({ 1, 3, 2, 2, 1 });
    for (int i = 0; i < n; i++)
        switch (r.pickw({ 4, 2, 2, 4 })) {
        case 0: add_damage(s, r, 1); break;
        case 1: {       // one word of the header
            static const int hostile[] = { 0, 1, 2, 3, 17, 18, 19, 20, 22, 80, 100, 240, 250, 320, 441, 480, 500, 750, 960, 1000, 255, 256, 625, 0x7fff, 0x8000, 0xfffe, 0xffff };
            s.add("word", { r.below(10), hostile[r.below(sizeof hostile / sizeof *hostile)] });
            break;
        }
        case 2:         // length, header size
            if (r.chance(.4)) s.add("head", { r.chance(.6) ? r.below(12) : r.below(5000) });
            else s.add("length", { r.chance(.3) ? 0xffffffffll - r.below(8) : r.chance(.3) ? 0x7fffffffll - r.below(300) + r.below(2) : r.chance(.3) ? 0x100000000ll / r.range(1, 24) - r.below(60) : r.chance(.5) ? r.below(1200) : r.below(400000) });
            break;
        default: {      // frame blocks
            int64_t k = r.below(1 << 16);
            int64_t v = r.pickw({ 1, 1, 1, 1, 1, 1, 2 }); v = v == 0 ? 0 : v == 1 ? 1 : v == 2 ? 39 - r.below(21) : v == 3 ? 1250 + r.below(3) - 1 : v == 4 ? 625 + r.below(3) - 1 : v == 5 ? 0xffff - r.below(3) : r.below(1300);
            if (r.chance(.5)) s.add("block-size", { k, v });
            else s.add(r.chance(.5) ? "block-resize" : "block-damage", { k, r.chance(.5) ? v : r.below(700), r.below(1 << 30) });
        } }
    n = r.range(1, 2);
    for (int i = 0; i < n; i++) s.add("dlc3", { r.below(64), (int64_t)(r.u64() >> 20), r.chance(.03) ? r.pick(std::vector<int>{ 0, 8, 17, 32, -16 }) : r.chance(.5) ? s.cfg["dbits"] : 16, r.chance(.5) ? s.cfg["drate"] : r.chance(.1) ? 8000 * r.range(1, 14) : 0 });
    return s;
}

// position of the length word of the k-th block, modulo the blocks there are
static bool block_at(const Bytes &b, uint64_t k, size_t &p)
{
    std::vector<size_t> v;
    for (size_t q = g16(b, 2); q + 2 <= b.size(); q += 2 + g16(b, q)) v.push_back(q);
    if (v.empty()) return false;
    p = v[k % v.size()];
    return true;
}

static void exec_c20(const Scn &s, Ctx &x)
{
    Setup u = get_setup(s); Bytes wav = plain_wav(u), b; Wav w;
    if (!wav_parse(wav, w) || !model_encode(wav, w, u.e, b)) x.broken("options refused by the model");
    if (s.get("killed")) {      // a stream left behind by an encoder that was killed
        tool::Inv v = elc(wav, u.e, s.get("io"), s.get("killed"));
        tool::Res c = tool::run(x, v); v.fault = tool::F_KILL; v.at = s.get("killed") % std::max(1, c.writes);
        tool::Res r = tool::run(x, v); if (r.killed) x.fault("encoder-killed");
        b = r.out;
    }
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &op = s.ops[i]; x.step(i); size_t p;
        if (op.k == "head") {
            int n = op.arg(0) % 60000; size_t hs = g16(b, 2);
            if (hs && hs <= b.size()) { Rng r(n); Bytes t(n); for (auto &c : t) c = r.u64(); if (hs == 18 && n >= 2) t[0] = t[1] = 0; b.insert(b.begin() + hs, t.begin(), t.end()); put16(b, 2, hs + n); x.fault("longer-header"); }
        } else if (op.k == "length") { put16(b, 14, op.arg(0)); put16(b, 16, op.arg(0) >> 16); x.fault("hostile-length"); }
        else if (op.k == "block-size") { if (block_at(b, op.arg(0), p)) put16(b, p, op.arg(1)); x.fault("hostile-block-size"); }
        else if (op.k == "block-resize") {
            if (block_at(b, op.arg(0), p)) {
                size_t n = std::min<size_t>(g16(b, p), b.size() - p - 2), m = op.arg(1) % 1300; Rng r(op.arg(2));
                b.erase(b.begin() + p + 2, b.begin() + p + 2 + n); Bytes t(m); for (auto &c : t) c = r.u64();
                b.insert(b.begin() + p + 2, t.begin(), t.end()); put16(b, p, m); x.fault("foreign-block");
            }
        } else if (op.k == "block-damage") {
            if (block_at(b, op.arg(0), p)) { size_t n = std::min<size_t>(g16(b, p), b.size() - p - 2); Rng r(op.arg(2)); for (int k = 0; n && k < 1 + op.arg(1) % 20; k++) b[p + 2 + r.below(n)] ^= 1 << r.below(8); x.fault("damaged-block"); }
        } else if (op.k == "dlc3") {
            io_faults(x, op.arg(0)); DecArgs d = { (int)op.arg(2), (int)op.arg(3) };
            const size_t limit = 3 << 20; Out o; bool ok = model_decode(b, d, o, limit + 100000);
            tool::Inv v = dlc(b, d, op.arg(0), op.arg(1)); v.limit = limit;
            tool::Res r = tool::run(x, v); note(x, r);
            x.say("dlc3: model %s (%d silent, %d concealed), exit %d, %zu bytes, '%.60s'", ok ? "accepts" : o.too_long ? "too long" : "refuses", o.silent, o.bad, r.exit, r.out.size(), r.err.c_str());
            if (r.hang) x.fail("hang", "dlc3 does not end");
            if (r.limit) {
                x.probe("output-limit");
                if (!ok) x.fail("accepted", "dlc3 writes audio for a stream it should refuse%s", o.too_long ? ", too long for a WAVE file" : "");
                if (o.wav.size() < limit || memcmp(o.wav.data(), r.out.data(), limit)) x.fail("damaged-stream", "WAVE of dlc3 differs from the library's at byte %zu", diff(r.out, o.wav));
            } else if (r.exit) {
                x.probe("refused");
                if (r.err.empty()) x.fail("no-message", "dlc3 ends with %d without a message", r.exit);
                if (r.out.size() > 44) x.fail("late-refusal", "dlc3 ends with %d after %zu bytes: %.60s", r.exit, r.out.size(), r.err.c_str());
            } else {
                if (!ok) x.fail("accepted", "dlc3 reports success for a stream it should refuse%s", o.too_long ? ", too long for a WAVE file" : "");
                if (r.out != o.wav) x.fail("damaged-stream", "WAVE of dlc3 (%zu bytes) differs from the library's (%zu bytes) at byte %zu, %d blocks silent, %d frames concealed", r.out.size(), o.wav.size(), diff(r.out, o.wav), o.silent, o.bad);
                if (o.silent) x.probe("silent-blocks");
                if (o.bad) x.probe("concealed-frames");
                x.nontrivial(); x.time(o.wav.size() / std::max(1, d.bits / 8) * 1000000 / w.rate);
            }
            x.sig(mix(mix(ok + 2 * r.limit, r.exit), mix(o.silent, o.bad * 64 + g16(b, 4) + g16(b, 10))));
        } else damage(x, op, b);
    }
}
static Register r20({ "C20", gen_c20, exec_c20, 60 });

// --- C21 ---------------------------------------------------------------------------

static Scn gen_c21(uint64_t seed, int tier)
{
    Rng r(seed); Scn s; s.check = "C21"; s.seed = seed;
    gen_setup(s, r, tier ? 1500 : r.chance(.1) ? 1500 : 150);
    static const int fs[] = { 16, 16, 18, 18, 40, 40, 20, 28, 50 };
    s.cfg["fmt"] = r.chance(.7) ? fs[r.below(9)] : r.chance(.5) ? r.range(16, 90) : r.range(16, 3000);
    s.cfg["ext"] = r.chance(.4);
    int lead = r.chance(.08) ? r.range(1, 2) : 0, pre = r.chance(.6) ? r.below(4) : 0, post = r.chance(.5) ? r.range(1, 3) : 0;
    auto size = [&] { return r.chance(.5) ? r.below(40) : r.chance(.8) ? r.below(700) : r.below(20000); };
    for (int i = 0; i < lead; i++) s.add("lead", { size(), r.below(1 << 30) });
    for (int i = 0; i < pre; i++) s.add("before", { size(), r.below(1 << 30) });
    for (int i = 0; i < post; i++) s.add("after", { size(), r.below(1 << 30) });
    if (r.chance(.15)) {
        // another format of the same bytes, coherent in itself
        Setup u = get_setup(s);
        static const int rate[] = { 8000, 16000, 24000, 32000, 48000, 96000, 44100, 11025, 22050, 192000, 12000, 8001, 64000 };
        int64_t f[4] = { u.w.nch, u.w.rate, u.w.sbytes, u.w.bits };
        for (int n = r.chance(.7) ? 1 : 2; n; n--)
            switch (r.below(4)) {
            case 0: f[0] = r.chance(.8) ? r.range(1, 9) : r.range(1, 300); break;
            case 1: f[1] = rate[r.below(13)]; break;
            case 2: f[2] = r.range(1, 8); break;
            default: { static const int bits[] = { 8, 12, 16, 20, 24, 32, 64, 0 }; f[3] = bits[r.below(8)]; if (r.chance(.5)) f[2] = (f[3] + 7) / 8; } break;
            }
        s.add("shape", { f[0], f[1], std::max<int64_t>(f[2], 1), f[3] });
    } else if (r.chance(.35))
        switch (r.below(5)) {
        case 0: s.add("field", { r.below(6), r.chance(.5) ? r.below(70000) : (int64_t)(r.u64() >> 32) }); break;
        case 1: s.add("size", { r.chance(.3) ? 0xffffffffll - r.below(40) : r.chance(.3) ? 0x7fffffffll + r.below(5) : r.below(200000) }); break;
        case 2: s.add("fmt-size", { r.chance(.5) ? r.below(16) : r.chance(.5) ? 0xffffffffll - r.below(40) : r.below(200) }); break;
        default: add_damage(s, r, r.range(1, 2)); break;
        }
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) s.add("elc3", { r.below(64), (int64_t)(r.u64() >> 20) });
    return s;
}

static void chunk(Bytes &b, const Op &op)
{
    static const char *const id[] = { "LIST", "fact", "bext", "JUNK", "id3 ", "cue ", "PEAK", "DATA", "Data", "fmt2" };
    Rng r(op.arg(1)); size_t n = std::max<int64_t>(0, op.arg(0)) % 100000;
    ptag(b, id[r.below(10)]); p32(b, n);
    size_t from = b.size();
    for (size_t i = 0; i < n; i++) b.push_back(r.u64());
    // what a scan that lost its place would take for the audio
    if (n >= 16 && r.chance(.7)) { size_t p = from + (r.chance(.5) ? n - 8 - r.below(3) : r.below(n - 12)); memcpy(&b[p], "data", 4); p = p + 4; for (int i = 0; i < 4 && p + i < b.size(); i++) b[p + i] = i == 1 ? r.below(4) : i > 1 ? 0 : r.u64(); }
    if (n & 1) b.push_back(r.chance(.3) ? r.u64() : 0);
}

static void exec_c21(const Scn &s, Ctx &x)
{
    Setup u = get_setup(s); Bytes a = audio(u), b; bool lead = false, changed = false, shaped = false;
    for (auto &op : s.ops) lead |= op.k == "lead";
    for (int i = 0; i <= lead; i++) {   // second round: with the chunks in front of the format
        ptag(b, "RIFF"); p32(b, 0); ptag(b, "WAVE");
        if (i) for (auto &op : s.ops) if (op.k == "lead") chunk(b, op), x.fault("chunk-before-format");
        size_t fs = std::max<int64_t>(16, s.get("fmt") % 60000), fp = b.size(); Rng r(s.seed);
        if (i < lead) { b.clear(); continue; }
        ptag(b, "fmt "); p32(b, fs); wav_fmt(b, s.get("ext") ? 0xfffe : 1, u.w.nch, u.w.rate, u.w.sbytes, u.w.bits);
        while (b.size() < fp + 8 + fs) b.push_back(fs == 18 ? 0 : r.u64());
        if (fs & 1) b.push_back(0);
        if (fs != 16) x.fault("long-format");
    }
    for (auto &op : s.ops) if (op.k == "before") chunk(b, op), x.fault("chunk-before-audio");
    size_t at = b.size(); ptag(b, "data"); p32(b, a.size()); b.insert(b.end(), a.begin(), a.end()); if (a.size() & 1) b.push_back(0);
    for (auto &op : s.ops) if (op.k == "after") chunk(b, op), x.fault("chunk-after-audio");
    for (int i = 0; i < 4; i++) b[4 + i] = (b.size() - 8) >> 8 * i;
    // the reference: the same audio in the simplest file
    Bytes plain = plain_wav(u), good; Wav w;
    if (!wav_parse(plain, w) || !model_encode(plain, w, u.e, good)) x.broken("options refused by the model");
    for (size_t i = 0; i < s.ops.size(); i++) {
        const Op &op = s.ops[i]; x.step(i);
        if (op.k == "field") {
            static const int pos[] = { 20, 22, 24, 28, 32, 34 }, len[] = { 2, 2, 4, 4, 2, 2 }; int k = (op.arg(0) % 6 + 6) % 6;
            for (int j = 0; j < len[k]; j++) if (pos[k] + j < (int)b.size()) b[pos[k] + j] = op.arg(1) >> 8 * j;
            changed = true; shaped = false; x.fault("hostile-field");
        } else if (op.k == "shape") {
            auto put = [&](size_t at, int n, int64_t v) { for (int j = 0; j < n && at + j < b.size(); j++) b[at + j] = v >> 8 * j; };
            int64_t nch = op.arg(0) & 0xffff, bs = nch * op.arg(2) & 0xffff;
            if (lead || changed || nch < 1 || bs != nch * op.arg(2) || bs < 1) continue;
            put(22, 2, nch); put(24, 4, op.arg(1)); put(28, 4, op.arg(1) * bs); put(32, 2, bs); put(34, 2, op.arg(3));
            changed = shaped = true; x.fault("other-format");
        } else if (op.k == "size") { shaped = false; for (int j = 0; j < 4; j++) if (at + 4 + j < b.size()) b[at + 4 + j] = op.arg(0) >> 8 * j; changed = true; x.fault("hostile-audio-size"); }
        else if (op.k == "fmt-size") { shaped = false; for (int j = 0; j < 4; j++) if (16u + j < b.size()) b[16 + j] = op.arg(0) >> 8 * j; changed = true; x.fault("hostile-format-size"); }
        else if (damage(x, op, b)) changed = true, shaped = false;
        else if (op.k == "elc3") {
            io_faults(x, op.arg(0));
            const int64_t maxf = 200000; const size_t limit = 300 << 10; Bytes m; Wav mw; bool ok = true;
            if (changed) {
                ok = wav_parse(b, mw) && mw.nframes < 0x7fffffff - 1000 && model_encode(b, mw, u.e, m, maxf);
            } else m = good, mw = w;
            tool::Inv v = elc(b, u.e, op.arg(0), op.arg(1)); v.limit = limit; v.cpu_s = 10;
            tool::Res r = tool::run(x, v); note(x, r);
            x.say("elc3: model %s, %zu bytes in, exit %d, %zu bytes, '%.60s'", ok ? "accepts" : "refuses", b.size(), r.exit, r.out.size(), r.err.c_str());
            if (r.hang || r.limit) {
                // a declared length beyond what is simulated
                if (!ok) x.fail("accepted", "elc3 encodes a file it should refuse");
                if (r.hang && mw.nframes < 400000) x.fail("hang", "elc3 does not end");
                if (r.limit && m.size() <= limit) x.fail("wrong-audio", "elc3 writes more than the library's %zu bytes", m.size());
                x.probe("output-limit");
                size_t n = std::min(m.size(), r.out.size());
                if (memcmp(m.data(), r.out.data(), n)) x.fail("wrong-audio", "stream of elc3 differs from the library's at byte %zu", diff(r.out, m));
            } else if (r.exit) {
                x.probe("refused");
                if (shaped && ok && mw.present == mw.nframes) x.fail("refused", "elc3 ends with %d on a file of %d channels, %d Hz, %d bits in %d bytes: %.60s", r.exit, mw.nch, mw.rate, mw.bits, mw.sbytes, r.err.c_str());
                if (!changed && !lead) x.fail("refused", "elc3 ends with %d on a well-formed file: %.60s", r.exit, r.err.c_str());
                if (r.err.empty()) x.fail("no-message", "elc3 ends with %d without a message", r.exit);
            } else {
                if (!ok && !lead) x.fail("accepted", "elc3 reports success for a file it should refuse");
                if (!ok) continue;
                if (r.out != m) x.fail("wrong-audio", "stream of elc3 (%zu bytes) differs from the library's (%zu bytes) at byte %zu", r.out.size(), m.size(), diff(r.out, m));
                if (mw.present < mw.nframes) x.probe("padded");
                if (shaped) x.probe("other-format-encoded");
                x.nontrivial(); x.time(mw.nframes * 1000000 / mw.rate);
            }
            x.sig(mix(mix(ok + 2 * r.limit + 4 * changed, r.exit), mix(s.get("fmt") + 100000 * s.get("ext"), mix(op.arg(0) & 5, s.ops.size()))));
        }
    }
}
static Register r21({ "C21", gen_c21, exec_c21, 60 });
