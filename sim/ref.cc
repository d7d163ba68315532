#include "ref.h"
#include "tables_frozen.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <map>

namespace ref {

using frozen::Sym;

int ns(int dt, int sr) { return frozen::ns_2m5[sr] * (1 + dt); }
int ne(int dt, int sr) { return frozen::ne_2m5[sr] * (1 + dt); }
int nd(int dt, int sr)
{ return (ns(dt, sr) + (dt == DT_7M5 ? frozen::ns_4m[sr] : frozen::ns_2m5[sr])) / 2; }
int delay(int dt, int sr) { return 2 * nd(dt, sr) - ns(dt, sr); }
int min_bytes(int dt, int sr)
{ return is_hr(sr) ? frozen::hr_lim[dt][sr - SR_48HR][0] : 20; }
int max_bytes(int dt, int sr)
{ return is_hr(sr) ? frozen::hr_lim[dt][sr - SR_48HR][1] : 400; }
int dt_us(int dt) { return 2500 * (1 + dt); }
int sr_hz(int sr)
{ static const int h[] = { 8000, 16000, 24000, 32000, 48000, 48000, 96000 }; return h[sr]; }

bool lpc_weighting(int dt, int nbytes) { return nbytes * 8 < 120 * (1 + dt); }

// --- Bit reader --------------------------------------------------------------

struct Reader {
    const uint8_t *d; int n;
    int plain = 0;                   // bits taken from the end
    uint32_t low = 0, range = 0xffffff;
    int fw = 0; bool error = false;
    Reader(const uint8_t *d, int n) : d(d), n(n)
    { for (int i = 0; i < 3; i++) low = low << 8 | next(); }
    int next() { return fw < n ? d[fw++] : 0; }
    int bit()
    {
        int p = plain++;
        return p < 8 * n ? d[n - 1 - p / 8] >> (p % 8) & 1 : 0;
    }
    int bits(int k) { int v = 0; for (int i = 0; i < k; i++) v |= bit() << i; return v; }
    int symbol(const Sym *m)
    {
        uint32_t r = range >> 10 & 0xffff;
        if (low >= r << 10) error = true;
        if (error) low = 0;
        int s = 0;
        for (int i = 16; i > 0; i--)
            if (low >= r * m[i].low) { s = i; break; }
        low -= r * m[s].low;
        range = r * m[s].range;
        while (range && range < 0x10000) { low = (low << 8 | next()) & 0xffffff; range <<= 8; }
        return s;
    }
    int left() const
    {
        int rb = 0; for (uint32_t r = range; r; r >>= 1) rb++;
        return 8 * n - 8 * fw + 24 - plain - (26 - rb);
    }
};

// --- Writer ------------------------------------------------------------------

struct Writer {
    std::vector<uint8_t> plain;      // bits
    std::vector<uint8_t> out;        // settled arithmetic-coder bytes
    uint64_t low = 0; uint32_t range = 0xffffff;
    int shifts = 0;
    void bits(uint32_t v, int n) { for (int i = 0; i < n; i++) plain.push_back(v >> i & 1); }
    void carry() { for (int i = (int)out.size() - 1; i >= 0 && ++out[i] == 0; i--); }
    void symbol(const Sym *m, int s)
    {
        uint32_t r = range >> 10;
        low += (uint64_t)r * m[s].low;
        range = r * m[s].range;
        if (low >> 24) { carry(); low &= 0xffffff; }
        while (range && range < 0x10000) {
            out.push_back(low >> 16); low = (low << 8) & 0xffffff; range <<= 8;
        }
    }
    int rbits() const { int rb = 0; for (uint32_t r = range; r; r >>= 1) rb++; return rb; }
    int left(int nbytes) const
    {
        return 8 * nbytes - (int)plain.size() - 8 * (int)out.size() - (26 - rbits());
    }
    bool finish(int nbytes, uint8_t *d)
    {
        memset(d, 0, nbytes);
        int nb = 25 - rbits();
        uint64_t mask = 0xffffffu >> nb, high = low + range;
        uint64_t val = (low + mask) & ~mask;
        if (val + mask >= high) { nb++; mask >>= 1; val = (low + mask) & ~mask; }
        if (val >> 24) { carry(); val &= 0xffffff; }
        int total = 8 * (int)out.size() + nb;
        if (total + (int)plain.size() > 8 * nbytes) return false;
        for (size_t i = 0; i < out.size(); i++) d[i] = out[i];
        for (int i = 0; i < nb; i++) {
            int p = 8 * (int)out.size() + i;
            if (val >> (23 - i) & 1) d[p / 8] |= 0x80 >> (p % 8);
        }
        for (size_t i = 0; i < plain.size(); i++)
            if (plain[i]) d[nbytes - 1 - i / 8] |= 1 << (i % 8);
        return true;
    }
};

// --- Parsing -----------------------------------------------------------------

static int bw_bits(int sr)
{ return is_hr(sr) ? 0 : (sr > SR_8) + (sr > SR_16) + (sr > SR_32); }

static int nq_bits(int dt, int sr)
{
    int n = ne(dt, sr);
    return 4 + (n > 32) + (n > 64) + (n > 128) + (n > 256) + (n > 512);
}

int sr_index(int sr) { return is_hr(sr) ? 4 + (sr - SR_48HR) : sr; }
bool high_rate(int sr, int nbytes)
{ return nbytes > 20 * (1 + sr_index(sr)) && sr < SR_96HR; }

static const int size_a0 = 2390004, size_a1 = 15158272;

static bool parse_sns(Reader &r, Frame &f)
{
    Sns &s = f.sns; s = Sns();
    auto B = [&](int n) { int v = r.bits(n); f.toks.push_back({ 0, 0, v, n }); return v; };
    s.lfcb = B(5); s.hfcb = B(5);
    int msb = B(1);
    s.gain = B(1 + msb);
    s.ls_a = B(1);
    int mux = B(25 - msb);
    if (!msb) {
        if (mux >= 14 * size_a0) return false;
        s.idx_a = mux % size_a0;
        int q = mux / size_a0;
        if (q < 2) { s.shape = 1; s.gain = 2 * s.gain + q % 2; }
        else { s.shape = 0; s.idx_b = (q - 2) / 2; s.ls_b = (q - 2) & 1; }
    } else {
        if (mux >= size_a1 + 1549824) return false;
        if (mux < size_a1) { s.shape = 2; s.idx_a = mux; }
        else {
            s.shape = 3; mux -= size_a1;
            s.idx_a = mux / 2; s.gain = 2 * s.gain + mux % 2;
        }
    }
    return true;
}

bool parse(const uint8_t *d, int nbytes, int dt, int sr, Frame &f)
{
    f = Frame();
    Reader r(d, nbytes);
    auto B = [&](int n) { int v = r.bits(n); f.toks.push_back({ 0, 0, v, n }); return v; };
    auto bad = [&](const char *w) { f.why = w; f.bits_left = r.left(); f.ac_error = r.error; return f.ok = false; };
    const int N = ne(dt, sr);
    f.x.assign(N + 2, 0);

    if (is_hr(sr)) f.bw = sr;                     // full bandwidth of the mode
    else { f.bw = bw_bits(sr) ? B(bw_bits(sr)) : 0; if (f.bw > sr) return bad("bw"); }

    f.nq = 2 * (B(nq_bits(dt, sr)) + 1);
    f.lsb_mode = B(1);
    f.g_idx = B(8);
    if (f.nq > N) return bad("nq");

    f.nfilters = 1 + (dt >= DT_5M && f.bw >= SR_32);
    int w = lpc_weighting(dt, nbytes);
    for (int i = 0; i < f.nfilters; i++) {
        if (!B(1)) continue;
        int o = r.symbol(frozen::tns_order[w]);
        f.toks.push_back({ 2, w, o, 0 });
        f.rc_order[i] = o + 1;
        if (dt <= DT_5M && f.rc_order[i] > 4) return bad("tns order");
        if (f.rc_order[i] > 8) return bad("tns order 8");
        for (int k = 0; k <= o; k++) {
            int c = r.symbol(frozen::tns_coef[k]);
            f.toks.push_back({ 3, k, c, 0 });
            f.rc[i][k] = c - 8;
        }
    }

    f.pitch = B(1);
    if (!parse_sns(r, f)) return bad("sns mux");
    if (f.pitch) { f.ltpf_active = B(1); f.pitch_idx = B(9); }
    f.nf = B(3);

    const int hr = is_hr(sr), maxl = hr ? 22 : 14;
    const bool hi = high_rate(sr, nbytes);
    unsigned state = 0; uint32_t seed = 0;
    for (int i = 0; i < f.nq; i += 2) {
        int h = i >= (N + 2) / 2;
        const uint8_t *lut = frozen::spec_lookup[hi][h][state];
        int k = 0, shl = 0; long u = 0, v = 0;
        auto S = [&]() {
            int s = r.symbol(frozen::spec_model[lut[k]]);
            f.toks.push_back({ 1, lut[k], s, 0 });
            return s;
        };
        int s = S();
        if (f.lsb_mode && s == 16) { k = 1; s = S(); shl = 1; }
        while (s == 16 && shl < maxl) {
            u |= (long)B(1) << shl; v |= (long)B(1) << shl; shl++;
            if (k < 3) k++;
            s = S();
        }
        if (s == 16) return bad("escape");
        f.max_shl = std::max(f.max_shl, shl);
        int a = s % 4, b = s / 4;
        u |= (long)a << shl; v |= (long)b << shl;
        f.x[i] = u && B(1) ? -u : u;
        f.x[i + 1] = v && B(1) ? -v : v;
        seed += (u & 0x7fff) * i + (v & 0x7fff) * (i + 1);
        state = ((state << 4) + (k > 1 ? 12 + k : 1 + (a + b) * (k + 1))) & 0xff;
    }

    f.q = f.x;
    int room = std::max(r.left(), 0);
    f.residual_room = room;
    if (f.lsb_mode) {
        for (int i = 0; i < f.nq && room > 0; i += 2) {
            bool big = fabs(f.x[i]) >= 4 || fabs(f.x[i + 1]) >= 4;
            if (!big) continue;
            for (int j = 0; j < 2; j++) {
                double &x = f.x[i + j];
                if (room <= 0) break;
                room--;
                if (!B(1)) continue;
                if (x) { x += x < 0 ? -1 : 1; seed += i + j; }
                else if (room > 0) { room--; x = B(1) ? -1 : 1; seed += i + j; }
            }
        }
    } else {
        double lo = hr ? 0.25 : 5 / 16., hi2 = hr ? 0.25 : 3 / 16.;
        for (int it = 0; it < (hr ? 20 : 1) && room > 0; it++, lo /= 2, hi2 /= 2)
            for (int i = 0; i < f.nq && room > 0; i++) {
                double &x = f.x[i];
                if (x == 0) continue;
                // toward zero by `lo`, or away from zero by `hi2`, sign-wise
                bool b = B(1); room--; f.res.push_back(b);
                if (!b) x -= x < 0 ? lo : hi2;
                else x += x > 0 ? lo : hi2;
            }
    }
    f.nf_seed = seed & 0xffff;
    f.bits_left = r.left();
    f.ac_error = r.error;
    if (r.error) return bad("arithmetic code");
    if (f.bits_left < 0) return bad("overread");
    return f.ok = true;
}

bool serialise(const std::vector<Tok> &toks, int dt, int nbytes, int, uint8_t *out)
{
    (void)dt;
    Writer w;
    for (auto &t : toks) {
        if (t.kind == 0) w.bits(t.v, t.n);
        else w.symbol(t.kind == 1 ? frozen::spec_model[t.model] :
                      t.kind == 2 ? frozen::tns_order[t.model] : frozen::tns_coef[t.model], t.v);
    }
    return w.finish(nbytes, out);
}

uint64_t Frame::shape_sig() const
{
    int lq = 0; while ((2 << lq) < nq) lq++;
    return (uint64_t)ok | bw << 1 | lq << 4 | lsb_mode << 8 | (rc_order[0] > 0) << 9
        | (rc_order[1] > 0) << 10 | pitch << 11 | ltpf_active << 12 | sns.shape << 13
        | nf << 15 | (g_idx >> 5) << 18 | std::min(max_shl, 15) << 21
        | (uint64_t)(residual_room > 0) << 25;
}

// --- Synthesis ---------------------------------------------------------------

Decoder::Decoder(int dt, int sr, int sr_pcm) : dt(dt), sr(sr), sr_pcm(sr_pcm)
{
    mem.assign(nd(dt, sr_pcm), 0);
    xg.assign(ne(dt, sr), 0);
    hist.assign(8192, 0);
    lt_x.assign(16, 0);
}

static double gain10(int g) { return pow(10., g / 28.); }

int gain_offset(int sr, int nbytes)
{
    int i = sr_index(sr);
    int off = (nbytes * 8) / (10 * (1 + i));
    return std::min(sr >= SR_96HR ? 181 : 255, 105 + 5 * (1 + i) + std::min(off, 115));
}

static void noise_fill(int dt, int bw, const Frame &f, double g, std::vector<double> &x)
{
    int stop = ne(dt, std::min(bw, (int)SR_48)), w = 1 + (dt >= DT_7M5) + (dt >= DT_10M);
    uint32_t seed = f.nf_seed;
    double s = g * (8 - f.nf) / 16;
    int run = 0;
    // a line is filled when it and its w neighbours on both sides are zero,
    // lines outside [start, min(nq, stop)) counting as zero
    for (int i = 6 * (1 + dt) - w; i < stop + w; i++) {
        bool zero = i >= std::min(f.nq, stop) || f.x[i] == 0;
        run = zero ? run + 1 : 0;
        if (run > 2 * w) {
            seed = (13849 + seed * 31821) & 0xffff;
            x[i - w] = seed & 0x8000 ? -s : s;
        }
    }
}

static void tns_synth(int dt, const Frame &f, std::vector<double> &x)
{
    static const int q[9] = { 0, 0x1785, 0x2e3d, 0x4362, 0x563c, 0x6625, 0x7295, 0x7b1d, 0x7f74 };
    int nf = ne(dt, std::min(f.bw, (int)SR_48)) >> (f.nfilters - 1);
    int e = 3 * (1 + dt);
    double s[9] = { 0 };
    for (int j = 0; j < f.nfilters; j++) {
        int b = e; e = nf * (1 + j);
        int o = f.rc_order[j];
        if (!o) continue;
        double rc[8] = { 0 };
        for (int k = 0; k < o; k++) {
            int c = f.rc[j][k];
            rc[k] = (c < 0 ? -q[-c] : q[c]) / 32768.;
        }
        for (int i = b; i < e; i++) {
            double v = x[i];
            for (int k = 7; k >= 0; k--) {
                v -= s[k] * rc[k];
                if (k < 7) s[k + 1] = s[k] + rc[k] * v;
            }
            s[0] = v; x[i] = v;
        }
        for (int k = o; k < 8; k++) s[k] = 0;
    }
}

static void mpvq(long idx, bool neg, int pulses, int *c, int n)
{
    int pos = 0;
    for (; pos < n && idx; pos++) {
        int dim = n - 1 - pos, k = 0;
        while (idx < frozen::mpvq[dim][pulses - k]) k++;
        idx -= frozen::mpvq[dim][pulses - k];
        c[pos] = neg ? -k : k;
        pulses -= k;
        if (k) { neg = idx & 1; idx >>= 1; }
    }
    if (pos < n) c[pos++] = neg ? -pulses : pulses;
    for (; pos < n; pos++) c[pos] = 0;
}

void sns_pulses(const Sns &s, int *c)
{
    static const int np[4] = { 10, 10, 8, 6 };
    for (int i = 0; i < 16; i++) c[i] = 0;
    mpvq(s.idx_a, s.ls_a, np[s.shape], c, s.shape < 2 ? 10 : 16);
    if (s.shape == 0) mpvq(s.idx_b, s.ls_b, 1, c + 10, 6);
}

double quant_step(int sr, int nbytes, const Frame &f) { return gain10(f.g_idx - gain_offset(sr, nbytes)); }

static void sns_scale(int dt, int sr, const Sns &s, double *g)
{
    int c[16];
    sns_pulses(s, c);
    double e = 0; for (int v : c) e += (double)v * v;
    double scf[16], vg = frozen::vq_gain[s.shape][s.gain];
    for (int n = 0; n < 16; n++) {
        double a = 0;
        for (int k = 0; k < 16; k++)
            a += c[k] / sqrt(e) * 2 * sqrt(k ? 1 / 32. : 1 / 64.) * cos(M_PI * k * (2 * n + 1) / 32) ;
        scf[n] = (n < 8 ? frozen::lfcb[s.lfcb][n] : frozen::hfcb[s.hfcb][n - 8]) + vg * a;
    }
    double f[64]; // interpolation of the 16 factors
    f[0] = f[1] = scf[0];
    for (int i = 0; i < 15; i++)
        for (int j = 0; j < 4; j++)
            f[4 * i + 2 + j] = scf[i] + (0.125 + 0.25 * j) * (scf[i + 1] - scf[i]);
    f[62] = scf[15] + 0.125 * (scf[15] - scf[14]);
    f[63] = scf[15] + 0.375 * (scf[15] - scf[14]);
    int nb = frozen::num_bands[dt][sr];
    int n4 = nb < 32 ? 32 % nb : 0, n2 = nb < 32 ? nb - n4 : 64 - nb;
    int p = 0;
    for (int b = 0; b < nb; b++) {
        int m = b < n4 ? 4 : b < n4 + n2 ? 2 : 1;
        double a = 0;
        for (int j = 0; j < m; j++) a += f[p++];
        g[b] = exp2(a / m);
    }
}

// Output samples of one block: inverse MDCT, window, overlap-add
void imdct(int dt, int sr_pcm, int sr, const double *X, int nX,
           std::vector<double> &mem, std::vector<double> &y)
{
    static std::map<int, std::vector<double>> tabs;
    const int N = ns(dt, sr_pcm), D = nd(dt, sr_pcm), Z = N - D;
    auto &ct = tabs[N];
    if (ct.empty()) {
        ct.resize(8 * N);
        for (int i = 0; i < 8 * N; i++) ct[i] = cos(2 * M_PI * i / (8. * N));
    }
    double sc = sqrt(2. / N) * sqrt((double)N / ns(dt, sr));
    std::vector<double> t(2 * N);
    auto val = [&](int n) {
        double a = 0; unsigned f = 2 * n + 1 + N, step = 2 * f % (8 * N), i = f % (8 * N);
        for (int k = 0; k < nX; k++) {
            a += X[k] * ct[i];
            i += step; if (i >= 8u * N) i -= 8 * N;
        }
        return sc * a;
    };
    // symmetries: t(N-1-n) = -t(n) for n < N/2.. ; t(2N-1-n) = t(N+n)
    for (int n = 0; n < N / 2; n++) { t[n] = val(n); t[N - 1 - n] = -t[n]; }
    for (int n = 0; n < N / 2; n++) { t[N + n] = val(N + n); t[2 * N - 1 - n] = t[N + n]; }
    const float *w = frozen::win[dt][sr_pcm];
    auto z = [&](int i) {       // windowed sample; the window is N + D long
        int j = 2 * N - 1 - i;
        return j < N + D ? t[i] * w[j] : 0.;
    };
    y.resize(N);
    for (int i = 0; i < N; i++)
        y[i] = z(Z + i) + (i < D ? mem[i] : 0);
    for (int i = 0; i < D; i++)
        mem[i] = z(Z + N + i);
}

void Decoder::skip_lost()
{
    plc_alpha *= 0.85; plc_count++;
    for (int i = 0; i < ne(dt, sr); i++) plc_seed = (16831 + plc_seed * 12821) & 0xffff;
    std::fill(mem.begin(), mem.end(), 0); std::fill(hist.begin(), hist.end(), 0);
    std::fill(lt_x.begin(), lt_x.end(), 0); lt_active = false; peak = 0;
}

int Decoder::decode(const uint8_t *in, int nbytes, std::vector<double> &out, Frame *fr)
{
    Frame f;
    bool good = in && parse(in, nbytes, dt, sr, f);
    const int NE = ne(dt, sr), N = ns(dt, sr_pcm);
    std::vector<double> x(NE + 4, 0);
    peak = 0; amp = 0;
    auto track = [&](const std::vector<double> &v, int n)
    { for (int i = 0; i < n; i++) peak = std::max(peak, fabs(v[i])); };

    if (good) {
        plc_count = 1; plc_alpha = 1;
        double g = gain10(f.g_idx - gain_offset(sr, nbytes));
        for (int i = 0; i < f.nq; i++) x[i] = f.x[i] * g;
        if (f.nq > 2 || f.x[0] || f.x[1] || f.g_idx > 0 || f.nf < 7)
            noise_fill(dt, f.bw, f, g, x);
        tns_synth(dt, f, x);
        double sg[64]; sns_scale(dt, sr, f.sns, sg);
        // an upper bound of what rounding can be amplified to
        track(x, NE);
        const int *lim = frozen::band_lim[dt][sr];
        for (int b = 0; b < frozen::num_bands[dt][sr]; b++)
            for (int i = lim[b]; i < lim[b + 1]; i++) x[i] *= sg[b];
        peak = 0; track(x, NE);
        xg.assign(x.begin(), x.begin() + NE);
    } else {
        plc_alpha *= plc_count < 4 ? 1. : plc_count < 8 ? 0.9 : 0.85;
        plc_count++;
        for (int i = 0; i < NE; i++) {
            plc_seed = (16831 + plc_seed * 12821) & 0xffff;
            x[i] = plc_alpha * (plc_seed & 0x8000 ? -xg[i] : xg[i]);
        }
        track(x, NE);
    }
    std::vector<double> y;
    imdct(dt, sr_pcm, sr, x.data(), std::min(NE, N), mem, y);
    track(y, N);

    if (!is_hr(sr)) {
        const int s = sr_pcm, w = std::max(4, frozen::ns_4m[s] >> 4);
        int p = good && f.pitch ? f.pitch_idx : 0;
        int pitch = p >= 440 ? (p - 283) * 4 :
            p >= 380 ? ((p >> 1) - 63) * 4 + (p & 1) * 2 : ((p >> 2) + 32) * 4 + (p & 3);
        pitch = (pitch * ns(DT_10M, s) + 64) / 128;
        int nbits = nbytes * 8 * 4 / (1 + dt);
        if (dt == DT_2M5) nbits = (6 * nbits + 5) / 10;
        if (dt == DT_5M) nbits -= 160;
        int g_idx = std::max(nbits / 80, 3 + s) - (3 + s);
        bool active = good && f.pitch && f.ltpf_active && g_idx < 4;
        double g = active ? 0.4 - 0.05 * g_idx : 0;
        int gi = std::min(g_idx, 3);
        const int nt = N / (1 + dt), H = (int)hist.size();

        std::vector<double> raw(y);               // unfiltered inputs
        // out[i] = in[i] - fade * (num * inputs - den * past outputs)
        auto filter = [&](std::vector<double> &v, const std::vector<double> &src,
                          const double *before, int b, int e, int pt, double g, int gi, int fade) {
            for (int i = b; i < e; i++) {
                double a = 0;
                for (int m = 0; m < w; m++) {
                    int k = i - m;
                    double xi = k >= 0 ? src[k] : before[16 + k];
                    a += 0.85 * g * frozen::ltpf_cnum[s][gi][m] * xi;
                    int j = i - pt / 4 + w / 2 - 1 - m;
                    double yi = j >= 0 ? v[j] : hist[H + j];
                    a -= g * frozen::ltpf_cden[s][pt & 3][m] * yi;
                }
                double fd = fade == 0 ? 1 : fade > 0 ? (double)i / nt : 1 - (double)i / nt;
                v[i] = src[i] - fd * a;
            }
        };
        double g_old = 0.4 - 0.05 * lt_gidx;
        std::vector<double> hist_in(hist.end() - 16, hist.end());
        if (lt_active && !(active && lt_pitch == pitch)) {
            filter(y, raw, lt_x.data(), 0, nt, lt_pitch, g_old, lt_num, -1);
            if (active) {
                std::vector<double> src(y);
                filter(y, src, hist_in.data(), 0, nt, pitch, g, gi, 1);
            }
        } else if (active)
            filter(y, raw, lt_x.data(), 0, nt, pitch, g, gi, lt_active ? 0 : 1);
        if (active && N > nt)
            filter(y, raw, lt_x.data(), nt, N, pitch, g, gi, 0);
        for (int i = 0; i < 16; i++) lt_x[i] = raw[N - 16 + i];
        lt_active = active; lt_pitch = pitch; lt_gidx = g_idx; lt_num = gi;
    }
    track(y, N);
    hist.erase(hist.begin(), hist.begin() + N);
    hist.insert(hist.end(), y.begin(), y.end());
    out = y;
    if (fr) *fr = f;
    return good ? 0 : 1;
}

uint64_t Decoder::state_sig() const
{
    return (uint64_t)lt_active | std::min(plc_count, 10) << 1 | lt_num << 5 | lt_gidx << 7;
}


// --- Forging -----------------------------------------------------------------

void forge(const std::function<int64_t(int64_t)> &R, int dt, int sr, int nbytes,
           const Forge &o, uint8_t *out)
{
    const int N = ne(dt, sr), hr = is_hr(sr);
    auto opt = [&](int v, int n) { return v >= 0 ? v : (int)R(n); };
    int bw = hr ? sr : o.bw >= 0 ? std::min(o.bw, sr) : (int)R(sr + 1);
    bool lsb = o.lsb >= 0 ? o.lsb : R(4) == 0;
    int g = opt(o.g_idx, 256);
    int nfil = 1 + (dt >= DT_5M && bw >= SR_32);
    int wgt = lpc_weighting(dt, nbytes);
    int order[2], rc[2][8];
    for (int f = 0; f < 2; f++) {
        order[f] = o.tns == 0 ? 0 : o.tns > 0 || R(2) ? 1 + R(dt <= DT_5M ? 4 : 8) : 0;
        for (int k = 0; k < 8; k++) rc[f][k] = o.tns == 2 ? (R(2) ? 8 : -8) : (int)R(17) - 8;
    }
    bool pitch = o.pitch >= 0 ? o.pitch : R(2), act = o.active >= 0 ? o.active : R(2);
    int pidx = opt(o.pitch_idx, 512), nf = opt(o.nf, 8);
    int lf = R(32), hf = R(32), msb = R(2), gain = R(2 << msb), ls = R(2);
    int mux = msb ? R(size_a1 + 1549824) : R(14LL * size_a0);
    if (o.edge) {
        static const int pi[] = { 0, 1, 379, 380, 381, 439, 440, 511 },
                         m0[] = { 0, size_a0 - 1, size_a0, 2 * size_a0 - 1, 2 * size_a0, 3 * size_a0, 14 * size_a0 - 1 },
                         m1[] = { 0, size_a1 - 1, size_a1, size_a1 + 1, size_a1 + 1549823 };
        pidx = pi[R(8)]; mux = msb ? m1[R(5)] : m0[R(7)];
        if (R(2)) for (auto &r : rc) for (int &k : r) k = R(2) ? 8 : -8;
        if (R(2)) order[0] = order[1] = dt <= DT_5M ? 4 : 8;
    }
    const int lim = msb ? size_a1 + 1549824 : 14 * size_a0, room = (1 << (25 - msb)) - lim;
    if (o.bad == 1) mux = R(3) ? lim + R(room) : R(2) ? lim : lim + room - 1;
    if (o.bad == 3 && dt <= DT_5M) order[R(nfil)] = R(2) ? 5 : 5 + R(4);
    if (o.bad == 4 && bw_bits(sr) && sr < (1 << bw_bits(sr)) - 1) bw = sr + 1 + R((1 << bw_bits(sr)) - 1 - sr);
    // spectrum
    std::vector<long> q(N + 2, 0);
    int top = (int)R(o.mag + 1), stop = o.edge && R(2) ? (R(2) ? N : 2) : 2 + R(N - 1);
    for (int i = 0; i < stop && i < N; i++) {
        int m = std::max(0, top - (int)(i * R(top + 2) / (stop + 1)));
        long v = R((1L << m) + 1);
        q[i] = R(3) ? (R(2) ? v : -v) : 0;
    }
    for (int nq = std::min(N, (stop + 1) & ~1);; nq = std::max(2, (nq * 3 / 4) & ~1)) {
        Writer w;
        if (bw_bits(sr)) w.bits(bw, bw_bits(sr));
        int nb = nq / 2 - 1, top_n = 1 << nq_bits(dt, sr);
        if (o.bad == 2 && N / 2 < top_n) nb = R(2) ? N / 2 : N / 2 + R(top_n - N / 2);
        w.bits(nb, nq_bits(dt, sr)); w.bits(lsb, 1); w.bits(g, 8);
        for (int f = 0; f < nfil; f++) {
            w.bits(order[f] > 0, 1);
            if (!order[f]) continue;
            w.symbol(frozen::tns_order[wgt], order[f] - 1);
            for (int k = 0; k < order[f]; k++) w.symbol(frozen::tns_coef[k], rc[f][k] + 8);
        }
        w.bits(pitch, 1);
        w.bits(lf, 5); w.bits(hf, 5); w.bits(msb, 1); w.bits(gain, 1 + msb);
        w.bits(ls, 1); w.bits(mux, 25 - msb);
        if (pitch) { w.bits(act, 1); w.bits(pidx, 9); }
        w.bits(nf, 3);
        unsigned state = 0;
        bool hi = high_rate(sr, nbytes);
        for (int i = 0; i < nq; i += 2) {
            const uint8_t *lut = frozen::spec_lookup[hi][i >= (N + 2) / 2][state];
            long a = labs(q[i]), b = labs(q[i + 1]);
            int k = 0, done = 0, shr = 0;
            if ((a | b) >> 2) {
                if (lsb) { w.symbol(frozen::spec_model[lut[0]], 16); k = 1; a >>= 1; b >>= 1; }
                while ((a | b) >> (2 + done)) {
                    w.bits(a >> done & 1, 1); w.bits(b >> done & 1, 1);
                    w.symbol(frozen::spec_model[lut[std::min(k, 3)]], 16);
                    done++; k++;
                }
                shr = done; k = std::min(k, 3);
            }
            // the reader takes the signs after the symbol; plain bits and
            // symbols are on separate channels, only their own order matters
            if (a) w.bits(q[i] < 0, 1);
            if (b) w.bits(q[i + 1] < 0, 1);
            a >>= shr; b >>= shr;
            w.symbol(frozen::spec_model[lut[k]], a + 4 * b);
            state = ((state << 4) + (k > 1 ? 12 + k : 1 + (a + b) * (k + 1))) & 0xff;
        }
        int left = w.left(nbytes);
        if (left < 10 && nq > 2) continue;
        int fill = R(3) ? left - 9 : R(std::max(1, left - 9));
        for (int i = 0; i < fill; i++) w.bits(R(2), 1);
        if (!w.finish(nbytes, out))
            for (int i = 0; i < nbytes; i++) out[i] = R(256);
        return;
    }
}

// --- Encoder analysis ----------------------------------------------------------

void mdct(int dt, int sr_pcm, int sr, const double *in, std::vector<double> &X)
{
    static std::map<int, std::vector<double>> tabs;
    const int N = ns(dt, sr_pcm), D = nd(dt, sr_pcm), K = std::min(ne(dt, sr), N);
    auto &ct = tabs[N];
    if (ct.empty()) {
        ct.resize(8 * N);
        for (int i = 0; i < 8 * N; i++) ct[i] = cos(2 * M_PI * i / (8. * N));
    }
    const float *w = frozen::win[dt][sr_pcm];
    std::vector<double> v(N + D);
    for (int n = 0; n < N + D; n++) v[n] = in[n] * w[n];
    double sc = sqrt(2. / N) * sqrt((double)ns(dt, sr) / N);
    // fold 2N points to N: t(N-1-n) = -t(n), t(2N-1-n) = t(N+n)
    std::vector<double> u(N);
    auto at = [&](int n) { return n < N + D ? v[n] : 0.; };
    for (int n = 0; n < N / 2; n++) {
        u[n] = at(n) - at(N - 1 - n);
        u[N / 2 + n] = at(N + n) + at(2 * N - 1 - n);
    }
    X.assign(K, 0);
    for (int k = 0; k < K; k++) {
        double a = 0;
        for (int j = 0; j < N; j++) {
            int n = j < N / 2 ? j : N / 2 + j;
            a += u[j] * ct[(unsigned)(2 * n + 1 + N) * (2 * k + 1) % (8u * N)];
        }
        X[k] = sc * a;
    }
}

void line_gains(int dt, int sr, const Frame &f, std::vector<double> &g)
{
    double sg[64]; sns_scale(dt, sr, f.sns, sg);
    const int *lim = frozen::band_lim[dt][sr];
    g.assign(ne(dt, sr), 1);
    for (int b = 0; b < frozen::num_bands[dt][sr]; b++)
        for (int i = lim[b]; i < lim[b + 1]; i++) g[i] = sg[b];
}

double shape_lines(int dt, int sr, int nbytes, const Frame &f, std::vector<double> &X)
{
    static const int q[9] = { 0, 0x1785, 0x2e3d, 0x4362, 0x563c, 0x6625, 0x7295, 0x7b1d, 0x7f74 };
    std::vector<double> g; line_gains(dt, sr, f, g);
    for (size_t i = 0; i < X.size(); i++) X[i] /= g[i];
    int nf = ne(dt, std::min(f.bw, (int)SR_48)) >> (f.nfilters - 1), e = 3 * (1 + dt);
    double s[9] = { 0 };
    for (int j = 0; j < f.nfilters; j++) {
        int b = e; e = nf * (1 + j);
        if (!f.rc_order[j]) continue;
        for (int i = b; i < e; i++) {
            double xi = X[i], s1 = xi;
            for (int k = 0; k < f.rc_order[j]; k++) {
                double rc = (f.rc[j][k] < 0 ? -q[-f.rc[j][k]] : q[f.rc[j][k]]) / 32768.;
                double s0 = s[k]; s[k] = s1;
                s1 = rc * xi + s0;
                xi += rc * s0;
            }
            X[i] = xi;
        }
    }
    return gain10(f.g_idx - gain_offset(sr, nbytes));
}

}
