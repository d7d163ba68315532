#include "refenc.h"
#include "tables_frozen.h"
#include "tables_enc.h"
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <algorithm>
#include <set>

namespace ref {

static std::string fmt(const char *f, ...)
{
    char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}

#define BAD(c, ...) do { cls = c; why = fmt(__VA_ARGS__); return false; } while (0)

static const int PAD = 1024;

EncModel::EncModel(int dt, int sr, int srp) : dt(dt), sr(sr), srp(srp) { restart(); }

void EncModel::restart()
{
    bypass = false;
    en1 = an1 = 0; p_att = 0;
    lt.assign(1, Lt{ 0, false, 0, 0, 0 });
    xh.assign(PAD, 0); x128.assign(PAD, 0); x64.assign(PAD, 0);
    s1 = s2 = 0;
    xd.assign(nd(dt, srp), 0);
    off_lo = off_hi = 0; sp_lo = sp_hi = 0;
}

// --- Attack detector -----------------------------------------------------------

bool EncModel::attack(const int16_t *x, int nbytes)
{
    if (is_hr(srp) || srp < SR_32 || dt < DT_7M5) return false;
    bool on = dt == DT_7M5 ? nbytes >= (srp == SR_32 ? 61 : 75) && nbytes < 150
                           : nbytes > (srp == SR_32 ? 80 : 99);
    if (!on) return false;
    const int nblk = dt == DT_7M5 ? 3 : 4, r = srp == SR_32 ? 2 : 3, sh = srp == SR_32 ? 1 : 2;
    auto down = [&](int n) { int a = 0; for (int i = 0; i < r; i++) a += x[n * r + i]; return (int16_t)(a >> sh); };
    int pos = 0;
    for (int b = 0; b < nblk; b++) {
        long e = 0;
        for (int n = 40 * b; n < 40 * b + 40; n++) {
            int y = (int16_t)((3 * down(n) - 4 * down(n - 1) + down(n - 2)) >> 3);
            e += (long)y * y >> 5;
        }
        long a = std::max(an1 >> 2, en1);
        if ((e >> 3) > a + (a >> 4)) pos = b + 1;
        en1 = e; an1 = a;
    }
    bool att = pos > 0 || p_att >= 1 + nblk / 2;
    p_att = pos;
    return att;
}

// --- Pitch ----------------------------------------------------------------------

static float dot(const int16_t *a, const int16_t *b, int n)
{
    int64_t v = 0;
    for (int i = 0; i < n; i++) v += (int64_t)a[i] * b[i];
    return (float)(int32_t)((v + 32) >> 6);
}

bool EncModel::pitch(const int16_t *x, const Frame &f, int nn, std::string &cls, std::string &why)
{
    if (bypass) {
        if (f.pitch) BAD("pitch-disabled", "pitch data in the frame of an encoder with the pitch filter disabled");
        return true;
    }
    // 12.8 kHz
    const int n = 32 * (1 + dt);
    const bool t64 = srp == SR_8 || srp == SR_16 || srp == SR_32;
    static const int fac[7] = { 8, 4, 8, 2, 4, 4, 2 };
    const int p = fac[srp], w = t64 ? 80 / p : 240 / p, stepi = t64 ? 5 : 15;
    for (int i = 0; i < n; i++) {
        int64_t un = 0;
        for (int k = 0; k < w; k++)
            un += (int64_t)frozen::h12k8[srp][stepi * i % p * w + k] * x[stepi * i / p - (w - 1) + k];
        int32_t xn = (int32_t)un;
        const int64_t a1 = -2110217691, a2 = 1037111617, b1 = -2110535566, b2 = 1055267782;
        int32_t yn = (int32_t)((s1 + xn * b2) >> 30);
        s1 = s2 + xn * b1 - yn * a1;
        s2 = xn * b2 - yn * a2;
        x128.push_back((int16_t)((int32_t)((uint32_t)yn + (1u << 15)) >> 16));
    }
    const int dly = dt == DT_7M5 ? 44 : 24;
    const int16_t *c = &x128[x128.size() - n - dly];
    for (int i = 0; i < n / 2; i++) {
        const int16_t *q = c + 2 * i - 1;
        x64.push_back((q[0] * 18477 + (q[-1] + q[1]) * 15424 + (q[-2] + q[2]) * 8105) >> 16);
    }
    int n12 = n, n6 = n / 2;
    if (dt == DT_2M5) { c -= n; n12 *= 2; n6 *= 2; }
    const int16_t *d = &x64[x64.size() - n6];

    float r[98];
    for (int k = 0; k < 98; k++) r[k] = dot(d, d - 17 - k, n6);
    double wm = 0; int wa = 0;
    for (int k = 0; k < 98; k++) {
        double v = r[k] * (1 - .5 * k / 97);
        if (k == 0 || v > wm) wm = v, wa = k;
    }
    std::vector<int> t1s;
    if (wm == 0) t1s.push_back(wa);
    else for (int k = 0; k < 98; k++)
        if (r[k] * (1 - .5 * k / 97) >= wm - 3e-5 * fabs(wm)) t1s.push_back(k);

    const float e0 = dot(d, d, n6);
    auto corr = [&](int t) {
        if (!(r[t] > 0)) return 0.;
        return r[t] / sqrt((double)e0 * dot(d - 17 - t, d - 17 - t, n6));
    };
    // refinement of a lag: (index, pitch) candidates
    struct P { int idx, pitch; double nc; bool nan; };
    auto refine = [&](int tc) {
        std::vector<P> out;
        int r0 = std::max(32, 2 * tc - 4), r1 = std::min(228, 2 * tc + 4);
        std::vector<float> q(r1 - r0 + 9);
        for (int k = 0; k < (int)q.size(); k++) q[k] = dot(c, c - (r0 - 4 + k), n12);
        int e = r0;
        for (int k = r0; k <= r1; k++) if (q[4 + k - r0] > q[4 + e - r0]) e = k;
        static const double h4[4][9] = {   // resampling by 4, taps -4..4
            { 0, 1.53572770e-02, -4.72963246e-02, 8.35788573e-02, 8.98638285e-01, 8.35788573e-02, -4.72963246e-02, 1.53572770e-02, 0 },
            { 0, 2.74547165e-03, 4.59833449e-03, -7.54404636e-02, 8.17488686e-01, 3.30182571e-01, -1.05835916e-01, 2.86823405e-02, -2.87456116e-03 },
            { 0, -3.00125103e-03, 2.95038503e-02, -1.30305021e-01, 6.03297008e-01, 6.03297008e-01, -1.30305021e-01, 2.95038503e-02, -3.00125103e-03 },
            { 0, -2.87456116e-03, 2.86823405e-02, -1.05835916e-01, 3.30182571e-01, 8.17488686e-01, -7.54404636e-02, 4.59833449e-03, 2.74547165e-03 } };
        // phase d > 0 lies between lag e and e + d / 4
        auto interp = [&](int d, double &mag) {
            double y = 0; mag = 0;
            for (int k = -4; k <= 4; k++) {
                double h;
                if (d > 0) h = h4[d][k + 4];
                else if (d < 0) h = h4[-d][4 - k];
                else h = h4[0][k + 4];
                if (h == 0) continue;
                double v = h * q[4 + e - r0 + k];
                y += v; mag += fabs(v);
            }
            return y;
        };
        struct C { int f; double v, m; };
        std::vector<C> cs;
        for (int g : { 0, 1, -1, 2, -2, 3, -3 }) {
            if (g && e >= 157) continue;
            if (g && e >= 127 && (g & 1)) continue;
            if (g < 0 && e <= 32) continue;
            C k; k.f = g; k.v = interp(g, k.m); cs.push_back(k);
        }
        double mx = -1e300; for (auto &k : cs) mx = std::max(mx, k.v);
        for (auto &k : cs) {
            if (k.v < mx - 2e-6 * k.m) continue;
            int pt = 4 * e + k.f, ee = pt >> 2, ff = pt & 3;
            P o; o.pitch = pt;
            o.idx = ee < 127 ? pt - 128 : ee < 157 ? 2 * ee + (ff >> 1) + 126 : ee + 283;
            static const int hi[4][4] = { { 6877, 19121, 6877, 0 }, { 3506, 18025, 11000, 220 },
                                          { 1300, 15048, 15048, 1300 }, { 220, 11000, 18025, 3506 } };
            auto itp = [&](const int16_t *z, int d, std::vector<int16_t> &o) {
                for (int i = 0; i < n12; i++)
                    o.push_back((z[i + 1] * hi[d][0] + z[i] * hi[d][1] + z[i - 1] * hi[d][2] + z[i - 2] * hi[d][3]) >> 15);
            };
            std::vector<int16_t> u, v;
            itp(c, 0, u); itp(c - ee, ff, v);
            double den = (double)dot(&u[0], &u[0], n12) * dot(&v[0], &v[0], n12);
            o.nan = den <= 0;
            o.nc = o.nan ? NAN : dot(&u[0], &v[0], n12) / sqrt(den);
            out.push_back(o);
        }
        return out;
    };

    std::vector<Lt> next;
    bool near_pitch = false, near_none = false; std::string seen;
    for (auto &h : lt) {
        int k0 = std::max(0, h.tc - 4), k1 = std::min(97, h.tc + 4), t2 = k0;
        for (int k = k0; k <= k1; k++) if (r[k] > r[t2]) t2 = k;
        double nc2 = corr(t2);
        for (int t1 : t1s) {
            double nc1 = corr(t1);
            for (int sel = 0; sel < 2; sel++) {
                bool odd = std::isinf(nc1) || std::isinf(nc2);   // division by zero: anything
                double m = odd ? 0 : nc2 - .85 * nc1;
                if (sel ? m > 2e-6 : m <= -2e-6) continue;
                if (nc1 == 0 && nc2 == 0 && !sel) continue;
                int tc = sel ? t1 : t2; double nc = sel ? nc1 : nc2;
                if (odd) near_pitch = near_none = true;
                if (nc > .6 - 2e-6) near_pitch = true;
                if (nc <= .6 + 2e-6) near_none = true;
                if (odd) ; else if (f.pitch ? nc <= .6 - 2e-6 : nc > .6 + 2e-6) continue;
                if (!f.pitch) { next.push_back({ tc, false, 0, 0, h.nc0 }); continue; }
                for (auto &q : refine(17 + tc)) {
                    if (q.idx != f.pitch_idx) { if (seen.size() < 60) seen += fmt(" index %d", q.idx); continue; }
                    for (int act = 0; act < 2; act++) {
                        const double T = 3e-6;
                        auto gt = [&](double a, double b) { return act ? !(a <= b - T) : a > b + T; };   // NaN: not known
                        // act: could it be active; !act: must it be
                        bool on;
                        if (is_hr(srp)) on = false;
                        else if (q.nan) on = act;
                        else if (h.active) {
                            int pd = abs(q.pitch - h.pitch);
                            on = gt(q.nc, .9) || (gt(q.nc, .84) && pd < 8 && gt(q.nc - h.nc0, -.1));
                        } else
                            on = gt(h.nc0, .94) && gt(q.nc, .94) && (dt == DT_10M || gt(h.nc1, .94));
                        if (on != (bool)act) continue;
                        bool ob = f.ltpf_active;
                        if (nn == 0 && ob != (bool)act) { if (seen.size() < 60) seen += act ? " active" : " inactive"; continue; }
                        if (nn == 1 && ob) continue;
                        if (nn == 2 && ob && !act) continue;
                        next.push_back({ tc, (bool)act, q.pitch, q.nc, h.nc0 });
                    }
                }
            }
        }
    }
    // same states once
    std::vector<Lt> u;
    for (auto &h : next) {
        bool dup = false;
        for (auto &g : u) dup |= g.tc == h.tc && g.active == h.active && g.pitch == h.pitch && fabs(g.nc0 - h.nc0) < 1e-6 && fabs(g.nc1 - h.nc1) < 1e-6;
        if (!dup) u.push_back(h);
    }
    if (u.empty()) {
        if (f.pitch && !near_pitch) BAD("pitch-invented", "the frame carries a pitch (index %d), the audio has none", f.pitch_idx);
        if (!f.pitch && !near_none) BAD("pitch-missed", "the frame carries no pitch, the audio has one");
        BAD("pitch-value", "the frame carries pitch index %d (filter %sactive); allowed:%s", f.pitch_idx, f.ltpf_active ? "" : "in", seen.c_str());
    }
    lt = u;
    st.open = std::max<int>(st.open, lt.size());
    if (lt.size() > 64) lt.resize(64);
    auto trim = [](std::vector<int16_t> &v) { if (v.size() > 3 * PAD) v.erase(v.begin(), v.end() - PAD); };
    trim(x128); trim(x64);
    st.pitch |= f.pitch; st.active |= f.ltpf_active;
    return true;
}

// --- Noise shaping ----------------------------------------------------------------

static const double tilt[7] = { 14, 18, 22, 26, 30, 30, 34 };

static void scale_factors(int dt, int sr, int nbytes, const std::vector<double> &eb, bool att, double *scf)
{
    double e[64], v[64];
    int nb = frozen::num_bands[dt][sr], n4 = nb < 32 ? 32 % nb : 0, n2 = nb < 32 ? nb - n4 : 64 - nb, p = 0;
    for (int b = 0; b < nb; b++)
        for (int k = b < n4 ? 4 : b < n4 + n2 ? 2 : 1; k > 0; k--) e[p++] = eb[b];
    double sum = 0;
    for (int i = 0; i < 64; i++) {
        v[i] = .25 * e[std::max(i - 1, 0)] + .5 * e[i] + .25 * e[std::min(i + 1, 63)];
        v[i] *= pow(10., i * tilt[sr] / 630);
        sum += v[i];
    }
    double floor_ = std::max(sum / 64 * 1e-4, 0x1p-32);
    for (int i = 0; i < 64; i++) v[i] = .5 * log2(std::max(v[i], floor_));
    double s[16], mean = 0;
    static const double w[6] = { 1 / 12., 2 / 12., 3 / 12., 3 / 12., 2 / 12., 1 / 12. };
    for (int g = 0; g < 16; g++) {
        s[g] = 0;
        for (int k = 0; k < 6; k++) s[g] += w[k] * v[std::min(std::max(4 * g - 1 + k, 0), 63)];
        mean += s[g] / 16;
    }
    double cf = is_hr(sr) ? .6 : .85;
    if (is_hr(sr) && 8 * nbytes > (dt == DT_10M ? 4400 : 1150 * (1 + dt))) cf *= dt == DT_10M ? .35 : .25;
    for (double &q : s) q = cf * (q - mean);
    if (att) {
        double t[16]; mean = 0;
        for (int g = 0; g < 16; g++) {
            int a = std::max(g - 2, 0), b = std::min(g + 2, 15);
            t[g] = 0;
            for (int k = a; k <= b; k++) t[g] += s[k] / (b - a + 1);
            mean += t[g] / 16;
        }
        for (int g = 0; g < 16; g++) s[g] = (dt == DT_7M5 ? .3 : .5) * (t[g] - mean);
    }
    for (int g = 0; g < 16; g++) scf[g] = s[g];
}

struct Vq { int c[4][16]; int shape, gain; double mse; };

static double vq_mse(const double *x, const int *c, double g)
{
    double e = 0, m = 0;
    for (int i = 0; i < 16; i++) e += (double)c[i] * c[i];
    for (int i = 0; i < 16; i++) { double d = x[i] - g * c[i] / sqrt(e); m += d * d; }
    return m;
}

// pulse search in the transformed residual `x`
static Vq vq_search(const double *x)
{
    Vq q; double a[16], sum = 0, corr = 0, en = 0; int n = 0;
    for (int i = 0; i < 16; i++) sum += a[i] = fabs(x[i]);
    double pf = 5 / std::max(sum, 1e-31);
    int c[16];
    for (int i = 0; i < 16; i++) {
        c[i] = (int)floor(a[i] * pf);
        n += c[i]; corr += c[i] * a[i]; en += c[i] * c[i];
    }
    auto pulses = [&](int from, int dim, int to) {
        for (; n < to; n++) {
            int best = from; double bc = -1, be = 1;
            for (int i = from; i < from + dim; i++) {
                double k = (corr + a[i]) * (corr + a[i]), e = en + 2 * c[i] + 1;
                if (bc < 0 || k * be > e * bc) bc = k, be = e, best = i;
            }
            corr += a[best]; en += 2 * c[best] + 1; c[best]++;
        }
    };
    pulses(0, 16, 6); memcpy(q.c[3], c, sizeof c);
    pulses(0, 16, 8); memcpy(q.c[2], c, sizeof c);
    for (int i = 10; i < 16; i++) { n -= c[i]; corr -= c[i] * a[i]; en -= c[i] * c[i]; c[i] = 0; }
    pulses(0, 10, 10); memcpy(q.c[1], c, sizeof c);
    n = 0; pulses(10, 6, 1); memcpy(q.c[0], c, sizeof c);
    q.mse = 1e300;
    for (int s = 0; s < 4; s++) {
        for (int i = 0; i < 16; i++) if (x[i] < 0) q.c[s][i] = -q.c[s][i];
        for (int g = 0; g < frozen::vq_count[s]; g++) {
            double m = vq_mse(x, q.c[s], frozen::vq_gain[s][g]);
            if (m < q.mse) q.mse = m, q.shape = s, q.gain = g;
        }
    }
    return q;
}

bool EncModel::shaping(const std::vector<double> &X, double dX, int nbytes, bool att, const Frame &f,
                       std::string &cls, std::string &why)
{
    const int nb = frozen::num_bands[dt][sr]; const int *lim = frozen::band_lim[dt][sr];
    std::vector<double> eb(nb), lo(nb), hi(nb);
    for (int b = 0; b < nb; b++) {
        double e = 0, l = 0, h = 0; int n = lim[b + 1] - lim[b];
        for (int i = lim[b]; i < lim[b + 1]; i++) {
            double v = fabs(X[i]), m = std::max(0., v - dX);
            e += v * v; l += m * m; h += (v + dX) * (v + dX);
        }
        eb[b] = e / n; lo[b] = l / n * (1 - 2e-6); hi[b] = h / n * (1 + 2e-6);
    }
    double scf[16], sl[16], sh[16], err[16];
    scale_factors(dt, sr, nbytes, eb, att, scf);
    // the bounds of the factors before the mean is removed differ by no more
    // than the bounds of the logarithms
    scale_factors(dt, sr, nbytes, lo, false, sl);
    scale_factors(dt, sr, nbytes, hi, false, sh);
    double wide = 0;
    for (int b = 0; b < nb; b++)
        if (hi[b] > 1e-9) wide = std::max(wide, .5 * log2(std::max(hi[b], 1e-20) / std::max(lo[b], 1e-20)));
    double base[16]; scale_factors(dt, sr, nbytes, eb, false, base);
    for (int g = 0; g < 16; g++) err[g] = 3e-4 + 2 * (fabs(sl[g] - base[g]) + fabs(sh[g] - base[g]));
    double emax = 0; for (double e : err) emax = std::max(emax, e);
    (void)wide;
    if (emax > .3) { st.sns++; return true; }

    for (int half = 0; half < 2; half++) {
        auto cb = half ? frozen::hfcb : frozen::lfcb;
        int got = half ? f.sns.hfcb : f.sns.lfcb, best = 0; double bd = 1e300, gd = 0, tol = 0;
        auto dist = [&](int k) { double d = 0; for (int i = 0; i < 8; i++) { double z = scf[8 * half + i] - cb[k][i]; d += z * z; } return d; };
        for (int k = 0; k < 32; k++) if (dist(k) < bd) bd = dist(k), best = k;
        gd = dist(got);
        for (int i = 0; i < 8; i++) tol += 2 * fabs(cb[got][i] - cb[best][i]) * err[8 * half + i];
        if (gd > bd + tol + 1e-5 * (bd + gd))
            BAD("sns-codebook", "%s codebook %d at distance %g, %d is at %g (tolerance %g)", half ? "high" : "low", got, gd, best, bd, tol);
    }
    int c[16]; sns_pulses(f.sns, c);
    if (f.sns.gain >= frozen::vq_count[f.sns.shape]) BAD("sns-gain", "gain %d of shape %d", f.sns.gain, f.sns.shape);
    double vg = frozen::vq_gain[f.sns.shape][f.sns.gain];
    uint64_t z = 12345; double first = 0, got = 0;
    for (int t = 0; t < 400; t++) {
        double r[16], x[16];
        for (int i = 0; i < 16; i++) {
            z = z * 6364136223846793005ull + 1442695040888963407ull;
            double u = t ? ((z >> 33) * 0x1p-30 - 1) * err[i] * (t < 100 ? .1 : 1) : 0;
            r[i] = scf[i] + u - (i < 8 ? frozen::lfcb[f.sns.lfcb][i] : frozen::hfcb[f.sns.hfcb][i - 8]);
        }
        for (int k = 0; k < 16; k++) {
            x[k] = 0;
            for (int n = 0; n < 16; n++) x[k] += r[n] * 2 * sqrt(k ? 1 / 32. : 1 / 64.) * cos(M_PI * k * (2 * n + 1) / 32);
        }
        Vq q = vq_search(x);
        double m = vq_mse(x, c, vg);
        if (!t) first = q.mse, got = m;
        if (q.shape == f.sns.shape && q.gain == f.sns.gain && !memcmp(q.c[q.shape], c, sizeof c)) return true;
        // as good as the search result
        if (m <= q.mse + 1e-6) return true;
    }
    BAD("sns-vector", "shape %d gain %d error %g, search finds %g", f.sns.shape, f.sns.gain, got, first);
}

// --- TNS ----------------------------------------------------------------------------

bool EncModel::tns(const std::vector<double> &X, const std::vector<double> &dX, int nbytes, int nn,
                   const Frame &f, std::string &cls, std::string &why)
{
    static const int thr[8] = { 0x0bcf, 0x2307, 0x390e, 0x4d23, 0x5e98, 0x6cd4, 0x775b, 0x7dd2 };
    const int bw = std::min(f.bw, (int)SR_48), ord = dt <= DT_5M ? 4 : 8;
    // limits of the parts of each filter
    std::vector<int> sub;
    {
        static const std::vector<int> t[4][5] = {
            { { 3, 10, 20 }, { 3, 20, 40 }, { 3, 30, 60 }, { 3, 40, 80 }, { 3, 51, 100 } },
            { { 6, 23, 40 }, { 6, 43, 80 }, { 6, 63, 120 }, { 6, 43, 80, 120, 160 }, { 6, 53, 100, 150, 200 } },
            { { 9, 26, 43, 60 }, { 9, 46, 83, 120 }, { 9, 66, 123, 180 }, { 9, 46, 82, 120, 159, 200, 240 }, { 9, 56, 103, 150, 200, 250, 300 } },
            { { 12, 34, 57, 80 }, { 12, 61, 110, 160 }, { 12, 88, 164, 240 }, { 12, 61, 110, 160, 213, 266, 320 }, { 12, 74, 137, 200, 266, 333, 400 } } };
        sub = t[dt][bw];
    }
    const int parts = dt >= DT_7M5 ? 3 : 2; const bool weigh = lpc_weighting(dt, nbytes);
    // prediction gain and reflection coefficients; false when degenerate
    auto solve = [&](const double *r, double &gain, double *rc) {
        double a[9] = { 1 }, err = r[0];
        for (int k = 1; k <= ord; k++) {
            double c = -r[k], t[9]; for (int i = 1; i < k; i++) c -= a[i] * r[k - i];
            c /= err; err *= 1 - c * c;
            for (int i = 1; i < k; i++) t[i] = a[i] + c * a[k - i];
            for (int i = 1; i < k; i++) a[i] = t[i];
            a[k] = c;
            if (!(err > 0)) return false;
        }
        gain = r[0] / err;
        if (weigh && gain < 2) {
            double gm = 1 - .15 * (2 - gain) / .5, q = 1;
            for (int i = 1; i <= ord; i++) a[i] *= q *= gm;
        }
        for (int k = ord; k > 0; k--) {
            rc[k - 1] = a[k]; double e = 1 - a[k] * a[k], t[9];
            if (!(e > 0)) return false;
            for (int i = 1; i < k; i++) t[i] = (a[i] - rc[k - 1] * a[k - i]) / e;
            for (int i = 1; i < k; i++) a[i] = t[i];
        }
        return true;
    };
    auto level = [&](double v) {
        double m = fabs(v) * 32768; int q = 0;
        while (q < 8 && m >= thr[q]) q++;
        return v < 0 ? -q : q;
    };
    struct Fl { bool known = false, off = false, on = false; int lo[8] = {}, hi[8] = {}; } fl[2];
    for (int j = 0; j < f.nfilters; j++) {
        double r[9] = { (double)parts }, del = 0; bool zero = false, noise = false;
        for (int k = 1; k <= 8; k++) r[k] = 0;
        for (int s = 0; s < parts; s++) {
            int b = sub[parts * j + s], e = sub[parts * j + s + 1];
            double e0 = 0, d2 = 0;
            for (int i = b; i < e; i++) e0 += X[i] * X[i], d2 += dX[i] * dX[i];
            if (e0 == 0) { zero = true; continue; }
            if (e0 < 1e-30) noise = true;
            double q = sqrt(d2 / e0);
            if (q > .05) noise = true;
            del += 2 * q + q * q + 2e-6;
            for (int k = 1; k <= ord; k++) {
                double v = 0;
                for (int i = b; i + k < e; i++) v += X[i] * X[i + k];
                static const double lag[9] = { 1, 9.98028026e-01, 9.92135406e-01, 9.82391584e-01, 9.68910791e-01,
                                               9.51849807e-01, 9.31404933e-01, 9.07808230e-01, 8.81323137e-01 };
                r[k] += v / e0 * lag[k];
            }
        }
        if (zero) for (int k = 1; k <= 8; k++) r[k] = 0;
        Fl &o = fl[j];
        double gain, rc[8], tg = 1e-5, tc[8];
        if (noise || !solve(r, gain, rc)) continue;
        for (double &t : tc) t = 2e-6;
        bool ok = true;
        for (int k = 1; k <= ord && !zero; k++)
            for (int d = -1; d <= 1; d += 2) {
                double q[9], g, c[8]; memcpy(q, r, sizeof q); q[k] += d * del;
                if (!solve(q, g, c)) { ok = false; break; }
                // sum of both sides: twice the effect of one
                tg += fabs(g - gain);
                for (int i = 0; i < ord; i++) tc[i] += fabs(c[i] - rc[i]);
            }
        if (!ok || tg > .2 * gain) continue;
        o.known = true;
        o.off = nn || gain <= 1.5 + tg; o.on = nn != 1 && gain > 1.5 - tg;
        for (int k = 0; k < ord; k++) o.lo[k] = level(rc[k] - tc[k]), o.hi[k] = level(rc[k] + tc[k]);
        if (o.on && !o.off) st.tns = true;
    }
    auto nbits = [&](const int *o, const int (*c)[8]) {
        int t = 0;
        for (int j = 0; j < f.nfilters; j++) {
            int b = 2048;
            if (o[j]) b += frozen::order_bits[weigh][o[j] - 1];
            for (int k = 0; k < o[j]; k++) b += frozen::coef_bits[k][8 + c[j][k]];
            t += (b + 2047) / 2048;
        }
        return t;
    };
    const int room = 8 * nbytes - 84;
    if (nbits(f.rc_order, f.rc) > room) BAD("tns-size", "TNS filters of %d bits in a frame of %d bytes", nbits(f.rc_order, f.rc), nbytes);
    // filters that a small frame cannot hold are dropped together
    if (!f.rc_order[0] && !f.rc_order[1]) {
        int want[2][8] = {}, order[2] = {}; bool sure = true;
        for (int j = 0; j < f.nfilters; j++) {
            if (!fl[j].known || (fl[j].on && fl[j].off)) { sure = false; continue; }
            if (!fl[j].on) continue;
            for (int k = 0; k < ord; k++) {
                want[j][k] = fl[j].lo[k]; sure &= fl[j].lo[k] == fl[j].hi[k];
                if (want[j][k]) order[j] = k + 1;
            }
        }
        if (sure ? nbits(order, want) > room : room < 128) return true;
    }
    for (int j = 0; j < f.nfilters; j++) {
        Fl &o = fl[j];
        if (!o.known) { st.tnsu++; continue; }
        auto fits = [&] {
            for (int k = 0; k < ord; k++) {
                int c = k < f.rc_order[j] ? f.rc[j][k] : 0;
                if (c < o.lo[k] || c > o.hi[k]) return k + 1;
            }
            return 0;
        };
        if (o.off && !f.rc_order[j]) continue;
        if (!o.on) BAD("tns-on", "TNS filter %d has order %d, expected none", j, f.rc_order[j]);
        int k = fits();
        if (k && !f.rc_order[j]) BAD("tns-off", "TNS filter %d is not in use, expected coefficient %d of %d to %d", j, k - 1, o.lo[k - 1], o.hi[k - 1]);
        if (k) BAD("tns-coef", "TNS filter %d of order %d: coefficient %d is %d, expected %d to %d", j, f.rc_order[j], k - 1,
                   k > f.rc_order[j] ? 0 : f.rc[j][k - 1], o.lo[k - 1], o.hi[k - 1]);
    }
    return true;
}

// --- Rate control and quantisation ---------------------------------------------------

struct Count { long bits; int n_end; bool lsb; };

// Bits of the spectrum `q` (magnitudes), stopping at a budget when >= 0
static Count count_bits(int dt, int sr, int nbytes, const std::vector<long> &q, long budget)
{
    const int N = ne(dt, sr); const bool hi = high_rate(sr, nbytes);
    const bool lsb = nbytes >= 20 * (3 + sr_index(sr)) && sr < SR_96HR;
    int n = N; while (n > 0 && !q[n - 1] && !q[n - 2]) n -= 2;
    const long lim = budget >= 0 ? budget * 2048 : 1L << 60;
    long bits = 0, bits_end = 0, nl = 0; int n_end = 0; unsigned state = 0;
    for (int i = 0; i < n && bits <= lim; i += 2) {
        const uint8_t *lut = frozen::spec_lookup[hi][i >= (N + 2) / 2][state];
        long a = q[i], b = q[i + 1]; int s = (a != 0) + (b != 0);
        bits += 2048 * s;
        int k = 0;                        // escapes
        long m = (a | b) >> 2;
        if (m) {
            if (lsb) {
                bits += frozen::spec_bits[lut[0]][16] - 2 * 2048; k = 1;
                nl += 2 + (a == 1) + (b == 1);
                m >>= 1;
            }
            for (; m; m >>= 1, k++) bits += frozen::spec_bits[lut[std::min(k, 3)]][16];
            bits += 2 * 2048 * k;
            a >>= k; b >>= k;
        }
        int kk = std::min(k, 3);
        bits += frozen::spec_bits[lut[kk]][a + 4 * b];
        if (s && bits <= lim) { n_end = i + 2; bits_end = bits; }
        state = ((state << 4) + (kk > 1 ? 12 + kk : 1 + (a + b) * (kk + 1))) & 0xff;
    }
    Count c;
    c.n_end = n_end;
    c.lsb = lsb && bits_end + nl * 2048 > lim;
    if (budget < 0) bits_end += nl * 2048;
    c.bits = (bits_end + 2047) / 2048;
    return c;
}

static int adjust(int dt, int sr, int g_idx, long nbits, long budget, int g_min)
{
    static const int t[7][3] = { { 80, 500, 850 }, { 230, 1025, 1700 }, { 380, 1550, 2550 }, { 530, 2075, 3400 },
                                 { 680, 2600, 4250 }, { 680, 2600, 4250 }, { 830, 3125, 5100 } };
    const int *v = t[sr];
    // 16ths, then a line to t1 / 48, then 48ths; rounded
    const long n0 = 3 * (v[0] + 48), w = v[1] - v[0];
    const long num = nbits < v[0] ? 3 * (nbits + 48) : nbits < v[1] ? n0 * w + (nbits - v[0]) * (v[1] - n0) : std::min(nbits, (long)v[2]);
    const long den = nbits < v[0] || nbits >= v[1] ? 48 : 48 * w, delta = (2 * num + den) / (2 * den);
    if (is_hr(sr)) {
        if (nbits <= budget) return 0;
        int fac = dt >= DT_7M5 ? 1 : dt == DT_5M ? 2 : nbits >= 520 ? 4 : 3;
        return std::min<long>(g_idx + fac + fac * (nbits - budget) / delta, 255) - g_idx;
    }
    if (nbits < budget - delta - 2) return g_idx > g_min ? -1 : 0;
    if (nbits <= budget) return 0;
    if (g_idx >= 255) return 0;
    return g_idx < 254 && nbits >= budget + delta ? 2 : 1;
}

bool EncModel::rate(const std::vector<double> &X, const std::vector<double> &dX, int nbytes,
                    const Frame &f, std::string &cls, std::string &why)
{
    const int N = ne(dt, sr), hr = is_hr(sr); const double thr = hr ? .5 : 10 / 16.;
    // budget
    int tb = 0;
    for (int j = 0; j < f.nfilters; j++) {
        int b = 2048;
        if (f.rc_order[j]) b += frozen::order_bits[lpc_weighting(dt, nbytes)][f.rc_order[j] - 1];
        for (int k = 0; k < f.rc_order[j]; k++) b += frozen::coef_bits[k][8 + f.rc[j][k]];
        tb += (b + 2047) / 2048;
    }
    int nqb = 4; for (int k = 32; k < N; k *= 2) nqb++;
    const int bwb = hr ? 0 : (sr > SR_8) + (sr > SR_16) + (sr > SR_32);
    const long budget = 8 * nbytes - nqb - 3 - hr - std::min((nbytes - 1) / 160, 2) - bwb - 1 - 10 * f.pitch - 38 - tb - 8 - 3;

    // smoothed offset
    auto smooth = [&](double o, double s) { double c = std::max(-40., std::min(40., o + s)); return .8 * o + .2 * c; };
    double o_lo = smooth(off_lo, sp_lo), o_hi = smooth(off_hi, sp_hi);
    long nb_lo = (long)(budget + o_lo - 1e-3 + .5), nb_hi = (long)(budget + o_hi + 1e-3 + .5);
    const int g_off = gain_offset(sr, nbytes);

    double xmax = 0, dmax = 0; bool exact0 = true; double worst = 0;
    for (int i = 0; i < N; i++) {
        if (fabs(X[i]) > xmax) xmax = fabs(X[i]);
        dmax = std::max(dmax, dX[i]); exact0 &= X[i] == 0;
        worst = std::max(worst, dX[i]);
    }
    // energies of groups of four, dB
    std::vector<double> el(N / 4), eh(N / 4);
    double nfl = 0, nfh = 0;
    if (hr) {
        static const int rc[4][2] = { { -6, -6 }, { 0, 0 }, { 0, 0 }, { 2, 5 } };
        int reg = std::min(23, std::max(6, 8 * nbytes * 4 / (125 * (1 + dt)) + rc[dt][sr - SR_48HR]));
        double m0l = 1e-5, m1l = 1e-5, m0h = 1e-5, m1h = 1e-5;
        for (int i = 0; i < N / 4 * 4; i++) {
            double a = std::max(0., fabs(X[i]) - dX[i]), b = fabs(X[i]) + dX[i];
            m0l += a; m0h += b; m1l += a * i; m1h += b * i;
        }
        // float accumulation over at most 960 terms
        double ql = 1.6 * m0l / ((1 + dt) * m1h) * (1 - 3e-5), qh = 1.6 * m0h / ((1 + dt) * m1l) * (1 + 3e-5);
        int ml = (int)std::min(8., floor(ql + .5)), mh = (int)std::min(8., floor(qh + .5));
        nfl = std::max(0., xmax - dmax) * exp2(-reg - (8 - ml)) * (1 - 1e-5);
        nfh = (xmax + dmax) * exp2(-reg - (8 - mh)) * (1 + 1e-5);
    }
    for (int i = 0; i < N / 4; i++) {
        double l = 0, h = 0;
        for (int k = 4 * i; k < 4 * i + 4; k++) {
            double a = std::max(0., fabs(X[k]) - dX[k]), b = fabs(X[k]) + dX[k];
            l += a * a; h += b * b;
        }
        el[i] = 10 * log10(std::max(l + nfl, 1e-10)); eh[i] = 10 * log10(std::max(h + nfh, 1e-10));
    }
    auto load = [&](const std::vector<double> &e, double gn) {
        int j = N / 4 - 1; double v = 0;
        while (j >= 0 && e[j] < gn) j--;
        for (; j >= 0; j--) {
            double d = e[j] - gn;
            v += d < 0 ? 2.7 : d < 43 ? d + 7 : 2 * d - 36;
        }
        return v;
    };
    const double T = 2.5e-3;
    std::set<int> ints;
    std::function<void(int, int)> search = [&](int g, int i) {
        if (!i) { ints.insert(g); return; }
        double gn = (g - i) * 20 / 28.;
        double vl = load(el, gn + T), vh = load(eh, gn - T);
        if (!(vl > nb_hi * 1.4 + .01)) search(g - i, i >> 1);
        if (vh > nb_lo * 1.4 - .01) search(g, i >> 1);
    };
    search(255 - g_off, 128);

    const double xl = hr ? 0x7fffp8 : 0x7fff;
    auto gmin = [&](double xm) {
        int g = 255 - g_off;
        for (int i = 128; i > 0; i >>= 1) if (xl * pow(10, (g - i) / 28.) > xm) g -= i;
        return g;
    };
    int gm_lo = gmin((xmax - dmax) * (1 - 1e-5)), gm_hi = gmin((xmax + dmax) * (1 + 1e-5));
    // magnitudes for a gain, with the rounding of doubtful lines up or down;
    // returns the number of those
    auto quant = [&](int g, std::vector<long> &lo, std::vector<long> &hi) {
        int amb = 0; double s = pow(10., -g / 28.);
        lo.resize(N); hi.resize(N);
        for (int i = 0; i < N; i++) {
            double v = fabs(X[i]) * s, t = dX[i] * s + 2e-6 * v;
            lo[i] = (long)floor(std::max(0., v - t) + 1 - thr); hi[i] = (long)floor(v + t + 1 - thr);
            if (lo[i] != hi[i]) amb++;
        }
        return amb;
    };

    struct Hyp { double olo, ohi; long slo, shi; };
    std::vector<Hyp> ok; bool loose = false; std::string seen;
    const int g_act = f.g_idx - g_off;
    auto consider = [&](int g, bool reset) {
        std::vector<long> lo, hi;
        int amb = quant(g, lo, hi);
        long b1 = count_bits(dt, sr, nbytes, lo, -1).bits, b2 = amb ? count_bits(dt, sr, nbytes, hi, -1).bits : b1;
        if (b1 > b2) std::swap(b1, b2);
        if (amb) { b1 -= 4 * amb + 4; b2 += 4 * amb + 4; }
        if (amb > 12) loose = true;
        bool hit = false; long h1 = 0, h2 = 0;
        for (long b = std::max(0L, b1); b <= b2; b++)
            for (int gm : { gm_lo, gm_hi }) {
                int a = adjust(dt, sr, g_off + g, b, budget, g_off + gm);
                if (g + a == g_act) { if (!hit) h1 = b; hit = true; h2 = b; st.adj_up |= a > 0; st.adj_down |= a < 0; }
                else if (seen.size() < 80) seen += fmt(" %d", g + a + g_off);
            }
        if (!hit) return;
        if (reset) { ok.push_back({ 0, 0, 0, 0 }); st.reset = true; }
        else ok.push_back({ o_lo, o_hi, budget - h2, budget - h1 });
    };
    std::set<int> done;
    for (int g : ints) {
        if (exact0 || g < gm_hi) {
            for (int m = gm_lo; m <= gm_hi; m++) if ((exact0 || g < m) && done.insert(m).second) consider(m, true);
        }
        if (!exact0 && g >= gm_lo) consider(g, false);
        // the square of the largest line may vanish
        if (!exact0 && (xmax <= dmax || xmax < 1e-18) && done.insert(gm_lo + 100000).second) { consider(gm_lo, true); }
    }
    // sound too close to the rounding of the transform to be followed
    double g_real = pow(10., g_act / 28.);
    int vague = 0; for (int i = 0; i < N; i++) vague += dX[i] / g_real > .2;
    if (vague > 4 || loose) {
        st.rate++;
        off_lo = -40; off_hi = 40; sp_lo = -100000; sp_hi = 100000;
        if (ok.empty()) return true;
    } else {
        if (ok.empty()) BAD("gain", "gain index %d, allowed:%s (budget %ld, offset %g to %g)", f.g_idx, seen.c_str(), budget, o_lo, o_hi);
        off_lo = 1e9, off_hi = -1e9, sp_lo = 1L << 40, sp_hi = -(1L << 40);
        for (auto &h : ok) {
            off_lo = std::min(off_lo, h.olo); off_hi = std::max(off_hi, h.ohi);
            sp_lo = std::min(sp_lo, h.slo); sp_hi = std::max(sp_hi, h.shi);
        }
    }
    st.open = std::max<int>(st.open, (int)(off_hi - off_lo));

    // --- what was sent at that gain ---
    std::vector<long> lo, hi, m(N);
    int amb = quant(g_act, lo, hi), unk = 0;
    // final magnitudes of the frame, LSBs included
    auto sent = [&](int i) { return fabs(f.lsb_mode ? f.x[i] : f.q[i]); };
    bool dummy = false;          // nothing to send: one pair of zeros is
    for (int i = 0; i < N; i++) {
        if (lo[i] == hi[i]) { m[i] = lo[i]; continue; }
        unk++;
        double s = i < f.nq ? sent(i) : lo[i];
        m[i] = s >= hi[i] ? hi[i] : s <= lo[i] ? lo[i] : (long)s;
    }
    Count c = count_bits(dt, sr, nbytes, m, budget);
    int nq = c.n_end; if (!nq) { nq = 2; dummy = true; }
    if (nq < N && !amb) { int n = N; while (n > 0 && !m[n - 1] && !m[n - 2]) n -= 2; st.trunc |= n > nq; }
    bool far = amb > 0;
    if (nq != f.nq) {
        if (far) { st.values++; return true; }
        BAD("count", "%d values sent, expected %d", f.nq, nq);
    }
    if (c.lsb != f.lsb_mode) {
        if (far) { st.values++; return true; }
        BAD("lsb-mode", "LSB mode %d, expected %d", f.lsb_mode, c.lsb);
    }
    st.lsb |= f.lsb_mode;
    for (int i = 0; i < nq; i++) {
        long w = dummy ? 0 : m[i];
        int sg = X[i] < 0 ? -1 : 1; double got = f.q[i];
        if (!f.lsb_mode) {
            if (fabs(got) != w) BAD("value", "line %d sent as %g, expected %ld (%g steps)", i, got, sg * w, X[i] / g_real);
        } else {
            bool big = ((dummy ? 0 : m[i & ~1]) | (dummy ? 0 : m[i | 1])) >= 4;
            long e = big ? w & ~1L : w;
            if (fabs(got) != e) {
                if (far && std::labs((long)fabs(got) - e) <= 2) { st.values++; return true; }
                BAD("value", "line %d sent as %g, expected %ld (%g steps)", i, got, sg * e, X[i] / g_real);
            }
        }
        if (got && fabs(X[i]) > dX[i] && (got < 0) != (sg < 0))
            BAD("sign", "line %d is %g steps, sent as %g", i, X[i] / g_real, got);
    }
    // least significant bits
    if (f.lsb_mode) {
        int room = f.residual_room;
        for (int i = 0; i < nq && room > 0; i += 2) {
            if ((m[i] | m[i + 1]) < 4) continue;
            for (int k = i; k < i + 2 && room > 0; k++) {
                room--;
                double e = m[k];
                if (m[k] == 1) { if (room > 0) room--; else e = 0; }
                if (fabs(f.x[k]) != e && lo[k] == hi[k]) BAD("lsb", "line %d of %d completed to %g, expected %g, %d bits left of %d (%g steps)", k, nq, f.x[k], e, room, f.residual_room, X[k] / g_real);
            }
        }
    } else {
        // residual
        double u = hr ? .25 : 5 / 16., l = hr ? .25 : 5 / 16.;
        (void)l;
        size_t p = 0; std::vector<double> rest(nq); std::vector<char> lost(nq, 0);
        for (int i = 0; i < nq; i++) rest[i] = fabs(X[i]) / g_real - m[i];
        int room = f.residual_room;
        for (int it = 0; it < (hr ? 20 : 1) && room > 0; it++) {
            for (int i = 0; i < nq && room > 0; i++) {
                if (dummy || !m[i]) continue;
                room--;
                if (p >= f.res.size()) BAD("residual", "%zu residual bits, expected more", f.res.size());
                bool up = f.res[p++] ^ (f.q[i] < 0);
                double t = dX[i] / g_real + 1e-6 * m[i] + 1e-6;
                if (fabs(rest[i]) > t && !lost[i] && up != (rest[i] >= 0))
                    BAD("residual", "residual bit %zu (line %d, round %d) says %s, line is %g steps, sent as %g", p - 1, i, it, up ? "more" : "less", X[i] / g_real, f.q[i]);
                rest[i] += up ? -u : u;
            }
            u *= thr;
        }
    }
    // noise level
    {
        int stop = ne(dt, std::min(f.bw, (int)SR_48)), w = 1 + (dt >= DT_7M5) + (dt >= DT_10M), ns_ = 0, run = 0;
        double sl = 0, sh = 0;
        for (int i = 6 * (1 + dt) - w; i < stop + w; i++) {
            bool zero = i >= std::min(nq, stop) || dummy || !m[i];
            run = zero ? run + 1 : 0;
            if (run <= 2 * w) continue;
            int k = i - w; ns_++;
            double v = dummy && k < 2 ? 0 : fabs(X[k]) / g_real, t = dX[k] / g_real + 3e-6 * v;
            sl += std::max(0., v - t); sh += v + t;
        }
        auto lev = [&](double s) { return ns_ ? std::min(7, std::max(0, 8 - (int)(16 * s / ns_ + .5))) : 7; };
        int a = lev(sh * (1 + 2e-5)), b = lev(sl * (1 - 2e-5));
        if (f.nf < a || f.nf > b) BAD("noise-level", "noise level %d, expected %d to %d (mean %g of %d lines)", f.nf, a, b, ns_ ? sl / ns_ : 0, ns_);
    }
    st.checked++;
    return true;
}

// --- Frame ----------------------------------------------------------------------------

bool EncModel::frame(const std::vector<double> &xs, const std::vector<int16_t> &xt, int nbytes,
                     const Frame &f, std::string &cls, std::string &why)
{
    const int D = nd(dt, srp), N = ne(dt, sr);
    size_t at = xh.size();
    xh.insert(xh.end(), xt.begin(), xt.end());
    bool att = attack(&xh[at], nbytes);
    st.att |= att;

    std::vector<double> in(xd); in.insert(in.end(), xs.begin(), xs.end());
    std::vector<double> X; mdct(dt, srp, sr, in.data(), X);
    X.resize(N, 0);
    xd.assign(in.end() - D, in.end());
    double mf = 0; for (double v : in) mf += v * v;
    const double dX = 2.5e-7 * sqrt(mf);    // rounding of single precision: up to 1.1e-7 is met

    // Energies, near Nyquist
    const int nb = frozen::num_bands[dt][sr]; const int *lim = frozen::band_lim[dt][sr];
    std::vector<double> el(nb), eh(nb);
    double s[4] = { 0, 0, 0, 0 };
    static const int top[4] = { 2, 3, 4, 2 };
    for (int b = 0; b < nb; b++) {
        double l = 0, h = 0; int n = lim[b + 1] - lim[b];
        for (int i = lim[b]; i < lim[b + 1]; i++) {
            double v = fabs(X[i]), a = std::max(0., v - dX);
            l += a * a; h += (v + dX) * (v + dX);
        }
        el[b] = std::max(0., l / n * (1 - 2e-6) - 1e-36); eh[b] = h / n * (1 + 2e-6);
        s[b >= nb - top[dt]] += el[b]; s[2 + (b >= nb - top[dt])] += eh[b];
    }
    int nn = s[1] > 30 * s[2] * (1 + 1e-5) ? 1 : s[3] * (1 + 1e-5) < 30 * s[0] || s[3] == 0 ? 0 : 2;
    st.nn |= nn == 1;

    bool pk = pitch(&xh[at], f, nn, cls, why);
    if (xh.size() > 6 * PAD) xh.erase(xh.begin(), xh.end() - PAD);
    if (!pk) return false;

    // Bandwidth
    if (!is_hr(sr) && sr > SR_8) {
        static const struct { int a, b; } reg[4][4][4] = {
            { { { 24, 34 } }, { { 24, 32 }, { 35, 39 } }, { { 24, 31 }, { 33, 38 }, { 39, 42 } }, { { 22, 29 }, { 31, 35 }, { 37, 40 }, { 41, 43 } } },
            { { { 39, 49 } }, { { 35, 44 }, { 47, 51 } }, { { 34, 42 }, { 44, 49 }, { 50, 53 } }, { { 32, 40 }, { 42, 46 }, { 48, 51 }, { 52, 54 } } },
            { { { 51, 63 } }, { { 45, 55 }, { 58, 63 } }, { { 42, 51 }, { 53, 58 }, { 60, 63 } }, { { 40, 48 }, { 51, 55 }, { 57, 60 }, { 61, 63 } } },
            { { { 53, 63 } }, { { 47, 56 }, { 59, 63 } }, { { 44, 52 }, { 54, 59 }, { 60, 63 } }, { { 41, 49 }, { 51, 55 }, { 57, 60 }, { 61, 63 } } } };
        static const int drop[4][4] = { { 4, 4, 3, 1 }, { 4, 4, 3, 1 }, { 4, 4, 3, 2 }, { 4, 4, 3, 1 } };
        static const double tc[4] = { 31.6227766, 199.526231, 100, 100 };
        auto &rg = reg[dt][sr - 1];
        // region by region from the top: the highest that is not quiet
        std::set<int> allow, cand; bool stop = false;
        for (int b = sr - 1; b >= 0 && !stop; b--) {
            double l = 0, h = 0; int n = rg[b].b - rg[b].a + 1;
            for (int i = rg[b].a; i <= rg[b].b; i++) l += el[i], h += eh[i];
            double q = (b == 0 ? 20. : 10.) * n;
            if (h * (1 + 1e-5) >= q) cand.insert(b + 1);
            if (l * (1 - 1e-5) >= q) stop = true;
        }
        if (!stop) cand.insert(0);
        for (int b : cand) {
            if (b == sr) { allow.insert(sr); continue; }
            bool may = false, must = false;
            for (int i = rg[b].a - drop[dt][b] + 1; i <= rg[b].a + 1; i++) {
                may |= eh[i - drop[dt][b]] > tc[b] * el[i] * (1 - 1e-5);
                must |= el[i - drop[dt][b]] > tc[b] * eh[i] * (1 + 1e-5);
            }
            if (may) allow.insert(b);
            if (!must) allow.insert(sr);
        }
        if (!allow.count(f.bw)) BAD("bandwidth", "bandwidth %d of %d, expected %d", f.bw, sr, *allow.begin());
        st.bwcut |= f.bw < sr;
    }

    if (!shaping(X, dX, nbytes, att, f, cls, why)) return false;

    // Lines after noise shaping; the error bound follows
    std::vector<double> g, e(N);
    line_gains(dt, sr, f, g);
    for (int i = 0; i < N; i++) { X[i] /= g[i]; e[i] = dX / g[i] + 3e-6 * fabs(X[i]); }
    if (!tns(X, e, nbytes, nn, f, cls, why)) return false;

    static const int q[9] = { 0, 0x1785, 0x2e3d, 0x4362, 0x563c, 0x6625, 0x7295, 0x7b1d, 0x7f74 };
    int nf = ne(dt, std::min(f.bw, (int)SR_48)) >> (f.nfilters - 1), ie = 3 * (1 + dt);
    double st_[8] = { 0 }, sd[8] = { 0 };
    for (int j = 0; j < f.nfilters; j++) {
        int b = ie; ie = nf * (1 + j);
        if (!f.rc_order[j]) continue;
        for (int i = b; i < ie; i++) {
            double xi = X[i], s1_ = xi, di = e[i], d1 = di;
            for (int k = 0; k < f.rc_order[j]; k++) {
                double rc = (f.rc[j][k] < 0 ? -q[-f.rc[j][k]] : q[f.rc[j][k]]) / 32768., ar = fabs(rc);
                double s0 = st_[k], d0 = sd[k]; st_[k] = s1_; sd[k] = d1;
                s1_ = rc * xi + s0; d1 = ar * di + d0 + 1e-7 * fabs(s1_);
                xi += rc * s0; di += ar * d0 + 1e-7 * fabs(xi);
            }
            X[i] = xi; e[i] = di;
        }
    }
    return rate(X, e, nbytes, f, cls, why);
}

}
