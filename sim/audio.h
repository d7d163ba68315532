// Seeded audio sources.  A source is a pure function of (kind, seed, rate).
#pragma once
#include "sim.h"
#include <cmath>

namespace sim {

enum { SG_SILENCE, SG_SINE, SG_CHORD, SG_NOISE, SG_PITCH, SG_VOICE, SG_CLICK,
       SG_SQUARE, SG_SWEEP, SG_TINY, SG_FULL, SG_DC, SG_MIX,
       SG_WHITE, SG_ALT, SG_DENORM, SG_BURST,
       // for the encoder model: band limited noise, attacks, gliding pitch, fades,
       // tones at the edge of the band, a pulse train, noise with a pitch
       SG_BAND, SG_ATTACK, SG_GLIDE, SG_FADE, SG_EDGE, SG_TRAIN, SG_BREATH,
       // faint noise that ends at a more or less steep edge
       SG_CUT, SG_ALL, SG_NUM = SG_BAND };

struct Signal {
    int kind; double fs; Rng r;
    double f[6], a[6], ph[6]; int n = 0; double lp = 0; long t = 0; double lvl; double tau; double z[12] = {}, cph = 0;
    Signal(int kind, uint64_t seed, double fs) : kind(kind), fs(fs), r(mix(seed, kind * 77 + 5))
    {
        lvl = pow(10, -r.range(1, 30) / 20.);
        tau = r.range(200, 3000);
        n = kind == SG_SINE || kind == SG_SWEEP ? 1 : 5;
        double f0 = kind == SG_PITCH || kind == SG_VOICE ? 70 + r.unit() * 250 : 0;
        for (int i = 0; i < 6; i++) {
            f[i] = f0 ? f0 * (i + 1) : exp(log(60.) + r.unit() * (log(fs * .45) - log(60.)));
            a[i] = f0 ? 1. / (i + 1) : 0.3 + 0.7 * r.unit();
            ph[i] = r.unit() * 2 * M_PI;
        }
        if (kind == SG_SQUARE) f[0] = 80 + r.unit() * 900;
        if (kind == SG_FULL) f[0] = 60 + r.unit() * (fs * .3);
    }
    double next()
    {
        double v = 0, T = t++ / fs;
        switch (kind) {
        case SG_SILENCE: return 0;
        case SG_SINE: v = lvl * sin(2 * M_PI * f[0] * T + ph[0]); break;
        case SG_CHORD: case SG_PITCH:
            for (int i = 0; i < n; i++) v += a[i] * sin(2 * M_PI * f[i] * T + ph[i]);
            v *= lvl / 3; break;
        case SG_VOICE: {
            double vib = 0.004 * sin(2 * M_PI * 5 * T);
            for (int i = 0; i < n; i++)
                v += a[i] * sin(2 * M_PI * f[i] * T + (i + 1) * 30 * vib + ph[i]);
            v *= lvl / 3 * (0.55 + 0.45 * sin(2 * M_PI * 3.1 * T));
            v += lvl * 0.01 * r.gauss(); break;
        }
        case SG_NOISE: lp = 0.6 * lp + 0.4 * r.gauss(); v = lvl * 0.5 * lp; break;
        case SG_CLICK: {
            double k = fmod(t, tau);
            v = lvl * exp(-k / 40) * cos(k * .3) + 0.002 * lvl * r.gauss(); break;
        }
        case SG_SQUARE: v = sin(2 * M_PI * f[0] * T) >= 0 ? 0.97 : -0.97; break;
        case SG_FULL: v = 0.999969 * sin(2 * M_PI * f[0] * T); break;
        case SG_SWEEP: v = lvl * sin(2 * M_PI * (50 * T + fs * .08 * T * T)); break;
        case SG_TINY: v = (r.below(5) - 2) / 32768.; break;
        case SG_DC: v = lvl * 0.5 + 0.0001 * r.gauss(); break;
        case SG_WHITE: v = 2 * r.unit() - 1; break;
        case SG_ALT: v = t & 1 ? 1 : -1; break;
        case SG_DENORM: v = (r.unit() - .5) * exp2(-20 - 110 * fabs(sin(T * 3))); break;
        case SG_BURST: v = ((long)(t / tau)) % 3 ? 0 : (2 * r.unit() - 1); break;
        case SG_BAND: {       // two pole low pass at a rate dependent edge
            double w = 2 * M_PI * std::min(.48, (double)(1 << (int)(a[0] * 10 - 3) % 4) * 2000 / fs * (1.2 + a[1]));
            double g = 2 * cos(w) * .0 + w / (1 + w), in = r.gauss();
            for (int i = 0; i < 6; i++) { z[i] += g * (in - z[i]); in = z[i]; }
            v = lvl * in + (a[2] > .6 ? 0 : 1e-4 * lvl * r.gauss()); break;
        }
        case SG_ATTACK: {     // quiet, then a burst that decays
            double k = fmod(t, tau * 2.7), q = k < tau ? .003 : exp(-(k - tau) / (40 + 600 * a[0]));
            v = lvl * q * (a[1] > .6 ? r.gauss() : sin(2 * M_PI * f[0] * T)); break;
        }
        case SG_GLIDE: {      // harmonics whose pitch moves slowly
            double f0 = (60 + 380 * a[0]) * exp2(.5 * sin(2 * M_PI * (.2 + a[1]) * T));
            cph += 2 * M_PI * f0 / fs;
            for (int i = 1; i < 12; i++) v += sin(i * cph + ph[i % 6]) / i;
            v *= lvl * .4; break;
        }
        case SG_FADE: {
            double q = pow(10, -4.5 * fmod(T * (1 + 4 * a[0]), 1.));
            for (int i = 0; i < 4; i++) v += a[i] * sin(2 * M_PI * f[i] * T + ph[i]);
            v *= q * .3; break;
        }
        case SG_EDGE: {
            double q = fmod(T * 7, 1.) < .5 ? .497 - .02 * a[0] : .5 - .06 * a[1];
            v = lvl * (sin(2 * M_PI * q * t) + (a[2] > .65 ? 0 : .01 * sin(2 * M_PI * f[3] * T))); break;
        }
        case SG_TRAIN: {
            double p = fs / (50 + 350 * a[0]), k = fmod(t, p);
            v = lvl * (exp(-k / 6) * cos(k * .9) + .0005 * r.gauss()); break;
        }
        case SG_BREATH: {
            double q = .5 + .5 * sin(2 * M_PI * (1 + 4 * a[0]) * T), f0 = 70 + 300 * a[1];
            for (int i = 1; i < 9; i++) v += sin(2 * M_PI * f0 * i * T + ph[i % 6]) / i;
            v = lvl * (.35 * q * v + (1 - q) * .3 * r.gauss()); break;
        }
        case SG_CUT: {
            double w = std::min(2.9, 2 * M_PI * 4000 * (1 << (int)(ph[0] * 10) % 3) * (.7 + .7 * a[0]) / fs), q = .6 + 2 * a[1] * a[1];
            double c = cos(w), al = sin(w) / 2 / q, in = r.gauss(); int ns = 1 + (int)(ph[1] * 10) % 6;
            for (int i = 0; i < ns; i++) {
                double o = ((1 - c) / 2 * in + z[2 * i]) / (1 + al);
                z[2 * i] = (1 - c) * in + 2 * c * o + z[2 * i + 1]; z[2 * i + 1] = (1 - c) / 2 * in - (1 - al) * o; in = o;
            }
            v = in * pow(10, -4.5 + 2.5 * a[2]) + (ph[2] > 2 ? 0 : lvl * .3 * sin(2 * M_PI * 600 * (1 + a[3]) * T)); break;
        }
        default: {
            double e = 0.5 + 0.5 * sin(2 * M_PI * 0.9 * T);
            for (int i = 0; i < 3; i++) v += a[i] * sin(2 * M_PI * f[i] * T + ph[i]);
            v = lvl * (0.2 * v * e + 0.15 * (1 - e) * r.gauss()); break;
        }
        }
        return std::max(-1., std::min(0.99996, v));
    }
};

}
