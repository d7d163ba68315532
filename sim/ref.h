// Independent executable model of the LC3 / LC3plus bitstream and decoder, in
// double precision and in the plainest form, written from the format; it
// shares no code and no table with the code under test (tables_frozen.h).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace ref {

enum { DT_2M5, DT_5M, DT_7M5, DT_10M };
enum { SR_8, SR_16, SR_24, SR_32, SR_48, SR_48HR, SR_96HR };

inline bool is_hr(int sr) { return sr >= SR_48HR; }
int ns(int dt, int sr);
int ne(int dt, int sr);
int nd(int dt, int sr);
int delay(int dt, int sr);
int min_bytes(int dt, int sr);     // of an encoder frame
int max_bytes(int dt, int sr);
inline bool supported(int dt, int sr) { return !(is_hr(sr) && dt == DT_7M5); }
int dt_us(int dt);
int sr_hz(int sr);

// One put/get operation of the bitstream, in order
struct Tok {
    int kind;        // 0: plain bits, 1: symbol of spectrum model `model`,
                     // 2: TNS order, 3: TNS coefficient
    int model, v, n;
};

struct Sns { int lfcb = 0, hfcb = 0, shape = 0, gain = 0, idx_a = 0, idx_b = 0; bool ls_a = 0, ls_b = 0; };

struct Frame {
    bool ok = false;
    const char *why = "";
    int bw = 0, nq = 0, g_idx = 0, nf = 0;
    bool lsb_mode = false;
    int nfilters = 1, rc_order[2] = { 0, 0 }, rc[2][8] = {};
    bool pitch = false, ltpf_active = false;
    int pitch_idx = 0;
    Sns sns;
    uint16_t nf_seed = 0;
    int bits_left = 0;               // at the end
    int residual_room = 0;           // bits left when residual starts
    bool ac_error = false;
    int max_shl = 0;
    std::vector<double> x;           // quantised + residual (ne values)
    std::vector<double> q;           // quantised values alone, without the LSBs of the LSB mode
    std::vector<uint8_t> res;        // residual bits, in order
    std::vector<Tok> toks;           // record for canonical re-writing
    uint64_t shape_sig() const;      // coarse class of the frame
};

bool parse(const uint8_t *d, int nbytes, int dt, int sr, Frame &f);

// Serialise a token list into nbytes; false when it does not fit.
bool serialise(const std::vector<Tok> &toks, int dt, int nbytes, int lpc_weighting,
               uint8_t *out);
bool lpc_weighting(int dt, int nbytes);

// Builder of arbitrary frames (Byzantine sender).  `below(n)` gives [0, n).
struct Forge {
    int bw = -1, g_idx = -1, pitch = -1, active = -1, pitch_idx = -1,
        nf = -1, lsb = -1, tns = -1;   // -1: random
    int bad = 0;                 // one field out of its range: 1 scale factors, 2 count of values, 3 TNS order, 4 bandwidth
    bool edge = false;           // fields at the ends of their ranges
    int mag = 4;                 // log2 of the largest spectral magnitudes
};
void forge(const std::function<int64_t(int64_t)> &below, int dt, int sr, int nbytes,
           const Forge &o, uint8_t *out);

// Forward transform of the encoder: ns + nd input samples to ne(dt, sr) lines
void mdct(int dt, int sr_pcm, int sr, const double *in, std::vector<double> &X);
// Synthesis: nX lines to ns samples; `mem` keeps the overlap (see Decoder::mem)
void imdct(int dt, int sr_pcm, int sr, const double *X, int nX,
           std::vector<double> &mem, std::vector<double> &y);
// Lines as they reach the quantiser, given the side data of a frame, and the
// quantiser step
double shape_lines(int dt, int sr, int nbytes, const Frame &f, std::vector<double> &X);
// per-line synthesis gain of the noise shaping
void line_gains(int dt, int sr, const Frame &f, std::vector<double> &g);

void sns_pulses(const Sns &s, int *c);
double quant_step(int sr, int nbytes, const Frame &f);
bool high_rate(int sr, int nbytes);
int gain_offset(int sr, int nbytes);
int sr_index(int sr);

struct Decoder {
    int dt = 0, sr = 0, sr_pcm = 0;
    std::vector<double> mem, xg, hist;     // overlap, last good spectrum, output history
    uint16_t plc_seed = 24607; int plc_count = 1; double plc_alpha = 1;
    bool lt_active = false; int lt_pitch = 0, lt_gidx = 0, lt_num = 0;
    std::vector<double> lt_x;              // last unfiltered inputs
    double peak = 0;                       // largest magnitude met in the frame
    double amp = 0;                        // amplification bound of the frame (for tolerance)
    Decoder() {}
    Decoder(int dt, int sr, int sr_pcm);
    // Returns 0: decoded, 1: concealed; `out`: ns(dt, sr_pcm) samples, 16 bit scale
    int decode(const uint8_t *in, int nbytes, std::vector<double> &out, Frame *fr = nullptr);
    // a lost frame long after the sound has faded out
    void skip_lost();
    uint64_t state_sig() const;
};

}
