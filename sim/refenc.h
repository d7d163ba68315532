// Executable model of the LC3 / LC3plus encoder.  It follows an encoder frame
// by frame from the same PCM: every decision found in the frame (pitch, pitch
// filter, bandwidth, noise shaping, TNS, gain, values, noise level, residual)
// must be one the model allows, given its own state and the decisions before.
// Integer parts (pitch analysis, attack detector, bit counts) are exact; parts
// in floating point are computed in double precision with error bounds, and a
// decision too close to call is taken over from the frame.
#pragma once
#include "ref.h"

namespace ref {

struct EncModel {
    int dt, sr, srp;
    bool bypass = false;                   // LTPF disabled
    struct Stat { int open = 0, checked = 0; bool att = false, attz = false, nn = false, pitch = false, active = false, adj_up = false,
                  adj_down = false, reset = false, trunc = false, lsb = false, tns = false, bwcut = false; int sns = 0, tnsu = 0, rate = 0, values = 0; } st;   // the last four: parts left undecided

    EncModel(int dt, int sr, int srp);
    void restart();
    // Next frame: PCM as 16 bit scale doubles and as the 16 bit samples of the
    // pitch analysis; false when the frame is none the model allows
    bool frame(const std::vector<double> &xs, const std::vector<int16_t> &xt, int nbytes,
               const Frame &f, std::string &cls, std::string &why);
private:
    // attack detector
    long en1, an1; int p_att;
    // pitch analysis
    struct Lt { int tc; bool active; int pitch; double nc0, nc1; };
    std::vector<Lt> lt;                    // states that explain the frames so far
    std::vector<int16_t> xh, x128, x64;    // histories
    int64_t s1, s2;
    std::vector<double> xd;                // overlap of the transform
    // rate control: intervals
    double off_lo, off_hi; long sp_lo, sp_hi;

    bool attack(const int16_t *x, int nbytes);
    bool pitch(const int16_t *x, const Frame &f, int nn, std::string &cls, std::string &why);
    bool shaping(const std::vector<double> &X, double dX, int nbytes, bool att, const Frame &f,
                 std::string &cls, std::string &why);
    bool tns(const std::vector<double> &X, const std::vector<double> &dX, int nbytes, int nn,
             const Frame &f, std::string &cls, std::string &why);
    bool rate(const std::vector<double> &X, const std::vector<double> &dX, int nbytes,
              const Frame &f, std::string &cls, std::string &why);
};

}
