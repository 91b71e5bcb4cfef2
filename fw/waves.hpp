/* The four waveforms over the position in a cycle. */
#pragma once
#include <cmath>
#include <string>

#include "dspref.hpp"

namespace wave {
enum Shape { SINE, SQUARE, SAW, TRIANGLE };
inline const char* names[] = {"sine", "square", "sawtooth", "triangle"};

inline double frac(double p) { return p - std::floor(p); }

/// The waveform at position p, in cycles
inline double at(int shape, double p) {
    double f = frac(p);
    switch (shape) {
        case SINE:
            return std::sin(2 * ref::PI * f);
        case SQUARE:
            return f < .5 ? 1. : -1.;
        case SAW:
            return 2 * frac(p + .5) - 1;
        default:
            return f < .25 ? 4 * f : (f > .75 ? 4 * (f - 1) : 4 * (.5 - f));
    }
}

/// Whether the position is at a jump of the waveform, up to rounding
inline bool jump(int shape, double p, double eps) {
    double f = frac(p);
    if (shape == SQUARE) return std::min({f, std::fabs(f - .5), 1 - f}) < eps;
    if (shape == SAW) return std::fabs(f - .5) < eps;
    return false;
}

/// Compares a sample with the waveform; at a jump both sides are right unless
/// the position is exact
inline void check(int shape, double got, double p, bool exact, double eps, const std::string& what) {
    REQUIRE(got >= -1 - 1e-12 && got <= 1 + 1e-12, what << " is " << got << ", outside of [-1, 1]");
    if (!exact && jump(shape, p, eps)) {
        if (shape == SQUARE) REQUIRE(got == 1 || got == -1, what << " is " << got << ", not a value of a square wave");
        if (shape == SAW) REQUIRE(std::fabs(got) > 1 - 4 * eps, what << " is " << got << " at the jump of a sawtooth wave");
        return;
    }
    double want = at(shape, p);
    REQUIRE(std::fabs(got - want) <= 10 * eps, what << " is " << got << ", the " << names[shape] << " wave at " << p << " cycles is " << want);
}
}  // namespace wave
