/* Reference definitions used as oracles by the signal processing checks. */
#pragma once
#include <cmath>
#include <complex>
#include <numbers>
#include <vector>

#include "pbt.hpp"

namespace ref {

using C = std::complex<double>;
constexpr double PI = std::numbers::pi_v<double>;

/// Full linear convolution, by definition
inline std::vector<double> conv(const std::vector<double>& x, const std::vector<double>& h) {
    if (x.empty() || h.empty()) return {};
    std::vector<double> y(x.size() + h.size() - 1, 0.0);
    for (size_t n = 0; n < y.size(); ++n) {
        long double t = 0;
        for (size_t k = 0; k < h.size(); ++k)
            if (n >= k && n - k < x.size()) t += static_cast<long double>(h[k]) * x[n - k];
        y[n] = static_cast<double>(t);
    }
    return y;
}

/// sum of x[n] e^(sign 2 pi i k n / N)
template <typename V>
std::vector<C> dft(const V& x, int sign = -1) {
    const size_t N = x.size();
    std::vector<C> tw(N), out(N);
    for (size_t k = 0; k < N; ++k) {
        double a = sign * 2 * PI * static_cast<double>(k) / static_cast<double>(N);
        tw[k] = C(std::cos(a), std::sin(a));
    }
    for (size_t k = 0; k < N; ++k) {
        C t = 0;
        for (size_t n = 0; n < N; ++n) t += C(x[n]) * tw[(k * n) % N];
        out[k] = t;
    }
    return out;
}

/// One component of dft()
template <typename V>
C component(const V& x, size_t k, int sign = -1) {
    const size_t N = x.size();
    C t = 0;
    for (size_t n = 0; n < N; ++n) t += C(x[n]) * std::polar(1.0, sign * 2 * PI * static_cast<double>((k * n) % N) / static_cast<double>(N));
    return t;
}

inline double mag(const std::vector<double>& v) {
    double t = 0;
    for (double x : v) t += std::fabs(x);
    return t;
}
inline double mag(const std::vector<C>& v) {
    double t = 0;
    for (auto& x : v) t += std::abs(x);
    return t;
}

inline bool close(C a, C b, double scale, double tol = 1e-10) { return std::abs(a - b) <= tol * std::max(1.0, scale); }

/// Response of an impulse response at a frequency given as a fraction of the rate
inline C response(const std::vector<double>& h, double f) {
    C t = 0;
    for (size_t n = 0; n < h.size(); ++n) t += h[n] * std::polar(1.0, -2 * PI * f * static_cast<double>(n));
    return t;
}

inline int log2i(size_t n) {
    int k = 0;
    while ((size_t(1) << k) < n) ++k;
    return k;
}

inline size_t bitrev(size_t v, int bits) {
    size_t r = 0;
    for (int i = 0; i < bits; ++i) r |= ((v >> i) & 1) << (bits - 1 - i);
    return r;
}

}  // namespace ref
