// C08: windows and filter kernels.
// Oracle: the documented formulas, symmetry, normalisation, and the frequency
// response of a kernel before and after a spectral operation.
#include <vector>

#include "dsp/kernel.hpp"
#include "dsp/util.hpp"
#include "dsp/window.hpp"
#include "dspref.hpp"

using namespace dsp::win;
using namespace dsp::kern;

namespace {
double cosine(int n, int N, double k) { return std::cos(2 * k * ref::PI * n / (N - 1)); }
double hann(int n, int N, double a0) { return a0 - (1 - a0) * cosine(n, N, 1); }
double blackman(int n, int N, double al) { return (1 - al) / 2 - .5 * cosine(n, N, 1) + al / 2 * cosine(n, N, 2); }

double wrap_hann(int n, int N) { return window_hann(n, N); }
double wrap_hamming(int n, int N) { return window_hamming(n, N); }
double wrap_blackmanc(int n, int N) { return window_blackmanc(n, N); }

struct W {
    const char* name;
    window_functiont fn;
    double (*want)(int, int);
};
const W windows[] = {
    {"rectangle", window_rectangle, [](int, int) { return 1.; }},
    {"hann", wrap_hann, [](int n, int N) { return hann(n, N, .5); }},
    {"hamming", wrap_hamming, [](int n, int N) { return hann(n, N, .54); }},
    {"blackmanc", wrap_blackmanc, [](int n, int N) { return blackman(n, N, .16); }},
    {"blackman", window_blackman, [](int n, int N) { return blackman(n, N, .16); }},
};
}  // namespace

SECTION(window, 60000, 1000000, "a window of 2-200000 points at up to 40 random points and its ends: formula, symmetry, range; configurable parameters; non-trivial: size over three") {
    int N = static_cast<int>(s.chance(1, 10) ? s.i(2000, 200000) : s.sz(2, 2000));
    const W& w = windows[s.i(0, 4)];
    double a0 = s.unit(0.3, 1), al = s.chance(1, 4) ? s.unit(-2, 4) : s.unit(0, .5);
    if (s.chance(1, 6)) a0 = s.unit(-1, 2);
    s.note() << w.name << " of " << N;
    s.label(w.name);
    s.nontrivial(N > 3);
    for (int k = 0; k < 40; ++k) {
        int n = k == 0 ? 0 : (k == 1 ? N - 1 : (k == 2 ? (N - 1) / 2 : (N <= 40 ? k % N : static_cast<int>(s.i(0, N - 1)))));
        double v = w.fn(n, N);
        REQUIRE(pbt::near(v, w.want(n, N), 1e-12), w.name << "(" << n << "," << N << ") is " << v << ", expected " << w.want(n, N));
        REQUIRE(pbt::near(v, w.fn(N - 1 - n, N), 1e-12), w.name << " of " << N << " is not symmetric at " << n);
        REQUIRE(v >= -1e-12 && v <= 1 + 1e-12, w.name << " leaves [0, 1]");
        REQUIRE(pbt::near(window_hann(n, N, a0), hann(n, N, a0), 1e-12), "hann with a0 " << a0);
        REQUIRE(pbt::near(window_hamming(n, N, a0), hann(n, N, a0), 1e-12), "hamming with a0 " << a0);
        REQUIRE(pbt::near(window_blackmanc(n, N, al), blackman(n, N, al), 1e-12), "blackman with alpha " << al);
    }
}

SECTION(sinc, 40000, 600000, "sinc kernels of odd size 3-301 (some up to 6001, rarely 70001), cutoff (0, 0.5], every window: formula, symmetry, unit gain at DC; non-trivial: size over five") {
    int N = 2 * static_cast<int>(s.chance(1, 150) ? s.chance(1, 12) ? s.i(16000, 35000) : s.i(150, 3000) : s.sz(1, 150)) + 1;
    double f = s.chance(1, 6) ? s.pick<double>({.5, .25, .125, .01}) : s.unit(.0005, .5);
    const W& w = windows[s.i(0, 4)];
    s.note() << "cutoff " << f << " size " << N << " window " << w.name;
    s.label(w.name);
    s.nontrivial(N > 5);
    std::vector<double> want(static_cast<size_t>(N)), h(static_cast<size_t>(N) + 2, 77.);
    double sum = 0, mag = 0;
    for (int i = 0; i < N; ++i) {
        double x = 2 * ref::PI * f * (i - (N - 1) / 2);
        want[static_cast<size_t>(i)] = (x == 0 ? 1 : std::sin(x) / x) * w.want(i, N);
        sum += want[static_cast<size_t>(i)];
        mag += std::fabs(want[static_cast<size_t>(i)]);
    }
    if (std::fabs(sum) < 1e-3 * mag) s.discard();
    // (the sum is rounded: by more the longer it is, and the more of it cancels)
    const double tol = 1e-9 / N + N * 2.3e-16 * mag / (sum * sum);
    for (auto& v : want) v /= sum;
    sinc_kernel(f, N, h.begin() + 1, w.fn);
    REQUIRE(h.front() == 77. && h.back() == 77., "the kernel is written outside of its size");
    h = std::vector<double>(h.begin() + 1, h.end() - 1);
    double got = 0;
    for (int i = 0; i < N; ++i) {
        size_t k = static_cast<size_t>(i);
        REQUIRE(pbt::near(h[k], want[k], tol), "tap " << i << " is " << h[k] << ", expected " << want[k]);
        REQUIRE(pbt::near(h[k], h[static_cast<size_t>(N) - 1 - k], 1e-12), "tap " << i << " breaks the symmetry");
        got += h[k];
    }
    REQUIRE(pbt::near(got, 1, std::max(1e-9, N * 2.3e-16 * mag / std::fabs(sum))), "gain at DC is " << got);
    if (w.fn == window_blackman) {
        std::vector<double> d(static_cast<size_t>(N));
        sinc_kernel(f, N, d.begin());
        for (size_t k = 0; k < d.size(); ++k) REQUIRE(pbt::near(d[k], h[k], 1e-12), "the default window is not blackman");
    }
    for (double x : {s.unit(.001, 50), std::pow(10., s.unit(-9, 4)), -std::pow(10., s.unit(-9, 2))})
        REQUIRE(pbt::near(dsp::util::sinc(x), std::sin(x) / x, 1e-13), "sinc(" << x << ") is " << dsp::util::sinc(x) << ", expected " << std::sin(x) / x);
}

SECTION(spectral, 40000, 600000, "arbitrary symmetric kernels of odd size 1-61 (rarely 70001): inversion and reversal by response at random frequencies, and applied twice; non-trivial: size over three") {
    int half = static_cast<int>(s.sz(0, 30));
    const bool vast = s.chance(1, 2000);
    if (vast) half = static_cast<int>(s.i(1000, 35000));
    const int N = 2 * half + 1;
    std::vector<double> h(static_cast<size_t>(N));
    for (int i = 0; i <= half; ++i) h[static_cast<size_t>(i)] = h[static_cast<size_t>(N - 1 - i)] = vast ? (i % 1000 == 0 || i == half) * (i % 7 + 1.) : s.val();
    if (vast) s.note() << N << " taps, most of them zero";
    else s.note() << pbt::show(h);
    s.nontrivial(N > 3);
    auto inv = h, rev = h;
    inv.push_back(77.);
    rev.push_back(77.);
    spectral_inversion(inv.begin(), N);
    spectral_reversal(rev.begin(), N);
    REQUIRE(inv.back() == 77. && rev.back() == 77., "a kernel operation writes outside of the kernel");
    inv.pop_back();
    rev.pop_back();
    double scale = std::max(1., ref::mag(h));
    for (int k = 0; k < 6; ++k) {
        double f = k == 0 ? 0 : (k == 1 ? .5 : s.unit(0, .5));
        // zero phase responses are real
        auto zero = [&](const std::vector<double>& v, double fr) { return (ref::response(v, fr) * std::polar(1., 2 * ref::PI * fr * half)).real(); };
        REQUIRE(pbt::near(zero(inv, f), 1 - zero(h, f), 1e-9, scale), "inverted response at " << f << " is " << zero(inv, f) << ", original is " << zero(h, f));
        double a = std::abs(ref::response(rev, f)), b = std::abs(ref::response(h, .5 - f));
        REQUIRE(pbt::near(a, b, 1e-9, scale), "reversed response at " << f << " is " << a << ", original at " << .5 - f << " is " << b);
    }
    auto twice = inv, back = rev;
    spectral_inversion(twice.begin(), N);
    spectral_reversal(back.begin(), N);
    for (size_t i = 0; i < h.size(); ++i) {
        REQUIRE(pbt::near(twice[i], h[i], 1e-12, scale), "inversion applied twice changes tap " << i);
        REQUIRE(back[i] == h[i], "reversal applied twice changes tap " << i);
    }
}

PBT_MAIN
