// C05: every convolution computes the full linear convolution.
// Oracle: the sum from the definition.
#include <list>
#include <numeric>
#include <vector>

#include "audio_buffer.hpp"
#include "dsp/conv.hpp"
#include "dspref.hpp"

namespace {

std::vector<double> signal(pbt::Src& s, int64_t n) {
    switch (s.i(0, 3)) {
        case 0: {
            std::vector<double> v(static_cast<size_t>(n), 0.);
            v[static_cast<size_t>(s.i(0, n - 1))] = s.b() ? 1. : -3.;
            return v;
        }
        case 1: {
            std::vector<double> v(static_cast<size_t>(n));
            for (auto& x : v) x = static_cast<double>(s.i(-9, 9));
            return v;
        }
        default:
            return s.vals(n);
    }
}

void compare(const std::vector<double>& got, const std::vector<double>& want, double scale, const char* what, double tol = 1e-11) {
    REQUIRE(got.size() == want.size(), what << ": length " << got.size() << ", expected " << want.size());
    for (size_t i = 0; i < want.size(); ++i)
        REQUIRE(std::fabs(got[i] - want[i]) <= tol * std::max(1., scale), what << ": sample " << i << " is " << got[i] << ", expected " << want[i]);
}

std::vector<double> values(AudioBuffer& b) { return std::vector<double>(b.ibegin(), b.iend()); }

void all(pbt::Src& s, int64_t n, int64_t k, bool fft_only = false) {
    auto x = signal(s, n), h = signal(s, k);
    s.note() << "signal " << pbt::show(x) << " kernel " << pbt::show(h);
    s.nontrivial(n > 1 && k > 1);
    if (k > n) s.label("kernel longer than signal");
    auto want = ref::conv(x, h);
    const size_t L = want.size();
    double scale = ref::mag(x) * (h.empty() ? 1 : *std::max_element(h.begin(), h.end(), [](double a, double b) { return std::fabs(a) < std::fabs(b); }));
    scale = std::fabs(scale);
    double fscale = ref::mag(x) * ref::mag(h);
    REQUIRE(dsp::conv::length_conv(static_cast<int>(n), static_cast<int>(k)) == static_cast<int>(L), "length_conv of ints");
    REQUIRE(dsp::conv::length_conv(static_cast<size_t>(n), static_cast<size_t>(k)) == static_cast<int>(L), "length_conv of sizes");

    // guard the output on both sides
    auto run = [&](auto f, const char* what, double sc, double tol) {
        std::vector<double> out(L + 2, 0.);
        out.front() = out.back() = 1234.5;
        f(out.begin() + 1);
        REQUIRE(out.front() == 1234.5 && out.back() == 1234.5, what << " writes outside of its output");
        compare(std::vector<double>(out.begin() + 1, out.end() - 1), want, sc, what, tol);
    };
    auto xc = x, hc = h;
    run([&](auto o) { dsp::conv::conv_fft(x.begin(), static_cast<int>(n), h.begin(), static_cast<int>(k), o); }, "conv_fft", fscale, 1e-11);
    REQUIRE(x == xc && h == hc, "conv_fft changes its inputs");
    if (fft_only) return;
    run([&](auto o) { dsp::conv::input_conv(x.begin(), x.size(), h.begin(), h.size(), o); }, "input_conv", scale, 1e-12);
    run([&](auto o) { dsp::conv::output_conv(x.begin(), x.size(), h.begin(), h.size(), o); }, "output_conv", scale, 1e-12);
    run([&](auto o) { dsp::conv::input_conv(x.begin(), x.end(), h.begin(), h.end(), o); }, "input_conv of ranges", scale, 1e-12);
    run([&](auto o) { dsp::conv::output_conv(x.begin(), x.end(), h.begin(), h.end(), o); }, "output_conv of ranges", scale, 1e-12);
    // the order of the operands does not matter
    run([&](auto o) { dsp::conv::input_conv(h.begin(), h.size(), x.begin(), x.size(), o); }, "input_conv swapped", scale, 1e-12);
    run([&](auto o) { dsp::conv::output_conv(h.begin(), h.size(), x.begin(), x.size(), o); }, "output_conv swapped", scale, 1e-12);
    REQUIRE(x == xc && h == hc, "convolution changes its inputs");

    auto buffer = [](const std::vector<double>& v) { return std::make_unique<AudioBuffer>(v); };
    auto p = dsp::conv::input_conv(buffer(x), buffer(h));
    compare(values(*p), want, scale, "input_conv of buffers");
    auto q = dsp::conv::output_conv(buffer(x), buffer(h));
    compare(values(*q), want, scale, "output_conv of buffers");
    // through buffer iterators
    AudioBuffer bx(x), bh(h), out(static_cast<int>(L));
    dsp::conv::output_conv(bx.sbegin(), bx.size(), bh.ibegin(), bh.size(), out.ibegin());
    compare(values(out), want, scale, "output_conv through iterators");
}

}  // namespace

SECTION(sizes, 60000, 1500000, "signal and kernel of 1-24 samples each, small integers, impulses and arbitrary values; every algorithm; non-trivial: both longer than one sample") {
    int64_t n = s.i(1, 24), k = s.i(1, 24);
    all(s, n, k);
}

SECTION(longer, 2500, 60000, "signal of up to 400 and kernel of up to 130 samples; non-trivial: both longer than one sample") {
    int64_t n = s.sz(1, 400), k = s.sz(1, 130);
    all(s, n, k);
}

SECTION(powers, 4000, 80000, "lengths on and around powers of two (where FFT convolution pads) up to 513; non-trivial: both longer than one sample") {
    int64_t total = (int64_t(1) << s.i(1, 9)) + s.i(-1, 1);
    int64_t k = s.i(1, std::max<int64_t>(1, total));
    int64_t n = std::max<int64_t>(1, total - k + 1);
    all(s, n, k, total > 130);
}

SECTION(large, 60, 1500, "signals of 1000-100000 samples and sparse kernels of up to 70000, both ways around; every algorithm whose cost allows it, against the sum over the taps of the kernel; non-trivial: more than 65536 output samples") {
    int64_t n = s.i(1000, 100000), k = s.chance(1, 2) ? s.i(1, 40) : s.i(1000, 70000);
    auto x = s.vals(n);
    std::vector<double> h(static_cast<size_t>(k), 0.);
    int64_t taps = s.i(1, 6);
    for (int64_t t = 0; t < taps; ++t) h[static_cast<size_t>(s.i(0, k - 1))] = s.val();
    h[static_cast<size_t>(k - 1)] = 2;
    s.note() << "signal " << n << " kernel " << k;
    const size_t L = static_cast<size_t>(n + k - 1);
    s.nontrivial(L > 65536);
    std::vector<double> want(L, 0.);
    for (size_t j = 0; j < h.size(); ++j)
        if (h[j] != 0)
            for (size_t i = 0; i < x.size(); ++i) want[i + j] += h[j] * x[i];
    double scale = ref::mag(x) * ref::mag(h);
    bool swap = s.b();
    auto& a = swap ? h : x;
    auto& b = swap ? x : h;
    std::vector<double> out(L + 1, 0.);
    out[L] = 99;
    dsp::conv::conv_fft(a.begin(), static_cast<int>(a.size()), b.begin(), static_cast<int>(b.size()), out.begin());
    REQUIRE(out[L] == 99, "conv_fft writes outside of its output");
    out.pop_back();
    compare(out, want, scale, "conv_fft of long data", 1e-12);
    if (k <= 40) {
        std::vector<double> o2(L, 0.), o3(L, 0.);
        dsp::conv::input_conv(a.begin(), a.size(), b.begin(), b.size(), o2.begin());
        compare(o2, want, scale, "input_conv of long data", 1e-13);
        if (!swap) {
            dsp::conv::output_conv(a.begin(), a.size(), b.begin(), b.size(), o3.begin());
            compare(o3, want, scale, "output_conv of long data", 1e-13);
        }
        auto p = dsp::conv::input_conv(std::make_unique<AudioBuffer>(a), std::make_unique<AudioBuffer>(b));
        compare(values(*p), want, scale, "input_conv of long buffers", 1e-13);
        auto q = dsp::conv::output_conv(std::make_unique<AudioBuffer>(a), std::make_unique<AudioBuffer>(b));
        compare(values(*q), want, scale, "output_conv of long buffers", 1e-13);
    }
}

SECTION(accumulate, 20000, 300000, "the direct algorithms add to what their output holds, so a signal convolved in two overlapping parts gives the whole; non-trivial: both parts are not empty") {
    int64_t n = s.i(2, 40), k = s.i(1, 20), cut = s.i(1, n - 1);
    auto x = signal(s, n), h = signal(s, k);
    s.note() << "signal " << n << " cut at " << cut << " kernel " << k;
    s.nontrivial(k > 1);
    auto want = ref::conv(x, h);
    for (int alg = 0; alg < 2; ++alg) {
        std::vector<double> out(want.size(), 0.);
        auto c = static_cast<size_t>(cut);
        if (alg == 0) {
            dsp::conv::input_conv(x.begin(), c, h.begin(), h.size(), out.begin());
            dsp::conv::input_conv(x.begin() + cut, x.size() - c, h.begin(), h.size(), out.begin() + cut);
        } else {
            dsp::conv::output_conv(x.begin(), c, h.begin(), h.size(), out.begin());
            dsp::conv::output_conv(x.begin() + cut, x.size() - c, h.begin(), h.size(), out.begin() + cut);
        }
        compare(out, want, ref::mag(x) * 9, alg ? "output_conv in two parts" : "input_conv in two parts");
    }
}

PBT_MAIN
