// C11: recursive filters compute their difference equation.
// Oracle: y[n] = sum a[i] x[n-i] + sum b[i] y[n-1-i] over the whole history.
#include <array>
#include <complex>
#include <deque>
#include <vector>

#include "audio_buffer.hpp"
#include "dsp/iir.hpp"
#include "dspref.hpp"

using namespace dsp::iir;

namespace {

template <typename T>
std::vector<T> difference(const std::vector<T>& x, const std::vector<T>& a, const std::vector<T>& b) {
    std::vector<T> y(x.size());
    for (size_t n = 0; n < x.size(); ++n) {
        T v = 0;
        for (size_t i = 0; i < a.size() && i <= n; ++i) v += a[i] * x[n - i];
        for (size_t i = 0; i < b.size() && i < n; ++i) v += b[i] * y[n - 1 - i];
        y[n] = v;
    }
    return y;
}

/// Coefficients of a filter that can't grow: |b| sums to at most 0.9
std::vector<double> stable(pbt::Src& s, int n) {
    std::vector<double> b(static_cast<size_t>(n));
    double m = 0;
    for (auto& v : b) {
        v = s.chance(1, 4) ? 0. : s.unit(-1, 1);
        m += std::fabs(v);
    }
    if (m > .9)
        for (auto& v : b) v *= .9 / m;
    return b;
}

template <typename T>
void compare(const std::vector<T>& got, const std::vector<T>& want, double scale, const char* what) {
    REQUIRE(got.size() == want.size(), what << ": length " << got.size());
    for (size_t i = 0; i < want.size(); ++i)
        REQUIRE(std::abs(got[i] - want[i]) <= 1e-9 * scale, what << ": sample " << i << " is " << got[i] << ", expected " << want[i]);
}

}  // namespace

SECTION(filter, 40000, 800000, "0-9 (at times 300) A and B coefficients, 1-80 (or 700) samples given in any number of calls, in place or to an output; set by index, by iterator or by resizing; non-trivial: two or more coefficients of a kind and several calls") {
    const bool many = s.chance(1, 200);
    int na = static_cast<int>(many ? s.i(0, 300) : s.sz(0, 9)), nb = static_cast<int>(many ? s.i(0, 300) : s.sz(0, 9));
    auto a = s.vals(na);
    auto b = stable(s, nb);
    auto x = s.vals(many ? s.i(100, 700) : s.sz(1, 80));
    s.note() << "A " << pbt::show(a) << " B " << pbt::show(b) << " x " << pbt::show(x);
    if (na == 0) s.label("no A");
    if (nb == 0) s.label("no B");
    IIRFilter<double> f;
    if (s.b())
        f = IIRFilter<double>(na, nb);
    else {
        f.set_asize(na);
        f.set_bsize(nb);
        f.reserve();
    }
    REQUIRE(f.get_asize() == na && f.get_bsize() == nb, "coefficient counts do not read back");
    if (s.b()) {
        for (int i = 0; i < na; ++i) f.set_a(i, a[static_cast<size_t>(i)]);
        for (int i = 0; i < nb; ++i) f.set_b(i, b[static_cast<size_t>(i)]);
    } else {
        REQUIRE(f.aend() - f.abegin() == na && f.bend() - f.bbegin() == nb, "coefficient ranges");
        std::copy(a.begin(), a.end(), f.abegin());
        std::copy(b.begin(), b.end(), f.bbegin());
    }
    for (int i = 0; i < na; ++i) REQUIRE(f.get_a(i) == a[static_cast<size_t>(i)], "A " << i);
    for (int i = 0; i < nb; ++i) REQUIRE(f.get_b(i) == b[static_cast<size_t>(i)], "B " << i);
    auto want = difference(x, a, b);
    double scale = 1e3 + ref::mag(want);
    std::vector<double> got(x.size(), 0.), in = x;
    int calls = 0;
    for (size_t p = 0; p < x.size();) {
        int n = static_cast<int>(s.i(1, static_cast<int64_t>(x.size() - p)));
        if (s.b()) {
            f.process(in.begin() + static_cast<std::ptrdiff_t>(p), n, got.begin() + static_cast<std::ptrdiff_t>(p));
        } else {
            std::vector<double> blk(in.begin() + static_cast<std::ptrdiff_t>(p), in.begin() + static_cast<std::ptrdiff_t>(p) + n);
            f.process(blk.begin(), n);
            std::copy(blk.begin(), blk.end(), got.begin() + static_cast<std::ptrdiff_t>(p));
        }
        ++calls;
        p += static_cast<size_t>(n);
    }
    s.nontrivial((na > 1 || nb > 1) && calls > 1);
    REQUIRE(in == x, "filtering to an output changes the input");
    compare(got, want, scale, "filter");
}

#if !defined(__SANITIZE_ADDRESS__)
SECTION(endless, 1, 2, "one filter fed more samples than an int counts (2^31 + 2^17), checked around that point and at a few others; non-trivial: always") {
    const std::vector<double> a{s.val(), 1, s.val(), 2}, b{.25, -.125, .125};
    const int na = static_cast<int>(s.i(3, 4)), nb = 3;
    IIRFilter<double> f(na, nb);
    std::copy_n(a.begin(), na, f.abegin());
    std::copy_n(b.begin(), nb, f.bbegin());
    s.note() << "A " << pbt::show(a);
    s.nontrivial();
    // (the input repeats, so that the output does after the first block)
    const int n = 1 << 16;
    std::vector<double> x(static_cast<size_t>(n)), y(x.size()), want;
    for (size_t i = 0; i < x.size(); ++i) x[i] = static_cast<double>((i * 7919) % 23) - 11;
    std::vector<double> twice(x);
    twice.insert(twice.end(), x.begin(), x.end());
    want = difference(twice, std::vector<double>(a.begin(), a.begin() + na), b);
    want.erase(want.begin(), want.begin() + n);
    for (int64_t k = 0; k <= (int64_t(1) << 15); ++k) {
        pbt::alive();
        f.process(x.data(), n, y.data());
        if (k && (k % 4096 < 2 || k > 32760))
            for (size_t i = 0; i < y.size(); ++i)
                REQUIRE(std::fabs(y[i] - want[i]) <= 1e-9 * 1e3, "sample " << k * n + static_cast<int64_t>(i) << " is " << y[i] << ", expected " << want[i]);
    }
}

#endif

SECTION(single, 20000, 300000, "iir_recursive_single with history in deques of 1-9 entries; non-trivial: several coefficients of both kinds") {
    int na = static_cast<int>(s.i(1, 9)), nb = static_cast<int>(s.i(1, 9));
    auto a = s.vals(na);
    auto b = stable(s, nb);
    auto x = s.vals(s.sz(1, 40));
    s.note() << "A " << pbt::show(a) << " B " << pbt::show(b) << " x " << pbt::show(x);
    s.nontrivial(na > 1 && nb > 1);
    std::deque<double> in(static_cast<size_t>(na), 0.), out(static_cast<size_t>(nb), 0.);
    auto want = difference(x, a, b);
    std::vector<double> got;
    for (double v : x) {
        got.push_back(iir_recursive_single(v, in, out, a.begin(), b.begin(), na, nb));
        REQUIRE(in.size() == static_cast<size_t>(na) && out.size() == static_cast<size_t>(nb), "the history changed its size");
        REQUIRE(in.front() == v && out.front() == got.back(), "the history does not start with the last sample");
    }
    compare(got, want, 1e3 + ref::mag(want), "single");
}

SECTION(complex, 8000, 120000, "filters over complex samples; non-trivial: several samples") {
    using C = std::complex<double>;
    int na = static_cast<int>(s.i(1, 5)), nb = static_cast<int>(s.i(0, 5));
    std::vector<C> a, b, x;
    for (int i = 0; i < na; ++i) a.emplace_back(s.val(), s.val());
    auto m = stable(s, nb);
    for (int i = 0; i < nb; ++i) b.push_back(std::polar(m[static_cast<size_t>(i)], s.unit(0, 6)));
    int64_t n = s.sz(1, 30);
    for (int64_t i = 0; i < n; ++i) x.emplace_back(s.val(), s.val());
    s.note() << na << " A, " << nb << " B, " << n << " samples";
    s.nontrivial(n > 2);
    IIRFilter<C> f(na, nb);
    std::copy(a.begin(), a.end(), f.abegin());
    std::copy(b.begin(), b.end(), f.bbegin());
    std::vector<C> got(x.size());
    f.process(x.begin(), static_cast<int>(n), got.begin());
    auto want = difference(x, a, b);
    compare(got, want, 1e3 + ref::mag(want), "complex filter");
}

SECTION(buffers, 8000, 120000, "filtering through audio buffer iterators, each channel with a filter of its own; non-trivial: several channels") {
    int ch = static_cast<int>(s.i(1, 4));
    int64_t n = s.sz(1, 40);
    auto a = s.vals(s.i(1, 4));
    auto b = stable(s, static_cast<int>(s.i(0, 4)));
    s.note() << ch << " channels of " << n << " A " << pbt::show(a) << " B " << pbt::show(b);
    s.nontrivial(ch > 1 && n > 1);
    AudioBuffer buf(static_cast<int>(n), ch);
    std::vector<double> all = s.vals(n * ch);
    for (size_t i = 0; i < all.size(); ++i) buf.at(static_cast<int>(i) / static_cast<int>(n), static_cast<int>(i) % static_cast<int>(n)) = all[i];
    for (int c = 0; c < ch; ++c) {
        IIRFilter<double> f(static_cast<int>(a.size()), static_cast<int>(b.size()));
        std::copy(a.begin(), a.end(), f.abegin());
        std::copy(b.begin(), b.end(), f.bbegin());
        f.process(buf.sbegin() + static_cast<int>(n) * c, static_cast<int>(n));
    }
    for (int c = 0; c < ch; ++c) {
        std::vector<double> x(all.begin() + n * c, all.begin() + n * (c + 1)), got;
        for (int64_t i = 0; i < n; ++i) got.push_back(buf.at(c, static_cast<int>(i)));
        auto want = difference(x, a, b);
        compare(got, want, 1e3 + ref::mag(want), "channel");
    }
}

SECTION(single_pole, 20000, 300000, "single pole low and high pass filters over the range of cutoffs: coefficients, gain at both ends, step response; also changed from one type to the other; non-trivial: always") {
    SinglePole<double> f;
    s.nontrivial();
    int rounds = static_cast<int>(s.turns(1, 3));
    for (int r = 0; r < rounds; ++r) {
        bool hi = s.b();
        double fc = s.unit(.0005, .4);
        int rate = s.pick<int>({44100, 48000, 8000});
        bool hz = s.b();
        s.note() << (hi ? "high" : "low") << " pass at " << fc << (hz ? " in hertz; " : "; ");
        SinglePole<double> fresh;
        SinglePole<double>& g = r == 0 ? fresh : f;
        // start from a clean history: a used filter keeps its samples
        if (r > 0) f = SinglePole<double>();
        g.set_type(hi ? dsp::consts::FilterType::HighPass : dsp::consts::FilterType::LowPass);
        REQUIRE(g.get_type() == (hi ? dsp::consts::FilterType::HighPass : dsp::consts::FilterType::LowPass), "type");
        g.set_sample_rate(rate);
        REQUIRE(g.get_sample_rate() == rate, "sample rate");
        if (hz) {
            if (hi) g.set_freq_low(fc * rate);
            else g.set_freq_high(fc * rate);
        } else {
            if (hi) g.set_frac_low(fc);
            else g.set_frac_high(fc);
        }
        double back = hi ? g.get_frac_low() : g.get_frac_high();
        double backhz = hi ? g.get_freq_low() : g.get_freq_high();
        REQUIRE(pbt::near(back, fc, 1e-12) && pbt::near(backhz, fc * rate, 1e-9), "cutoff reads back as " << back << " and " << backhz);
        g.generate_coefficients();
        double x = std::exp(-2 * ref::PI * fc);
        std::vector<double> a = hi ? std::vector<double>{(1 + x) / 2, -(1 + x) / 2} : std::vector<double>{1 - x}, b = {x};
        REQUIRE(g.get_asize() == static_cast<int>(a.size()) && g.get_bsize() == 1, "coefficient counts");
        for (int i = 0; i < g.get_asize(); ++i) REQUIRE(pbt::near(g.get_a(i), a[static_cast<size_t>(i)], 1e-12), "A " << i << " is " << g.get_a(i));
        REQUIRE(pbt::near(g.get_b(0), x, 1e-12), "B is " << g.get_b(0));
        // a step in, and the alternating signal at the upper end of the band
        int n = 60;
        std::vector<double> in(static_cast<size_t>(n), 1.), out(in.size());
        if (s.b())
            for (size_t i = 1; i < in.size(); i += 2) in[i] = -1;
        g.process(in.begin(), n, out.begin());
        compare(out, difference(in, a, b), 100, "response");
    }
}

SECTION(map, 10000, 100000, "freq_map takes hertz to radians per sample; non-trivial: always") {
    double rate = s.pick<double>({44100, 48000, 8000, 1});
    double f = s.unit(0, rate);
    s.nontrivial();
    s.note() << f << " of " << rate;
    REQUIRE(pbt::near(freq_map(f, rate), 2 * ref::PI * f / rate, 1e-12), "freq_map gives " << freq_map(f, rate));
}

SECTION(gain, 6000, 100000, "freq_response of 0-6 (at times 40) A and B coefficients at frequencies from -pi to pi, against the steady output of the difference equation for a complex sinusoid; coefficients in vectors, arrays and deques; non-trivial: several coefficients of both kinds at an inner frequency") {
    using C = std::complex<double>;
    const int most = s.chance(1, 12) ? 40 : 6;
    const auto a = s.vals(s.sz(0, most));
    auto b = stable(s, static_cast<int>(s.sz(0, most)));
    for (auto& v : b) v *= .5;
    const double w = s.chance(1, 4) ? s.pick<double>({0, ref::PI, -ref::PI, ref::PI / 2}) : s.unit(-ref::PI, ref::PI);
    s.note() << "A " << pbt::show(a) << " B " << pbt::show(b) << " at " << w;
    std::vector<C> x(50 + 40 * std::max(a.size(), b.size() + 1)), ca(a.begin(), a.end()), cb(b.begin(), b.end());
    for (size_t i = 0; i < x.size(); ++i) x[i] = std::polar(1., w * static_cast<double>(i));
    const auto y = difference(x, ca, cb);
    const C want = y.back() / x.back();
    C got;
    switch (s.i(0, 2)) {
        case 0: got = freq_response(w, a, b); break;
        case 1: got = freq_response(w, std::deque<double>(a.begin(), a.end()), b); break;
        default: {
            std::array<double, 40> fa{}, fb{};
            std::copy(a.begin(), a.end(), fa.begin());
            std::copy(b.begin(), b.end(), fb.begin());
            got = freq_response(w, fa, fb);
        }
    }
    double scale = 1;
    for (double v : a) scale += std::fabs(v);
    REQUIRE(std::abs(got - want) <= 1e-8 * scale, "freq_response gives " << got << ", the filter applies " << want);
    s.nontrivial(a.size() > 1 && b.size() > 1 && std::fabs(w) > .1 && std::fabs(w) < 3);
}

PBT_MAIN
