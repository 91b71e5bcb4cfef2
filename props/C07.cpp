// C07: inverse Fourier transforms.
// Oracle: the signal the spectrum was made from, and the defining sum.
#include <complex>
#include <vector>

#include "audio_buffer.hpp"
#include "dsp/ft.hpp"
#include "dsp/util.hpp"
#include "dspref.hpp"

using ref::C;
using namespace dsp::ft;

namespace {
std::vector<C> cvals(pbt::Src& s, size_t n) {
    std::vector<C> v(n);
    auto a = s.vals(static_cast<int64_t>(n)), b = s.vals(static_cast<int64_t>(n));
    for (size_t i = 0; i < n; ++i) v[i] = C(a[i], b[i]);
    return v;
}
void same(const std::vector<double>& got, const std::vector<double>& want, size_t n, double scale, const char* what) {
    for (size_t i = 0; i < n; ++i)
        REQUIRE(std::fabs(got[i] - want[i]) <= 1e-10 * std::max(1., scale), what << ": sample " << i << " is " << got[i] << ", expected " << want[i]);
}
void same(const std::vector<C>& got, const std::vector<C>& want, size_t n, double scale, const char* what) {
    for (size_t i = 0; i < n; ++i) REQUIRE(ref::close(got[i], want[i], scale), what << ": value " << i << " is " << got[i] << ", expected " << want[i]);
}
size_t pow2(pbt::Src& s, int lo, int hi) {
    size_t n = size_t(1) << s.i(lo, hi);
    if (n > 64 && !s.chance(1, 4)) n = size_t(1) << s.i(lo, 5);
    return n;
}
/// Real signal of a half spectrum, by definition
std::vector<double> synth(const std::vector<C>& half) {
    size_t n = (half.size() - 1) * 2;
    std::vector<double> x(n);
    for (size_t i = 0; i < n; ++i) {
        double t = 0;
        for (size_t k = 0; k < half.size(); ++k) {
            double w = (k == 0 || k == n / 2) ? 1 : 2;
            t += w * (half[k] * std::polar(1., 2 * ref::PI * static_cast<double>(k * i % n) / static_cast<double>(n))).real();
        }
        x[i] = t / static_cast<double>(n);
    }
    return x;
}
}  // namespace

SECTION(slow, 30000, 600000, "real signals of even length 2-64: slow transform and back, and arbitrary half spectra against the defining sum; non-trivial: length over two") {
    size_t n = 2 * static_cast<size_t>(s.i(1, 32)), m = n / 2 + 1;
    auto x = s.vals(static_cast<int64_t>(n));
    s.note() << pbt::show(x);
    s.nontrivial(n > 2);
    REQUIRE(length_ift(m) == n, "length of the inverse of " << m << " components is " << length_ift(m));
    REQUIRE(length_ift(length_ft(n)) == n, "lengths of the transforms are inverse");
    std::vector<C> X(m, C(0));
    dft(x.begin(), n, X.begin());
    std::vector<double> y(n + 1, 0.);
    y[n] = 99;
    auto copy = X;
    inv_dft(X.begin(), m, y.begin());
    REQUIRE(X == copy, "the inverse transform changes its input");
    REQUIRE(y[n] == 99, "the inverse transform writes outside of its output");
    same(y, x, n, ref::mag(x), "slow transform and back");
    auto H = cvals(s, m);
    H[0] = H[0].real();
    H[m - 1] = H[m - 1].real();
    std::vector<double> z(n, 0.);
    inv_dft(H.begin(), m, z.begin());
    same(z, synth(H), n, ref::mag(H), "slow inverse of a spectrum");
}

SECTION(complex, 25000, 500000, "complex data of 1-256 values (powers of two): out of place and in place transforms followed by their inverses, and inverses of arbitrary data against the defining sum; non-trivial: length over two") {
    size_t n = pow2(s, 0, 8);
    int N = static_cast<int>(n);
    auto x = cvals(s, n);
    s.note() << "length " << n << " first " << x[0].real();
    s.nontrivial(n > 2);
    s.label("length " + std::to_string(n));
    double scale = ref::mag(x);
    const C guard(99, 99);
    {
        std::vector<C> X(n), y(n + 1, guard);
        fft_c_radix2(x.begin(), N, X.begin());
        auto copy = X;
        ifft_c_radix2(X.begin(), N, y.begin());
        REQUIRE(X == copy, "the out of place inverse changes its input");
        REQUIRE(y[n] == guard, "the inverse writes outside of its output");
        same(y, x, n, scale, "out of place transform and back");
        // the other way around
        std::vector<C> t(n), u(n);
        ifft_c_radix2(x.begin(), N, t.begin());
        fft_c_radix2(t.begin(), N, u.begin());
        same(u, x, n, scale, "out of place inverse and forth");
        auto want = ref::dft(x, 1);
        for (auto& v : want) v /= static_cast<double>(n);
        same(t, want, n, scale, "inverse of arbitrary data");
        int stride = static_cast<int>(s.i(1, 3));
        std::vector<C> spread(n * static_cast<size_t>(stride), guard), v(n);
        for (size_t i = 0; i < n; ++i) spread[i * static_cast<size_t>(stride)] = x[i];
        ifft_c_radix2(spread.begin(), N, v.begin(), stride);
        same(v, want, n, scale, "strided inverse");
        std::vector<C> io = x;
        io.push_back(guard);
        ifft_c_radix2(io.begin(), N);
        dsp::util::bit_reverse(N, io.begin());
        REQUIRE(io[n] == guard, "the in place inverse writes outside of its data");
        same(io, want, n, scale, "in place inverse of arbitrary data");
    }
    {
        std::vector<C> io = x;
        fft_c_radix2(io.begin(), N);
        dsp::util::bit_reverse(N, io.begin());
        ifft_c_radix2(io.begin(), N);
        dsp::util::bit_reverse(N, io.begin());
        same(io, x, n, scale, "in place transform and back");
    }
}

SECTION(real, 30000, 600000, "real signals of 2-512 samples (powers of two): fast real transform and back, and arbitrary half spectra against the defining sum; non-trivial: length over two") {
    size_t n = pow2(s, 1, 9), m = n / 2 + 1;
    auto x = s.vals(static_cast<int64_t>(n));
    s.note() << "length " << n << " " << pbt::show(x);
    s.nontrivial(n > 2);
    s.label("length " + std::to_string(n));
    std::vector<C> X(m + 1, C(99, 99));
    std::vector<double> y(n + 1, 99.);
    fft_r_radix2(x.begin(), static_cast<int>(n), X.begin());
    ifft_r_radix2(X.begin(), static_cast<int>(m), y.begin());
    REQUIRE(y[n] == 99, "the fast real inverse writes outside of its output");
    REQUIRE(X[m] == C(99, 99), "the fast real inverse writes outside of its input");
    same(y, x, n, ref::mag(x), "fast real transform and back");
    // slow spectrum, fast inverse
    if (n <= 128) {
        std::vector<C> S(m, C(0));
        dft(x.begin(), n, S.begin());
        std::vector<double> z(n, 0.), w(n, 0.);
        inv_dft(S.begin(), m, w.begin());
        ifft_r_radix2(S.begin(), static_cast<int>(m), z.begin());
        same(z, x, n, ref::mag(x), "slow transform and fast inverse");
        same(w, x, n, ref::mag(x), "slow transform and slow inverse");
        auto H = cvals(s, m);
        H[0] = H[0].real();
        H[m - 1] = H[m - 1].real();
        auto want = synth(H);
        double scale = ref::mag(H);
        std::vector<double> v(n, 0.);
        ifft_r_radix2(H.begin(), static_cast<int>(m), v.begin());
        same(v, want, n, scale, "fast inverse of a spectrum");
    }
    // into a buffer
    AudioBuffer b(static_cast<int>(n));
    std::vector<C> X2(m);
    fft_r_radix2(x.begin(), static_cast<int>(n), X2.begin());
    ifft_r_radix2(X2.begin(), static_cast<int>(m), b.ibegin());
    same(std::vector<double>(b.ibegin(), b.iend()), x, n, ref::mag(x), "fast real transform and back into a buffer");
}

SECTION(large, 200, 5000, "data of 512-131072 values through every fast transform and back, and of 100-1200 samples through the slow ones; a few samples of inverses of arbitrary data against the defining sum; non-trivial: more than 2048 values") {
    size_t n = size_t(1) << s.i(9, s.chance(1, 4) ? 17 : 13);
    int N = static_cast<int>(n);
    s.note() << "length " << n;
    s.nontrivial(n > 2048);
    uint64_t st = static_cast<uint64_t>(s.i(1, 1000000));
    auto rnd = [&] {
        st = st * 6364136223846793005ULL + 1442695040888963407ULL;
        return static_cast<double>(static_cast<int64_t>(st >> 33)) / (1 << 30) - 1;
    };
    std::vector<double> x(n), y(n), z(n);
    std::vector<C> c(n), t(n), io, half(n / 2 + 1);
    for (size_t i = 0; i < n; ++i) {
        x[i] = rnd();
        c[i] = C(x[i], rnd());
    }
    double scale = ref::mag(c);
    ifft_c_radix2(c.begin(), N, t.begin());
    for (int j = 0; j < 5; ++j) {
        size_t i = j == 0 ? 0 : j == 1 ? n - 1 : static_cast<size_t>(s.i(0, N - 1));
        C want = ref::component(c, i, 1) / static_cast<double>(n);
        REQUIRE(ref::close(t[i], want, scale / N, 1e-11), "inverse of " << n << ": value " << i << " is " << t[i] << ", expected " << want);
    }
    io = t;
    fft_c_radix2(io.begin(), N);
    dsp::util::bit_reverse(N, io.begin());
    same(io, c, n, scale * 1e-2, "long inverse and forth in place");
    dsp::util::bit_reverse(N, io.begin());
    dsp::util::bit_reverse(N, io.begin());
    ifft_c_radix2(io.begin(), N);
    dsp::util::bit_reverse(N, io.begin());
    same(io, t, n, scale * 1e-2, "long transform and back in place");
    fft_r_radix2(x.begin(), N, half.begin());
    ifft_r_radix2(half.begin(), static_cast<int>(half.size()), y.begin());
    same(y, x, n, scale * 1e-2, "long real transform and back");
    size_t l = 2 * static_cast<size_t>(s.i(50, s.chance(1, 8) ? 600 : 150));
    l = std::min(l, n);
    std::vector<C> slow(l / 2 + 1, C(0));
    std::vector<double> back(l, 0.);
    dft(x.begin(), l, slow.begin());
    inv_dft(slow.begin(), slow.size(), back.begin());
    for (size_t i = 0; i < l; ++i) REQUIRE(std::fabs(back[i] - x[i]) <= 1e-8, "slow transform of " << l << " samples and back: sample " << i << " is " << back[i] << ", expected " << x[i]);
}

PBT_MAIN
