// C06: forward Fourier transforms.
// Oracle: the defining sum.
#include <array>
#include <complex>
#include <vector>

#include "audio_buffer.hpp"
#include "dsp/ft.hpp"
#include "dsp/util.hpp"
#include "dspref.hpp"

using ref::C;
using namespace dsp::ft;

namespace {

std::vector<double> signal(pbt::Src& s, size_t n) {
    switch (s.i(0, 3)) {
        case 0: {
            std::vector<double> v(n, 0.);
            v[static_cast<size_t>(s.i(0, static_cast<int64_t>(n) - 1))] = 1.;
            return v;
        }
        case 1: {  // a bin of the transform
            std::vector<double> v(n);
            double k = static_cast<double>(s.i(0, static_cast<int64_t>(n) / 2)), ph = s.unit(0, 6);
            for (size_t i = 0; i < n; ++i) v[i] = std::cos(2 * ref::PI * k * static_cast<double>(i) / static_cast<double>(n) + ph);
            return v;
        }
        default:
            return s.vals(static_cast<int64_t>(n));
    }
}

std::vector<C> csignal(pbt::Src& s, size_t n) {
    auto a = signal(s, n), b = signal(s, n);
    std::vector<C> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = C(a[i], b[i]);
    return v;
}

void compare(const std::vector<C>& got, const std::vector<C>& want, size_t n, double scale, const char* what) {
    for (size_t k = 0; k < n; ++k) REQUIRE(ref::close(got[k], want[k], scale), what << ": component " << k << " is " << got[k] << ", expected " << want[k]);
}

}  // namespace

SECTION(slow, 30000, 600000, "real signals of 1-48 samples (any length) through the slow transform, from vectors and from both kinds of buffer iterators; non-trivial: length over two") {
    size_t n = static_cast<size_t>(s.i(1, 48));
    auto x = signal(s, n);
    s.note() << pbt::show(x);
    s.nontrivial(n > 2);
    if (n % 2) s.label("odd length");
    auto want = ref::dft(x);
    size_t m = length_ft(n);
    REQUIRE(m == n / 2 + 1, "length of the transform of " << n << " samples is " << m);
    double scale = ref::mag(x);
    const C guard(99, 99);
    std::vector<C> out(m + 1, C(0));
    out[m] = guard;
    auto copy = x;
    dft(x.begin(), n, out.begin());
    REQUIRE(x == copy, "the transform changes its input");
    REQUIRE(out[m] == guard, "the transform writes outside of its output");
    compare(out, want, m, scale, "dft");
    AudioBuffer b(x);
    std::vector<C> o2(m, C(0)), o3(m, C(0));
    dft(b.ibegin(), n, o2.begin());
    dft(b.sbegin(), n, o3.begin());
    compare(o2, want, m, scale, "dft of interleaved iterator");
    compare(o3, want, m, scale, "dft of sequential iterator");
}

SECTION(complex, 20000, 400000, "complex signals of 1-256 samples (powers of two): out of place, out of place with a stride, in place, forward and backward sign; non-trivial: length over two") {
    size_t n = size_t(1) << s.i(0, 8);
    if (n > 64 && !s.chance(1, 4)) n = 32;
    int sign = s.chance(1, 3) ? 1 : -1;
    auto x = csignal(s, n);
    s.note() << "length " << n << " sign " << sign << " first " << x[0].real();
    s.nontrivial(n > 2);
    s.label("length " + std::to_string(n));
    auto want = ref::dft(x, sign);
    double scale = ref::mag(x);
    int N = static_cast<int>(n);
    const C guard(99, 99);
    {
        std::vector<C> out(n + 1, guard);
        auto copy = x;
        if (sign == -1 && s.b())
            fft_c_radix2(x.begin(), N, out.begin());
        else
            fft_c_radix2(x.begin(), N, out.begin(), 1, sign);
        REQUIRE(x == copy, "the out of place transform changes its input");
        REQUIRE(out[n] == guard, "the transform writes outside of its output");
        compare(out, want, n, scale, "out of place transform");
        // raw pointers
        std::vector<C> o2(n);
        fft_c_radix2(x.data(), N, o2.data(), 1, sign);
        compare(o2, want, n, scale, "out of place transform through pointers");
    }
    {
        // every stride-th value
        int stride = static_cast<int>(s.i(1, 4));
        std::vector<C> spread(n * static_cast<size_t>(stride), guard), out(n);
        for (size_t i = 0; i < n; ++i) spread[i * static_cast<size_t>(stride)] = x[i];
        fft_c_radix2(spread.begin(), N, out.begin(), stride, sign);
        compare(out, want, n, scale, "strided transform");
    }
    {
        std::vector<C> io = x;
        io.push_back(guard);
        if (sign == -1 && s.b())
            fft_c_radix2(io.begin(), N);
        else
            fft_c_radix2(io.begin(), N, sign);
        REQUIRE(io[n] == guard, "the in place transform writes outside of its data");
        // documented order: bit reversed
        int bits = ref::log2i(n);
        std::vector<C> nat(n);
        for (size_t i = 0; i < n; ++i) nat[ref::bitrev(i, bits)] = io[i];
        compare(nat, want, n, scale, "in place transform");
        dsp::util::bit_reverse(N, io.begin());
        compare(io, want, n, scale, "in place transform after bit reversal");
    }
}

SECTION(real, 30000, 600000, "real signals of 2-512 samples (powers of two) through the fast real transform, from vectors, arrays and mono buffers; non-trivial: length over two") {
    size_t n = size_t(1) << s.i(1, 9);
    if (n > 64 && !s.chance(1, 5)) n = size_t(1) << s.i(1, 5);
    auto x = signal(s, n);
    s.note() << "length " << n << " " << pbt::show(x);
    s.nontrivial(n > 2);
    s.label("length " + std::to_string(n));
    auto want = ref::dft(x);
    double scale = ref::mag(x);
    size_t m = length_ft(n);
    const C guard(99, 99);
    std::vector<C> out(m + 1, guard);
    auto copy = x;
    fft_r_radix2(x.begin(), static_cast<int>(n), out.begin());
    REQUIRE(x == copy, "the real transform changes its input");
    REQUIRE(out[m] == guard, "the real transform writes outside of its output");
    compare(out, want, m, scale, "fast real transform");
    std::vector<C> slow(m, C(0));
    dft(x.begin(), n, slow.begin());
    compare(slow, out, m, scale, "slow against fast real transform");
    AudioBuffer b(x);
    std::vector<C> o2(m);
    fft_r_radix2(b.ibegin(), static_cast<int>(n), o2.begin());
    compare(o2, want, m, scale, "fast real transform of a buffer");
}

SECTION(large, 150, 4000, "complex and real data of 512-131072 values through every fast transform, and 100-3000 samples through the slow one, a few components against the defining sum and the energy of all; non-trivial: more than 2048 values") {
    size_t n = size_t(1) << s.i(9, s.chance(1, 4) ? 17 : 13);
    int N = static_cast<int>(n), sign = s.b() ? 1 : -1;
    s.note() << "length " << n << " sign " << sign;
    s.nontrivial(n > 2048);
    std::vector<double> x(n), y(n);
    std::vector<C> z(n);
    uint64_t st = static_cast<uint64_t>(s.i(1, 1000000));
    auto rnd = [&] {
        st = st * 6364136223846793005ULL + 1442695040888963407ULL;
        return static_cast<double>(static_cast<int64_t>(st >> 33)) / (1 << 30) - 1;
    };
    for (size_t i = 0; i < n; ++i) z[i] = C(x[i] = rnd(), y[i] = rnd());
    double scale = ref::mag(z), energy = 0;
    for (auto& v : z) energy += std::norm(v);
    std::vector<size_t> ks{0, 1, n / 2, n - 1, n / 4 + 1};
    for (int i = 0; i < 6; ++i) ks.push_back(static_cast<size_t>(s.i(0, N - 1)));
    std::vector<C> out(n), io = z, half(n / 2 + 1);
    fft_c_radix2(z.begin(), N, out.begin(), 1, sign);
    fft_c_radix2(io.begin(), N, sign);
    dsp::util::bit_reverse(N, io.begin());
    fft_r_radix2(x.begin(), N, half.begin());
    double e1 = 0, e2 = 0, e3 = 0, er = 0;
    for (size_t k = 0; k < n; ++k) e1 += std::norm(out[k]), e2 += std::norm(io[k]), er += x[k] * x[k];
    for (size_t k = 0; k <= n / 2; ++k) e3 += std::norm(half[k]) * (k == 0 || k == n / 2 ? 1 : 2);
    REQUIRE(pbt::near(e1 / N, energy, 1e-9), "energy of the out of place transform of " << n);
    REQUIRE(pbt::near(e2 / N, energy, 1e-9), "energy of the in place transform of " << n);
    REQUIRE(pbt::near(e3 / N, er, 1e-9), "energy of the real transform of " << n);
    // all the components: the three transforms have to agree with each other
    std::vector<C> zx(n), cx(n);
    for (size_t i = 0; i < n; ++i) zx[i] = C(x[i], 0);
    fft_c_radix2(zx.begin(), N, cx.begin());
    for (size_t k = 0; k < n; ++k) REQUIRE(ref::close(io[k], out[k], scale, 1e-11), "in and out of place transform of " << n << " differ at component " << k << ": " << io[k] << " and " << out[k]);
    for (size_t k = 0; k <= n / 2; ++k) REQUIRE(ref::close(half[k], cx[k], scale, 1e-11), "real and complex transform of " << n << " real samples differ at component " << k << ": " << half[k] << " and " << cx[k]);
    for (size_t k : ks) {
        C want = ref::component(z, k, sign), r = ref::component(x, k);
        REQUIRE(ref::close(out[k], want, scale, 1e-12), "out of place transform of " << n << ": component " << k << " is " << out[k] << ", expected " << want);
        REQUIRE(ref::close(io[k], want, scale, 1e-12), "in place transform of " << n << ": component " << k << " is " << io[k] << ", expected " << want);
        if (k <= n / 2) REQUIRE(ref::close(half[k], r, scale, 1e-12), "real transform of " << n << ": component " << k << " is " << half[k] << ", expected " << r);
    }
    size_t l = static_cast<size_t>(s.i(100, s.chance(1, 8) ? 3000 : 500));
    l = std::min(l, n);
    std::vector<double> part(x.begin(), x.begin() + static_cast<long>(l));
    std::vector<C> slow(l / 2 + 1, C(0));
    dft(part.begin(), l, slow.begin());
    for (size_t k : {size_t(0), l / 2, l / 3, static_cast<size_t>(s.i(0, static_cast<int64_t>(l / 2)))})
        REQUIRE(ref::close(slow[k], ref::component(part, k), ref::mag(part)), "slow transform of " << l << ": component " << k << " is " << slow[k] << ", expected " << ref::component(part, k));
    // single precision input
    size_t m = std::min<size_t>(n, 1024);
    std::vector<float> f(x.begin(), x.begin() + static_cast<long>(m));
    std::vector<double> fd(f.begin(), f.end());
    std::vector<C> F(m / 2 + 1), D(m / 2 + 1);
    fft_r_radix2(f.begin(), static_cast<int>(m), F.begin());
    fft_r_radix2(fd.begin(), static_cast<int>(m), D.begin());
    for (size_t k = 0; k <= m / 2; ++k) REQUIRE(ref::close(F[k], D[k], ref::mag(fd), 1e-6), "real transform of floats: component " << k << " is " << F[k] << ", expected " << D[k]);
}

SECTION(laws, 15000, 300000, "linearity, shift and energy of the fast transforms on lengths up to 128, and the frequency a component stands for; non-trivial: length over two") {
    size_t n = size_t(1) << s.i(1, 7);
    auto x = signal(s, n), y = signal(s, n);
    double a = s.val(), rate = s.pick<double>({44100, 48000, 8000, 1});
    s.note() << "length " << n << " factor " << a;
    s.nontrivial(n > 2);
    size_t m = n / 2 + 1;
    int N = static_cast<int>(n);
    std::vector<double> z(n), sh(n);
    size_t d = static_cast<size_t>(s.i(0, N - 1));
    for (size_t i = 0; i < n; ++i) {
        z[i] = a * x[i] + y[i];
        sh[(i + d) % n] = x[i];
    }
    std::vector<C> X(m), Y(m), Z(m), S(m);
    fft_r_radix2(x.begin(), N, X.begin());
    fft_r_radix2(y.begin(), N, Y.begin());
    fft_r_radix2(z.begin(), N, Z.begin());
    fft_r_radix2(sh.begin(), N, S.begin());
    double scale = std::fabs(a) * ref::mag(x) + ref::mag(y) + ref::mag(x), e1 = 0, e2 = 0;
    for (size_t k = 0; k < m; ++k) {
        REQUIRE(ref::close(Z[k], a * X[k] + Y[k], scale), "component " << k << " is not linear");
        C ph = std::polar(1., -2 * ref::PI * static_cast<double>(k * d % n) / static_cast<double>(n));
        REQUIRE(ref::close(S[k], X[k] * ph, scale), "component " << k << " of the shifted signal");
        e2 += std::norm(X[k]) * (k == 0 || k == n / 2 ? 1 : 2);
        double f = index_freq(k, n, rate), wf = rate * static_cast<double>(k) / static_cast<double>(n);
        REQUIRE(pbt::near(f, wf, 1e-12), "component " << k << " of " << n << " stands for " << f << ", expected " << wf);
    }
    for (double v : x) e1 += v * v;
    REQUIRE(pbt::near(e2 / static_cast<double>(n), e1, 1e-9), "energy " << e2 / static_cast<double>(n) << ", expected " << e1);
}

PBT_MAIN
