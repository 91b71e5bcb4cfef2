// C12: numeric building blocks.
// Oracle: their definitions.
#include <complex>
#include <limits>
#include <numeric>
#include <type_traits>
#include <vector>

#include "audio_buffer.hpp"
#include "dsp/buffer.hpp"
#include "dsp/ft.hpp"
#include "dsp/matrix.hpp"
#include "dsp/util.hpp"
#include "dspref.hpp"

using ref::C;
using namespace dsp::buff;

namespace {
template <typename T>
T elem(pbt::Src& s) {
    if constexpr (std::is_integral_v<T>)
        return static_cast<T>(s.i(-50, 50));
    else
        return static_cast<T>(s.val());
}

template <typename T, typename U, typename V>
void product(pbt::Src& s) {
    // rows are channels; the second matrix has as many channels as the first has columns
    const int most = s.chance(1, 50) ? s.chance(1, 20) ? 130 : 40 : 7;
    int r = static_cast<int>(s.i(1, most)), k = static_cast<int>(s.i(1, most)), c = static_cast<int>(s.i(1, most));
    if (s.chance(1, 100)) *s.pick<int*>({&r, &k, &c}) = static_cast<int>(s.chance(1, 12) ? s.i(33000, 70000) : s.i(1, 1000));
    Buffer<T> a(k, r);
    Buffer<U> b(c, k);
    std::vector<std::vector<double>> A(r, std::vector<double>(k)), B(k, std::vector<double>(c));
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < k; ++j) A[i][j] = static_cast<double>(a.at(i, j) = elem<T>(s));
    for (int i = 0; i < k; ++i)
        for (int j = 0; j < c; ++j) B[i][j] = static_cast<double>(b.at(i, j) = elem<U>(s));
    Buffer<V> out(static_cast<int>(s.i(0, 9)), static_cast<int>(s.i(1, 4)));
    s.note() << r << "x" << k << " * " << k << "x" << c;
    s.nontrivial(r != c && k > 1);
    if (r != k || k != c) s.label("not square");
    dsp::mat::matrix_mult(a, b, out);
    REQUIRE(out.channels() == static_cast<size_t>(r) && out.channel_capacity() == static_cast<size_t>(c), "the product has " << out.channels() << " rows and " << out.channel_capacity() << " columns");
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j) {
            double t = 0, m = 0;
            for (int q = 0; q < k; ++q) {
                t += A[i][q] * B[q][j];
                m += std::fabs(A[i][q] * B[q][j]);
            }
            REQUIRE(pbt::near(static_cast<double>(out.at(i, j)), t, 1e-11, m), "element " << i << "," << j << " is " << static_cast<double>(out.at(i, j)) << ", expected " << t);
        }
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < k; ++j) REQUIRE(static_cast<double>(a.at(i, j)) == A[i][j], "the product changes its operands");
}
}  // namespace

SECTION(matrix, 60000, 1000000, "products of matrices of 1-7 (some of up to 130, one way up to 1000, rarely 70000) rows and columns, int and double elements; non-trivial: not square") {
    if (s.b())
        product<double, double, double>(s);
    else
        product<int, int, int>(s);
}

SECTION(dot, 80000, 1500000, "inner products of 0-60 (some of up to 100000) ints, floats or doubles, from vectors and buffer iterators; non-trivial: over one element") {
    int n = static_cast<int>(s.chance(1, 200) ? s.i(1000, 100000) : s.sz(0, 60));
    s.note() << n << " elements";
    s.nontrivial(n > 1);
    switch (s.i(0, 2)) {
        case 0: {
            std::vector<int> a(n), b(n);
            long t = 0;
            for (int i = 0; i < n; ++i) t += static_cast<long>(a[i] = elem<int>(s)) * (b[i] = elem<int>(s));
            REQUIRE(dsp::mat::dot_product(a.begin(), b.begin(), n) == t, "inner product of ints");
            break;
        }
        case 1: {
            std::vector<double> a(n), b(n);
            double t = 0, m = 0;
            for (int i = 0; i < n; ++i) {
                a[i] = elem<double>(s);
                b[i] = elem<double>(s);
                t += a[i] * b[i];
                m += std::fabs(a[i] * b[i]);
            }
            REQUIRE(pbt::near(dsp::mat::dot_product(a.begin(), b.begin(), n), t, 1e-12, m), "inner product of doubles is " << dsp::mat::dot_product(a.begin(), b.begin(), n) << ", expected " << t);
            if (n > 0) {
                AudioBuffer x(a), y(b);
                REQUIRE(pbt::near(dsp::mat::dot_product(x.ibegin(), y.sbegin(), n), t, 1e-12, m), "inner product of buffers");
            }
            break;
        }
        default: {
            std::vector<float> a(n), b(n);
            double t = 0, m = 0;
            for (int i = 0; i < n; ++i) {
                a[i] = static_cast<float>(s.i(-64, 64)) / 8;
                b[i] = static_cast<float>(s.i(-64, 64)) / 8;
                t += static_cast<double>(a[i]) * b[i];
                m += std::fabs(static_cast<double>(a[i]) * b[i]);
            }
            REQUIRE(pbt::near(dsp::mat::dot_product(a.begin(), b.begin(), n), t, 1e-4, m), "inner product of floats");
        }
    }
}

SECTION(pointwise, 60000, 800000, "pointwise products (real and complex), packing of real into complex data; non-trivial: over two elements") {
    int n = static_cast<int>(s.sz(0, 50));
    std::vector<double> a, b;
    if (s.chance(1, 300)) {
        n = static_cast<int>(s.i(51, 5000));
        s.note() << n << " numbered values ";
        for (int i = 0; i < n; ++i) a.push_back(i + 1), b.push_back(n / 2 - i);
    } else {
        a = s.vals(n);
        b = s.vals(n);
    }
    s.note() << pbt::show(a) << " " << pbt::show(b);
    s.nontrivial(n > 2);
    std::vector<double> o(static_cast<size_t>(n) + 1, 77.);
    dsp::util::multiply_signals(n, a.begin(), b.begin(), o.begin());
    for (int i = 0; i < n; ++i) REQUIRE(o[i] == a[i] * b[i], "product " << i);
    REQUIRE(o[n] == 77., "writes outside of the output");
    std::vector<C> ca(n), cb(n), co(static_cast<size_t>(n) + 1, C(77));
    for (int i = 0; i < n; ++i) {
        ca[i] = C(a[i], b[i]);
        cb[i] = C(b[i], -a[n - 1 - i]);
    }
    dsp::util::multiply_signals(n, ca.begin(), cb.begin(), co.begin());
    for (int i = 0; i < n; ++i) REQUIRE(ref::close(co[i], ca[i] * cb[i], std::abs(ca[i]) * std::abs(cb[i]), 1e-12), "complex product " << i);
    REQUIRE(co[n] == C(77), "writes outside of the output");
    std::vector<C> naive(static_cast<size_t>(n) + 1, C(77)), eop(static_cast<size_t>(n / 2) + 1, C(77));
    dsp::util::real_complex_naive(a.begin(), n, naive.begin());
    for (int i = 0; i < n; ++i) REQUIRE(naive[i] == C(a[i], 0), "complex value " << i);
    REQUIRE(naive[n] == C(77), "writes outside of the output");
    dsp::util::real_eop_complex(a.begin(), n, eop.begin());
    for (int i = 0; i < n / 2; ++i) REQUIRE(eop[i] == C(a[2 * i], a[2 * i + 1]), "packed value " << i);
    REQUIRE(eop[n / 2] == C(77), "writes outside of the output");
}

SECTION(bitreverse, 20000, 300000, "bit reversal of 1-2048 (some of up to 262144) elements (powers of two): the permutation, and applied twice; non-trivial: over four elements") {
    int bits = static_cast<int>(s.i(0, s.chance(1, 100) ? 18 : 11));
    if (bits > 7 && bits <= 11 && !s.chance(1, 4)) bits = 5;
    int n = 1 << bits;
    std::vector<int> v(n);
    int base = static_cast<int>(s.i(0, 1000));
    std::iota(v.begin(), v.end(), base);
    s.note() << n << " elements";
    s.nontrivial(n > 4);
    v.push_back(-1);
    dsp::util::bit_reverse(n, v.begin());
    REQUIRE(v[n] == -1, "writes outside of the data");
    for (int i = 0; i < n; ++i) REQUIRE(v[i] == base + static_cast<int>(ref::bitrev(i, bits)), "element " << i << " of " << n << " is " << v[i] - base);
    dsp::util::bit_reverse(n, v.begin());
    for (int i = 0; i < n; ++i) REQUIRE(v[i] == base + i, "applied twice, element " << i << " moved");
}

SECTION(basis, 100000, 1000000, "basis functions and twiddle factors on the unit circle; non-trivial: phase not zero") {
    int n = static_cast<int>(s.sz(1, 512)), k = static_cast<int>(s.i(0, n)), p = static_cast<int>(s.i(0, n));
    int sign = s.b() ? 1 : -1;
    s.note() << "k " << k << " of " << n << " phase " << p;
    s.nontrivial(p != 0 && k != 0);
    double a = 2 * ref::PI * static_cast<double>((static_cast<int64_t>(k) * p) % n) / n;
    REQUIRE(std::fabs(dsp::ft::cos_basis(p, n, k) - std::cos(a)) < 1e-9, "cosine basis is " << dsp::ft::cos_basis(p, n, k));
    REQUIRE(std::fabs(dsp::ft::sin_basis(p, n, k) - std::sin(a)) < 1e-9, "sine basis is " << dsp::ft::sin_basis(p, n, k));
    C w = dsp::ft::twiddle<double>(k, n, sign), e = std::polar(1., sign * 2 * ref::PI * k / n);
    REQUIRE(ref::close(w, e, 1), "twiddle factor is " << w << ", expected " << e);
    C w2 = dsp::ft::twiddle<double>(k, n), A = dsp::ft::compute_a<double>(k, n), B = dsp::ft::compute_b<double>(k, n);
    REQUIRE(ref::close(w2, std::polar(1., -2 * ref::PI * k / n), 1), "default twiddle factor is the forward one");
    C W = std::polar(1., -2 * ref::PI * k / n);
    REQUIRE(ref::close(A, (1. - C(0, 1) * W) / 2., 1) && ref::close(B, (1. + C(0, 1) * W) / 2., 1), "coefficients for real data");
}

PBT_MAIN
