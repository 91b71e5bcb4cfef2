// C02: a buffer behaves like an array that owns its samples.
// Oracle: a std::vector plus channel count and sample rate, updated in step.
#include <string>
#include <utility>
#include <list>
#include <vector>

#include "audio_buffer.hpp"
#include "dsp/buffer.hpp"
#include "pbt.hpp"

using namespace dsp::buff;

namespace {

template <typename T>
struct Model {
    std::vector<T> data;
    std::size_t channels = 1;
    double rate = 44100;
};

template <typename T>
T make(pbt::Src& s);
template <>
double make<double>(pbt::Src& s) {
    return s.val();
}
template <>
int make<int>(pbt::Src& s) {
    return static_cast<int>(s.i(-1000, 1000));
}
template <>
std::string make<std::string>(pbt::Src& s) {
    return std::string(static_cast<size_t>(s.i(0, 40)), static_cast<char>('a' + s.i(0, 25)));
}

template <typename T>
void same(Buffer<T>& b, const Model<T>& m, const char* what) {
    REQUIRE(b.size() == m.data.size(), what << ": size " << b.size() << ", expected " << m.data.size());
    REQUIRE(b.channels() == m.channels, what << ": channels " << b.channels() << ", expected " << m.channels);
    REQUIRE(b.get_samplerate() == m.rate, what << ": sample rate " << b.get_samplerate() << ", expected " << m.rate);
    REQUIRE(b.channel_capacity() == m.data.size() / m.channels, what << ": channel capacity " << b.channel_capacity());
    for (size_t i = 0; i < m.data.size(); ++i)
        REQUIRE(b.at(static_cast<int>(i)) == m.data[i], what << ": sample " << i << " differs");
    size_t n = 0;
    for (auto it = b.ibegin(); it != b.iend() && n <= m.data.size(); ++it, ++n)
        REQUIRE(n < m.data.size() && *it == m.data[n], what << ": iteration differs at " << n);
    REQUIRE(n == m.data.size(), what << ": iteration visits " << n << " samples");
}

template <typename T>
void history(pbt::Src& s) {
    constexpr int N = 3;
    Buffer<T> b[N];
    Model<T> m[N];
    const double def = Buffer<T>().get_samplerate();
    for (auto& x : m) x.rate = def;
    for (int i = 0; i < N; ++i) same(b[i], m[i], "empty buffer");
    int steps = static_cast<int>(s.turns(1, 30));
    bool copied = false, mutated_after = false;
    auto values = [&](int64_t n) {
        std::vector<T> v(static_cast<size_t>(n));
        for (auto& x : v) x = make<T>(s);
        return v;
    };
    const pbt::Swarm swarm(s, 0, 22);
    for (int k = 0; k < steps; ++k) {
        int op = swarm(s);
        int x = static_cast<int>(s.i(0, N - 1)), y = static_cast<int>(s.i(0, N - 1));
        s.note() << op << "(" << x << "," << y << ") ";
        switch (op) {
            case 0: {
                T v = make<T>(s);
                b[x].push_back(v);
                m[x].data.push_back(v);
                mutated_after = copied;
                break;
            }
            case 1: {
                int n = static_cast<int>(s.sz(0, 50));
                b[x].resize(n);
                m[x].data.resize(static_cast<size_t>(n));
                break;
            }
            case 2:
                b[x].reserve(static_cast<size_t>(s.sz(0, 80)));
                break;
            case 3:
                b[x].clear();
                m[x].data.clear();
                break;
            case 4:
                b[x].shrink();
                break;
            case 5: {
                int c = static_cast<int>(s.i(1, 8));
                b[x].set_channels(static_cast<size_t>(c));
                m[x].channels = static_cast<size_t>(c);
                break;
            }
            case 6: {
                double r = s.pick<double>({44100, 48000, 8000, 96000.5, 1});
                b[x].set_samplerate(r);
                m[x].rate = r;
                break;
            }
            case 7:
            case 8:
                b[x] = static_cast<const Buffer<T>&>(b[y]);
                m[x] = Model<T>(m[y]);
                copied = true;
                break;
            case 9:
                if (x != y) {
                    b[x] = std::move(b[y]);
                    m[x] = m[y];
                    b[y] = Buffer<T>();
                    m[y] = Model<T>();
                    m[y].rate = def;
                }
                break;
            case 10: {
                Buffer<T> c(static_cast<const Buffer<T>&>(b[x]));
                same(c, m[x], "copy constructed buffer");
                if (c.size()) c.at(0) = make<T>(s);
                c.push_back(make<T>(s));
                break;  // b[x] must not notice
            }
            case 11: {
                Buffer<T> c(std::move(b[x]));
                same(c, m[x], "move constructed buffer");
                b[x] = std::move(c);
                break;
            }
            case 12: {
                auto v = values(s.sz(0, 20));
                b[x] = static_cast<const std::vector<T>&>(v);
                m[x].data = v;
                break;
            }
            case 13: {
                auto v = values(s.sz(0, 20));
                m[x].data = v;
                b[x] = std::move(v);
                break;
            }
            case 14: {
                auto v = values(s.sz(0, 20));
                b[x].assign(static_cast<const std::vector<T>&>(v));
                m[x].data = v;
                break;
            }
            case 15: {
                int n = static_cast<int>(s.sz(0, 20)), c = static_cast<int>(s.i(1, 6));
                double r = s.pick<double>({44100, 22050, 7});
                if (s.b())
                    b[x] = Buffer<T>(n, c, r);
                else
                    b[x] = Buffer<T>(static_cast<std::size_t>(n), c, r);
                m[x].data.assign(static_cast<size_t>(n * c), T());
                m[x].channels = static_cast<size_t>(c);
                m[x].rate = r;
                break;
            }
            case 16: {
                int c = static_cast<int>(s.i(1, 6));
                auto v = values(c * s.sz(0, 8));
                double r = s.pick<double>({44100, 22050, 7});
                if (s.b())
                    b[x] = Buffer<T>(v, c, r);
                else
                    b[x] = Buffer<T>(v.begin(), v.end(), c, r);
                m[x].data = v;
                m[x].channels = static_cast<size_t>(c);
                m[x].rate = r;
                break;
            }
            case 17: {
                T p = make<T>(s), q = make<T>(s), r = make<T>(s), t = make<T>(s);
                b[x] = Buffer<T>(std::initializer_list<T>{p, q, r, t}, 2, 100.);
                m[x].data = {p, q, r, t};
                m[x].channels = 2;
                m[x].rate = 100.;
                break;
            }
            case 19: {
                // (a sample of the buffer itself, which may move while it grows)
                if (m[x].data.empty()) break;
                const size_t i = static_cast<size_t>(s.i(0, static_cast<int64_t>(m[x].data.size()) - 1));
                b[x].push_back(b[x].at(static_cast<int>(i)));
                m[x].data.push_back(T(m[x].data[i]));
                break;
            }
            case 20:
                if (x != y) {
                    std::swap(b[x], b[y]);
                    std::swap(m[x], m[y]);
                }
                break;
            case 21: {
                T p = make<T>(s), q = make<T>(s), r = make<T>(s), t = make<T>(s), u = make<T>(s);
                if constexpr (std::is_same_v<T, int>) {
                    b[x] = Buffer<T>(std::initializer_list<T>{p, q, r, t, u});
                    m[x].data = {p, q, r, t, u};
                } else {
                    b[x] = Buffer<T>(p, q, r, t, u);
                    m[x].data = {p, q, r, t, u};
                }
                m[x].channels = 1;
                m[x].rate = def;
                break;
            }
            case 18:
                if (!m[x].data.empty()) {
                    int i = static_cast<int>(s.i(0, static_cast<int64_t>(m[x].data.size()) - 1));
                    T v = make<T>(s);
                    b[x].at(i) = v;
                    m[x].data[static_cast<size_t>(i)] = v;
                    mutated_after = copied;
                }
                break;
            default:
                if (!m[x].data.empty()) {
                    // through an iterator
                    int i = static_cast<int>(s.i(0, static_cast<int64_t>(m[x].data.size()) - 1));
                    T v = make<T>(s);
                    *(b[x].ibegin() + i) = v;
                    m[x].data[static_cast<size_t>(i)] = v;
                    mutated_after = copied;
                }
                break;
        }
        for (int i = 0; i < N; ++i) same(b[i], m[i], i == x ? "target of the operation" : "buffer that was not touched");
    }
    s.nontrivial(mutated_after || steps >= 5);
    if (mutated_after) s.label("write after a copy");
}

}  // namespace

SECTION(doubles, 50000, 1000000, "history of 1-30 operations over three buffers of doubles; non-trivial: a write after a copy, or five operations or more") {
    history<double>(s);
}
SECTION(ints, 30000, 600000, "the same history over buffers of int") {
    history<int>(s);
}
SECTION(strings, 20000, 400000, "the same history over buffers of strings (owning elements)") {
    history<std::string>(s);
}

SECTION(created, 20000, 200000, "buffers made by create_buffer and the constructors: shape, rate and silence; non-trivial: more than one channel") {
    int n = static_cast<int>(s.sz(0, 300)), c = static_cast<int>(s.i(1, 10));
    if (s.chance(1, 200)) n = static_cast<int>(s.i(20000, 70000));
    double r = s.pick<double>({8000, 44100, 48000, 96000, 11025.5, 44100.1});
    s.note() << "frames " << n << ", channels " << c << ", rate " << r;
    s.nontrivial(c > 1 && n > 0);
    const double def = AudioBuffer().get_samplerate();
    auto check = [&](AudioBuffer& b, double rate, const char* what) {
        REQUIRE(b.size() == static_cast<size_t>(n * c), what << ": size " << b.size());
        REQUIRE(b.channels() == static_cast<size_t>(c), what << ": channels " << b.channels());
        REQUIRE(b.channel_capacity() == static_cast<size_t>(n), what << ": channel capacity " << b.channel_capacity());
        REQUIRE(b.get_samplerate() == rate, what << ": sample rate " << b.get_samplerate());
        for (int i = 0; i < n * c; ++i) REQUIRE(b.at(i) == 0, what << ": sample " << i << " is not silent");
    };
    auto p = create_buffer(n, c);
    check(*p, def, "create_buffer");
    auto q = create_buffer(n, c, r);
    check(*q, r, "create_buffer with rate");
    AudioBuffer b(n, c, r);
    check(b, r, "constructor");
    AudioBuffer d(static_cast<size_t>(n), c);
    check(d, def, "constructor without rate");
}

SECTION(constructed, 20000, 200000, "buffers made from sizes, channels and rates of every kind of number, from values, lists, vectors and ranges: shape, rate and contents; non-trivial: more than one channel and frame") {
    int n = static_cast<int>(s.sz(1, 60)), c = static_cast<int>(s.i(1, 10));
    int r = s.pick<int>({8000, 44100, 48000, 96000});
    s.note() << "frames " << n << ", channels " << c << ", rate " << r;
    s.nontrivial(c > 1 && n > 1);
    const double def = AudioBuffer().get_samplerate();
    auto check = [&](auto& b, double rate, const char* what) {
        REQUIRE(b.size() == static_cast<size_t>(n * c) && b.channels() == static_cast<size_t>(c), what << ": " << b.size() << " samples in " << b.channels() << " channels");
        REQUIRE(b.get_samplerate() == rate, what << ": sample rate " << b.get_samplerate());
        for (int i = 0; i < n * c; ++i) REQUIRE(b.at(i) == 0, what << ": sample " << i << " is not silent");
    };
    const auto z = static_cast<size_t>(n), cz = static_cast<size_t>(c);
    const auto u = static_cast<unsigned>(n), cu = static_cast<unsigned>(c);
    const int64_t l = n, cl = c;
    auto all = [&](auto type) {
        using B = decltype(type);
        B a1(n, c, r);
        check(a1, r, "int, int and int");
        B a2(z, cz, static_cast<double>(r));
        check(a2, r, "size, size and double");
        B a3(z, cz);
        check(a3, def, "size and size");
        B a4(z, c, r);
        check(a4, r, "size, int and int");
        B a5(u, cu, static_cast<float>(r));
        check(a5, r, "unsigned, unsigned and float");
        B a6(l, cl, l * 0 + r);
        check(a6, r, "three longs");
        B a7(n, cz, static_cast<double>(r));
        check(a7, r, "int, size and double");
        B a8(a1.channel_capacity(), a1.channels(), a1.get_samplerate());
        check(a8, r, "the shape of another buffer");
    };
    if (s.b()) all(AudioBuffer());
    else all(Buffer<float>());
    // values
    auto v = s.vals(4);
    auto is = [&](const AudioBuffer& b, size_t k, const char* what) {
        REQUIRE(b.size() == k && b.channels() == 1 && b.get_samplerate() == def, what << ": " << b.size() << " samples in " << b.channels() << " channels");
        for (size_t i = 0; i < k; ++i) REQUIRE(b.at(static_cast<int>(i)) == v[i], what << ": sample " << i << " is " << b.at(static_cast<int>(i)));
    };
    is(AudioBuffer(v[0]), 1, "a value");
    is(AudioBuffer(v[0], v[1]), 2, "two values");
    is(AudioBuffer(v[0], v[1], v[2]), 3, "three values");
    is(AudioBuffer(v[0], v[1], v[2], v[3]), 4, "four values");
    is(AudioBuffer{v[0], v[1]}, 2, "a list of two");
    is(AudioBuffer{v[0], v[1], v[2], v[3]}, 4, "a list of four");
    // ranges, of any iterators
    auto w = s.vals(n * c);
    const std::list<double> wl(w.begin(), w.end());
    AudioBuffer x(w, c, r), y(w.begin(), w.end(), c, r), q(wl.begin(), wl.end(), c), p(w.data(), w.data() + w.size(), c, r), k(x.ibegin(), x.iend(), c, r);
    const AudioBuffer& cx = x;
    AudioBuffer g(cx.icbegin(), cx.icend(), cz, r);
    for (AudioBuffer* b : {&x, &y, &q, &p, &k, &g}) {
        REQUIRE(b->size() == w.size() && b->channels() == cz && b->get_samplerate() == (b == &q ? def : r), "a buffer of a range has " << b->size() << " samples in " << b->channels() << " channels");
        for (int i = 0; i < n * c; ++i) REQUIRE(b->at(i) == w[static_cast<size_t>(i)], "a buffer of a range: sample " << i << " is " << b->at(i));
    }
    // whole containers, and the base of all buffers
    {
        std::vector<double> mw = w;
        AudioBuffer o1(w), o2(mw), o3(std::move(mw)), o4(std::vector<double>(w), c);
        BaseBuffer<std::vector<double>> b1(w), b2(w, c, r), b3(z), b4(n, c, static_cast<double>(r)), b5(z, c);
        auto like = [&](const auto& b, size_t ch, double rate, bool silent, const char* what) {
            REQUIRE(b.channels() == ch && b.get_samplerate() == rate, what << " has " << b.channels() << " channels at " << b.get_samplerate());
            for (size_t i = 0; i < b.size(); ++i) REQUIRE(b.at(static_cast<int>(i)) == (silent ? 0 : w[i]), what << ": sample " << i << " is " << b.at(static_cast<int>(i)));
        };
        REQUIRE(o1.size() == w.size() && o2.size() == w.size() && o3.size() == w.size() && o4.size() == w.size() && b1.size() == w.size() && b2.size() == w.size(), "a buffer of a vector has another size");
        REQUIRE(b3.size() == z && b4.size() == z * cz && b5.size() == z * cz, "a base buffer of a size has another size");
        like(o1, 1, def, false, "a buffer of a vector");
        like(o2, 1, def, false, "a buffer of a changeable vector");
        like(o3, 1, def, false, "a buffer of a moved vector");
        like(o4, cz, def, false, "a buffer of a vector with channels");
        like(b1, 1, def, false, "a base buffer of a vector");
        like(b2, cz, r, false, "a base buffer of a vector with channels and rate");
        like(b3, 1, def, true, "a base buffer of a size");
        like(b4, cz, r, true, "a base buffer of a size, channels and rate");
        like(b5, cz, def, true, "a base buffer of a size and channels");
        b5.set_samplerate(r);
        b5 = w;
        like(b5, cz, r, false, "a base buffer a vector was assigned to");
        b4 = std::vector<double>(w);
        like(b4, cz, r, false, "a base buffer a vector was moved to");
    }
    // (the sequential order of a buffer, one channel after the other)
    AudioBuffer h(cx.scbegin(), cx.scend());
    REQUIRE(h.size() == w.size() && h.channels() == 1, "a buffer of sequential samples has " << h.size() << " samples in " << h.channels() << " channels");
    for (int i = 0; i < n * c; ++i) REQUIRE(h.at(i) == w[static_cast<size_t>((i % n) * c + i / n)], "a buffer of sequential samples: sample " << i << " is " << h.at(i));
}

SECTION(fixed, 20000, 200000, "fixed size buffers: copies are independent, values, channels and rate travel with a copy; non-trivial: always") {
    const double rate = s.pick<double>({8000, 44100.1, 11025.3});
    StaticBuffer<double, 6> a(3, rate);
    std::array<double, 6> v;
    for (auto& x : v) x = s.val();
    a = v;
    s.note() << pbt::show(v);
    s.nontrivial();
    StaticBuffer<double, 6> b(a);
    StaticBuffer<double, 6> c;
    c = a;
    int i = static_cast<int>(s.i(0, 5));
    a.at(i) = v[static_cast<size_t>(i)] + 1;
    for (int k = 0; k < 6; ++k) {
        REQUIRE(b.at(k) == v[static_cast<size_t>(k)], "copy constructed buffer changed at " << k);
        REQUIRE(c.at(k) == v[static_cast<size_t>(k)], "assigned buffer changed at " << k);
        REQUIRE(a.at(k) == v[static_cast<size_t>(k)] + (k == i ? 1 : 0), "written buffer at " << k);
    }
    StaticBuffer<double, 6> e(std::move(b));
    StaticBuffer<double, 6> f(2);
    const StaticBuffer<double, 6> blank;
    REQUIRE(f.channels() == 2 && f.get_samplerate() == blank.get_samplerate(), "a fixed buffer made with channels");
    f = std::move(c);
    for (int k = 0; k < 6; ++k) REQUIRE(e.at(k) == v[static_cast<size_t>(k)] && f.at(k) == v[static_cast<size_t>(k)], "moved buffers differ at " << k);
    REQUIRE(e.channels() == 3 && f.channels() == 3 && e.get_samplerate() == rate && f.get_samplerate() == rate, "format travels with a move");
    b = e;
    c = f;
    std::array<double, 6> count{1, 2, 3, 4, 5, 6};
    b = std::move(count);
    for (int k = 0; k < 6; ++k) REQUIRE(b.at(k) == k + 1 && e.at(k) == v[static_cast<size_t>(k)], "assigning an array gives other samples at " << k);
    StaticBuffer<double, 6> g(v[0], v[1], v[2], v[3], v[4], v[5]);
    for (int k = 0; k < 6; ++k) REQUIRE(g.at(k) == v[static_cast<size_t>(k)], "a fixed buffer made of values differs at " << k);
    REQUIRE(g.channels() == 1, "a fixed buffer made of values has " << g.channels() << " channels");
    REQUIRE(b.channels() == 3 && c.channels() == 3 && b.get_samplerate() == rate && c.get_samplerate() == rate, "format travels with a copy");
    REQUIRE(a.size() == 6 && a.channel_capacity() == 2, "size of a fixed buffer");
}

PBT_MAIN
