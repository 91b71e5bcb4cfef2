// C03: ring buffers wrap around.
// Oracle: a plain vector and the mathematical modulo.
#include <climits>
#include <vector>

#include "dsp/buffer.hpp"
#include "pbt.hpp"

using namespace dsp::buff;

namespace {
size_t wrap(int64_t i, size_t n) {
    int64_t m = static_cast<int64_t>(n);
    return static_cast<size_t>(((i % m) + m) % m);
}

int64_t any_index(pbt::Src& s, size_t n) {
    int64_t m = static_cast<int64_t>(n);
    switch (s.i(0, 5)) {
        case 0:
            return s.i(0, m - 1);
        case 4:  // (as far as an index goes)
            return s.b() ? INT_MAX - s.i(0, 3 * m) : INT_MIN + s.i(0, 3 * m);
        case 1:
            return s.i(0, 6 * m);
        case 2:
            return -s.i(0, 6 * m);
        case 3:  // around multiples of the size
            return s.i(-5, 5) * m + s.i(-1, 1);
        default:
            return s.i(-1000000, 1000000);
    }
}
}  // namespace

SECTION(history, 150000, 3000000, "history of reads, writes, resizes and iterator moves with indexes far outside the buffer in both directions; non-trivial: an index below zero or past the end was used") {
    size_t n = static_cast<size_t>(s.chance(1, 2000) ? s.i(60000, 70000) : s.sz(1, 70));
    std::vector<int> m(n);
    for (auto& v : m) v = static_cast<int>(s.i(0, 999));
    RingBuffer<int> r(n);
    if (s.b())
        r = RingBuffer<int>(m);
    else
        for (size_t i = 0; i < n; ++i) r[static_cast<int>(i)] = m[i];
    s.note() << "size " << n << ":";
    auto it = r.begin();
    int64_t pos = 0;
    int steps = static_cast<int>(s.turns(1, 40));
    const pbt::Swarm swarm(s, 0, 12);
    for (int k = 0; k < steps; ++k) {
        int op = swarm(s);
        int64_t i = any_index(s, n);
        s.note() << " " << op << "@" << i;
        if (i < 0 || i >= static_cast<int64_t>(n)) s.nontrivial();
        switch (op) {
            case 0:
            case 1:
                REQUIRE(r[static_cast<int>(i)] == m[wrap(i, n)], "index " << i << " of " << n << " reads " << r[static_cast<int>(i)] << ", expected " << m[wrap(i, n)]);
                break;
            case 2: {
                int v = static_cast<int>(s.i(0, 999));
                r[static_cast<int>(i)] = v;
                m[wrap(i, n)] = v;
                break;
            }
            case 3:
                it.set_index(static_cast<int>(i));
                pos = i;
                break;
            case 4:
                if (std::abs(i - pos) > INT_MAX) break;
                it += static_cast<int>(i - pos);
                pos = i;
                break;
            case 5:
                if (std::abs(i - pos) > INT_MAX) break;
                it -= static_cast<int>(pos - i);
                pos = i;
                break;
            case 11:
                REQUIRE(it[static_cast<int>(i)] == m[wrap(i, n)], "subscript " << i << " of an iterator in " << n << " reads " << it[static_cast<int>(i)] << ", expected " << m[wrap(i, n)]);
                break;
            case 12: {
                // a copy is a ring of its own
                RingBuffer<int> c(r);
                REQUIRE(c.size() == n && c[static_cast<int>(i)] == m[wrap(i, n)], "index " << i << " of a copy reads " << c[static_cast<int>(i)]);
                c[static_cast<int>(i)] = m[wrap(i, n)] + 1;
                REQUIRE(r[static_cast<int>(i)] == m[wrap(i, n)], "writing to a copy changed the original at " << i);
                break;
            }
            case 6:
                if (pos == INT_MAX) break;
                ++it;
                ++pos;
                break;
            case 7:
                if (pos == INT_MIN) break;
                --it;
                --pos;
                break;
            case 8: {
                size_t q = static_cast<size_t>(s.sz(1, 90));
                r.resize(q);
                m.resize(q);
                n = q;
                it = r.begin();
                pos = 0;
                s.label("resize");
                break;
            }
            case 9:
                r.reserve(static_cast<size_t>(s.sz(1, 200)));
                it = r.begin();
                pos = 0;
                break;
            default: {
                auto o = r.begin() + static_cast<int>(i);
                REQUIRE(*o == m[wrap(i, n)], "begin() + " << i << " sees " << *o);
                *o = 7;
                m[wrap(i, n)] = 7;
            }
        }
        REQUIRE(r.size() == n, "size is " << r.size() << ", expected " << n);
        REQUIRE(*it == m[wrap(pos, n)], "iterator at " << pos << " of " << n << " sees " << *it << ", expected " << m[wrap(pos, n)]);
        REQUIRE(it.get_index() == pos, "iterator index is " << it.get_index() << ", expected " << pos);
    }
    // one lap visits everything once, in order
    size_t c = 0;
    for (auto j = r.begin(); j != r.end() && c <= n; ++j, ++c) REQUIRE(*j == m[c], "lap differs at " << c);
    REQUIRE(c == n, "a lap has " << c << " steps, expected " << n);
    for (size_t i = 0; i < n; ++i) REQUIRE(r[static_cast<int>(i)] == m[i], "content differs at " << i);
}

SECTION(laps, 40000, 400000, "several laps forwards and backwards with an iterator, values of type double; non-trivial: size over one") {
    size_t n = static_cast<size_t>(s.sz(1, 40));
    auto v = s.vals(static_cast<int64_t>(n));
    RingBuffer<double> r(v);
    s.note() << "size " << n;
    s.nontrivial(n > 1);
    auto it = r.begin();
    for (size_t k = 0; k < 4 * n; ++k) {
        REQUIRE(*it == v[k % n], "forward step " << k);
        REQUIRE(r[static_cast<int>(k)] == v[k % n], "index " << k);
        ++it;
    }
    auto back = r.end();
    for (size_t k = 0; k < 4 * n; ++k) {
        --back;
        REQUIRE(*back == v[n - 1 - (k % n)], "backward step " << k << " of size " << n);
        REQUIRE(r[-1 - static_cast<int>(k)] == v[n - 1 - (k % n)], "index " << -1 - static_cast<int>(k) << " of size " << n);
    }
    // extremes of the index type
    for (int64_t e : {static_cast<int64_t>(INT_MAX), static_cast<int64_t>(INT_MIN), static_cast<int64_t>(INT_MAX) - 1, static_cast<int64_t>(INT_MIN) + 1})
        REQUIRE(r[static_cast<int>(e)] == v[wrap(e, n)], "index " << e << " of size " << n);
}

SECTION(delay, 20000, 300000, "a ring used as a delay line: after writing a stream, the value d writes ago is at index w-1-d; non-trivial: the stream is longer than the ring") {
    size_t n = static_cast<size_t>(s.sz(1, 20));
    auto v = s.vals(s.sz(1, 80));
    RingBuffer<double> r(n);
    s.note() << "size " << n << ", stream " << v.size();
    s.nontrivial(v.size() > n);
    for (int w = 0; w < static_cast<int>(v.size()); ++w) {
        r[w] = v[static_cast<size_t>(w)];
        for (int d = 0; d < static_cast<int>(n) && d <= w; ++d)
            REQUIRE(r[w - d] == v[static_cast<size_t>(w - d)], "value " << d << " writes ago after " << w + 1 << " writes");
    }
    if (v.size() < n)
        for (size_t i = v.size(); i < n; ++i) REQUIRE(r[static_cast<int>(i)] == 0, "unwritten slot " << i);
}

PBT_MAIN
