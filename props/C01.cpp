// C01: walking a multi channel buffer.
// Oracle: a plain vector in interleaved order and index arithmetic on it.
#include <algorithm>
#include <numeric>
#include <vector>

#include "audio_buffer.hpp"
#include "dsp/buffer.hpp"
#include "pbt.hpp"

using namespace dsp::buff;

namespace {

// raw index of the n'th sample visited sequentially
size_t seq_raw(size_t n, size_t ch, size_t frames) { return (n / frames) + ch * (n % frames); }

template <typename BUFF>
void fill(BUFF& b, std::vector<double>& raw) {
    for (size_t i = 0; i < raw.size(); ++i) b.at(static_cast<int>(i)) = raw[i];
}

// A walk with every kind of movement; R maps visit order to raw order
template <typename It, typename BUFF>
void walk(pbt::Src& s, BUFF& b, std::vector<double>& raw, size_t ch, size_t frames, bool seq, It first, It last) {
    const int64_t n = static_cast<int64_t>(raw.size());
    auto R = [&](int64_t k) { return seq ? seq_raw(static_cast<size_t>(k), ch, frames) : static_cast<size_t>(k); };
    It it = first;
    int64_t pos = 0;
    int steps = static_cast<int>(s.turns(1, 40));
    s.note() << (seq ? " seq-walk:" : " inter-walk:");
    const pbt::Swarm swarm(s, 0, 15);
    for (int k = 0; k < steps; ++k) {
        int op = swarm(s);
        int64_t to = s.i(0, n);  // a legal target
        int64_t d = to - pos;
        s.note() << " " << op << "@" << to;
        switch (op) {
            case 0:
                if (pos < n) {
                    It& r = ++it;
                    REQUIRE(r.get_index() == pos + 1, "pre increment returns the moved iterator");
                    ++pos;
                }
                break;
            case 1:
                if (pos < n) {
                    It old = it++;
                    REQUIRE(old.get_index() == pos, "post increment returns the old position");
                    REQUIRE(*old == raw[R(pos)], "post increment returns an iterator to the old sample");
                    ++pos;
                }
                break;
            case 2:
                if (pos > 0) {
                    It& r = --it;
                    REQUIRE(r.get_index() == pos - 1, "pre decrement returns the moved iterator");
                    --pos;
                }
                break;
            case 3:
                if (pos > 0) {
                    It old = it--;
                    REQUIRE(old.get_index() == pos, "post decrement returns the old position");
                    --pos;
                }
                break;
            case 4:
                it += static_cast<int>(d);
                pos = to;
                break;
            case 5:
                if (d >= 0) {
                    it += static_cast<unsigned int>(d);
                    pos = to;
                }
                break;
            case 6:
                if (d >= 0) {
                    it += static_cast<long unsigned int>(d);
                    pos = to;
                }
                break;
            case 7:
                it += static_cast<int64_t>(d);
                pos = to;
                break;
            case 8:
                it -= static_cast<int>(-d);
                pos = to;
                break;
            case 9: {
                It o = it + static_cast<int>(d);
                REQUIRE(o.get_index() == to && it.get_index() == pos, "adding a number makes a new iterator");
                it = o;
                pos = to;
                break;
            }
            case 10: {
                It o = it + static_cast<int64_t>(d);
                REQUIRE(o.get_index() == to && it.get_index() == pos, "adding a number makes a new iterator (int64)");
                it = o;
                pos = to;
                break;
            }
            case 11:
                if (d >= 0) {
                    It o = it + static_cast<unsigned int>(d);
                    It p = it + static_cast<long unsigned int>(d);
                    REQUIRE(o.get_index() == to && p.get_index() == to, "adding an unsigned number");
                    it = s.b() ? o : p;
                    pos = to;
                }
                break;
            case 12: {
                It o = it - static_cast<int>(-d);
                REQUIRE(o.get_index() == to && it.get_index() == pos, "subtracting a number makes a new iterator");
                it = o;
                pos = to;
                break;
            }
            case 13:
                it.set_index(static_cast<int>(to));
                pos = to;
                break;
            case 14:
                if (n > 0 && to < n) {
                    int c = static_cast<int>(seq ? to / static_cast<int64_t>(frames) : to % static_cast<int64_t>(ch));
                    int f = static_cast<int>(seq ? to % static_cast<int64_t>(frames) : to / static_cast<int64_t>(ch));
                    it.set_position(c, f);
                    pos = to;
                }
                break;
            default:
                if (n > 0) {
                    if constexpr (requires { it.set_channel(0); }) {
                        int c = static_cast<int>(s.i(0, static_cast<int64_t>(ch) - 1));
                        it.set_channel(c);
                        pos = c * static_cast<int64_t>(frames);
                    } else {
                        int f = static_cast<int>(s.i(0, static_cast<int64_t>(frames) - 1));
                        it.set_sample(f);
                        pos = f * static_cast<int64_t>(ch);
                    }
                }
                break;
        }
        REQUIRE(it.get_index() == pos, "after operation " << op << " index is " << it.get_index() << ", expected " << pos);
        REQUIRE(static_cast<int>(it) == pos, "iterator converts to its index");
        if (pos < n) {
            size_t r = R(pos);
            REQUIRE(*it == raw[r], "after operation " << op << " at " << pos << " iterator sees " << *it << ", expected " << raw[r]);
            REQUIRE(it.get_channel() == static_cast<int>(r % ch), "iterator at " << pos << " reports channel " << it.get_channel());
            REQUIRE(it.get_sample() == static_cast<int>(r / ch), "iterator at " << pos << " reports sample " << it.get_sample());
            REQUIRE(b.at(it.get_channel(), it.get_sample()) == *it, "channel and sample of an iterator address its value");
            if constexpr (!std::is_const_v<std::remove_reference_t<decltype(*it)>>) {
                if (s.chance(1, 3)) {
                    double v = s.val();
                    *it = v;
                    raw[r] = v;
                    REQUIRE(b.at(static_cast<int>(r)) == v, "a write through an iterator is visible in the buffer");
                }
            }
        }
        if (n > 0) {
            int64_t q = s.i(0, n - 1);
            REQUIRE(it[static_cast<int>(q)] == raw[R(q)], "subscript " << q << " of an iterator");
            const It fixed = it;
            REQUIRE(fixed[static_cast<int>(q)] == raw[R(q)] && fixed.get_index() == pos, "subscript " << q << " of a constant iterator");
            It o = first;
            o.set_index(static_cast<int>(q));
            REQUIRE((it == o) == (pos == q), "== of positions " << pos << " and " << q);
            REQUIRE((it != o) == (pos != q), "!= of positions " << pos << " and " << q);
            REQUIRE((it < o) == (pos < q), "< of positions " << pos << " and " << q);
            REQUIRE((it > o) == (pos > q), "> of positions " << pos << " and " << q);
            REQUIRE((it <= o) == (pos <= q), "<= of positions " << pos << " and " << q);
            REQUIRE((it >= o) == (pos >= q), ">= of positions " << pos << " and " << q);
            REQUIRE(static_cast<int>(it - o) == pos - q, "distance of positions " << pos << " and " << q);
            // (the sum of two positions has to be one as well)
            if (pos + q <= n) REQUIRE(static_cast<int>(it + o) == pos + q, "sum of positions " << pos << " and " << q << " is " << static_cast<int>(it + o));
        }
    }
    REQUIRE(last.get_index() == n, "the end is size() steps from the start");
}

template <typename BUFF>
void traverse(BUFF& b, std::vector<double>& raw, size_t ch, size_t frames) {
    const size_t n = raw.size();
    const BUFF& cb = b;
    REQUIRE(b.size() == n, "size is " << b.size());
    REQUIRE(b.channels() == ch, "channels is " << b.channels());
    REQUIRE(b.channel_capacity() == frames, "channel capacity is " << b.channel_capacity());

    // direct access
    for (size_t c = 0; c < ch; ++c)
        for (size_t f = 0; f < frames; ++f) {
            double e = raw[c + ch * f];
            REQUIRE(b.at(static_cast<int>(c), static_cast<int>(f)) == e, "at(" << c << "," << f << ")");
            REQUIRE(cb.at(static_cast<int>(c), static_cast<int>(f)) == e, "const at(" << c << "," << f << ")");
        }
    for (size_t i = 0; i < n; ++i) {
        REQUIRE(b.at(static_cast<int>(i)) == raw[i], "at(" << i << ")");
        REQUIRE(cb.at(static_cast<int>(i)) == raw[i], "const at(" << i << ")");
    }

    std::vector<double> inter = raw, seq;
    for (size_t c = 0; c < ch; ++c)
        for (size_t f = 0; f < frames; ++f) seq.push_back(raw[c + ch * f]);

    auto same = [&](const std::vector<double>& got, const std::vector<double>& want, const char* what) {
        REQUIRE(got == want, what << " visits " << pbt::show(got) << " instead of " << pbt::show(want));
    };
    auto collect = [&](auto i, auto e) {
        std::vector<double> got;
        while (i != e && got.size() <= n) {
            got.push_back(*i);
            ++i;
        }
        return got;
    };
    auto collect_c = [&](auto first, auto end) {
        std::vector<double> got;
        while (!(first == end) && got.size() <= n) {
            got.push_back(*first);
            REQUIRE(first.base() == &cb.at(first.get_channel(), first.get_sample()), "a const iterator at " << first.get_index() << " reports channel " << first.get_channel() << " and sample " << first.get_sample());
            first.set_index(first.get_index() + 1);
        }
        return got;
    };
    same(collect(b.ibegin(), b.iend()), inter, "interleaved iteration");
    same(collect(b.begin(), b.end()), inter, "default iteration");
    same(collect(b.sbegin(), b.send()), seq, "sequential iteration");
    same(collect_c(cb.icbegin(), cb.icend()), inter, "const interleaved iteration");
    same(collect_c(cb.scbegin(), cb.scend()), seq, "const sequential iteration");
    same(collect(cb.icbegin(), cb.icend()), inter, "const interleaved iteration, step by step");
    same(collect(cb.scbegin(), cb.scend()), seq, "const sequential iteration, step by step");
    std::vector<double> copied(cb.scbegin(), cb.scend());
    same(copied, seq, "a vector of the const sequential iterators");
    std::vector<double> ri(inter.rbegin(), inter.rend()), rs(seq.rbegin(), seq.rend());
    same(collect(b.irbegin(), b.irend()), ri, "reverse interleaved iteration");
    same(collect(b.srbegin(), b.srend()), rs, "reverse sequential iteration");
    std::vector<double> rf;
    for (auto& v : b) rf.push_back(v);
    same(rf, inter, "range based for");
    // algorithms
    std::vector<double> out(n);
    std::copy(b.sbegin(), b.send(), out.begin());
    same(out, seq, "std::copy of the sequential iterators");
    std::copy_n(b.ibegin(), n, out.begin());
    same(out, inter, "std::copy_n of the interleaved iterators");
}

std::vector<double> distinct(pbt::Src& s, size_t n) {
    std::vector<double> raw(n);
    double base = s.val();
    for (size_t i = 0; i < n; ++i) raw[i] = base + static_cast<double>(i);
    return raw;
}

template <size_t N>
void static_case(pbt::Src& s, const std::vector<int>& divisors) {
    int ch = s.pick(divisors);
    auto raw = distinct(s, N);
    s.note() << "static buffer of " << N << " samples, channels " << ch;
    s.nontrivial(ch > 1);
    StaticBuffer<double, N> b;
    b.set_channels(static_cast<std::size_t>(ch));
    fill(b, raw);
    traverse(b, raw, static_cast<size_t>(ch), N / static_cast<size_t>(ch));
    walk(s, b, raw, static_cast<size_t>(ch), N / static_cast<size_t>(ch), true, b.sbegin(), b.send());
    walk(s, b, raw, static_cast<size_t>(ch), N / static_cast<size_t>(ch), false, b.ibegin(), b.iend());
    traverse(b, raw, static_cast<size_t>(ch), N / static_cast<size_t>(ch));
}

}  // namespace

SECTION(dynamic, 60000, 1500000, "buffer of 1-8 channels x 0-64 frames of distinct values; full walks in every order plus a random walk of moves, jumps, comparisons and writes; non-trivial: more than one channel and one frame") {
    size_t ch = static_cast<size_t>(s.i(1, 8));
    size_t frames = static_cast<size_t>(s.sz(0, 64));
    auto raw = distinct(s, ch * frames);
    s.note() << "channels " << ch << ", frames " << frames;
    s.nontrivial(ch > 1 && frames > 1);
    if (frames == 0) s.label("empty");
    if (ch > 2) s.label("channels>2");
    AudioBuffer b(static_cast<int>(frames), static_cast<int>(ch));
    fill(b, raw);
    traverse(b, raw, ch, frames);
    if (frames > 0) {
        walk(s, b, raw, ch, frames, true, b.sbegin(), b.send());
        walk(s, b, raw, ch, frames, false, b.ibegin(), b.iend());
        const AudioBuffer& cb = b;
        if (s.b()) walk(s, cb, raw, ch, frames, true, cb.scbegin(), cb.scend());
        else walk(s, cb, raw, ch, frames, false, cb.icbegin(), cb.icend());
        traverse(b, raw, ch, frames);
    }
}

SECTION(large, 60, 1500, "buffers of up to 70000 samples with up to 300 (at times 70000) channels, or one channel of up to 70000 frames: full walks and a random walk; non-trivial: more than 256 channels or 65536 samples") {
    const size_t ch = static_cast<size_t>(s.b() ? s.i(1, 3) : s.chance(1, 6) ? s.i(33000, 70000) : s.i(200, 300));
    const size_t frames = static_cast<size_t>(ch > 300 ? s.i(1, 2) : s.i(65, 70000 / static_cast<int64_t>(ch)));
    std::vector<double> raw(ch * frames);
    for (size_t i = 0; i < raw.size(); ++i) raw[i] = static_cast<double>(i);
    s.note() << "channels " << ch << ", frames " << frames;
    s.nontrivial(ch > 256 || raw.size() > 65536);
    AudioBuffer b(static_cast<int>(frames), static_cast<int>(ch));
    fill(b, raw);
    traverse(b, raw, ch, frames);
    walk(s, b, raw, ch, frames, true, b.sbegin(), b.send());
    walk(s, b, raw, ch, frames, false, b.ibegin(), b.iend());
}

SECTION(vast, 3, 40, "buffers of 17 to 40 million one byte samples in 1-70000 channels, at 300 positions, most of them where a channel or a frame starts; non-trivial: always") {
    const int64_t total = s.i(17000000, 40000000);
    const int64_t ch = s.b() ? s.i(1, 50) : s.chance(1, 3) ? s.i(33000, 70000) : s.i(51, 5000), frames = total / ch, n = ch * frames;
    s.note() << "channels " << ch << ", frames " << frames;
    s.nontrivial();
    Buffer<signed char> b(static_cast<int>(frames), static_cast<int>(ch));
    auto value = [](int64_t raw) { return static_cast<signed char>((static_cast<uint64_t>(raw) * 0x9e3779b97f4a7c15ULL) >> 57); };
    REQUIRE(static_cast<int64_t>(b.size()) == n && static_cast<int64_t>(b.channels()) == ch && static_cast<int64_t>(b.channel_capacity()) == frames, "the buffer has " << b.size() << " samples in " << b.channels() << " channels");
    for (int64_t i = 0; i < n; ++i) b.at(static_cast<int>(i)) = value(i);
    const auto& cb = b;
    auto si = b.sbegin();
    auto ii = b.ibegin();
    auto sc = cb.scbegin();
    auto ic = cb.icbegin();
    auto check = [&](auto& it, int64_t pos, bool seq, const char* what) {
        const int64_t c = seq ? pos / frames : pos % ch, f = seq ? pos % frames : pos / ch;
        REQUIRE(it.get_index() == pos, what << ": index " << it.get_index() << ", expected " << pos);
        REQUIRE(it.get_channel() == c && it.get_sample() == f, what << " at " << pos << " reports channel " << it.get_channel() << " and sample " << it.get_sample() << ", expected " << c << " and " << f);
        REQUIRE(*it == value(c + ch * f), what << " at " << pos << " sees another sample");
        REQUIRE(cb.at(static_cast<int>(c), static_cast<int>(f)) == value(c + ch * f), "at(" << c << "," << f << ")");
    };
    for (int k = 0; k < 300; ++k) {
        const int64_t unit = s.b() ? ch : frames;
        int64_t pos = s.b() ? s.i(0, n - 1) : s.i(n / 2, n - 1);
        if (s.chance(3, 4)) pos = pos / unit * unit + s.i(-1, 1);
        pos = std::min(std::max<int64_t>(pos, 0), n - 1);
        si.set_index(static_cast<int>(pos));
        ic.set_index(static_cast<int>(pos));
        ii += static_cast<int>(pos) - ii.get_index();
        sc += static_cast<int>(pos) - sc.get_index();
        check(si, pos, true, "a sequential iterator");
        check(sc, pos, true, "a constant sequential iterator");
        check(ii, pos, false, "an interleaved iterator");
        check(ic, pos, false, "a constant interleaved iterator");
        if (pos + 1 < n) {
            ++si, ++ii, ++sc, ++ic;
            check(si, pos + 1, true, "a sequential iterator");
            check(sc, pos + 1, true, "a constant sequential iterator");
            check(ii, pos + 1, false, "an interleaved iterator");
            check(ic, pos + 1, false, "a constant interleaved iterator");
        }
        const int64_t c = s.i(0, ch - 1), f = s.i(0, frames - 1);
        si.set_position(static_cast<int>(c), static_cast<int>(f));
        check(si, c * frames + f, true, "a sequential iterator that was set");
        ii.set_position(static_cast<int>(c), static_cast<int>(f));
        check(ii, f * ch + c, false, "an interleaved iterator that was set");
    }
    int64_t left = n;
    for (auto it = b.sbegin(); it != b.send() && left > 0; ++it) --left;
    REQUIRE(left == 0, "the end of the sequential order is " << left << " samples off");
}

SECTION(algorithms, 20000, 500000, "writes with standard algorithms through both orders, compared with the same writes to a plain vector; non-trivial: more than one channel") {
    size_t ch = static_cast<size_t>(s.i(1, 6));
    size_t frames = static_cast<size_t>(s.sz(1, 40));
    size_t n = ch * frames;
    auto raw = s.vals(static_cast<int64_t>(n));
    AudioBuffer b(static_cast<int>(frames), static_cast<int>(ch));
    bool seq = s.b();
    int kind = static_cast<int>(s.i(0, 4));
    s.note() << (seq ? "sequential" : "interleaved") << " algorithm " << kind << ", channels " << ch << ", frames " << frames;
    s.nontrivial(ch > 1 && frames > 1);
    std::vector<double> want(n);  // in visit order
    auto run = [&](auto f, auto l) {
        switch (kind) {
            case 0:
                std::copy(raw.begin(), raw.end(), f);
                want = raw;
                break;
            case 1:
                std::copy(raw.begin(), raw.end(), f);
                std::transform(f, l, f, [](double v) { return v * 2 + 1; });
                for (size_t i = 0; i < n; ++i) want[i] = raw[i] * 2 + 1;
                break;
            case 2:
                std::fill(f, l, raw[0]);
                want.assign(n, raw[0]);
                break;
            case 3: {
                size_t a = static_cast<size_t>(s.i(0, static_cast<int64_t>(n)));
                std::copy(raw.begin(), raw.end(), f);
                std::fill_n(f + static_cast<int>(a), n - a, 7.5);
                want = raw;
                std::fill(want.begin() + static_cast<long>(a), want.end(), 7.5);
                break;
            }
            default: {
                for (size_t i = 0; i < n; ++i) *(f + static_cast<int>(i)) = raw[i];
                want = raw;
                double sum = std::accumulate(f, l, 0.0), e = std::accumulate(raw.begin(), raw.end(), 0.0);
                REQUIRE(pbt::near(sum, e, 1e-9, 1e5), "std::accumulate gives " << sum << " instead of " << e);
            }
        }
    };
    if (seq)
        run(b.sbegin(), b.send());
    else
        run(b.ibegin(), b.iend());
    for (size_t k = 0; k < n; ++k) {
        size_t r = seq ? seq_raw(k, ch, frames) : k;
        REQUIRE(b.at(static_cast<int>(r)) == want[k], "sample " << k << " in visit order is " << b.at(static_cast<int>(r)) << ", expected " << want[k]);
    }
}

SECTION(fixed, 20000, 500000, "fixed size buffers of 1, 12, 30 and 64 samples with every channel count that divides them; non-trivial: more than one channel") {
    switch (s.i(0, 3)) {
        case 0:
            return static_case<12>(s, {1, 2, 3, 4, 6, 12});
        case 1:
            return static_case<30>(s, {1, 2, 3, 5, 6, 10, 15, 30});
        case 2:
            return static_case<64>(s, {1, 2, 4, 8, 16, 32, 64});
        default:
            return static_case<1>(s, {1});
    }
}

PBT_MAIN
