// C04: sample formats and byte encodings.
// Oracle: inverse conversions, order, range and quantisation error; byte
// encodings against shifts of an unsigned integer.
#include <algorithm>
#include <array>
#include <cstdint>
#include <iterator>
#include <vector>

#include "audio_buffer.hpp"
#include "pbt.hpp"

namespace {

// amplitudes: dense, on and around quantisation boundaries, and the extremes
double amplitude(pbt::Src& s) {
    switch (s.i(0, 6)) {
        case 0:
            return s.unit(-1, 1);
        case 1:
            return s.pick<double>({0., 1., -1., .5, -.5, 1e-9, -1e-9});
        case 2:
            return static_cast<double>(s.i(-32768, 32767)) / 32768.;
        case 3:
            return static_cast<double>(s.i(-32767, 32767)) / 32767.;
        case 4:
            return static_cast<double>(s.i(-128, 127)) / 128.;
        case 5:
            return static_cast<double>(s.i(0, 65535)) / 65535. * 2 - 1;
        default:
            return static_cast<double>(s.i(0, 255)) / 255. * 2 - 1;
    }
}

template <typename To, typename From, typename Int>
void format(double a, double b, To to, From from, double step, double slack, Int lo, Int hi, double silence, const char* name) {
    Int qa = to(a), qb = to(b);
    double ra = from(qa);
    REQUIRE(ra >= -1. && ra <= 1., name << ": " << +qa << " converts back to " << ra << ", outside of [-1, 1]");
    REQUIRE(std::fabs(ra - a) <= step * slack + 1e-12, name << ": " << a << " becomes " << +qa << " becomes " << ra);
    if (a <= b)
        REQUIRE(qa <= qb, name << ": order of " << a << " and " << b << " is lost: " << +qa << ", " << +qb);
    else
        REQUIRE(qa >= qb, name << ": order of " << a << " and " << b << " is lost: " << +qa << ", " << +qb);
    REQUIRE(to(-1.) == lo && to(1.) == hi, name << ": full scale is " << +to(-1.) << ".." << +to(1.));
    REQUIRE(from(lo) == -1. && from(hi) == 1., name << ": full scale converts back to " << from(lo) << ".." << from(hi));
    REQUIRE(std::fabs(from(to(0.))) <= silence, name << ": silence becomes " << from(to(0.)));
}

template <typename Int, typename To, typename From>
void codes(pbt::Src& s, To to, From from, int lo, int hi, const char* name) {
    int start = static_cast<int>(s.i(lo, hi));
    s.note() << name << " codes from " << start;
    double last = -2;
    for (int v = start; v <= std::min(hi, start + 255); ++v) {
        double x = from(static_cast<Int>(v));
        REQUIRE(x >= -1. && x <= 1., name << ": code " << v << " converts to " << x);
        REQUIRE(x > last, name << ": code " << v << " is not above the code before it");
        REQUIRE(static_cast<int>(to(x)) == v, name << ": code " << v << " converts to " << x << " and back to " << static_cast<int>(to(x)));
        last = x;
    }
}

}  // namespace

SECTION(amplitudes, 1500000, 40000000, "pairs of amplitudes in [-1, 1], many on quantisation boundaries, through every format; non-trivial: the amplitudes differ and none is 0 or full scale") {
    double a = amplitude(s), b = amplitude(s);
    s.note() << a << ", " << b;
    s.nontrivial(a != b && a != 0 && std::fabs(a) != 1);
    auto tochar = [](double v) { return static_cast<signed char>(mf_char(v)); };
    auto fromchar = [](signed char v) { return char_mf(static_cast<char>(v)); };
    format<decltype(&mf_int16), decltype(&int16_mf), int16_t>(a, b, mf_int16, int16_mf, 1. / 32767, 1, -32768, 32767, 0, "int16");
    format<decltype(&mf_uint16), decltype(&uint16_mf), uint16_t>(a, b, mf_uint16, uint16_mf, 2. / 65535, .5, 0, 65535, 1. / 65535 + 1e-12, "uint16");
    format<decltype(tochar), decltype(fromchar), signed char>(a, b, tochar, fromchar, 1. / 127, 1, -128, 127, 0, "char");
    format<decltype(&mf_uchar), decltype(&uchar_mf), unsigned char>(a, b, mf_uchar, uchar_mf, 2. / 255, .5, 0, 255, 1. / 255 + 1e-12, "uchar");
    REQUIRE(mf_null(a) == a, "the null conversion changes " << a);
    REQUIRE(mf_float(a) == static_cast<float>(a), "the float conversion of " << a);
    REQUIRE((a > 0) == (int16_mf(mf_int16(a)) > 0) || std::fabs(a) < 1. / 32767 + 1e-9, "int16: sign of " << a);
}

SECTION(codes, 60000, 800000, "256 consecutive codes of a format from a random start: range, order and exact return; non-trivial: always") {
    s.nontrivial();
    switch (s.i(0, 3)) {
        case 0:
            return codes<int16_t>(s, mf_int16, int16_mf, -32768, 32767, "int16");
        case 1:
            return codes<uint16_t>(s, mf_uint16, uint16_mf, 0, 65535, "uint16");
        case 2:
            return codes<char>(
                s, [](double v) { return static_cast<signed char>(mf_char(v)); }, char_mf, -128, 127, "char");
        default:
            return codes<unsigned char>(s, mf_uchar, uchar_mf, 0, 255, "uchar");
    }
}

SECTION(bytes, 1500000, 30000000, "little endian encodings of 16 and 32 bit integers in char and unsigned char arrays; non-trivial: some byte has its top bit set") {
    uint32_t v;
    switch (s.i(0, 3)) {
        case 0:
            v = static_cast<uint32_t>(s.i(0, 0xffffffffll));
            break;
        case 1:  // bytes from the edges
            v = 0;
            for (int k = 0; k < 4; ++k) v = (v << 8) | s.pick<uint32_t>({0, 1, 0x7f, 0x80, 0xff, 0xfe});
            break;
        case 2:
            v = static_cast<uint32_t>(1u << s.i(0, 31));
            break;
        default:
            v = s.pick<uint32_t>({0u, 0xffffffffu, 0x7fffffffu, 0x80000000u, 0x8000u, 0x7fffu, 0xffffu});
    }
    s.note() << v;
    s.nontrivial((v & 0x80808080u) != 0);
    unsigned char e[4];
    for (int k = 0; k < 4; ++k) e[k] = static_cast<unsigned char>(v >> (8 * k));
    auto go = [&](auto zero) {
        using C = decltype(zero);
        // guard bytes around the encoding
        C out[8];
        for (auto& c : out) c = 0x5a;
        auto intact = [&](int n) {
            for (int k = 0; k < 8; ++k) {
                if (k >= 2 && k < 2 + n)
                    REQUIRE(static_cast<unsigned char>(out[k]) == e[k - 2], "byte " << k - 2 << " of " << v << " is " << +static_cast<unsigned char>(out[k]));
                else
                    REQUIRE(out[k] == 0x5a, "byte " << k - 2 << " outside of the encoding was written");
            }
        };
        uint32_char(v, out + 2);
        intact(4);
        REQUIRE(char_uint32(out + 2) == v, "uint32 " << v << " reads back as " << char_uint32(out + 2));
        for (auto& c : out) c = 0x5a;
        int32_char(static_cast<int32_t>(v), out + 2);
        intact(4);
        REQUIRE(char_int32(out + 2) == static_cast<int32_t>(v), "int32 reads back as " << char_int32(out + 2));
        for (auto& c : out) c = 0x5a;
        int16_char(static_cast<int16_t>(v), out + 2);
        intact(2);
        REQUIRE(char_int16(out + 2) == static_cast<int16_t>(v), "int16 " << static_cast<int16_t>(v) << " reads back as " << char_int16(out + 2));
        // through iterators
        std::array<C, 8> arr{};
        int32_char(static_cast<int32_t>(v), arr.begin() + 1);
        int16_char(static_cast<int16_t>(v), arr.begin() + 6);
        REQUIRE(char_uint32(arr.begin() + 1) == v && char_int32(arr.begin() + 1) == static_cast<int32_t>(v) && char_int16(arr.begin() + 6) == static_cast<int16_t>(v), "values through iterators");
    };
    go(char(0));
    go(static_cast<unsigned char>(0));
    go(static_cast<signed char>(0));
}

SECTION(squish, 80000, 1000000, "buffers flattened to another format in both orders; every sample converted once, at its place; non-trivial: more than one channel") {
    size_t ch = static_cast<size_t>(s.i(1, 6)), frames = static_cast<size_t>(s.sz(0, 40)), n = ch * frames;
    AudioBuffer b(static_cast<int>(frames), static_cast<int>(ch));
    std::vector<double> raw(n);
    for (size_t i = 0; i < n; ++i) {
        raw[i] = n <= 12 ? amplitude(s) : static_cast<double>(s.i(-32768, 32768)) / 32768.;
        b.at(static_cast<int>(i)) = raw[i];
    }
    s.note() << "channels " << ch << ", frames " << frames;
    s.nontrivial(ch > 1 && frames > 1);
    if (frames == 0) return;
    auto inter = raw;
    std::vector<double> seq;
    for (size_t c = 0; c < ch; ++c)
        for (size_t f = 0; f < frames; ++f) seq.push_back(raw[c + ch * f]);
    auto go = [&](auto oper, auto guard) {
        using V = decltype(guard);
        std::vector<V> out(n + 2, guard);
        std::vector<double> calls;
        auto counted = [&](double v) {
            calls.push_back(v);
            return oper(v);
        };
        auto once = [&](const std::vector<double>& want, const char* order) {
            auto a = calls, w = want;
            std::sort(a.begin(), a.end());
            std::sort(w.begin(), w.end());
            REQUIRE(a == w, "flattening in " << order << " order converts " << calls.size() << " samples of " << n);
            calls.clear();
        };
        squish_inter(&b, out.begin() + 1, std::ref(counted));
        once(inter, "frame");
        REQUIRE(out.front() == guard && out.back() == guard, "flattening writes outside of its output");
        for (size_t i = 0; i < n; ++i) REQUIRE(out[i + 1] == oper(inter[i]), "interleaved value " << i);
        squish_seq(&b, out.begin() + 1, std::ref(counted));
        once(seq, "channel");
        REQUIRE(out.front() == guard && out.back() == guard, "flattening writes outside of its output");
        for (size_t i = 0; i < n; ++i) REQUIRE(out[i + 1] == oper(seq[i]), "sequential value " << i);
        // to a container that grows, and through a pointer
        std::vector<V> grown;
        squish_inter(&b, std::back_inserter(grown), oper);
        squish_seq(&b, std::back_inserter(grown), oper);
        REQUIRE(grown.size() == 2 * n, "flattening twice appends " << grown.size() << " values of " << n);
        for (size_t i = 0; i < n; ++i) REQUIRE(grown[i] == oper(inter[i]) && grown[n + i] == oper(seq[i]), "appended value " << i);
        squish_inter(&b, out.data() + 1, oper);
        for (size_t i = 0; i < n; ++i) REQUIRE(out[i + 1] == oper(inter[i]), "interleaved value " << i << " through a pointer");
    };
    go(mf_int16, int16_t(77));
    go(mf_uint16, uint16_t(77));
    go(mf_char, char(77));
    go(mf_uchar, static_cast<unsigned char>(77));
    go(mf_float, 77.f);
    go(mf_null, 77.);
    std::vector<double> out(n, 77.);
    squish_null(&b, out.begin(), mf_null);
    for (size_t i = 0; i < n; ++i) REQUIRE(b.at(static_cast<int>(i)) == raw[i] && out[i] == 77., "flattening changes the buffer");
}

PBT_MAIN
