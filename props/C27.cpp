// C27: reading wave data is safe for any bytes and right for well-formed ones.
// Oracle: the chunks the file was built from; for other bytes: no crash, whole
// blocks, samples in range, and an end.
#include "wavio.hpp"

namespace {

struct File {
    riff::Bytes bytes;
    int channels, rate, bits, tag = 1;
    std::vector<int> samples;  // that are in the file
    std::string shape;
};

std::string name(pbt::Src& s) {
    if (s.b()) return s.pick<std::string>({"LIST", "fact", "JUNK", "bext", "cue ", "PEAK", "id3 ", "DATA", "fmtx", "WAVE", "RIFF"});
    std::string n;
    for (int i = 0; i < 4; ++i) n += static_cast<char>(s.i(32, 126));
    return n == "data" || n == "fmt " ? "junk" : n;
}

void unknown(pbt::Src& s, File& f, bool large = false) {
    const auto n = large && s.b() ? s.i(30000, 1500000) : s.chance(1, 8) ? s.i(400, 1700) : s.sz(0, 40);
    const auto fill = static_cast<uint64_t>(n > 2000 ? s.i(1, 1000000) : 0);
    riff::put(f.bytes, name(s));
    riff::put32(f.bytes, static_cast<uint32_t>(n));
    // (the contents may look like chunks)
    const bool decoy = s.chance(1, 3);
    riff::Bytes body;
    if (decoy) {
        riff::put(body, s.b() ? "data" : "fmt ");
        riff::put32(body, 4);
    }
    while (body.size() < static_cast<size_t>(n)) body.push_back(static_cast<unsigned char>(fill ? body.size() * fill * 0x9e3779b97f4a7c15ULL >> 56 : static_cast<uint64_t>(s.i(0, 255))));
    body.resize(static_cast<size_t>(n));
    f.bytes.insert(f.bytes.end(), body.begin(), body.end());
    if (n % 2) f.bytes.push_back(0);
    f.shape += " other(" + std::to_string(n) + ")";
}

/// A well-formed file
File build(pbt::Src& s, int maxdata, bool large = false) {
    File f;
    f.channels = static_cast<int>(s.b() ? s.i(1, 2) : s.chance(1, 100) ? s.i(10, 300) : s.i(1, 9));
    f.rate = static_cast<int>(s.b() ? 44100 : s.i(1, 500000));
    f.bits = s.b() ? 16 : 8;
    riff::put(f.bytes, "RIFF");
    riff::put32(f.bytes, 0);
    riff::put(f.bytes, "WAVE");
    while (s.chance(1, 4)) unknown(s, f, large);
    const int ext = static_cast<int>(s.b() ? 0 : s.pick<int64_t>({2, 24, 1, 7}));
    riff::put(f.bytes, "fmt ");
    riff::put32(f.bytes, static_cast<uint32_t>(16 + ext));
    riff::put16(f.bytes, static_cast<uint32_t>(f.tag = s.chance(1, 4) ? 0xfffe : 1));
    riff::put16(f.bytes, static_cast<uint32_t>(f.channels));
    riff::put32(f.bytes, static_cast<uint32_t>(f.rate));
    riff::put32(f.bytes, static_cast<uint32_t>(f.rate * f.channels * (f.bits / 8)));
    riff::put16(f.bytes, static_cast<uint32_t>(f.channels * f.bits / 8));
    riff::put16(f.bytes, static_cast<uint32_t>(f.bits));
    for (int i = 0; i < ext + ext % 2; ++i) f.bytes.push_back(static_cast<unsigned char>(i == 0 && ext == 2 ? 0 : s.i(0, 255)));
    f.shape += " fmt(" + std::to_string(16 + ext) + ")";
    const int data = static_cast<int>(s.i(1, maxdata));
    for (int k = 0; k < data; ++k) {
        while (s.chance(1, 4)) unknown(s, f, large);
        // (chunks hold whole samples, but not necessarily whole frames)
        const int n = static_cast<int>(large && s.b() ? s.i(20000, 1500000) : s.chance(1, 10) ? s.i(500, 2000) : s.sz(0, 60));
        const auto fill = static_cast<uint64_t>(n > 2000 ? s.i(1, 1000000) : 0);
        riff::put(f.bytes, "data");
        riff::put32(f.bytes, static_cast<uint32_t>(n * f.bits / 8));
        for (int i = 0; i < n; ++i) {
            const auto h = static_cast<int>(static_cast<uint64_t>(i + 1) * fill * 0x9e3779b97f4a7c15ULL >> 48);
            const int v = static_cast<int>(fill ? (f.bits == 16 ? h - 32768 : h >> 8) : f.bits == 16 ? s.i(-32768, 32767) : s.i(0, 255));
            f.samples.push_back(v);
            if (f.bits == 16) riff::put16(f.bytes, static_cast<uint32_t>(v & 0xffff));
            else f.bytes.push_back(static_cast<unsigned char>(v));
        }
        if (n * f.bits / 8 % 2) f.bytes.push_back(0);
        f.shape += " data(" + std::to_string(n * f.bits / 8) + ")";
    }
    while (s.chance(1, 4)) unknown(s, f, large);
    riff::Bytes size;
    riff::put32(size, static_cast<uint32_t>(f.bytes.size() - 8));
    std::copy(size.begin(), size.end(), f.bytes.begin() + 4);
    return f;
}

struct Input {
    CharIStream mem;
    FIStream file;
    std::unique_ptr<riff::Scratch> tmp;
    BaseMIStream* get(const riff::Bytes& b, bool in_file) {
        if (!in_file) {
            mem.get_array() = b;
            return &mem;
        }
        tmp = std::make_unique<riff::Scratch>("in.wav");
        riff::save(tmp->path, b);
        file.set_path(tmp->path);
        return &file;
    }
};

/// Reads all of a file; the samples of the file are followed by silence
void expect(pbt::Src& s, const File& f, bool in_file, bool trailing) {
    Input in;
    WaveReader r(in.get(f.bytes, in_file));
    r.start();
    REQUIRE(r.get_channels() == f.channels && r.get_samplerate() == f.rate && r.get_bits_per_sample() == f.bits, "read " << r.get_channels() << " channels at " << r.get_samplerate() << " with " << r.get_bits_per_sample() << " bits");
    REQUIRE(r.get_format() == f.tag && r.get_bytes_per_sample() == f.bits / 8 && r.get_blockalign() == f.channels * f.bits / 8 && r.get_byterate() == f.rate * f.channels * (f.bits / 8), "read format " << r.get_format() << ", " << r.get_bytes_per_sample() << " bytes per sample, block align " << r.get_blockalign() << ", byte rate " << r.get_byterate());
    size_t p = 0;
    bool silent = false;
    const int top = f.bytes.size() > 20000 ? 40000 : 70;
    int size = static_cast<int>(top > 70 ? s.i(100, top) : s.sz(1, top));
    for (size_t calls = 0; !r.done(); ++calls) {
        REQUIRE(calls <= f.bytes.size() + 2, "there is no end");
        if (s.chance(1, 4)) size = static_cast<int>(top > 70 ? s.i(100, top) : s.sz(1, top));
        r.set_buffer_size(size);
        auto b = r.get_data();
        REQUIRE(static_cast<int>(b->size()) == size * f.channels && static_cast<int>(b->channels()) == f.channels && b->get_samplerate() == f.rate, "a block of " << size << " frames has " << b->size() << " samples");
        for (size_t i = 0; i < b->size(); ++i, ++p) {
            const double x = b->at(static_cast<int>(i));
            if (p < f.samples.size()) REQUIRE(std::fabs(x - riff::value(f.bits, f.samples[p])) < 1e-12, "sample " << p << " is " << x << ", expected " << riff::value(f.bits, f.samples[p]));
            else if (!trailing) {
                silent = true;
                REQUIRE(x == 0, "sample " << p << " after the end is " << x);
            }
        }
    }
    REQUIRE(p >= f.samples.size(), "ended after " << p << " of " << f.samples.size() << " samples");
    (void)silent;
}

/// Reads any bytes
void survive(pbt::Src& s, const riff::Bytes& bytes, bool in_file) {
    Input in;
    WaveReader r(in.get(bytes, in_file));
    r.start();
    const int size = static_cast<int>(s.sz(1, 12));
    r.set_buffer_size(size);
    const int channels = r.get_channels();
    REQUIRE(channels >= 1 && channels <= 65535, "there are " << channels << " channels");
    s.label(r.done() ? "refused" : "accepted");
    size_t calls = 0;
    while (!r.done()) {
        REQUIRE(++calls <= bytes.size() + 3, "there is no end");
        auto b = r.get_data();
        REQUIRE(b->size() == static_cast<size_t>(size) * static_cast<size_t>(channels), "a block of " << size << " frames in " << channels << " channels has " << b->size() << " samples");
        for (size_t i = 0; i < b->size(); ++i) {
            const double x = b->at(static_cast<int>(i));
            if (!(x >= -1 && x <= 1)) REQUIRE(false, "a sample is " << x);
        }
    }
    r.stop();
    s.nontrivial(calls > 0);
}

}  // namespace

SECTION(chunks, 20000, 300000, "well-formed files: unknown chunks (odd sizes padded, contents looking like chunks) anywhere, extended formats, 1-4 data chunks that may split frames, read in blocks of changing sizes; non-trivial: other chunks, or several with data") {
    File f = build(s, 4);
    const bool in_file = s.chance(1, 12);
    s.note() << f.bits << " bits, " << f.channels << " channels at " << f.rate << (in_file ? ", in a file:" : ":") << f.shape;
    expect(s, f, in_file, false);
    s.nontrivial(f.shape.find("other") != std::string::npos || f.shape.find("data") != f.shape.rfind("data"));
}

SECTION(large, 120, 2500, "well-formed files with other chunks and data chunks of up to 3 MB each, read in blocks of up to 40000 frames; non-trivial: more than 1 MB in all") {
    File f = build(s, 3, true);
    const bool in_file = s.b();
    s.note() << f.bits << " bits, " << f.channels << " channels at " << f.rate << (in_file ? ", in a file:" : ":") << f.shape;
    expect(s, f, in_file, false);
    s.nontrivial(f.bytes.size() > (1U << 20));
}

SECTION(many, 600, 10000, "well-formed files of up to 300 data chunks, with other chunks between them; non-trivial: at least 20 with data") {
    File f = build(s, s.b() ? 40 : 300);
    const bool in_file = s.chance(1, 4);
    s.note() << f.bits << " bits, " << f.channels << " channels at " << f.rate << (in_file ? ", in a file:" : ":") << f.shape;
    expect(s, f, in_file, false);
    size_t n = 0;
    for (size_t p = f.shape.find("data"); p != std::string::npos; p = f.shape.find("data", p + 1)) ++n;
    s.nontrivial(n >= 20);
}

SECTION(unsized, 10000, 150000, "files of unknown length, as written to a pipe: sizes are larger than what is there, up to the largest; non-trivial: at least one sample") {
    File f = build(s, 1);
    // (nothing may come after the data)
    const size_t p = [&] {
        size_t at = 12;
        while (riff::id(f.bytes, at) != "data") at += 8 + riff::get32(f.bytes, at + 4) + riff::get32(f.bytes, at + 4) % 2;
        return at;
    }();
    const uint32_t n = riff::get32(f.bytes, p + 4);
    f.bytes.resize(p + 8 + n);
    auto set = [&](size_t at, uint32_t v) {
        riff::Bytes b;
        riff::put32(b, v);
        std::copy(b.begin(), b.end(), f.bytes.begin() + static_cast<std::ptrdiff_t>(at));
    };
    auto large = [&]() -> uint32_t { return s.b() ? 0xffffffffu : s.pick<uint32_t>({0x7fffffffu, 0x80000000u, 0xfffffffeu, 0x7ffff000u, 0xfffffff0u, 0xfffffff7u, 0xfffffff8u, 1000000u}); };
    set(4, large());
    set(p + 4, large());
    const bool in_file = s.chance(1, 12);
    s.note() << f.bits << " bits, " << f.channels << " channels," << f.shape << ", declared sizes " << riff::get32(f.bytes, 4) << " and " << riff::get32(f.bytes, p + 4);
    expect(s, f, in_file, f.bits == 8);
    s.nontrivial(!f.samples.empty());
}

SECTION(damaged, 30000, 600000, "well-formed files, cut, with bytes changed, inserted, removed or sizes replaced by extreme ones; non-trivial: the reader delivers blocks") {
    File f = build(s, 2);
    auto b = f.bytes;
    const int edits = static_cast<int>(s.i(1, 4));
    for (int k = 0; k < edits && !b.empty(); ++k) {
        // (mostly in the headers)
        const size_t at = static_cast<size_t>(s.chance(2, 3) ? s.i(0, std::min<int64_t>(static_cast<int64_t>(b.size()) - 1, 60)) : s.i(0, static_cast<int64_t>(b.size()) - 1));
        switch (s.i(0, 5)) {
            case 0:
                s.note() << " cut at " << at;
                b.resize(at);
                break;
            case 1: {
                const int n = static_cast<int>(s.i(1, 6));
                s.note() << " remove " << n << " at " << at;
                b.erase(b.begin() + static_cast<std::ptrdiff_t>(at), b.begin() + static_cast<std::ptrdiff_t>(std::min(b.size(), at + static_cast<size_t>(n))));
                break;
            }
            case 2: {
                const int n = static_cast<int>(s.i(1, 6));
                s.note() << " insert " << n << " at " << at;
                for (int i = 0; i < n; ++i) b.insert(b.begin() + static_cast<std::ptrdiff_t>(at), static_cast<unsigned char>(s.i(0, 255)));
                break;
            }
            case 3: {
                riff::Bytes v;
                riff::put32(v, s.pick<uint32_t>({0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 0xffff, 0x10000, 3, 0xfffffff8}));
                s.note() << " extreme number at " << at;
                for (size_t i = 0; i < 4 && at + i < b.size(); ++i) b[at + i] = v[i];
                break;
            }
            default:
                b[at] = static_cast<unsigned char>(s.i(0, 255));
                s.note() << " byte " << at << " = " << +b[at];
        }
    }
    s.note() << " of" << f.shape;
    survive(s, b, s.chance(1, 20));
}

SECTION(refused, 10000, 150000, "well-formed files whose first or third word is that of another kind of file, or nearly the right one: done at once; non-trivial: only one of both is wrong") {
    File f = build(s, 2);
    auto word = [&](size_t at, const std::string& right) {
        std::string w = s.b() ? s.pick<std::string>({"RIFX", "RF64", "AVI ", "FORM", "AIFF", "OggS", "fLaC", "riff", "wave", "RMID", "WAVE", "RIFF"}) : right;
        if (w == right) {
            const auto k = static_cast<size_t>(s.i(0, 3));
            w[k] = static_cast<char>(static_cast<unsigned char>(w[k]) ^ static_cast<unsigned char>(s.i(1, 255)));
        }
        std::copy(w.begin(), w.end(), f.bytes.begin() + static_cast<std::ptrdiff_t>(at));
        s.note() << " " << at << ":" << pbt::show(w);
    };
    const int which = static_cast<int>(s.i(0, 2));
    if (which != 1) word(0, "RIFF");
    if (which != 0) word(8, "WAVE");
    s.nontrivial(which != 2);
    Input in;
    WaveReader r(in.get(f.bytes, s.chance(1, 4)));
    r.start();
    REQUIRE(r.done(), "a file that is no wave file is read");
    REQUIRE(r.get_stream()->get_state() == BaseMIStream::stopped, "the stream of a file that is refused is not stopped");
    r.stop();
}

SECTION(noise, 15000, 300000, "arbitrary bytes, from nothing to a few headers, with parts of real headers; non-trivial: the reader delivers blocks") {
    riff::Bytes b;
    const int parts = static_cast<int>(s.i(0, 8));
    for (int k = 0; k < parts; ++k) switch (s.i(0, 6)) {
            case 0: riff::put(b, s.pick<std::string>({"RIFF", "WAVE", "fmt ", "data", "LIST"})); break;
            case 1: riff::put32(b, static_cast<uint32_t>(s.i(0, 64))); break;
            case 2: riff::put32(b, static_cast<uint32_t>(s.draw(0xffffffff))); break;
            case 3: {
                const int n = static_cast<int>(s.sz(0, 40));
                for (int i = 0; i < n; ++i) b.push_back(static_cast<unsigned char>(s.i(0, 255)));
                break;
            }
            case 4:
                riff::put(b, "RIFF");
                riff::put32(b, static_cast<uint32_t>(s.i(0, 200)));
                riff::put(b, "WAVE");
                break;
            case 5:
                riff::put(b, "fmt ");
                riff::put32(b, static_cast<uint32_t>(s.pick<int64_t>({16, 18, 15, 0, 40})));
                riff::put16(b, static_cast<uint32_t>(s.i(0, 4)));
                riff::put16(b, static_cast<uint32_t>(s.chance(1, 4) ? s.i(0, 65535) : s.i(0, 3)));
                riff::put32(b, static_cast<uint32_t>(s.chance(1, 3) ? s.draw(0xffffffff) : 44100));
                riff::put32(b, static_cast<uint32_t>(s.draw(0xffffffff)));
                riff::put16(b, static_cast<uint32_t>(s.i(0, 65535)));
                riff::put16(b, static_cast<uint32_t>(s.b() ? s.pick<int64_t>({8, 16, 24, 32, 12, 1, 0}) : s.i(0, 65535)));
                break;
            default:
                riff::put(b, "data");
                riff::put32(b, static_cast<uint32_t>(s.i(0, 50)));
        }
    s.note() << b.size() << " bytes:";
    for (size_t i = 0; i < b.size() && i < 90; ++i) s.note() << " " << +b[i];
    survive(s, b, s.chance(1, 20));
}

PBT_MAIN
