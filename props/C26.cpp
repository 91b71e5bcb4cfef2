// C26: wave files keep what is written to them.
// Oracle: the written samples and format; the same bytes if written again.
#include "wavio.hpp"

using wavio::Format;

namespace {

Format format(pbt::Src& s) {
    return {static_cast<int>(s.b() ? s.i(1, 3) : s.chance(1, 150) ? s.i(13, 600) : s.i(1, 12)), static_cast<int>(s.b() ? s.pick<int64_t>({8000, 44100, 48000, 96000, 192000}) : s.i(1, 400000)), s.b() ? 16 : 8, wavio::tag(s)};
}

/// Integer sample values
std::vector<int> codes(pbt::Src& s, int bits, size_t n) {
    const int lo = bits == 16 ? -32768 : 0, hi = bits == 16 ? 32767 : 255;
    std::vector<int> v(n);
    for (auto& x : v) x = static_cast<int>(s.chance(1, 4) ? s.pick<int64_t>({lo, hi, 0, lo + 1, hi - 1, 1, hi / 2, 128, 127, 255}) : s.i(lo, hi));
    return v;
}

/// Cuts samples into blocks of drawn numbers of frames
std::vector<std::vector<double>> cut(pbt::Src& s, const std::vector<double>& v, int channels) {
    std::vector<std::vector<double>> out;
    size_t p = 0;
    while (p < v.size()) {
        size_t n = std::min(v.size() - p, static_cast<size_t>(s.sz(s.chance(1, 6) ? 0 : 1, 40) * channels));
        out.emplace_back(v.begin() + static_cast<std::ptrdiff_t>(p), v.begin() + static_cast<std::ptrdiff_t>(p + n));
        p += n;
    }
    return out;
}

/// Reads everything: whole blocks, zeros after the end
std::vector<double> read(pbt::Src& s, const riff::Bytes& bytes, const Format& f, size_t frames, bool file, bool chain) {
    std::vector<double> got;
    const int top = frames > 4000 ? 60000 : 50;
    auto check = [&](AudioBuffer& b, int want) {
        REQUIRE(static_cast<int>(b.size()) == want * f.channels && static_cast<int>(b.channels()) == f.channels && b.get_samplerate() == f.rate, "read a block of " << b.size() << " samples in " << b.channels() << " channels at " << b.get_samplerate() << " instead of " << want << " frames");
        for (size_t i = 0; i < b.size(); ++i) {
            const double x = b.at(static_cast<int>(i));
            if (got.size() < frames * static_cast<size_t>(f.channels)) got.push_back(x);
            else REQUIRE(x == 0, "a sample after the end is " << x);
        }
    };
    auto head = [&](BaseWave& w) {
        REQUIRE(w.get_channels() == f.channels && w.get_samplerate() == f.rate && w.get_bits_per_sample() == f.bits && w.get_bytes_per_sample() == f.bits / 8 && w.get_format() == f.tag, "read format " << w.get_format() << ", " << w.get_channels() << " channels at " << w.get_samplerate() << " with " << w.get_bits_per_sample() << " bits");
        REQUIRE(static_cast<size_t>(w.get_size()) == bytes.size(), "the size is " << w.get_size() << " of " << bytes.size());
        REQUIRE(w.get_byterate() == f.channels * f.rate * (f.bits / 8) && w.get_blockalign() == f.channels * f.bits / 8, "byte rate " << w.get_byterate() << ", block align " << w.get_blockalign());
    };
    auto all = [&](BaseMIStream& in) {
        int size = static_cast<int>(top > 50 ? s.i(200, top) : s.sz(1, top));
        if (chain) {
            WaveSource src(&in);
            SinkModule<> sink;
            sink.link(&src);
            sink.get_chain_info()->buffer_size = size;
            // (the format of the file is the one that counts)
            sink.get_chain_info()->channels = s.b() ? f.channels : static_cast<int>(s.i(1, 4));
            sink.get_chain_info()->sample_rate = s.b() ? f.rate : 22050;
            sink.meta_info_sync();
            sink.meta_start();
            head(src);
            REQUIRE(src.get_info()->channels == f.channels && src.get_info()->sample_rate == f.rate, "the info of the source has " << src.get_info()->channels << " channels at " << src.get_info()->sample_rate);
            while (got.size() < frames * static_cast<size_t>(f.channels)) {
                REQUIRE(!src.WaveReader::done(), "done after " << got.size() << " samples");
                sink.meta_process();
                auto b = sink.get_buffer();
                check(b, size);
            }
            if (frames) REQUIRE(src.WaveReader::done(), "not done after the last sample");
            sink.meta_stop();
            REQUIRE(in.get_state() == BaseMIStream::stopped, "the stream is not stopped after the source");
            return;
        }
        WaveReader r;
        r.set_stream(&in);
        REQUIRE(r.get_stream() == &in, "the stream does not read back");
        r.start();
        head(r);
        while (got.size() < frames * static_cast<size_t>(f.channels)) {
            REQUIRE(!r.done(), "done after " << got.size() << " samples");
            if (s.chance(1, 3)) size = static_cast<int>(top > 50 ? s.i(200, top) : s.sz(1, top));
            r.set_buffer_size(size);
            REQUIRE(r.get_buffer_size() == size, "the buffer size does not read back");
            auto b = r.get_data();
            check(*b, size);
        }
        if (frames) REQUIRE(r.done(), "not done after the last sample");
        // (reading on is silence)
        if (s.chance(1, 4)) {
            auto b = r.get_data();
            check(*b, r.get_buffer_size());
        }
    };
    if (!file) {
        CharIStream in;
        in.get_array() = bytes;
        all(in);
    } else {
        riff::Scratch tmp("in.wav");
        riff::save(tmp.path, bytes);
        FIStream in;
        in.set_path(tmp.path);
        all(in);
    }
    return got;
}

void note(pbt::Src& s, const Format& f, const std::vector<std::vector<double>>& blocks, bool file, bool chain) {
    s.note() << f.bits << " bits, " << f.channels << " channels at " << f.rate << (file ? ", in a file" : ", in memory") << (chain ? ", read in a chain" : "") << ", written in blocks of";
    for (auto& b : blocks) s.note() << " " << b.size() / static_cast<size_t>(f.channels);
}

void exact(pbt::Src& s, bool file) {
    Format f = format(s);
    const size_t frames = static_cast<size_t>(s.sz(0, 120));
    auto k = codes(s, f.bits, frames * static_cast<size_t>(f.channels));
    std::vector<double> v;
    for (int x : k) v.push_back(riff::value(f.bits, x));
    auto blocks = cut(s, v, f.channels);
    const bool chain = s.b();
    note(s, f, blocks, file, chain);
    auto bytes = wavio::write(s, f, blocks, file);
    auto got = read(s, bytes, f, frames, file, chain);
    for (size_t i = 0; i < v.size(); ++i) REQUIRE(got[i] == v[i], "sample " << i << " was " << v[i] << " and is " << got[i]);
    // writing what was read does not change it any more
    auto again = wavio::write(s, f, cut(s, got, f.channels), file);
    auto got2 = read(s, again, f, frames, file, s.b());
    REQUIRE(again == bytes && got == got2, "written again, the file differs");
    s.label(std::to_string(f.bits) + " bits");
    s.label(chain ? "source" : "reader");
    s.nontrivial(blocks.size() > 1 && f.channels > 1);
}

}  // namespace

SECTION(memory, 20000, 300000, "representable samples of 8 or 16 bits, 1-12 (some with up to 600) channels, any rate and kind of format, written to and read from memory in blocks of changing sizes by readers or sources in chains, twice; non-trivial: several blocks and channels") {
    exact(s, false);
}

SECTION(file, 1500, 20000, "the same through files, new or replaced; non-trivial: several blocks and channels") {
    exact(s, true);
}

SECTION(large, 150, 3000, "files of 40 kB to 4 MB (at times 20 MB), in memory or on disk, written and read in blocks of up to 60000 frames; non-trivial: more than 1 MB") {
    Format f = format(s);
    const bool file = s.b(), chain = s.b();
    const int64_t bytes = s.b() ? s.i(40000, 300000) : s.chance(1, 12) ? s.i(4000000, 20000000) : s.i(300000, 4000000);
    const size_t frames = static_cast<size_t>(bytes / (f.channels * f.bits / 8)), n = frames * static_cast<size_t>(f.channels);
    // (every sample tells where it is)
    const auto a = static_cast<uint64_t>(s.i(0, 1000000)) * 2 + 1;
    std::vector<double> v(n);
    for (size_t i = 0; i < n; ++i) {
        const auto h = static_cast<int>((i * a * 0x9e3779b97f4a7c15ULL) >> 48);
        v[i] = f.bits == 16 ? riff::value16(h - 32768) : riff::value8(h >> 8);
    }
    std::vector<std::vector<double>> blocks;
    for (size_t p = 0; p < n;) {
        const size_t k = std::min(n - p, static_cast<size_t>(s.i(500, s.b() ? 60000 : 5000) * f.channels));
        blocks.emplace_back(v.begin() + static_cast<std::ptrdiff_t>(p), v.begin() + static_cast<std::ptrdiff_t>(p + k));
        p += k;
    }
    s.note() << f.bits << " bits, " << f.channels << " channels at " << f.rate << (file ? ", in a file" : ", in memory") << (chain ? ", read in a chain, " : ", ") << frames << " frames in " << blocks.size() << " blocks";
    auto data = wavio::write(s, f, blocks, file);
    REQUIRE(data.size() == 44 + n * static_cast<size_t>(f.bits / 8) + n * static_cast<size_t>(f.bits / 8) % 2, "the file has " << data.size() << " bytes for " << n << " samples");
    auto got = read(s, data, f, frames, file, chain);
    for (size_t i = 0; i < n; ++i)
        if (got[i] != v[i]) REQUIRE(false, "sample " << i << " was " << v[i] << " and is " << got[i]);
    s.nontrivial(data.size() > (1U << 20));
}

SECTION(rounded, 20000, 300000, "any samples in [-1, 1]: off by no more than one step of the format, silence and full scale are exact, and order is kept; non-trivial: at least ten samples") {
    Format f = format(s);
    const size_t frames = static_cast<size_t>(s.sz(1, 60));
    std::vector<double> v;
    for (size_t i = 0; i < frames * static_cast<size_t>(f.channels); ++i) v.push_back(s.chance(1, 4) ? s.pick<double>({0, 1, -1, .5, -.5, 1e-9, -1e-9}) : s.unit(-1, 1));
    auto blocks = cut(s, v, f.channels);
    note(s, f, blocks, false, false);
    auto got = read(s, wavio::write(s, f, blocks, false), f, frames, false, s.b());
    const double step = f.bits == 16 ? 1. / 32767 : 2. / 255;
    for (size_t i = 0; i < v.size(); ++i) {
        REQUIRE(std::fabs(got[i] - v[i]) <= step * 1.0001, "sample " << i << " was " << v[i] << " and is " << got[i]);
        if (std::fabs(v[i]) == 1 || (v[i] == 0 && f.bits == 16)) REQUIRE(got[i] == v[i], "sample " << i << " was " << v[i] << " and is " << got[i]);
        if (i && v[i - 1] <= v[i]) REQUIRE(got[i - 1] <= got[i], "samples " << v[i - 1] << " and " << v[i] << " came back as " << got[i - 1] << " and " << got[i]);
    }
    s.nontrivial(v.size() >= 10);
}

SECTION(reused, 12000, 150000, "one writer and one reader or source used for 2-4 waves of different formats in turn, each on a stream of its own, some of them not read to their end or not waves at all; non-trivial: one was not read to its end") {
    WaveWriter w;
    WaveReader r;
    WaveSource src;
    SinkModule<> sink;
    const bool chain = s.b();
    sink.link(&src);
    const int waves = static_cast<int>(s.i(2, 4));
    bool part = false;
    s.note() << (chain ? "source:" : "reader:");
    for (int k = 0; k < waves; ++k) {
        Format f = format(s);
        const size_t frames = static_cast<size_t>(s.sz(0, 60));
        std::vector<double> v;
        for (int x : codes(s, f.bits, frames * static_cast<size_t>(f.channels))) v.push_back(riff::value(f.bits, x));
        CharOStream out;
        w.set_stream(&out);
        wavio::configure(w, f, s);
        w.start();
        for (auto& b : cut(s, v, f.channels)) {
            auto buf = std::make_unique<AudioBuffer>(static_cast<int>(b.size()) / f.channels, f.channels);
            buf->set_samplerate(f.rate);
            for (size_t i = 0; i < b.size(); ++i) buf->at(static_cast<int>(i)) = b[i];
            w.write_data(std::move(buf));
        }
        w.stop();
        const auto& bytes = out.get_array();
        const size_t data = v.size() * static_cast<size_t>(f.bits / 8), want = 44 + data + data % 2;
        REQUIRE(bytes.size() == want && riff::get32(bytes, 4) == want - 8 && riff::get32(bytes, 40) == data, "wave " << k << " of " << data << " bytes of data has " << bytes.size() << " bytes, and sizes " << riff::get32(bytes, 4) << " and " << riff::get32(bytes, 40));
        CharIStream in;
        in.get_array() = bytes;
        const bool bad = s.chance(1, 8);
        if (bad) in.get_array()[static_cast<size_t>(s.i(0, 3))] ^= 1;
        WaveReader& rd = chain ? static_cast<WaveReader&>(src) : r;
        rd.set_stream(&in);
        const int size = static_cast<int>(s.sz(1, 30));
        if (chain) {
            sink.get_chain_info()->buffer_size = size;
            sink.meta_info_sync();
            sink.meta_start();
        } else {
            r.start();
            r.set_buffer_size(size);
        }
        s.note() << " " << f.bits << " bits, " << frames << "x" << f.channels << (bad ? " (broken)" : "");
        if (bad) {
            REQUIRE(rd.done(), "a broken wave is not done");
        } else {
            REQUIRE(rd.get_channels() == f.channels && rd.get_samplerate() == f.rate && rd.get_bits_per_sample() == f.bits && rd.get_format() == f.tag && static_cast<size_t>(rd.get_size()) == bytes.size(), "wave " << k << " has " << rd.get_channels() << " channels at " << rd.get_samplerate() << " with " << rd.get_bits_per_sample() << " bits, and " << rd.get_size() << " bytes");
            const size_t stop = s.b() ? v.size() : static_cast<size_t>(s.i(0, static_cast<int64_t>(v.size())));
            size_t p = 0;
            while (p < stop) {
                REQUIRE(!rd.done(), "wave " << k << " is done after " << p << " of " << v.size() << " samples");
                auto look = [&](AudioBuffer& b) {
                    REQUIRE(static_cast<int>(b.size()) == size * f.channels, "a block of " << size << " frames has " << b.size() << " samples");
                    for (size_t i = 0; i < b.size(); ++i, ++p) {
                        const double x = b.at(static_cast<int>(i)), y = p < v.size() ? v[p] : 0;
                        REQUIRE(x == y, "sample " << p << " of wave " << k << " is " << x << ", expected " << y);
                    }
                };
                if (chain) {
                    sink.meta_process();
                    AudioBuffer b = sink.get_buffer();
                    look(b);
                } else {
                    auto b = r.get_data();
                    look(*b);
                }
            }
            if (p < v.size()) part = true;
            else if (p) REQUIRE(rd.done(), "wave " << k << " is not done after its last sample");
        }
        if (chain) sink.meta_stop();
        else r.stop();
    }
    s.nontrivial(part);
}

PBT_MAIN
