// C28: the headers of written waves agree with their contents.
// Oracle: the bytes of the file, taken apart independently.
#include "wavio.hpp"

using wavio::Format;

namespace {

int code(int bits, double v) {
    if (bits == 8) return static_cast<int>(std::lround((v + 1) / 2 * 255));
    return static_cast<int>(v < 0 ? v * 32768 : v * 32767);
}

}  // namespace

SECTION(headers, 25000, 400000, "0-6 blocks (also empty) of 8 or 16 bit samples in 1-12 (some in up to 600) channels at any rate, of any kind of format, settings in any order, to memory or a file; non-trivial: at least two blocks") {
    const Format f{static_cast<int>(s.b() ? s.i(1, 2) : s.chance(1, 150) ? s.i(13, 600) : s.i(1, 12)), static_cast<int>(s.b() ? s.pick<int64_t>({8000, 44100, 48000, 192000}) : s.i(1, 1000000)), s.b() ? 16 : 8, wavio::tag(s)};
    const int count = static_cast<int>(s.turns(0, 6));
    const bool file = s.chance(1, 25);
    s.note() << f.bits << " bits, " << f.channels << " channels at " << f.rate << (file ? ", file:" : ":");
    std::vector<std::vector<double>> blocks;
    std::vector<double> all;
    for (int k = 0; k < count; ++k) {
        blocks.emplace_back();
        const auto n = s.chance(1, 400) ? (f.channels < 3 && s.chance(1, 4) ? s.i(1000000, 5000000) : s.i(20000, 100000)) : s.chance(1, 15) ? s.i(200, 500) : s.sz(0, 30);
        const double step = n > 1000 ? s.unit(0, 1) : 0;
        for (int i = 0; i < n * f.channels; ++i) blocks.back().push_back(step > 0 ? std::fmod(i * step, 2.) - 1 : s.unit(-1, 1));
        all.insert(all.end(), blocks.back().begin(), blocks.back().end());
        s.note() << " " << n;
    }
    const auto b = wavio::write(s, f, blocks, file);
    const size_t data = all.size() * static_cast<size_t>(f.bits / 8), pad = data % 2;
    REQUIRE(b.size() == 44 + data + pad, "the file has " << b.size() << " bytes, for " << data << " bytes of data");
    REQUIRE(riff::id(b, 0) == "RIFF" && riff::id(b, 8) == "WAVE" && riff::id(b, 12) == "fmt " && riff::id(b, 36) == "data", "identifiers are " << riff::id(b, 0) << riff::id(b, 8) << riff::id(b, 12) << riff::id(b, 36));
    REQUIRE(riff::get32(b, 4) == b.size() - 8, "the file size is " << riff::get32(b, 4) << " + 8, but there are " << b.size() << " bytes");
    REQUIRE(riff::get32(b, 16) == 16, "the size of the format is " << riff::get32(b, 16));
    REQUIRE(riff::get16(b, 20) == static_cast<uint32_t>(f.tag) && riff::get16(b, 22) == static_cast<uint32_t>(f.channels) && riff::get32(b, 24) == static_cast<uint32_t>(f.rate) && riff::get16(b, 34) == static_cast<uint32_t>(f.bits), "the format is " << riff::get16(b, 20) << ", " << riff::get16(b, 22) << " channels, " << riff::get32(b, 24) << " Hz, " << riff::get16(b, 34) << " bits");
    REQUIRE(riff::get32(b, 28) == static_cast<uint32_t>(f.rate * f.channels * (f.bits / 8)), "the byte rate is " << riff::get32(b, 28));
    REQUIRE(riff::get16(b, 32) == static_cast<uint32_t>(f.channels * f.bits / 8), "the block align is " << riff::get16(b, 32));
    REQUIRE(riff::get32(b, 40) == data, "the size of the data is " << riff::get32(b, 40) << " instead of " << data);
    for (size_t i = 0; i < all.size(); ++i) {
        const int got = f.bits == 8 ? b[44 + i] : static_cast<int16_t>(riff::get16(b, 44 + 2 * i));
        REQUIRE(std::abs(got - code(f.bits, all[i])) <= 1, "sample " << i << " of " << all[i] << " is stored as " << got);
    }
    if (pad) REQUIRE(b.back() == 0, "the padding is " << +b.back());
    s.nontrivial(count > 1 && data > 0);
}

SECTION(again, 8000, 120000, "one writer for 2-5 waves of different formats and lengths in turn, each to a stream of its own, in memory or a file, some of them longer than the one before: all headers of each; non-trivial: three or more waves") {
    WaveWriter w;
    const int waves = static_cast<int>(s.i(2, 5));
    s.nontrivial(waves > 2);
    for (int k = 0; k < waves; ++k) {
        const Format f{static_cast<int>(s.i(1, 4)), static_cast<int>(s.i(1, 200000)), s.b() ? 16 : 8, wavio::tag(s)};
        CharOStream mem;
        FOStream file;
        riff::Scratch tmp("again.wav");
        file.set_path(tmp.path);
        const bool disk = s.chance(1, 30);
        BaseMOStream& out = disk ? static_cast<BaseMOStream&>(file) : mem;
        w.set_stream(&out);
        wavio::configure(w, f, s);
        w.start();
        std::vector<double> all;
        const int count = static_cast<int>(s.i(0, 3));
        s.note() << " " << f.bits << " bits, " << f.channels << " channels at " << f.rate << (disk ? ", file:" : ":");
        for (int j = 0; j < count; ++j) {
            const int64_t n = s.sz(0, 20);
            auto buf = std::make_unique<AudioBuffer>(static_cast<int>(n), f.channels);
            for (size_t i = 0; i < buf->size(); ++i) all.push_back(buf->at(static_cast<int>(i)) = s.unit(-1, 1));
            w.write_data(std::move(buf));
            s.note() << " " << n;
        }
        w.stop();
        const riff::Bytes b = disk ? riff::load(tmp.path) : mem.get_array();
        const size_t data = all.size() * static_cast<size_t>(f.bits / 8), pad = data % 2;
        REQUIRE(b.size() == 44 + data + pad, "wave " << k << " has " << b.size() << " bytes, for " << data << " bytes of data");
        REQUIRE(riff::id(b, 0) == "RIFF" && riff::id(b, 8) == "WAVE" && riff::id(b, 12) == "fmt " && riff::id(b, 36) == "data", "wave " << k << ": identifiers are " << riff::id(b, 0) << riff::id(b, 8) << riff::id(b, 12) << riff::id(b, 36));
        REQUIRE(riff::get32(b, 4) == b.size() - 8 && riff::get32(b, 40) == data, "wave " << k << " of " << data << " bytes of data has sizes " << riff::get32(b, 4) << " and " << riff::get32(b, 40));
        REQUIRE(riff::get16(b, 20) == static_cast<uint32_t>(f.tag) && riff::get16(b, 22) == static_cast<uint32_t>(f.channels) && riff::get32(b, 24) == static_cast<uint32_t>(f.rate) && riff::get16(b, 34) == static_cast<uint32_t>(f.bits), "wave " << k << ": the format is " << riff::get16(b, 20) << ", " << riff::get16(b, 22) << " channels, " << riff::get32(b, 24) << " Hz, " << riff::get16(b, 34) << " bits");
        REQUIRE(riff::get32(b, 28) == static_cast<uint32_t>(f.rate * f.channels * (f.bits / 8)) && riff::get16(b, 32) == static_cast<uint32_t>(f.channels * f.bits / 8), "wave " << k << ": byte rate " << riff::get32(b, 28) << ", block align " << riff::get16(b, 32));
        for (size_t i = 0; i < all.size(); ++i) {
            const int got = f.bits == 8 ? b[44 + i] : static_cast<int16_t>(riff::get16(b, 44 + 2 * i));
            REQUIRE(std::abs(got - code(f.bits, all[i])) <= 1, "wave " << k << ": sample " << i << " of " << all[i] << " is stored as " << got);
        }
    }
}

SECTION(chunks, 60000, 1000000, "file, format, data and other chunk headers with any values: their bytes are little endian in the documented order, and decode to the same values; non-trivial: always") {
    CharOStream out;
    CharIStream in;
    auto feed = [&] { in.get_array() = out.get_array(); };
    auto id = [&] {
        std::string n;
        for (int i = 0; i < 4; ++i) n += static_cast<char>(s.i(0, 255));
        return n;
    };
    const auto n = static_cast<uint32_t>(s.draw(0xffffffff));
    s.nontrivial();
    switch (s.i(0, 3)) {
        case 0: {
            const auto name = id();
            s.note() << "chunk of " << n;
            ChunkHeader h(name, n);
            h.encode(out);
            const auto& b = out.get_array();
            REQUIRE(b.size() == 8 && ChunkHeader::size() == 8 && riff::id(b, 0) == name && riff::get32(b, 4) == n, "chunk header of " << n << " is stored as " << pbt::show(b));
            feed();
            ChunkHeader g;
            g.decode(in);
            REQUIRE(g.chunk_id == name && g.chunk_size == n, "chunk header of " << n << " decodes to " << g.chunk_size);
            break;
        }
        case 1: {
            s.note() << "file of " << n;
            WavHeader h;
            h.chunk_size = n;
            if (s.b()) h.format = id();
            h.encode(out);
            const auto& b = out.get_array();
            REQUIRE(b.size() == 12 && WavHeader::size() == 12 && riff::id(b, 0) == "RIFF" && riff::get32(b, 4) == n && riff::id(b, 8) == h.format, "file header of " << n << " is stored as " << pbt::show(b));
            feed();
            WavHeader g;
            g.format = "????";
            g.decode(in);
            REQUIRE(g.chunk_id == "RIFF" && g.chunk_size == n && g.format == h.format, "file header of " << n << " decodes to " << g.chunk_size);
            break;
        }
        case 2: {
            WavFormat h;
            h.format = static_cast<uint16_t>(s.i(0, 65535));
            h.channels = static_cast<uint16_t>(s.i(0, 65535));
            h.sample_rate = n;
            h.byte_rate = static_cast<uint32_t>(s.draw(0xffffffff));
            h.block_align = static_cast<uint16_t>(s.i(0, 65535));
            h.bits_per_sample = static_cast<uint16_t>(s.i(0, 65535));
            s.note() << "format " << h.format << " " << h.channels << " " << h.sample_rate << " " << h.byte_rate << " " << h.block_align << " " << h.bits_per_sample;
            h.encode(out);
            const auto& b = out.get_array();
            REQUIRE(b.size() == 24 && WavFormat::size() == 24 && riff::id(b, 0) == "fmt " && riff::get32(b, 4) == 16, "format header is stored as " << pbt::show(b));
            REQUIRE(riff::get16(b, 8) == h.format && riff::get16(b, 10) == h.channels && riff::get32(b, 12) == n && riff::get32(b, 16) == h.byte_rate && riff::get16(b, 20) == h.block_align && riff::get16(b, 22) == h.bits_per_sample, "format is stored as " << pbt::show(b));
            feed();
            in.seek(8);
            WavFormat g;
            g.decode(in);
            REQUIRE(g.format == h.format && g.channels == h.channels && g.sample_rate == n && g.byte_rate == h.byte_rate && g.block_align == h.block_align && g.bits_per_sample == h.bits_per_sample, "format decodes to " << g.format << " " << g.channels << " " << g.sample_rate << " " << g.byte_rate << " " << g.block_align << " " << g.bits_per_sample);
            break;
        }
        default: {
            const auto size = static_cast<uint32_t>(s.sz(0, 40));
            UnknownChunk h(size);
            h.chunk_id = id();
            for (auto& x : h.data) x = static_cast<char>(s.i(0, 255));
            if (s.chance(1, 4)) h.data.push_back('x');
            s.note() << "other chunk of " << h.data.size();
            h.encode(out);
            const auto& b = out.get_array();
            REQUIRE(b.size() == 8 + h.data.size() && h.size() == b.size() && riff::id(b, 0) == h.chunk_id && riff::get32(b, 4) == h.data.size(), "other chunk is stored as " << pbt::show(b));
            feed();
            ChunkHeader head;
            head.decode(in);
            UnknownChunk g(head.chunk_size);
            g.decode(in);
            REQUIRE(g.data == h.data && head.chunk_id == h.chunk_id, "other chunk differs after decoding");
        }
    }
}

SECTION(settings, 40000, 600000, "histories of setting channels, rate, bits or bytes per sample: byte rate and block align follow; non-trivial: all were set") {
    BaseWave w;
    int channels = 1, rate = 44100, bytes = 0;
    const int ops = static_cast<int>(s.turns(1, 12));
    bool c = false, r = false, b = false;
    const pbt::Swarm swarm(s, 0, 3);
    for (int k = 0; k < ops; ++k) {
        switch (swarm(s)) {
            case 0:
                w.set_channels(channels = static_cast<int>(s.i(1, 32)));
                s.note() << " channels=" << channels;
                c = true;
                break;
            case 1:
                w.set_samplerate(rate = static_cast<int>(s.i(1, 1000000)));
                s.note() << " rate=" << rate;
                r = true;
                break;
            case 2:
                bytes = static_cast<int>(s.i(1, 8));
                w.set_bits_per_sample(bytes * 8);
                s.note() << " bits=" << bytes * 8;
                b = true;
                break;
            default:
                w.set_bytes_per_sample(bytes = static_cast<int>(s.i(1, 8)));
                s.note() << " bytes=" << bytes;
                b = true;
        }
        REQUIRE(w.get_channels() == channels && w.get_samplerate() == rate && w.get_bytes_per_sample() == bytes && w.get_bits_per_sample() == bytes * 8, "settings read back as " << w.get_channels() << ", " << w.get_samplerate() << ", " << w.get_bytes_per_sample() << ", " << w.get_bits_per_sample());
        REQUIRE(w.get_byterate() == rate * channels * bytes, "the byte rate is " << w.get_byterate() << " for " << channels << " channels of " << bytes << " bytes at " << rate);
        if (c || b) REQUIRE(w.get_blockalign() == channels * bytes, "the block align is " << w.get_blockalign() << " for " << channels << " channels of " << bytes << " bytes");
    }
    s.nontrivial(c && r && b);
}

PBT_MAIN
