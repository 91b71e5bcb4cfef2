/* Writing and reading waves with the library, in memory and in files. */
#pragma once
#include <memory>

#include "io/wav.hpp"
#include "maeckit.hpp"
#include "riff.hpp"

namespace wavio {

struct Format {
    int channels, rate, bits;
    int tag = 1;  // kind of format
};

inline int tag(pbt::Src& s) { return static_cast<int>(s.chance(3, 4) ? 1 : s.b() ? 0xfffe : s.i(0, 0xffff)); }

inline void configure(BaseWave& w, const Format& f, pbt::Src& s) {
    // (in any order)
    if (w.get_format() != f.tag || s.chance(1, 4)) w.set_format(f.tag);
    int order = static_cast<int>(s.i(0, 5));
    const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int k : perm[order]) switch (k) {
            case 0: w.set_channels(f.channels); break;
            case 1: w.set_samplerate(f.rate); break;
            default:
                if (s.b()) w.set_bits_per_sample(f.bits);
                else w.set_bytes_per_sample(f.bits / 8);
        }
}

/// Writes blocks of frames (interleaved values) and returns the bytes
inline riff::Bytes write(pbt::Src& s, const Format& f, const std::vector<std::vector<double>>& blocks, bool file) {
    auto all = [&](BaseMOStream& out) {
        std::unique_ptr<WaveWriter> w;
        if (s.b()) w = std::make_unique<WaveWriter>(&out);
        else {
            w = std::make_unique<WaveWriter>();
            w->set_stream(&out);
        }
        REQUIRE(w->get_stream() == &out, "the stream does not read back");
        configure(*w, f, s);
        w->start();
        for (auto& b : blocks) {
            auto buf = std::make_unique<AudioBuffer>(static_cast<int>(b.size()) / f.channels, f.channels);
            buf->set_samplerate(f.rate);
            for (size_t i = 0; i < b.size(); ++i) buf->at(static_cast<int>(i)) = b[i];
            w->write_data(std::move(buf));
        }
        w->stop();
        REQUIRE(out.bad() && out.get_state() == BaseMOStream::stopped, "the stream is not stopped after the writer");
    };
    if (!file) {
        CharOStream out;
        all(out);
        return out.get_array();
    }
    riff::Scratch tmp("out.wav");
    if (s.b()) riff::save(tmp.path, riff::Bytes(300, 0xee));  // (a file that is replaced)
    FOStream out;
    out.set_path(tmp.path);
    all(out);
    return riff::load(tmp.path);
}

}  // namespace wavio
