/* Modules used by the checks to drive and observe chains. */
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "audio_buffer.hpp"
#include "audio_module.hpp"
#include "pbt.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"

namespace kit {

/// Channels of a stream
using Chans = std::vector<std::vector<double>>;

inline AudioBuffer make(const Chans& c, double rate = 44100) {
    const int n = c.empty() ? 0 : static_cast<int>(c[0].size());
    AudioBuffer b(n, static_cast<int>(c.size()), rate);
    for (size_t k = 0; k < c.size(); ++k)
        for (int i = 0; i < n; ++i) b.at(static_cast<int>(k), i) = c[k][static_cast<size_t>(i)];
    return b;
}

/// The samples of every channel
inline Chans split(AudioBuffer& b) {
    Chans c(static_cast<size_t>(b.channels()));
    const size_t n = b.channel_capacity();
    for (size_t k = 0; k < c.size(); ++k)
        for (size_t i = 0; i < n; ++i) c[k].push_back(b.at(static_cast<int>(k), static_cast<int>(i)));
    return c;
}

inline std::vector<double> flat(AudioBuffer& b) {
    std::vector<double> v;
    for (size_t i = 0; i < b.size(); ++i) v.push_back(b.at(static_cast<int>(i)));
    return v;
}

/// Emits prepared blocks, one per process
class Script : public SourceModule {
   public:
    std::vector<AudioBuffer> blocks;
    size_t next = 0;
    void process() override {
        if (next >= blocks.size()) throw pbt::Failure{"source asked for too many blocks"};
        this->set_buffer(AudioBuffer(blocks[next++]));
    }
    void add(const Chans& c, double rate = 44100) { blocks.push_back(make(c, rate)); }
};

/// Emits numbered buffers of the size its info asks for: sample j of channel c
/// of the n-th buffer is code(n, c, j)
class Numbered : public SourceModule {
   public:
    int made = 0;
    double id = 0;
    static double code(double id, int n, int c, int j) { return id * 1e6 + n * 1000. + c * 100. + j * 0.25 + 1; }
    void process() override {
        this->reserve();
        const size_t n = this->buff.channel_capacity();
        for (size_t c = 0; c < static_cast<size_t>(this->buff.channels()); ++c)
            for (size_t j = 0; j < n; ++j) this->buff.at(static_cast<int>(c), static_cast<int>(j)) = code(id, made, static_cast<int>(c), static_cast<int>(j));
        ++made;
    }
};

/// Cuts a stream into blocks
inline std::vector<Chans> cut(const Chans& c, const std::vector<int64_t>& sizes) {
    std::vector<Chans> out;
    size_t p = 0;
    for (auto n : sizes) {
        Chans b;
        for (auto& ch : c) b.emplace_back(ch.begin() + static_cast<std::ptrdiff_t>(p), ch.begin() + static_cast<std::ptrdiff_t>(p) + n);
        p += static_cast<size_t>(n);
        out.push_back(b);
    }
    return out;
}

inline void same(const std::vector<double>& got, const std::vector<double>& want, const std::string& what, double tol = 0, double scale = 1) {
    REQUIRE(got.size() == want.size(), what << ": " << got.size() << " samples, expected " << want.size());
    for (size_t i = 0; i < want.size(); ++i)
        REQUIRE(tol == 0 ? got[i] == want[i] : pbt::near(got[i], want[i], tol, scale),
                what << ": sample " << i << " is " << got[i] << ", expected " << want[i]);
}

}  // namespace kit
