/* Wave files, built and taken apart independently of the library. */
#pragma once
#include <unistd.h>

#include <cstdint>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>

#include "pbt.hpp"

namespace riff {
using Bytes = std::vector<unsigned char>;

inline void put16(Bytes& b, uint32_t v) {
    b.push_back(static_cast<unsigned char>(v & 255));
    b.push_back(static_cast<unsigned char>(v >> 8 & 255));
}
inline void put32(Bytes& b, uint32_t v) {
    put16(b, v & 0xffff);
    put16(b, v >> 16);
}
inline void put(Bytes& b, const std::string& s) { b.insert(b.end(), s.begin(), s.end()); }
inline uint32_t get16(const Bytes& b, size_t p) { return b.at(p) | static_cast<uint32_t>(b.at(p + 1)) << 8; }
inline uint32_t get32(const Bytes& b, size_t p) { return get16(b, p) | get16(b, p + 2) << 16; }
inline std::string id(const Bytes& b, size_t p) {
    std::string s;
    for (size_t i = p; i < p + 4; ++i) s += static_cast<char>(b.at(i));
    return s;
}

/// The value of a 16 bit or 8 bit sample
inline double value16(int k) { return k < 0 ? k / 32768. : k / 32767.; }
inline double value8(int k) { return k / 255. * 2 - 1; }
inline double value(int bits, int k) { return bits == 16 ? value16(k) : value8(k); }

/// A scratch file of this process
inline std::string scratch(const std::string& name) {
    return pbt::workdir() + "/" + std::to_string(getpid()) + "-" + name;
}
struct Scratch {
    std::string path;
    explicit Scratch(const std::string& name) : path(scratch(name)) {}
    ~Scratch() { unlink(path.c_str()); }
    Scratch(const Scratch&) = delete;
    Scratch& operator=(const Scratch&) = delete;
};
inline Bytes load(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    return Bytes(std::istreambuf_iterator<char>(f), {});
}
inline void save(const std::string& path, const Bytes& b) {
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size()));
}
}  // namespace riff
