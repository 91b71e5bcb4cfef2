// C29: byte streams read and write exactly the bytes at their position.
// Oracle: a vector of bytes and a position.
#include "io/mstream.hpp"
#include "riff.hpp"

namespace {

riff::Bytes bytes(pbt::Src& s, int64_t n) {
    riff::Bytes b(static_cast<size_t>(n));
    for (auto& x : b) x = static_cast<unsigned char>(s.i(0, 255));
    return b;
}

/// Reads and seeks until the data runs out
void reads(pbt::Src& s, BaseMIStream& in, const riff::Bytes& data) {
    REQUIRE(in.good() && !in.bad() && in.get_state() == BaseMIStream::init, "a new stream is in state " << in.get_state());
    REQUIRE(in.is_input() && !in.is_output(), "an input stream does not say so");
    in.start();
    REQUIRE(in.good() && in.get_state() == BaseMIStream::started, "a started stream is in state " << in.get_state());
    size_t pos = 0;
    const int ops = static_cast<int>(s.turns(1, 12)), every = s.chance(1, 4) ? 60 : 3;
    int good = 0, seeks = 0;
    bool end = false;
    for (int k = 0; k < ops && !end; ++k) {
        if (s.chance(1, every)) {
            pos = static_cast<size_t>(s.chance(1, 6) ? s.sz(0, static_cast<int64_t>(data.size()) + 20) : s.sz(0, static_cast<int64_t>(data.size())));
            in.seek(static_cast<int>(pos));
            s.note() << " seek " << pos;
            ++seeks;
            continue;
        }
        const size_t left = pos < data.size() ? data.size() - pos : 0;
        const size_t n = static_cast<size_t>(s.chance(1, 4) ? static_cast<int64_t>(left) : s.sz(0, 30));
        s.note() << " read " << n;
        std::vector<char> got(n + 2, 'u');
        in.read(got.data() + 1, static_cast<int>(n));
        const size_t have = std::min(n, left);
        for (size_t i = 0; i < have; ++i) REQUIRE(static_cast<unsigned char>(got[i + 1]) == data[pos + i], "byte " << pos + i << " is read as " << +static_cast<unsigned char>(got[i + 1]) << " instead of " << +data[pos + i]);
        for (size_t i = have; i < n; ++i) REQUIRE(got[i + 1] == 'u' || got[i + 1] == 0, "byte " << +static_cast<unsigned char>(got[i + 1]) << " is read past the end, at " << pos + i << " of " << data.size());
        REQUIRE(got.front() == 'u' && got.back() == 'u', "bytes around the target were written");
        pos += have;
        end = have < n;
        if (end) REQUIRE(in.bad() && !in.good() && in.get_state() == BaseMIStream::stopped, "reading " << n << " bytes of " << left << " leaves the stream in state " << in.get_state());
        else {
            REQUIRE(in.good() && in.get_state() == BaseMIStream::started, "reading " << n << " bytes of " << left << " leaves the stream in state " << in.get_state());
            ++good;
        }
    }
    s.label(end ? "ran out" : "stopped");
    if (!end) {
        in.stop();
        REQUIRE(in.bad() && in.get_state() == BaseMIStream::stopped, "a stopped stream is in state " << in.get_state());
    }
    s.nontrivial(good > 1 && seeks > 0);
}

/// Writes and seeks, as a model does
void writes(pbt::Src& s, BaseMOStream& out, riff::Bytes& model, const std::function<void()>& check) {
    REQUIRE(out.good() && out.get_state() == BaseMOStream::init, "a new stream is in state " << out.get_state());
    REQUIRE(!out.is_input() && out.is_output(), "an output stream does not say so");
    out.start();
    REQUIRE(out.good() && out.get_state() == BaseMOStream::started, "a started stream is in state " << out.get_state());
    size_t pos = 0;
    const int ops = static_cast<int>(s.turns(1, 12)), every = s.chance(1, 4) ? 60 : 3;
    bool over = false, gap = false, seek = false;
    for (int k = 0; k < ops; ++k) {
        if (s.chance(1, every)) {
            pos = static_cast<size_t>(s.b() ? s.sz(0, static_cast<int64_t>(model.size())) : s.sz(0, static_cast<int64_t>(model.size()) + 10));
            out.seek(static_cast<int>(pos));
            s.note() << " seek " << pos;
            seek = true;
        } else {
            auto b = bytes(s, s.sz(s.chance(1, 5) ? 0 : 1, 30));
            s.note() << " write " << b.size();
            out.write(reinterpret_cast<char*>(b.data()), static_cast<int>(b.size()));
            over = over || pos < model.size();
            if (!b.empty() && pos > model.size()) {
                gap = true;
                model.resize(pos, 0);
            }
            if (pos + b.size() > model.size() && !b.empty()) model.resize(pos + b.size());
            std::copy(b.begin(), b.end(), model.begin() + static_cast<std::ptrdiff_t>(std::min(pos, model.size())));
            pos += b.size();
            check();
        }
        REQUIRE(out.good() && out.get_state() == BaseMOStream::started, "the stream is in state " << out.get_state());
    }
    if (over) s.label("overwritten");
    if (gap) s.label("gap");
    out.stop();
    REQUIRE(out.bad() && out.get_state() == BaseMOStream::stopped, "a stopped stream is in state " << out.get_state());
    s.nontrivial(over && seek);
}

}  // namespace

SECTION(read_memory, 40000, 700000, "histories of reads and seeks on a memory stream, until it runs out or is stopped; non-trivial: two good reads and a seek") {
    auto data = bytes(s, s.sz(0, 60));
    s.note() << data.size() << " bytes:";
    CharIStream in;
    CharIStream sized(static_cast<int>(data.size()));
    REQUIRE(sized.get_array().size() == data.size(), "a stream of " << data.size() << " bytes has " << sized.get_array().size());
    if (s.b()) {
        in.get_array() = data;
        reads(s, in, data);
    } else {
        std::copy(data.begin(), data.end(), sized.get_array().begin());
        reads(s, sized, data);
    }
}

SECTION(read_file, 3000, 40000, "histories of reads and seeks on a file stream; non-trivial: two good reads and a seek") {
    auto data = bytes(s, s.sz(0, 60));
    s.note() << data.size() << " bytes:";
    riff::Scratch tmp("in.bin");
    riff::save(tmp.path, data);
    FIStream in;
    in.set_path(tmp.path);
    REQUIRE(in.get_path() == tmp.path, "the path is " << in.get_path());
    reads(s, in, data);
    REQUIRE(riff::load(tmp.path) == data, "the file was changed by reading");
}

SECTION(write_memory, 40000, 700000, "histories of writes and seeks (also past the end) on a memory stream, its bytes compared after every write; non-trivial: something overwritten after a seek") {
    CharOStream out;
    riff::Bytes model;
    if (s.chance(1, 4)) {
        // (a stream over an array that is there)
        model = bytes(s, s.sz(0, 20));
        out.get_array() = model;
    }
    s.note() << model.size() << " bytes:";
    writes(s, out, model, [&] {
        const auto& a = out.get_array();
        // (a write of nothing past the end may or may not fill the gap)
        REQUIRE(a.size() >= model.size() && std::equal(model.begin(), model.end(), a.begin()), "the bytes are " << pbt::show(a) << ", expected " << pbt::show(model));
        for (size_t i = model.size(); i < a.size(); ++i) REQUIRE(a[i] == 0, "byte " << i << " in a gap is " << +a[i]);
        model.resize(a.size());
    });
    REQUIRE(out.get_array() == model, "the bytes are " << pbt::show(out.get_array()) << ", expected " << pbt::show(model));
}

SECTION(write_file, 3000, 40000, "histories of writes and seeks on a file stream, over nothing or a file that is replaced; non-trivial: something overwritten after a seek") {
    riff::Scratch tmp("out.bin");
    if (s.b()) riff::save(tmp.path, bytes(s, s.sz(0, 60)));
    FOStream out;
    out.set_path(tmp.path);
    riff::Bytes model;
    writes(s, out, model, [] {});
    REQUIRE(riff::load(tmp.path) == model, "the file is " << pbt::show(riff::load(tmp.path)) << ", expected " << pbt::show(model));
}

SECTION(missing, 1000, 5000, "files that are not there or can't be written: the stream is in its error state and bad; non-trivial: always") {
    const std::string dir = riff::scratch("none");
    s.nontrivial();
    s.note() << "stream of " << dir;
    if (s.b()) {
        FIStream in;
        in.set_path(s.b() ? dir + "/x" : dir);
        BaseMIStream& i = in;
        i.start();
        REQUIRE(i.bad() && i.get_state() == BaseMIStream::err, "a stream of a missing file is in state " << i.get_state());
    } else {
        FOStream out;
        out.set_path(s.b() ? dir + "/x" : pbt::workdir());
        BaseMOStream& o = out;
        o.start();
        REQUIRE(o.bad() && o.get_state() == BaseMOStream::err, "a stream of a file that can't be written is in state " << o.get_state());
    }
}

SECTION(large, 120, 2500, "20000-400000 (at times up to 9 million) bytes written to and read from a memory or file stream in pieces of up to 70000 bytes with seeks, every byte compared; non-trivial: over 65536 bytes") {
    const int64_t total = s.chance(1, 15) ? s.i(400000, 9000000) : s.i(20000, 400000);
    s.nontrivial(total > 65536);
    s.note() << total << " bytes";
    riff::Bytes data(static_cast<size_t>(total));
    uint64_t st = static_cast<uint64_t>(s.i(1, 1000000));
    for (auto& b : data) {
        st = st * 6364136223846793005ULL + 1442695040888963407ULL;
        b = static_cast<unsigned char>(st >> 40);
    }
    riff::Scratch tmp("large.bin");
    const bool file = s.b();
    CharOStream mo;
    FOStream fo;
    fo.set_path(tmp.path);
    BaseMOStream& out = file ? static_cast<BaseMOStream&>(fo) : mo;
    out.start();
    riff::Bytes model = data;
    int64_t pos = 0;
    while (pos < total) {
        int64_t n = std::min(total - pos, s.chance(1, 3) ? s.i(1, total > 400000 ? 3000000 : 70000) : s.i(1, 9000));
        out.write(reinterpret_cast<char*>(data.data()) + pos, static_cast<int>(n));
        pos += n;
        REQUIRE(out.good(), "writing stops at " << pos);
        if (s.chance(1, 5)) {
            // (something from the start again, anywhere before)
            int64_t at = s.i(0, pos - 1), m = std::min(s.i(1, 20000), total - at);
            out.seek(static_cast<int>(at));
            out.write(reinterpret_cast<char*>(data.data()), static_cast<int>(m));
            std::copy_n(data.begin(), m, model.begin() + at);
            pos = std::max(pos, at + m);
            out.seek(static_cast<int>(pos));
        }
    }
    out.stop();
    riff::Bytes got = file ? riff::load(tmp.path) : riff::Bytes(mo.get_array());
    REQUIRE(got.size() == model.size(), got.size() << " bytes were written, expected " << model.size());
    for (size_t i = 0; i < got.size(); ++i) REQUIRE(got[i] == model[i], "byte " << i << " was written as " << +got[i] << ", expected " << +model[i]);
    CharIStream mi;
    FIStream fi;
    fi.set_path(tmp.path);
    mi.get_array() = model;
    BaseMIStream& in = file ? static_cast<BaseMIStream&>(fi) : mi;
    const int rounds = file ? 2 : 1;
    for (int round = 0; round < rounds; ++round) {
        // (a file stream that was stopped starts from the front again)
        in.start();
        REQUIRE(in.good(), "the stream can't be started, round " << round);
        pos = 0;
        std::vector<char> buf;
        const int64_t count = s.i(3, 20);
        for (int64_t k = 0; k < count && pos < total; ++k) {
            if (s.chance(1, 3)) in.seek(static_cast<int>(pos = s.i(0, total - 1)));
            int64_t n = std::min(total - pos, s.chance(1, 3) ? s.i(1, total > 400000 ? 9000000 : 70000) : s.i(1, 9000));
            buf.assign(static_cast<size_t>(n), 0);
            in.read(buf.data(), static_cast<int>(n));
            for (int64_t i = 0; i < n; ++i) REQUIRE(static_cast<unsigned char>(buf[static_cast<size_t>(i)]) == model[static_cast<size_t>(pos + i)], "byte " << pos + i << " is read as " << +static_cast<unsigned char>(buf[static_cast<size_t>(i)]));
            REQUIRE(in.good(), "reading stops at " << pos + n << " of " << total);
            pos += n;
        }
        if (file && s.b()) {
            // to the end and over it
            in.seek(static_cast<int>(total - 5));
            char rest[10];
            in.read(rest, 10);
            REQUIRE(in.bad() && in.get_state() == BaseMIStream::stopped, "reading past the end leaves the stream in state " << in.get_state());
        } else
            in.stop();
    }
}

SECTION(full, 300, 2000, "writing to a device that is full: the stream stops at the latest when its buffer has to be written out, and takes more writes without harm; non-trivial: always") {
    FOStream out;
    out.set_path("/dev/full");
    BaseMOStream& o = out;
    o.start();
    REQUIRE(o.good(), "the full device can't be opened");
    s.nontrivial();
    const int64_t n = s.i(1, 4000);
    s.note() << "pieces of " << n;
    std::vector<char> b(static_cast<size_t>(n), 'x');
    int64_t sum = 0;
    while (o.good() && sum < 3000000) {
        o.write(b.data(), static_cast<int>(n));
        sum += n;
    }
    REQUIRE(o.bad() && o.get_state() == BaseMOStream::stopped, "after " << sum << " bytes the stream is in state " << o.get_state());
    o.write(b.data(), static_cast<int>(n));
    REQUIRE(o.bad(), "the stream is good again");
}

PBT_MAIN
