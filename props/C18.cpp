// C18: rebuffering keeps every sample, in order, exactly once.
// Oracle: the concatenation of the source's blocks, cut into blocks of the
// requested size; constants and repeated buffers by definition.
#include "amp_module.hpp"
#include "maeckit.hpp"
#include "meta_audio.hpp"

namespace {
void setup(SinkModule<>& sink, int n, int channels, double rate) {
    sink.get_chain_info()->buffer_size = n;
    sink.get_chain_info()->channels = channels;
    sink.get_chain_info()->sample_rate = rate;
    sink.meta_info_sync();
    sink.meta_start();
}
}  // namespace

SECTION(uniform, 40000, 800000, "1-4 channels, source blocks of 0-50 frames of equal or different sizes, output blocks of 1-60 frames, which may change between pulls; non-trivial: output blocks that span source blocks") {
    int channels = static_cast<int>(s.i(1, 4));
    double rate = s.pick<double>({44100, 48000});
    bool equal = s.b(), change = s.chance(1, 4);
    int64_t fixed = s.sz(1, 50);
    int n = static_cast<int>(s.sz(1, 60)), pulls = static_cast<int>(s.turns(1, 8));
    s.note() << channels << " channels, " << pulls << " pulls of " << n << " from";
    std::vector<int> sizes;
    int64_t need = 0;
    for (int p = 0; p < pulls; ++p) {
        if (change && p) n = static_cast<int>(s.sz(1, 60));
        sizes.push_back(n);
        need += n;
    }
    kit::Script src;
    kit::Chans stream(static_cast<size_t>(channels));
    std::vector<int64_t> ends;
    while (static_cast<int64_t>(stream[0].size()) < need) {
        int64_t m = equal ? fixed : s.sz(0, 50);
        if (src.blocks.size() > 900) m = need;
        s.note() << " " << m;
        kit::Chans b(static_cast<size_t>(channels));
        for (int c = 0; c < channels; ++c)
            for (int64_t j = 0; j < m; ++j) {
                double v = static_cast<double>(stream[0].size() + static_cast<size_t>(c == 0 ? 0 : 0)) + j + 1000. * c + .5;
                if (c > 0) v = static_cast<double>(stream[static_cast<size_t>(c)].size()) + j + 1000. * c + .5;
                b[static_cast<size_t>(c)].push_back(v);
            }
        for (size_t c = 0; c < b.size(); ++c) stream[c].insert(stream[c].end(), b[c].begin(), b[c].end());
        src.add(b, s.chance(1, 6) ? 22050. : rate);
        ends.push_back(static_cast<int64_t>(stream[0].size()));
    }
    UniformBuffer u;
    SinkModule<> sink;
    sink.link(&u)->link(&src);
    setup(sink, sizes[0], channels, rate);
    size_t at = 0;
    for (int p = 0; p < pulls; ++p) {
        if (p && sizes[static_cast<size_t>(p)] != sizes[static_cast<size_t>(p) - 1]) {
            sink.get_chain_info()->buffer_size = sizes[static_cast<size_t>(p)];
            sink.meta_info_sync();
        }
        sink.meta_process();
        AudioBuffer b = sink.get_buffer();
        size_t want = static_cast<size_t>(sizes[static_cast<size_t>(p)]);
        REQUIRE(b.size() == want * static_cast<size_t>(channels), "pull " << p << " gives " << b.size() << " samples, expected " << want * static_cast<size_t>(channels));
        REQUIRE(static_cast<int>(b.channels()) == channels && b.get_samplerate() == rate, "pull " << p << " has " << b.channels() << " channels at " << b.get_samplerate());
        for (int c = 0; c < channels; ++c)
            for (size_t j = 0; j < want; ++j) {
                double w = stream[static_cast<size_t>(c)][at + j];
                REQUIRE(b.at(c, static_cast<int>(j)) == w, "pull " << p << " sample " << j << " of channel " << c << " is " << b.at(c, static_cast<int>(j)) << ", expected " << w);
            }
        for (auto e : ends) s.nontrivial(e > static_cast<int64_t>(at) && e < static_cast<int64_t>(at + want));
        at += want;
    }
}

SECTION(long_streams, 250, 4000, "streams of up to 300 pulls, or of a few pulls of up to 40000 frames, in 1-8 channels, with source blocks from none to 70000 frames; non-trivial: over 65536 samples or 100 pulls") {
    const bool wide = s.b();
    const int channels = static_cast<int>(wide ? s.i(1, 3) : s.i(1, 8)), pulls = static_cast<int>(wide ? s.i(1, 4) : s.i(20, 300));
    struct Src : SourceModule {
        pbt::Src* s;
        bool wide;
        int channels;
        int64_t at = 0, last = -1;
        void process() override {
            // (some blocks are empty, but not one after the other)
            int64_t n = last > 0 && s->chance(1, 10) ? 0 : wide ? s->i(1, 70000) : s->sz(1, 90);
            last = n;
            AudioBuffer b(static_cast<int>(n), channels, 44100.);
            for (int i = 0; i < n; ++i, ++at)
                for (int c = 0; c < channels; ++c) b.at(c, i) = static_cast<double>(at * 8 + c);
            this->set_buffer(std::move(b));
        }
    } src;
    src.s = &s;
    src.wide = wide;
    src.channels = channels;
    UniformBuffer u;
    SinkModule<> sink;
    sink.link(&u)->link(&src);
    int n = static_cast<int>(wide ? s.i(1, 40000) : s.sz(1, 60));
    setup(sink, n, channels, 44100);
    int64_t at = 0;
    for (int p = 0; p < pulls; ++p) {
        if (p && s.chance(1, 8)) {
            n = static_cast<int>(wide ? s.i(1, 40000) : s.sz(1, 60));
            sink.get_chain_info()->buffer_size = n;
            sink.meta_info_sync();
        }
        sink.meta_process();
        AudioBuffer b = sink.get_buffer();
        REQUIRE(static_cast<int>(b.size()) == n * channels && static_cast<int>(b.channels()) == channels, "pull " << p << " gives " << b.size() << " samples in " << b.channels() << " channels");
        for (int i = 0; i < n; ++i, ++at)
            for (int c = 0; c < channels; ++c)
                if (b.at(c, i) != static_cast<double>(at * 8 + c)) REQUIRE(false, "frame " << at << " of channel " << c << " is " << b.at(c, i) << ", expected " << at * 8 + c);
        REQUIRE(src.at >= at, "the source made " << src.at << " frames of " << at);
    }
    s.note() << channels << " channels, " << pulls << " pulls, " << at << " frames";
    s.nontrivial(at * channels > 65536 || pulls > 100);
}

SECTION(two, 8000, 150000, "two rebuffering modules one after the other keep the stream; non-trivial: different sizes") {
    int channels = static_cast<int>(s.i(1, 3)), a = static_cast<int>(s.sz(1, 30)), b = static_cast<int>(s.sz(1, 30)), pulls = static_cast<int>(s.turns(1, 8));
    class Size : public UniformBuffer {
       public:
        int n = 1;
        void info_sync() override {
            AudioModule<>::info_sync();
            this->get_info()->in_buffer = this->get_info()->out_buffer = n;
        }
    } inner;
    inner.n = a;
    int src_size = static_cast<int>(s.sz(1, 30));
    class Src : public kit::Numbered {
       public:
        int n = 1;
        void info_sync() override {
            AudioModule<>::info_sync();
            this->get_info()->out_buffer = n;
        }
    } src;
    src.n = src_size;
    UniformBuffer outer;
    SinkModule<> sink;
    sink.link(&outer)->link(&inner)->link(&src);
    setup(sink, b, channels, 44100);
    s.note() << channels << " channels from " << src_size << " to " << a << " to " << b;
    s.nontrivial(a != b && src_size != a);
    int at = 0;
    for (int p = 0; p < pulls; ++p) {
        sink.meta_process();
        AudioBuffer x = sink.get_buffer();
        REQUIRE(static_cast<int>(x.size()) == b * channels, "pull " << p << " gives " << x.size() << " samples");
        for (int j = 0; j < b; ++j, ++at)
            for (int c = 0; c < channels; ++c) {
                double w = kit::Numbered::code(0, at / src_size, c, at % src_size);
                REQUIRE(x.at(c, j) == w, "frame " << at << " of channel " << c << " is " << x.at(c, j) << ", expected " << w);
            }
    }
}

SECTION(repeat, 15000, 200000, "a repeating module gives the same buffer whatever the chain did with the copies, through 1-10 pulls, changes of the buffer, of its length, and of the module's buffer; non-trivial: several pulls and a change") {
    auto gen = [&] {
        int channels = static_cast<int>(s.i(1, 4));
        kit::Chans c;
        int64_t n = s.sz(1, 30);
        for (int k = 0; k < channels; ++k) c.push_back(s.vals(n));
        return c;
    };
    std::vector<kit::Chans> content;
    std::vector<AudioBuffer> bufs;
    bufs.reserve(2);
    for (int i = 0; i < 2; ++i) {
        content.push_back(gen());
        bufs.push_back(kit::make(content.back(), 48000));
    }
    int which = 0;
    std::unique_ptr<BufferModule> m;
    if (s.b())
        m = std::make_unique<BufferModule>(&bufs[0]);
    else {
        m = std::make_unique<BufferModule>();
        m->set_rbuffer(&bufs[0]);
    }
    AmplitudeScale<> sc(-1);
    bool scale = s.b();
    if (scale) sc.link(m.get());
    int ops = static_cast<int>(s.turns(1, 10)), pulls = 0, changes = 0;
    const pbt::Swarm swarm(s, 0, 4);
    for (int o = 0; o < ops; ++o) {
        switch (swarm(s)) {
            case 0:
                which = 1 - which;
                m->set_rbuffer(&bufs[static_cast<size_t>(which)]);
                ++changes;
                s.note() << " other buffer";
                break;
            case 1: {
                auto w = static_cast<size_t>(which);
                int c = static_cast<int>(s.i(0, static_cast<int64_t>(content[w].size()) - 1)), j = static_cast<int>(s.i(0, static_cast<int64_t>(content[w][0].size()) - 1));
                content[w][static_cast<size_t>(c)][static_cast<size_t>(j)] = 55;
                bufs[w].at(c, j) = 55;
                ++changes;
                s.note() << " sample changed";
                break;
            }
            default: {
                auto w = static_cast<size_t>(which);
                REQUIRE(m->get_rbuffer() == &bufs[w], "the buffer being repeated is another one");
                BaseModule& end = scale ? static_cast<BaseModule&>(sc) : *m;
                end.meta_process();
                AudioBuffer b = end.get_buffer();
                ++pulls;
                s.note() << " pull";
                REQUIRE(b.channels() == content[w].size() && b.get_samplerate() == 48000, "the copy has " << b.channels() << " channels at " << b.get_samplerate());
                auto g = kit::split(b);
                auto want = content[w];
                if (scale)
                    for (auto& ch : want)
                        for (auto& v : ch) v = -v;
                for (size_t c = 0; c < g.size(); ++c) kit::same(g[c], want[c], "pull " + std::to_string(pulls) + " channel " + std::to_string(c));
                for (size_t i = 0; i < b.size(); ++i) b.at(static_cast<int>(i)) = 1e9;
            }
        }
    }
    s.nontrivial(pulls > 1 && changes > 0);
    for (size_t w = 0; w < 2; ++w) {
        auto g = kit::split(bufs[w]);
        for (size_t c = 0; c < g.size(); ++c) kit::same(g[c], content[w][c], "the original buffer");
    }
}

SECTION(constant_kept, 8000, 100000, "a constant module used on its own, whose blocks are taken, changed or left where they are, through changes of size, channels and value; non-trivial: a block left where it was and a change of size") {
    double v = s.val();
    ConstModule m(v);
    int pulls = static_cast<int>(s.turns(2, 6)), size = 0, channels = 1;
    bool left = false;
    for (int p = 0; p < pulls; ++p) {
        if (p == 0 || s.b()) {
            const int old = size * channels;
            size = static_cast<int>(s.chance(1, 500) ? s.i(1, 70000) : s.sz(0, 30));
            channels = static_cast<int>(s.i(1, 3));
            m.get_info()->out_buffer = size;
            m.get_info()->channels = channels;
            s.nontrivial(left && size * channels > old);
        }
        if (s.chance(1, 3)) {
            v = s.val();
            m.set_value(v);
        }
        s.note() << v << " " << size << "x" << channels << " ";
        if (s.b()) m.meta_process();
        else m.process();
        auto view = [&](AudioBuffer& b) {
            REQUIRE(static_cast<int>(b.size()) == size * channels && static_cast<int>(b.channels()) == channels, "block of " << b.size() << " in " << b.channels());
            for (size_t i = 0; i < b.size(); ++i) REQUIRE(b.at(static_cast<int>(i)) == v, "sample " << i << " is " << b.at(static_cast<int>(i)) << ", expected " << v);
        };
        int how = static_cast<int>(s.i(0, 2));
        left = how != 0;
        if (how == 0) {
            AudioBuffer b = m.get_buffer();
            view(b);
        } else {
            AudioBuffer&& b = m.get_buffer();  // (stays in the module)
            view(b);
            if (how == 2 && b.size() > 0) b.at(static_cast<int>(s.i(0, static_cast<int64_t>(b.size()) - 1))) = 1e9;
        }
    }
}

SECTION(constant, 8000, 100000, "a constant module fills every sample of every block, through changes of value and of format; non-trivial: several pulls") {
    double v = s.val();
    std::unique_ptr<ConstModule> m = s.b() ? std::make_unique<ConstModule>(v) : std::make_unique<ConstModule>();
    m->set_value(v);
    SinkModule<> sink;
    sink.link(m.get());
    int pulls = static_cast<int>(s.turns(1, 6));
    s.nontrivial(pulls > 1);
    for (int p = 0; p < pulls; ++p) {
        int n = static_cast<int>(s.chance(1, 500) ? s.i(1, 70000) : s.sz(1, 50)), channels = static_cast<int>(s.i(1, 4));
        setup(sink, n, channels, 8000);
        if (s.b()) {
            v = s.val();
            m->set_value(v);
        }
        s.note() << v << " " << n << "x" << channels << " ";
        REQUIRE(m->get_value() == v, "value reads back as " << m->get_value());
        sink.meta_process();
        AudioBuffer b = sink.get_buffer();
        REQUIRE(static_cast<int>(b.size()) == n * channels && static_cast<int>(b.channels()) == channels && b.get_samplerate() == 8000, "block of " << b.size() << " in " << b.channels());
        for (size_t i = 0; i < b.size(); ++i) {
            REQUIRE(b.at(static_cast<int>(i)) == v, "sample " << i << " is " << b.at(static_cast<int>(i)));
            b.at(static_cast<int>(i)) = 1e9;
        }
    }
}

PBT_MAIN
