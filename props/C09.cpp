// C09: filtering a stream block by block equals filtering the whole stream.
// Oracle: the convolution of the complete stream of each channel.
#include "dspref.hpp"
#include "filter_module.hpp"
#include "maeckit.hpp"

namespace {

struct Case {
    int channels = 1;
    double rate = 44100;
    kit::Chans stream;
    std::vector<int64_t> sizes;
    std::vector<double> kernel;
};

kit::Chans gen_stream(pbt::Src& s, int channels, int64_t total) {
    kit::Chans st;
    for (int c = 0; c < channels; ++c) {
        if (s.chance(1, 3) && total > 0) {
            std::vector<double> v(static_cast<size_t>(total), 0.);
            v[static_cast<size_t>(s.i(0, total - 1))] = c + 1.;
            st.push_back(v);
        } else
            st.push_back(s.vals(total));
    }
    return st;
}

Case gen(pbt::Src& s, int maxblocks, int maxblock, int maxkernel) {
    Case c;
    c.channels = static_cast<int>(s.i(1, 4));
    c.rate = s.pick<double>({44100, 48000, 8000, 1});
    int64_t total = 0;
    int64_t nb = s.i(1, maxblocks);
    bool fixed = s.b();
    int64_t size = s.sz(1, maxblock);
    for (int64_t i = 0; i < nb; ++i) {
        int64_t n = fixed ? size : s.sz(0, maxblock);
        c.sizes.push_back(n);
        total += n;
    }
    c.stream = gen_stream(s, c.channels, total);
    c.kernel = s.vals(s.sz(1, maxkernel));
    s.note() << c.channels << " channels, blocks " << pbt::show(c.sizes) << " kernel " << pbt::show(c.kernel);
    int64_t least = *std::min_element(c.sizes.begin(), c.sizes.end());
    if (least < static_cast<int64_t>(c.kernel.size())) s.label("block shorter than the kernel");
    s.nontrivial(nb > 1 && c.kernel.size() > 1);
    return c;
}

double scale_of(const Case& c) {
    double m = 1;
    for (auto& ch : c.stream)
        for (double v : ch) m = std::max(m, std::fabs(v));
    return m * std::max(1., ref::mag(c.kernel));
}

kit::Chans expected(const kit::Chans& in, const std::vector<double>& kernel) {
    kit::Chans out;
    for (auto& ch : in) {
        auto y = ref::conv(ch, kernel);
        y.resize(ch.size());
        out.push_back(y);
    }
    return out;
}

template <typename P>
void drive(P&& pull, const Case& c, const kit::Chans& want, double scale, const std::string& what) {
    size_t p = 0;
    for (size_t k = 0; k < c.sizes.size(); ++k) {
        AudioBuffer b = pull();
        REQUIRE(static_cast<int>(b.channels()) == c.channels, what << ": block " << k << " has " << b.channels() << " channels");
        REQUIRE(b.get_samplerate() == c.rate, what << ": block " << k << " has sample rate " << b.get_samplerate());
        REQUIRE(static_cast<int64_t>(b.size()) == c.sizes[k] * c.channels, what << ": block " << k << " has " << b.size() << " samples");
        auto got = kit::split(b);
        for (size_t ch = 0; ch < got.size(); ++ch)
            for (size_t i = 0; i < got[ch].size(); ++i)
                REQUIRE(pbt::near(got[ch][i], want[ch][p + i], 1e-12, scale),
                        what << ": channel " << ch << " sample " << i << " of block " << k << " is " << got[ch][i] << ", expected " << want[ch][p + i]);
        p += static_cast<size_t>(c.sizes[k]);
    }
}

}  // namespace

SECTION(stream, 30000, 600000, "1-4 channels, 1-8 blocks of 0-40 samples (equal or different), kernel of 1-60 samples, dynamic or static chain; non-trivial: several blocks and a kernel over one sample") {
    Case c = gen(s, 8, 40, 60);
    bool fixed = s.b();
    auto want = expected(c.stream, c.kernel);
    auto fill = [&](kit::Script& src) {
        for (auto& b : kit::cut(c.stream, c.sizes)) src.add(b, c.rate);
    };
    if (!fixed) {
        kit::Script src;
        fill(src);
        BaseConvFilter<> f;
        SinkModule<> sink;
        sink.link(&f)->link(&src);
        sink.meta_info_sync();
        f.set_kernel(std::make_unique<AudioBuffer>(c.kernel));
        sink.meta_start();
        drive([&] { sink.meta_process(); return AudioBuffer(sink.get_buffer()); }, c, want, scale_of(c), "dynamic chain");
        sink.meta_stop();
    } else {
        s.label("static chain");
        BaseConvFilter<void, kit::Script> f;
        fill(f.backward());
        f.set_kernel(std::make_unique<AudioBuffer>(c.kernel));
        f.meta_start();
        drive([&] { f.meta_process(); return AudioBuffer(f.get_buffer()); }, c, want, scale_of(c), "static chain");
        f.meta_stop();
    }
}

SECTION(cascade, 8000, 150000, "two filters one after the other equal one filter with the convolution of their kernels; non-trivial: several blocks and both kernels over one sample") {
    Case c = gen(s, 6, 24, 16);
    auto second = s.vals(s.sz(1, 16));
    s.note() << " second kernel " << pbt::show(second);
    auto want = expected(expected(c.stream, c.kernel), second);
    kit::Script src;
    for (auto& b : kit::cut(c.stream, c.sizes)) src.add(b, c.rate);
    BaseConvFilter<> f, g;
    SinkModule<> sink;
    sink.link(&g)->link(&f)->link(&src);
    sink.meta_info_sync();
    f.set_kernel(std::make_unique<AudioBuffer>(c.kernel));
    g.set_kernel(std::make_unique<AudioBuffer>(second));
    sink.meta_start();
    drive([&] { sink.meta_process(); return AudioBuffer(sink.get_buffer()); }, c, want, scale_of(c) * std::max(1., ref::mag(second)), "cascade");
}

SECTION(restart, 10000, 200000, "a filter stopped after some blocks and started again filters the next stream (also of another channel count) as if it was new; non-trivial: the first stream left a tail") {
    Case a = gen(s, 4, 20, 30);
    Case b = gen(s, 4, 20, 30);
    bool keep = s.b();
    if (keep) b.kernel = a.kernel;
    s.note() << (keep ? " same kernel" : " new kernel");
    kit::Script src;
    for (auto& k : kit::cut(a.stream, a.sizes)) src.add(k, a.rate);
    for (auto& k : kit::cut(b.stream, b.sizes)) src.add(k, b.rate);
    BaseConvFilter<> f;
    SinkModule<> sink;
    sink.link(&f)->link(&src);
    sink.meta_info_sync();
    f.set_kernel(std::make_unique<AudioBuffer>(a.kernel));
    auto pull = [&] {
        sink.meta_process();
        return AudioBuffer(sink.get_buffer());
    };
    sink.meta_start();
    drive(pull, a, expected(a.stream, a.kernel), scale_of(a), "first stream");
    sink.meta_stop();
    if (!keep) f.set_kernel(std::make_unique<AudioBuffer>(b.kernel));
    sink.meta_start();
    drive(pull, b, expected(b.stream, b.kernel), scale_of(b), "second stream");
}

SECTION(partition, 8000, 150000, "the same stream cut in two ways gives the same samples; non-trivial: the cuts differ") {
    Case c = gen(s, 8, 24, 40);
    int64_t total = 0;
    for (auto n : c.sizes) total += n;
    std::vector<int64_t> other;
    for (int64_t left = total; left > 0;) {
        int64_t n = s.i(1, left);
        other.push_back(n);
        left -= n;
    }
    s.note() << " other cut " << pbt::show(other);
    s.nt = other != c.sizes && c.kernel.size() > 1;
    auto run = [&](const std::vector<int64_t>& sizes) {
        kit::Script src;
        for (auto& b : kit::cut(c.stream, sizes)) src.add(b, c.rate);
        BaseConvFilter<> f;
        f.link(&src);
        f.set_kernel(std::make_unique<AudioBuffer>(c.kernel));
        f.meta_start();
        kit::Chans out(static_cast<size_t>(c.channels));
        for (size_t k = 0; k < sizes.size(); ++k) {
            f.meta_process();
            AudioBuffer b = f.get_buffer();
            auto g = kit::split(b);
            REQUIRE(g.size() == out.size(), "channels");
            for (size_t ch = 0; ch < g.size(); ++ch) out[ch].insert(out[ch].end(), g[ch].begin(), g[ch].end());
        }
        return out;
    };
    auto x = run(c.sizes), y = run(other);
    for (size_t ch = 0; ch < x.size(); ++ch) kit::same(x[ch], y[ch], "channel " + std::to_string(ch), 1e-12, scale_of(c));
}

SECTION(large, 60, 1500, "1-12 channels, streams of 100-400 small blocks or 2-4 blocks of up to 12000 samples, sparse kernels of up to 3000 samples; the kernel is handed back as it was; non-trivial: several blocks and a kernel over one sample") {
    Case c;
    c.channels = static_cast<int>(s.i(1, 12));
    c.rate = s.pick<double>({44100, 96000.5});
    int64_t total = 0;
    if (s.b()) {
        int64_t nb = s.i(100, 400), size = s.i(1, 30);
        for (int64_t i = 0; i < nb; ++i) c.sizes.push_back(s.chance(1, 8) ? s.i(0, 60) : size);
    } else
        for (int64_t nb = s.i(2, 4), i = 0; i < nb; ++i) c.sizes.push_back(s.i(1000, 12000));
    for (auto n : c.sizes) total += n;
    if (total * c.channels > 40000) c.channels = 1;
    for (int ch = 0; ch < c.channels; ++ch) c.stream.push_back(s.vals(total));
    c.kernel.assign(static_cast<size_t>(s.chance(1, 2) ? s.i(2, 80) : s.i(80, total > 20000 ? 300 : 3000)), 0.);
    std::vector<size_t> taps{c.kernel.size() - 1};
    for (int64_t i = s.i(0, 5); i > 0; --i) taps.push_back(static_cast<size_t>(s.i(0, static_cast<int64_t>(c.kernel.size()) - 1)));
    for (size_t t : taps) c.kernel[t] = s.i(1, 9);
    s.note() << c.channels << " channels, " << c.sizes.size() << " blocks, " << total << " samples, kernel of " << c.kernel.size();
    s.nontrivial(true);
    kit::Chans want;
    for (auto& ch : c.stream) {
        std::vector<double> y(ch.size(), 0.);
        for (size_t t = 0; t < c.kernel.size(); ++t)
            if (c.kernel[t] != 0)
                for (size_t i = t; i < y.size(); ++i) y[i] += c.kernel[t] * ch[i - t];
        want.push_back(y);
    }
    kit::Script src;
    for (auto& b : kit::cut(c.stream, c.sizes)) src.add(b, c.rate);
    BaseConvFilter<> f;
    SinkModule<> sink;
    sink.link(&f)->link(&src);
    sink.meta_info_sync();
    f.set_kernel(std::make_unique<AudioBuffer>(c.kernel));
    sink.meta_start();
    drive([&] { sink.meta_process(); return AudioBuffer(sink.get_buffer()); }, c, want, scale_of(c), "long stream");
    sink.meta_stop();
    auto k = f.get_kernel();
    REQUIRE(k && std::vector<double>(k->ibegin(), k->iend()) == c.kernel, "the kernel is not handed back as it was set");
}

PBT_MAIN
