// C30: amplitude modules change every sample by exactly their value.
// Oracle: multiplication and addition on each sample of the prepared blocks.
#include "amp_module.hpp"
#include "maeckit.hpp"

SECTION(chain, 30000, 500000, "1-8 scaling and adding modules in a row over 1-12 blocks of 1-12 (at times up to 70) channels whose sizes (up to 5000, rarely 40000 frames), channels and rates change; values (also 0, 1, negative, large) changed between blocks; non-trivial: both kinds, several channels and a value that changed") {
    struct Stage {
        bool add;
        double v;
        std::unique_ptr<AmplitudeScale<>> scale;
        std::unique_ptr<AmplitudeAdd<>> sum;
        void set(double x) {
            v = x;
            if (add) sum->set_value(x);
            else scale->set_value(x);
        }
        double get() const { return add ? sum->get_value() : scale->get_value(); }
        BaseModule* mod() const { return add ? static_cast<BaseModule*>(sum.get()) : scale.get(); }
    };
    auto value = [&] { return s.b() ? s.val() : s.pick<double>({0, 1, -1, .5, 2, 1e6, 1e-6, -1e-9, 1e-30, 1 + 1e-9, -1 - 1e-12}); };
    kit::Script src;
    SinkModule<> sink;
    std::vector<Stage> st(static_cast<size_t>(s.i(1, s.chance(1, 5) ? 8 : 4)));
    bool adds = false, scales = false, changed = false;
    for (auto& x : st) {
        x.add = s.b();
        (x.add ? adds : scales) = true;
        const bool by_ctor = s.b();
        x.v = by_ctor ? value() : 1;
        if (x.add) x.sum = by_ctor ? std::make_unique<AmplitudeAdd<>>(x.v) : std::make_unique<AmplitudeAdd<>>();
        else x.scale = by_ctor ? std::make_unique<AmplitudeScale<>>(x.v) : std::make_unique<AmplitudeScale<>>();
        if (s.b()) x.set(value());
        s.note() << (x.add ? "+" : "*") << x.v << " ";
    }
    // (linked from the sink to the source)
    for (size_t i = 0; i < st.size(); ++i) {
        auto link = [&](BaseModule* m) {
            if (i == 0) sink.link(m);
            else if (st[i - 1].add) st[i - 1].sum->link(m);
            else st[i - 1].scale->link(m);
        };
        link(st[i].mod());
    }
    if (st.back().add) st.back().sum->link(&src);
    else st.back().scale->link(&src);
    const int blocks = static_cast<int>(s.turns(1, s.chance(1, 5) ? 12 : 5));
    int channels = static_cast<int>(s.chance(1, 60) ? s.i(13, 70) : s.i(1, s.chance(1, 6) ? 12 : 5)), most = channels;
    double rate = s.pick<double>({44100, 48000, 8000});
    for (int b = 0; b < blocks; ++b) {
        const auto n = s.chance(1, 150) ? s.i(500, s.chance(1, 6) ? 40000 : 5000) : s.sz(1, 30);
        if (b && s.chance(1, 6)) {
            channels = static_cast<int>(s.i(1, 6));
            most = std::max(most, channels);
            rate = s.pick<double>({44100, 48000, 8000, 11025.5});
        }
        kit::Chans c;
        for (int k = 0; k < channels; ++k) {
            if (n <= 30) c.push_back(s.vals(n));
            else {
                const double step = s.unit(-1, 1);
                c.emplace_back();
                for (int j = 0; j < n; ++j) c.back().push_back(j * step);
            }
        }
        src.add(c, rate);
        s.note() << " " << n << "x" << channels;
        if (b && s.chance(1, 3)) {
            st[static_cast<size_t>(s.i(0, static_cast<int64_t>(st.size()) - 1))].set(value());
            changed = true;
        }
        sink.meta_process();
        AudioBuffer x = sink.get_buffer();
        REQUIRE(static_cast<int64_t>(x.size()) == n * channels && static_cast<int>(x.channels()) == channels && x.get_samplerate() == rate, "a block of " << n << " frames in " << channels << " channels comes out with " << x.size() << " samples in " << x.channels() << " channels at " << x.get_samplerate());
        for (int k = 0; k < channels; ++k)
            for (int j = 0; j < n; ++j) {
                double want = c[static_cast<size_t>(k)][static_cast<size_t>(j)];
                for (size_t i = st.size(); i-- > 0;) want = st[i].add ? want + st[i].v : want * st[i].v;
                REQUIRE(pbt::near(x.at(k, j), want, 1e-12, 1e-9), "block " << b << ", channel " << k << ", sample " << j << " is " << x.at(k, j) << ", expected " << want);
            }
        for (auto& t : st) REQUIRE(t.get() == t.v, "a value of " << t.v << " reads back as " << t.get());
    }
    s.nontrivial(adds && scales && most > 1 && changed);
}

PBT_MAIN
