// C22: modulated oscillators follow their frequency parameter, frame by frame.
// Oracle: the waveform at the running sum of frequency / sample rate.
#include "amp_module.hpp"
#include "fund_oscillator.hpp"
#include "maeckit.hpp"
#include "waves.hpp"

namespace {

std::unique_ptr<BaseModulatedOscillator> make(int shape, int how, double f, double ph) {
    auto go = [&]<typename T>() -> std::unique_ptr<BaseModulatedOscillator> {
        if (how == 0) return std::make_unique<T>(f, ph);
        std::unique_ptr<BaseModulatedOscillator> o;
        if (how == 1)
            o = std::make_unique<T>(f);
        else {
            o = std::make_unique<T>();
            o->get_frequency()->set_constant(f);
        }
        o->set_phase(ph);
        return o;
    };
    switch (shape) {
        case wave::SINE: return go.template operator()<ModSineOscillator>();
        case wave::SQUARE: return go.template operator()<ModSquareOscillator>();
        case wave::SAW: return go.template operator()<ModSawtoothOscillator>();
        default: return go.template operator()<ModTriangleOscillator>();
    }
}

/// Frequencies from a list; all channels of a frame alike
class Freqs : public SourceModule {
   public:
    std::vector<double> list;
    size_t next = 0;
    void process() override {
        this->reserve();
        for (int j = 0; j < static_cast<int>(this->buff.channel_capacity()); ++j, ++next)
            for (int c = 0; c < static_cast<int>(this->buff.channels()); ++c) this->buff.at(c, j) = list[next % list.size()];
    }
};

struct Setup {
    int shape, channels, n, blocks;
    double rate, ph;
    bool dyadic;
};

Setup gen(pbt::Src& s) {
    Setup u;
    u.shape = static_cast<int>(s.i(0, 3));
    u.channels = static_cast<int>(s.chance(1, 20) ? s.i(5, 12) : s.i(1, 4));
    u.n = static_cast<int>(s.sz(1, 60));
    u.blocks = static_cast<int>(s.turns(1, 6));
    u.dyadic = s.chance(1, 3);
    u.rate = u.dyadic ? 32768 : s.pick<double>({48000, 44100, 8000});
    u.ph = s.b() ? 0 : static_cast<double>(s.i(-16, 16)) / 8;
    if (u.dyadic && s.chance(1, 6)) u.ph = static_cast<double>(s.i(-4000000000, 4000000000)) / 8;
    if (s.chance(1, 800)) {
        u.n = static_cast<int>(s.i(5000, 50000));
        u.blocks = std::min(u.blocks, 2);
    } else if (s.chance(1, 50))
        u.blocks = 60;
    s.note() << wave::names[u.shape] << " at " << u.rate << " from " << u.ph << ", " << u.blocks << " blocks of " << u.n << "x" << u.channels;
    s.label(wave::names[u.shape]);
    return u;
}

void configure(SinkModule<>& sink, const Setup& u) {
    sink.get_chain_info()->sample_rate = u.rate;
    sink.get_chain_info()->channels = u.channels;
    sink.get_chain_info()->buffer_size = u.n;
    sink.meta_info_sync();
    sink.meta_start();
}

template <typename F>
void run(SinkModule<>& sink, BaseModulatedOscillator& o, const Setup& u, F&& freq) {
    long double p = u.ph;
    int frame = 0;
    double top = std::fabs(u.ph);  // (the phase is a sum that is rounded every frame)
    for (int b = 0; b < u.blocks; ++b) {
        sink.meta_process();
        AudioBuffer x = sink.get_buffer();
        REQUIRE(static_cast<int>(x.size()) == u.n * u.channels && static_cast<int>(x.channels()) == u.channels && x.get_samplerate() == u.rate, "block of " << x.size() << " samples in " << x.channels() << " channels at " << x.get_samplerate());
        for (int j = 0; j < u.n; ++j, ++frame) {
            for (int c = 0; c < u.channels; ++c) wave::check(u.shape, x.at(c, j), static_cast<double>(p), u.dyadic, 1e-9 + top * (frame + 50) * 2.3e-16, "frame " + std::to_string(frame) + " of channel " + std::to_string(c));
            p += static_cast<long double>(freq(frame)) / u.rate;
            top = std::max(top, std::fabs(static_cast<double>(p)));
        }
        REQUIRE(pbt::near(o.get_phase(), static_cast<double>(p), 1e-9), "after " << frame << " frames the phase is " << o.get_phase() << ", expected " << static_cast<double>(p));
    }
}

double value(pbt::Src& s, bool dyadic) {
    if (dyadic) return static_cast<double>(s.i(-8, 64)) * 256;
    return s.chance(1, 5) ? -s.unit(0, 500) : s.unit(0, 20000);
}

}  // namespace

SECTION(modulated, 25000, 400000, "every waveform with a list of 1-20 frequencies (also negative ones) repeated over 1-6 blocks of 1-60 frames in 1-4 channels; non-trivial: different frequencies and several blocks") {
    Setup u = gen(s);
    Freqs fm;
    int k = static_cast<int>(s.i(1, 20));
    for (int i = 0; i < k; ++i) fm.list.push_back(value(s, u.dyadic));
    s.note() << " frequencies " << pbt::show(fm.list);
    s.nontrivial(k > 1 && u.blocks > 1);
    auto o = make(u.shape, static_cast<int>(s.i(0, 2)), 100, u.ph);
    AmplitudeScale<> half(.5);
    bool through = s.b();
    if (through) {
        o->get_frequency()->link(&half);
        half.link(&fm);
    } else
        o->get_frequency()->link(&fm);
    SinkModule<> sink;
    sink.link(o.get());
    configure(sink, u);
    run(sink, *o, u, [&](int frame) { return fm.list[static_cast<size_t>(frame) % fm.list.size()] * (through ? .5 : 1); });
}

SECTION(constant, 15000, 250000, "constant frequency: the modulated oscillator agrees with the wave, and with the plain oscillator of the same frequency; constants changed between runs of blocks; non-trivial: several blocks") {
    Setup u = gen(s);
    double f = value(s, u.dyadic);
    s.note() << " " << f << " Hz";
    s.nontrivial(u.blocks > 1);
    auto o = make(u.shape, static_cast<int>(s.i(0, 2)), f, u.ph);
    SinkModule<> sink;
    sink.link(o.get());
    configure(sink, u);
    run(sink, *o, u, [&](int) { return f; });
    double g = value(s, u.dyadic);
    o->get_frequency()->set_constant(g);
    s.note() << " then " << g << " Hz";
    Setup v = u;
    v.ph = o->get_phase();
    run(sink, *o, v, [&](int) { return g; });
    o->set_phase(.125);
    o->inc_phase(.25);
    v.ph = .375;
    run(sink, *o, v, [&](int) { return g; });
}

SECTION(chained, 6000, 80000, "an oscillator modulates another one: fm with the modulator computed from its own formula; non-trivial: several blocks") {
    Setup u = gen(s);
    u.dyadic = false;
    double mf = s.unit(1, 200), depth = s.unit(0, 300), base = s.unit(0, 2000);
    s.note() << " modulator " << mf << " Hz, depth " << depth << ", centre " << base;
    s.nontrivial(u.blocks > 1);
    SineOscillator lfo(mf);
    AmplitudeScale<> sc(depth);
    AmplitudeAdd<> add(base);
    add.link(&sc)->link(&lfo);
    auto o = make(u.shape, 1, 1, u.ph);
    o->get_frequency()->link(&add);
    SinkModule<> sink;
    sink.link(o.get());
    configure(sink, u);
    run(sink, *o, u, [&](int frame) { return base + depth * std::sin(2 * ref::PI * mf * frame / u.rate); });
}

PBT_MAIN
