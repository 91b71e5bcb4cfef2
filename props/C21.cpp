// C21: oscillators produce their waveform, without seams between blocks.
// Oracle: the waveform at frequency x frame / sample rate, for every frame of
// the whole history.
#include "fund_oscillator.hpp"
#include "maeckit.hpp"
#include "waves.hpp"

namespace {

std::unique_ptr<BaseOscillator> make(int shape, int how, double f, double ph) {
    auto go = [&]<typename T>() -> std::unique_ptr<BaseOscillator> {
        if (how == 0) return std::make_unique<T>(f, ph);
        if (how == 1) {
            auto o = std::make_unique<T>(f);
            o->set_phase(ph);
            return o;
        }
        auto o = std::make_unique<T>();
        o->set_frequency(f);
        o->set_phase(ph);
        return o;
    };
    switch (shape) {
        case wave::SINE: return go.template operator()<SineOscillator>();
        case wave::SQUARE: return go.template operator()<SquareOscillator>();
        case wave::SAW: return go.template operator()<SawtoothOscillator>();
        default: return go.template operator()<TriangleOscillator>();
    }
}

/// A frequency; exact if all positions are fractions of a power of two
double frequency(pbt::Src& s, double rate, bool& exact) {
    exact = s.b();
    if (exact) return rate / static_cast<double>(1 << s.i(0, 9)) * static_cast<double>(s.i(1, 3));
    return s.b() ? s.unit(.5, rate / 2) : s.pick<double>({440, 261.6256, 1000, 20, 1, 0, 8000});
}

}  // namespace

SECTION(stream, 30000, 500000, "every waveform, frequencies from 0 to the sample rate, start phases (also negative), 1-4 channels, 1-8 blocks of 1-100 frames of changing size; non-trivial: several blocks and more than one cycle") {
    int shape = static_cast<int>(s.i(0, 3));
    double rate = s.pick<double>({48000, 44100, 8000, 96000});
    bool exact;
    double f = frequency(s, rate, exact);
    double ph = s.b() ? 0 : static_cast<double>(s.i(-2000, 100000));
    if (s.chance(1, 6)) ph += .5;
    // (streams that have been going on for a day)
    if (exact && s.chance(1, 5)) ph = static_cast<double>(s.b() ? s.i(16000000, 17000000) : s.i(2147480000, 8600000000)) * (s.chance(1, 5) ? -1 : 1);
    int channels = static_cast<int>(s.chance(1, 20) ? (s.chance(1, 8) ? s.i(13, 70) : s.i(5, 12)) : s.i(1, 4)), blocks = static_cast<int>(s.turns(1, 8));
    auto o = make(shape, static_cast<int>(s.i(0, 2)), f, ph);
    REQUIRE(o->get_frequency() == f && o->get_phase() == ph, "frequency and phase read back as " << o->get_frequency() << " and " << o->get_phase());
    s.note() << wave::names[shape] << " of " << f << " Hz at " << rate << " from " << ph << ", " << channels << " channels:";
    s.label(wave::names[shape]);
    SinkModule<> sink;
    sink.link(o.get());
    sink.get_chain_info()->sample_rate = rate;
    sink.get_chain_info()->channels = channels;
    bool same = s.b();
    int n = static_cast<int>(s.sz(1, 100));
    if (s.chance(1, 800)) {
        n = static_cast<int>(s.i(5000, 70000));
        same = true;
        blocks = std::min(blocks, 2);
    } else if (s.chance(1, 50))
        blocks = 60;
    double frame = 0;
    for (int b = 0; b < blocks; ++b) {
        if (!same) n = static_cast<int>(s.sz(1, 100));
        s.note() << " " << n;
        sink.get_chain_info()->buffer_size = n;
        sink.meta_info_sync();
        if (b == 0) sink.meta_start();
        sink.meta_process();
        AudioBuffer x = sink.get_buffer();
        REQUIRE(static_cast<int>(x.size()) == n * channels && static_cast<int>(x.channels()) == channels && x.get_samplerate() == rate, "block of " << x.size() << " samples in " << x.channels() << " channels at " << x.get_samplerate());
        for (int j = 0; j < n; ++j, ++frame)
            for (int c = 0; c < channels; ++c)
                wave::check(shape, x.at(c, j), f * (ph + frame) / rate, exact, 1e-9 + std::fabs(f * (ph + frame) / rate) * 1e-14, "frame " + std::to_string(static_cast<int>(frame)) + " of channel " + std::to_string(c));
        REQUIRE(o->get_phase() == ph + frame, "after " << frame << " frames the phase is " << o->get_phase() << ", expected " << ph + frame);
    }
    s.nontrivial(blocks > 1 && f * frame / rate > 1);
}

SECTION(settings, 15000, 200000, "frequency and phase set or moved between blocks; non-trivial: both changed") {
    int shape = static_cast<int>(s.i(0, 3));
    double f = 440, ph = 0, rate = 48000;
    auto o = make(shape, 2, f, ph);
    o->get_info()->out_buffer = static_cast<int>(s.sz(1, 40));
    o->get_info()->sample_rate = rate;
    int ops = static_cast<int>(s.turns(1, 10));
    bool cf = false, cp = false;
    s.note() << wave::names[shape] << ":";
    const pbt::Swarm swarm(s, 0, 3);
    for (int k = 0; k < ops; ++k) {
        switch (swarm(s)) {
            case 0:
                f = s.unit(0, 24000);
                o->set_frequency(f);
                s.note() << " f " << f;
                cf = true;
                break;
            case 1:
                ph = static_cast<double>(s.i(-100, 5000));
                o->set_phase(ph);
                s.note() << " phase " << ph;
                cp = true;
                break;
            case 2: {
                double d = static_cast<double>(s.i(-50, 50));
                o->inc_phase(d);
                ph += d;
                s.note() << " moved " << d;
                cp = true;
                break;
            }
            default: {
                o->meta_process();
                AudioBuffer x = o->get_buffer();
                s.note() << " block";
                for (size_t j = 0; j < x.size(); ++j, ++ph) wave::check(shape, x.at(static_cast<int>(j)), f * ph / rate, false, 1e-9, "sample " + std::to_string(j));
            }
        }
        REQUIRE(o->get_frequency() == f && o->get_phase() == ph, "frequency and phase are " << o->get_frequency() << " and " << o->get_phase() << ", expected " << f << " and " << ph);
    }
    s.nontrivial(cf && cp);
}

SECTION(blocks, 8000, 100000, "the samples do not depend on the block size: one block against many, bit for bit; non-trivial: three or more blocks") {
    int shape = static_cast<int>(s.i(0, 3)), channels = static_cast<int>(s.i(1, 3));
    double f = s.unit(1, 20000);
    int total = static_cast<int>(s.sz(1, 200));
    auto a = make(shape, 0, f, 0), b = make(shape, 0, f, 0);
    for (auto* o : {a.get(), b.get()}) o->get_info()->channels = channels;
    a->get_info()->out_buffer = total;
    a->meta_process();
    AudioBuffer whole = a->get_buffer();
    s.note() << wave::names[shape] << " " << f << " Hz, " << channels << " channels, " << total << " frames:";
    int at = 0, k = 0;
    for (; at < total; ++k) {
        int n = static_cast<int>(s.i(1, total - at));
        s.note() << " " << n;
        b->get_info()->out_buffer = n;
        b->meta_process();
        AudioBuffer x = b->get_buffer();
        for (int j = 0; j < n; ++j)
            for (int c = 0; c < channels; ++c) REQUIRE(x.at(c, j) == whole.at(c, at + j), "frame " << at + j << " of channel " << c << " is " << x.at(c, j) << ", in one block it is " << whole.at(c, at + j));
        at += n;
    }
    s.nontrivial(k > 2);
}

PBT_MAIN
