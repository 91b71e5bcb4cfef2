// C16: mixers add up their inputs and give every output the same samples.
// Oracle: the sum of the prepared inputs, sample by sample.
#include "amp_module.hpp"
#include "maeckit.hpp"
#include "module_mixer.hpp"

namespace {

kit::Chans block(pbt::Src& s, int channels, int64_t n) {
    kit::Chans c;
    for (int k = 0; k < channels; ++k) c.push_back(s.vals(n));
    return c;
}

void setup(SinkModule<>& sink, int n, int channels, double rate) {
    sink.get_chain_info()->buffer_size = n;
    sink.get_chain_info()->channels = channels;
    sink.get_chain_info()->sample_rate = rate;
    sink.meta_info_sync();
    sink.meta_start();
}

void check(AudioBuffer& b, const kit::Chans& want, double rate, const std::string& what) {
    REQUIRE(b.channels() == want.size(), what << " has " << b.channels() << " channels, expected " << want.size());
    REQUIRE(b.get_samplerate() == rate, what << " has sample rate " << b.get_samplerate());
    auto g = kit::split(b);
    for (size_t c = 0; c < want.size(); ++c) kit::same(g[c], want[c], what + " channel " + std::to_string(c), 1e-12, 1e5);
}

}  // namespace

SECTION(down, 30000, 500000, "1-8 inputs of 1-4 channels, blocks as long as the format, shorter or longer, 1-5 pulls; non-trivial: two or more inputs") {
    int ins = static_cast<int>(s.sz(1, 8)), channels = static_cast<int>(s.i(1, 4)), n = static_cast<int>(s.sz(1, 40)), pulls = static_cast<int>(s.turns(1, 5));
    double rate = s.pick<double>({44100, 48000, 8000});
    bool exact = s.chance(2, 3);
    s.note() << ins << " inputs, " << channels << " channels of " << n << ", " << pulls << " pulls:";
    s.nontrivial(ins > 1);
    std::vector<std::unique_ptr<kit::Script>> src;
    std::vector<std::unique_ptr<AmplitudeScale<>>> scale;
    std::vector<kit::Chans> want(static_cast<size_t>(pulls), kit::Chans(static_cast<size_t>(channels), std::vector<double>(static_cast<size_t>(n), 0.)));
    ModuleMixDown mix;
    SinkModule<> sink;
    sink.link(&mix);
    for (int i = 0; i < ins; ++i) {
        src.push_back(std::make_unique<kit::Script>());
        double a = s.chance(1, 3) ? static_cast<double>(s.i(-4, 4)) : 1;
        for (int p = 0; p < pulls; ++p) {
            int64_t m = exact ? n : s.i(0, 2 * n);
            if (m < n) s.label("short input");
            if (m > n) s.label("long input");
            if (!exact) s.note() << " " << m;
            auto b = block(s, channels, m);
            src.back()->add(b, rate);
            for (size_t c = 0; c < b.size(); ++c)
                for (size_t j = 0; j < std::min<size_t>(b[c].size(), static_cast<size_t>(n)); ++j) want[static_cast<size_t>(p)][c][j] += a * b[c][j];
        }
        if (a != 1) {
            scale.push_back(std::make_unique<AmplitudeScale<>>(a));
            scale.back()->link(src.back().get());
            auto* r = mix.link(scale.back().get());
            REQUIRE(r == scale.back().get(), "link does not return the linked module");
        } else
            mix.link(src.back().get());
        REQUIRE(mix.num_inputs() == i + 1, "the mixer counts " << mix.num_inputs() << " inputs");
    }
    setup(sink, n, channels, rate);
    for (int p = 0; p < pulls; ++p) {
        sink.meta_process();
        AudioBuffer b = sink.get_buffer();
        check(b, want[static_cast<size_t>(p)], rate, "pull " + std::to_string(p));
        for (auto& x : src) REQUIRE(x->next == static_cast<size_t>(p) + 1, "an input was pulled " << x->next << " times in " << p + 1 << " pulls");
    }
}

SECTION(large, 250, 4000, "up to 150 inputs (rarely 70000), or a few inputs with blocks of up to 80000 frames, of whole numbers; inputs are added and the format changed between pulls; non-trivial: over 100 inputs or 65536 samples") {
    const bool wide = s.b(), crowd = !wide && s.chance(1, 25);
    const int pulls = static_cast<int>(s.i(1, 4));
    ModuleMixDown mix;
    SinkModule<> sink;
    sink.link(&mix);
    std::vector<std::unique_ptr<kit::Script>> src;
    auto grow = [&](int64_t k) {
        for (; k > 0; --k) {
            src.push_back(std::make_unique<kit::Script>());
            mix.link(src.back().get());
        }
    };
    grow(wide ? s.i(1, 4) : crowd ? s.i(33000, 70000) : s.i(2, 140));
    REQUIRE(mix.num_inputs() == static_cast<int>(src.size()), "the mixer has " << mix.num_inputs() << " inputs, expected " << src.size());
    for (int p = 0; p < pulls; ++p) {
        if (p > 0 && s.b()) grow(s.i(1, 10));
        const int channels = static_cast<int>(s.i(1, 3)), n = static_cast<int>(wide ? s.i(10000, 80000 / channels) : s.i(1, crowd ? 3 : 30));
        const double rate = s.pick<double>({44100, 96000});
        s.note() << src.size() << " inputs, " << n << "x" << channels << "; ";
        s.nontrivial(src.size() > 100 || n * channels > 65536);
        const auto size = static_cast<size_t>(n * channels);
        std::vector<double> want(size, 0.);
        for (auto& x : src) {
            AudioBuffer b(n, channels, rate);
            const int64_t seed = s.i(0, 1000);
            for (size_t i = 0; i < size; ++i) {
                const double v = static_cast<double>((seed + static_cast<int64_t>(i) * 37) % 1009 - 500);
                b.at(static_cast<int>(i)) = v;
                want[i] += v;
            }
            x->blocks.push_back(std::move(b));
            x->next = x->blocks.size() - 1;
        }
        setup(sink, n, channels, rate);
        sink.meta_process();
        AudioBuffer b = sink.get_buffer();
        REQUIRE(b.size() == size && static_cast<int>(b.channels()) == channels && b.get_samplerate() == rate, "pull " << p << " gives " << b.size() << " samples in " << b.channels() << " channels");
        for (size_t i = 0; i < size; ++i)
            if (b.at(static_cast<int>(i)) != want[i]) REQUIRE(false, "pull " << p << " sample " << i << " is " << b.at(static_cast<int>(i)) << ", expected " << want[i]);
    }
}

SECTION(silent, 2000, 20000, "a mixer with no inputs gives silence of the format; non-trivial: always") {
    int channels = static_cast<int>(s.i(1, 4)), n = static_cast<int>(s.sz(1, 40));
    s.nontrivial();
    s.note() << channels << " x " << n;
    ModuleMixDown mix;
    SinkModule<> sink;
    sink.link(&mix);
    setup(sink, n, channels, 48000);
    for (int p = 0; p < 2; ++p) {
        sink.meta_process();
        AudioBuffer b = sink.get_buffer();
        check(b, kit::Chans(static_cast<size_t>(channels), std::vector<double>(static_cast<size_t>(n), 0.)), 48000, "silence");
    }
}

SECTION(nested, 8000, 120000, "mixers of mixers equal one mixer of all sources; non-trivial: three or more sources") {
    int channels = static_cast<int>(s.i(1, 3)), n = static_cast<int>(s.sz(1, 16)), pulls = static_cast<int>(s.turns(1, 3));
    int groups = static_cast<int>(s.i(1, 4)), all = 0;
    std::vector<std::unique_ptr<kit::Script>> src;
    std::vector<std::unique_ptr<ModuleMixDown>> mixes;
    std::vector<kit::Chans> want(static_cast<size_t>(pulls), kit::Chans(static_cast<size_t>(channels), std::vector<double>(static_cast<size_t>(n), 0.)));
    ModuleMixDown top;
    SinkModule<> sink;
    sink.link(&top);
    for (int g = 0; g < groups; ++g) {
        mixes.push_back(std::make_unique<ModuleMixDown>());
        top.link(mixes.back().get());
        int k = static_cast<int>(s.i(1, 4));
        all += k;
        for (int i = 0; i < k; ++i) {
            src.push_back(std::make_unique<kit::Script>());
            mixes.back()->link(src.back().get());
            for (int p = 0; p < pulls; ++p) {
                auto b = block(s, channels, n);
                src.back()->add(b);
                for (size_t c = 0; c < b.size(); ++c)
                    for (size_t j = 0; j < b[c].size(); ++j) want[static_cast<size_t>(p)][c][j] += b[c][j];
            }
        }
    }
    s.note() << groups << " groups, " << all << " sources, " << channels << " x " << n;
    s.nontrivial(all > 2);
    setup(sink, n, channels, 44100);
    REQUIRE(sink.get_chain_info()->module_num == all + groups + 2, "modules " << sink.get_chain_info()->module_num);
    for (int p = 0; p < pulls; ++p) {
        sink.meta_process();
        AudioBuffer b = sink.get_buffer();
        check(b, want[static_cast<size_t>(p)], 44100, "pull " + std::to_string(p));
    }
}

SECTION(up, 15000, 250000, "after each pull of a splitting mixer any number of outputs (rarely of 70000) take its buffer and change what they took; blocks of different sizes and channels; non-trivial: two or more outputs and several pulls") {
    bool multi = s.b();
    const int outs = static_cast<int>(!multi && s.chance(1, 3000) ? s.i(33000, 70000) : s.i(1, 5)), pulls = static_cast<int>(s.turns(1, 5));
    ModuleMixUp up;
    MultiMix both;
    kit::Script src;
    std::vector<std::unique_ptr<SinkModule<>>> sinks;
    if (multi) static_cast<ModuleMixDown&>(both).link(&src);
    else up.link(&src);
    for (int i = 0; i < outs; ++i) {
        sinks.push_back(std::make_unique<SinkModule<>>());
        if (multi) sinks.back()->link(&both);
        else sinks.back()->link(&up);
        REQUIRE((multi ? both.num_outputs() : up.num_outputs()) == i + 1, "the mixer counts the wrong number of outputs");
    }
    s.note() << outs << " outputs" << (multi ? " of a multi mixer:" : ":");
    s.nontrivial(outs > 1 && pulls > 1);
    int channels = static_cast<int>(s.i(1, 4)), n = static_cast<int>(s.sz(1, 24));
    if (multi)
        for (auto& k : sinks) setup(*k, n, channels, 44100);
    else
        sinks[0]->meta_start();
    for (int p = 0; p < pulls; ++p) {
        if (!multi) {
            channels = static_cast<int>(s.i(1, 4));
            n = static_cast<int>(s.sz(1, 24));
        }
        double rate = multi ? 44100 : s.pick<double>({44100, 48000});
        auto b = block(s, channels, n);
        s.note() << " " << channels << "x" << n;
        src.add(b, rate);
        BaseModule& m = multi ? static_cast<BaseModule&>(both) : up;
        m.meta_process();
        int takes = static_cast<int>(s.i(1, std::min(outs, 10) + 1));
        for (int t = 0; t < takes; ++t) {
            AudioBuffer got = m.get_buffer();
            check(got, b, rate, "take " + std::to_string(t) + " of pull " + std::to_string(p));
            for (size_t i = 0; i < got.size(); ++i) got.at(static_cast<int>(i)) = -99;  // belongs to the taker
            if (s.chance(1, 4)) {
                // (looked at only)
                auto&& seen = m.get_buffer();
                check(seen, b, rate, "a look after take " + std::to_string(t) + " of pull " + std::to_string(p));
                if (s.b() && seen.size()) seen.at(0) = 77;
            }
        }
    }
}

SECTION(fan, 8000, 120000, "one source split into branches that scale and are mixed again equals scaling by the sum; non-trivial: two or more branches") {
    int branches = static_cast<int>(s.i(1, 5)), channels = static_cast<int>(s.i(1, 3)), n = static_cast<int>(s.sz(1, 16));
    // a source that gives the same block all the time: a splitting mixer asks for a block per branch
    class Same : public SourceModule {
       public:
        AudioBuffer b;
        void process() override { this->set_buffer(AudioBuffer(b)); }
    } src;
    auto blk = block(s, channels, n);
    src.b = kit::make(blk);
    ModuleMixUp up;
    ModuleMixDown down;
    SinkModule<> sink;
    std::vector<std::unique_ptr<AmplitudeScale<>>> br;
    double sum = 0;
    sink.link(&down);
    for (int i = 0; i < branches; ++i) {
        double a = static_cast<double>(s.i(-8, 8)) / 2;
        s.note() << a << " ";
        sum += a;
        br.push_back(std::make_unique<AmplitudeScale<>>(a));
        down.link(br.back().get());
        br.back()->link(&up);
    }
    up.link(&src);
    s.nontrivial(branches > 1);
    REQUIRE(up.num_outputs() == branches && down.num_inputs() == branches, "the mixers count " << up.num_outputs() << " outputs and " << down.num_inputs() << " inputs");
    setup(sink, n, channels, 44100);
    for (auto& ch : blk)
        for (auto& v : ch) v *= sum;
    for (int p = 0; p < 3; ++p) {
        sink.meta_process();
        AudioBuffer b = sink.get_buffer();
        check(b, blk, 44100, "pull " + std::to_string(p));
    }
}

PBT_MAIN
