// C10: a sinc filter passes and rejects the bands its settings name.
// Oracle: the documented construction of the kernel and the response of the
// module to probes pushed through a chain.
#include "dsp/kernel.hpp"
#include "dspref.hpp"
#include "filter_module.hpp"
#include "maeckit.hpp"

using dsp::consts::FilterType;

namespace {

std::vector<double> low(double f, int N) {
    std::vector<double> h(static_cast<size_t>(N));
    double sum = 0;
    for (int i = 0; i < N; ++i) {
        double x = 2 * ref::PI * f * (i - (N - 1) / 2);
        double w = .42 - .5 * std::cos(2 * ref::PI * i / (N - 1)) + .08 * std::cos(4 * ref::PI * i / (N - 1));
        h[static_cast<size_t>(i)] = (x == 0 ? 1 : std::sin(x) / x) * w;
        sum += h[static_cast<size_t>(i)];
    }
    for (auto& v : h) v /= sum;
    return h;
}
std::vector<double> invert(std::vector<double> h) {
    for (auto& v : h) v = -v;
    h[h.size() / 2] += 1;
    return h;
}
std::vector<double> plus(std::vector<double> a, const std::vector<double>& b) {
    for (size_t i = 0; i < a.size(); ++i) a[i] += b[i];
    return a;
}

/// What the module does to an impulse
template <typename F>
std::vector<double> impulse(F& f, kit::Script& src, int N, int block) {
    int blocks = (N + 5) / block + 2;
    for (int k = 0; k < blocks; ++k) {
        std::vector<double> v(static_cast<size_t>(block), 0.);
        if (k == 0) v[0] = 1;
        src.add({v});
    }
    std::vector<double> out;
    for (int k = 0; k < blocks; ++k) {
        f.meta_process();
        AudioBuffer b = f.get_buffer();
        auto g = kit::flat(b);
        out.insert(out.end(), g.begin(), g.end());
    }
    for (size_t i = static_cast<size_t>(N); i < out.size(); ++i) REQUIRE(std::fabs(out[i]) < 1e-12, "response longer than the filter at " << i);
    out.resize(static_cast<size_t>(N));
    return out;
}

const char* names[] = {"LowPass", "HighPass", "BandPass", "BandReject"};
const FilterType types[] = {FilterType::LowPass, FilterType::HighPass, FilterType::BandPass, FilterType::BandReject};

std::vector<double> reference(int t, double fa, double fb, int N) {
    if (t == 0) return low(fa, N);
    if (t == 1) return invert(low(fa, N));
    auto reject = plus(low(fa, N), invert(low(fb, N)));
    return t == 3 ? reject : invert(reject);
}

}  // namespace

SECTION(kernel, 12000, 200000, "any type, odd size 5-151, cutoffs and sample rate at random: the impulse response of the running module against the windowed sinc construction; non-trivial: band types") {
    int t = static_cast<int>(s.i(0, 3)), N = 2 * static_cast<int>(s.sz(2, 75)) + 1;
    double rate = s.b() ? s.pick<double>({44100, 48000, 8000, 22050, 96000}) : s.unit(.5, 200000);
    double a = s.unit(.005, .45), b = s.chance(1, 12) ? .5 : s.unit(a, .5);
    // (the other cutoff means nothing to a filter of one side)
    if (t < 2 && s.chance(1, 12)) b = s.pick<double>({0, a, .7, 1e6, -1});
    if (s.chance(1, 40)) N = 2 * static_cast<int>(s.i(76, 1500)) + 1;
    bool deflt = s.chance(1, 8);
    if (deflt) N = 51;
    int block = static_cast<int>(s.sz(1, 64));
    s.note() << names[t] << " size " << N << " rate " << rate << " from " << a * rate << " to " << b * rate << " block " << block;
    s.label(names[t]);
    s.nontrivial(t >= 2);
    kit::Script src;
    SincFilter<> f;
    SinkModule<> sink;
    sink.get_chain_info()->sample_rate = rate;
    sink.link(&f)->link(&src);
    sink.meta_info_sync();
    f.set_type(types[t]);
    f.set_start_freq(a * rate);
    f.set_stop_freq(b * rate);
    if (!deflt) {
        const int other = 2 * static_cast<int>(s.i(0, 1000000)) + 1;
        f.set_size(other);
        REQUIRE(f.get_size() == other, "size reads back as " << f.get_size());
        f.set_size(N);
    }
    REQUIRE(f.get_type() == types[t] && f.get_start_freq() == a * rate && f.get_stop_freq() == b * rate && f.get_size() == N, "settings do not read back");
    f.meta_start();
    auto h = impulse(f, src, N, block);
    auto want = reference(t, a, b, N);
    double m = std::max(1., ref::mag(want));
    for (size_t i = 0; i < want.size(); ++i) REQUIRE(pbt::near(h[i], want[i], 1e-9, m), "tap " << i << " is " << h[i] << ", expected " << want[i]);
    // gain at both ends of the band follows from the type alone
    double dc = std::abs(ref::response(h, 0));
    REQUIRE(pbt::near(dc, t == 0 || t == 3 ? 1 : 0, 1e-9, m), names[t] << " has gain " << dc << " at DC");
}

SECTION(bands, 3000, 60000, "filters long enough to separate the bands, probed inside and outside of them: pass within 2 %, reject to 2 %; at the cutoff about one half; non-trivial: always") {
    int t = static_cast<int>(s.i(0, 3)), N = 2 * static_cast<int>(s.i(60, 200)) + 1;
    double rate = s.b() ? s.pick<double>({44100, 48000, 8000}) : s.unit(1, 200000);
    double width = 6. / N;  // transition band of the window
    double a = s.unit(width, t < 2 ? .5 - width : .5 - 3 * width);
    double b = s.unit(std::min(a + 2 * width, .5 - width), .5 - width);
    s.note() << names[t] << " size " << N << " from " << a * rate << " to " << b * rate;
    s.label(names[t]);
    s.nontrivial();
    kit::Script src;
    SincFilter<> f;
    SinkModule<> sink;
    sink.get_chain_info()->sample_rate = rate;
    sink.link(&f)->link(&src);
    sink.meta_info_sync();
    f.set_type(types[t]);
    f.set_start_freq(a * rate);
    f.set_stop_freq(b * rate);
    f.set_size(N);
    f.meta_start();
    auto h = impulse(f, src, N, static_cast<int>(s.i(7, 64)));
    auto pass = [&](double p) {
        bool in = p > a && (t < 2 || p < b);  // in the named band
        return (t == 0 || t == 3) ? !in : in;
    };
    for (int k = 0; k < 24; ++k) {
        double p = k == 0 ? 0 : (k == 1 ? .5 : s.unit(0, .5));
        if (std::fabs(p - a) < width || (t >= 2 && std::fabs(p - b) < width)) continue;
        double g = std::abs(ref::response(h, p));
        bool want = pass(p);
        REQUIRE(std::fabs(g - (want ? 1 : 0)) < .02, names[t] << " has gain " << g << " at " << p * rate << ", which it has to " << (want ? "pass" : "reject"));
    }
    double g = std::abs(ref::response(h, a));
    REQUIRE(std::fabs(g - .5) < .06, names[t] << " has gain " << g << " at its cutoff");
}

SECTION(channels, 6000, 80000, "1-6 channels with an impulse of their own each, at another frame and of another height, in blocks of changing sizes: every channel has the response of the filter; non-trivial: two or more channels over several blocks") {
    const int t = static_cast<int>(s.i(0, 3)), N = 2 * static_cast<int>(s.sz(2, 30)) + 1, ch = static_cast<int>(s.i(1, 6));
    const double a = s.unit(.01, .4), b = s.unit(a, .5), rate = s.b() ? 44100 : s.unit(100, 100000);
    s.note() << names[t] << " size " << N << " in " << ch << " channels";
    kit::Script src;
    SincFilter<> f;
    SinkModule<> sink;
    sink.get_chain_info()->sample_rate = rate;
    sink.get_chain_info()->channels = ch;
    sink.link(&f)->link(&src);
    sink.meta_info_sync();
    f.set_type(types[t]);
    f.set_start_freq(a * rate);
    f.set_stop_freq(b * rate);
    f.set_size(N);
    std::vector<std::vector<double>> in(static_cast<size_t>(ch), std::vector<double>(static_cast<size_t>(2 * N + 10), 0.)), out(in.size());
    std::vector<int> at;
    std::vector<double> height;
    for (auto& c : in) {
        at.push_back(static_cast<int>(s.i(0, N + 5)));
        height.push_back(s.unit(-2, 2));
        c[static_cast<size_t>(at.back())] = height.back();
    }
    int blocks = 0;
    for (size_t p = 0; p < in[0].size(); ++blocks) {
        const size_t n = std::min(in[0].size() - p, static_cast<size_t>(s.sz(1, 40)));
        kit::Chans bl;
        for (auto& c : in) bl.push_back(std::vector<double>(c.begin() + static_cast<std::ptrdiff_t>(p), c.begin() + static_cast<std::ptrdiff_t>(p + n)));
        src.add(bl);
        p += n;
    }
    f.meta_start();
    for (int k = 0; k < blocks; ++k) {
        f.meta_process();
        AudioBuffer g = f.get_buffer();
        REQUIRE(static_cast<int>(g.channels()) == ch, "a filtered block has " << g.channels() << " channels");
        for (int c = 0; c < ch; ++c)
            for (int i = 0; i < static_cast<int>(g.channel_capacity()); ++i) out[static_cast<size_t>(c)].push_back(g.at(c, i));
    }
    auto h = reference(t, a, b, N);
    const double m = 2 * std::max(1., ref::mag(h));
    for (size_t c = 0; c < in.size(); ++c) {
        REQUIRE(out[c].size() == in[c].size(), "channel " << c << " has " << out[c].size() << " frames of " << in[c].size());
        for (int i = 0; i < static_cast<int>(out[c].size()); ++i) {
            const int k = i - at[c];
            const double want = k >= 0 && k < N ? height[c] * h[static_cast<size_t>(k)] : 0;
            REQUIRE(pbt::near(out[c][static_cast<size_t>(i)], want, 1e-9, m), "channel " << c << " frame " << i << " is " << out[c][static_cast<size_t>(i)] << ", expected " << want);
        }
    }
    s.nontrivial(ch > 1 && blocks > 1);
}

SECTION(restart, 4000, 60000, "settings changed while stopped take effect at the next start, also for a static chain; non-trivial: the settings differ") {
    kit::Script src;
    SincFilter<> f;
    SincFilter<kit::Script> g;
    SinkModule<> sink;
    sink.link(&f)->link(&src);
    sink.meta_info_sync();
    std::vector<double> last;
    double rate = 44100, fa = 0, fb = 0;
    int pt = 0, pn = 0;
    const int rounds = static_cast<int>(s.turns(3, 3, 150));
    for (int round = 0; round < rounds; ++round) {
        int t = static_cast<int>(s.i(0, 3)), N = 2 * static_cast<int>(s.i(2, 30)) + 1;
        double a = s.unit(.01, .4), b = s.unit(a, .5);
        // (the frequencies may stay the same when the rate changes)
        double old = rate;
        if (s.b()) {
            rate = s.b() ? s.pick<double>({8000, 48000, 96000}) : s.unit(1000, 100000);
            sink.get_chain_info()->sample_rate = rate;
            sink.meta_info_sync();
            g.get_info()->sample_rate = rate;
        }
        bool keep = round > 0 && fb < rate / 2 && s.chance(1, 2);
        if (keep) {
            t = pt;
            N = pn;
            a = fa / rate;
            b = fb / rate;
        }
        pt = t;
        pn = N;
        fa = a * rate;
        fb = b * rate;
        if (keep && old != rate) s.label("rate changed only");
        s.note() << names[t] << " " << N << " " << a << ".." << b << " at " << rate << "; ";
        auto want = reference(t, a, b, N);
        s.nontrivial(round > 0 && want != last);
        last = want;
        auto setup = [&](auto& m) {
            if (!keep || s.b()) {
                m.set_type(types[t]);
                m.set_start_freq(fa);
                m.set_stop_freq(fb);
                m.set_size(N);
            }
            m.meta_start();
        };
        setup(f);
        setup(g);
        auto h = impulse(f, src, N, 16);
        auto hs = impulse(g, g.backward(), N, 16);
        double m = std::max(1., ref::mag(want));
        kit::same(h, want, "round " + std::to_string(round), 1e-9, m);
        kit::same(hs, want, "static chain, round " + std::to_string(round), 1e-9, m);
        f.meta_stop();
        g.meta_stop();
    }
}

PBT_MAIN
