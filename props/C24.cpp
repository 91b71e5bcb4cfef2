// C24: chained envelopes (and attack/decay/sustain) form one gapless curve.
// Oracle: the list of envelopes read as a function of time: hold the start
// value before the first, each envelope in its own span, hold the last value
// in between and after the end.
#include "envelope.hpp"
#include "maeckit.hpp"

namespace {

enum Kind { CONSTANT, SET, LINEAR, EXPONENTIAL };

struct Piece {
    int kind;
    int64_t t0, t1;      // own times, t1 < 0: never ends
    int64_t from, to;    // span in the chain
    double v0, v1;
    double at(int64_t t) const {
        const double p = static_cast<double>(t - t0) / static_cast<double>(t1 - t0);
        switch (kind) {
            case CONSTANT:
            case SET: return v0;
            case LINEAR: return v0 + (v1 - v0) * p;
            default: return v0 * std::pow(v1 / v0, p);
        }
    }
};

constexpr int64_t EVER = INT64_MAX / 4;

std::unique_ptr<BaseEnvelope> build(const Piece& p) {
    std::unique_ptr<BaseEnvelope> e;
    switch (p.kind) {
        case CONSTANT: e = std::make_unique<ConstantEnvelope>(); break;
        case SET: e = std::make_unique<SetValue>(); break;
        case LINEAR: e = std::make_unique<LinearRamp>(); break;
        default: e = std::make_unique<ExponentialRamp>();
    }
    e->set_start_time(p.t0);
    e->set_stop_time(p.t1);
    e->set_start_value(p.v0);
    e->set_stop_value(p.v1);
    return e;
}

/// The curve of a chain: the spans of its pieces, with holds in between
struct Curve {
    double first = 0;
    std::vector<Piece> spans;  // contiguous from 0
    int64_t end = 0;           // where the last span that ends does
    double last = 0;

    void hold(int64_t to) {
        if (to > end) spans.push_back({CONSTANT, 0, 1, end, to, last, last});
        end = std::max(end, to);
    }
    void add(Piece p) {
        if (spans.empty() && end == 0) last = first;
        hold(p.t0);
        p.from = end;
        p.to = p.t1 < 0 ? EVER : std::max(p.t1, end);
        if (p.to > p.from) spans.push_back(p);
        end = p.to;
        last = p.v1;
    }

    /// Checks the value of the frame at t
    void check(double got, int64_t t, int64_t npf, const std::string& what) const {
        double want = last;
        for (auto& p : spans)
            if (p.from <= t && t < p.to) {
                want = p.at(t);
                // (a set value in between two frames is rounded to one of them)
                if (p.kind == SET && t < p.t1 && p.t1 < t + npf && got == p.v1) return;
                break;
            }
        REQUIRE(std::fabs(got - want) <= 1e-9 * std::max(1., std::fabs(want)), what << " (time " << t << ") is " << got << ", expected " << want);
    }
};

double value(pbt::Src& s, int kind) {
    if (kind == EXPONENTIAL) return s.pick<double>({1, .5, .01, 20, 440, 3});
    return s.b() ? s.unit(-10, 10) : s.pick<double>({0, 1, -1, 5, .5});
}

Piece piece(pbt::Src& s, int64_t& t, int64_t npf, bool part, int stretch = 1) {
    // (now and then for hours)
    auto time = [&](int64_t hi) {
        if (s.chance(1, 60)) return (s.pick<int64_t>({1LL << 30, 1LL << 31, 1LL << 32, 3LL << 31}) + s.i(-100, 100)) * npf;
        return s.sz(0, hi) * stretch * npf + (part ? s.i(0, npf - 1) : 0);
    };
    Piece p{};
    p.kind = static_cast<int>(s.i(0, 3));
    p.v0 = value(s, p.kind);
    p.v1 = value(s, p.kind);
    // (adjacent to, after or overlapping the last one)
    switch (s.i(0, 3)) {
        case 0:
        case 1: p.t0 = t; break;
        case 2: p.t0 = t + (s.chance(1, 5) ? s.i(1, 2) : time(60)); break;
        default: p.t0 = std::max<int64_t>(0, t - time(20));
    }
    p.t1 = p.t0 + std::max<int64_t>(1, time(80));
    t = std::max(t, p.t1);
    return p;
}

struct Player {
    BaseEnvelope& env;
    int rate, channels;
    int64_t npf, frame = 0;
    SinkModule<> sink;
    bool started = false;

    Player(BaseEnvelope& e, int r, int c) : env(e), rate(r), channels(c), npf(1000000000 / r) {
        env.get_timer()->set_samplerate(rate);
        env.get_timer()->set_channels(channels);
        sink.link(&env);
        sink.get_chain_info()->sample_rate = rate;
        sink.get_chain_info()->channels = channels;
    }
    void block(int n, const Curve& curve) {
        sink.get_chain_info()->buffer_size = n;
        sink.meta_info_sync();
        if (!started) sink.meta_start();
        started = true;
        sink.meta_process();
        AudioBuffer x = sink.get_buffer();
        REQUIRE(static_cast<int>(x.size()) == n * channels && static_cast<int>(x.channels()) == channels && x.get_samplerate() == rate, "block of " << x.size() << " samples in " << x.channels() << " channels, expected " << n << " frames");
        for (int j = 0; j < n; ++j, ++frame)
            for (int c = 0; c < channels; ++c)
                curve.check(x.at(c, j), frame * npf, npf, "frame " + std::to_string(frame) + " of channel " + std::to_string(c));
        REQUIRE(env.get_time() == frame * npf, "after " << frame << " frames the time is " << env.get_time());
    }
};

int rates(pbt::Src& s) { return static_cast<int>(s.pick<int64_t>({100, 1000, 44100, 48000, 8000})); }

}  // namespace

SECTION(chain, 30000, 400000, "1-6 constant, set, linear or exponential envelopes, adjacent, with gaps, overlapping or shorter than a frame, times on or in between frames, 1-3 channels, 1-8 blocks of changing size, maybe restarted; some of up to 40 envelopes, some with blocks of thousands of frames; non-trivial: at least two envelopes and a change inside a block") {
    const int rate = rates(s), channels = static_cast<int>(s.i(1, 3));
    ChainEnvelope chain;
    Curve curve;
    curve.first = s.b() ? 0 : s.unit(-5, 5);
    chain.set_start_value(curve.first);
    Player play(chain, rate, channels);
    const bool part = s.chance(1, 3);
    const int count = static_cast<int>(s.chance(1, 40) ? s.i(7, 40) : s.i(1, 6)), stretch = static_cast<int>(s.chance(1, 80) ? s.i(2, 80) : 1);
    std::vector<std::unique_ptr<BaseEnvelope>> keep;
    int64_t t = 0;
    for (int k = 0; k < count; ++k) {
        Piece p = piece(s, t, play.npf, part, stretch);
        if (k == count - 1 && s.chance(1, 5)) {
            p.kind = CONSTANT;
            p.t1 = -1;
        }
        s.note() << "kind " << p.kind << " [" << p.t0 << "," << p.t1 << ") " << p.v0 << "->" << p.v1 << "; ";
        keep.push_back(build(p));
        chain.add_envelope(keep.back().get());
        curve.add(p);
    }
    s.note() << "rate " << rate << ", " << channels << " channels:";
    const int blocks = static_cast<int>(s.turns(1, 8));
    bool inside = false;
    for (int b = 0; b < blocks; ++b) {
        const int n = static_cast<int>(s.sz(1, (count > 6 ? 600 : 120) * stretch));
        s.note() << " " << n;
        for (auto& p : curve.spans) inside = inside || (p.to > play.frame * play.npf && p.to < (play.frame + n) * play.npf);
        if (b && s.chance(1, 8)) {
            s.note() << " (restart)";
            play.sink.meta_stop();
            play.sink.meta_start();
        }
        play.block(n, curve);
    }
    s.nontrivial(count > 1 && inside);
}

SECTION(added, 20000, 300000, "envelopes added between blocks of a running chain, while an envelope plays or while the last value is held; non-trivial: an envelope added in each way") {
    const int rate = rates(s), channels = static_cast<int>(s.i(1, 2));
    ChainEnvelope chain;
    Curve curve;
    Player play(chain, rate, channels);
    std::vector<std::unique_ptr<BaseEnvelope>> keep;
    int64_t t = 0;
    bool during = false, holding = false;
    auto add = [&]() {
        const int64_t now = play.frame * play.npf;
        const bool held = !keep.empty() && now >= curve.end;
        // (what has been held stays as it is; the new one starts later than the last one ended)
        if (held) t = std::max(now, t + play.npf);
        Piece p = piece(s, t, play.npf, false);
        if (held && p.t0 <= now) {
            p.t1 += now - p.t0;
            p.t0 = now;
            t = std::max(t, p.t1);
            if (now <= curve.end) {
                p.t0 += play.npf;
                p.t1 += play.npf;
                t = std::max(t, p.t1);
            }
        }
        if (!keep.empty()) (held ? holding : during) = true;
        s.note() << " (add kind " << p.kind << " [" << p.t0 << "," << p.t1 << ") " << p.v0 << "->" << p.v1 << ")";
        keep.push_back(build(p));
        chain.add_envelope(keep.back().get());
        curve.add(p);
    };
    add();
    const int blocks = static_cast<int>(s.turns(1, 10));
    for (int b = 0; b < blocks; ++b) {
        if (s.b()) add();
        const int n = static_cast<int>(s.sz(1, 100));
        s.note() << " " << n;
        play.block(n, curve);
    }
    s.nontrivial(during && holding);
}

SECTION(adsr, 20000, 300000, "attack, decay and sustain with drawn (also zero) times, block sizes, rates and 1-3 channels, maybe stopped, set to other times or another sustain value, and started again; non-trivial: attack and decay both played") {
    const int rate = rates(s), channels = static_cast<int>(s.i(1, 3));
    const int64_t npf = 1000000000 / rate;
    const bool part = s.chance(1, 3);
    const int stretch = static_cast<int>(s.chance(1, 80) ? s.i(2, 80) : 1);
    auto time = [&] {
        if (s.chance(1, 40)) return (s.pick<int64_t>({1LL << 30, 1LL << 31, 1LL << 32}) + s.i(-100, 100)) * npf;
        return s.sz(0, 120) * stretch * npf + (part ? s.i(0, npf - 1) : 0);
    };
    int64_t attack = time(), decay = time(), release = time();
    double sustain = s.b() ? s.unit(0, 1) : s.pick<double>({0, 1, .5});
    ADSREnvelope* env;
    std::unique_ptr<ADSREnvelope> own;
    if (s.b()) {
        own = std::make_unique<ADSREnvelope>(attack, decay, sustain, release);
        env = own.get();
    } else {
        own = std::make_unique<ADSREnvelope>();
        env = own.get();
        env->set_attack(attack);
        env->set_decay(decay);
        env->set_sustain(sustain);
        env->set_release(release);
    }
    REQUIRE(env->get_attack() == attack && env->get_decay() == decay && env->get_sustain() == sustain && env->get_release() == release, "settings do not read back");
    Curve curve;
    auto set = [&] {
        curve = Curve();
        curve.add({LINEAR, 0, attack, 0, 0, 0, 1});
        curve.add({LINEAR, attack, attack + decay, 0, 0, 1, sustain});
        curve.add({CONSTANT, attack + decay, -1, 0, 0, sustain, sustain});
    };
    set();
    Player play(*env, rate, channels);
    s.note() << "attack " << attack << " decay " << decay << " sustain " << sustain << " rate " << rate << ", " << channels << " channels:";
    const int blocks = static_cast<int>(s.turns(1, 8));
    for (int b = 0; b < blocks; ++b) {
        const int n = static_cast<int>(s.sz(1, 120 * stretch));
        s.note() << " " << n;
        if (b && s.chance(1, 8)) {
            play.sink.meta_stop();
            s.note() << " (restart";
            if (s.b()) {
                if (s.b()) env->set_attack(attack = time());
                if (s.b()) env->set_decay(decay = time());
                if (s.b()) env->set_sustain(sustain = s.unit(0, 1));
                s.note() << ", attack " << attack << " decay " << decay << " sustain " << sustain;
                set();
            }
            s.note() << ")";
            play.sink.meta_start();
        }
        play.block(n, curve);
    }
    s.nontrivial(attack > npf && decay > npf && play.frame * npf > attack + decay);
}

PBT_MAIN
