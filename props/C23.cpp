// C23: single envelopes follow their value over time, for every block split
// and channel count.
// Oracle: the value of the shape at the time of every frame.
#include "envelope.hpp"
#include "maeckit.hpp"

namespace {

enum Kind { CONSTANT, SET, LINEAR, EXPONENTIAL };
const char* names[] = {"constant", "set", "linear", "exponential"};

/// Counts how often it is started
template <typename E>
struct Counted : E {
    int* count;
    explicit Counted(int* c) : count(c) {}
    void start() override {
        ++*count;
        E::start();
    }
};

std::unique_ptr<BaseEnvelope> make(int kind, int* started) {
    switch (kind) {
        case CONSTANT: return std::make_unique<Counted<ConstantEnvelope>>(started);
        case SET: return std::make_unique<Counted<SetValue>>(started);
        case LINEAR: return std::make_unique<Counted<LinearRamp>>(started);
        default: return std::make_unique<Counted<ExponentialRamp>>(started);
    }
}

std::unique_ptr<BaseEnvelope> make(int kind) {
    switch (kind) {
        case CONSTANT: return std::make_unique<ConstantEnvelope>();
        case SET: return std::make_unique<SetValue>();
        case LINEAR: return std::make_unique<LinearRamp>();
        default: return std::make_unique<ExponentialRamp>();
    }
}

/// Checks the value at a time
void check(int kind, double got, int64_t t, int64_t t0, int64_t t1, double v0, double v1, int64_t npf, const std::string& what) {
    const double scale = std::max({std::fabs(v0), std::fabs(v1), 1e-3});
    switch (kind) {
        case CONSTANT:
            REQUIRE(got == v0, what << " of a constant of " << v0 << " is " << got);
            return;
        case SET:
            // (a change in between two frames is rounded to one of them)
            if (t < t1 && t1 < t + npf && (got == v0 || got == v1)) return;
            REQUIRE(got == (t < t1 ? v0 : v1), what << " (time " << t << ") is " << got << " with a change from " << v0 << " to " << v1 << " at " << t1);
            return;
        case LINEAR: {
            if (t < t0 || t > t1) return;
            const double p = static_cast<double>(t - t0) / static_cast<double>(t1 - t0);
            REQUIRE(std::fabs(got - (v0 + (v1 - v0) * p)) <= 1e-9 * scale, what << " (time " << t << ") is " << got << " on a line from " << v0 << " at " << t0 << " to " << v1 << " at " << t1);
            return;
        }
        default: {
            if (t < t0 || t > t1) return;
            const double p = static_cast<double>(t - t0) / static_cast<double>(t1 - t0);
            const double want = std::copysign(std::exp(std::log(std::fabs(v0)) * (1 - p) + std::log(std::fabs(v1)) * p), v0);
            REQUIRE(std::fabs(got - want) <= 1e-9 * scale, what << " (time " << t << ") is " << got << " on an exponential from " << v0 << " at " << t0 << " to " << v1 << " at " << t1 << ", expected " << want);
        }
    }
}

double value(pbt::Src& s, int kind, double sign) {
    if (kind == EXPONENTIAL) return sign * (s.b() ? s.unit(1e-3, 10) : s.pick<double>({1, .5, .001, 440, 20000}));
    return s.b() ? s.val() : s.pick<double>({0, 1, -1, 440, .5});
}

}  // namespace

SECTION(shapes, 40000, 600000, "a constant, set, linear or exponential envelope with drawn times and values, 1-4 channels, sample rates 100-192000, 1-8 blocks of changing size, reached from a source chain; non-trivial: several blocks and a stop time inside of them") {
    const int kind = static_cast<int>(s.i(0, 3));
    const int rate = static_cast<int>(s.pick<int64_t>({100, 1000, 8000, 44100, 48000, 192000, 7}));
    const int channels = static_cast<int>(s.chance(1, 20) ? s.i(5, 12) : s.i(1, 4)), blocks = static_cast<int>(s.turns(1, 8));
    const int64_t npf = 1000000000 / rate;
    auto env = make(kind);
    const double sign = s.b() ? 1 : -1;
    const double v0 = value(s, kind, sign), v1 = value(s, kind, sign);
    // (times in frames, with or without a part of a frame)
    const bool part = s.chance(1, 3);
    auto time = [&](int64_t lo, int64_t hi) {
        return s.i(lo, hi) * npf + (part ? s.i(0, npf - 1) : 0);
    };
    // (streams that have been going on for a day)
    const int64_t base = s.chance(1, 5) ? s.i(0, 3000000000 / channels) : 0;
    const int64_t t0 = base * npf + (s.b() ? 0 : time(0, 100));
    int64_t t1 = t0 + 1 + time(0, 200) - (part ? 0 : 1);
    // (and envelopes that go on for hours or years)
    if (s.chance(1, 8)) t1 = t0 + (s.b() ? s.pick<int64_t>({1LL << 31, 1LL << 32, 3LL << 31, 1LL << 33}) / channels + s.i(-80, 80) : s.i(1, std::min<int64_t>(1000000000000 / rate, 4000000000000000000 / npf))) * npf;
    if (t1 <= t0 && kind >= LINEAR) s.discard();
    env->set_start_value(v0);
    env->set_stop_value(v1);
    env->set_start_time(t0);
    env->set_stop_time(t1);
    REQUIRE(env->get_start_value() == v0 && env->get_stop_value() == v1 && env->get_start_time() == t0 && env->get_stop_time() == t1, "settings do not read back");
    REQUIRE(env->time_diff() == t1 - t0 && env->val_diff() == v1 - v0, "differences are " << env->time_diff() << " and " << env->val_diff());
    env->get_timer()->set_samplerate(rate);
    env->get_timer()->set_channels(channels);
    int64_t frame = base + (s.b() ? 0 : s.i(0, 150));
    env->get_timer()->set_sample(frame * channels);
    SinkModule<> sink;
    sink.link(env.get());
    sink.get_chain_info()->sample_rate = rate;
    sink.get_chain_info()->channels = channels;
    s.note() << names[kind] << " " << v0 << " at " << t0 << " to " << v1 << " at " << t1 << ", rate " << rate << ", " << channels << " channels, from frame " << frame << ":";
    s.label(names[kind]);
    bool inside = false;
    for (int b = 0; b < blocks; ++b) {
        const int n = static_cast<int>(s.chance(1, 4000) ? s.i(5000, 40000) : s.sz(1, 60));
        s.note() << " " << n;
        sink.get_chain_info()->buffer_size = n;
        sink.meta_info_sync();
        if (b == 0) sink.meta_start();
        const int64_t left = env->remaining_samples();
        const int64_t now = frame * npf;
        REQUIRE(env->get_time() == now, "the time is " << env->get_time() << " after " << frame << " frames of " << npf << " ns");
        REQUIRE(left == (now >= t1 ? 0 : (t1 - now) / npf * channels) || (t1 - now) % npf != 0, "remaining samples are " << left << " at " << now << " of " << t1 << " with " << channels << " channels");
        sink.meta_process();
        AudioBuffer x = sink.get_buffer();
        REQUIRE(static_cast<int>(x.size()) == n * channels && static_cast<int>(x.channels()) == channels && x.get_samplerate() == rate, "block of " << x.size() << " samples in " << x.channels() << " channels");
        if (now < t1 && t1 < now + n * npf) inside = true;
        for (int j = 0; j < n; ++j, ++frame)
            for (int c = 0; c < channels; ++c)
                check(kind, x.at(c, j), frame * npf, t0, t1, v0, v1, npf, "frame " + std::to_string(frame) + " of channel " + std::to_string(c));
    }
    s.nontrivial(blocks > 1 && inside);
}

SECTION(duration, 20000, 300000, "an envelope with a duration, started once or twice at drawn positions of its timer; non-trivial: started later than at zero") {
    const int kind = static_cast<int>(s.i(0, 3));
    const int rate = static_cast<int>(s.pick<int64_t>({100, 8000, 44100, 48000}));
    const int64_t npf = 1000000000 / rate;
    const int64_t dur = (s.chance(1, 8) ? s.pick<int64_t>({1LL << 31, 1LL << 32, 3LL << 31}) + s.i(-80, 80) : s.i(1, 100)) * npf;
    int started = 0;
    auto env = make(kind, &started);
    const double sign = s.b() ? 1 : -1;
    const double v0 = value(s, kind, sign), v1 = value(s, kind, sign);
    env->set_start_value(v0);
    env->set_stop_value(v1);
    DurationEnvelope d;
    d.set_envelope(env.get());
    d.set_duration(dur);
    REQUIRE(d.get_envelope() == env.get() && d.get_duration() == dur, "settings do not read back");
    d.get_timer()->set_samplerate(rate);
    env->get_timer()->set_samplerate(rate);
    s.note() << names[kind] << " of " << dur << " ns, rate " << rate << ":";
    const int starts = static_cast<int>(s.turns(1, 3));
    bool late = false;
    for (int k = 0; k < starts; ++k) {
        const int64_t at = s.b() ? 0 : s.chance(1, 4) ? s.i(0, 5000000000) : s.i(0, 1000);
        late = late || at > 0;
        d.get_timer()->set_sample(at);
        env->get_timer()->set_sample(at);
        s.note() << " start at frame " << at;
        d.meta_start();
        REQUIRE(started == k + 1, "the envelope itself has been started " << started << " times after " << k + 1 << " starts with a duration");
        REQUIRE(env->get_start_time() == at * npf && env->get_stop_time() == at * npf + dur, "started at " << at * npf << ": the envelope is from " << env->get_start_time() << " to " << env->get_stop_time());
        int64_t frame = at;
        const int blocks = static_cast<int>(s.i(0, 3));
        for (int b = 0; b < blocks; ++b) {
            const int n = static_cast<int>(s.sz(1, 60));
            env->get_info()->out_buffer = n;
            env->get_info()->channels = 1;
            env->get_info()->sample_rate = rate;
            d.meta_process();
            auto x = d.get_buffer();
            REQUIRE(static_cast<int>(x.size()) == n, "a block of " << n << " has " << x.size() << " samples");
            for (int j = 0; j < n; ++j, ++frame) check(kind, x.at(0, j), frame * npf, at * npf, at * npf + dur, v0, v1, npf, "frame " + std::to_string(frame));
        }
    }
    s.nontrivial(late);
}

PBT_MAIN
