// C20: counting and latency modules report what went through the chain.
// Oracle: sums over the blocks pulled, clock readings taken around each pull,
// and the accounting identities between the reported numbers.
#include "chrono.hpp"
#include "maeckit.hpp"
#include "meta_audio.hpp"

namespace {

int64_t clock_ns() { return get_time(); }

/// A source of prepared blocks that takes its time
class Slow : public kit::Script {
   public:
    int64_t spin = 0;
    void process() override {
        int64_t end = clock_ns() + spin;
        while (spin && clock_ns() < end) {
        }
        kit::Script::process();
    }
};

class User : public LatencyModule {
   public:
    int own = 0;
    double seen = 0;
    void process() override {
        ++own;
        if (this->buff.size()) seen = this->buff.at(0);
    }
};

kit::Chans block(int channels, int64_t n, double v) { return kit::Chans(static_cast<size_t>(channels), std::vector<double>(static_cast<size_t>(n), v)); }

}  // namespace

SECTION(counter, 30000, 500000, "1-14 (at times 2000) pulls of blocks of 0-60 frames in 1-4 channels through a counter, with resets; non-trivial: several pulls") {
    kit::Script src;
    Counter c;
    c.link(&src);
    const bool many = s.chance(1, 200);
    int ops = static_cast<int>(many ? s.i(200, 2000) : s.i(1, 14)), pulls = 0, samples = 0;
    REQUIRE(c.processed() == 0 && c.samples() == 0, "a new counter has " << c.processed() << " and " << c.samples());
    for (int o = 0; o < ops; ++o) {
        if (s.chance(1, many ? 600 : 6)) {
            s.note() << " reset";
            c.reset();
            pulls = samples = 0;
        } else {
            int ch = static_cast<int>(s.i(1, 4));
            int64_t n = s.sz(0, many ? 4 : 60);
            s.note() << " " << ch << "x" << n;
            src.add(block(ch, n, o), 48000);
            c.meta_process();
            ++pulls;
            samples += static_cast<int>(n) * ch;
            AudioBuffer b = c.get_buffer();
            REQUIRE(static_cast<int64_t>(b.size()) == n * ch && static_cast<int>(b.channels()) == ch && b.get_samplerate() == 48000, "the counter changes the block");
            for (size_t i = 0; i < b.size(); ++i) REQUIRE(b.at(static_cast<int>(i)) == o, "the counter changes the block");
        }
        REQUIRE(c.processed() == pulls && c.samples() == samples, "the counter has " << c.processed() << " pulls and " << c.samples() << " samples, expected " << pulls << " and " << samples);
    }
    s.nontrivial(pulls > 1);
}

SECTION(endless, 4, 40, "a counter and a latency module after more than 2^31 (and 2^32) samples, pulled as the same block again and again; non-trivial: always") {
    /// Gives its one block again and again
    struct Loop : SourceModule {
        void process() override {}
    } src;
    const int channels = static_cast<int>(s.i(1, 3)), frames = static_cast<int>(s.i(100000, 400000));
    const int64_t limit = s.b() ? 2200000000LL : 4400000000LL;
    s.note() << channels << " channels, blocks of " << frames;
    s.nontrivial();
    const int64_t npf = 1000000000 / 8000;
    Counter c;
    LatencyModule m;
    m.link(&c)->link(&src);
    m.meta_start();
    src.set_buffer(AudioBuffer(frames, channels, 8000.));
    int64_t pulls = 0, samples = 0;
    while (samples < limit) {
        m.meta_process();
        ++pulls;
        samples += static_cast<int64_t>(frames) * channels;
        src.set_buffer(m.get_buffer());
    }
    REQUIRE(c.processed() == pulls && c.samples() == samples, "the counter has " << c.processed() << " pulls and " << c.samples() << " samples, expected " << pulls << " and " << samples);
    REQUIRE(m.processed() == pulls && m.samples() == samples, "the latency module has " << m.processed() << " pulls and " << m.samples() << " samples, expected " << pulls << " and " << samples);
    REQUIRE(m.expected() == samples / channels * npf, "expected time is " << m.expected() << ", expected " << samples / channels * npf);
    REQUIRE(m.total_latency() == m.total_time() - m.expected(), "total latency is " << m.total_latency());
}

SECTION(slow, 1, 2, "one pull that takes longer than 2^32 nanoseconds, between quick ones; non-trivial: always") {
    Slow src;
    User m;
    m.link(&src);
    const int64_t start = clock_ns();
    m.meta_start();
    const int64_t started = clock_ns();
    const int64_t npf = 1000000000 / 8000;
    s.nontrivial();
    s.note() << "4.4 s";
    const int before = static_cast<int>(s.i(0, 3)), after = static_cast<int>(s.i(0, 3));
    int64_t sum = 0, frames = 0, sum_latency = 0;
    for (int o = 0; o <= before + after; ++o) {
        src.spin = o == before ? 4400000000 : 1000;
        const int64_t n = o == before ? 40000 : s.i(1, 50);
        src.add(block(2, n, 1), 8000);
        const int64_t a = clock_ns();
        m.meta_process();
        const int64_t b = clock_ns();
        pbt::alive();
        frames += n;
        REQUIRE(m.time() >= src.spin && m.time() <= b - a, "the pull took " << m.time() << " ns, the source alone " << src.spin << ", all of it " << b - a);
        sum += m.time();
        sum_latency += m.time() - n * npf;
        REQUIRE(m.latency() == m.time() - n * npf, "latency is " << m.latency() << ", expected " << m.time() - n * npf);
        REQUIRE(m.sum_latency() == sum_latency, "sum of latencies is " << m.sum_latency() << ", expected " << sum_latency);
        REQUIRE(m.expected() == frames * npf, "expected time is " << m.expected() << ", expected " << frames * npf);
        REQUIRE(m.total_time() == sum, "total time is " << m.total_time() << ", expected " << sum);
        REQUIRE(m.total_latency() == sum - frames * npf, "total latency is " << m.total_latency() << ", expected " << sum - frames * npf);
        REQUIRE(m.average_time() == sum / (o + 1) && m.average_latency() == sum_latency / (o + 1), "averages are " << m.average_time() << " and " << m.average_latency());
        const int64_t e0 = clock_ns(), e = m.elapsed(), e1 = clock_ns();
        REQUIRE(e >= e0 - started && e <= e1 - start, "elapsed " << e << " is not the time since the start");
    }
}

SECTION(latency, 20000, 300000, "1-12 (at times 1500) pulls of blocks of 0-60 frames in 1-4 channels at several rates through a latency module, with a source that takes 0-200 microseconds, with resets; non-trivial: several pulls") {
    Slow src;
    User m;
    m.link(&src);
    int64_t before_start = clock_ns();
    m.meta_start();
    int64_t after_start = clock_ns();
    REQUIRE(m.get_start_time() >= before_start && m.get_start_time() <= after_start, "the start time is not the time of the start");
    const bool many = s.chance(1, 200);
    int ops = static_cast<int>(many ? s.i(200, 1500) : s.i(1, 12)), pulls = 0, samples = 0, all = 0;
    int channels = static_cast<int>(s.i(1, 4));
    int rate = s.pick<int>({44100, 48000, 8000, 1000});
    int64_t npf = 1000000000 / rate;
    s.note() << channels << " channels at " << rate << ":";
    // (the time expected since the start is not defined for a stream whose rate changes)
    bool steady = true;
    int64_t sum = 0, sum_latency = 0, frames = 0;
    for (int o = 0; o < ops; ++o) {
        if (s.chance(1, many ? 600 : 8)) {
            s.note() << " reset";
            int64_t a = clock_ns();
            m.reset();
            int64_t b = clock_ns();
            REQUIRE(m.get_start_time() >= a && m.get_start_time() <= b, "the start time is not the time of the reset");
            REQUIRE(m.time() == 0 && m.latency() == 0 && m.total_time() == 0 && m.sum_latency() == 0 && m.expected() == 0 && m.total_latency() == 0 && m.processed() == 0 && m.samples() == 0 &&
                        m.average_time() == 0 && m.average_latency() == 0,
                    "the reset leaves something behind");
            pulls = samples = 0;
            sum = sum_latency = frames = 0;
            steady = true;
            continue;
        }
        if (s.chance(1, many ? 300 : 10)) {
            rate = s.pick<int>({44100, 48000, 8000, 1000, 192000});
            npf = 1000000000 / rate;
            s.note() << " at " << rate;
            if (pulls > 0) steady = false;
        }
        int64_t n = s.chance(1, 20) ? 0 : s.sz(1, many ? 4 : 60);
        src.spin = many ? 0 : s.pick<int64_t>({0, 0, 2000, 20000, 200000});
        s.note() << " " << n << (src.spin ? "+" + std::to_string(src.spin) : "");
        src.add(block(channels, n, o + 1), rate);
        int64_t a = clock_ns();
        m.meta_process();
        int64_t b = clock_ns();
        ++pulls;
        ++all;
        samples += static_cast<int>(n) * channels;
        frames += n;
        REQUIRE(m.own == all && (n == 0 || m.seen == o + 1), "the module's own processing saw " << m.seen << " in call " << m.own);
        REQUIRE(m.time() >= src.spin && m.time() <= b - a, "the pull took " << m.time() << " ns, the source alone " << src.spin << ", all of it " << b - a);
        sum += m.time();
        REQUIRE(m.latency() == m.time() - n * npf, "latency is " << m.latency() << ", expected " << m.time() - n * npf);
        sum_latency += m.latency();
        REQUIRE(m.processed() == pulls && m.samples() == samples, "counted " << m.processed() << " pulls and " << m.samples() << " samples, expected " << pulls << " and " << samples);
        if (steady) REQUIRE(m.expected() == frames * npf, "expected time is " << m.expected() << ", expected " << frames * npf);
        REQUIRE(m.total_time() == sum, "total time is " << m.total_time() << ", expected " << sum);
        REQUIRE(m.sum_latency() == sum_latency, "sum of latencies is " << m.sum_latency() << ", expected " << sum_latency);
        if (steady) REQUIRE(m.total_latency() == sum - frames * npf, "total latency is " << m.total_latency() << ", expected " << sum - frames * npf);
        REQUIRE(m.average_time() == sum / pulls && m.average_latency() == sum_latency / pulls, "averages are " << m.average_time() << " and " << m.average_latency() << ", expected " << sum / pulls << " and " << sum_latency / pulls);
        int64_t e0 = clock_ns(), e = m.elapsed(), e1 = clock_ns();
        REQUIRE(e >= e0 - m.get_start_time() && e <= e1 - m.get_start_time(), "elapsed " << e << " is not the time since the start");
        AudioBuffer out = m.get_buffer();
        REQUIRE(static_cast<int64_t>(out.size()) == n * channels && static_cast<int>(out.channels()) == channels && (n == 0 || out.at(0) == o + 1), "the module changes the block");
    }
    s.nontrivial(pulls > 1);
}

PBT_MAIN
