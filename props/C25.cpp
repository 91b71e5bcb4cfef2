// C25: a chain timer keeps exact stream time.
// Oracle: whole frames seen times nanoseconds per frame, in wide integers.
#include "chrono.hpp"
#include "pbt.hpp"

SECTION(history, 80000, 1500000, "1-20 operations on a timer: rate, nanoseconds per frame, channels, sample set, added or counted one by one, then time by all three ways; counts of up to eight billion samples; non-trivial: several channels and counted samples") {
    ChainTimer t;
    int64_t npf = 1000000000 / 44100, sample = 0;
    int channels = 1;
    int ops = static_cast<int>(s.turns(1, 20));
    bool reset = false, inc = false;
    REQUIRE(t.get_channels() == 1 && t.get_sample() == 0 && t.get_npf() == npf && t.get_time() == 0, "a new timer");
    const pbt::Swarm swarm(s, 0, 6);
    for (int o = 0; o < ops; ++o) {
        switch (swarm(s)) {
            case 0: {
                int r = s.pick<int>({44100, 48000, 8000, 96000, 1000, 192000, 1, 7});
                t.set_samplerate(r);
                npf = 1000000000 / r;
                reset = false;
                s.note() << " rate " << r;
                break;
            }
            case 1:
                npf = s.chance(1, 8) ? s.i(1, 1000000000) : s.i(1, 2000000);
                t.set_npf(npf);
                reset = false;
                s.note() << " npf " << npf;
                break;
            case 2:
                channels = static_cast<int>(s.i(1, 8));
                t.set_channels(channels);
                s.note() << " channels " << channels;
                break;
            case 3:
                sample = s.chance(1, 2) ? (s.b() ? s.i(0, 2000000000) : s.pick<int64_t>({2147483647, 2147483640, 4294967290, 2147480000}) + s.i(0, 100)) : s.i(0, 2000);
                t.set_sample(sample);
                s.note() << " sample " << sample;
                break;
            case 4: {
                int64_t v = s.chance(1, 8) ? s.i(0, 2147483647) : s.i(0, 100000);
                if (sample + v > 8000000000) break;
                t.add_sample(static_cast<int>(v));
                sample += v;
                s.note() << " add " << v;
                break;
            }
            case 5: {
                int64_t k = s.i(1, 12);
                if (sample + k > 8000000000) break;
                for (int64_t j = 0; j < k; ++j) {
                    t.inc_sample();
                    ++sample;
                    if (!reset) {
                        // time moves on only with the last channel of a frame
                        REQUIRE(t.get_time() == sample / channels * npf, "after sample " << sample << " of " << channels << " channels it is " << t.get_time() << ", expected " << sample / channels * npf);
                    }
                }
                inc = true;
                s.note() << " inc " << k;
                break;
            }
            default:
                if (s.chance(3, 4)) break;
                t.reset();
                sample = 0;
                channels = 1;
                reset = true;  // needs a rate again
                s.note() << " reset";
        }
        REQUIRE(t.get_sample() == sample && t.get_channels() == channels, "sample " << t.get_sample() << " and channels " << t.get_channels() << ", expected " << sample << " and " << channels);
        if (reset) {
            REQUIRE(t.get_time() == 0 || sample > 0, "time " << t.get_time() << " after a reset");
            continue;
        }
        REQUIRE(t.get_npf() == npf, "nanoseconds per frame read back as " << t.get_npf() << ", expected " << npf);
        REQUIRE(t.get_samplerate() == static_cast<int>(1000000000 / npf), "sample rate reads back as " << t.get_samplerate());
        REQUIRE(t.get_time() == sample / channels * npf, "at sample " << sample << " of " << channels << " channels it is " << t.get_time() << ", expected " << sample / channels * npf);
        const int64_t x = s.chance(1, 4) ? s.i(2000000000, 8000000000) : s.sz(0, 2000000000);
        const int c = static_cast<int>(s.i(1, 8));
        REQUIRE(t.get_time(x) == x * npf, "time of frame " << x << " is " << t.get_time(x));
        REQUIRE(t.get_time(x, c) == x / c * npf, "time of sample " << x << " in " << c << " channels is " << t.get_time(x, c));
        REQUIRE(t.get_sample() == sample, "asking for the time moves the timer");
    }
    s.nontrivial(channels > 1 && inc);
}

SECTION(chunks, 30000, 500000, "a stream counted in arbitrary chunks has the time of the same stream counted at once; non-trivial: three or more chunks") {
    int channels = static_cast<int>(s.i(1, 6)), rate = s.pick<int>({44100, 48000, 8000, 22050});
    ChainTimer a, b;
    for (auto* t : {&a, &b}) {
        t->set_channels(channels);
        t->set_samplerate(rate);
    }
    int n = static_cast<int>(s.i(1, 12)), total = 0;
    int64_t last = 0;
    for (int k = 0; k < n; ++k) {
        int v = static_cast<int>(s.sz(0, 10000));
        a.add_sample(v);
        total += v;
        s.note() << v << " ";
        REQUIRE(a.get_time() >= last, "time goes back");
        last = a.get_time();
    }
    s.nontrivial(n > 2);
    b.add_sample(total);
    REQUIRE(a.get_time() == b.get_time() && a.get_time() == b.get_time(total, channels), "chunks give " << a.get_time() << ", at once " << b.get_time());
    // off the real duration by less than a nanosecond per frame
    int frames = total / channels;
    double real = frames * 1e9 / rate;
    REQUIRE(static_cast<double>(a.get_time()) <= real && static_cast<double>(a.get_time()) >= real - frames, frames << " frames at " << rate << " take " << a.get_time() << " ns");
}

SECTION(wall, 2000, 20000, "readings of the clock never go back and their differences agree with the system's monotonic clock; non-trivial: always") {
    int n = static_cast<int>(s.i(2, 50));
    s.nontrivial();
    s.note() << n << " readings";
    auto system = [] {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec * 1000000000ll + t.tv_nsec;
    };
    int64_t s0 = system(), first = get_time(), s1 = system(), last = first;
    for (int k = 0; k < n; ++k) {
        int64_t t0 = system(), v = get_time(), t1 = system();
        REQUIRE(v >= last, "the clock goes back by " << last - v);
        REQUIRE(v - first >= t0 - s1 && v - first <= t1 - s0, "the clock says " << v - first << " ns passed, the system between " << t0 - s1 << " and " << t1 - s0);
        last = v;
    }
}

PBT_MAIN
