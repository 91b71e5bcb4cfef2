// C19: a parallel module delivers what its chain produces, in order, from a
// bounded queue, and stops cleanly - under any schedule.
// Oracle: the sequence of blocks of the same source without threads, and
// invariants over the history (queue length, work done after a stop).
#include <atomic>
#include <chrono>
#include <thread>

#include "amp_module.hpp"
#include "maeckit.hpp"
#include "module_mixer.hpp"
#include "parallel.hpp"

namespace {

using State = BaseModule::State;

void delay(int kind) {
    if (kind == 0) return;
    if (kind < 4) {
        for (int i = 0; i < kind; ++i) std::this_thread::yield();
        return;
    }
    if (kind < 8) {
        volatile int x = 0;
        for (int i = 0; i < kind * 700; ++i) x = x + i;
        return;
    }
    std::this_thread::sleep_for(std::chrono::microseconds((kind - 7) * 30));
}

/// Waits; false if nothing moved on for ten seconds (a loaded machine is slow)
template <typename Done, typename Progress>
bool reaches(Done&& done, Progress&& progress) {
    auto last = progress();
    double end = pbt::now() + 10;
    int64_t turns = 0;
    while (!done()) {
        std::this_thread::yield();
        if (auto p = progress(); p != last) {
            last = p;
            end = pbt::now() + 10;
            turns = 0;
            pbt::alive();
        } else if (++turns > 1000 && pbt::now() > end)
            return done();
    }
    return true;
}

/// Counts what it makes; delays follow a pattern
class Source : public SourceModule {
   public:
    std::vector<int> pattern{0};
    std::atomic<int> made{0};
    std::atomic<int> inside{0};
    std::atomic<bool> overlap{false}, wrong_state{false};
    int first = 0;  // numbers of this run start here
    void process() override {
        if (inside.fetch_add(1) != 0) overlap = true;
        if (this->get_state() != State::Started) wrong_state = true;
        int k = made.load();
        delay(pattern[static_cast<size_t>(k) % pattern.size()]);
        this->reserve();
        const int n = static_cast<int>(this->buff.channel_capacity());
        for (int c = 0; c < static_cast<int>(this->buff.channels()); ++c)
            for (int j = 0; j < n; ++j) this->buff.at(c, j) = kit::Numbered::code(0, k, c, j);
        made = k + 1;
        inside.fetch_sub(1);
    }
};

std::vector<int> pattern(pbt::Src& s) {
    std::vector<int> p;
    int n = static_cast<int>(s.i(1, 4)), top = s.pick<int>({0, 3, 7, 11});
    for (int i = 0; i < n; ++i) p.push_back(static_cast<int>(s.i(0, top)));
    return p;
}

struct Rig {
    Source src;
    AmplitudeScale<> scale{2};
    ParallelModule par;
    SinkModule<> sink;
    int n = 4, channels = 1;
    Rig(pbt::Src& s) {
        n = static_cast<int>(s.sz(1, 12));
        channels = static_cast<int>(s.i(1, 2));
        src.pattern = pattern(s);
        sink.link(&par)->link(&scale)->link(&src);
        sink.get_chain_info()->buffer_size = n;
        sink.get_chain_info()->channels = channels;
        sink.meta_info_sync();
    }
    // a failed check leaves while the thread runs
    ~Rig() { par.stop(); }
    void check(AudioBuffer& b, int k, const char* what) {
        REQUIRE(static_cast<int>(b.size()) == n * channels && static_cast<int>(b.channels()) == channels, what << ": block " << k << " has " << b.size() << " samples in " << b.channels() << " channels, expected " << n * channels);
        for (int c = 0; c < channels; ++c)
            for (int j = 0; j < n; ++j)
                REQUIRE(b.at(c, j) == 2 * kit::Numbered::code(0, k, c, j), what << ": block " << k << " is not the next one of the source (sample " << b.at(c, j) << ", expected " << 2 * kit::Numbered::code(0, k, c, j) << ")");
    }
};

}  // namespace

SECTION(history, 6000, 120000, "1-30 operations: pull, change of the queue length (mostly 1-6), stop, start again, pull what is left after a stop, look at the queue; delays in source and consumer; non-trivial: five or more pulls") {
    Rig r(s);
    auto cpat = pattern(s);
    int ops = static_cast<int>(s.turns(1, 30)), pulls = 0;
    s.note() << r.n << "x" << r.channels << " source " << pbt::show(r.src.pattern) << " consumer " << pbt::show(cpat) << ":";
    REQUIRE(r.par.max_size() == 1, "a new module keeps " << r.par.max_size() << " blocks");
    const auto longest = static_cast<size_t>(s.i(1, 5000000));
    r.par.max_size(longest);
    REQUIRE(r.par.max_size() == longest, "length reads back as " << r.par.max_size());
    r.par.max_size(1);
    bool running = false;
    size_t cap = 1, bound = 1;  // bound: longest queue the current run allowed
    int next = 0;               // number of the next block
    size_t left = 0;            // blocks a stop left in the queue
    const pbt::Swarm swarm(s, 0, 9);
    for (int o = 0; o < ops; ++o) {
        int op = swarm(s);
        delay(cpat[static_cast<size_t>(o) % cpat.size()]);
        if (op == 0) {
            cap = static_cast<size_t>(s.chance(1, 20) ? s.i(7, 40) : s.i(1, 6));
            bound = std::max(bound, cap);
            s.note() << " max " << cap;
            r.par.max_size(cap);
            REQUIRE(r.par.max_size() == cap, "length reads back as " << r.par.max_size());
        } else if (op == 1 && running) {
            s.note() << " stop";
            r.sink.meta_stop();
            running = false;
            int made = r.src.made;
            left = r.par.size();
            REQUIRE(made == next + static_cast<int>(left), "the source made " << made - next << " blocks, " << left << " are in the queue");
            std::this_thread::yield();
            REQUIRE(r.src.made == made && r.src.inside == 0, "the source works after the stop");
            REQUIRE(r.par.get_state() == State::Stopped && r.src.get_state() == State::Stopped && r.scale.get_state() == State::Stopped, "a module is not stopped");
        } else if (op == 2 && !running) {
            s.note() << " start";
            next = r.src.made;  // what was left is dropped
            left = 0;
            bound = cap;
            r.sink.meta_start();
            running = true;
            REQUIRE(r.par.get_state() == State::Started && r.src.get_state() == State::Started, "a module is not started");
        } else if (running) {
            s.note() << " pull";
            r.sink.meta_process();
            AudioBuffer b = r.sink.get_buffer();
            r.check(b, next, "running");
            ++next;
            ++pulls;
        } else if (left > 0) {
            s.note() << " drain";
            r.sink.meta_process();
            AudioBuffer b = r.sink.get_buffer();
            r.check(b, next, "after the stop");
            ++next;
            --left;
        }
        size_t q = r.par.size();
        REQUIRE(q <= bound, "the queue has " << q << " blocks, at most " << bound << " are allowed");
        if (!running) REQUIRE(q == left, "the queue has " << q << " blocks, the stop left " << left);
        int ahead = r.src.made.load() - next;
        REQUIRE(ahead <= static_cast<int>(bound) + 1, "the source is " << ahead << " blocks ahead, at most " << bound << " and one in work are allowed");
        REQUIRE(!r.src.overlap && !r.src.wrong_state, "the source was used by two threads, or while not started");
    }
    s.nontrivial(pulls >= 5);
    if (running) r.sink.meta_stop();
}

SECTION(fill, 1500, 30000, "an idle consumer: the queue fills up to its length and the source goes no further; raised lengths let it go on, also from zero; non-trivial: a raise") {
    Rig r(s);
    size_t cap = static_cast<size_t>(s.chance(1, 15) ? s.i(5, s.chance(1, 8) ? 8000 : 200) : s.i(0, 4));
    r.par.max_size(cap);
    r.sink.meta_start();
    s.note() << "from " << cap;
    int raises = static_cast<int>(s.i(0, 3));
    s.nontrivial(raises > 0);
    for (int k = 0; k <= raises; ++k) {
        if (k) {
            cap += static_cast<size_t>(s.chance(1, 15) ? s.i(4, 200) : s.i(1, 3));
            s.note() << " to " << cap;
            delay(static_cast<int>(s.i(0, 11)));
            r.par.max_size(cap);
        }
        reaches([&] { return r.par.size() >= cap; }, [&] { return r.par.size(); });
        REQUIRE(r.par.size() == cap, "the queue stays at " << r.par.size() << " blocks of " << cap);
        delay(static_cast<int>(s.i(0, 11)));
        REQUIRE(r.par.size() == cap && r.src.made == static_cast<int>(cap), "the full queue of " << cap << " has " << r.par.size() << ", the source made " << r.src.made);
    }
    for (size_t k = 0; k < cap; ++k) {
        r.sink.meta_process();
        AudioBuffer b = r.sink.get_buffer();
        r.check(b, static_cast<int>(k), "after filling");
    }
    r.sink.meta_stop();
}

SECTION(longer, 24, 400, "hundreds to thousands of blocks from a queue of 1-300, with a stop and a start in between; non-trivial: over 1000 blocks") {
    Rig r(s);
    const size_t cap = static_cast<size_t>(s.chance(1, 3) ? s.i(1, 300) : s.i(1, 8));
    r.par.max_size(cap);
    s.note() << "queue of " << cap << ":";
    int total = 0;
    for (int run = static_cast<int>(s.i(1, 2)); run > 0; --run) {
        const int first = r.src.made, n = static_cast<int>(s.i(100, 5000));
        s.note() << " " << n;
        r.sink.meta_start();
        for (int k = 0; k < n; ++k) {
            if (k % 64 == 0) pbt::alive();
            r.sink.meta_process();
            AudioBuffer b = r.sink.get_buffer();
            r.check(b, first + k, "in a long run");
            REQUIRE(r.par.size() <= cap, "the queue has " << r.par.size() << " blocks of " << cap);
        }
        total += n;
        r.sink.meta_stop();
        REQUIRE(r.src.made == first + n + static_cast<int>(r.par.size()), "the source made " << r.src.made - first << " blocks, " << n << " were taken and " << r.par.size() << " are in the queue");
    }
    s.nontrivial(total > 1000);
}

SECTION(stopped, 4000, 80000, "a controller stops the module at a random moment while a consumer thread pulls: both return, the source is idle, no block is lost or repeated; non-trivial: blocks were taken before the stop") {
    Rig r(s);
    auto cpat = pattern(s);
    r.par.max_size(static_cast<size_t>(s.i(1, 5)));
    int stop_after = static_cast<int>(s.i(0, 12)), hold = static_cast<int>(s.i(0, 11));
    int rounds = static_cast<int>(s.i(1, 3));
    s.note() << "source " << pbt::show(r.src.pattern) << " consumer " << pbt::show(cpat) << " length " << r.par.max_size() << " stop after " << stop_after << " rounds " << rounds;
    for (int round = 0; round < rounds; ++round) {
        int first = r.src.made;
        r.sink.meta_start();
        std::atomic<bool> stop{false};
        std::atomic<int> taken{0};
        std::vector<AudioBuffer> got;
        std::thread consumer([&] {
            for (int k = 0; !stop; ++k) {
                r.par.set_buffer(AudioBuffer(0, 1));
                r.par.meta_process();
                AudioBuffer b = r.par.get_buffer();
                if (b.size() == 0) break;  // woken by the stop, nothing was there
                got.push_back(std::move(b));
                ++taken;
                delay(cpat[static_cast<size_t>(k) % cpat.size()]);
            }
        });
        const bool reached = reaches([&] { return taken >= stop_after; }, [&] { return taken.load(); });
        delay(hold);
        r.par.meta_stop();
        stop = true;
        consumer.join();
        int made = r.src.made;
        REQUIRE(reached, "the consumer got only " << taken << " blocks");
        REQUIRE(r.src.inside == 0, "the source works after the stop");
        while (r.par.size() > 0) {
            r.par.meta_process();
            got.push_back(AudioBuffer(r.par.get_buffer()));
        }
        REQUIRE(static_cast<int>(got.size()) == made - first, "the source made " << made - first << " blocks, " << got.size() << " arrived");
        for (size_t k = 0; k < got.size(); ++k) r.check(got[k], first + static_cast<int>(k), "consumer");
        // nothing left, and stopped: a pull returns
        r.par.meta_process();
        REQUIRE(r.src.made == made, "the source works after the stop");
        REQUIRE(!r.src.overlap && !r.src.wrong_state, "the source was used by two threads, or while not started");
        s.nontrivial(got.size() > 1);
    }
}

SECTION(consumers, 1500, 30000, "2-4 threads pull from one module at once, with a short or long queue: all of them go on, and what they took is what the source made first; non-trivial: five or more pulls") {
    Rig r(s);
    auto cpat = pattern(s);
    const int threads = static_cast<int>(s.i(2, 4)), each = static_cast<int>(s.sz(1, 20));
    size_t cap = static_cast<size_t>(s.i(1, 3));
    r.par.max_size(cap);
    s.note() << threads << " threads pull " << each << " each, length " << cap << ", source " << pbt::show(r.src.pattern) << " consumers " << pbt::show(cpat);
    s.nontrivial(threads * each > 4);
    r.sink.meta_start();
    std::atomic<int> left{threads}, pulled{0};
    std::vector<std::thread> pool;
    for (int t = 0; t < threads; ++t)
        pool.emplace_back([&, t] {
            for (int k = 0; k < each; ++k) {
                r.par.meta_process();
                ++pulled;
                delay(cpat[static_cast<size_t>(k + t) % cpat.size()]);
            }
            --left;
        });
    const bool stuck = !reaches([&] { return left == 0; }, [&] { return pulled.load(); });
    if (stuck) r.par.stop();  // wakes them
    for (auto& t : pool) t.join();
    REQUIRE(!stuck, "consumers wait for blocks, the source made " << r.src.made << " and waits");
    REQUIRE(r.par.size() <= cap, "the queue has " << r.par.size() << " blocks of " << cap);
    r.sink.meta_process();
    AudioBuffer b = r.sink.get_buffer();
    r.check(b, threads * each, "after all consumers");
    r.sink.meta_stop();
}

SECTION(two, 1500, 30000, "two parallel modules in one chain, with different lengths, deliver the sequence; non-trivial: three or more blocks") {
    Source src;
    src.pattern = pattern(s);
    ParallelModule a, b;
    SinkModule<> sink;
    sink.link(&a)->link(&b)->link(&src);
    sink.get_chain_info()->buffer_size = 3;
    sink.meta_info_sync();
    a.max_size(static_cast<size_t>(s.i(1, 4)));
    b.max_size(static_cast<size_t>(s.i(1, 4)));
    int pulls = static_cast<int>(s.i(0, 12));
    s.nontrivial(pulls > 2);
    s.note() << pulls << " pulls, lengths " << a.max_size() << " and " << b.max_size();
    sink.meta_start();
    std::string bad;
    for (int k = 0; k < pulls; ++k) {
        sink.meta_process();
        AudioBuffer x = sink.get_buffer();
        if (x.size() != 3 || x.at(0) != kit::Numbered::code(0, k, 0, 0)) {
            bad = "block " + std::to_string(k) + " is not the next one of the source";
            break;
        }
    }
    sink.meta_stop();
    REQUIRE(bad.empty(), bad);
}

SECTION(joined, 1500, 30000, "2-4 parallel branches mixed down, each with its own source, schedule and queue length; some with a parallel module behind the mixer, restarted 1-2 times: every block is the sum of the branches' blocks of that number; non-trivial: three or more blocks") {
    const int branches = static_cast<int>(s.i(2, 4)), channels = static_cast<int>(s.i(1, 2)), n = static_cast<int>(s.sz(1, 12));
    std::vector<Source> src(static_cast<size_t>(branches));
    std::vector<ParallelModule> par(static_cast<size_t>(branches));
    ModuleMixDown mix;
    ParallelModule last;
    SinkModule<> sink;
    const bool outer = s.b();
    if (outer) sink.link(&last)->link(&mix);
    else sink.link(&mix);
    for (size_t b = 0; b < src.size(); ++b) {
        src[b].pattern = pattern(s);
        par[b].max_size(static_cast<size_t>(s.i(1, 5)));
        mix.link(&par[b]);
        par[b].link(&src[b]);
    }
    last.max_size(static_cast<size_t>(s.i(1, 3)));
    sink.get_chain_info()->buffer_size = n;
    sink.get_chain_info()->channels = channels;
    sink.meta_info_sync();
    const int runs = static_cast<int>(s.i(1, 2));
    s.note() << branches << " branches" << (outer ? " behind another" : "") << ", " << n << "x" << channels << ":";
    std::string bad;
    for (int run = 0; run < runs && bad.empty(); ++run) {
        std::vector<int> first;
        for (auto& x : src) first.push_back(x.made);
        sink.meta_start();
        const int pulls = static_cast<int>(s.i(0, 10));
        s.note() << " " << pulls;
        s.nontrivial(pulls > 2);
        for (int k = 0; k < pulls && bad.empty(); ++k) {
            sink.meta_process();
            AudioBuffer x = sink.get_buffer();
            if (static_cast<int>(x.size()) != n * channels) {
                bad = "block " + std::to_string(k) + " has " + std::to_string(x.size()) + " samples";
                break;
            }
            for (int c = 0; c < channels; ++c)
                for (int j = 0; j < n; ++j) {
                    double want = 0;
                    for (auto f : first) want += kit::Numbered::code(0, f + k, c, j);
                    if (x.at(c, j) != want && bad.empty()) bad = "block " + std::to_string(k) + " of run " + std::to_string(run) + " is not the sum of the branches' blocks";
                }
        }
        sink.meta_stop();
        for (auto& x : src) {
            if (x.inside != 0 && bad.empty()) bad = "a source works after the stop";
            if ((x.overlap || x.wrong_state) && bad.empty()) bad = "a source was used by two threads, or while not started";
        }
    }
    REQUIRE(bad.empty(), bad);
}

namespace {
/// Stops the parallel module from its own thread
class Quitter : public Source {
   public:
    int quit_at = 0;
    bool late = false;  // when the block is ready
    ParallelModule* par = nullptr;
    std::atomic<bool> quit{false};
    void process() override {
        const bool now = made == quit_at;
        if (now && !late) par->stop();
        Source::process();
        if (now && late) par->stop();
        if (now) quit = true;
    }
};
struct Ended {
    Quitter src;
    ParallelModule par;
};
}  // namespace

SECTION(self, 600, 12000, "a source that stops the parallel module from the thread that runs it, at a drawn block: nothing is lost or repeated, and the source goes no further; non-trivial: blocks before that") {
    // (that thread is not ours to wait for: what it uses stays)
    static std::vector<std::unique_ptr<Ended>> kept;
    kept.push_back(std::make_unique<Ended>());
    Ended& e = *kept.back();
    SinkModule<> sink;
    sink.link(&e.par)->link(&e.src);
    sink.get_chain_info()->buffer_size = 3;
    sink.meta_info_sync();
    e.src.pattern = pattern(s);
    e.src.par = &e.par;
    e.src.late = s.b();
    e.src.quit_at = static_cast<int>(s.i(0, 8));
    const size_t cap = static_cast<size_t>(s.i(1, 5));
    e.par.max_size(cap);
    auto cpat = pattern(s);
    s.note() << "stops at block " << e.src.quit_at << (e.src.late ? ", when it is ready" : "") << ", length " << cap << ", source " << pbt::show(e.src.pattern) << " consumer " << pbt::show(cpat);
    s.nontrivial(e.src.quit_at > 0);
    sink.meta_start();
    int next = 0;
    std::string bad;
    auto take = [&] {
        sink.meta_process();
        AudioBuffer b = sink.get_buffer();
        if (b.size() == 3 && b.at(0) == kit::Numbered::code(0, next, 0, 0)) ++next;
        else bad = "block " + std::to_string(next) + " is not the next one of the source";
    };
    // (a pull may find nothing, once the module is stopped: look first)
    double end = pbt::now() + 10;
    for (int k = 0; !(e.src.quit && next == e.src.quit_at + 1) && bad.empty() && pbt::now() < end; ++k) {
        if (e.par.size() > 0) {
            take();
            end = pbt::now() + 10;
            pbt::alive();
            delay(cpat[static_cast<size_t>(k) % cpat.size()]);
        } else
            std::this_thread::yield();
    }
    delay(static_cast<int>(s.i(0, 11)));
    const int made = e.src.made;
    const size_t left = e.par.size();
    const auto state = e.par.get_state();
    sink.meta_stop();
    e.src.forward(nullptr);
    REQUIRE(bad.empty(), bad);
    REQUIRE(next == e.src.quit_at + 1 && left == 0, "took " << next << " blocks, " << left << " are left, the source stopped it at block " << e.src.quit_at);
    REQUIRE(made == e.src.quit_at + 1, "the source went on to block " << made << " after it stopped the module at block " << e.src.quit_at);
    REQUIRE(state == State::Stopped, "the module is not stopped");
    REQUIRE(!e.src.overlap && !e.src.wrong_state, "the source was used by two threads, or while not started");
}

PBT_MAIN
