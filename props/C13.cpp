// C13: a chain applies its modules in order, once per pull, to each buffer.
// Oracle: the composition of the modules' functions over the stream, a log of
// the calls, and the static chain of the same modules.
#include <tuple>

#include "amp_module.hpp"
#include "dspref.hpp"
#include "filter_module.hpp"
#include "maeckit.hpp"
#include "meta_audio.hpp"

namespace {

std::vector<int> trace;

/// A user's module: y = a x + b n (n: number of the pull), logs its call
template <maecm B = BaseModule*>
class User : public AudioModule<User<B>, B> {
   public:
    int id = 0;
    double a = 1, b = 0;
    int pulls = 0;
    void process() override {
        trace.push_back(id);
        for (std::size_t i = 0; i < this->buff.size(); ++i) this->buff.at(static_cast<int>(i)) = a * this->buff.at(static_cast<int>(i)) + b * pulls;
        ++pulls;
    }
};

/// A user's module that delays by one sample per channel
template <maecm B = BaseModule*>
class Delay : public AudioModule<Delay<B>, B> {
   public:
    int id = 0;
    std::vector<double> last;
    void start() override {
        last.clear();
        BaseModule::start();
    }
    void process() override {
        trace.push_back(id);
        last.resize(this->buff.channels(), 0.);
        const int n = static_cast<int>(this->buff.channel_capacity());
        for (int c = 0; c < static_cast<int>(this->buff.channels()); ++c)
            for (int i = 0; i < n; ++i) std::swap(last[static_cast<size_t>(c)], this->buff.at(c, i));
    }
};

class Logged : public kit::Numbered {
   public:
    void process() override {
        trace.push_back(0);
        kit::Numbered::process();
    }
};

enum Kind { SCALE, ADD, USER, DELAY, FILTER, COUNT, LATENCY, KINDS };
const char* kind_names[] = {"scale", "add", "user", "delay", "filter", "counter", "latency"};

struct Step {
    int kind, id;
    double a, b;
    std::vector<double> kernel;
};

Step gen_step(pbt::Src& s, int kinds, int id) {
    Step t{static_cast<int>(s.i(0, kinds - 1)), id, static_cast<double>(s.i(-8, 8)) / 4, static_cast<double>(s.i(-8, 8)) / 4, {}};
    if (t.kind == FILTER) t.kernel = s.vals(s.i(1, 6));
    s.note() << kind_names[t.kind] << "(" << t.a << "," << t.b << ") ";
    return t;
}

/// Applies one step to the stream of blocks
void apply(const Step& t, std::vector<kit::Chans>& st, double& scale) {
    if (t.kind == SCALE || t.kind == ADD || t.kind == USER) {
        for (size_t k = 0; k < st.size(); ++k)
            for (auto& ch : st[k])
                for (auto& v : ch) v = t.kind == SCALE ? v * t.a : (t.kind == ADD ? v + t.a : t.a * v + t.b * static_cast<double>(k));
        scale = scale * (1 + std::fabs(t.a)) + 10 * static_cast<double>(st.size());
    }
    if (t.kind == DELAY || t.kind == FILTER) {
        std::vector<double> h = t.kind == DELAY ? std::vector<double>{0, 1} : t.kernel;
        for (size_t c = 0; c < st[0].size(); ++c) {
            std::vector<double> all;
            for (auto& b : st) all.insert(all.end(), b[c].begin(), b[c].end());
            auto y = ref::conv(all, h);
            size_t p = 0;
            for (auto& b : st)
                for (auto& v : b[c]) v = y[p++];
        }
        scale *= 1 + ref::mag(h);
    }
}

void check_block(AudioBuffer& b, const kit::Chans& want, double rate, double scale, const std::string& what) {
    REQUIRE(b.channels() == want.size(), what << ": " << b.channels() << " channels");
    REQUIRE(b.get_samplerate() == rate, what << ": sample rate " << b.get_samplerate());
    auto got = kit::split(b);
    for (size_t c = 0; c < want.size(); ++c) kit::same(got[c], want[c], what + " channel " + std::to_string(c), 1e-11, scale);
}

std::vector<kit::Chans> numbered(int pulls, int channels, int n) {
    std::vector<kit::Chans> st;
    for (int k = 0; k < pulls; ++k) {
        kit::Chans b;
        for (int c = 0; c < channels; ++c) {
            std::vector<double> v;
            for (int j = 0; j < n; ++j) v.push_back(kit::Numbered::code(0, k, c, j));
            b.push_back(v);
        }
        st.push_back(b);
    }
    return st;
}

struct Made {
    std::unique_ptr<BaseModule> mod;
};

std::unique_ptr<BaseModule> build(const Step& t) {
    switch (t.kind) {
        case SCALE:
            return std::make_unique<AmplitudeScale<>>(t.a);
        case ADD:
            return std::make_unique<AmplitudeAdd<>>(t.a);
        case USER: {
            auto m = std::make_unique<User<>>();
            m->id = t.id;
            m->a = t.a;
            m->b = t.b;
            return m;
        }
        case DELAY: {
            auto m = std::make_unique<Delay<>>();
            m->id = t.id;
            return m;
        }
        case FILTER: {
            auto m = std::make_unique<BaseConvFilter<>>();
            m->set_kernel(std::make_unique<AudioBuffer>(t.kernel));
            return m;
        }
        case COUNT:
            return std::make_unique<Counter>();
        default:
            return std::make_unique<LatencyModule>();
    }
}

// static chains: every sequence of up to four of three modules
template <typename Src>
struct SScale {
    using T = AmplitudeScale<Src>;
    static constexpr int kind = SCALE;
};
template <typename Src>
struct SUser {
    using T = User<Src>;
};
template <typename Src>
struct SDelay {
    using T = Delay<Src>;
};

template <typename M>
void configure(M& m, const std::vector<Step>& steps, size_t at) {
    // steps[0] is nearest to the source; m is steps[at]
    if constexpr (requires { m.set_value(1.); })
        m.set_value(steps[at].a);
    else {
        m.id = steps[at].id;
        if constexpr (requires { m.pulls; }) {
            m.a = steps[at].a;
            m.b = steps[at].b;
        }
    }
    if (at > 0)
        if constexpr (!std::is_pointer_v<typename M::BT>)
            if constexpr (!std::is_same_v<typename M::BV, Logged>) configure(m.backward(), steps, at - 1);
}

template <typename F>
void run_chain(F&& pull, const std::vector<Step>& steps, const std::vector<kit::Chans>& want, double rate, double scale, const std::string& what, bool sink_logs = false) {
    std::vector<int> order = {0};
    for (auto& t : steps)
        if (t.kind == USER || t.kind == DELAY) order.push_back(t.id);
    for (size_t k = 0; k < want.size(); ++k) {
        trace.clear();
        AudioBuffer b = pull();
        REQUIRE(trace == order, what << ": pull " << k << " called " << pbt::show(trace) << ", expected " << pbt::show(order));
        check_block(b, want[k], rate, scale, what + " pull " + std::to_string(k));
    }
}

template <typename Chain>
void run_static(const std::vector<Step>& steps, int channels, int n, double rate, const std::vector<kit::Chans>& want, double scale) {
    SinkModule<Chain> sink;
    sink.get_chain_info()->channels = channels;
    sink.get_chain_info()->buffer_size = n;
    sink.get_chain_info()->sample_rate = rate;
    sink.meta_info_sync();
    configure(sink.backward(), steps, steps.size() - 1);
    sink.meta_start();
    run_chain([&] { sink.meta_process(); return AudioBuffer(sink.get_buffer()); }, steps, want, rate, scale, "static chain");
    sink.meta_stop();
    REQUIRE(sink.get_chain_info()->module_num == static_cast<int>(steps.size()) + 2, "static chain counts " << sink.get_chain_info()->module_num << " modules");
}

/// Finds the chain type of a list of kinds (SCALE, USER or DELAY)
template <typename Chain, int Depth>
void dispatch(const std::vector<Step>& steps, size_t at, int channels, int n, double rate, const std::vector<kit::Chans>& want, double scale) {
    if constexpr (Depth > 0) {
        if (at < steps.size()) {
            switch (steps[at].kind) {
                case SCALE:
                    return dispatch<AmplitudeScale<Chain>, Depth - 1>(steps, at + 1, channels, n, rate, want, scale);
                case USER:
                    return dispatch<User<Chain>, Depth - 1>(steps, at + 1, channels, n, rate, want, scale);
                default:
                    return dispatch<Delay<Chain>, Depth - 1>(steps, at + 1, channels, n, rate, want, scale);
            }
        }
    }
    if constexpr (!std::is_same_v<Chain, Logged>) run_static<Chain>(steps, channels, n, rate, want, scale);
}

}  // namespace

SECTION(order, 30000, 600000, "dynamic chains of 0-9 modules of seven kinds with random settings, 1-6 pulls of 1-30 samples in 1-4 channels; non-trivial: three or more modules and several pulls") {
    int n = static_cast<int>(s.sz(1, 30)), channels = static_cast<int>(s.i(1, 4)), pulls = static_cast<int>(s.turns(1, 6));
    double rate = s.pick<double>({44100, 48000, 8000});
    std::vector<Step> steps;
    int m = static_cast<int>(s.sz(0, 9));
    s.note() << pulls << " pulls of " << n << " x " << channels << ": ";
    for (int i = 0; i < m; ++i) steps.push_back(gen_step(s, KINDS, i + 1));
    s.nontrivial(m > 2 && pulls > 1);
    auto want = numbered(pulls, channels, n);
    double scale = 1e5;
    for (auto& t : steps) apply(t, want, scale);
    Logged src;
    SinkModule<> sink;
    std::vector<std::unique_ptr<BaseModule>> mods;
    for (auto& t : steps) mods.push_back(build(t));
    sink.get_chain_info()->channels = channels;
    sink.get_chain_info()->buffer_size = n;
    sink.get_chain_info()->sample_rate = rate;
    bool chained = s.b();
    if (chained) {
        // sink.link(a)->link(b)->...
        BaseModule* at = &sink;
        for (size_t i = mods.size(); i-- > 0;) {
            BaseModule* r = at->link(mods[i].get());
            REQUIRE(r == mods[i].get(), "link does not return the linked module");
            REQUIRE(r->forward() == at, "the linked module does not know its forward module");
            at = r;
        }
        at->link(&src);
    } else {
        // from the source on
        BaseModule* prev = &src;
        for (auto& md : mods) {
            md->link(prev);
            prev = md.get();
        }
        sink.link(prev);
    }
    sink.meta_info_sync();
    sink.meta_start();
    run_chain([&] { sink.meta_process(); return AudioBuffer(sink.get_buffer()); }, steps, want, rate, scale, "chain");
    sink.meta_stop();
    for (size_t i = 0; i < steps.size(); ++i)
        if (steps[i].kind == COUNT || steps[i].kind == LATENCY) {
            auto* c = dynamic_cast<Counter*>(mods[i].get());
            REQUIRE(c->processed() == pulls && c->samples() == pulls * n * channels, "module " << i << " counted " << c->processed() << " pulls, " << c->samples() << " samples");
        }
}

SECTION(deep, 400, 8000, "dynamic chains of 10-400 modules that add, negate or delay, or of a few modules with blocks of up to 80000 samples; non-trivial: over 100 modules or 65536 samples") {
    const bool wide = s.b();
    const int m = static_cast<int>(wide ? s.i(1, 4) : s.i(10, 400)), channels = static_cast<int>(s.i(1, 3)), pulls = static_cast<int>(s.i(1, 4));
    const int n = static_cast<int>(wide ? s.i(1000, 80000 / channels) : s.i(1, 6));
    std::vector<Step> steps;
    for (int i = 0; i < m; ++i) {
        Step t{static_cast<int>(s.pick<int64_t>({ADD, USER, DELAY, COUNT})), i + 1, static_cast<double>(s.i(-8, 8)) / 4, static_cast<double>(s.i(-8, 8)) / 4, {}};
        if (t.kind == USER) t.a = s.b() ? 1 : -1;
        steps.push_back(t);
    }
    s.note() << m << " modules, " << pulls << " pulls of " << n << " x " << channels;
    s.nontrivial(m > 100 || n * channels > 65536);
    // (the blocks hold small whole numbers: everything is exact)
    struct Src : kit::Script {
        void process() override {
            trace.push_back(0);
            kit::Script::process();
        }
    } src;
    std::vector<kit::Chans> want;
    int64_t x = s.i(0, 1000);
    for (int k = 0; k < pulls; ++k) {
        kit::Chans b(static_cast<size_t>(channels));
        for (auto& c : b)
            for (int i = 0; i < n; ++i) c.push_back(static_cast<double>(x = (x * 31 + 7) % 8191));
        src.add(b);
        want.push_back(b);
    }
    // (a delay by one sample, without a convolution of everything)
    for (auto& t : steps) {
        if (t.kind != DELAY) {
            double scale = 1;
            apply(t, want, scale);
            continue;
        }
        for (int c = 0; c < channels; ++c) {
            double last = 0;
            for (auto& b : want)
                for (auto& v : b[static_cast<size_t>(c)]) std::swap(last, v);
        }
    }
    SinkModule<> sink;
    std::vector<std::unique_ptr<BaseModule>> mods;
    BaseModule* prev = &src;
    for (auto& t : steps) {
        mods.push_back(build(t));
        mods.back()->link(prev);
        prev = mods.back().get();
    }
    sink.link(prev);
    sink.get_chain_info()->channels = channels;
    sink.get_chain_info()->buffer_size = n;
    sink.meta_info_sync();
    REQUIRE(sink.get_chain_info()->module_num == m + 2, "a chain of " << m + 2 << " modules counts " << sink.get_chain_info()->module_num);
    sink.meta_start();
    run_chain([&] { sink.meta_process(); return AudioBuffer(sink.get_buffer()); }, steps, want, 44100, 1e4, "chain");
    sink.meta_stop();
    for (auto& md : mods) REQUIRE(md->get_state() == BaseModule::State::Stopped, "a module is not stopped after the chain");
    sink.meta_finish();
    sink.meta_stop();
}

SECTION(statics, 20000, 400000, "static chains of every sequence of 1-4 modules of three kinds against the composition and against the dynamic chain; non-trivial: three or more modules and several pulls") {
    int n = static_cast<int>(s.sz(1, 20)), channels = static_cast<int>(s.i(1, 3)), pulls = static_cast<int>(s.turns(1, 5));
    double rate = s.pick<double>({44100, 48000, 8000});
    std::vector<Step> steps;
    int m = static_cast<int>(s.i(1, 4));
    s.note() << pulls << " pulls of " << n << " x " << channels << ": ";
    const int kinds[] = {SCALE, USER, DELAY};
    for (int i = 0; i < m; ++i) {
        Step t = gen_step(s, 3, i + 1);
        t.kind = kinds[t.kind];
        steps.push_back(t);
    }
    s.nontrivial(m > 2 && pulls > 1);
    auto want = numbered(pulls, channels, n);
    double scale = 1e5;
    for (auto& t : steps) apply(t, want, scale);
    dispatch<Logged, 4>(steps, 0, channels, n, rate, want, scale);
    // the same modules, linked at run time
    Logged src;
    SinkModule<> sink;
    std::vector<std::unique_ptr<BaseModule>> mods;
    BaseModule* prev = &src;
    for (auto& t : steps) {
        mods.push_back(build(t));
        mods.back()->link(prev);
        prev = mods.back().get();
    }
    sink.link(prev);
    sink.get_chain_info()->channels = channels;
    sink.get_chain_info()->buffer_size = n;
    sink.get_chain_info()->sample_rate = rate;
    sink.meta_info_sync();
    sink.meta_start();
    run_chain([&] { sink.meta_process(); return AudioBuffer(sink.get_buffer()); }, steps, want, rate, scale, "dynamic chain");
}

SECTION(static_link, 10000, 150000, "static chains put together with link_static from configured modules, and static modules at the end of a dynamic chain; non-trivial: several pulls") {
    int n = static_cast<int>(s.sz(1, 16)), channels = static_cast<int>(s.i(1, 3)), pulls = static_cast<int>(s.turns(1, 5));
    double a = static_cast<double>(s.i(-8, 8)) / 4, b = static_cast<double>(s.i(-8, 8)) / 4;
    s.note() << pulls << " pulls of " << n << " x " << channels << " add " << a << " scale " << b;
    s.nontrivial(pulls > 1);
    auto want = numbered(pulls, channels, n);
    for (auto& blk : want)
        for (auto& ch : blk)
            for (auto& v : ch) v = (v + a) * b;
    bool dynamic_front = s.b();
    using Inner = AmplitudeAdd<Logged>;
    auto setup = [&](auto& sink) {
        sink.get_chain_info()->channels = channels;
        sink.get_chain_info()->buffer_size = n;
        sink.meta_info_sync();
        sink.meta_start();
    };
    auto go = [&](auto& sink) {
        for (int k = 0; k < pulls; ++k) {
            sink.meta_process();
            AudioBuffer blk = sink.get_buffer();
            check_block(blk, want[static_cast<size_t>(k)], 44100, 1e6, "pull " + std::to_string(k));
        }
        sink.meta_stop();
    };
    Inner inner(a);
    AmplitudeScale<Inner> outer(b);
    auto* r = outer.link_static(std::move(inner));
    REQUIRE(r == &outer.backward(), "link_static does not return the linked module");
    REQUIRE(r->forward() == &outer, "the linked module does not know its forward module");
    REQUIRE(outer.backward().get_value() == a, "the linked module lost its value");
    if (dynamic_front) {
        SinkModule<> sink;
        sink.link(&outer);
        setup(sink);
        go(sink);
    } else {
        SinkModule<AmplitudeScale<Inner>> sink;
        sink.link_static(std::move(outer));
        setup(sink);
        REQUIRE(sink.backward().forward() == &sink && sink.backward().backward().forward() == &sink.backward(), "forward links after the sync");
        go(sink);
    }
}

SECTION(blocks, 12000, 200000, "chains, synced or not, whose source gives blocks of other sizes (none at all included), channel counts and rates on every pull; static and linked at run time; non-trivial: a block without samples between others") {
    struct Var : kit::Script {
        void process() override {
            trace.push_back(0);
            kit::Script::process();
        }
    };
    int pulls = static_cast<int>(s.turns(1, 8));
    std::vector<kit::Chans> want;
    std::vector<double> rates;
    Var first;
    bool empty = false, full = false;
    double x = 1;
    for (int k = 0; k < pulls; ++k) {
        int n = s.chance(1, 4) ? 0 : static_cast<int>(s.sz(1, 12)), ch = static_cast<int>(s.i(1, 4));
        (n == 0 ? empty : full) = true;
        kit::Chans b(static_cast<size_t>(ch));
        for (auto& c : b)
            for (int i = 0; i < n; ++i) c.push_back(x++);
        rates.push_back(s.pick<double>({44100, 48000, 8000, 22050.5}));
        first.add(b, rates.back());
        want.push_back(b);
        s.note() << n << "x" << ch << " ";
    }
    s.nontrivial(empty && full);
    std::vector<Step> steps;
    int m = static_cast<int>(s.i(1, 4));
    const int kinds[] = {SCALE, ADD, USER, COUNT};
    for (int i = 0; i < m; ++i) {
        Step t = gen_step(s, 4, i + 1);
        t.kind = kinds[t.kind];
        steps.push_back(t);
    }
    double scale = 1e5;
    for (auto& t : steps) apply(t, want, scale);
    auto go = [&](auto&& pull, const char* what) {
        std::vector<int> order = {0};
        for (auto& t : steps)
            if (t.kind == USER) order.push_back(t.id);
        for (size_t k = 0; k < want.size(); ++k) {
            trace.clear();
            AudioBuffer b = pull();
            REQUIRE(trace == order, what << ": pull " << k << " called " << pbt::show(trace) << ", expected " << pbt::show(order));
            check_block(b, want[k], rates[k], scale, std::string(what) + " pull " + std::to_string(k));
        }
    };
    const int how = static_cast<int>(s.i(0, 2));
    if (how < 2) {
        // linked at run time, with a sink and synced, or the last module alone
        SinkModule<> sink;
        std::vector<std::unique_ptr<BaseModule>> mods;
        BaseModule* prev = &first;
        for (auto& t : steps) {
            mods.push_back(build(t));
            mods.back()->link(prev);
            prev = mods.back().get();
        }
        if (how == 0) {
            sink.link(prev);
            sink.meta_info_sync();
            sink.meta_start();
            go([&] { sink.meta_process(); return AudioBuffer(sink.get_buffer()); }, "chain");
        } else
            go([&] { prev->meta_process(); return AudioBuffer(prev->get_buffer()); }, "modules without a sink");
        for (size_t i = 0; i < steps.size(); ++i)
            if (steps[i].kind == COUNT) {
                auto* c = dynamic_cast<Counter*>(mods[i].get());
                REQUIRE(c->processed() == pulls, "module " << i << " counted " << c->processed() << " pulls of " << pulls);
            }
    } else {
        steps.resize(2);
        steps[0] = Step{USER, 1, 2, 1, {}};
        steps[1] = Step{SCALE, 2, 3, 0, {}};
        want.clear();
        for (auto& b : first.blocks) want.push_back(kit::split(b));
        for (auto& t : steps) apply(t, want, scale);
        AmplitudeScale<User<Var>> chain(3.);
        chain.backward().id = 1;
        chain.backward().a = 2;
        chain.backward().b = 1;
        chain.backward().backward().blocks = first.blocks;
        if (s.b()) {
            SinkModule<> sink;
            sink.link(&chain);
            sink.meta_info_sync();
            sink.meta_start();
            go([&] { sink.meta_process(); return AudioBuffer(sink.get_buffer()); }, "static chain");
        } else
            go([&] { chain.meta_process(); return AudioBuffer(chain.get_buffer()); }, "static modules without a sink");
    }
}

SECTION(relink, 10000, 150000, "linking another module behind a running chain, and modules exchanged between pulls; non-trivial: a change between pulls") {
    int n = static_cast<int>(s.sz(1, 16)), pulls = static_cast<int>(s.turns(2, 8));
    Logged src;
    SinkModule<> sink;
    sink.get_chain_info()->buffer_size = n;
    AmplitudeScale<> x(2), y(3);
    AmplitudeAdd<> z(10);
    x.link(&src);
    y.link(&src);
    z.link(&src);
    int cur = -1;
    for (int k = 0; k < pulls; ++k) {
        int which = static_cast<int>(s.i(0, 2));
        s.note() << which << " ";
        if (which != cur) {
            BaseModule* m = which == 0 ? static_cast<BaseModule*>(&x) : (which == 1 ? static_cast<BaseModule*>(&y) : &z);
            sink.link(m);
            m->link(&src);
            sink.meta_info_sync();
            s.nontrivial(cur >= 0);
            cur = which;
            REQUIRE(sink.get_chain_info()->module_num == 3, "after relinking the chain counts " << sink.get_chain_info()->module_num << " modules");
        }
        sink.meta_process();
        AudioBuffer b = sink.get_buffer();
        REQUIRE(static_cast<int>(b.size()) == n, "size " << b.size());
        for (int j = 0; j < n; ++j) {
            double c = kit::Numbered::code(0, k, 0, j), w = which == 0 ? 2 * c : (which == 1 ? 3 * c : c + 10);
            REQUIRE(b.at(j) == w, "pull " << k << " sample " << j << " is " << b.at(j) << ", expected " << w);
        }
    }
}

SECTION(periods, 8000, 100000, "a period sink pulls the chain the set number of times (0-300) per process; non-trivial: more than one period") {
    const int top = s.chance(1, 20) ? 300 : 6;
    int n = static_cast<int>(s.sz(1, 16)), p = static_cast<int>(s.i(0, top)), rounds = static_cast<int>(s.turns(1, 4));
    Logged src;
    class Sink : public PeriodSink {
       public:
        std::vector<double> seen;
        void process() override {
            trace.push_back(99);
            for (std::size_t i = 0; i < this->buff.size(); ++i) seen.push_back(this->buff.at(static_cast<int>(i)));
        }
    } sink;
    User<> u;
    u.id = 1;
    sink.link(&u)->link(&src);
    sink.get_chain_info()->buffer_size = n;
    sink.meta_info_sync();
    bool deflt = s.chance(1, 4);
    if (deflt) p = 1;
    else sink.set_period(p);
    REQUIRE(sink.get_period() == p, "period reads back as " << sink.get_period());
    s.note() << p << " periods, " << rounds << " rounds of " << n;
    s.nontrivial(p > 1);
    sink.meta_start();
    trace.clear();
    int total = 0;
    for (int r = 0; r < rounds; ++r) {
        if (r > 0 && s.chance(1, 3)) {
            p = static_cast<int>(s.i(0, top));
            sink.set_period(p);
            s.note() << " then " << p;
        }
        sink.meta_process();
        total += p;
    }
    std::vector<int> order;
    std::vector<double> want;
    for (int k = 0; k < total; ++k) {
        order.insert(order.end(), {0, 1, 99});
        for (int j = 0; j < n; ++j) want.push_back(kit::Numbered::code(0, k, 0, j));
    }
    REQUIRE(trace == order, "calls " << pbt::show(trace) << ", expected " << pbt::show(order));
    kit::same(sink.seen, want, "the sink");
}

PBT_MAIN
