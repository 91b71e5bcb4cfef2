// C15: an info sync gives every module of a chain the format of its sink.
// Oracle: the settings of the sink, applied from the front to the back; and
// the buffers the chain then produces.
#include "amp_module.hpp"
#include "filter_module.hpp"
#include "fund_oscillator.hpp"
#include "maeckit.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "module_param.hpp"

namespace {

struct Format {
    double rate = 44100;
    int size = 440, channels = 1;
    bool operator==(const Format&) const = default;
};
std::ostream& operator<<(std::ostream& o, const Format& f) { return o << f.size << "x" << f.channels << "@" << f.rate; }

/// Changes what it asks of the modules behind it
class Adapter : public AudioModule<> {
   public:
    int times = 1;
    int syncs = 0;
    void info_sync() override {
        AudioModule<>::info_sync();
        this->get_info()->in_buffer *= times;
        this->get_info()->out_buffer *= times;
        ++syncs;
    }
    void process() override {
        // takes a longer buffer, passes on the start of it
        const int n = static_cast<int>(this->buff.channel_capacity()) / times, ch = static_cast<int>(this->buff.channels());
        AudioBuffer out(n, ch, this->buff.get_samplerate());
        for (int c = 0; c < ch; ++c)
            for (int i = 0; i < n; ++i) out.at(c, i) = this->buff.at(c, i);
        this->set_buffer(std::move(out));
    }
};
/// Works at another rate, and takes blocks of another size than it passes on
class Rated : public AudioModule<> {
   public:
    int times = 1;
    double rate = 1;
    void info_sync() override {
        AudioModule<>::info_sync();
        this->get_info()->in_buffer *= times;
        this->get_info()->sample_rate *= rate;
    }
    void process() override { this->buff.set_samplerate(this->forward()->get_info()->sample_rate); }
};
class Mid : public AudioModule<> {
   public:
    using AudioModule<>::buff;
};

struct Node {
    int kind = 0;
    std::vector<int> kids;
    std::unique_ptr<BaseModule> mod;
    int times = 1, in = 1;
    double rate = 1;
};
enum { CONST, NUMBERED, OSC, MID, SCALE, ADAPT, RATED, MIX, COUNT, LATENCY, SINC, UNIFORM };

int grow(pbt::Src& s, std::vector<Node>& t, int depth, int& budget, std::string& shape) {
    int id = static_cast<int>(t.size());
    t.emplace_back();
    Node n;
    n.kind = depth == 0 || budget <= 0 ? static_cast<int>(s.i(CONST, OSC)) : static_cast<int>(s.i(CONST, UNIFORM));
    --budget;
    n.times = n.kind == ADAPT ? static_cast<int>(s.i(1, 3)) : 1;
    shape += "cnoMSARXCLFU"[n.kind];
    if (n.times > 1) shape += std::to_string(n.times);
    int kids = n.kind <= OSC ? 0 : n.kind == MIX ? static_cast<int>(s.chance(1, 6) ? s.i(4, 8) : s.i(1, 3)) : 1;
    shape += kids ? "(" : "";
    for (int i = 0; i < kids; ++i) n.kids.push_back(grow(s, t, depth - 1, budget, shape));
    shape += kids ? ")" : "";
    switch (n.kind) {
        case CONST: n.mod = std::make_unique<ConstModule>(1.); break;
        case NUMBERED: n.mod = std::make_unique<kit::Numbered>(); break;
        case OSC: n.mod = std::make_unique<SineOscillator>(440.); break;
        case MID: n.mod = std::make_unique<Mid>(); break;
        case SCALE: n.mod = std::make_unique<AmplitudeScale<>>(2.); break;
        case ADAPT: {
            auto m = std::make_unique<Adapter>();
            m->times = n.times;
            n.mod = std::move(m);
            break;
        }
        case RATED: {
            auto m = std::make_unique<Rated>();
            m->times = n.in = static_cast<int>(s.i(1, 3));
            m->rate = n.rate = s.pick<double>({1, 2, 1.5});
            shape += std::to_string(n.in) + "*" + std::to_string(n.rate).substr(0, 3);
            n.mod = std::move(m);
            break;
        }
        case COUNT: n.mod = std::make_unique<Counter>(); break;
        case LATENCY: n.mod = std::make_unique<LatencyModule>(); break;
        case SINC: {
            auto m = std::make_unique<SincFilter<>>();
            m->set_start_freq(100);
            m->set_size(5);
            n.mod = std::move(m);
            break;
        }
        case MIX: n.mod = std::make_unique<ModuleMixDown>(); break;
        default: n.mod = std::make_unique<UniformBuffer>();
    }
    for (int k : n.kids) n.mod->link(t[static_cast<size_t>(k)].mod.get());
    t[static_cast<size_t>(id)] = std::move(n);
    return id;
}

Format info(BaseModule* m) { return {m->get_info()->sample_rate, m->get_info()->out_buffer, m->get_info()->channels}; }

void walk(const std::vector<Node>& t, int id, Format f, int in, ChainInfo* chain, const char* when) {
    auto& n = t[static_cast<size_t>(id)];
    f.size *= n.times;
    f.rate *= n.rate;
    in *= n.times * n.in;
    Format got = info(n.mod.get());
    REQUIRE(got == f, when << ": module " << id << " has " << got << ", expected " << f);
    REQUIRE(n.mod->get_info()->in_buffer == in, when << ": module " << id << " has an in buffer of " << n.mod->get_info()->in_buffer << ", expected " << f.size);
    REQUIRE(n.mod->get_chain_info() == chain, when << ": module " << id << " does not share the information of the chain");
    for (int k : n.kids) {
        REQUIRE(t[static_cast<size_t>(k)].mod->forward() == n.mod.get(), when << ": module " << k << " has the wrong forward module");
        walk(t, k, f, in, chain, when);
    }
}

Format gen(pbt::Src& s) {
    Format f;
    f.rate = s.b() ? s.pick<double>({44100, 48000, 8000, 96000, 44055.9375, 1.5}) : static_cast<double>(s.i(2, 400000)) / 2;
    f.size = static_cast<int>(s.sz(1, 64));
    f.channels = static_cast<int>(s.i(1, 5));
    if (s.chance(1, 60)) {
        f.channels = static_cast<int>(s.pick<int64_t>({1, 2, 8, 32, 300}));
        f.size = static_cast<int>(s.i(1, 4000)) * 8 / f.channels + 1;
    }
    return f;
}
void put(SinkModule<>& sink, const Format& f) {
    sink.get_chain_info()->sample_rate = f.rate;
    sink.get_chain_info()->buffer_size = f.size;
    sink.get_chain_info()->channels = f.channels;
}

}  // namespace

SECTION(tree, 30000, 500000, "trees of up to 12 modules of twelve kinds (of which some ask for longer buffers or other rates), synced 1-4 times with different formats, then pulled; non-trivial: three or more modules and two formats") {
    std::vector<Node> t;
    int budget = static_cast<int>(s.i(1, 11));
    std::string shape;
    int root = grow(s, t, 5, budget, shape);
    s.note() << shape << ":";
    SinkModule<> sink;
    sink.link(t[static_cast<size_t>(root)].mod.get());
    Format fresh = info(&sink);
    REQUIRE(fresh == Format{}, "a new module has " << fresh);
    int rounds = static_cast<int>(s.turns(1, 4));
    s.nontrivial(t.size() > 2 && rounds > 1);
    for (int r = 0; r < rounds; ++r) {
        Format f = gen(s);
        s.note() << " " << f;
        put(sink, f);
        sink.meta_info_sync();
        REQUIRE(info(&sink) == f && sink.get_info()->in_buffer == f.size, "the sink has " << info(&sink) << ", expected " << f);
        walk(t, root, f, f.size, sink.get_chain_info(), "after the sync");
        REQUIRE(sink.get_chain_info()->module_num == static_cast<int>(t.size()) + 1, "the chain counts " << sink.get_chain_info()->module_num << " modules, it has " << t.size() + 1);
        if (s.b()) {
            sink.meta_info_sync();
            REQUIRE(sink.get_chain_info()->module_num == static_cast<int>(t.size()) + 1, "synced again, the chain counts " << sink.get_chain_info()->module_num << " modules, it has " << t.size() + 1);
            walk(t, root, f, f.size, sink.get_chain_info(), "after another sync");
        }
        sink.meta_start();
        for (int p = 0; p < 2; ++p) {
            sink.meta_process();
            AudioBuffer b = sink.get_buffer();
            // rebuffering keeps what the earlier format left in it
            if (shape.find('U') != std::string::npos && r > 0) continue;
            REQUIRE(static_cast<int>(b.size()) == f.size * f.channels, "the sink gets " << b.size() << " samples, it asks for " << f);
            REQUIRE(static_cast<int>(b.channels()) == f.channels, "the sink gets " << b.channels() << " channels, it asks for " << f);
            REQUIRE(b.get_samplerate() == f.rate, "the sink gets samples at " << b.get_samplerate() << ", it asks for " << f);
        }
        sink.meta_stop();
    }
}

SECTION(deep, 300, 6000, "chains of 20-1500 modules, some of them mixers with up to 60 more inputs, synced 1-3 times; non-trivial: over 100 modules") {
    std::vector<Node> t;
    const int depth = static_cast<int>(s.chance(1, 10) ? s.i(300, 1500) : s.i(20, 300));
    int wide = static_cast<int>(s.i(0, 3)), extra = 0;
    for (int i = 0; i < depth; ++i) {
        t.emplace_back();
        Node& n = t.back();
        n.kids = {i + 1};
        n.kind = MID;
        if (wide > 0 && s.chance(1, 10)) {
            n.kind = MIX;
            --wide;
            n.mod = std::make_unique<ModuleMixDown>();
        } else
            n.mod = std::make_unique<Mid>();
    }
    t.emplace_back();
    t.back().mod = std::make_unique<ConstModule>(1.);
    for (int i = 0; i < depth; ++i)
        if (t[static_cast<size_t>(i)].kind == MIX)
            for (int k = static_cast<int>(s.i(0, 60)); k > 0; --k, ++extra) {
                t[static_cast<size_t>(i)].kids.push_back(static_cast<int>(t.size()));
                t.emplace_back();
                t.back().mod = std::make_unique<ConstModule>(1.);
            }
    for (auto& n : t)
        for (int k : n.kids) n.mod->link(t[static_cast<size_t>(k)].mod.get());
    SinkModule<> sink;
    sink.link(t[0].mod.get());
    s.note() << depth << " modules, " << extra << " more inputs:";
    s.nontrivial(t.size() > 100);
    for (int r = static_cast<int>(s.turns(1, 3)); r > 0; --r) {
        Format f = gen(s);
        s.note() << " " << f;
        put(sink, f);
        sink.meta_info_sync();
        walk(t, 0, f, f.size, sink.get_chain_info(), "in a deep chain");
        REQUIRE(sink.get_chain_info()->module_num == static_cast<int>(t.size()) + 1, "the chain counts " << sink.get_chain_info()->module_num << " modules, it has " << t.size() + 1);
        sink.meta_start();
        sink.meta_process();
        AudioBuffer b = sink.get_buffer();
        REQUIRE(static_cast<int>(b.size()) == f.size * f.channels && static_cast<int>(b.channels()) == f.channels && b.get_samplerate() == f.rate, "the sink gets " << b.size() << " samples in " << b.channels() << " channels at " << b.get_samplerate() << ", it asks for " << f);
        sink.meta_stop();
    }
}

SECTION(reserved, 10000, 100000, "modules that were synced 1-3 times reserve blocks of their format, or of a size and channel count of their own, between taking and changing them: the shape and rate of the block; non-trivial: several channels and formats") {
    Mid m;
    SinkModule<> sink;
    kit::Numbered src;
    sink.link(&m)->link(&src);
    const int rounds = static_cast<int>(s.turns(1, 3));
    bool own = false, several = false;
    for (int r = 0; r < rounds; ++r) {
        const Format f = gen(s);
        put(sink, f);
        sink.meta_info_sync();
        s.note() << " " << f;
        several = several || f.channels > 1;
        for (int k = static_cast<int>(s.i(1, 4)); k-- > 0;) {
            int n = f.size, c = f.channels;
            if (s.b()) {
                m.reserve();
                REQUIRE(m.buff.get_samplerate() == f.rate, "a reserved block has a rate of " << m.buff.get_samplerate());
            } else {
                n = static_cast<int>(s.sz(1, 64));
                c = static_cast<int>(s.i(1, 6));
                own = true;
                s.note() << " own " << n << "x" << c;
                m.reserve(n, c);
            }
            REQUIRE(static_cast<int>(m.buff.channels()) == c && static_cast<int>(m.buff.size()) == n * c && static_cast<int>(m.buff.channel_capacity()) == n, "a reserved block of " << n << " frames in " << c << " channels has " << m.buff.size() << " samples in " << m.buff.channels() << " channels");
            for (size_t i = 0; i < m.buff.size(); ++i) m.buff.at(static_cast<int>(i)) = static_cast<double>(i);
            if (s.b()) {
                AudioBuffer taken(m.get_buffer());
                REQUIRE(static_cast<int>(taken.size()) == n * c && static_cast<int>(taken.channels()) == c, "a block that was taken has " << taken.size() << " samples in " << taken.channels() << " channels");
            }
        }
    }
    s.nontrivial(own && several && rounds > 1);
}

SECTION(exchange, 10000, 150000, "1-3 sinks and a pool of modules and sources from which 1-8 chains are put together one after the other, each linked (again) and synced: formats, links, counts and blocks; non-trivial: a module that was linked elsewhere in between") {
    std::vector<std::unique_ptr<SinkModule<>>> sinks;
    for (int i = static_cast<int>(s.i(1, 3)); i > 0; --i) sinks.push_back(std::make_unique<SinkModule<>>());
    std::vector<std::unique_ptr<BaseModule>> mods, sources;
    for (int i = 0; i < 4; ++i) {
        switch (s.i(0, 3)) {
            case 0: mods.push_back(std::make_unique<Mid>()); break;
            case 1: mods.push_back(std::make_unique<AmplitudeScale<>>(2.)); break;
            case 2: mods.push_back(std::make_unique<Counter>()); break;
            default: mods.push_back(std::make_unique<LatencyModule>());
        }
    }
    for (int i = 0; i < 2; ++i) {
        if (s.b()) sources.push_back(std::make_unique<kit::Numbered>());
        else sources.push_back(std::make_unique<ConstModule>(1.));
    }
    const int rounds = static_cast<int>(s.turns(1, 8));
    bool elsewhere = false;
    for (int r = 0; r < rounds; ++r) {
        std::vector<BaseModule*> chain{sinks[static_cast<size_t>(s.i(0, static_cast<int64_t>(sinks.size()) - 1))].get()};
        std::vector<BaseModule*> left;
        for (auto& m : mods) left.push_back(m.get());
        for (int n = static_cast<int>(s.i(0, 3)); n > 0; --n) {
            const auto k = s.i(0, static_cast<int64_t>(left.size()) - 1);
            chain.push_back(left[static_cast<size_t>(k)]);
            left.erase(left.begin() + k);
        }
        chain.push_back(sources[static_cast<size_t>(s.i(0, 1))].get());
        auto* sink = static_cast<SinkModule<>*>(chain[0]);
        for (size_t i = 1; i < chain.size(); ++i) elsewhere = elsewhere || (chain[i]->forward() != nullptr && chain[i]->forward() != chain[i - 1]);
        const bool back = s.b();
        for (size_t k = 1; k < chain.size(); ++k) {
            const size_t i = back ? chain.size() - k : k;
            REQUIRE(chain[i - 1]->link(chain[i]) == chain[i], "link does not return the module");
        }
        const Format f = gen(s);
        s.note() << " " << chain.size() << (back ? "b" : "f") << " " << f;
        put(*sink, f);
        sink->meta_info_sync();
        REQUIRE(sink->get_chain_info()->module_num == static_cast<int>(chain.size()), "round " << r << ": the chain counts " << sink->get_chain_info()->module_num << " modules, it has " << chain.size());
        for (size_t i = 0; i < chain.size(); ++i) {
            REQUIRE(info(chain[i]) == f && chain[i]->get_info()->in_buffer == f.size, "round " << r << ": module " << i << " has " << info(chain[i]) << ", expected " << f);
            REQUIRE(chain[i]->get_chain_info() == sink->get_chain_info(), "round " << r << ": module " << i << " does not share the information of the chain");
            if (i > 0) REQUIRE(chain[i]->forward() == chain[i - 1], "round " << r << ": module " << i << " has the wrong forward module");
        }
        sink->meta_start();
        sink->meta_process();
        AudioBuffer b = sink->get_buffer();
        REQUIRE(static_cast<int>(b.size()) == f.size * f.channels && static_cast<int>(b.channels()) == f.channels && b.get_samplerate() == f.rate, "round " << r << ": the sink gets " << b.size() << " samples in " << b.channels() << " channels at " << b.get_samplerate() << ", it asks for " << f);
    }
    s.nontrivial(elsewhere);
}

SECTION(mix_up, 8000, 100000, "a module with several outputs takes the format its sinks agree on and passes it back; non-trivial: two or more outputs") {
    int outs = static_cast<int>(s.i(1, 4));
    ModuleMixUp up;
    kit::Numbered src;
    Mid mid;
    bool between = s.b();
    if (between) {
        up.link(&mid);
        mid.link(&src);
    } else
        up.link(&src);
    std::vector<std::unique_ptr<SinkModule<>>> sinks;
    for (int i = 0; i < outs; ++i) {
        sinks.push_back(std::make_unique<SinkModule<>>());
        sinks.back()->link(&up);
        REQUIRE(up.num_outputs() == i + 1, "outputs " << up.num_outputs());
    }
    s.nontrivial(outs > 1);
    Format f = gen(s);
    s.note() << outs << " outputs " << f;
    for (auto& k : sinks) {
        put(*k, f);
        k->meta_info_sync();
        REQUIRE(info(k.get()) == f, "a sink has " << info(k.get()) << ", expected " << f);
    }
    REQUIRE(info(&up) == f, "the mixer has " << info(&up) << ", expected " << f);
    REQUIRE(info(&src) == f, "the source has " << info(&src) << ", expected " << f);
    auto owned = [&](ChainInfo* c) {
        for (auto& k : sinks)
            if (k->get_chain_info() == c) return true;
        return false;
    };
    REQUIRE(owned(up.get_chain_info()) && src.get_chain_info() == up.get_chain_info(), "chain information");
    if (outs == 1) REQUIRE(sinks[0]->get_chain_info()->module_num == (between ? 4 : 3), "modules " << sinks[0]->get_chain_info()->module_num);
    for (auto& k : sinks) {
        k->meta_process();
        AudioBuffer b = k->get_buffer();
        REQUIRE(static_cast<int>(b.size()) == f.size * f.channels && static_cast<int>(b.channels()) == f.channels && b.get_samplerate() == f.rate, "a sink gets " << b.size() << " samples in " << b.channels() << " channels, it asks for " << f);
    }
}

SECTION(params, 15000, 200000, "parameters of modules, sources and sinks, constant or a chain of 1-3 modules, take the format of the module they belong to, also when it is synced again with another one; non-trivial: a chain of two or more modules") {
    Format f = gen(s);
    s.note() << f;
    double value = s.val();
    ModuleParam a(value), b;
    std::unique_ptr<ConstModule> cm;
    std::vector<std::unique_ptr<AmplitudeScale<>>> between;
    int n = 0;
    auto chain = [&] {
        n = static_cast<int>(s.i(0, 2));
        s.nontrivial(n > 0);
        BaseModule* at = &b;
        std::vector<std::unique_ptr<AmplitudeScale<>>> mods;
        for (int i = 0; i < n; ++i) {
            mods.push_back(std::make_unique<AmplitudeScale<>>(3.));
            at = at->link(mods.back().get());
        }
        auto c = std::make_unique<ConstModule>(value * 2);
        at->link(c.get());
        between = std::move(mods);
        cm = std::move(c);
    };
    chain();
    auto check = [&](BaseModule* owner) {
        Format o = info(owner);
        REQUIRE(o == f, "the owner has " << o << ", expected " << f);
        REQUIRE(info(&b) == f && info(cm.get()) == f, "parameter has " << info(&b) << ", its source " << info(cm.get()) << ", expected " << f);
        for (auto& m : between) REQUIRE(info(m.get()) == f, "a module of the parameter has " << info(m.get()) << ", expected " << f);
        for (ModuleParam* p : {&a, &b}) {
            AudioBuffer x = p->get();
            REQUIRE(static_cast<int>(x.size()) == f.size * f.channels && static_cast<int>(x.channels()) == f.channels && x.get_samplerate() == f.rate,
                    "parameter gives " << x.size() << " samples in " << x.channels() << " channels at " << x.get_samplerate() << ", expected " << f);
            double w = p == &a ? value : value * 2 * std::pow(3., n);
            for (size_t i = 0; i < x.size(); ++i) REQUIRE(pbt::near(x.at(static_cast<int>(i)), w, 1e-12), "parameter value " << x.at(static_cast<int>(i)) << ", expected " << w);
        }
    };
    int kind = static_cast<int>(s.i(0, 2));
    s.note() << " kind " << kind << " with " << n << " modules";
    SinkModule<> sink;
    const int syncs = static_cast<int>(s.turns(1, 3));
    auto again = [&](int k) {
        if (k == 0) return;
        if (s.b()) {
            chain();
            s.note() << ", then with " << n << " modules";
        }
        if (s.b()) f = gen(s);
        s.note() << ", then " << f;
    };
    if (kind == 0) {
        class P : public ParamModule<2> {
           public:
            P(ModuleParam* x, ModuleParam* y) : ParamModule<2>(x, y) {}
        } m(&a, &b);
        kit::Numbered src;
        sink.link(&m)->link(&src);
        for (int k = 0; k < syncs; ++k) {
            again(k);
            put(sink, f);
            sink.meta_info_sync();
            check(&m);
        }
        REQUIRE(info(&src) == f, "the source behind has " << info(&src));
        REQUIRE(sink.get_chain_info()->module_num == 3, "parameters are counted as modules of the chain");
    } else if (kind == 1) {
        class P : public ParamSource<2> {
           public:
            P(ModuleParam* x, ModuleParam* y) : ParamSource<2>(x, y) {}
        } m(&a, &b);
        sink.link(&m);
        for (int k = 0; k < syncs; ++k) {
            again(k);
            put(sink, f);
            sink.meta_info_sync();
            check(&m);
        }
        REQUIRE(sink.get_chain_info()->module_num == 2, "parameters are counted as modules of the chain");
    } else {
        class P : public ParamSink<2> {
           public:
            P(ModuleParam* x, ModuleParam* y) : ParamSink<2>(x, y) {}
        } m(&a, &b);
        kit::Numbered src;
        m.link(&src);
        for (int k = 0; k < syncs; ++k) {
            again(k);
            put(m, f);
            m.meta_info_sync();
            check(&m);
        }
        REQUIRE(info(&src) == f, "the source behind has " << info(&src));
    }
}

PBT_MAIN
