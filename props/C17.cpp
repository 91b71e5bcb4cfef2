// C17: a module parameter delivers its constant or the samples of its chain.
// Oracle: a model of what is behind the parameter, over random histories.
#include "amp_module.hpp"
#include "fund_oscillator.hpp"
#include "maeckit.hpp"
#include "meta_audio.hpp"
#include "module_param.hpp"

namespace {

using State = BaseModule::State;

/// A source that knows how often it was started, stopped and pulled
class Watch : public AudioModule<> {
   public:
    int starts = 0, stops = 0, pulls = 0;
    void start() override { ++starts; }
    void stop() override { ++stops; }
    void process() override { ++pulls; }
};

template <int N, typename Base>
class Owner : public Base {
   public:
    int starts = 0, stops = 0;
    using Base::Base;
    void start() override { ++starts; }
    void stop() override { ++stops; }
};

}  // namespace

SECTION(history, 25000, 500000, "1-14 operations on a parameter: set a constant, link one of two chains, configure from an owner of random format, take values; constructed empty, from a constant or from a module; non-trivial: four or more operations") {
    kit::Numbered n1, n2;
    n1.id = 1;
    n2.id = 2;
    AmplitudeScale<> sc(2);
    sc.link(&n2);
    // model
    int behind = 0;  // 0 nothing, 1 constant, 2 n1, 3 sc(n2)
    double value = 0;
    int size = 440, channels = 1;
    double rate = 44100;
    std::unique_ptr<ModuleParam> p;
    switch (s.i(0, 2)) {
        case 0: p = std::make_unique<ModuleParam>(); break;
        case 1:
            value = s.val();
            p = std::make_unique<ModuleParam>(value);
            behind = 1;
            break;
        default:
            p = std::make_unique<ModuleParam>(static_cast<AudioModule<>*>(&n1));
            behind = 2;
    }
    s.note() << "from " << behind << ":";
    bool configured = behind != 2;
    Watch owner;
    int ops = static_cast<int>(s.turns(1, 14));
    s.nontrivial(ops >= 4);
    const pbt::Swarm swarm(s, 0, 4);
    for (int o = 0; o < ops; ++o) {
        switch (swarm(s)) {
            case 0:
                value = s.val();
                p->set_constant(value);
                behind = 1;
                configured = true;
                s.note() << " const " << value;
                break;
            case 1:
                behind = s.b() ? 2 : 3;
                p->link(behind == 2 ? static_cast<BaseModule*>(&n1) : &sc);
                configured = false;
                s.note() << " link " << behind;
                break;
            case 2: {
                ModuleInfo i;
                i.channels = channels = static_cast<int>(s.i(1, 4));
                i.in_buffer = size = static_cast<int>(s.chance(1, 200) ? s.i(1000, 30000) : s.sz(1, 40));
                i.out_buffer = static_cast<int>(s.sz(1, 40));
                i.sample_rate = rate = s.pick<double>({44100, 48000, 8000});
                owner.set_info(i);
                if (behind == 0) break;  // nothing to configure
                p->conf_mod(&owner);
                REQUIRE(p->forward() == &owner, "the parameter does not know its owner");
                configured = true;
                s.note() << " configure " << size << "x" << channels;
                break;
            }
            default: {
                if (behind == 0) break;
                if (!configured) {
                    p->meta_info_sync();
                    configured = true;
                }
                auto& src = behind == 2 ? n1 : n2;
                int k = src.made;
                s.note() << " get";
                AudioBuffer b = p->get();
                // the format is that of the last configuration
                int sz = p->get_chain_info()->buffer_size, ch = p->get_chain_info()->channels;
                REQUIRE(static_cast<int>(b.size()) == sz * ch && static_cast<int>(b.channels()) == ch, "got " << b.size() << " samples in " << b.channels() << " channels, expected " << sz << " in " << ch);
                REQUIRE(b.get_samplerate() == p->get_chain_info()->sample_rate, "sample rate " << b.get_samplerate());
                if (behind != 1) REQUIRE(src.made == k + 1, "the chain was pulled " << src.made - k << " times");
                for (int c = 0; c < ch; ++c)
                    for (int j = 0; j < sz; ++j) {
                        double want = behind == 1 ? value : kit::Numbered::code(behind - 1, k, c, j) * (behind == 3 ? 2 : 1);
                        REQUIRE(b.at(c, j) == want, "sample " << j << " of channel " << c << " is " << b.at(c, j) << ", expected " << want);
                    }
            }
        }
    }
}

SECTION(owners, 15000, 200000, "modules, sources and sinks with 1-3 parameters through 1-5 starts and stops: each parameter chain follows its owner, once each time; non-trivial: two or more parameters and several operations") {
    int kind = static_cast<int>(s.i(0, 2)), np = static_cast<int>(s.i(1, 3));
    std::vector<std::unique_ptr<ModuleParam>> ps;
    std::vector<std::unique_ptr<Watch>> ws;
    std::vector<std::unique_ptr<ConstModule>> cs;
    for (int i = 0; i < 3; ++i) {
        ws.push_back(std::make_unique<Watch>());
        cs.push_back(std::make_unique<ConstModule>(i + .5));
        ps.push_back(std::make_unique<ModuleParam>(static_cast<AudioModule<>*>(ws.back().get())));
        ws.back()->link(cs.back().get());
    }
    int ops = static_cast<int>(s.turns(1, 5));
    s.note() << "kind " << kind << " with " << np << " parameters:";
    s.nontrivial(np > 1 && ops > 1);
    auto go = [&](auto& owner, BaseModule& front, auto* behind) {
        front.meta_info_sync();
        int starts = 0, stops = 0;
        for (int o = 0; o < ops; ++o) {
            bool start = s.b();
            s.note() << (start ? " start" : " stop");
            if (start) {
                front.meta_start();
                ++starts;
            } else {
                front.meta_stop();
                ++stops;
            }
            State want = start ? State::Started : State::Stopped;
            REQUIRE(owner.starts == starts && owner.stops == stops, "the owner was started " << owner.starts << " and stopped " << owner.stops << " times, expected " << starts << " and " << stops);
            REQUIRE(owner.get_state() == want, "the owner has the wrong state");
            if (behind) REQUIRE(behind->get_state() == want, "the module behind the owner has the wrong state");
            for (int i = 0; i < np; ++i) {
                auto k = static_cast<size_t>(i);
                REQUIRE(ws[k]->starts == starts && ws[k]->stops == stops, "parameter " << i << " was started " << ws[k]->starts << " and stopped " << ws[k]->stops << " times, expected " << starts << " and " << stops);
                REQUIRE(ws[k]->get_state() == want && ps[k]->get_state() == want && cs[k]->get_state() == want, "a module of parameter " << i << " has the wrong state");
            }
        }
        // the parameters are there, in order
        auto* arr = owner.get_array();
        REQUIRE(static_cast<int>(arr->size()) == np, "number of parameters");
        for (int i = 0; i < np; ++i) {
            REQUIRE((*arr)[static_cast<size_t>(i)] == ps[static_cast<size_t>(i)].get(), "parameter " << i << " is another one");
            AudioBuffer b = (*arr)[static_cast<size_t>(i)]->get();
            REQUIRE(b.at(0) == i + .5, "parameter " << i << " gives " << b.at(0));
        }
    };
    auto with = [&]<int N>(auto&&... p) {
        if (kind == 0) {
            Owner<N, ParamModule<N>> m(p...);
            Watch behind;
            ConstModule c(1);
            SinkModule<> sink;
            sink.link(&m)->link(&behind)->link(&c);
            go(m, sink, &behind);
        } else if (kind == 1) {
            Owner<N, ParamSource<N>> m(p...);
            SinkModule<> sink;
            sink.link(&m);
            go(m, sink, static_cast<Watch*>(nullptr));
        } else {
            Owner<N, ParamSink<N>> m(p...);
            Watch behind;
            ConstModule c(1);
            m.link(&behind)->link(&c);
            go(m, m, &behind);
        }
    };
    if (np == 1) with.template operator()<1>(ps[0].get());
    if (np == 2) with.template operator()<2>(ps[0].get(), ps[1].get());
    if (np == 3) with.template operator()<3>(ps[0].get(), ps[1].get(), ps[2].get());
}

PBT_MAIN
