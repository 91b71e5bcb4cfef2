// C14: starting, stopping and finishing reach every module of a chain.
// Oracle: the post-order of the module tree (everything behind a module
// changes state before it does) and the documented states.
#include "maeckit.hpp"
#include "module_mixer.hpp"

namespace {

using State = BaseModule::State;
const char* state_name(State st) {
    static const char* n[] = {"created", "started", "finishing", "finished", "stopped"};
    return n[static_cast<int>(st)];
}

struct Event {
    char what;
    int id;
    int state;
    bool operator==(const Event&) const = default;
};
std::vector<Event> events;
std::string show(const std::vector<Event>& v) {
    std::string o;
    for (auto& e : v) o += std::string(1, e.what) + std::to_string(e.id) + "/" + state_name(static_cast<State>(e.state)) + " ";
    return o;
}

struct Settings {
    int id = 0;
    int hold = 0;      // pulls a module needs before it is done
    bool bare = false;  // overrides the hooks without calling the originals
};

/// Adds a log of the hooks to a module type
template <typename M>
class Logs : public M {
   public:
    Settings set;
    int left = -1;
    int pulled = 0;
    void start() override {
        events.push_back({'s', set.id, static_cast<int>(this->get_state())});
        if (!set.bare) M::start();
    }
    void stop() override {
        events.push_back({'x', set.id, static_cast<int>(this->get_state())});
        if (!set.bare) M::stop();
    }
    void finish() override {
        events.push_back({'f', set.id, static_cast<int>(this->get_state())});
        left = set.hold;
        if (left == 0) M::done();
    }
    void process() override {
        M::process();
        ++pulled;
        if (left > 0 && --left == 0) M::done();
    }
};

class Mid : public AudioModule<> {};
class Src : public SourceModule {
   public:
    void process() override { this->reserve(); }
};

struct Node {
    int kind = 0;  // 0 source, 1 module, 2 mixer
    std::vector<int> kids;
    std::unique_ptr<BaseModule> mod;
    Settings set;
};

struct Tree {
    std::vector<Node> nodes;
    std::vector<int> post;  // post-order of ids
};

int grow(pbt::Src& s, Tree& t, int depth, int& budget) {
    Node n;
    int id = static_cast<int>(t.nodes.size());
    n.kind = depth == 0 || budget <= 0 ? 0 : static_cast<int>(s.i(0, 2));
    --budget;
    n.set = {id, s.chance(1, 3) ? static_cast<int>(s.i(1, 3)) : 0, s.chance(1, 3)};
    t.nodes.emplace_back();
    if (n.kind == 1) n.kids.push_back(grow(s, t, depth - 1, budget));
    if (n.kind == 2) {
        int k = static_cast<int>(s.chance(1, 6) ? s.i(4, 9) : s.i(1, 3));
        for (int i = 0; i < k; ++i) n.kids.push_back(grow(s, t, depth - 1, budget));
    }
    auto place = [&](auto m) {
        m->set = n.set;
        n.mod = std::move(m);
    };
    if (n.kind == 0) place(std::make_unique<Logs<Src>>());
    if (n.kind == 1) place(std::make_unique<Logs<Mid>>());
    if (n.kind == 2) place(std::make_unique<Logs<ModuleMixDown>>());
    for (int k : n.kids) n.mod->link(t.nodes[static_cast<size_t>(k)].mod.get());
    t.post.push_back(id);
    t.nodes[static_cast<size_t>(id)] = std::move(n);
    return id;
}

std::string shape(const Tree& t, int id) {
    auto& n = t.nodes[static_cast<size_t>(id)];
    std::string o = std::to_string(id) + (n.kind == 0 ? "s" : n.kind == 1 ? "m" : "x") + (n.set.bare ? "!" : "") + (n.set.hold ? "+" + std::to_string(n.set.hold) : "");
    if (!n.kids.empty()) {
        o += "(";
        for (int k : n.kids) o += shape(t, k) + " ";
        o.back() = ')';
    }
    return o;
}

}  // namespace

SECTION(tree, 40000, 800000, "trees of up to 14 sources, modules and mixers under a sink, some with hooks that do not call the originals or that take some pulls to finish; 1-8 random operations of start, stop, finish and pull; non-trivial: three or more modules and three operations") {
    Tree t;
    int budget = static_cast<int>(s.i(1, 13));
    int root = grow(s, t, 5, budget);
    Logs<SinkModule<>> sink;
    const int sid = static_cast<int>(t.nodes.size());
    sink.set = {sid, s.chance(1, 4) ? 1 : 0, s.chance(1, 4)};
    s.note() << shape(t, root) << (sink.set.bare ? " sink!" : " sink") << ":";
    sink.link(t.nodes[static_cast<size_t>(root)].mod.get());
    sink.meta_info_sync();
    std::vector<BaseModule*> mods;
    std::vector<Settings> sets;
    std::vector<std::function<int()>> left;
    for (auto& n : t.nodes) mods.push_back(n.mod.get());
    for (auto& n : t.nodes) sets.push_back(n.set);
    mods.push_back(&sink);
    sets.push_back(sink.set);
    auto order = t.post;
    order.push_back(sid);
    const int total = static_cast<int>(mods.size());
    REQUIRE(sink.get_chain_info()->module_num == total, "the chain counts " << sink.get_chain_info()->module_num << " modules of " << total);
    for (auto* m : mods) REQUIRE(m->get_state() == State::Created, "a new module is " << state_name(m->get_state()));
    std::vector<State> state(mods.size(), State::Created);
    std::vector<int> wait(mods.size(), -1);
    int finished = 0;
    int ops = static_cast<int>(s.turns(1, 8));
    s.nontrivial(total > 2 && ops > 2);
    const pbt::Swarm swarm(s, 0, 3);
    for (int o = 0; o < ops; ++o) {
        int op = swarm(s);
        events.clear();
        std::vector<Event> want;
        s.note() << " " << "sxfp"[op];
        if (op == 3) {
            sink.meta_process();
            for (size_t i = 0; i < mods.size(); ++i)
                if (wait[i] > 0 && --wait[i] == 0) {
                    state[i] = State::Finished;
                    ++finished;
                }
        } else {
            if (op == 0) {
                sink.meta_start();
                finished = 0;
            }
            if (op == 1) sink.meta_stop();
            if (op == 2) sink.meta_finish();
            const State seen = op == 0 ? State::Started : op == 1 ? State::Stopped : State::Finishing;
            for (int id : order) {
                auto i = static_cast<size_t>(id);
                want.push_back({"sxf"[op], id, static_cast<int>(seen)});
                state[i] = seen;
                if (op == 2) {
                    wait[i] = sets[i].hold;
                    if (wait[i] == 0) {
                        state[i] = State::Finished;
                        ++finished;
                    }
                }
            }
        }
        // each module once, and every module after the ones behind it
        auto a = events, b = want;
        auto by = [](const Event& x, const Event& y) { return x.id < y.id; };
        std::stable_sort(a.begin(), a.end(), by);
        std::stable_sort(b.begin(), b.end(), by);
        REQUIRE(a == b, "operation " << o << " ran " << show(events) << " expected " << show(want));
        if (!events.empty()) {
            std::vector<size_t> place(mods.size());
            for (size_t i = 0; i < events.size(); ++i) place[static_cast<size_t>(events[i].id)] = i;
            REQUIRE(events.back().id == sid, "operation " << o << " did not reach the sink last: " << show(events));
            for (size_t i = 0; i < t.nodes.size(); ++i)
                for (int k : t.nodes[i].kids)
                    REQUIRE(place[static_cast<size_t>(k)] < place[i], "operation " << o << " reached module " << i << " before module " << k << " behind it: " << show(events));
        }
        for (size_t i = 0; i < mods.size(); ++i)
            REQUIRE(mods[i]->get_state() == state[i], "after operation " << o << " module " << i << " is " << state_name(mods[i]->get_state()) << ", expected " << state_name(state[i]));
        REQUIRE(sink.get_chain_info()->module_finish == finished, "the chain counts " << sink.get_chain_info()->module_finish << " finished modules, expected " << finished);
    }
}

SECTION(defaults, 10000, 100000, "trees of modules with the hooks they come with: every finished chain counts all of its modules; now and then hundreds of them; non-trivial: three or more modules") {
    // a line of plain modules, a mixer with some sources
    int n = static_cast<int>(s.chance(1, 60) ? s.i(20, 600) : s.i(0, 6)), k = static_cast<int>(s.chance(1, 60) ? s.i(10, 600) : s.i(1, 4));
    std::vector<std::unique_ptr<BaseModule>> mods;
    SinkModule<> sink;
    BaseModule* at = &sink;
    for (int i = 0; i < n; ++i) {
        mods.push_back(std::make_unique<Mid>());
        at = at->link(mods.back().get());
    }
    mods.push_back(std::make_unique<ModuleMixDown>());
    at = at->link(mods.back().get());
    for (int i = 0; i < k; ++i) {
        mods.push_back(std::make_unique<Src>());
        at->link(mods.back().get());
    }
    s.note() << n << " modules, " << k << " sources";
    s.nontrivial(n > 1);
    sink.meta_info_sync();
    int cycles = static_cast<int>(s.i(1, 3));
    const int total = static_cast<int>(mods.size()) + 1;
    for (int c = 0; c < cycles; ++c) {
        sink.meta_start();
        for (auto& m : mods) REQUIRE(m->get_state() == State::Started, "a module is " << state_name(m->get_state()) << " after the start");
        REQUIRE(sink.get_state() == State::Started, "the sink is not started");
        for (int p = static_cast<int>(s.i(0, 2)); p > 0; --p) sink.meta_process();
        sink.meta_finish();
        for (auto& m : mods) REQUIRE(m->get_state() == State::Finished, "a module is " << state_name(m->get_state()) << " after finishing");
        REQUIRE(sink.get_chain_info()->module_finish == total, "the chain counts " << sink.get_chain_info()->module_finish << " finished modules of " << total);
        sink.meta_stop();
        for (auto& m : mods) REQUIRE(m->get_state() == State::Stopped, "a module is " << state_name(m->get_state()) << " after the stop");
        REQUIRE(sink.get_state() == State::Stopped, "the sink is not stopped");
    }
}

namespace {

/// A module for static chains, with a log of its hooks
template <maecm B = BaseModule*>
class Link : public AudioModule<Link<B>, B> {
   public:
    Settings set;
    int left = -1;
    void start() override {
        events.push_back({'s', set.id, static_cast<int>(this->get_state())});
        if (!set.bare) AudioModule<Link<B>, B>::start();
    }
    void stop() override {
        events.push_back({'x', set.id, static_cast<int>(this->get_state())});
        if (!set.bare) AudioModule<Link<B>, B>::stop();
    }
    void finish() override {
        events.push_back({'f', set.id, static_cast<int>(this->get_state())});
        left = set.hold;
        if (left == 0) this->done();
    }
    void process() override {
        if (left > 0 && --left == 0) this->done();
    }
};

template <typename M>
void collect(M& m, std::vector<BaseModule*>& all, std::vector<Settings*>& sets) {
    if constexpr (requires { m.backward().set; }) collect(m.backward(), all, sets);
    all.push_back(&m);
    sets.push_back(&m.set);
}

template <typename Sink>
void statics(pbt::Src& s) {
    Sink sink;
    std::vector<BaseModule*> mods;
    std::vector<Settings*> sets;
    collect(sink, mods, sets);
    for (size_t i = 0; i < mods.size(); ++i) *sets[i] = {static_cast<int>(i), s.chance(1, 3) ? static_cast<int>(s.i(1, 3)) : 0, s.chance(1, 3)};
    s.note() << mods.size() << " modules:";
    sink.meta_info_sync();
    REQUIRE(sink.get_chain_info()->module_num == static_cast<int>(mods.size()), "a static chain counts " << sink.get_chain_info()->module_num << " modules of " << mods.size());
    std::vector<State> state(mods.size(), State::Created);
    std::vector<int> wait(mods.size(), -1);
    int finished = 0;
    const int ops = static_cast<int>(s.turns(1, 8));
    s.nontrivial(mods.size() > 2 && ops > 2);
    const pbt::Swarm swarm(s, 0, 3);
    for (int o = 0; o < ops; ++o) {
        const int op = swarm(s);
        events.clear();
        s.note() << " " << "sxfp"[op];
        std::vector<Event> want;
        if (op == 3) {
            sink.meta_process();
            for (size_t i = 0; i < mods.size(); ++i)
                if (wait[i] > 0 && --wait[i] == 0) {
                    state[i] = State::Finished;
                    ++finished;
                }
        } else {
            if (op == 0) {
                sink.meta_start();
                finished = 0;
            }
            if (op == 1) sink.meta_stop();
            if (op == 2) sink.meta_finish();
            const State seen = op == 0 ? State::Started : op == 1 ? State::Stopped : State::Finishing;
            for (size_t i = 0; i < mods.size(); ++i) {
                want.push_back({"sxf"[op], static_cast<int>(i), static_cast<int>(seen)});
                state[i] = seen;
                if (op == 2 && (wait[i] = sets[i]->hold) == 0) {
                    state[i] = State::Finished;
                    ++finished;
                }
            }
        }
        REQUIRE(events == want, "operation " << o << " of a static chain ran " << show(events) << " expected " << show(want));
        for (size_t i = 0; i < mods.size(); ++i)
            REQUIRE(mods[i]->get_state() == state[i], "after operation " << o << " module " << i << " of a static chain is " << state_name(mods[i]->get_state()) << ", expected " << state_name(state[i]));
        REQUIRE(sink.get_chain_info()->module_finish == finished, "a static chain counts " << sink.get_chain_info()->module_finish << " finished modules, expected " << finished);
    }
}

template <maecm B>
using Top = Logs<SinkModule<B>>;

}  // namespace

SECTION(statics, 15000, 200000, "static chains of 1-5 modules behind a sink, some with hooks that do not call the originals or that take some pulls to finish; 1-8 random operations; non-trivial: three or more modules and three operations") {
    using S = Logs<Src>;
    switch (s.i(0, 3)) {
        case 0: return statics<Top<S>>(s);
        case 1: return statics<Top<Link<S>>>(s);
        case 2: return statics<Top<Link<Link<S>>>>(s);
        default: return statics<Top<Link<Link<Link<Link<S>>>>>>(s);
    }
}

PBT_MAIN
