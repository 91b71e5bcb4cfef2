// C32: an ALSA sink plays its chain completely and handles its device properly.
// Oracle: a stand-in for the sound library that follows its documented rules
// (configuration spaces that narrow, handles that end with their close, frames
// read as channels times 16 bits) and records every call; the blocks of the
// chain converted to 16 bit and interleaved.
#ifndef ALSA_F
#define ALSA_F 1
#endif
extern "C" int __sanitizer_get_ownership(const volatile void*);  // of the address sanitizer

#include <cstring>
#include <iostream>
#include <list>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include "../../src/io/alsa_module.cpp"
#include "maeckit.hpp"

namespace {

struct Range {
    unsigned long lo = 0, hi = 0;
    bool set(unsigned long v) {
        if (v < lo || v > hi) return false;
        lo = hi = v;
        return true;
    }
    bool one() const { return lo == hi; }
};

struct Space {
    Range channels, rate, size, periods;
};

struct Dev {
    std::string name;
    std::optional<std::string> desc;
    int io = 0;  // 0 both, 1 output, 2 input
    bool broken = false;
    Space space;
    Space chosen;  // what is left open becomes this
    int open = 0;  // handles that are open now
};

/// What the fake library saw
struct World {
    std::vector<Dev> devs;
    int lists = 0;
    std::vector<char*> strings;  // handed out
    std::vector<snd_pcm_t*> pcms;
    std::string wrong;  // first broken rule
    std::vector<bool> underruns;
    size_t writes = 0;
    int prepares = 0;
    void bad(const std::string& w) {
        if (wrong.empty()) wrong = w;
    }
};
World* W = nullptr;

}  // namespace

struct _snd_pcm_hw_params {
    Space s;
    int access, format, resample;
    bool any;
};

struct _snd_pcm {
    Dev* dev;
    bool closed = false, committed = false, freed = false, xrun = false, drained = false;
    Space s;
    int access = -1, format = -1;
    std::vector<int16_t> sent;
    std::vector<size_t> frames;
    bool use(const char* what) {
        if (closed) W->bad(std::string(what) + " on a device that was closed");
        return !closed;
    }
};

extern "C" {
size_t snd_pcm_hw_params_sizeof() { return sizeof(_snd_pcm_hw_params); }
int snd_pcm_open(snd_pcm_t** out, const char* name, snd_pcm_stream_t dir, int mode) {
    for (auto& d : W->devs)
        if (d.name == name) {
            if (dir != SND_PCM_STREAM_PLAYBACK) W->bad("opened for something other than playback");
            if (mode != 0) W->bad("opened in another mode than blocking");
            if (d.broken || d.io == 2) return -ENOENT;
            if (d.open) return -EBUSY;  // hardware plays one stream
            ++d.open;
            *out = new _snd_pcm;
            (*out)->dev = &d;
            W->pcms.push_back(*out);
            return 0;
        }
    return -ENOENT;
}
int snd_pcm_close(snd_pcm_t* p) {
    if (!p->use("snd_pcm_close")) return -EINVAL;
    p->closed = true;
    --p->dev->open;
    return 0;
}
int snd_pcm_hw_free(snd_pcm_t* p) {
    if (!p->use("snd_pcm_hw_free")) return -EINVAL;
    p->freed = true;
    return 0;
}
int snd_pcm_drain(snd_pcm_t* p) {
    if (!p->use("snd_pcm_drain")) return -EINVAL;
    p->drained = true;
    return 0;
}
int snd_pcm_prepare(snd_pcm_t* p) {
    if (!p->use("snd_pcm_prepare")) return -EINVAL;
    p->xrun = false;
    ++W->prepares;
    return 0;
}
snd_pcm_sframes_t snd_pcm_writei(snd_pcm_t* p, const void* data, snd_pcm_uframes_t n) {
    if (!p->use("snd_pcm_writei")) return -EINVAL;
    if (!p->committed) {
        W->bad("snd_pcm_writei before the device was configured");
        return -EBADFD;
    }
    if (p->drained) W->bad("snd_pcm_writei after the device was drained");
    const size_t k = W->writes++;
    if (k < W->underruns.size() && W->underruns[k]) p->xrun = true;
    if (p->xrun) {
        p->frames.push_back(0);
        return -EPIPE;
    }
    // as the real one: n frames of all channels
    const auto* d = static_cast<const int16_t*>(data);
    for (size_t i = 0; i < n * p->s.channels.lo; ++i) p->sent.push_back(d[i]);
    p->frames.push_back(n);
    return static_cast<snd_pcm_sframes_t>(n);
}
int snd_pcm_hw_params_any(snd_pcm_t* p, snd_pcm_hw_params_t* h) {
    if (!p->use("snd_pcm_hw_params_any")) return -EINVAL;
    h->s = p->dev->space;
    h->access = h->format = -1;
    h->any = true;
    return 0;
}
int snd_pcm_hw_params_set_rate_resample(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned v) {
    p->use("snd_pcm_hw_params_set_rate_resample");
    h->resample = static_cast<int>(v);
    return 0;
}
int snd_pcm_hw_params_set_access(snd_pcm_t* p, snd_pcm_hw_params_t* h, snd_pcm_access_t v) {
    p->use("snd_pcm_hw_params_set_access");
    h->access = v;
    return 0;
}
int snd_pcm_hw_params_set_format(snd_pcm_t* p, snd_pcm_hw_params_t* h, snd_pcm_format_t v) {
    p->use("snd_pcm_hw_params_set_format");
    h->format = v;
    return 0;
}
int snd_pcm_hw_params_set_channels(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned v) { return p->use("set_channels") && h->s.channels.set(v) ? 0 : -EINVAL; }
int snd_pcm_hw_params_set_rate(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned v, int) { return p->use("set_rate") && h->s.rate.set(v) ? 0 : -EINVAL; }
int snd_pcm_hw_params_set_periods(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned v, int) { return p->use("set_periods") && h->s.periods.set(v) ? 0 : -EINVAL; }
int snd_pcm_hw_params_set_period_size(snd_pcm_t* p, snd_pcm_hw_params_t* h, snd_pcm_uframes_t v, int) { return p->use("set_period_size") && h->s.size.set(v) ? 0 : -EINVAL; }
int snd_pcm_hw_params(snd_pcm_t* p, snd_pcm_hw_params_t* h) {
    if (!p->use("snd_pcm_hw_params")) return -EINVAL;
    if (!h->any) W->bad("the configuration was not initialised");
    const auto fill = [](Range& r, const Range& c) {
        if (!r.one()) r.lo = r.hi = c.lo;
    };
    fill(h->s.channels, p->dev->chosen.channels);
    fill(h->s.rate, p->dev->chosen.rate);
    fill(h->s.size, p->dev->chosen.size);
    fill(h->s.periods, p->dev->chosen.periods);
    p->s = h->s;
    p->access = h->access;
    p->format = h->format;
    p->committed = true;
    return 0;
}
#define GETTER(what, type, field)                                                                             \
    int snd_pcm_hw_params_get_##what(const snd_pcm_hw_params_t* h, type* v, int*) {                           \
        if (!h->s.field.one()) return -EINVAL;                                                                \
        *v = static_cast<type>(h->s.field.lo);                                                                \
        return 0;                                                                                             \
    }                                                                                                         \
    int snd_pcm_hw_params_get_##what##_min(const snd_pcm_hw_params_t* h, type* v, int*) { return *v = static_cast<type>(h->s.field.lo), 0; } \
    int snd_pcm_hw_params_get_##what##_max(const snd_pcm_hw_params_t* h, type* v, int*) { return *v = static_cast<type>(h->s.field.hi), 0; }
GETTER(rate, unsigned, rate)
GETTER(periods, unsigned, periods)
GETTER(period_size, snd_pcm_uframes_t, size)
int snd_pcm_hw_params_get_channels(const snd_pcm_hw_params_t* h, unsigned* v) {
    if (!h->s.channels.one()) return -EINVAL;
    *v = static_cast<unsigned>(h->s.channels.lo);
    return 0;
}
int snd_pcm_hw_params_get_channels_min(const snd_pcm_hw_params_t* h, unsigned* v) { return *v = static_cast<unsigned>(h->s.channels.lo), 0; }
int snd_pcm_hw_params_get_channels_max(const snd_pcm_hw_params_t* h, unsigned* v) { return *v = static_cast<unsigned>(h->s.channels.hi), 0; }
// derived values
int snd_pcm_hw_params_get_buffer_size_min(const snd_pcm_hw_params_t* h, snd_pcm_uframes_t* v) { return *v = h->s.size.lo * h->s.periods.lo, 0; }
int snd_pcm_hw_params_get_buffer_size_max(const snd_pcm_hw_params_t* h, snd_pcm_uframes_t* v) { return *v = h->s.size.hi * h->s.periods.hi, 0; }
int snd_pcm_hw_params_get_buffer_size(const snd_pcm_hw_params_t* h, snd_pcm_uframes_t* v) { return h->s.size.one() && h->s.periods.one() ? (*v = h->s.size.lo * h->s.periods.lo, 0) : -EINVAL; }
int snd_pcm_hw_params_get_period_time_min(const snd_pcm_hw_params_t* h, unsigned* v, int*) { return *v = static_cast<unsigned>(h->s.size.lo * 1000000 / h->s.rate.hi), 0; }
int snd_pcm_hw_params_get_period_time_max(const snd_pcm_hw_params_t* h, unsigned* v, int*) { return *v = static_cast<unsigned>(h->s.size.hi * 1000000 / h->s.rate.lo), 0; }
int snd_pcm_hw_params_get_period_time(const snd_pcm_hw_params_t* h, unsigned* v, int*) { return h->s.size.one() && h->s.rate.one() ? (*v = static_cast<unsigned>(h->s.size.lo * 1000000 / h->s.rate.lo), 0) : -EINVAL; }
int snd_pcm_hw_params_get_sbits(const snd_pcm_hw_params_t*) { return 16; }

// What the sink could use as well
int snd_pcm_drop(snd_pcm_t* p) {
    // throws away what the device holds
    return p->use("snd_pcm_drop") ? 0 : -EINVAL;
}
int snd_pcm_recover(snd_pcm_t* p, int err, int) {
    if (!p->use("snd_pcm_recover")) return -EINVAL;
    return err == -EPIPE ? snd_pcm_prepare(p) : err;
}
int snd_pcm_resume(snd_pcm_t* p) { return p->use("snd_pcm_resume") ? 0 : -EINVAL; }
int snd_pcm_start(snd_pcm_t* p) { return p->use("snd_pcm_start") ? 0 : -EINVAL; }
int snd_pcm_reset(snd_pcm_t* p) { return p->use("snd_pcm_reset") ? 0 : -EINVAL; }
int snd_pcm_wait(snd_pcm_t* p, int) { return p->use("snd_pcm_wait") ? (p->xrun ? -EPIPE : 1) : -EINVAL; }
int snd_pcm_nonblock(snd_pcm_t* p, int) { return p->use("snd_pcm_nonblock") ? 0 : -EINVAL; }
snd_pcm_state_t snd_pcm_state(snd_pcm_t* p) {
    if (!p->use("snd_pcm_state")) return SND_PCM_STATE_DISCONNECTED;
    return p->xrun ? SND_PCM_STATE_XRUN : !p->committed ? SND_PCM_STATE_OPEN : p->sent.empty() ? SND_PCM_STATE_PREPARED : SND_PCM_STATE_RUNNING;
}
snd_pcm_sframes_t snd_pcm_avail(snd_pcm_t* p) { return p->use("snd_pcm_avail") ? (p->xrun ? -EPIPE : static_cast<snd_pcm_sframes_t>(p->s.size.lo * p->s.periods.lo)) : -EINVAL; }
snd_pcm_sframes_t snd_pcm_avail_update(snd_pcm_t* p) { return snd_pcm_avail(p); }
int snd_pcm_hw_params_malloc(snd_pcm_hw_params_t** h) {
    *h = static_cast<snd_pcm_hw_params_t*>(std::calloc(1, sizeof(_snd_pcm_hw_params)));
    return *h ? 0 : -ENOMEM;
}
void snd_pcm_hw_params_free(snd_pcm_hw_params_t* h) { std::free(h); }
void snd_pcm_hw_params_copy(snd_pcm_hw_params_t* to, const snd_pcm_hw_params_t* from) { *to = *from; }
int snd_pcm_hw_params_current(snd_pcm_t* p, snd_pcm_hw_params_t* h) {
    if (!p->use("snd_pcm_hw_params_current") || !p->committed) return -EINVAL;
    h->s = p->s;
    h->access = p->access;
    h->format = p->format;
    h->any = true;
    return 0;
}
#define NEAR(what, type, field)                                                                       \
    int snd_pcm_hw_params_set_##what##_near(snd_pcm_t* p, snd_pcm_hw_params_t* h, type* v, int*) {     \
        if (!p->use("set_" #what "_near")) return -EINVAL;                                            \
        *v = static_cast<type>(*v < h->s.field.lo ? h->s.field.lo : *v > h->s.field.hi ? h->s.field.hi : *v); \
        h->s.field.set(*v);                                                                           \
        return 0;                                                                                     \
    }
NEAR(rate, unsigned, rate)
NEAR(periods, unsigned, periods)
NEAR(period_size, snd_pcm_uframes_t, size)
int snd_pcm_hw_params_set_channels_near(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned* v) {
    if (!p->use("set_channels_near")) return -EINVAL;
    *v = static_cast<unsigned>(*v < h->s.channels.lo ? h->s.channels.lo : *v > h->s.channels.hi ? h->s.channels.hi : *v);
    h->s.channels.set(*v);
    return 0;
}
int snd_pcm_hw_params_test_rate(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned v, int) { return p->use("test_rate") && v >= h->s.rate.lo && v <= h->s.rate.hi ? 0 : -EINVAL; }
int snd_pcm_hw_params_test_channels(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned v) { return p->use("test_channels") && v >= h->s.channels.lo && v <= h->s.channels.hi ? 0 : -EINVAL; }
const char* snd_strerror(int e) { return std::strerror(e < 0 ? -e : e); }

// hints: pointers into the list of devices
int snd_device_name_hint(int, const char* iface, void*** out) {
    if (std::string(iface) != "pcm") W->bad("hints of another interface");
    auto** list = new void*[W->devs.size() + 1];
    for (size_t i = 0; i < W->devs.size(); ++i) list[i] = &W->devs[i];
    list[W->devs.size()] = nullptr;
    *out = list;
    ++W->lists;
    return 0;
}
int snd_device_name_free_hint(void** list) {
    delete[] list;
    --W->lists;
    return 0;
}
char* snd_device_name_get_hint(const void* hint, const char* id) {
    const auto* d = static_cast<const Dev*>(hint);
    std::string v;
    if (!std::strcmp(id, "NAME")) v = d->name;
    else if (!std::strcmp(id, "DESC")) {
        if (!d->desc) return nullptr;
        v = *d->desc;
    } else if (!std::strcmp(id, "IOID")) {
        if (d->io == 0) return nullptr;
        v = d->io == 1 ? "Output" : "Input";
    } else
        return nullptr;
    char* c = strdup(v.c_str());
    W->strings.push_back(c);
    return c;
}
}

namespace {

/// Ends the handles of a case whatever happens
struct Scope {
    World w;
    std::streambuf* old;
    std::ostringstream quiet;
    Scope() {
        W = &w;
        old = std::cout.rdbuf(quiet.rdbuf());
    }
    ~Scope() {
        std::cout.rdbuf(old);
        for (auto* p : w.pcms) delete p;
        W = nullptr;
    }
    void rules(const char* when) {
        REQUIRE(w.wrong.empty(), when << ": " << w.wrong);
        REQUIRE(w.lists == 0, when << ": " << w.lists << " lists of devices were not given back");
        size_t left = 0;
        for (auto* c : w.strings) left += __sanitizer_get_ownership(c) != 0;
        REQUIRE(left == 0, when << ": " << left << " strings of the sound library were not given back");
        w.strings.clear();
    }
    void closed(const char* when) {
        for (auto& d : w.devs) REQUIRE(d.open == 0, when << ": " << d.open << " handles of " << d.name << " are still open");
        for (auto* p : w.pcms) REQUIRE(p->closed, when << ": a handle was not closed");
    }
};

Range range(pbt::Src& s, unsigned long lo, unsigned long hi) {
    Range r;
    r.lo = static_cast<unsigned long>(s.i(static_cast<int64_t>(lo), static_cast<int64_t>(hi)));
    r.hi = s.chance(1, 4) ? r.lo : static_cast<unsigned long>(s.i(static_cast<int64_t>(r.lo), static_cast<int64_t>(hi)));
    return r;
}

Range inside(pbt::Src& s, const Range& r) {
    Range c;
    c.lo = c.hi = static_cast<unsigned long>(s.i(static_cast<int64_t>(r.lo), static_cast<int64_t>(r.hi)));
    return c;
}

Dev device(pbt::Src& s, std::string name) {
    Dev d;
    d.name = std::move(name);
    if (!s.chance(1, 5)) d.desc = s.pick<std::string>({"", "A device", "Two\nlines"});
    d.io = static_cast<int>(s.i(0, 2));
    d.broken = s.chance(1, 6);
    d.space.channels = range(s, 1, s.chance(1, 8) ? 12 : 6);
    d.space.rate = range(s, 4000, s.chance(1, 8) ? 400000 : 96000);
    d.space.size = range(s, 2, s.chance(1, 25) ? 5000 : 40);
    d.space.periods = range(s, 1, s.chance(1, 12) ? 20 : 4);
    d.chosen.channels = inside(s, d.space.channels);
    d.chosen.rate = inside(s, d.space.rate);
    d.chosen.size = inside(s, d.space.size);
    d.chosen.periods = inside(s, d.space.periods);
    return d;
}

/// A wish: 0 for none, in the range or (if allowed) outside of it
unsigned long wish(pbt::Src& s, const Range& r, bool open, unsigned long top) {
    if (open && s.chance(1, 3)) return 0;
    return open && s.chance(1, 5) ? top : inside(s, r).lo;
}

unsigned long granted(const Range& space, const Range& chosen, unsigned long wanted) {
    if (space.one()) return space.lo;
    return wanted && wanted >= space.lo && wanted <= space.hi ? wanted : chosen.lo;
}

void loaded(const DeviceInfo& i, const Dev& d, unsigned long channels, unsigned long rate, unsigned long size, unsigned long periods) {
    const auto ch = granted(d.space.channels, d.chosen.channels, channels), ra = granted(d.space.rate, d.chosen.rate, rate), si = granted(d.space.size, d.chosen.size, size), pe = granted(d.space.periods, d.chosen.periods, periods);
    REQUIRE(!i.load_fail, d.name << " counts as failed");
    REQUIRE(i.channels == ch && i.channels_min == ch && i.channels_max == ch, d.name << ": channels " << i.channels << " of " << i.channels_min << " to " << i.channels_max << ", the device has " << ch);
    REQUIRE(i.sample_rate == ra && i.sample_rate_min == ra && i.sample_rate_max == ra, d.name << ": rate " << i.sample_rate << " of " << i.sample_rate_min << " to " << i.sample_rate_max << ", the device has " << ra);
    REQUIRE(i.period_size == si && i.period_size_min == si && i.period_size_max == si, d.name << ": period size " << i.period_size << " of " << i.period_size_min << " to " << i.period_size_max << ", the device has " << si);
    REQUIRE(i.period == pe && i.period_min == pe && i.period_max == pe, d.name << ": periods " << i.period << " of " << i.period_min << " to " << i.period_max << ", the device has " << pe);
    REQUIRE(i.buffer_size == si * pe && i.buffer_size_min == si * pe && i.buffer_size_max == si * pe, d.name << ": buffer size " << i.buffer_size << " of " << i.buffer_size_min << " to " << i.buffer_size_max << ", the device has " << si * pe);
    const unsigned long t = si * 1000000 / ra;
    REQUIRE(i.period_time == t && i.period_time_min == t && i.period_time_max == t, d.name << ": period time " << i.period_time << " of " << i.period_time_min << " to " << i.period_time_max << ", the device has " << t);
}

/// Sends blocks of drawn samples in the format its info asks for
class Noise : public SourceModule {
   public:
    pbt::Src* s = nullptr;
    std::vector<std::vector<int16_t>> out;
    int64_t size = 0;  // other than the info's
    void process() override {
        auto* i = this->get_info();
        const int n = size ? static_cast<int>(size) : i->out_buffer;
        AudioBuffer b(n, i->channels, i->sample_rate);
        std::vector<int16_t> want;
        const double step = n < 100 ? 0 : s->unit(0, 1);
        for (int k = 0; k < n; ++k)
            for (int c = 0; c < i->channels; ++c) {
                const double v = n < 100 ? s->unit(-1, 1) : std::fmod((k * i->channels + c) * step, 2.) - 1;
                b.at(c, k) = v;
                want.push_back(mf_int16(v));
            }
        out.push_back(want);
        this->set_buffer(std::move(b));
    }
};

}  // namespace

SECTION(play, 12000, 150000, "a chain into a sink on a device of 1-12 channels with drawn ranges of rates, period sizes and period counts: 1-5 pulls of all its periods, underruns at drawn writes, 1-3 starts and stops, maybe with another device or settings in between; non-trivial: several channels and periods") {
    Scope x;
    const size_t nd = static_cast<size_t>(s.i(1, 3));
    for (size_t i = 0; i < nd; ++i) x.w.devs.push_back(device(s, i == 0 ? "default" : i == 1 ? "hw:1" : "hw:10"));
    const bool faulty = x.w.devs[0].broken;  // (then the sink's first device could not be opened)
    ALSASink sink;
    x.rules("after a sink was made");
    x.closed("after a sink was made");
    DeviceInfo info;
    Dev* at = nullptr;
    auto choose = [&](bool first) {
        const size_t target = static_cast<size_t>(s.i(0, static_cast<int64_t>(nd) - 1));
        at = &x.w.devs[target];
        at->broken = false;
        if (at->io == 2) at->io = 1;
        switch (first && target == 0 && !faulty ? s.i(0, 2) : s.i(0, 1)) {
            case 0: sink.set_device(at->name); break;
            case 1: sink.set_device(static_cast<int>(target)); break;
            default: break;
        }
        info = sink.get_device();
        REQUIRE(info.name == at->name && info.id == static_cast<int>(target), "the device of the sink is " << info.name << " with id " << info.id << ", it was set to " << at->name);
        if (s.b()) {
            info.channels = static_cast<unsigned>(inside(s, at->space.channels).lo);
            info.sample_rate = static_cast<unsigned>(inside(s, at->space.rate).lo);
            info.period_size = inside(s, at->space.size).lo;
            info.period = static_cast<unsigned>(inside(s, at->space.periods).lo);
            if (s.b()) info.update();
            sink.set_device(info);
        }
        if (info.period_size < 2) s.discard();
        s.note() << " " << at->name << ": " << info.channels << " channels, rate " << info.sample_rate << ", " << info.period << " periods of " << info.period_size;
    };
    choose(true);
    Noise src;
    src.s = &s;
    sink.link(&src);
    bool hit = false;
    const int rounds = static_cast<int>(s.turns(1, 3));
    for (int r = 0; r < rounds; ++r) {
        x.w.underruns.assign(static_cast<size_t>(s.i(0, 12)), false);
        x.w.writes = 0;
        for (auto&& u : x.w.underruns) u = s.chance(1, 4);
        src.out.clear();
        const bool other = r > 0 && s.chance(1, 3);
        if (other) choose(false);
        Dev& d = *at;
        if (r == 0 || other || s.b()) sink.meta_info_sync();
        REQUIRE(src.get_info()->channels == static_cast<int>(info.channels) && src.get_info()->sample_rate == info.sample_rate, "the chain has " << src.get_info()->channels << " channels at " << src.get_info()->sample_rate << ", the device " << info.channels << " at " << info.sample_rate);
        REQUIRE(sink.get_period() == static_cast<int>(info.period), "a pull has " << sink.get_period() << " periods, the device " << info.period);
        const size_t before = x.w.pcms.size();
        sink.meta_start();
        REQUIRE(x.w.pcms.size() == before + 1 && d.open == 1, "starting opened " << x.w.pcms.size() - before << " handles");
        auto* pcm = x.w.pcms.back();
        REQUIRE(pcm->committed && pcm->access == SND_PCM_ACCESS_RW_INTERLEAVED && pcm->format == SND_PCM_FORMAT_S16, "the device is not set up for interleaved 16 bit samples");
        REQUIRE(pcm->s.channels.lo == info.channels && pcm->s.rate.lo == info.sample_rate && pcm->s.size.lo == info.period_size && pcm->s.periods.lo == info.period, "the device is set up for " << pcm->s.channels.lo << " channels at " << pcm->s.rate.lo << " with " << pcm->s.periods.lo << " periods of " << pcm->s.size.lo);
        const auto now = sink.get_device();
        REQUIRE(now.period == info.period && now.period_size == info.period_size && now.buffer_size == info.period * info.period_size && now.period_time == info.period_size * 1000000 / info.sample_rate, "after the start the device is reported with " << now.period << " periods of " << now.period_size);
        const int pulls = static_cast<int>(s.turns(1, 5));
        for (int p = 0; p < pulls; ++p) {
            src.size = s.chance(1, 3) ? s.i(1, s.chance(1, 30) ? 3000 : 30) : 0;
            sink.meta_process();
        }
        src.size = 0;
        REQUIRE(src.out.size() == static_cast<size_t>(pulls) * info.period, pulls << " pulls of " << info.period << " periods took " << src.out.size() << " blocks");
        REQUIRE(pcm->frames.size() == src.out.size(), src.out.size() << " blocks were sent in " << pcm->frames.size() << " writes");
        std::vector<int16_t> want;
        for (size_t b = 0; b < src.out.size(); ++b) {
            const bool under = b < x.w.underruns.size() && x.w.underruns[b];
            hit = hit || under;
            REQUIRE(pcm->frames[b] * info.channels == (under ? 0 : src.out[b].size()), "block " << b << " of " << src.out[b].size() / info.channels << " frames was sent as " << pcm->frames[b] << " frames" << (under ? " (underrun)" : ""));
            if (!under) want.insert(want.end(), src.out[b].begin(), src.out[b].end());
        }
        for (size_t i = 0; i < want.size(); ++i) REQUIRE(pcm->sent[i] == want[i], "sample " << i << " is sent as " << pcm->sent[i] << ", expected " << want[i]);
        x.rules("while playing");
        sink.meta_stop();
        x.rules("after the stop");
        x.closed("after the stop");
        REQUIRE(pcm->drained, "the device was closed without playing what it held");
    }
    if (hit) s.label("underrun");
    s.nontrivial(info.channels > 1 && info.period > 1);
}

SECTION(devices, 20000, 250000, "0-6 devices, some without a description, for input, output or both, some that can't be opened: count, look-up by id and by name; non-trivial: three or more devices, one of which fails") {
    Scope x;
    const int n = static_cast<int>(s.i(0, 6));
    bool failing = false;
    for (int i = 0; i < n; ++i) {
        x.w.devs.push_back(device(s, s.chance(1, 4) ? "dev" + std::to_string(i) : s.pick<std::string>({"default", "hw", "hw:1", "hw:10", "hw:1,0", "plughw:1", "HW:1", "", "defaul"})));
        failing = failing || x.w.devs.back().broken;
    }
    s.note() << n << " devices";
    ALSABase a;
    REQUIRE(a.get_device_count() == n, "there are " << n << " devices, " << a.get_device_count() << " are counted");
    auto compare = [&](const DeviceInfo& i, int k) {
        const Dev& d = x.w.devs[static_cast<size_t>(k)];
        REQUIRE(i.id == k && i.name == d.name && i.description == d.desc.value_or(""), "device " << k << " is described as " << i.id << ", " << i.name << ", " << i.description);
        REQUIRE(i.output == (d.io != 2) && i.input == (d.io != 1), d.name << " is for " << (i.input ? "input" : "") << (i.output ? " output" : ""));
        // (names may be shared: the first of that name is opened)
        const Dev* o = nullptr;
        for (auto& e : x.w.devs)
            if (!o && e.name == d.name) o = &e;
        if (o->broken || o->io == 2) REQUIRE(i.load_fail, d.name << " can't be opened and does not count as failed");
        else loaded(i, *o, 1, 44100, 0, 0);
    };
    for (int k = 0; k < n; ++k) {
        compare(a.get_device_by_id(k), k);
        int first = 0;
        while (x.w.devs[static_cast<size_t>(first)].name != x.w.devs[static_cast<size_t>(k)].name) ++first;
        compare(a.get_device_by_name(x.w.devs[static_cast<size_t>(k)].name), first);
    }
    x.rules("after looking up devices");
    x.closed("after looking up devices");
    s.nontrivial(n > 2 && failing);
}

SECTION(update, 20000, 250000, "wishes for channels, rate, periods and period size, in the device's range, outside of it or none, 1-3 updates; non-trivial: two or more wishes") {
    Scope x;
    Dev nd = device(s, "default");
    nd.broken = false;
    nd.io = s.b() ? 0 : 1;
    x.w.devs.push_back(nd);
    const Dev& d = x.w.devs[0];
    DeviceInfo i;
    i.name = "default";
    int wishes = 0;
    const int rounds = static_cast<int>(s.turns(1, 3));
    for (int r = 0; r < rounds; ++r) {
        if (r == 0 || s.b()) i.channels = static_cast<unsigned>(wish(s, d.space.channels, true, 13));
        if (r == 0 || s.b()) i.sample_rate = static_cast<unsigned>(wish(s, d.space.rate, true, 500000));
        if (r == 0 || s.b()) i.period_size = wish(s, d.space.size, true, 6000);
        if (r == 0 || s.b()) i.period = static_cast<unsigned>(wish(s, d.space.periods, true, 21));
        const auto ch = i.channels, ra = i.sample_rate, pe = i.period;
        const auto si = i.period_size;
        wishes = (ch != 0) + (ra != 0) + (pe != 0) + (si != 0);
        s.note() << ch << " channels, rate " << ra << ", " << pe << " periods of " << si << "; ";
        i.update();
        loaded(i, d, ch, ra, si, pe);
        x.rules("after an update");
        x.closed("after an update");
    }
    s.nontrivial(wishes > 1);
}

PBT_MAIN
