/*
 * pbt.hpp - a small property-based testing engine.
 *
 * - A property is a set of "sections". A section is a function that draws a
 *   case from a Src (a tape of bounded integers), runs the code under test and
 *   compares it with an oracle. All randomness comes from the tape, so a case
 *   is a pure function of its tape.
 * - Cases run in forked workers. A worker that fails, crashes (sanitizers) or
 *   hangs identifies its case through shared memory.
 * - A failing case is shrunk by editing its tape (every attempt in a forked
 *   child) and saved as a replay file: section + tape.
 */
#pragma once

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure {
    std::string msg;
};
struct Discard {};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h;
}

constexpr size_t MAX_TAPE = 1 << 18;

struct Shared {
    // per worker
    volatile uint64_t section, index;
    volatile double started;  // monotonic time at which the case started
    volatile int status;      // 0 running, 1 failed, 2 done
    char msg[4096];
    char note[8192];
    char tags[512];
    volatile uint64_t len;
    uint64_t tape[MAX_TAPE];
};

inline void put(char* dst, size_t cap, const std::string& s) {
    size_t n = std::min(cap - 1, s.size());
    memcpy(dst, s.data(), n);
    dst[n] = 0;
}

/// Description of a case; kept in shared memory so that it survives a crash
class Note {
   public:
    template <typename T>
    Note& operator<<(const T& v) {
        o << v;
        if (sh) put(sh->note, sizeof sh->note, o.str());
        return *this;
    }
    std::string str() const { return o.str(); }
    Shared* sh = nullptr;

   private:
    std::ostringstream o;
};

/// Numbers that code may treat in a way of its own: powers of two and their
/// neighbours, and the literals of the sources under test (PBT_DICT)
inline const std::vector<int64_t>& special() {
    static const std::vector<int64_t> d = [] {
        std::set<int64_t> v;
        for (int k = 4; k < 40; ++k)
            for (int64_t e : {-1, 0, 1}) v.insert((int64_t(1) << k) + e);
        if (const char* p = getenv("PBT_DICT")) {
            std::istringstream is(p);
            for (int64_t x; is >> x;)
                for (int64_t e : {-1, 0, 1}) v.insert(x + e);
        }
        return std::vector<int64_t>(v.begin(), v.end());
    }();
    return d;
}

class Src {
   public:
    /// Generate from a seed
    explicit Src(uint64_t seed) : state(seed), special_state(seed ^ 0x5bd1e995a3c1f00dull) {}
    /// Replay a tape
    explicit Src(std::vector<uint64_t> t) : replaying(true), tape(std::move(t)) {}

    /// Draw a value in [0, bound]; zero is the simplest
    uint64_t draw(uint64_t bound) {
        uint64_t v;
        if (replaying) {
            v = pos < tape.size() ? tape[pos] : 0;
            if (v > bound) v = bound;
        } else {
            const uint64_t n = next(state);
            v = bound == UINT64_MAX ? n : n % (bound + 1);
            if (wish) v = std::min(wanted, bound);
            wish = false;
        }
        ++pos;
        rec.push_back(v);
        if (mirror && rec.size() <= MAX_TAPE) {
            mirror->tape[rec.size() - 1] = v;
            mirror->len = rec.size();
        }
        return v;
    }

    /// Integer in [lo, hi]: uniform, in wide ranges at times a special one
    int64_t i(int64_t lo, int64_t hi) {
        if (hi <= lo) return lo;
        want_special(lo, hi);
        return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
    }

    /// Size in [lo, hi], biased to small values but covering the range
    int64_t sz(int64_t lo, int64_t hi) {
        uint64_t k = draw(3);
        int64_t top = hi;
        if (k == 0) top = std::min<int64_t>(hi, lo + 3);
        if (k == 1) top = std::min<int64_t>(hi, lo + 15);
        return i(lo, top);
    }

    /// Length of a history: short ones, at times a long one
    int64_t turns(int64_t lo, int64_t hi, int64_t most = 400) {
        const uint64_t k = draw(599);
        if (k == 599) return i(lo, most);
        if (k > 589) return i(lo, std::min<int64_t>(most, 60));
        return hi - lo > 24 ? sz(lo, hi) : i(lo, hi);
    }

    bool b() { return draw(1) == 1; }

    /// True with probability num/den (false is the simplest)
    bool chance(int num, int den) { return static_cast<int>(draw(den - 1)) >= den - num; }

    template <typename T>
    T pick(std::initializer_list<T> l) {
        return *(l.begin() + draw(l.size() - 1));
    }
    template <typename T>
    const T& pick(const std::vector<T>& l) {
        return l[draw(l.size() - 1)];
    }

    /// Uniform double in [lo, hi)
    double unit(double lo, double hi) {
        uint64_t v = draw((1ull << 53) - 1);
        return lo + (hi - lo) * (static_cast<double>(v) / static_cast<double>(1ull << 53));
    }

    /// A sample value: small integers, dyadic fractions, arbitrary in [-1, 1)
    double val() {
        switch (draw(3)) {
            case 0:
                return static_cast<double>(i(0, 8)) * (b() ? -1. : 1.);
            case 1:
                return static_cast<double>(i(0, 16)) / 8.0 - 1.0;
            case 2:
                return unit(-1., 1.);
            default:
                return pick<double>({0., 1., -1., .5, 1e-3, -1e-6, 1000., -32768., 1e-9, -1e-13, 1e-300, 123456.789});
        }
    }

    std::vector<double> vals(int64_t n) {
        std::vector<double> v(static_cast<size_t>(n));
        // mostly cheap mode for long vectors: one draw per value
        if (n > 24) {
            for (auto& x : v) x = static_cast<double>(static_cast<int64_t>(draw(4096)) - 2048) / 256.0;
        } else {
            for (auto& x : v) x = val();
        }
        return v;
    }

    void discard() { throw Discard{}; }
    void nontrivial(bool v = true) { nt = nt || v; }
    void label(const std::string& l) { labels.insert(l); }
    /// What a failure is about: compared with the known findings
    void tag(const std::string& t) { tags.insert(t); }

    Note& note() { return notes; }
    void mirror_to(Shared* m) {
        mirror = m;
        notes.sh = m;
    }

    bool replaying = false;
    std::vector<uint64_t> tape;
    std::vector<uint64_t> rec;
    size_t pos = 0;
    bool nt = false;
    std::set<std::string> labels, tags;
    Note notes;
    Shared* mirror = nullptr;

   private:
    uint64_t state = 0, special_state = 0;
    bool wish = false;
    uint64_t wanted = 0;  // what the next draw gives, with a wish
    void want_special(int64_t lo, int64_t hi) {
        if (replaying || static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) < 32 || next(special_state) % 16) return;
        const auto& d = special();
        const auto from = std::lower_bound(d.begin(), d.end(), lo), to = std::upper_bound(from, d.end(), hi);
        if (from == to) return;
        wish = true;
        wanted = static_cast<uint64_t>(*(from + static_cast<std::ptrdiff_t>(next(special_state) % static_cast<uint64_t>(to - from)))) - static_cast<uint64_t>(lo);
    }
    static uint64_t next(uint64_t& state) {
        state += 0x9e3779b97f4a7c15ull;
        uint64_t z = state;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};

/// Which operations a history draws from: all, or a random choice of them
class Swarm {
   public:
    Swarm(Src& s, int64_t lo, int64_t hi) {
        const bool some = s.chance(1, 2);
        for (int64_t v = lo; v <= hi; ++v)
            if (!some || !s.chance(1, 2)) on.push_back(v);
        if (on.empty()) on.push_back(lo);
    }
    int operator()(Src& s) const { return static_cast<int>(s.pick(on)); }

   private:
    std::vector<int64_t> on;
};

struct Section {
    std::string name;
    uint64_t quick, thorough;
    std::function<void(Src&)> fn;
    std::string rule;
};

inline std::vector<Section>& sections() {
    static std::vector<Section> s;
    return s;
}

struct Reg {
    Reg(const char* name, uint64_t q, uint64_t t, void (*fn)(Src&), const char* rule) {
        sections().push_back({name, q, t, fn, rule});
    }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
/// SECTION(identifier, quick cases, thorough cases, "what a case is / non-trivial rule") { body using Src& s }
#define SECTION(id, q, t, rule)                                 \
    static void PBT_CAT(section_, id)(pbt::Src & s);            \
    static pbt::Reg PBT_CAT(reg_, id)(#id, q, t, PBT_CAT(section_, id), rule); \
    static void PBT_CAT(section_, id)([[maybe_unused]] pbt::Src & s)

#define REQUIRE_(cond, msg)                                                   \
    do {                                                                      \
        if (!(cond)) {                                                        \
            std::ostringstream o_;                                            \
            o_.precision(17);                                                 \
            o_ << msg << "   [" << #cond << " at " << __LINE__ << "]";        \
            throw pbt::Failure{o_.str()};                                     \
        }                                                                     \
    } while (0)
#define REQUIRE(cond, msg) REQUIRE_(cond, msg)

inline bool near(double a, double b, double tol = 1e-9, double scale = 1.0) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    double m = std::max({scale, std::fabs(a), std::fabs(b)});
    return std::fabs(a - b) <= tol * m;
}

template <typename V>
std::string show(const V& v, size_t max = 24) {
    std::ostringstream o;
    o.precision(6);
    o << "[";
    size_t n = 0;
    for (auto&& x : v) {
        if (n) o << ",";
        if (n++ >= max) {
            o << "...";
            break;
        }
        o << +x;
    }
    o << "]";
    return o.str();
}

// ---------------------------------------------------------------- engine

/// Folder for scratch files, removed after the run
inline std::string& workdir() {
    static std::string w = ".";
    return w;
}

inline double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

/// Where the running case says that it goes on
inline volatile double*& beat() {
    static volatile double* b = nullptr;
    return b;
}
/// For cases that are known to take long: restarts the clock of the watchdog
inline void alive() {
    if (beat()) *beat() = now();
}

/// Runs one case; returns 0 pass, 1 fail, 2 discard
inline int run_case(const Section& sec, Src& s, std::string& msg) {
    try {
        sec.fn(s);
        return 0;
    } catch (const Discard&) {
        return 2;
    } catch (const Failure& f) {
        msg = f.msg;
    } catch (const std::exception& e) {
        msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        msg = "unexpected exception of unknown type";
    }
    return 1;
}

inline std::string json_str(const std::string& s) {
    std::ostringstream o;
    o << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\')
            o << '\\' << c;
        else if (c == '\n')
            o << "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o << b;
        } else
            o << c;
    }
    o << '"';
    return o.str();
}

inline uint64_t case_seed(uint64_t seed, const Section& sec, uint64_t idx) {
    return mix(mix(mix(seed) ^ hash_str(sec.name)) + idx);
}

inline Shared* map_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return static_cast<Shared*>(p);
}

struct Outcome {
    enum Kind { PASS, FAIL, DISCARD, CRASH, TIMEOUT } kind = PASS;
    std::string msg, note, tags;
    std::vector<uint64_t> tape;
    bool bad() const { return kind == FAIL || kind == CRASH || kind == TIMEOUT; }
};

/// The part of a sanitizer report that identifies it
inline std::string report_summary(const std::string& path) {
    std::ifstream f(path);
    std::string line, first, summary, frame;
    while (std::getline(f, line)) {
        if (first.empty() && (line.find("ERROR: ") != std::string::npos || line.find("WARNING: ThreadSanitizer") != std::string::npos ||
                              line.find("runtime error:") != std::string::npos || line.find("terminate called") != std::string::npos))
            first = line;
        if (line.find("SUMMARY: ") != std::string::npos) summary = line;
        if (frame.empty() && line.find("    #") != std::string::npos && line.find("/repo/") != std::string::npos) frame = line;
    }
    return first + " | " + frame + " | " + summary;
}

/// Runs one case in a child process
inline Outcome run_isolated(const Section& sec, std::function<Src()> make, Shared* sh, double timeout, const std::string& errpath) {
    Outcome out;
    sh->status = 0;
    sh->len = 0;
    sh->msg[0] = sh->note[0] = sh->tags[0] = 0;
    sh->started = now();
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(3);
    }
    if (pid == 0) {
        int fd = open(errpath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) dup2(fd, 2);
        int dn = open("/dev/null", O_WRONLY);
        if (dn >= 0) dup2(dn, 1);
        beat() = &sh->started;
        Src s = make();
        s.mirror_to(sh);
        std::string msg;
        int r = run_case(sec, s, msg);
        put(sh->msg, sizeof sh->msg, msg);
        std::string t;
        for (auto& x : s.tags) t += x + ";";
        put(sh->tags, sizeof sh->tags, t);
        sh->status = 2;
        _exit(r == 0 ? 0 : (r == 1 ? 11 : 12));
    }
    int st = 0;
    useconds_t nap = 50;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - sh->started > timeout) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            out.tape.assign(sh->tape, sh->tape + sh->len);
            out.note = sh->note;
            out.kind = Outcome::TIMEOUT;
            out.msg = "the case did not finish in time";
            return out;
        }
        usleep(nap);
        if (nap < 2000) nap *= 2;
    }
    out.tape.assign(sh->tape, sh->tape + sh->len);
    out.msg = sh->msg;
    out.note = sh->note;
    out.tags = sh->tags;
    if (WIFEXITED(st)) {
        switch (WEXITSTATUS(st)) {
            case 0:
                out.kind = Outcome::PASS;
                return out;
            case 11:
                out.kind = Outcome::FAIL;
                return out;
            case 12:
                out.kind = Outcome::DISCARD;
                return out;
            default:
                out.kind = Outcome::CRASH;
                out.msg = "crashed (exit " + std::to_string(WEXITSTATUS(st)) + "): " + report_summary(errpath);
                return out;
        }
    }
    out.kind = Outcome::CRASH;
    out.msg = "killed by signal " + std::to_string(WTERMSIG(st)) + ": " + report_summary(errpath);
    return out;
}

struct Options {
    std::string mode = "run", property = "?", tier = "quick", out, replay, workdir = ".";
    uint64_t seed = 1;
    int workers = 8;
    double timeout = 20, shrink_time = 40, max_time = 0;
    double scale = 1;
    std::string only;
};

inline uint64_t cases_of(const Section& s, const Options& o) {
    double n = static_cast<double>(o.tier == "thorough" ? s.thorough : s.quick) * o.scale;
    return std::max<uint64_t>(1, static_cast<uint64_t>(n));
}

inline void worker_main(int w, const Options& o, Shared* sh) {
    std::ofstream res(o.workdir + "/w" + std::to_string(w) + ".txt");
    // keep stderr in a file: sanitizer reports are read from it
    std::string err = o.workdir + "/w" + std::to_string(w) + ".err";
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) dup2(fd, 2);
    double t0 = now();
    bool truncated = false;
    for (size_t si = 0; si < sections().size(); ++si) {
        const Section& sec = sections()[si];
        if (!o.only.empty() && o.only != sec.name) continue;
        uint64_t n = cases_of(sec, o);
        uint64_t evals = 0, disc = 0, ntc = 0;
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t> seen;
        int samples = 0;
        for (uint64_t i = static_cast<uint64_t>(w); i < n; i += static_cast<uint64_t>(o.workers)) {
            if (o.max_time > 0 && now() - t0 > o.max_time) {
                truncated = true;
                break;
            }
            sh->section = si;
            sh->index = i;
            sh->started = now();
            beat() = &sh->started;
            Src s(case_seed(o.seed, sec, i));
            std::string msg;
            int r = run_case(sec, s, msg);
            sh->started = 0;
            if (r == 1) {
                put(sh->msg, sizeof sh->msg, msg);
                sh->status = 1;
                res.flush();
                _exit(11);
            }
            if (r == 2) {
                ++disc;
                continue;
            }
            ++evals;
            if (s.nt) {
                uint64_t h = hash_str(sec.name);
                for (auto v : s.rec) h = mix(h ^ v);
                if (seen.insert(h).second) {
                    ++ntc;
                    if (samples < 2 && w == 0 && !s.notes.str().empty()) {
                        ++samples;
                        res << "S " << sec.name << " " << json_str(s.notes.str().substr(0, 900)) << "\n";
                    }
                }
            }
            for (auto& l : s.labels) ++labels[l];
        }
        res << "N " << sec.name << " " << evals << " " << disc << " " << ntc << "\n";
        for (auto h : seen) res << "H " << h << "\n";
        for (auto& [k, v] : labels) res << "L " << sec.name << " " << v << " " << k << "\n";
    }
    if (truncated) res << "T\n";
    res.flush();
    res.close();
    sh->status = 2;
    _exit(0);
}

/// Runs the cases of a worker up to and including one; true if one fails
inline bool run_history(const Options& o, int w, size_t section, uint64_t index) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0) dup2(fd, 2);
        for (size_t si = 0; si <= section; ++si) {
            const Section& sec = sections()[si];
            if (!o.only.empty() && o.only != sec.name) continue;
            uint64_t n = cases_of(sec, o);
            for (uint64_t i = static_cast<uint64_t>(w); i < n && (si < section || i <= index); i += static_cast<uint64_t>(o.workers)) {
                Src s(case_seed(o.seed, sec, i));
                std::string msg;
                if (run_case(sec, s, msg) == 1) _exit(11);
            }
        }
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    while (waitpid(pid, &st, WNOHANG) != pid) {
        if (now() - t0 > 300) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            return false;
        }
        usleep(2000);
    }
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL);
}

inline void save_replay(const std::string& path, const Options& o, const Section& sec, const Outcome& f) {
    std::ofstream r(path);
    r << "{\"property\": " << json_str(o.property) << ",\n \"section\": " << json_str(sec.name) << ",\n \"message\": " << json_str(f.msg)
      << ",\n \"case\": " << json_str(f.note) << ",\n \"tags\": " << json_str(f.tags) << ",\n \"tape\": [";
    for (size_t i = 0; i < f.tape.size(); ++i) r << (i ? "," : "") << f.tape[i];
    r << "]}\n";
}

/// Shrinks the tape of a failing case
inline Outcome shrink(const Section& sec, Outcome best, Shared* sh, const Options& o, int& attempts) {
    double end = now() + o.shrink_time;
    double tmo = best.kind == Outcome::TIMEOUT ? std::min(o.timeout, 4.0) : std::min(o.timeout, 10.0);
    bool was_timeout = best.kind == Outcome::TIMEOUT;
    std::string err = o.workdir + "/shrink.err";
    auto attempt = [&](const std::vector<uint64_t>& t) {
        if (now() > end) return false;
        ++attempts;
        Outcome r = run_isolated(sec, [&] { return Src(t); }, sh, tmo, err);
        if (!r.bad()) return false;
        if ((r.kind == Outcome::TIMEOUT) != was_timeout) return false;
        if (r.kind == Outcome::FAIL) {
            // the recorded tape is what the case really consumed
            if (r.tape.size() > t.size()) r.tape = t;
        } else {
            r.tape = t;
        }
        best = r;
        return true;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        // drop the tail
        for (size_t keep = best.tape.size() / 2; keep + 1 < best.tape.size() && keep > 0 && now() < end;) {
            std::vector<uint64_t> t(best.tape.begin(), best.tape.begin() + static_cast<long>(keep));
            if (attempt(t)) {
                progress = true;
                keep = best.tape.size() / 2;
            } else
                keep = keep + std::max<size_t>(1, (best.tape.size() - keep) / 2);
        }
        // delete chunks
        for (size_t c = std::max<size_t>(1, best.tape.size() / 2); c >= 1 && now() < end; c /= 2) {
            for (size_t p = 0; p + c <= best.tape.size() && now() < end;) {
                std::vector<uint64_t> t = best.tape;
                t.erase(t.begin() + static_cast<long>(p), t.begin() + static_cast<long>(p + c));
                if (attempt(t))
                    progress = true;
                else
                    p += c;
            }
            if (c == 1) break;
        }
        // zero blocks, then lower single values
        for (size_t c = std::max<size_t>(1, best.tape.size() / 2); c >= 1 && now() < end; c /= 2) {
            for (size_t p = 0; p < best.tape.size() && now() < end; p += c) {
                std::vector<uint64_t> t = best.tape;
                bool any = false;
                for (size_t q = p; q < std::min(p + c, t.size()); ++q) {
                    any = any || t[q];
                    t[q] = 0;
                }
                if (any && attempt(t)) progress = true;
            }
            if (c == 1) break;
        }
        for (size_t p = 0; p < best.tape.size() && now() < end; ++p) {
            uint64_t lo = 0, hi = best.tape[p];
            while (lo < hi && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> t = best.tape;
                t[p] = mid;
                if (attempt(t)) {
                    progress = true;
                    if (p >= best.tape.size()) break;
                    hi = std::min(mid, best.tape[p]);
                } else
                    lo = mid + 1;
            }
        }
        while (!best.tape.empty() && best.tape.back() == 0) best.tape.pop_back();
    }
    return best;
}

inline std::vector<uint64_t> parse_tape(const std::string& text) {
    std::vector<uint64_t> t;
    size_t p = text.find("\"tape\"");
    if (p == std::string::npos) return t;
    p = text.find('[', p);
    size_t e = text.find(']', p);
    std::string body = text.substr(p + 1, e - p - 1);
    std::stringstream ss(body);
    std::string item;
    while (std::getline(ss, item, ','))
        if (!item.empty()) t.push_back(strtoull(item.c_str(), nullptr, 10));
    return t;
}

inline std::string parse_field(const std::string& text, const std::string& key) {
    size_t p = text.find("\"" + key + "\"");
    if (p == std::string::npos) return "";
    p = text.find('"', text.find(':', p));
    size_t e = text.find('"', p + 1);
    return text.substr(p + 1, e - p - 1);
}

inline int main_impl(int argc, char** argv) {
    Options o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--seed")
            o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier")
            o.tier = val();
        else if (a == "--property")
            o.property = val();
        else if (a == "--workers")
            o.workers = atoi(val().c_str());
        else if (a == "--out")
            o.out = val();
        else if (a == "--workdir")
            o.workdir = workdir() = val();
        else if (a == "--replay")
            o.replay = val();
        else if (a == "--timeout")
            o.timeout = atof(val().c_str());
        else if (a == "--max-time")
            o.max_time = atof(val().c_str());
        else if (a == "--shrink-time")
            o.shrink_time = atof(val().c_str());
        else if (a == "--scale")
            o.scale = atof(val().c_str());
        else if (a == "--only")
            o.only = val();
        else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 3;
        }
    }
    Shared* sh = map_shared();

    if (!o.replay.empty()) {
        std::ifstream f(o.replay);
        std::string text((std::istreambuf_iterator<char>(f)), {});
        std::string name = parse_field(text, "section");
        std::string hist = text.find("\"history\"") == std::string::npos ? "" : parse_field(text, "history");
        if (!hist.empty()) {
            std::istringstream is(hist);
            int w;
            size_t si;
            uint64_t idx;
            is >> o.seed >> o.tier >> o.scale >> o.workers >> w >> si >> idx;
            bool r = run_history(o, w, si, idx);
            printf("%s (history)\n", r ? "REPRODUCED" : "not reproduced");
            return r ? 1 : 0;
        }
        auto tape = parse_tape(text);
        for (auto& sec : sections())
            if (sec.name == name) {
                const char* many = getenv("PBT_CONFIRM");
                Outcome r;
                for (int k = many ? atoi(many) : 1; k > 0 && !r.bad(); --k)
                    r = run_isolated(sec, [&] { return Src(tape); }, sh, o.timeout, o.workdir + "/replay.err");
                printf("%s: %s\ncase: %s\n", r.bad() ? "REPRODUCED" : "not reproduced", r.msg.c_str(), r.note.c_str());
                return r.bad() ? 1 : 0;
            }
        fprintf(stderr, "no section %s\n", name.c_str());
        return 3;
    }

    double t0 = now();
    std::vector<Shared*> shs;
    std::vector<pid_t> pids;
    for (int w = 0; w < o.workers; ++w) shs.push_back(map_shared());
    fflush(stdout);
    for (int w = 0; w < o.workers; ++w) {
        pid_t p = fork();
        if (p < 0) {
            perror("fork");
            return 3;
        }
        if (p == 0) worker_main(w, o, shs[w]);
        pids.push_back(p);
    }
    // watch
    int live = o.workers;
    std::vector<bool> done(static_cast<size_t>(o.workers), false);
    int bad = -1;
    Outcome first;
    uint64_t unreproduced = 0;
    while (live > 0 && bad < 0) {
        usleep(2000);
        for (int w = 0; w < o.workers && bad < 0; ++w) {
            if (done[w]) continue;
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                done[w] = true;
                --live;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shs[w]->status == 2) continue;
                bad = w;
                first.kind = Outcome::CRASH;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 11) {
                    first.kind = Outcome::FAIL;
                    first.msg = shs[w]->msg;
                } else if (WIFEXITED(st))
                    first.msg = "crashed (exit " + std::to_string(WEXITSTATUS(st)) + "): " + report_summary(o.workdir + "/w" + std::to_string(w) + ".err");
                else
                    first.msg = "killed by signal " + std::to_string(WTERMSIG(st)) + ": " + report_summary(o.workdir + "/w" + std::to_string(w) + ".err");
            } else {
                double s0 = shs[w]->started;
                if (s0 > 0 && now() - s0 > o.timeout) {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    done[w] = true;
                    --live;
                    bad = w;
                    first.kind = Outcome::TIMEOUT;
                    first.msg = "the case did not finish in time";
                }
            }
        }
    }
    for (int w = 0; w < o.workers; ++w)
        if (!done[w]) {
            int st;
            kill(pids[w], SIGKILL);
            waitpid(pids[w], &st, 0);
        }

    int rc = 0;
    std::string replay_path, vmsg;
    if (bad >= 0) {
        const Section& sec = sections()[shs[bad]->section];
        uint64_t seed = case_seed(o.seed, sec, shs[bad]->index);
        std::string err = o.workdir + "/confirm.err";
        // regenerate in a child: gives the tape
        int hits = 0;
        Outcome conf;
        int tries = 3;
        const char* many = getenv("PBT_CONFIRM");
        if (many) tries = atoi(many);
        // a schedule-dependent case: one failure in many runs is one
        for (int k = 0; k < tries && hits < (many ? 1 : 3); ++k) {
            Outcome r = run_isolated(sec, [&] { return Src(seed); }, sh, o.timeout, err);
            if (r.bad()) {
                ++hits;
                conf = r;
            }
        }
        bool ok = hits == 3 || (hits >= 1 && (many || conf.kind != Outcome::TIMEOUT));
        if (!ok && many && (first.kind == Outcome::FAIL || first.msg.rfind("crashed (exit", 0) == 0)) {
            // seen once, with its message, and not again: keep the case as it is
            conf = first;
            conf.tape.assign(shs[bad]->tape, shs[bad]->tape + std::min<uint64_t>(static_cast<uint64_t>(shs[bad]->len), MAX_TAPE));
            conf.note = shs[bad]->note;
            replay_path = o.out + ".replay.json";
            save_replay(replay_path, o, sec, conf);
            vmsg = conf.msg;
            printf("section %s: %s\ncase: %s\nseen once, not in %d more runs (schedule)\n", sec.name.c_str(), conf.msg.c_str(), conf.note.c_str(), tries);
            rc = 1;
        } else if (!ok && !many && first.kind != Outcome::TIMEOUT && run_history(o, bad, shs[bad]->section, shs[bad]->index)) {
            // the case only fails after the cases before it (state that
            // outlives an object): the history is the replay
            replay_path = o.out + ".replay.json";
            std::ofstream r(replay_path);
            r << "{\"property\": " << json_str(o.property) << ",\n \"history\": \"" << o.seed << " " << o.tier << " " << o.scale << " " << o.workers << " " << bad
              << " " << shs[bad]->section << " " << shs[bad]->index << "\",\n \"section\": " << json_str(sec.name) << ",\n \"message\": " << json_str(first.msg)
              << ",\n \"tape\": []}\n";
            vmsg = first.msg + " (only after the cases before it)";
            printf("section %s: %s\n", sec.name.c_str(), vmsg.c_str());
            rc = 1;
        } else if (!ok) {
            ++unreproduced;
            fprintf(stderr, "unreproduced failure in %s case %llu (%d/%d): %s\n", sec.name.c_str(), (unsigned long long)shs[bad]->index, hits, tries,
                    first.msg.c_str());
            // A failed assertion or sanitizer report did happen; report the
            // original message, but a timeout or a kill needs confirmation.
            rc = 4;
        } else {
            int attempts = 0;
            Outcome best = conf;
            best = shrink(sec, conf, sh, o, attempts);
            replay_path = o.out + ".replay.json";
            save_replay(replay_path, o, sec, best);
            // replay the saved case three times
            int again = 0;
            for (int k = 0; k < 3; ++k)
                if (run_isolated(sec, [&] { return Src(best.tape); }, sh, o.timeout, err).bad()) ++again;
            if (again < 3 && best.tape != conf.tape) {
                save_replay(replay_path, o, sec, conf);
                best = conf;
            }
            vmsg = best.msg;
            printf("section %s: %s\ncase: %s\nshrink attempts: %d, replays failing: %d/3\n", sec.name.c_str(), best.msg.c_str(), best.note.c_str(),
                   attempts, again);
            rc = 1;
        }
    }

    // merge statistics
    uint64_t evals = 0, disc = 0;
    std::unordered_set<uint64_t> seen;
    std::map<std::string, std::map<std::string, uint64_t>> labels;
    std::map<std::string, std::pair<uint64_t, uint64_t>> per;
    std::map<std::string, std::vector<std::string>> samples;
    bool trunc = false;
    for (int w = 0; w < o.workers; ++w) {
        std::ifstream f(o.workdir + "/w" + std::to_string(w) + ".txt");
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string k, name;
            is >> k;
            if (k == "N") {
                uint64_t e = 0, d = 0, n = 0;
                is >> name >> e >> d >> n;
                evals += e;
                disc += d;
                per[name].first += e;
                per[name].second += n;
            } else if (k == "H") {
                uint64_t h;
                is >> h;
                seen.insert(h);
            } else if (k == "L") {
                uint64_t v;
                is >> name >> v;
                std::string l;
                std::getline(is, l);
                if (!l.empty()) labels[name][l.substr(1)] += v;
            } else if (k == "S") {
                is >> name;
                std::string l;
                std::getline(is, l);
                if (l.size() > 2 && l[1] == '"' && l.back() == '"') samples[name].push_back(l.substr(1));
            } else if (k == "T")
                trunc = true;
        }
    }
    if (!o.out.empty()) {
        std::ofstream j(o.out);
        j << "{\"evaluations\": " << evals << ", \"discarded\": " << disc << ", \"distinct_nontrivial\": " << seen.size()
          << ", \"truncated\": " << (trunc ? "true" : "false") << ", \"unreproduced\": " << unreproduced << ", \"wall_s\": " << now() - t0
          << ",\n \"sections\": {";
        bool c = false;
        for (auto& sec : sections()) {
            if (c) j << ",";
            c = true;
            j << "\n  " << json_str(sec.name) << ": {\"rule\": " << json_str(sec.rule) << ", \"evaluations\": " << per[sec.name].first
              << ", \"nontrivial\": " << per[sec.name].second << ", \"classes\": {";
            bool c2 = false;
            for (auto& [l, v] : labels[sec.name]) {
                if (c2) j << ", ";
                c2 = true;
                j << json_str(l) << ": " << v;
            }
            j << "}, \"samples\": [";
            c2 = false;
            for (auto& l : samples[sec.name]) {
                if (c2) j << ", ";
                c2 = true;
                j << l;
            }
            j << "]}";
        }
        j << "},\n \"violation\": " << (rc == 1 ? json_str(vmsg) : "null") << ", \"replay\": " << (rc == 1 ? json_str(replay_path) : "null") << "}\n";
    }
    return rc;
}

}  // namespace pbt

#define PBT_MAIN \
    int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
