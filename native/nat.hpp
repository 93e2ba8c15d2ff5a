// Replay / bounded harness support.  Every case is a pure function of (seed, section, index).
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <chrono>
#include <set>
#include <unistd.h>

namespace nat {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; ++i) u64(); }
    uint64_t u64() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int range(int lo, int hi) { return lo + static_cast<int>(u64() % static_cast<uint64_t>(hi - lo + 1)); } // inclusive
    bool coin(int num = 1, int den = 2) { return static_cast<int>(u64() % den) < num; }
    double real(double lo, double hi) { return lo + (hi - lo) * (static_cast<double>(u64() >> 11) / 9007199254740992.0); }
    double dyadic(int lo, int hi) { return range(lo * 8, hi * 8) / 8.0; } // exactly representable
};

struct Failure { std::string msg; };
struct Skip {};

struct State {
    uint64_t seed = 1;
    double scale = 1;
    std::string only_section; long only_index = -1;
    std::string section; long index = 0;
    long cases = 0, checks = 0;
    int failures = 0;
    std::map<std::string, long> covers;
    std::set<uint64_t> distinct;
    std::set<std::string> findings;
    std::string detail;
    std::vector<std::string> samples;
};
inline State& st() { static State s; return s; }

inline void crash_note(char const* what) {
    char buf[1024];
    int n = std::snprintf(buf, sizeof buf, "\nFAIL %s:%ld crash: %s | %s\n", st().section.c_str(), st().index, what, st().detail.c_str());
    if (n > 0) { ssize_t r = ::write(1, buf, static_cast<size_t>(n < 1023 ? n : 1023)); (void)r; }
}
inline void on_signal(int sig) {
    crash_note(sig == SIGABRT ? "abort (assertion)" : sig == SIGALRM ? "no termination within the case limit" : "fatal signal");
    ::_exit(1);
}

template<class T> void put(std::ostringstream& o, T const& v) { o << v; }
inline void put_all(std::ostringstream&) {}
template<class T, class... R> void put_all(std::ostringstream& o, T const& v, R const&... r) { put(o, v); put_all(o, r...); }
template<class... A> std::string str(A const&... a) { std::ostringstream o; o.precision(17); put_all(o, a...); return o.str(); }

inline void cover(char const* name) { ++st().covers[name]; }
/// Describe the current case (printed when it fails)
template<class... A> void note(A const&... a) { st().detail = str(a...); }
template<class... A> void addnote(A const&... a) { st().detail += str(a...); }
/// Count the case as distinct, non-trivial
inline void fingerprint(std::string const& s) { st().distinct.insert(std::hash<std::string>{}(s)); }

#define NCHECK(cond, ...) do { ++nat::st().checks; if (!(cond)) throw nat::Failure{nat::str("line ", __LINE__, ": " #cond " ; ", __VA_ARGS__)}; } while (0)
/// A check of a recorded finding: reported under a key instead of failing the case
#define NFINDING(key, cond, ...) do { ++nat::st().checks; if (!(cond)) { if (nat::st().findings.insert(key).second) \
    std::printf("FINDING %s %s:%ld %s\n", key, nat::st().section.c_str(), nat::st().index, nat::str(__VA_ARGS__).c_str()); } } while (0)

template<class F>
bool throws(F&& f) { try { f(); } catch (nat::Failure&) { throw; } catch (std::exception&) { return true; } return false; }

inline void section(char const* name, long n, std::function<void(Rng&, long)> const& body) {
    auto& s = st();
    if (!s.only_section.empty() && s.only_section != name) return;
    n = static_cast<long>(n * s.scale); if (n < 1) n = 1;
    int local = 0;
    uint64_t h = 1469598103934665603ull;
    for (char const* p = name; *p; ++p) h = (h ^ static_cast<uint64_t>(*p)) * 1099511628211ull;
    for (long i = 0; i < n; ++i) {
        if (s.only_index >= 0) { if (i > 0) break; i = s.only_index; }
        s.section = name; s.index = i; s.detail.clear(); ++s.cases;
        Rng r(h ^ (s.seed * 7919) ^ (static_cast<uint64_t>(i) << 20));
        ::alarm(120);
        std::string msg;
        try { body(r, i); }
        catch (Failure& f) { msg = f.msg; }
        catch (Skip&) { }
        catch (std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
        ::alarm(0);
        if (s.samples.size() < 4 && !s.detail.empty() && i % 7 == 3) s.samples.push_back(s.section + ":" + std::to_string(i) + " " + s.detail.substr(0, 300));
        if (!s.detail.empty()) fingerprint(s.detail);
        if (!msg.empty()) {
            ++s.failures; ++local;
            std::printf("FAIL %s:%ld %s | %s\n", name, i, msg.c_str(), s.detail.c_str());
            std::fflush(stdout);
            if (local >= 3) break;
        }
        if (s.only_index >= 0) break;
    }
}

#if defined(__has_feature)
# if __has_feature(address_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#  define NAT_ASAN 1
# endif
#endif
inline void death() { crash_note("sanitizer report (see stderr)"); }

inline int run(int argc, char** argv, std::function<void()> const& body) {
    auto& s = st();
    if (auto e = std::getenv("VERIF_SEED")) s.seed = std::strtoull(e, nullptr, 10);
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed" && i + 1 < argc) s.seed = std::strtoull(argv[++i], nullptr, 10);
        else if (a == "--scale" && i + 1 < argc) s.scale = std::atof(argv[++i]);
        else if (a == "--only" && i + 1 < argc) {
            std::string o = argv[++i]; auto c = o.rfind(':');
            s.only_section = o.substr(0, c);
            if (c != std::string::npos) s.only_index = std::atol(o.c_str() + c + 1);
        }
    }
    for (int sig : {SIGABRT, SIGALRM}) std::signal(sig, on_signal);
#ifdef NAT_ASAN
    __sanitizer_set_death_callback(death);
#else
    for (int sig : {SIGSEGV, SIGFPE, SIGBUS, SIGILL}) std::signal(sig, on_signal);
#endif
    std::setvbuf(stdout, nullptr, _IOLBF, 0);
    body();
    std::printf("CASES %ld CHECKS %ld DISTINCT %zu\n", s.cases, s.checks, s.distinct.size());
    for (auto& c : s.covers) std::printf("COVER %s %ld\n", c.first.c_str(), c.second);
    for (auto& c : s.samples) std::printf("SAMPLE %s\n", c.c_str());
    return s.failures ? 1 : 0;
}

} // namespace nat
