// Minimal property-based testing engine used by every check in /verif.
//
// * A case is a pure function of a finite sequence of bounded integer choices ("choice sequence"),
//   so generation, shrinking and replay are generic: shrinking edits the choice sequence, replay
//   feeds it back.
// * Cases run in forked workers, so a crash / abort / sanitizer report / endless loop in the code
//   under test is just another failing case, and the crashing choice sequence survives in shared
//   memory.
// * Everything is a deterministic function of the seed.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

struct Fail {
    std::string msg;
};
struct Discard {};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ULL;
    }
    return h;
}

const size_t kMaxChoices = 1 << 16;

// Shared with the parent so that the choices made before a crash are not lost
struct Shared {
    volatile int64_t case_index;
    volatile int32_t sub_index;
    volatile int32_t failed;       // 0 none, 1 oracle failure, 2 crash (filled by parent)
    volatile uint64_t num_choices;
    char msg[8192];
    uint64_t choices[kMaxChoices];
};

class Src {
    public:
        Src(uint64_t seed, Shared* sh) : m_state(seed), m_replay(nullptr), m_shared(sh) { if(sh) sh->num_choices = 0; }
        Src(const std::vector<uint64_t>* replay, Shared* sh) : m_state(0), m_replay(replay), m_shared(sh) { if(sh) sh->num_choices = 0; }
        // uniform in [0, n)
        uint64_t draw(uint64_t n) {
            uint64_t v;
            if(n <= 1)
                return 0;
            if(m_replay) {
                v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0;
                if(v >= n)
                    v = v % n;
                m_pos++;
            }
            else {
                m_state += 0x9e3779b97f4a7c15ULL;
                v = mix(m_state) % n;
            }
            if(m_count >= kMaxChoices)
                throw Discard();
            if(m_shared) {
                m_shared->choices[m_count] = v;
                m_shared->num_choices = m_count + 1;
            }
            m_count++;
            m_hash = (m_hash ^ v) * 1099511628211ULL + 0x9e37;
            return v;
        }
        int i(int lo, int hi) { return hi <= lo ? lo : lo + (int) draw((uint64_t)(hi - lo) + 1); }
        // true with probability p; the simplest value is false
        bool b(double p = 0.5) { return draw(1000) >= 1000 - (uint64_t)(p * 1000 + 0.5); }
        // Simplest value is the first
        template<class T> T pick(const std::vector<T>& v) { return v[draw(v.size())]; }
        template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
        // Uniform real with 24 bit resolution
        double u(double lo, double hi) { return lo + (hi - lo) * (double(draw(1 << 24)) / double(1 << 24)); }
        // Number in [lo, hi] which is often "nice" (integers, halves) so that ties and exact
        // boundaries are common; simplest value is 0 (or the nearest bound)
        double real(double lo, double hi) {
            double base = lo > 0 ? lo : (hi < 0 ? hi : 0);
            int kind = draw(8);
            double r;
            if(kind <= 1) {
                int a = (int) std::ceil(lo), c = (int) std::floor(hi);
                if(a > c)
                    return base;
                int z = (int) base;
                if(z < a) z = a;
                if(z > c) z = c;
                // order the integers by distance from base
                uint64_t d = draw((uint64_t)(c - a) + 1);
                long v = z + ((d & 1) ? (long)((d + 1) / 2) : -(long)(d / 2));
                if(v < a || v > c) {
                    v = a + (long) d;
                }
                return v;
            }
            else if(kind == 2) {
                r = std::floor(u(lo, hi) * 4) / 4;
            }
            else if(kind == 3) {
                r = std::floor(u(lo, hi) * 100) / 100;
            }
            else
                r = u(lo, hi);
            if(r < lo) r = lo;
            if(r > hi) r = hi;
            return r;
        }
        float f(double lo, double hi) { return (float) real(lo, hi); }
        uint64_t hash() const { return m_hash; }
        size_t count() const { return m_count; }
    private:
        uint64_t m_state;
        const std::vector<uint64_t>* m_replay;
        Shared* m_shared;
        size_t m_pos = 0;
        size_t m_count = 0;
        uint64_t m_hash = 1469598103934665603ULL;
};

class Ctx {
    public:
        bool verbose = false;
        int fd = -1;                  // where the description of the case goes, at once (a crash must not lose it)
        size_t written = 0;
        void emit(const std::string& t) {
            for(size_t off = 0; fd >= 0 && off < t.size() && written < 60000;) {
                ssize_t n = ::write(fd, t.data() + off, t.size() - off);
                if(n <= 0) break;
                off += n;
                written += n;
            }
        }
        bool is_nontrivial = false;
        std::vector<std::string> labels;
        void nontrivial(bool x = true) { is_nontrivial = is_nontrivial || x; }
        void label(std::string s) { for(char& ch : s) if(isspace((unsigned char) ch)) ch = (char) 95; labels.push_back(s); }
        [[noreturn]] void fail(const std::string& s) { throw Fail{s}; }
};

// Text helpers
template<class T> inline std::string str(const T& x) { std::ostringstream o; o.precision(9); o << x; return o.str(); }
template<class T> inline std::string str(const std::vector<T>& v) {
    std::string o = "[";
    for(size_t k = 0; k < v.size(); k++) { if(k) o += ","; o += str(v[k]); }
    return o + "]";
}
template<class... A> inline std::string cat(const A&... a) {
    std::string o;
    int dummy[] = {0, (o += str(a), 0)...};
    (void) dummy;
    return o;
}
inline std::string str(const char* s) { return s; }

#define LOG(c, ...) do { if((c).verbose) (c).emit(pbt::cat(__VA_ARGS__) + "\n"); } while(0)
#define REQUIRE(c, cond, ...) do { if(!(cond)) (c).fail(pbt::cat("[", #cond, "] ", __VA_ARGS__)); } while(0)

// |a-b| <= atol + rtol*max(|a|,|b|), with NaN == NaN
inline bool feq(double a, double b, double atol, double rtol) {
    if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if(std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
inline bool same(float a, float b) { return (std::isnan(a) && std::isnan(b)) || a == b; }

typedef std::function<void(Src&, Ctx&)> Fn;
struct Sub {
    std::string prop;
    std::string name;
    Fn fn;
    long quick;
    long thorough;
    std::string known;   // non-empty: a pinned known finding (description)
};
inline std::vector<Sub>& registry() { static std::vector<Sub> r; return r; }
struct Reg {
    Reg(const char* p, const char* n, Fn f, long q, long t, const char* known = "") { registry().push_back(Sub{p, n, f, q, t, known}); }
};
// PROP(P01, name, quick cases, thorough cases) { ... uses Src& s, Ctx& c ... }
#define PROP(P, N, Q, T) static void prop_##P##_##N(pbt::Src& s, pbt::Ctx& c); \
    static pbt::Reg reg_##P##_##N(#P, #N, prop_##P##_##N, Q, T); \
    static void prop_##P##_##N(pbt::Src& s, pbt::Ctx& c)
// A pinned input of a recorded finding: fails as long as the defect is there
#define KNOWN(P, N, TXT) static void prop_##P##_##N(pbt::Src& s, pbt::Ctx& c); \
    static pbt::Reg reg_##P##_##N(#P, #N, prop_##P##_##N, 1, 1, TXT); \
    static void prop_##P##_##N(pbt::Src& s, pbt::Ctx& c)

std::string json_escape(const std::string& s);
int run_main(int argc, char** argv);
}
