// Generators and helpers for the command-line program's classes (src/client)
#pragma once
#include "pbt.h"
#include "Util.h"
#include "Options.h"
#include <sys/resource.h>
#include <sys/stat.h>
using pbt::Src;
using pbt::Ctx;
using pbt::cat;
using pbt::feq;
using pbt::str;

namespace cg {
const float MV = -999;
inline bool ok(double v) { return !std::isnan(v) && !std::isinf(v) && v != -999; }

// A name inside the scratch directory, private to this process
inline std::string scratch(const std::string& name) {
    static std::string dir;
    static pid_t owner = 0;
    if(owner != getpid()) {
        const char* base = getenv("VERIF_SCRATCH");
        std::string b = base && *base ? base : "/tmp";
        dir = cat(b, "/verif-c-", (long) getpid());
        mkdir(dir.c_str(), 0700);
        owner = getpid();
    }
    return dir + "/" + name;
}
inline std::string read_file(const std::string& name) {
    std::ifstream f(name.c_str(), std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
inline void write_file(const std::string& name, const std::string& text) {
    std::ofstream f(name.c_str(), std::ios::binary);
    f.write(text.data(), text.size());
}

// How a call ended in a child process: 'r' returned, 'e' stopped with an error message (Util::error),
// 'x' threw an exception, 'c' died in any other way
template<class F> inline char outcome(F fn, std::string* text = nullptr) {
    int p[2];
    if(pipe(p)) return '?';
    fflush(stdout);
    pid_t pid = fork();
    if(pid == 0) {
        close(p[0]);
        dup2(p[1], 1);
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 2);
        struct rlimit none = {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        signal(SIGABRT, SIG_DFL);
        alarm(20);
        Util::setShowError(true);
        int rc = 0;
        try { fn(); }
        catch(...) { rc = 3; }
        std::cout.flush();
        _exit(rc);
    }
    close(p[1]);
    std::string out;
    char buf[4096];
    for(ssize_t n; (n = ::read(p[0], buf, sizeof(buf))) > 0;) out.append(buf, n);
    close(p[0]);
    int status = 0;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    if(text) *text = out;
    if(WIFEXITED(status) && WEXITSTATUS(status) == 0) return 'r';
    if(WIFEXITED(status) && WEXITSTATUS(status) == 3) return 'x';
    if(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT && (out.compare(0, 7, "Error: ") == 0 || out.find("\nError: ") != std::string::npos)) return 'e';
    return 'c';
}

struct Quiet {
    Quiet() {
        Util::setShowError(false);
        Util::setShowWarning(false);
        Util::setShowStatus(false);
        Util::setShowInfo(false);
    }
};
static Quiet quiet_;

inline std::string word(Src& s, int maxlen, const std::string& alphabet) {
    std::string o;
    int n = s.i(1, maxlen);
    for(int k = 0; k < n; k++) o += alphabet[s.draw(alphabet.size())];
    return o;
}
const std::string LETTERS = "abcxyzABC019_";
// Missing rate: often none, sometimes some, rarely most
inline double pmiss(Src& s) {
    static const double p[] = {0, 0, 0.1, 0.3, 0.7};
    return p[s.draw(5)];
}
inline float val(Src& s, double lo, double hi, double p) {
    if(p > 0 && s.b(p)) return s.b(0.2) ? NAN : MV;
    float f = s.f(lo, hi);
    return f == MV ? -998.5f : f;
}

// Reference statistics and calendar
inline double quantile(std::vector<double> v, double q) {
    if(v.empty()) return MV;
    std::sort(v.begin(), v.end());
    double pos = q * (v.size() - 1);
    size_t lo = (size_t) std::floor(pos);
    if(lo + 1 >= v.size()) return v.back();
    return v[lo] + (v[lo + 1] - v[lo]) * (pos - lo);
}
inline double statistic(const std::vector<float>& all, Util::StatType st, double q = 0) {
    std::vector<double> v;
    for(float x : all) if(ok(x)) v.push_back(x);
    if(v.empty()) return MV;
    double sum = 0, n = v.size();
    for(double x : v) sum += x;
    switch(st) {
        case Util::StatTypeMean: return sum / n;
        case Util::StatTypeSum: return sum;
        case Util::StatTypeMin: return quantile(v, 0);
        case Util::StatTypeMax: return quantile(v, 1);
        case Util::StatTypeMedian: return quantile(v, 0.5);
        case Util::StatTypeQuantile: return quantile(v, q);
        default: break;
    }
    double d = 0;
    for(double x : v) d += (x - sum / n) * (x - sum / n);
    return std::sqrt(d / n);
}
// Proleptic Gregorian calendar (days since 1970-01-01)
inline long days_from_civil(long y, int m, int d) {
    y -= m <= 2;
    long era = (y >= 0 ? y : y - 399) / 400;
    long yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
inline int civil_from_days(long z) {
    z += 719468;
    long era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
    long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400;
    long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    int d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    return (y + (m <= 2)) * 10000 + m * 100 + d;
}
// Great-circle distance on the program's sphere
inline double distance(double la1, double lo1, double la2, double lo2) {
    const double r = 3.14159265358979323846 / 180;
    double a = std::sin((la2 - la1) * r / 2), b = std::sin((lo2 - lo1) * r / 2);
    double h = a * a + std::cos(la1 * r) * std::cos(la2 * r) * b * b;
    return 2 * 6.378137e6 * std::asin(std::min(1.0, std::sqrt(h)));
}
}
