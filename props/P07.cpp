// P07: neighbourhood statistics
#include "gen.h"

namespace {
const std::vector<Statistic> kStats = {Mean, Sum, Count, Min, Max, Median, Std, Variance, RandomChoice};

// Magnitudes: ordinary, large offset with small variations (temperature in kelvin, pressure), huge
struct Scale { double base, range; };
Scale scale(Src& s) {
    static const Scale k[] = {{0, 20}, {0, 1}, {273, 10}, {273, 0.1}, {101325, 10}, {0, 1e6}};
    return k[s.draw(6)];
}
// Compare one output cell with the statistic over the window's values
void check(Ctx& c, Statistic st, const std::vector<double>& win, float got, double maxabs, double range, const std::string& where) {
    std::vector<double> v;
    for(double x : win) if(ref::ok(x)) v.push_back(x);
    double want = ref::statistic(v, st == RandomChoice ? Mean : st);
    if(st == RandomChoice) {
        if(v.empty()) { REQUIRE(c, !ref::ok(got), where, ": random choice among no values is ", got); return; }
        bool in = false;
        for(double x : v) in |= pbt::same((float) x, got);
        REQUIRE(c, in, where, ": ", got, " is not among the values of the window ", str(v));
        return;
    }
    double tol = 0;
    if(st == Mean) tol = 1e-6 * maxabs * 2 + 1e-7;
    if(st == Sum) tol = 1e-6 * maxabs * (v.size() + 1) + 1e-7;
    if(st == Median) tol = 1e-6 * maxabs;
    double vtol = 4e-6 * range * range + 2e-7 * maxabs * range + 1e-9;
    if(st == Variance) tol = vtol;
    if(st == Std) {
        if(!ref::ok(want)) REQUIRE(c, !ref::ok(got), where, ": Std of an empty window is ", got);
        else REQUIRE(c, got >= 0 && std::fabs((double) got * got - want * want) <= vtol * 1.5, where, ": Std is ", got, ", expected ", want);
        return;
    }
    REQUIRE(c, feq(ref::ok(got) ? got : NAN, want, tol, 1e-6), where, ": ", gen::stat_name(st), " is ", got, ", expected ", want);
}
double maxabs(const vec3& f) { double m = 0; for(auto& a : f) for(auto& b : a) for(float x : b) if(ref::ok(x)) m = std::max(m, (double) std::fabs(x)); return m; }
double range(const vec3& f) {
    double lo = 1e99, hi = -1e99;
    for(auto& a : f) for(auto& b : a) for(float x : b) if(ref::ok(x)) { lo = std::min(lo, (double) x); hi = std::max(hi, (double) x); }
    return hi >= lo ? hi - lo : 0;
}
vec3 field(Src& s, int Y, int X, int E) {
    Scale k = scale(s);
    vec3 f = gen::values3(s, Y, X, E, -k.range, k.range, gen::pmiss(s));
    for(auto& a : f) for(auto& b : a) for(float& x : b) if(ref::ok(x)) x = (float) (k.base + x);
    // a block of missing values, larger than some windows
    if(s.b(0.2)) {
        int y0 = s.i(0, Y - 1), x0 = s.i(0, X - 1), y1 = s.i(y0, Y - 1), x1 = s.i(x0, X - 1);
        for(int y = y0; y <= y1; y++) for(int x = x0; x <= x1; x++) for(float& v : f[y][x]) v = MV;
    }
    return f;
}
vec2 flatten(const vec3& f) { vec2 o(f.size()); for(size_t y = 0; y < f.size(); y++) for(auto& b : f[y]) o[y].push_back(b[0]); return o; }
std::vector<double> window(const vec3& f, int y, int x, int h) {
    std::vector<double> w;
    int Y = f.size(), X = f[0].size();
    for(int i = 0; i < Y; i++) for(int j = 0; j < X; j++) if(std::abs(i - y) <= h && std::abs(j - x) <= h) for(float v : f[i][j]) w.push_back(v);
    return w;
}
void run(Src& s, Ctx& c, int maxE, bool brute) {
    int Y = gen::size(s, 1, 9, 40), X = gen::size(s, 1, 9, 40), E = maxE ? gen::size(s, 1, maxE, 30) : 1;
    vec3 f = field(s, Y, X, E);
    int h = s.b(0.1) ? s.i(5, 1000) : s.i(0, 5);
    Statistic st = s.pick(kStats);
    LOG(c, gen::stat_name(st), " halfwidth ", h, brute ? " (brute force)" : "", "\ninput ", maxE ? str(f) : str(flatten(f)));
    vec2 out;
    if(maxE) out = brute ? gridpp::neighbourhood_brute_force(f, h, st) : gridpp::neighbourhood(f, h, st);
    else out = brute ? gridpp::neighbourhood_brute_force(flatten(f), h, st) : gridpp::neighbourhood(flatten(f), h, st);
    REQUIRE(c, (int) out.size() == Y, "output has ", out.size(), " rows");
    if(maxE && !brute && st != RandomChoice && s.b(0.1)) {
        gen::Quiet quiet;
        REQUIRE(c, gen::same_vec(out, gridpp::neighbourhood_ens(f, h, st)), "the older name neighbourhood_ens gives another field");
    }
    double m = maxabs(f), r = range(f);
    for(int y = 0; y < Y; y++) {
        REQUIRE(c, (int) out[y].size() == X, "output has ", out[y].size(), " columns");
        for(int x = 0; x < X; x++) check(c, st, window(f, y, x, h), out[y][x], m, r, cat("cell ", y, ",", x));
    }
    if(h == 0 && !maxE && (st == Mean || st == Sum || st == Min || st == Max || st == Median))
        REQUIRE(c, gen::same_vec(out, flatten(f)), "half width 0 does not reproduce the field: ", str(out));
    c.nontrivial(r > 0 && h >= 1 && (Y > h + 1 || X > h + 1));
    c.label(gen::stat_name(st));
    if(h == 0) c.label("halfwidth-0");
    if(Y != X) c.label("not-square");
}
}
PROP(P07, fields, 400000, 8000000) { run(s, c, 0, false); }
PROP(P07, ensembles, 200000, 4000000) { run(s, c, 4, false); }
PROP(P07, brute_force, 100000, 2000000) { run(s, c, s.b() ? 0 : 4, true); }
