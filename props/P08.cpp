// P08: neighbourhood quantiles, exact and fast
#include "gen.h"

namespace {
vec2 flatten(const vec3& f) { vec2 o(f.size()); for(size_t y = 0; y < f.size(); y++) for(auto& b : f[y]) o[y].push_back(b[0]); return o; }
std::vector<double> window(const vec3& f, int y, int x, int h) {
    std::vector<double> w;
    int Y = f.size(), X = f[0].size();
    for(int i = 0; i < Y; i++) for(int j = 0; j < X; j++) if(std::abs(i - y) <= h && std::abs(j - x) <= h) for(float v : f[i][j]) if(ref::ok(v)) w.push_back(v);
    return w;
}
float level(Src& s) { return s.b(0.4) ? s.pick<float>({0, 1, 0.5f, 0.25f, 0.1f, 0.9f}) : (float) s.u(0, 1); }
vec3 field(Src& s, int Y, int X, int E) {
    double base = s.pick<double>({0, 0, 273, 101325}), range = s.pick<double>({20, 5, 1000, 0.5});
    vec3 f = gen::values3(s, Y, X, E, -range, range, gen::pmiss(s));
    for(auto& a : f) for(auto& b : a) for(float& x : b) if(ref::ok(x)) x = (float) (base + x);
    if(s.b(0.2)) {
        int y0 = s.i(0, Y - 1), x0 = s.i(0, X - 1), y1 = s.i(y0, Y - 1), x1 = s.i(x0, X - 1);
        for(int y = y0; y <= y1; y++) for(int x = x0; x <= x1; x++) for(float& v : f[y][x]) v = MV;
    }
    return f;
}
double maxabs(const vec3& f) { double m = 0; for(auto& a : f) for(auto& b : a) for(float x : b) if(ref::ok(x)) m = std::max(m, (double) std::fabs(x)); return m; }
// Empirical distribution of the window at the thresholds: cells count equally, members of a cell too
std::vector<double> cdf(const vec3& f, int y, int x, int h, const vec& thr) {
    std::vector<double> F;
    int Y = f.size(), X = f[0].size();
    for(float t : thr) {
        double sum = 0; int n = 0;
        for(int i = 0; i < Y; i++) for(int j = 0; j < X; j++) if(std::abs(i - y) <= h && std::abs(j - x) <= h) {
            int a = 0, b = 0;
            for(float v : f[i][j]) if(ref::ok(v)) { b++; a += v <= t; }
            if(b > 0) { sum += (double) a / b; n++; }
        }
        F.push_back(n > 0 ? sum / n : NAN);
    }
    return F;
}
// Smallest and largest value at which the interpolated distribution has probability q
double lower(const std::vector<double>& F, const vec& t, double q) {
    if(F[0] >= q) return t[0];
    for(size_t i = 1; i < F.size(); i++) if(F[i] >= q) return t[i - 1] + (double(t[i]) - t[i - 1]) * (q - F[i - 1]) / (F[i] - F[i - 1]);
    return t.back();
}
double upper(const std::vector<double>& F, const vec& t, double q) {
    int n = F.size();
    if(F[n - 1] <= q) return t[n - 1];
    for(int i = n - 2; i >= 0; i--) if(F[i] <= q) return t[i] + (double(t[i + 1]) - t[i]) * (q - F[i]) / (F[i + 1] - F[i]);
    return t[0];
}
}

PROP(P08, exact, 200000, 4000000) {
    int Y = gen::size(s, 1, 7, 30), X = gen::size(s, 1, 7, 30), maxE = s.b() ? 0 : 4, E = maxE ? gen::size(s, 1, maxE, 20) : 1;
    vec3 f = field(s, Y, X, E);
    int h = s.b(0.1) ? s.i(5, 1000) : s.i(0, 3);
    float q = level(s), q2 = level(s);
    if(q > q2) std::swap(q, q2);
    LOG(c, "levels ", q, " ", q2, " halfwidth ", h, "\ninput ", maxE ? str(f) : str(flatten(f)));
    vec2 o = maxE ? gridpp::neighbourhood_quantile(f, q, h) : gridpp::neighbourhood_quantile(flatten(f), q, h);
    vec2 o2 = maxE ? gridpp::neighbourhood_quantile(f, q2, h) : gridpp::neighbourhood_quantile(flatten(f), q2, h);
    REQUIRE(c, (int) o.size() == Y && (int) o2.size() == Y, "rows");
    if(maxE && s.b(0.1)) {
        gen::Quiet quiet;
        REQUIRE(c, gen::same_vec(o, gridpp::neighbourhood_quantile_ens(f, q, h)), "the older name neighbourhood_quantile_ens gives another field");
    }
    double m = maxabs(f);
    for(int y = 0; y < Y; y++) {
        REQUIRE(c, (int) o[y].size() == X, "columns");
        for(int x = 0; x < X; x++) {
            std::vector<double> w = window(f, y, x, h);
            double want = ref::quantile(w, q), r = w.empty() ? 0 : ref::quantile(w, 1) - ref::quantile(w, 0);
            // rounding of level * (n - 1) matters at most 1e-6 of the range per order statistic
            REQUIRE(c, feq(o[y][x], want, 2e-7 * m + 1e-6 * r * w.size(), 0), "cell ", y, ",", x, ": ", o[y][x], " expected ", want, " (", w.size(), " values)");
            if(!w.empty()) REQUIRE(c, o2[y][x] >= o[y][x], "cell ", y, ",", x, ": level ", q, " gives ", o[y][x], " but level ", q2, " gives ", o2[y][x]);
        }
    }
    c.nontrivial(h > 0 && Y * X > 2 && q > 0 && q < 1);
    c.label(maxE ? "ensemble" : "field");
}
PROP(P08, fast, 200000, 4000000) {
    int Y = gen::size(s, 1, 7, 30), X = gen::size(s, 1, 7, 30), maxE = s.b() ? 0 : 4, E = maxE ? gen::size(s, 1, maxE, 20) : 1;
    vec3 f = field(s, Y, X, E);
    int h = s.b(0.1) ? s.i(5, 1000) : s.i(0, 3);
    bool varying = s.b(), automatic = s.b(0.3);
    vec2 q(varying ? Y : 1, vec(varying ? X : 1));
    for(auto& a : q) for(float& x : a) x = level(s);
    if(varying && s.b(0.3)) q[s.i(0, Y - 1)][s.i(0, X - 1)] = MV;
    vec thr;
    if(automatic) thr = maxE ? gridpp::get_neighbourhood_thresholds(f, s.i(1, 12)) : gridpp::get_neighbourhood_thresholds(flatten(f), s.i(1, 12));
    else {
        int n = s.i(1, 8);
        for(int i = 0; i < n; i++) {
            // values of the field, values in between, values beyond
            float v = f[s.i(0, Y - 1)][s.i(0, X - 1)][s.i(0, E - 1)];
            if(!ref::ok(v)) v = 0;
            if(s.b(0.4)) v += s.f(-10, 10);
            thr.push_back(v);
        }
        std::sort(thr.begin(), thr.end());
        if(s.b(0.8)) thr.erase(std::unique(thr.begin(), thr.end()), thr.end());
    }
    bool scalar = !varying && s.b();
    LOG(c, "levels ", str(q), scalar ? " (scalar)" : "", " halfwidth ", h, " thresholds ", str(thr), "\ninput ", maxE ? str(f) : str(flatten(f)));
    auto call = [&]() {
        if(maxE) return scalar ? gridpp::neighbourhood_quantile_fast(f, q[0][0], h, thr) : gridpp::neighbourhood_quantile_fast(f, q, h, thr);
        return scalar ? gridpp::neighbourhood_quantile_fast(flatten(f), q[0][0], h, thr) : gridpp::neighbourhood_quantile_fast(flatten(f), q, h, thr);
    };
    vec2 o = call();
    REQUIRE(c, (int) o.size() == Y, "rows");
    if(maxE && scalar && s.b(0.2)) {
        gen::Quiet quiet;
        REQUIRE(c, gen::same_vec(o, gridpp::neighbourhood_quantile_ens_fast(f, q[0][0], h, thr)), "the older name neighbourhood_quantile_ens_fast gives another field");
    }
    double m = maxabs(f);
    bool some = false;
    for(float t : thr) m = std::max(m, (double) std::fabs(t));
    for(int y = 0; y < Y; y++) {
        REQUIRE(c, (int) o[y].size() == X, "columns");
        for(int x = 0; x < X; x++) {
            float p = varying ? q[y][x] : q[0][0];
            if(thr.empty() || !ref::ok(p)) { REQUIRE(c, !ref::ok(o[y][x]), "cell ", y, ",", x, ": ", o[y][x], " expected missing"); continue; }
            std::vector<double> F = cdf(f, y, x, h, thr);
            if(std::isnan(F[0])) { REQUIRE(c, !ref::ok(o[y][x]), "cell ", y, ",", x, " has no values but gives ", o[y][x]); continue; }
            double d = 5e-7, tol = 4e-7 * m;
            double lo = lower(F, thr, p - d), hi = upper(F, thr, p + d);
            REQUIRE(c, o[y][x] >= lo - tol && o[y][x] <= hi + tol, "cell ", y, ",", x, ": ", o[y][x], " expected ", lo, " to ", hi, " (level ", p, ", distribution at the thresholds ", str(F), ")");
            REQUIRE(c, o[y][x] >= thr[0] && o[y][x] <= thr.back(), "outside of the thresholds");
            if(F[0] < p && p < F.back()) some = true;
        }
    }
    c.nontrivial(some && h > 0);
    c.label(maxE ? "ensemble" : "field");
    c.label(varying ? "level-per-cell" : "one-level");
    if(automatic) c.label("automatic-thresholds");
}
// Per-cell levels under several threads
PROP(P08, fast_threads, 6000, 150000) {
    int Y = s.i(2, 30), X = s.i(2, 30), maxE = s.b() ? 0 : 2, E = maxE ? maxE : 1;
    vec3 f = gen::values3(s, Y, X, E, -20, 20, 0);
    vec2 q = gen::values2(s, Y, X, 0, 1, 0);
    int h = s.i(0, 2);
    vec thr = {-20, -15, -10, -5, 0, 5, 10, 15, 20};
    int n = s.i(2, 8);
    LOG(c, n, " threads, levels ", str(q), " halfwidth ", h, "\ninput ", maxE ? str(f) : str(flatten(f)));
    vec2 in = flatten(f);
    gridpp::set_omp_threads(1);
    vec2 a = maxE ? gridpp::neighbourhood_quantile_fast(f, q, h, thr) : gridpp::neighbourhood_quantile_fast(in, q, h, thr);
    for(int rep = 0; rep < 3; rep++) {
        gridpp::set_omp_threads(n);
        vec2 b = maxE ? gridpp::neighbourhood_quantile_fast(f, q, h, thr) : gridpp::neighbourhood_quantile_fast(in, q, h, thr);
        gridpp::set_omp_threads(1);
        REQUIRE(c, gen::same_vec(a, b), "result with ", n, " threads differs: ", str(b), " instead of ", str(a));
    }
    c.nontrivial(Y * X >= 50);
}
PROP(P08, thresholds, 300000, 6000000) {
    int Y = s.i(1, 6), X = s.i(1, 6), maxE = s.b() ? 0 : 4, E = maxE ? s.i(1, maxE) : 1;
    vec3 f = s.b() ? gen::values3(s, Y, X, E, 0, s.pick<int>({1, 3, 10}), gen::pmiss(s)) : field(s, Y, X, E);
    if(s.b(0.3)) for(auto& a : f) for(auto& b : a) for(float& x : b) if(ref::ok(x) && s.b(0.7)) x = 0;   // precipitation-like
    int n = s.b(0.2) ? s.i(1, 200) : s.i(1, 8);
    LOG(c, n, " thresholds\ninput ", maxE ? str(f) : str(flatten(f)));
    vec t = maxE ? gridpp::get_neighbourhood_thresholds(f, n) : gridpp::get_neighbourhood_thresholds(flatten(f), n);
    std::set<float> all;
    for(auto& a : f) for(auto& b : a) for(float x : b) if(ref::ok(x)) all.insert(x);
    REQUIRE(c, (int) t.size() <= n, t.size(), " thresholds instead of at most ", n);
    REQUIRE(c, t.empty() == all.empty(), t.size(), " thresholds for ", all.size(), " different values");
    for(size_t i = 0; i < t.size(); i++) {
        REQUIRE(c, all.count(t[i]), "threshold ", t[i], " is not a value of the field");
        if(i > 0) REQUIRE(c, t[i] >= t[i - 1], "thresholds are not sorted: ", str(t));
    }
    if(!t.empty()) REQUIRE(c, t[0] == *all.begin(), "the first threshold is ", t[0], " but the minimum is ", *all.begin());
    if(n >= 3 && !t.empty()) REQUIRE(c, t.back() == *all.rbegin(), "the last threshold is ", t.back(), " but the maximum is ", *all.rbegin());
    c.nontrivial(all.size() > 2 && n >= 2 && n < (int) all.size());
}
