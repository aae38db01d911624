// P09: summary statistics
#include "gen.h"

namespace {
const std::vector<Statistic> kStats = {Mean, Sum, Count, Min, Max, Median, Std, Variance, RandomChoice};
vec array(Src& s, int nmax) {
    int n = gen::size(s, 0, nmax, 12 * nmax);
    double base = s.pick<double>({0, 0, 273, 101325, -1e6, 1e6}), range = s.pick<double>({20, 1, 1000, 0.5, 1e-3, 1e6});
    vec v = gen::values(s, n, -range, range, s.b(0.1) ? 1 : gen::pmiss(s));
    for(float& x : v) if(ref::ok(x)) x = (float) (base + x);
    for(float& x : v) if(!ref::ok(x) && s.b(0.2)) x = s.b() ? INFINITY : -INFINITY;   // infinities are missing too
    return v;
}
void bounds(const std::vector<double>& v, double& m, double& r) {
    m = r = 0;
    if(v.empty()) return;
    double lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
    m = std::max(std::fabs(lo), std::fabs(hi));
    r = hi - lo;
}
std::vector<double> valid(const vec& a) { std::vector<double> v; for(float x : a) if(ref::ok(x)) v.push_back(x); return v; }
void check(Ctx& c, Statistic st, const vec& a, float got, const char* how) {
    std::vector<double> v = valid(a);
    double m, r, want = ref::statistic(v, st == RandomChoice ? Mean : st);
    bounds(v, m, r);
    int n = v.size();
    if(st == Count) { REQUIRE(c, got == n, how, ": count ", got, " expected ", n); return; }
    if(n == 0) { REQUIRE(c, std::isnan(got), how, ": ", gen::stat_name(st), " of no values is ", got); return; }
    REQUIRE(c, ref::ok(got), how, ": ", gen::stat_name(st), " is ", got, " expected ", want);
    if(st == RandomChoice) { bool in = false; for(double x : v) in |= x == got; REQUIRE(c, in, how, ": random choice ", got, " is not an element"); return; }
    double tol = 0;
    if(st == Mean) tol = (n + 2) * 1.2e-7 * m;
    if(st == Sum) tol = (n + 2) * 1.2e-7 * m * n;
    if(st == Median) tol = 4e-7 * r + 1.3e-7 * m;
    if(st == Variance) tol = (n + 4) * 3e-7 * r * r;
    if(st == Std) {
        REQUIRE(c, got >= 0 && std::fabs((double) got * got - want * want) <= (n + 4) * 3e-7 * r * r, how, ": Std is ", got, " expected ", want);
        return;
    }
    REQUIRE(c, feq(got, want, tol, 1e-6 * (st != Mean && st != Sum && st != Min && st != Max && st != Median)), how, ": ", gen::stat_name(st), " is ", got, " expected ", want, " +- ", tol);
}
void check_quantile(Ctx& c, const vec& a, float q, float got, const char* how) {
    std::vector<double> v = valid(a);
    if(v.empty() || !ref::ok(q)) { REQUIRE(c, std::isnan(got), how, ": quantile ", q, " of ", v.size(), " values is ", got); return; }
    double m, r, want = ref::quantile(v, q);
    bounds(v, m, r);
    // error of the fraction: about 1e-7 * (n - 1) of the gap between two neighbours
    REQUIRE(c, feq(got, want, 2e-7 * v.size() * r + 1.3e-7 * m, 0), how, ": quantile ", q, " is ", got, " expected ", want);
}
float level(Src& s) { return s.b(0.4) ? s.pick<float>({0, 1, 0.5f, 0.25f, 0.1f, 0.9f, 0.99999994f, 1e-7f}) : (s.b(0.3) ? (float) s.i(0, 12) / 12 : (float) s.u(0, 1)); }
}

PROP(P09, statistics, 1000000, 20000000) {
    vec a = array(s, s.b(0.05) ? 200 : 12);
    Statistic st = s.pick(kStats);
    LOG(c, gen::stat_name(st), " of ", str(a));
    check(c, st, a, gridpp::calc_statistic(a, st), "array");
    // order does not matter
    vec b = a;
    for(int i = (int) b.size() - 1; i > 0; i--) std::swap(b[i], b[s.i(0, i)]);
    check(c, st, b, gridpp::calc_statistic(b, st), "permuted array");
    c.nontrivial(valid(a).size() >= 2);
    c.label(gen::stat_name(st));
    if(valid(a).empty()) c.label("no-values");
}
PROP(P09, quantiles, 1000000, 20000000) {
    vec a = array(s, s.b(0.05) ? 200 : 12);
    float q1 = level(s), q2 = level(s);
    if(q1 > q2) std::swap(q1, q2);
    LOG(c, "levels ", q1, " ", q2, " of ", str(a));
    float g1 = gridpp::calc_quantile(a, q1), g2 = gridpp::calc_quantile(a, q2);
    check_quantile(c, a, q1, g1, "lower level");
    check_quantile(c, a, q2, g2, "upper level");
    if(!valid(a).empty()) {
        double m, r;
        bounds(valid(a), m, r);
        REQUIRE(c, g2 >= g1 - 1.3e-7 * m, "level ", q1, " gives ", g1, " but level ", q2, " gives ", g2);
    }
    if(s.b(0.1)) check_quantile(c, a, MV, gridpp::calc_quantile(a, MV), "missing level");
    if(s.b(0.1)) {
        float bad = s.pick<float>({-0.1f, 1.1f, -5, 100});
        bool threw = false;
        try { gridpp::calc_quantile(a, bad); } catch(const std::invalid_argument&) { threw = true; }
        REQUIRE(c, threw, "level ", bad, " is accepted");
    }
    c.nontrivial(valid(a).size() >= 2 && q2 > 0 && q1 < 1);
}
PROP(P09, arrays, 200000, 4000000) {
    int Y = s.i(0, 4), X = s.i(0, 4);
    // row-wise: rows may have different lengths
    vec2 rows;
    for(int i = 0; i < Y; i++) rows.push_back(array(s, 6));
    Statistic st = s.pick(kStats);
    float q = level(s);
    LOG(c, gen::stat_name(st), " and level ", q, " of rows ", str(rows));
    vec o = gridpp::calc_statistic(rows, st), p = gridpp::calc_quantile(rows, q);
    REQUIRE(c, (int) o.size() == Y && (int) p.size() == Y, "number of rows");
    for(int i = 0; i < Y; i++) { check(c, st, rows[i], o[i], "row"); check_quantile(c, rows[i], q, p[i], "row"); }
    int miss = 0;
    for(const vec& r : rows) for(float x : r) miss += !ref::ok(x);
    REQUIRE(c, gridpp::num_missing_values(rows) == miss, "number of missing values is ", gridpp::num_missing_values(rows), " expected ", miss);
    // per-cell levels
    int T = s.i(0, 5);
    vec3 f;
    vec2 lev(Y, vec(X));
    for(int y = 0; y < Y; y++) {
        f.push_back(vec2());
        for(int x = 0; x < X; x++) {
            vec a = array(s, T);
            a.resize(T, MV);
            f[y].push_back(a);
            lev[y][x] = s.b(0.1) ? MV : level(s);
        }
    }
    if(Y > 0 && X > 0) {
        LOG(c, "levels ", str(lev), " of cells ", str(f));
        vec2 g = gridpp::calc_quantile(f, lev);
        REQUIRE(c, (int) g.size() == Y, "rows");
        for(int y = 0; y < Y; y++) {
            REQUIRE(c, (int) g[y].size() == X, "columns");
            for(int x = 0; x < X; x++) check_quantile(c, f[y][x], lev[y][x], g[y][x], "cell");
        }
    }
    c.nontrivial(Y > 1 && X > 1 && T > 1);
}
PROP(P09, names, 20000, 400000) {
    static const std::vector<std::pair<std::string, Statistic>> k = {{"mean", Mean}, {"min", Min}, {"max", Max}, {"median", Median}, {"quantile", Quantile},
        {"std", Std}, {"variance", Variance}, {"sum", Sum}, {"count", Count}, {"randomchoice", RandomChoice}};
    const auto& n = k[s.i(0, k.size() - 1)];
    LOG(c, "name ", n.first);
    REQUIRE(c, gridpp::get_statistic(n.first) == n.second, "the name ", n.first, " stands for another statistic");
    // any other text is not a statistic
    std::string t = n.first;
    int i = s.i(0, t.size() - 1);
    switch(s.draw(4)) {
        case 0: t.erase(i, 1); break;
        case 1: t.insert(i, 1, (char) s.i('a', 'z')); break;
        case 2: t[i] = (char) s.i('a', 'z'); break;
        default: t += k[s.i(0, k.size() - 1)].first;
    }
    Statistic want = Unknown;
    for(const auto& p : k) if(p.first == t) want = p.second;
    LOG(c, " and ", t);
    REQUIRE(c, gridpp::get_statistic(t) == want, "the name ", t, " is taken as ", gridpp::get_statistic(t), " instead of ", want);
    c.nontrivial(want == Unknown);
}
