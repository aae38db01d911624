// P19: verification scores, optimal thresholds, quantile mapping curves
#include "gen.h"

namespace {
const std::initializer_list<Metric> MET = {Ets, Ts, Kss, Pc, Bias, Hss};
std::string name(Metric m) { return m == Ets ? "Ets" : m == Ts ? "Ts" : m == Kss ? "Kss" : m == Pc ? "Pc" : m == Bias ? "Bias" : "Hss"; }
// Textbook scores (bias as the distance from the frequency bias 1: 1 - |b-c|/(b+c)); NaN if undefined
double score(double a, double b, double c, double d, Metric m) {
    double n = a + b + c + d;
    if(m == Ets) { double r = (a + b) * (a + c) / n; return a + b + c - r == 0 ? NAN : (a - r) / (a + b + c - r); }
    if(m == Ts) return a / (a + b + c);
    if(m == Pc) return (a + d) / n;
    if(m == Kss) return (a + c) * (b + d) == 0 ? NAN : (a * d - b * c) / ((a + c) * (b + d));
    if(m == Bias) return b == c ? 1 : 1 - std::fabs(b - c) / (b + c);
    double den = (a + c) * (c + d) + (a + b) * (b + d);
    return den == 0 ? NAN : 2 * (a * d - b * c) / den;
}
double lowest(Metric m) { return m == Ets ? -1.0 / 3 : m == Kss || m == Hss ? -1 : 0; }
struct Table { double a = 0, b = 0, c = 0, d = 0; };
Table count(const vec& ref, const vec& fcst, double t, double ft) {
    Table k;
    for(size_t i = 0; i < ref.size(); i++) {
        if(!::ref::ok(ref[i]) || !::ref::ok(fcst[i])) continue;
        bool o = ref[i] > t, f = fcst[i] > ft;
        (f ? (o ? k.a : k.b) : (o ? k.c : k.d))++;
    }
    return k;
}
void series(Src& s, int n, vec& ref, vec& fcst, double pm) {
    int kind = s.draw(4);
    ref.resize(n);
    fcst.resize(n);
    for(int i = 0; i < n; i++) {
        ref[i] = kind == 0 ? s.i(0, 4) : s.f(0, 10);
        fcst[i] = kind == 0 ? s.i(0, 4) : kind == 1 ? s.f(0, 10) : kind == 2 ? (float) (ref[i] + s.u(-2, 2)) : (float) (ref[i] * ref[i] / 5 + s.u(-1, 1));
        if(pm > 0 && s.b(pm)) ref[i] = NAN;
        if(pm > 0 && s.b(pm)) fcst[i] = NAN;
    }
}
}

PROP(P19, table, 400000, 10000000) {
    Metric m = s.pick(MET);
    bool frac = s.b(0.3);
    auto one = [&]() { return frac ? (s.b(0.2) ? 0.0f : (float) s.u(0, 1)) : (float) s.i(0, s.b(0.1) ? 2000 : 9); };
    float a = one(), b = one(), cc = one(), d = one();
    LOG(c, name(m), " a ", a, " b ", b, " c ", cc, " d ", d);
    float got = gridpp::calc_score(a, b, cc, d, m);
    double want = score(a, b, cc, d, m);
    c.label(name(m));
    c.nontrivial(a > 0 && b > 0 && cc > 0 && d > 0);
    double den = m == Ets ? (a + b + cc - (a + b) * (a + cc) / (a + b + cc + d)) / (a + b + cc + d) : 1;
    double tol = 1e-5 + (m == Ets ? 1e-6 / std::max(std::fabs(den), 1e-9) : 0);     // rounding of the small denominator
    REQUIRE(c, feq(got, want, tol, 1e-5), "score is ", got, " but the definition gives ", want);
    if(ref::ok(got) && tol < 0.01) {
        REQUIRE(c, got >= lowest(m) - tol && got <= 1 + tol, "score ", got, " is out of range");
        if(b == 0 && cc == 0 && m != Bias) REQUIRE(c, got >= 1 - tol, "perfect forecasts score ", got);
    }
}

PROP(P19, series, 100000, 4000000) {
    Metric m = s.pick(MET);
    int n = s.i(1, s.b(0.1) ? 200 : 40);
    vec ref, fcst;
    series(s, n, ref, fcst, s.b(0.3) ? 0.15 : 0);
    auto thr = [&](const vec& v) { float x = s.b(0.4) ? v[s.i(0, n - 1)] : s.f(0, 10); return ::ref::ok(x) ? x : 1.0f; };
    float t = thr(ref), ft = s.b(0.3) ? t : thr(fcst);
    LOG(c, name(m), " ref ", ref, " fcst ", fcst, " thresholds ", t, ", ", ft);
    Table k = count(ref, fcst, t, ft);
    LOG(c, "table ", k.a, " ", k.b, " ", k.c, " ", k.d);
    c.label(name(m));
    c.nontrivial(k.a > 0 && k.b > 0 && k.c > 0 && k.d > 0);
    float got = gridpp::calc_score(ref, fcst, t, ft, m), want = gridpp::calc_score((float) k.a, (float) k.b, (float) k.c, (float) k.d, m);
    REQUIRE(c, pbt::same(got, want), "score of the series is ", got, " but that of its table is ", want);
    float same = gridpp::calc_score(ref, fcst, t, m), same2 = gridpp::calc_score(ref, fcst, t, t, m);
    REQUIRE(c, pbt::same(same, same2), "one threshold gives ", same, " but twice the same ", same2);
    // order of the pairs
    std::vector<int> p(n);
    for(int i = 0; i < n; i++) p[i] = i;
    for(int i = n - 1; i > 0; i--) std::swap(p[i], p[s.i(0, i)]);
    vec r2(n), f2(n);
    for(int i = 0; i < n; i++) { r2[i] = ref[p[i]]; f2[i] = fcst[p[i]]; }
    float perm = gridpp::calc_score(r2, f2, t, ft, m);
    REQUIRE(c, pbt::same(got, perm), "score depends on the order: ", got, " and ", perm);
    float perfect = gridpp::calc_score(ref, ref, t, m);
    REQUIRE(c, !::ref::ok(perfect) || perfect >= 1 - 1e-5, "perfect forecasts score ", perfect);
    REQUIRE(c, !::ref::ok(perfect) || !::ref::ok(got) || got <= perfect + 1e-5, "score ", got, " is better than that of perfect forecasts ", perfect);
}

PROP(P19, optimal_threshold, 10000, 300000) {
    Metric m = s.pick(MET);
    int n = s.i(2, 40);
    vec ref, fcst;
    series(s, n, ref, fcst, 0);
    vec t(s.i(1, 4));
    for(float& x : t) x = s.b(0.4) ? ref[s.i(0, n - 1)] : s.f(0, 10);
    LOG(c, name(m), " ref ", ref, " fcst ", fcst, " thresholds ", t);
    vec of, orf = gridpp::metric_optimizer_curve(ref, fcst, t, m, of);
    REQUIRE(c, of.size() == orf.size(), "sizes ", of.size(), " and ", orf.size());
    size_t k = 0;
    float lo = *std::min_element(fcst.begin(), fcst.end()), hi = *std::max_element(fcst.begin(), fcst.end());
    for(float x : t) {
        float o = gridpp::get_optimal_threshold(ref, fcst, x, m);
        LOG(c, "threshold ", x, " -> ", o);
        if(!::ref::ok(o)) continue;
        REQUIRE(c, k < of.size() && of[k] == x && orf[k] == o, "curve element ", k, " should be ", o, " for threshold ", x);
        k++;
        double slack = 1e-6 * (std::fabs(lo) + std::fabs(hi));
        REQUIRE(c, o >= lo - slack && o <= hi + slack, "optimal threshold ", o, " is outside the forecasts");
        double best = gridpp::calc_score(ref, fcst, x, o, m), s0 = gridpp::calc_score(ref, fcst, x, lo, m);
        double tol = 1e-4;
        REQUIRE(c, best > 0, "score at the optimum is ", best);
        REQUIRE(c, !(s0 > best + tol), "score at the optimum is ", best, " but at the smallest forecast ", s0);
        // better than any of a coarse set of candidates
        for(int b = 0; b <= 9; b++) {
            double cand = lo + (hi - lo) / 9.0 * b, e = (hi - lo) * 1e-5 + 1e-6;
            double v = gridpp::calc_score(ref, fcst, x, cand, m);
            if(gridpp::calc_score(ref, fcst, x, cand - e, m) != v || gridpp::calc_score(ref, fcst, x, cand + e, m) != v) continue;
            REQUIRE(c, !(v > best + tol), "score at the optimum ", o, " is ", best, " but ", cand, " gives ", v);
        }
        c.nontrivial(best < 1);
        c.label(name(m));
    }
    REQUIRE(c, k == of.size(), "the curve has ", of.size(), " elements, expected ", k);
}

PROP(P19, quantile_mapping, 100000, 3000000) {
    int n = gen::size(s, 0, 25, 200), nq = s.b(0.4) ? 0 : s.i(1, 8);
    vec ref, fcst, q(nq), of;
    series(s, n, ref, fcst, s.b(0.2) ? 0.15 : 0);
    for(float& x : q) x = s.b(0.3) ? s.pick<float>({0, 1, 0.5}) : (float) s.u(0, 1);
    if(s.b(0.7)) std::sort(q.begin(), q.end());
    LOG(c, "ref ", ref, " fcst ", fcst, " quantiles ", q);
    vec orf = gridpp::quantile_mapping_curve(ref, fcst, of, q);
    LOG(c, "curve ", of, " -> ", orf);
    vec r, f;       // pairs with a missing value say nothing
    for(int i = 0; i < n; i++) if(::ref::ok(ref[i]) && ::ref::ok(fcst[i])) { r.push_back(ref[i]); f.push_back(fcst[i]); }
    std::sort(r.begin(), r.end());
    std::sort(f.begin(), f.end());
    int N = r.size();
    c.nontrivial(N > 2 && (nq == 0 || nq > 1));
    c.label(nq ? "quantiles" : "all");
    REQUIRE(c, of.size() == orf.size(), "sizes ", of.size(), " and ", orf.size());
    if(N < 2) {
        REQUIRE(c, of == f && orf == r, "curve of ", N, " pairs");
        return;
    }
    if(nq == 0) {
        REQUIRE(c, of == f && orf == r, "the curve should be ", f, " -> ", r);
        // reproduces the climate
        bool distinct = true;
        for(int i = 1; i < N; i++) distinct &= f[i] > f[i - 1];
        if(distinct) {
            vec back = gridpp::apply_curve(f, orf, of, OneToOne, Zero);
            for(int i = 0; i < N; i++) REQUIRE(c, feq(back[i], r[i], 1e-5, 1e-5), "forecast ", f[i], " is mapped to ", back[i], " but the reference has ", r[i]);
        }
    }
    else {
        REQUIRE(c, (int) of.size() == nq, of.size(), " elements for ", nq, " quantiles");
        for(int i = 0; i < nq; i++) {
            double pos = (double) q[i] * (N - 1);
            int lo = (int) std::floor(pos - 1e-5 * N), hi = (int) std::floor(pos + 1e-5 * N);
            lo = std::max(0, std::min(lo, N - 1)); hi = std::max(0, std::min(hi, N - 1));
            REQUIRE(c, (of[i] == f[lo] && orf[i] == r[lo]) || (of[i] == f[hi] && orf[i] == r[hi]), "quantile ", q[i], " gives ", of[i], " -> ", orf[i], " but rank ", lo, " is ", f[lo], " -> ", r[lo]);
            for(int j = 0; j < nq; j++) if(q[j] < q[i]) REQUIRE(c, of[j] <= of[i] && orf[j] <= orf[i], "the curve decreases");
        }
    }
}

PROP(P19, neighbourhood_score, 20000, 500000) {
    // a regular grid and observations well inside cells, so that the closest cell is certain
    int Y = s.i(1, 7), X = s.i(1, 7), n = s.i(0, 20), hw = s.i(1, 3);
    Metric m = s.pick(MET);
    vec2 lats(Y, vec(X)), lons(Y, vec(X));
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { lats[y][x] = y; lons[y][x] = x; }
    Grid grid(lats, lons, vec2(), vec2(), Cartesian);
    double pm = s.b(0.3) ? 0.15 : 0;
    vec2 fcst = gen::values2(s, Y, X, 0, 4, pm);
    vec plat(n), plon(n), obs(n);
    vec2 sum(Y, vec(X, 0)), num(Y, vec(X, 0));
    for(int i = 0; i < n; i++) {
        int y = s.i(0, Y - 1), x = s.i(0, X - 1);
        plat[i] = y + s.u(-0.4, 0.4);
        plon[i] = x + s.u(-0.4, 0.4);
        obs[i] = s.b(pm) ? (float) NAN : s.i(0, 16) / 4.0f;
        if(::ref::ok(obs[i])) { sum[y][x] += obs[i]; num[y][x]++; }
    }
    float t = s.i(0, 16) / 4.0f + 0.06f;
    LOG(c, name(m), " fcst ", fcst, " observations at ", plat, " ", plon, " values ", obs, " half width ", hw, " threshold ", t);
    vec2 out = gridpp::neighbourhood_score(grid, Points(plat, plon, vec(), vec(), Cartesian), fcst, obs, hw, m, t);
    REQUIRE(c, (int) out.size() == Y, "shape");
    c.label(name(m));
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        REQUIRE(c, (int) out[y].size() == X, "shape");
        double a = 0, b = 0, cc = 0, d = 0;
        bool close = false;
        for(int v = std::max(0, y - hw); v <= std::min(Y - 1, y + hw); v++) for(int u = std::max(0, x - hw); u <= std::min(X - 1, x + hw); u++) {
            if(!::ref::ok(fcst[v][u]) || num[v][u] == 0) continue;
            double o = sum[v][u] / num[v][u];
            if(std::fabs(o - t) < 1e-4) close = true;
            (fcst[v][u] > t ? (o > t ? a : b) : (o > t ? cc : d))++;
        }
        if(close) continue;
        double want = score(a, b, cc, d, m);
        if(m == Ets && ::ref::ok(want)) { double N = a + b + cc + d; if((a + b + cc - (a + b) * (a + cc) / N) / N < 1e-3) continue; }
        if(m == Ets && !::ref::ok(want) && a + b + cc + d > 0) continue;          // 0 / 0 up to rounding
        c.nontrivial(a + d > 0 && b + cc > 0);
        REQUIRE(c, feq(out[y][x], want, 2e-4, 1e-4), "(", y, ",", x, ") is ", out[y][x], " but the table ", a, " ", b, " ", cc, " ", d, " gives ", want);
    }
}

PROP(P19, refused, 4000, 100000) {
    int n = s.i(0, 5), d = s.pick<int>({1, -1, 3});
    if(n + d < 0) d = 1;
    vec a = gen::values(s, n, 0, 5, 0), b = gen::values(s, n + d, 0, 5, 0), o, q = {0.5f};
    int k = s.draw(6);
    LOG(c, "kind ", k, " sizes ", a.size(), " ", b.size());
    c.nontrivial();
    bool thrown = false;
    try {
        if(k == 0) gridpp::calc_score(a, b, 1.0f, Pc);
        if(k == 1) gridpp::calc_score(a, b, 1.0f, 2.0f, Pc);
        if(k == 2) gridpp::get_optimal_threshold(a, b, 1.0f, Pc);
        if(k == 3) gridpp::metric_optimizer_curve(a, b, vec(1, 1), Pc, o);
        if(k == 4) gridpp::quantile_mapping_curve(a, b, o, s.b() ? q : vec());
        if(k == 5) { q[0] = s.pick<float>({-0.01f, 1.01f, NAN}); gridpp::quantile_mapping_curve(a, a, o, q); }
    }
    catch(const std::invalid_argument& e) { thrown = true; }
    REQUIRE(c, thrown, "accepted");
}
