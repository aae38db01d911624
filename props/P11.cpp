// P11: gridding of observations
#include "gen.h"

namespace {
const std::vector<Statistic> kStats = {Mean, Sum, Count, Min, Max, Median, Std, Variance, RandomChoice};
// Is `got` the statistic of the values in `sure` plus some subset of `maybe`?
bool acceptable(const std::vector<float>& sure, const std::vector<float>& maybe, Statistic st, int min_num, bool zero_count, float got, std::string& want) {
    if(maybe.size() > 6) return true;
    for(int m = 0; m < (1 << maybe.size()); m++) {
        std::vector<double> all(sure.begin(), sure.end()), v;
        for(size_t i = 0; i < maybe.size(); i++) if(m >> i & 1) all.push_back(maybe[i]);
        for(double x : all) if(ref::ok(x)) v.push_back(x);
        double exp = NAN;
        bool enough = (int) all.size() >= min_num && (all.size() > 0 || zero_count);
        if(enough) exp = ref::statistic(v, st == RandomChoice ? Mean : st);
        want += cat(m ? " or " : "", exp);
        if(enough && st == RandomChoice && !v.empty()) { for(double x : v) if(x == got) return true; continue; }
        if(std::isnan(exp)) { if(std::isnan(got)) return true; continue; }
        double mx = 0, lo = 1e99, hi = -1e99;
        for(double x : v) { mx = std::max(mx, std::fabs(x)); lo = std::min(lo, x); hi = std::max(hi, x); }
        double tol = st == Sum || st == Mean ? 2e-7 * (v.size() + 2) * mx * (st == Sum ? v.size() : 1) : (st == Median ? 5e-7 * mx : 0);
        if(st == Variance || st == Std) {
            double g = st == Std ? (double) got * got : got, w = st == Std ? exp * exp : exp;
            if(got >= 0 && std::fabs(g - w) <= (v.size() + 4) * 3e-7 * (hi - lo) * (hi - lo)) return true;
            continue;
        }
        if(feq(got, exp, tol, 0)) return true;
    }
    return false;
}
void run(Src& s, Ctx& c, bool nearest) {
    gen::Region r = gen::region(s);
    bool togrid = s.b();
    gen::GeoGrid og;
    gen::Geo out;
    if(togrid) { og = gen::grid(s, r, 1, 5, false); out = og.flat(); } else out = gen::geo(s, r, 1, 15, false);
    gen::Geo obs = gen::geo(s, r, 0, s.b(0.02) ? 300 : 20, false);
    obs.type = out.type;
    int n = obs.n();
    vec values = gen::values(s, n, -20, 20, gen::pmiss(s));
    Statistic st = s.pick(kStats);
    int min_num = s.b() ? s.i(0, 1) : s.i(0, 5);
    std::vector<std::vector<double>> d(out.n(), std::vector<double>(n));
    double scale = 0, dmax = 0;
    for(int o = 0; o < out.n(); o++) {
        scale = std::max(scale, (double) std::max(std::fabs(out.lats[o]), std::fabs(out.lons[o])));
        for(int i = 0; i < n; i++) {
            scale = std::max(scale, (double) std::max(std::fabs(obs.lats[i]), std::fabs(obs.lons[i])));
            d[o][i] = ref::chord(out.lats[o], out.lons[o], obs.lats[i], obs.lons[i], out.type);
            dmax = std::max(dmax, d[o][i]);
        }
    }
    double tol = ref::tol(out.type, scale);
    float radius = 0;
    if(!nearest) {
        radius = s.b(0.05) ? 0 : (float) (dmax * s.pick<double>({0.1, 0.3, 0.5, 1.1}) * s.u(0, 1));
        if(n > 0 && s.b(0.05)) radius = (float) d[s.i(0, out.n() - 1)][s.i(0, n - 1)];
    }
    LOG(c, nearest ? "nearest " : cat("radius ", radius, " "), gen::stat_name(st), " min_num ", min_num, "\noutput ", togrid ? gen::show(og) : gen::show(out), "\nobservations ", gen::show(obs), " values ", str(values));
    std::vector<int> order(n);
    for(int i = 0; i < n; i++) order[i] = i;
    for(int rep = 0; rep < 2; rep++) {
        gen::Geo o2;
        o2.type = obs.type;
        vec v2;
        for(int i : order) { o2.lats.push_back(obs.lats[i]); o2.lons.push_back(obs.lons[i]); v2.push_back(values[i]); }
        vec res;
        if(togrid) {
            vec2 v = nearest ? gridpp::gridding_nearest(og.grid(), o2.points(), v2, min_num, st) : gridpp::gridding(og.grid(), o2.points(), v2, radius, min_num, st);
            REQUIRE(c, (int) v.size() == og.Y(), "rows");
            for(const vec& q : v) { REQUIRE(c, (int) q.size() == og.X(), "columns"); res.insert(res.end(), q.begin(), q.end()); }
        }
        else res = nearest ? gridpp::gridding_nearest(out.points(), o2.points(), v2, min_num, st) : gridpp::gridding(out.points(), o2.points(), v2, radius, min_num, st);
        REQUIRE(c, (int) res.size() == out.n(), "output size ", res.size());
        std::vector<double> best(n, 1e99);
        if(nearest) for(int i = 0; i < n; i++) for(int o = 0; o < out.n(); o++) best[i] = std::min(best[i], d[o][i]);
        double total = 0;
        int used = 0, multi = 0;
        for(int o = 0; o < out.n(); o++) {
            std::vector<float> sure, maybe;
            for(int i = 0; i < n; i++) {
                bool in, edge;
                if(nearest) {
                    in = d[o][i] <= best[i] + 2 * tol;
                    int ties = 0;
                    if(in) for(int k = 0; k < out.n(); k++) ties += d[k][i] <= best[i] + 2 * tol;
                    edge = in && ties > 1;
                }
                else {
                    in = d[o][i] <= radius + tol;
                    edge = in && d[o][i] >= radius - tol;
                }
                if(edge) maybe.push_back(values[i]); else if(in) sure.push_back(values[i]);
            }
            std::string want;
            REQUIRE(c, acceptable(sure, maybe, st, min_num, !nearest, res[o], want), rep ? "with permuted observations, " : "", "output ", o, " is ", res[o], " expected ", want, " from ", str(sure), " and perhaps ", str(maybe));
            if(!sure.empty()) used++;
            if(sure.size() > 1) multi++;
            if(st == Count && ref::ok(res[o])) total += res[o];
        }
        if(nearest && st == Count && min_num <= 1) {
            int valid = 0;
            for(float v : values) valid += ref::ok(v);
            REQUIRE(c, total == valid, total, " observations counted, but there are ", valid);
        }
        c.nontrivial(multi > 0 && used < out.n());
        for(int i = n - 1; i > 0; i--) std::swap(order[i], order[s.i(0, i)]);
    }
    c.label(gen::stat_name(st));
    c.label(togrid ? "to-grid" : "to-points");
}
}
PROP(P11, radius, 300000, 6000000) { run(s, c, false); }
PROP(P11, nearest, 300000, 6000000) { run(s, c, true); }
