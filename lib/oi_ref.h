// Shared generator and dense reference for the optimal interpolation checks
#pragma once
#include "structures.h"
#include "linalg.h"

namespace oi {
struct Case {
    gen::Region r;
    sf::MP m;
    gen::Geo b;              // output locations
    gen::GeoGrid bg;         // the same as a grid (if is_grid)
    bool is_grid = false;
    gen::Geo o;              // observation locations
    int max_points = 0;
    bool extrapolate = true;
    int nY() const { return b.n(); }
    int nS() const { return o.n(); }
};
inline Case setup(Src& s, int max_out = 6, int max_obs = 9) {
    Case k;
    k.r = gen::region(s);
    if(k.r.dlat >= 90) { k.r.dlat = 5; k.r.dlon = 5; }
    sf::Opt o;
    o.size = sf::region_size(k.r);
    o.linear = false;
    k.m = sf::structure(s, k.r, o);
    k.is_grid = s.b(0.3);
    if(k.is_grid) {
        k.bg = gen::grid(s, k.r, 1, 3, true);
        k.b = k.bg.flat();
    }
    else k.b = gen::geo(s, k.r, 1, max_out, true);
    k.o = gen::geo(s, k.r, s.b(0.05) ? 0 : 1, max_obs, true);
    // observations at output locations
    for(int i = 0; i < k.o.n(); i++) if(s.b(0.15)) {
        int y = s.i(0, k.b.n() - 1);
        k.o.lats[i] = k.b.lats[y];
        k.o.lons[i] = k.b.lons[y];
    }
    k.max_points = s.b(0.4) ? 0 : s.i(1, 6);
    k.extrapolate = s.b(0.6);
    return k;
}
inline std::string show(const Case& k) {
    return cat(k.m->show(), "\noutput ", k.is_grid ? "(grid) " : "", gen::show(k.b), "\nobservations at ", gen::show(k.o), "\nmax_points ", k.max_points, " extrapolation ", k.extrapolate);
}
// Observations used at output location y, with their correlations. sure=false when the choice depends on rounding.
struct Sel { std::vector<int> idx; std::vector<double> rho; bool sure = true; };
inline Sel select(const Case& k, const Points& bp, const Points& op, int y, const std::vector<char>& usable) {
    Sel out;
    Point p = bp.get_point(y);
    double radius = k.m->p->localization_distance(p);
    double scale = 1;
    for(float v : k.b.lats) scale = std::max(scale, (double) std::fabs(v));
    for(float v : k.b.lons) scale = std::max(scale, (double) std::fabs(v));
    for(float v : k.o.lats) scale = std::max(scale, (double) std::fabs(v));
    for(float v : k.o.lons) scale = std::max(scale, (double) std::fabs(v));
    double tol = ref::tol(k.r.type, scale);
    std::vector<std::pair<double, int>> c;
    for(int i = 0; i < k.nS(); i++) {
        if(!usable[i]) continue;
        double d = ref::chord(k.b.lats[y], k.b.lons[y], k.o.lats[i], k.o.lons[i], k.r.type);
        double rho = k.m->p->corr_background(p, op.get_point(i));
        if(!(rho > 0)) {
            if(std::fabs(d - radius) <= tol) out.sure = false;
            continue;
        }
        if(std::fabs(d - radius) <= tol) { out.sure = false; }
        if(d > radius) continue;
        c.push_back({rho, i});
    }
    std::sort(c.begin(), c.end(), [](const std::pair<double, int>& a, const std::pair<double, int>& b) { return a.first > b.first; });
    int n = c.size();
    if(k.max_points > 0 && n > k.max_points) {
        n = k.max_points;
        if(c[n - 1].first - c[n].first < 1e-6 * c[n].first + 1e-12) out.sure = false;
    }
    for(int i = 0; i < n; i++) { out.idx.push_back(c[i].second); out.rho.push_back(c[i].first); }
    return out;
}
// P + R for the selected observations; P scaled element-wise by 'extra' if given
inline la::M PR(const Case& k, const Points& op, const Sel& sel, const std::vector<double>& ratio, const la::M* extra = nullptr) {
    int n = sel.idx.size();
    la::M a = la::zeros(n, n);
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) {
        a[i][j] = k.m->p->corr(op.get_point(sel.idx[i]), op.get_point(sel.idx[j]));
        if(extra) a[i][j] *= (*extra)[i][j];
        if(i == j) a[i][j] += ratio[sel.idx[i]];
    }
    return a;
}
inline double clip(double inc, double lo, double hi) {
    if(inc > std::max(hi, 0.0)) return std::max(hi, 0.0);
    if(inc < std::min(lo, 0.0)) return std::min(lo, 0.0);
    return inc;
}
}
