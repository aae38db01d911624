// P13: deterministic optimal interpolation
#include "oi_ref.h"

namespace {
struct Det {
    oi::Case k;
    vec bg, bvar, obs, ovar, pbg, pbvar;
};
Det det(Src& s) {
    Det d;
    d.k = oi::setup(s);
    int nY = d.k.nY(), nS = d.k.nS();
    double off = s.pick<double>({0, 280, -10}), amp = s.pick<double>({10, 1, 100});
    double pm = s.b(0.4) ? 0.2 : 0;
    for(int i = 0; i < nY; i++) { d.bg.push_back(s.b(pm / 2) ? MV : (float) (off + s.real(-amp, amp))); d.bvar.push_back((float) s.u(0.1, 3)); }
    bool one = s.b(0.4);
    for(int i = 0; i < nS; i++) {
        d.obs.push_back(s.b(pm) ? s.pick<float>({NAN, INFINITY}) : (float) (off + s.real(-amp, amp)));
        d.pbg.push_back(s.b(pm / 2) ? MV : (float) (off + s.real(-amp, amp)));
        d.ovar.push_back((float) s.pick<double>({1, 0.1, 0.5, 4}));
        d.pbvar.push_back(one ? 1 : (float) s.u(0.2, 3));
    }
    return d;
}
std::string show(const Det& d) {
    return cat(oi::show(d.k), "\nbackground ", str(d.bg), " variance ", str(d.bvar), "\nobservations ", str(d.obs), " variance ", str(d.ovar), "\nbackground there ", str(d.pbg), " variance ", str(d.pbvar));
}
// The correlations belong to a proper covariance: all or no elevations and land fractions are known
bool meta_known(const Det& d) {
    bool all = true, none = true;
    auto look = [&](const vec& v, int n) { if(v.empty()) { if(n) all = false; } else for(float x : v) { if(ref::ok(x)) none = false; else all = false; } };
    look(d.k.b.elevs, d.k.nY()); look(d.k.o.elevs, d.k.nS());
    bool e = all || none;
    all = none = true;
    look(d.k.b.lafs, d.k.nY()); look(d.k.o.lafs, d.k.nS());
    return e && (all || none);
}
// reference; ok[y] = 0 where the answer depends on rounding
struct Ref { std::vector<double> a, v, tol, vtol; std::vector<char> ok; std::vector<oi::Sel> sel; };
Ref reference(const Det& d, const Points& bp, const Points& op) {
    Ref r;
    int nS = d.k.nS();
    std::vector<char> usable(nS);
    std::vector<double> ratio(nS);
    for(int i = 0; i < nS; i++) { usable[i] = ref::ok(d.obs[i]) && ref::ok(d.pbg[i]); ratio[i] = double(d.ovar[i]) / d.pbvar[i]; }
    for(int y = 0; y < d.k.nY(); y++) {
        oi::Sel sel = oi::select(d.k, bp, op, y, usable);
        double vtol = 1e-5 * d.bvar[y], a = d.bg[y], v = d.bvar[y], tol = 1e-6 * std::fabs(a);
        char good = sel.sure;
        int n = sel.idx.size();
        if(n > 0 && ref::ok(d.bg[y])) {
            la::M inv;
            la::R cond;
            bool fine = la::inverse(oi::PR(d.k, op, sel, ratio), inv, cond);
            if(!fine || cond > 1e5) good = 0;
            else {
                double lo = 1e99, hi = -1e99, mag = 0, gsum = 0;
                la::R inc = 0, red = 0;
                for(int i = 0; i < n; i++) {
                    double innov = double(d.obs[sel.idx[i]]) - d.pbg[sel.idx[i]];
                    lo = std::min(lo, innov);
                    hi = std::max(hi, innov);
                    mag = std::max(mag, std::max(std::fabs((double) d.obs[sel.idx[i]]), std::fabs((double) d.pbg[sel.idx[i]])));
                    la::R g = 0;
                    for(int j = 0; j < n; j++) g += sel.rho[j] * inv[j][i];
                    gsum += std::fabs((double) g);
                    inc += g * innov;
                    red += g * sel.rho[i];
                }
                if(!d.k.extrapolate) {
                    // the library may go to either end of the allowed range when the sign is wrong
                    double c = oi::clip(inc, lo, hi);
                    if(c != (double) inc && (hi < 0 || lo > 0)) good = good ? 2 : 0;
                    else inc = c;
                }
                a = d.bg[y] + (double) inc;
                v = d.bvar[y] * (1 - (double) red);
                double unc = 3e-7 * (double) cond * gsum;      // effect of rounding the variance ratios
                tol = 2e-6 * (std::fabs(d.bg[y]) + mag) + 1e-6 + unc * std::max(std::fabs(lo), std::fabs(hi));
                vtol = (1e-5 + unc) * d.bvar[y];
            }
        }
        r.a.push_back(a); r.v.push_back(v); r.tol.push_back(tol); r.vtol.push_back(vtol); r.ok.push_back(good); r.sel.push_back(sel);
    }
    return r;
}
}
PROP(P13, equation, 150000, 3000000) {
    Det d = det(s);
    LOG(c, show(d));
    Points bp = d.k.b.points(), op = d.k.o.points();
    Ref r = reference(d, bp, op);
    vec av;
    vec a = gridpp::optimal_interpolation_full(bp, d.bg, d.bvar, op, d.obs, d.ovar, d.pbg, d.pbvar, *d.k.m->p, d.k.max_points, av, d.k.extrapolate);
    REQUIRE(c, (int) a.size() == d.k.nY() && (int) av.size() == d.k.nY(), "size of the result");
    bool some = false;
    for(int y = 0; y < d.k.nY(); y++) {
        if(!ref::ok(d.bg[y])) { REQUIRE(c, !ref::ok(a[y]), "missing background became ", a[y]); continue; }
        if(r.sel[y].sure && r.sel[y].idx.empty()) REQUIRE(c, a[y] == d.bg[y] && av[y] == d.bvar[y], "location ", y, " without observations: ", a[y], " variance ", av[y]);
        if(!r.ok[y]) continue;
        if(r.ok[y] == 1) REQUIRE(c, feq(a[y], r.a[y], r.tol[y], 2e-6), "analysis at location ", y, " is ", a[y], " but the equation gives ", r.a[y], " from observations ", str(r.sel[y].idx));
        REQUIRE(c, feq(av[y], r.v[y], r.vtol[y], 1e-5), "analysis variance at location ", y, " is ", av[y], " but the equation gives ", r.v[y]);
        if(d.k.m->kind == sf::BARNES && !d.k.m->spatial && !ref::ok(d.k.m->hmax) && meta_known(d)) {
            // (a truncated correlation is not exactly positive definite)
            REQUIRE(c, av[y] <= d.bvar[y] * 1.0001 && av[y] >= -0.05 * d.bvar[y], "analysis variance ", av[y], " background variance ", d.bvar[y]);
            c.label("bounded");
        }
        some |= r.sel[y].idx.size() >= 2 && std::fabs(a[y] - d.bg[y]) > 1e-3;
    }
    c.nontrivial(some);
    c.label(sf::kname(d.k.m->kind));
    if(d.k.is_grid) c.label("grid");
}
PROP(P13, overloads, 80000, 1600000) {
    Det d = det(s);
    LOG(c, show(d));
    Points bp = d.k.b.points(), op = d.k.o.points();
    const StructureFunction& st = *d.k.m->p;
    vec ratio(d.k.nS()), av;
    for(int i = 0; i < d.k.nS(); i++) ratio[i] = d.ovar[i] / d.pbvar[i];
    vec full = gridpp::optimal_interpolation_full(bp, d.bg, d.bvar, op, d.obs, d.ovar, d.pbg, d.pbvar, st, d.k.max_points, av, d.k.extrapolate);
    vec simple = gridpp::optimal_interpolation(bp, d.bg, op, d.obs, ratio, d.pbg, st, d.k.max_points, d.k.extrapolate);
    REQUIRE(c, gen::same_vec(full, simple), "with and without variances: ", str(full), " and ", str(simple));
    bool changed = !gen::same_vec(full, d.bg);
    if(d.k.is_grid) {
        int Y = d.k.bg.Y(), X = d.k.bg.X();
        vec2 b2(Y, vec(X)), v2 = b2, av2;
        for(int i = 0; i < Y * X; i++) { b2[i / X][i % X] = d.bg[i]; v2[i / X][i % X] = d.bvar[i]; }
        Grid g = d.k.bg.grid();
        vec2 f2 = gridpp::optimal_interpolation_full(g, b2, v2, op, d.obs, d.ovar, d.pbg, d.pbvar, st, d.k.max_points, av2, d.k.extrapolate);
        vec2 s2 = gridpp::optimal_interpolation(g, b2, op, d.obs, ratio, d.pbg, st, d.k.max_points, d.k.extrapolate);
        REQUIRE(c, (int) f2.size() == Y && (int) s2.size() == Y && (int) av2.size() == Y, "rows");
        for(int i = 0; i < Y * X; i++) {
            int y = i / X, x = i % X;
            REQUIRE(c, (int) f2[y].size() == X && (int) s2[y].size() == X && (int) av2[y].size() == X, "columns");
            REQUIRE(c, pbt::same(f2[y][x], full[i]) && pbt::same(s2[y][x], full[i]), "cell ", y, ",", x, ": grid ", f2[y][x], " and ", s2[y][x], ", points ", full[i]);
            REQUIRE(c, pbt::same(av2[y][x], av[i]), "variance at ", y, ",", x, ": grid ", av2[y][x], ", points ", av[i]);
        }
    }
    c.nontrivial(changed && d.k.is_grid && d.k.nY() > 1);
}
PROP(P13, relations, 80000, 1600000) {
    Det d = det(s);
    LOG(c, show(d));
    Points bp = d.k.b.points(), op = d.k.o.points();
    const StructureFunction& st = *d.k.m->p;
    int nS = d.k.nS();
    Ref r = reference(d, bp, op);
    vec av;
    vec a = gridpp::optimal_interpolation_full(bp, d.bg, d.bvar, op, d.obs, d.ovar, d.pbg, d.pbvar, st, d.k.max_points, av, d.k.extrapolate);
    // another order, without the unusable observations
    std::vector<int> perm;
    for(int i = 0; i < nS; i++) if((ref::ok(d.obs[i]) && ref::ok(d.pbg[i])) || s.b(0.3)) perm.push_back(i);
    for(int i = (int) perm.size() - 1; i > 0; i--) std::swap(perm[i], perm[s.i(0, i)]);
    Det e = d;
    e.obs.clear(); e.ovar.clear(); e.pbg.clear(); e.pbvar.clear();
    e.k.o.lats.clear(); e.k.o.lons.clear(); e.k.o.elevs.clear(); e.k.o.lafs.clear();
    for(int i : perm) {
        e.obs.push_back(d.obs[i]); e.ovar.push_back(d.ovar[i]); e.pbg.push_back(d.pbg[i]); e.pbvar.push_back(d.pbvar[i]);
        e.k.o.lats.push_back(d.k.o.lats[i]); e.k.o.lons.push_back(d.k.o.lons[i]);
        if(!d.k.o.elevs.empty()) e.k.o.elevs.push_back(d.k.o.elevs[i]);
        if(!d.k.o.lafs.empty()) e.k.o.lafs.push_back(d.k.o.lafs[i]);
    }
    LOG(c, "order ", str(perm));
    vec bv;
    vec b = gridpp::optimal_interpolation_full(bp, e.bg, e.bvar, e.k.o.points(), e.obs, e.ovar, e.pbg, e.pbvar, st, e.k.max_points, bv, e.k.extrapolate);
    // and with perfect background
    Det z = d;
    for(int i = 0; i < nS; i++) if(ref::ok(z.pbg[i])) z.obs[i] = z.pbg[i];
    vec zv;
    vec za = gridpp::optimal_interpolation_full(bp, z.bg, z.bvar, op, z.obs, z.ovar, z.pbg, z.pbvar, st, z.k.max_points, zv, z.k.extrapolate);
    bool some = false;
    for(int y = 0; y < d.k.nY(); y++) {
        REQUIRE(c, pbt::same(za[y], d.bg[y]) || !ref::ok(d.bg[y]) || !r.ok[y], "observations equal to the background changed location ", y, " from ", d.bg[y], " to ", za[y]);
        if(!r.ok[y] || !ref::ok(d.bg[y])) continue;
        REQUIRE(c, feq(a[y], b[y], r.tol[y], 2e-6), "location ", y, ": ", a[y], " with the observations in another order ", b[y]);
        REQUIRE(c, feq(av[y], bv[y], r.vtol[y], 1e-5), "variance at location ", y, ": ", av[y], " with the observations in another order ", bv[y]);
        some |= r.sel[y].idx.size() >= 2;
    }
    c.nontrivial(some);
}
