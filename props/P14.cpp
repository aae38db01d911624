// P14: no extrapolation
#include "ens_ref.h"

PROP(P14, deterministic, 150000, 3000000) {
    oi::Case k = oi::setup(s);
    int nY = k.nY(), nS = k.nS();
    double off = s.pick<double>({0, 280}), amp = s.pick<double>({10, 1});
    bool sided = s.b(0.4);      // all innovations of one sign (or zero)
    vec bg, obs, ratio, pbg;
    for(int i = 0; i < nY; i++) bg.push_back((float) (off + s.real(-amp, amp)));
    for(int i = 0; i < nS; i++) {
        pbg.push_back((float) (off + s.real(-amp, amp)));
        obs.push_back(s.b(0.1) ? MV : (float) (sided ? pbg[i] + s.real(0, amp) : off + s.real(-amp, amp)));
        ratio.push_back((float) s.pick<double>({0.1, 0.01, 1}));
    }
    if(sided && s.b()) for(int i = 0; i < nS; i++) obs[i] = pbg[i] - (obs[i] - pbg[i]);
    LOG(c, oi::show(k), "\nbackground ", str(bg), "\nobservations ", str(obs), " ratios ", str(ratio), "\nbackground there ", str(pbg));
    Points bp = k.b.points(), op = k.o.points();
    vec a = gridpp::optimal_interpolation(bp, bg, op, obs, ratio, pbg, *k.m->p, k.max_points, false);
    vec f = gridpp::optimal_interpolation(bp, bg, op, obs, ratio, pbg, *k.m->p, k.max_points, true);
    std::vector<char> usable(nS);
    for(int i = 0; i < nS; i++) usable[i] = ref::ok(obs[i]);
    bool limited = false;
    for(int y = 0; y < nY; y++) {
        oi::Sel sel = oi::select(k, bp, op, y, usable);
        if(!sel.sure || !ref::ok(f[y])) continue;
        double lo = 0, hi = 0, mag = std::fabs(bg[y]);
        for(int i : sel.idx) { double v = double(obs[i]) - pbg[i]; lo = std::min(lo, v); hi = std::max(hi, v); mag = std::max(mag, std::fabs(v)); }
        double tol = 1e-6 * mag + 1e-6, inc = double(a[y]) - bg[y], free = double(f[y]) - bg[y];
        REQUIRE(c, inc <= hi + tol && inc >= lo - tol, "increment at location ", y, " is ", inc, " but the innovations used there range from ", lo, " to ", hi);
        if(free <= hi - tol && free >= lo + tol) REQUIRE(c, a[y] == f[y], "the analysis ", f[y], " at location ", y, " is within the limits but is changed to ", a[y]);
        limited |= a[y] != f[y];
    }
    c.nontrivial(limited);
    if(sided) c.label("one-sided");
}
PROP(P14, ensembles, 120000, 2400000) {
    ens::Case d = ens::setup(s);
    if(s.b(0.5) && d.k.nS() > 0 && d.nE > 0) {
        // innovations of one sign
        float sign = s.b() ? 1 : -1;
        for(int i = 0; i < d.k.nS(); i++) {
            float top = -1e9;
            for(int e = 0; e < d.nE; e++) {
                if(ref::ok(d.pbg[i][e])) top = std::max(top, sign * d.pbg[i][e]);
                if(ref::ok(d.pobs[i][e])) d.pobs[i][e] = d.pbg[i][e] + sign * s.i(0, 4);
            }
            if(ref::ok(d.obs[i])) d.obs[i] = sign * (top + s.i(0, 4));
        }
    }
    d.k.extrapolate = false;
    LOG(c, ens::show(d));
    ens::Ref r = ens::reference(d);
    vec2 a = ens::run(d);
    ens::Case e2 = d;
    e2.k.extrapolate = true;
    vec2 f = ens::run(e2);
    bool limited = false;
    for(int y = 0; y < d.k.nY(); y++) {
        if(!r.sel[y].sure || r.sel[y].idx.empty()) continue;
        for(size_t q = 0; q < r.valid.size(); q++) {
            int e = r.valid[q];
            if(!ref::ok(f[y][e])) continue;
            double lo = std::min(0.0, r.lo[y][q]), hi = std::max(0.0, r.hi[y][q]);
            double mag = std::max(std::fabs(d.bg[y][e]), std::max(-(float) lo, (float) hi)) + 300, tol = 2e-6 * mag;
            double inc = double(a[y][e]) - d.bg[y][e], free = double(f[y][e]) - d.bg[y][e];
            REQUIRE(c, inc <= hi + tol && inc >= lo - tol, "increment of member ", e, " at location ", y, " is ", inc, " but the innovations used there range from ", lo, " to ", hi);
            if(free <= hi - tol && free >= lo + tol) REQUIRE(c, std::fabs(a[y][e] - f[y][e]) <= tol, "member ", e, " at location ", y, ": the analysis ", f[y][e], " is within the limits but is changed to ", a[y][e]);
            limited |= std::fabs(a[y][e] - f[y][e]) > tol;
        }
    }
    c.nontrivial(limited);
    c.label(ens::name(d.method));
}
