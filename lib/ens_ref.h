// Ensemble optimal interpolation: generator and dense reference
#pragma once
#include "oi_ref.h"

namespace ens {
enum Method { ENSI, EBE, EBESC, UTEM };
inline const char* name(Method m) { static const char* n[] = {"ensi", "ebe", "ebesc", "utem"}; return n[m]; }
struct Case {
    oi::Case k;
    Method method;
    int nE;
    vec2 bg, bgc;        // location, member
    vec bratio;
    vec obs;             // ensi, utem
    vec2 pobs;           // ebe, ebesc
    vec sigma;           // standard deviation (ensi) or variance ratio
    vec2 pbg, pbgc;
};
inline bool multi(Method m) { return m != ENSI; }
inline bool has_corr(Method m) { return m == EBE || m == UTEM; }
inline bool has_pobs(Method m) { return m == EBE || m == EBESC; }
inline Case setup(Src& s) {
    Case d;
    d.k = oi::setup(s, 4, 6);
    d.method = s.pick<Method>({ENSI, EBE, EBESC, UTEM});
    d.nE = s.i(1, 5);
    int nY = d.k.nY(), nS = d.k.nS();
    double off = s.pick<double>({0, 280, -10}), amp = s.pick<double>({10, 3});
    auto field = [&](int n) { vec2 f(n, vec(d.nE)); for(auto& r : f) for(auto& v : r) v = (float) (off + s.real(-amp, amp)); return f; };
    d.bg = field(nY);
    d.bgc = field(nY);
    d.pbg = field(nS);
    d.pbgc = field(nS);
    if(s.b(0.5)) { d.bgc = d.bg; d.pbgc = d.pbg; }
    d.pobs = field(nS);
    for(int i = 0; i < nS; i++) {
        d.obs.push_back((float) (off + s.real(-amp, amp)));
        d.sigma.push_back((float) s.pick<double>({1, 0.3, 0.5, 3}));
    }
    for(int y = 0; y < nY; y++) d.bratio.push_back(s.b(0.5) ? 1 : (float) s.u(0.3, 2));
    // an ensemble without spread
    if(s.b(0.05)) for(auto& r : d.bgc) for(auto& v : r) v = r[0];
    if(s.b(0.05)) for(auto& r : d.pbgc) for(auto& v : r) v = r[0];
    // missing members / observations / background at observations
    if(s.b(0.3)) {
        int e = s.i(0, d.nE - 1);
        bool all = s.b();
        for(int y = 0; y < nY; y++) if(all || s.b(0.5)) d.bg[y][e] = MV;
    }
    if(s.b(0.1)) { int y = s.i(0, nY - 1); d.bgc[y][s.i(0, d.nE - 1)] = MV; }
    if(nS > 0 && s.b(0.2)) d.pbg[s.i(0, nS - 1)][s.i(0, d.nE - 1)] = MV;
    if(nS > 0 && s.b(0.05)) d.pbgc[s.i(0, nS - 1)][s.i(0, d.nE - 1)] = MV;
    if(nS > 0 && s.b(0.3)) { int i = s.i(0, nS - 1); d.obs[i] = MV; if(s.b(0.5)) for(auto& v : d.pobs[i]) v = MV; else d.pobs[i][s.i(0, d.nE - 1)] = MV; }
    return d;
}
inline std::string show(const Case& d) {
    std::string o = cat(name(d.method), "\n", oi::show(d.k), "\nbackground ", str(d.bg));
    if(has_corr(d.method)) o += cat("\nfor correlations ", str(d.bgc));
    o += has_pobs(d.method) ? cat("\nobservations ", str(d.pobs)) : cat("\nobservations ", str(d.obs));
    o += cat(" sigma/ratio ", str(d.sigma), "\nbackground there ", str(d.pbg));
    if(has_corr(d.method)) o += cat("\nfor correlations ", str(d.pbgc));
    if(multi(d.method)) o += cat("\nratios ", str(d.bratio));
    return o;
}
inline vec2 run(const Case& d) {
    Points bp = d.k.b.points(), op = d.k.o.points();
    const StructureFunction& st = *d.k.m->p;
    switch(d.method) {
        case ENSI: return optimal_interpolation_ensi(bp, d.bg, op, d.obs, d.sigma, d.pbg, st, d.k.max_points, d.k.extrapolate);
        case EBE: return optimal_interpolation_ensi_multi_ebe(bp, d.bratio, d.bg, d.bgc, op, d.pobs, d.sigma, d.pbg, d.pbgc, st, d.k.max_points, d.k.extrapolate);
        case EBESC: return optimal_interpolation_ensi_multi_ebesc(bp, d.bratio, d.bg, op, d.pobs, d.sigma, d.pbg, st, d.k.max_points, d.k.extrapolate);
        default: return optimal_interpolation_ensi_multi_utem(bp, d.bratio, d.bg, d.bgc, op, d.obs, d.sigma, d.pbg, d.pbgc, st, d.k.max_points, d.k.extrapolate);
    }
}
// The gridded version, flattened (requires k.is_grid)
inline vec2 run_grid(const Case& d) {
    int Y = d.k.bg.Y(), X = d.k.bg.X();
    auto cube = [&](const vec2& f) { vec3 o(Y, vec2(X)); for(int i = 0; i < Y * X; i++) o[i / X][i % X] = f[i]; return o; };
    vec2 br(Y, vec(X));
    for(int i = 0; i < Y * X; i++) br[i / X][i % X] = d.bratio[i];
    Grid g = d.k.bg.grid();
    Points op = d.k.o.points();
    const StructureFunction& st = *d.k.m->p;
    vec3 r;
    switch(d.method) {
        case ENSI: r = optimal_interpolation_ensi(g, cube(d.bg), op, d.obs, d.sigma, d.pbg, st, d.k.max_points, d.k.extrapolate); break;
        case EBE: r = optimal_interpolation_ensi_multi_ebe(g, br, cube(d.bg), cube(d.bgc), op, d.pobs, d.sigma, d.pbg, d.pbgc, st, d.k.max_points, d.k.extrapolate); break;
        case EBESC: r = optimal_interpolation_ensi_multi_ebesc(g, br, cube(d.bg), op, d.pobs, d.sigma, d.pbg, st, d.k.max_points, d.k.extrapolate); break;
        default: r = optimal_interpolation_ensi_multi_utem(g, br, cube(d.bg), cube(d.bgc), op, d.obs, d.sigma, d.pbg, d.pbgc, st, d.k.max_points, d.k.extrapolate);
    }
    vec2 o;
    for(auto& a : r) for(auto& b : a) o.push_back(b);
    return o;
}
struct Ref {
    std::vector<int> valid;                       // members that are used
    std::vector<std::vector<double>> a, free;     // analysis (location, used member), and without the limit
    std::vector<double> tol;
    std::vector<char> ok;
    std::vector<oi::Sel> sel;
    std::vector<std::vector<double>> lo, hi;      // innovations of the used observations (location, used member)
};
inline double mean(const std::vector<double>& v) { double t = 0; for(double x : v) t += x; return t / v.size(); }
inline double stdev(const std::vector<double>& v) { double m = mean(v), t = 0; for(double x : v) t += (x - m) * (x - m); return std::sqrt(t / v.size()); }
const double kMinStd = 0.0013;
inline std::vector<double> pick(const vec& row, const std::vector<int>& idx) { std::vector<double> o; for(int e : idx) o.push_back(row[e]); return o; }
// Standardised anomalies, or zeros without spread; err: relative uncertainty of single precision
inline std::vector<double> anomalies(const std::vector<double>& v, double& err, bool& sure) {
    double m = mean(v), sd = stdev(v);
    if(sd > 0 && std::fabs(sd - kMinStd) < 1e-3) sure = false;
    std::vector<double> o(v.size(), 0);
    if(sd <= kMinStd) return o;
    for(size_t i = 0; i < v.size(); i++) o[i] = (v[i] - m) / sd / std::sqrt(v.size() - 1.0);
    err = std::max(err, 4e-7 * (1 + std::fabs(m) / sd));
    return o;
}
inline Ref reference(const Case& d) {
    Ref r;
    Points bp = d.k.b.points(), op = d.k.o.points();
    int nY = d.k.nY(), nS = d.k.nS();
    for(int e = 0; e < d.nE; e++) {
        bool good = true;
        for(int y = 0; y < nY; y++) good = good && ref::ok(d.bg[y][e]) && (!has_corr(d.method) || ref::ok(d.bgc[y][e]));
        if(multi(d.method)) for(int i = 0; i < nS; i++) good = good && ref::ok(d.pbg[i][e]) && (!has_corr(d.method) || ref::ok(d.pbgc[i][e]));
        if(good) r.valid.push_back(e);
    }
    int K = r.valid.size();
    std::vector<char> usable(nS);
    for(int i = 0; i < nS; i++) {
        usable[i] = 1;
        if(has_pobs(d.method)) { for(int e : r.valid) usable[i] = usable[i] && ref::ok(d.pobs[i][e]); }
        else usable[i] = ref::ok(d.obs[i]);
        if(d.method == ENSI) for(int e : r.valid) usable[i] = usable[i] && ref::ok(d.pbg[i][e]);
    }
    for(int y = 0; y < nY; y++) {
        std::vector<double> x0 = pick(d.bg[y], r.valid), a = x0, fr = x0, lo(K, 1e99), hi(K, -1e99);
        oi::Sel sel = oi::select(d.k, bp, op, y, usable);
        int n = sel.idx.size();
        char ok = sel.sure;
        double tol = 0, mag = 0, err = 4e-7;
        for(double v : x0) mag = std::max(mag, std::fabs(v));
        if(n > 0 && K > 0) {
            la::M innov = la::zeros(n, K);
            double imax = 0;
            for(int i = 0; i < n; i++) for(int e = 0; e < K; e++) {
                int q = sel.idx[i];
                double o = has_pobs(d.method) ? d.pobs[q][r.valid[e]] : d.obs[q];
                innov[i][e] = o - (double) d.pbg[q][r.valid[e]];
                lo[e] = std::min(lo[e], (double) innov[i][e]);
                hi[e] = std::max(hi[e], (double) innov[i][e]);
                imax = std::max(imax, std::fabs((double) innov[i][e]));
                mag = std::max(mag, std::max(std::fabs(o), std::fabs((double) d.pbg[q][r.valid[e]])));
            }
            bool sure = true;
            std::vector<double> out(K);
            if(d.method == EBE || d.method == EBESC) {
                la::M loc = la::zeros(n, n), inv;
                std::vector<double> ratio(nS), g = sel.rho;
                for(int i = 0; i < nS; i++) ratio[i] = d.sigma[i];
                la::M* extra = nullptr;
                if(d.method == EBE) {
                    std::vector<double> X = anomalies(pick(d.bgc[y], r.valid), err, sure);
                    std::vector<std::vector<double>> Z;
                    for(int i = 0; i < n; i++) Z.push_back(anomalies(pick(d.pbgc[sel.idx[i]], r.valid), err, sure));
                    for(int i = 0; i < n; i++) {
                        double t = 0;
                        for(int e = 0; e < K; e++) t += X[e] * Z[i][e];
                        g[i] *= t;
                        for(int j = 0; j < n; j++) for(int e = 0; e < K; e++) loc[i][j] += Z[i][e] * Z[j][e];
                    }
                    extra = &loc;
                }
                la::R cond;
                if(!la::inverse(oi::PR(d.k, op, sel, ratio, extra), inv, cond) || cond > 1e4) sure = false;
                else {
                    double gs = 0, gsum = 0;
                    std::vector<double> K1(n);
                    for(double v : g) gsum += std::fabs(v);
                    for(int i = 0; i < n; i++) { la::R t = 0; for(int j = 0; j < n; j++) t += g[j] * inv[j][i]; K1[i] = t; gs += std::fabs(K1[i]); }
                    for(int e = 0; e < K; e++) {
                        double t = 0;
                        for(int i = 0; i < n; i++) t += K1[i] * (double) innov[i][e];
                        out[e] = x0[e] + d.bratio[y] * t;
                    }
                    tol = err * (double) cond * (gs + gsum + 1e-3) * imax * d.bratio[y];
                }
            }
            else {
                // ensemble transform
                la::M Y = la::zeros(n, K), C = la::zeros(K, n), Pinv = la::zeros(K, K), P;
                std::vector<double> dbar(n);
                for(int i = 0; i < n; i++) {
                    int q = sel.idx[i];
                    std::vector<double> pb = pick(d.pbg[q], r.valid);
                    double m = mean(pb);
                    std::vector<double> a1 = d.method == UTEM ? anomalies(pick(d.pbgc[q], r.valid), err, sure) : pb;
                    double rinv = d.method == UTEM ? sel.rho[i] / d.sigma[q] : sel.rho[i] / (double(d.sigma[q]) * d.sigma[q]);
                    for(int e = 0; e < K; e++) {
                        Y[i][e] = d.method == UTEM ? a1[e] : pb[e] - m;
                        C[e][i] = Y[i][e] * rinv;
                    }
                    dbar[i] = d.obs[q] - m;
                    err = std::max(err, 4e-7 * (1 + std::fabs(m) / 3));
                }
                Pinv = la::mul(C, Y);
                double diag = d.method == UTEM ? 1 : K - 1;
                for(int e = 0; e < K; e++) Pinv[e][e] += diag;
                la::R cond = INFINITY;
                bool singular = d.method == ENSI && K == 1;
                if(singular) out = x0;
                else if(!la::inverse(Pinv, P, cond) || cond > 1e5) sure = false;
                else {
                    la::M PK = P;
                    for(auto& row : PK) for(auto& v : row) v *= K - 1;
                    la::M W = la::sqrt_sym(PK);
                    la::M PC = la::mul(P, C);
                    std::vector<double> w(K, 0), X(K);
                    double wm = 0;
                    for(int e = 0; e < K; e++) { for(int i = 0; i < n; i++) w[e] += (double) PC[e][i] * dbar[i]; wm = std::max(wm, std::fabs(w[e])); }
                    double m = mean(x0), sd = stdev(x0), xm = 0;
                    if(d.method == UTEM) X = anomalies(pick(d.bgc[y], r.valid), err, sure);
                    else for(int e = 0; e < K; e++) X[e] = x0[e] - m;
                    for(int e = 0; e < K; e++) xm += std::fabs(X[e]);
                    for(int e = 0; e < K; e++) {
                        double t = 0;
                        for(int q = 0; q < K; q++) t += X[q] * (d.method == UTEM ? sd * (double) W[q][e] + d.bratio[y] * w[q] : (double) W[q][e] + w[q]);
                        out[e] = m + t;
                    }
                    tol = err * (10 + 3 * std::sqrt((double) cond)) * (d.method == UTEM ? (sd * 2 + d.bratio[y] * wm) * (1 + xm) : (1 + wm) * (1 + xm)) + err * xm;
                }
            }
            if(sure) {
                fr = out;
                for(int e = 0; e < K; e++) a[e] = d.k.extrapolate ? out[e] : x0[e] + oi::clip(out[e] - x0[e], lo[e], hi[e]);
            }
            else ok = 0;
        }
        r.a.push_back(a);
        r.free.push_back(fr);
        r.tol.push_back(tol + 3e-6 * mag + 1e-6);
        r.ok.push_back(ok);
        r.sel.push_back(sel);
        r.lo.push_back(lo);
        r.hi.push_back(hi);
    }
    return r;
}
}
