// P22: local gradients, neighbourhood searches, smart neighbours, local distribution correction
#include "structures.h"

namespace {
const double EPS = 6e-8;
vec2 field(Src& s, int Y, int X, double pm) {
    int kind = s.draw(4);
    double scale = s.pick<double>({1, 100, 0.01}), off = s.pick<double>({0, 0, 1000, -300});
    vec2 v(Y, vec(X));
    for(vec& r : v) for(float& x : r)
        x = s.b(pm) ? (float) NAN : (float) (off + scale * (kind == 0 ? s.i(0, 3) : s.real(-5, 5)));
    return v;
}
}

PROP(P22, gradient, 60000, 1500000) {
    int Y = s.i(1, 7), X = s.i(1, 7), hw = s.i(1, 4);
    double pm = gen::pmiss(s);
    vec2 base = field(s, Y, X, pm), values = field(s, Y, X, s.b() ? 0 : pm);
    float slope = NAN;
    if(s.b(0.3)) {
        // exactly linear (within rounding)
        slope = s.f(-2, 2);
        float off = s.f(-5, 5);
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) values[y][x] = (float) (double(base[y][x]) * slope + off);
    }
    GradientType type = s.b() ? LinearRegression : MinMax;
    int num = s.i(0, 6);
    float minrange = s.b(0.3) ? (float) NAN : s.b(0.3) ? 0.0f : (float) std::fabs(s.f(0, 5));
    float def = s.pick<float>({0, -11, NAN, 0.5f});
    LOG(c, type == MinMax ? "MinMax" : "LinearRegression", " halfwidth ", hw, " min_num ", num, " min_range ", minrange, " default ", def, "\nbase ", base, "\nvalues ", values);
    vec2 out = gridpp::calc_gradient(base, values, type, hw, num, minrange, def);
    REQUIRE(c, (int) out.size() == Y, "rows");
    for(int y = 0; y < Y; y++) {
        REQUIRE(c, (int) out[y].size() == X, "columns");
        for(int x = 0; x < X; x++) {
            std::vector<std::pair<double, double> > p;
            double scale = 0, vscale = 0;
            for(int yy = std::max(0, y - hw); yy <= std::min(Y - 1, y + hw); yy++)
                for(int xx = std::max(0, x - hw); xx <= std::min(X - 1, x + hw); xx++)
                    if(ref::ok(base[yy][xx]) && ref::ok(values[yy][xx])) {
                        p.push_back({base[yy][xx], values[yy][xx]});
                        scale = std::max(scale, std::fabs((double) base[yy][xx]));
                        vscale = std::max(vscale, std::fabs((double) values[yy][xx]));
                    }
            int n = p.size();
            float g = out[y][x];
            auto at = cat(" at ", y, ",", x);
            bool ok = n > 0 && n >= num;
            double lo = 1e99, hi = -1e99, mx = 0, my = 0, sxx = 0, sxy = 0;
            for(auto& q : p) { lo = std::min(lo, q.first); hi = std::max(hi, q.first); mx += q.first / n; my += q.second / n; }
            for(auto& q : p) { sxx += (q.first - mx) * (q.first - mx); sxy += (q.first - mx) * (q.second - my); }
            if(!(hi > lo)) ok = false;
            if(!ok) {
                REQUIRE(c, pbt::same(g, def), "gradient ", g, at, " with ", n, " valid pairs and no range or too few pairs; the default is ", def);
                continue;
            }
            double range = type == MinMax ? hi - lo : std::sqrt(sxx / n);
            if(ref::ok(minrange) && std::fabs(range - minrange) <= 4 * EPS * scale + 1e-30) {
                if(type == MinMax && range == minrange) {}   // may go either way
                c.label("range-limit");
                continue;
            }
            if(ref::ok(minrange) && range < minrange) {
                REQUIRE(c, pbt::same(g, def), "gradient ", g, at, " but the range ", range, " is too small; the default is ", def);
                c.label("range");
                continue;
            }
            if(n > 2) c.nontrivial();
            double tol = 1e-6 + 1e-5 * (vscale + 1e-30) / range;
            if(type == LinearRegression) {
                double want = sxy / sxx;
                REQUIRE(c, std::fabs(g - want) <= tol + 1e-5 * std::fabs(want), "regression slope ", g, at, " but it should be ", want);
                c.label("slope");
            }
            else {
                bool found = false;
                for(auto& a : p) for(auto& b : p)
                    if(a.first == hi && b.first == lo) {
                        double want = (a.second - b.second) / (hi - lo);
                        found |= std::fabs(g - want) <= tol + 1e-5 * std::fabs(want);
                    }
                REQUIRE(c, found, "gradient ", g, at, " is not the difference between the cells with the largest (", hi, ") and the smallest (", lo, ") base");
                c.label("minmax");
            }
            if(ref::ok(slope)) REQUIRE(c, std::fabs(g - slope) <= tol + 1e-5 * std::fabs(slope), "values are linear in the base with slope ", slope, " but the gradient is ", g, at);
        }
    }
}

PROP(P22, gradient_refused, 20000, 100000) {
    int Y = s.i(1, 4), X = s.i(1, 4);
    vec2 b = field(s, Y, X, 0), v = field(s, Y, X, 0);
    GradientType type = s.b() ? LinearRegression : MinMax;
    int hw = 1, num = 1;
    float mr = 0;
    int kind = s.draw(5);
    if(kind == 0) hw = s.i(-5, 0);
    if(kind == 1) num = -s.i(1, 5);
    if(kind == 2) mr = -s.f(0.001, 5);
    if(kind == 3) { int r = s.i(0, Y - 1); if(s.b()) v[r].push_back(1); else v[r].pop_back(); }
    if(kind == 4) v.push_back(v[0]);
    c.nontrivial();
    bool refused = false;
    try { gridpp::calc_gradient(b, v, type, hw, num, mr, 0); }
    catch(const std::invalid_argument&) { refused = true; }
    REQUIRE(c, refused, "invalid argument of kind ", kind, " is accepted");
}

PROP(P22, search, 80000, 2000000) {
    int Y = s.i(1, 7), X = s.i(1, 7), hw = s.i(0, 3);
    double pm = gen::pmiss(s), ps = s.b() ? 0 : pm;
    vec2 a = field(s, Y, X, pm), q(Y, vec(X));
    bool lattice = s.b();
    for(vec& r : q) for(float& x : r) x = s.b(ps) ? (float) NAN : lattice ? s.i(0, 8) / 8.0f : s.f(0, 1);
    float lo = lattice ? s.i(0, 8) / 8.0f : s.f(0, 1), hi = lattice ? s.i(0, 8) / 8.0f : s.f(0, 1);
    if(lo > hi) std::swap(lo, hi);
    if(s.b(0.4)) lo = hi;
    float delta = s.b(0.3) ? 0 : lattice ? s.i(0, 8) / 8.0f : s.f(0, 1);
    ivec2 mask;
    bool masked = s.b();
    if(masked) { mask = ivec2(Y, ivec(X)); for(auto& r : mask) for(int& x : r) x = s.b(); }
    LOG(c, "halfwidth ", hw, " range [", lo, ",", hi, "] delta ", delta, "\narray ", a, "\nsearch ", q, "\nmask ", mask);
    vec2 out = gridpp::neighbourhood_search(a, q, hw, lo, hi, delta, mask);
    REQUIRE(c, (int) out.size() == Y, "rows");
    for(int y = 0; y < Y; y++) {
        REQUIRE(c, (int) out[y].size() == X, "columns");
        for(int x = 0; x < X; x++) {
            auto at = cat(" at ", y, ",", x);
            float g = out[y][x];
            if((masked && !mask[y][x]) || !ref::ok(q[y][x])) {
                REQUIRE(c, pbt::same(g, a[y][x]), "value is changed from ", a[y][x], " to ", g, at, masked && !mask[y][x] ? " outside the mask" : " without a search value");
                continue;
            }
            double sum = 0, big = 0;
            int n = 0;
            std::vector<std::pair<double, float> > other;    // distance to the range
            bool unsure = false;
            for(int yy = std::max(0, y - hw); yy <= std::min(Y - 1, y + hw); yy++)
                for(int xx = std::max(0, x - hw); xx <= std::min(X - 1, x + hw); xx++) {
                    if(!ref::ok(q[yy][xx]) || !ref::ok(a[yy][xx])) continue;
                    if(q[yy][xx] >= lo && q[yy][xx] <= hi) { sum += a[yy][xx]; big = std::max(big, std::fabs((double) a[yy][xx])); n++; }
                    else {
                        double d = std::fabs((double) q[yy][xx] - q[y][x]);
                        if(d != 0 && d != delta && std::fabs(d - delta) <= 2 * EPS) { unsure = true; continue; }
                        if(d < delta) continue;
                        other.push_back({q[yy][xx] < lo ? (double) lo - q[yy][xx] : (double) q[yy][xx] - hi, a[yy][xx]});
                    }
                }
            if(n > 0) {
                REQUIRE(c, std::fabs(g - sum / n) <= n * EPS * big + 1e-30, "value ", g, at, " but the mean of the ", n, " values in the range is ", sum / n);
                c.label("mean");
                if(n > 1) c.nontrivial();
            }
            else if(unsure) continue;
            else if(!other.empty()) {
                double best = 1e99;
                for(auto& o : other) best = std::min(best, o.first);
                bool found = false;
                for(auto& o : other) found |= o.first <= best + 2 * EPS && o.second == g;
                REQUIRE(c, found, "value ", g, at, " is not that of a cell with a search value closest to the range");
                c.label("closest");
                if(other.size() > 1) c.nontrivial();
            }
            else {
                REQUIRE(c, pbt::same(g, a[y][x]), "value is changed from ", a[y][x], " to ", g, at, " although no cell qualifies");
                c.label("kept");
            }
        }
    }
}

PROP(P22, smart, 40000, 600000) {
    gen::Region r = gen::region(s);
    gen::GeoGrid ig = gen::grid(s, r, 1, 6), og = gen::grid(s, r, 1, 4);
    sf::Opt o;
    o.size = sf::region_size(r) * s.pick<double>({0.3, 1, 0.1});
    o.linear = false;
    sf::MP m = sf::structure(s, r, o);
    vec2 v = field(s, ig.Y(), ig.X(), s.b(0.8) ? 0 : 0.1);
    int num = s.i(1, 6);
    LOG(c, "input grid ", gen::show(ig), "\noutput grid ", gen::show(og), "\nvalues ", v, "\nstructure ", m->show(), "\nnum ", num);
    Grid I = ig.grid(), O = og.grid();
    vec2 out = gridpp::smart(I, O, v, num, *m->p);
    gen::Geo f = ig.flat();
    REQUIRE(c, (int) out.size() == og.Y(), "rows");
    for(int y = 0; y < og.Y(); y++) {
        REQUIRE(c, (int) out[y].size() == og.X(), "columns");
        for(int x = 0; x < og.X(); x++) {
            Point p = O.get_point(y, x);
            bool sure = true;
            double L = m->loc(p, sure), scale = 1;
            std::vector<std::pair<double, double> > cand;
            for(int k = 0; k < f.n(); k++) {
                double d = ref::chord(f.lats[k], f.lons[k], og.lats[y][x], og.lons[y][x], ig.type);
                scale = std::max(scale, std::max((double) std::fabs(f.lats[k]), (double) std::fabs(f.lons[k])));
                if(std::fabs(d - L) <= 2 * ref::tol(ig.type, scale) + 2e-4 * L) sure = false;
                if(d > L) continue;
                double rho = m->corr(p, I.get_point(k / ig.X(), k % ig.X()), sure);
                cand.push_back({rho, v[k / ig.X()][k % ig.X()]});
            }
            if(!sure) { c.label("unsure"); continue; }
            std::sort(cand.begin(), cand.end(), [](auto& a, auto& b) { return a.first > b.first; });
            auto at = cat(" at ", y, ",", x);
            float g = out[y][x];
            if(cand.empty()) {
                REQUIRE(c, std::isnan(g), "value ", g, at, " although no input cell is within the localization distance");
                c.label("empty");
                continue;
            }
            int n = std::min(num, (int) cand.size());
            if(n < (int) cand.size() && cand[n - 1].first - cand[n].first <= 1e-5) { c.label("tie"); continue; }
            double sum = 0, big = 0;
            for(int k = 0; k < n; k++) { sum += cand[k].second; big = std::max(big, std::fabs(cand[k].second)); }
            c.label("mean");
            if(n > 1 && n < (int) cand.size()) c.nontrivial();
            REQUIRE(c, std::isnan(sum) ? std::isnan(g) : std::fabs(g - sum / n) <= 2 * n * EPS * big + 1e-30, "value ", g, at, " but the mean over the ", n, " most similar cells is ", sum / n);
        }
    }
}

namespace {
// Table look-up with distinct, increasing X
double table(double x, const std::vector<double>& X, const std::vector<double>& Y) {
    int n = X.size();
    if(x <= X[0]) return Y[0];
    if(x >= X[n - 1]) return Y[n - 1];
    int i = 0;
    while(X[i + 1] < x) i++;
    return Y[i] + (Y[i + 1] - Y[i]) * (x - X[i]) / (X[i + 1] - X[i]);
}
}
PROP(P22, distribution, 40000, 600000) {
    gen::Region r = gen::region(s);
    gen::GeoGrid g = gen::grid(s, r, 1, 4);
    gen::Geo p = gen::geo(s, r, 0, 8);
    sf::Opt o;
    o.size = sf::region_size(r) * s.pick<double>({0.5, 2, 0.2});
    o.linear = false;
    sf::MP m = sf::structure(s, r, o);
    int T = s.i(1, 3), n = p.n();
    double pm = gen::pmiss(s);
    bool dry = s.b(0.2), same = s.b(0.2);
    auto series = [&](bool zero) {
        vec2 v(T, vec(n));
        for(vec& q : v) for(float& x : q) x = s.b(pm) ? (float) NAN : s.b(0.05) ? (float) -s.u(0, 2) : zero ? 0.0f : s.b(0.1) ? 0.0f : (float) s.u(0, 10);
        return v;
    };
    vec2 obs = series(dry), bg_p = same ? obs : series(s.b(0.1));
    vec2 bg(g.Y(), vec(g.X()));
    for(vec& q : bg) for(float& x : q) x = s.b(0.1) ? (float) NAN : s.b(0.2) ? (float) s.u(0, 0.2) : s.b(0.1) ? 0.0f : (float) s.u(0, 12);
    float q0 = s.b(0.5) ? 0 : (float) s.u(0, 0.5), q1 = s.b(0.5) ? 1 : (float) s.u(0.5, 1);
    int minp = s.i(0, 5);
    LOG(c, "grid ", gen::show(g), "\nbackground ", bg, "\npoints ", gen::show(p), "\nobs ", obs, "\nbackground at points ", bg_p, "\nstructure ", m->show(), "\nquantiles ", q0, " ", q1, " min_points ", minp);
    Grid G = g.grid();
    Points P = p.points();
    bool single = T == 1 && s.b();
    vec2 out;
    if(n == 0 && p.type != Geodetic) { c.label("no-points"); return; }   // an empty set of points is geodetic
    out = single ? gridpp::local_distribution_correction(G, bg, P, obs[0], bg_p[0], *m->p, q0, q1, minp)
                 : gridpp::local_distribution_correction(G, bg, P, obs, bg_p, *m->p, q0, q1, minp);
    REQUIRE(c, (int) out.size() == g.Y(), "rows");
    for(int y = 0; y < g.Y(); y++) {
        REQUIRE(c, (int) out[y].size() == g.X(), "columns");
        for(int x = 0; x < g.X(); x++) {
            auto at = cat(" at ", y, ",", x);
            float v = out[y][x], b = bg[y][x];
            if(!ref::ok(b)) { REQUIRE(c, std::isnan(v), "missing background becomes ", v, at); continue; }
            Point q = G.get_point(y, x);
            bool sure = true;
            double L = m->loc(q, sure), scale = 1, sum = 0;
            std::vector<std::pair<double, double> > R, F;
            for(int k = 0; k < n; k++) {
                double d = ref::chord(p.lats[k], p.lons[k], g.lats[y][x], g.lons[y][x], g.type);
                scale = std::max(scale, std::max((double) std::fabs(p.lats[k]), (double) std::fabs(p.lons[k])));
                if(std::fabs(d - L) <= 2 * ref::tol(g.type, scale) + 2e-4 * L) sure = false;
                if(d > L) continue;
                double rho = m->corr_background(q, P.get_point(k), sure);
                for(int t = 0; t < T; t++) {
                    if(!ref::ok(obs[t][k]) || !ref::ok(bg_p[t][k]) || obs[t][k] < 0 || bg_p[t][k] < 0) continue;
                    R.push_back({obs[t][k], rho});
                    F.push_back({bg_p[t][k], rho});
                    sum += rho;
                }
            }
            if(!sure) { c.label("unsure"); continue; }
            int count = R.size();
            if(count == 0 || count < minp) {
                REQUIRE(c, v == b, "value is changed from ", b, " to ", v, at, " with ", count, " observations");
                c.label("few");
                continue;
            }
            // values that remain within what is available, and ties
            auto cmp = [](const std::pair<double, double>& a, const std::pair<double, double>& b) { return a.first < b.first; };
            std::stable_sort(R.begin(), R.end(), cmp);
            std::stable_sort(F.begin(), F.end(), cmp);
            int d0 = (int) (count * q0), d1 = (int) (count * q1);
            if(d1 <= d0) { REQUIRE(c, v == b, "value is changed from ", b, " to ", v, at, " although all values are removed"); c.label("few"); continue; }
            int tiny = 0;
            for(auto& e : R) tiny += e.second < 1e-6;
            if(tiny > 0 && sum > 1e-60) { c.label("tiny-weights"); continue; }      // which ones remain depends on the order of equal values
            std::vector<double> X{0}, XQ{0}, Z{0}, ZQ{0};
            bool distinct = true, weights = true;
            for(int k = d0; k < d1; k++) {
                distinct = distinct && F[k].first > X.back() && R[k].first > Z.back();
                weights = weights && F[k].second > 1e-3 && R[k].second > 1e-3;
                X.push_back(F[k].first); XQ.push_back(XQ.back() + F[k].second);
                Z.push_back(R[k].first); ZQ.push_back(ZQ.back() + R[k].second);
            }
            if(F.size() && d0 > 0) distinct = distinct && F[d0 - 1].first < F[d0].first && R[d0 - 1].first < R[d0].first;
            if(d1 < count) distinct = distinct && F[d1 - 1].first < F[d1].first && R[d1 - 1].first < R[d1].first;
            if(XQ.back() <= 1e-25 || ZQ.back() <= 1e-25) {
                if(XQ.back() < 1e-60 && ZQ.back() < 1e-60) REQUIRE(c, v == b, "value is changed from ", b, " to ", v, at, " although no observation has any weight");
                c.label("weightless");
                continue;
            }
            double fx = X.back(), fz = Z.back();
            if(b < 0.01f) { REQUIRE(c, v == 0, "value ", v, at, " is created out of a dry background"); c.label("dry"); continue; }
            if(fz <= 0) {
                if(std::fabs(b - 3 * fx) < 1e-5 * b) continue;
                if(b < 3 * fx || b < 0.1f) REQUIRE(c, v == 0, "value ", v, at, " although none of the observations has any");
                else REQUIRE(c, v == b, "large value ", b, at, " is changed to ", v, " although the observations are dry");
                c.label("dry-obs");
                continue;
            }
            if(b >= X.back()) {
                REQUIRE(c, std::fabs(v - (b + fz - fx)) <= 1e-5 * (b + fz + fx), "value ", v, at, " above the curve should keep the bias ", fz - fx);
                c.label("above");
                continue;
            }
            c.nontrivial(d1 - d0 > 1);
            // within the curve: between the background and the range of the observations
            double w = 1 - std::exp(-0.01 * sum);
            REQUIRE(c, v >= (1 - w) * b - 1e-4 && v <= (1 - w) * b + w * fz + 1e-4, "value ", v, at, " is not within the range of the observations (0 to ", fz, ") with weight ", w, " and background ", b);
            if(!distinct || !weights) { c.label("repeated"); continue; }
            for(size_t k = 1; k < X.size(); k++) {
                XQ[k] = q0 + XQ[k] / XQ.back() * (q1 - q0);
                if(k + 1 == X.size()) XQ[k] = q1;
            }
            double zs = ZQ.back();
            for(size_t k = 1; k < Z.size(); k++) ZQ[k] = q0 + ZQ[k] / zs * (q1 - q0);
            // normalise with the total (the last element must not be changed before it is used)
            double xs = 0;
            for(int k = d0; k < d1; k++) xs += F[k].second;
            double run = 0;
            for(int k = d0; k < d1; k++) { run += F[k].second; XQ[k - d0 + 1] = q0 + run / xs * (q1 - q0); }
            double qq = table(b, X, XQ), z = table(qq, ZQ, Z);
            // how much the result can change with the rounding of the quantile
            double e = 3e-6 * (1 + count), zlo = table(qq - e, ZQ, Z), zhi = table(qq + e, ZQ, Z);
            double lo = w * zlo + (1 - w) * b - 1e-4, hi = w * zhi + (1 - w) * b + 1e-4;
            REQUIRE(c, v >= lo && v <= hi, "value ", v, at, " should be ", w * z + (1 - w) * b, ": background ", b, " has quantile ", qq, ", observed value ", z, ", weight ", w);
            c.label("mapped");
        }
    }
}
