// P12: filling and doping
#include "gen.h"

namespace {
struct Setup { gen::GeoGrid ig; gen::Geo pts; vec2 f; double tol; };
Setup setup(Src& s) {
    Setup k;
    gen::Region r = gen::region(s);
    k.ig = gen::grid(s, r, 1, 6, true);
    k.pts = gen::geo(s, r, 0, 5, true);
    k.f = gen::values2(s, k.ig.Y(), k.ig.X(), -20, 20, gen::pmiss(s));
    double scale = 0;
    for(auto& a : k.ig.lats) for(float x : a) scale = std::max(scale, (double) std::fabs(x));
    for(auto& a : k.ig.lons) for(float x : a) scale = std::max(scale, (double) std::fabs(x));
    for(float x : k.pts.lats) scale = std::max(scale, (double) std::fabs(x));
    for(float x : k.pts.lons) scale = std::max(scale, (double) std::fabs(x));
    k.tol = ref::tol(k.ig.type, scale);
    // some points exactly on nodes
    for(int i = 0; i < k.pts.n(); i++) if(s.b(0.2)) { int y = s.i(0, k.ig.Y() - 1), x = s.i(0, k.ig.X() - 1); k.pts.lats[i] = k.ig.lats[y][x]; k.pts.lons[i] = k.ig.lons[y][x]; }
    return k;
}
double dist(const Setup& k, int i, int y, int x) { return ref::chord(k.pts.lats[i], k.pts.lons[i], k.ig.lats[y][x], k.ig.lons[y][x], k.ig.type); }
vec radii(Src& s, const Setup& k) {
    vec r;
    double dmax = 0;
    for(int i = 0; i < k.pts.n(); i++) for(int y = 0; y < k.ig.Y(); y++) for(int x = 0; x < k.ig.X(); x++) dmax = std::max(dmax, dist(k, i, y, x));
    for(int i = 0; i < k.pts.n(); i++) {
        float v = (float) (dmax * s.pick<double>({0.05, 0.2, 0.5, 1.1}) * s.u(0, 1));
        if(s.b(0.1)) v = 0;
        r.push_back(v);
    }
    return r;
}
// 1 inside, 0 outside, -1 either
int within(const Setup& k, int i, int y, int x, float radius) {
    double d = dist(k, i, y, x);
    if(d > radius + k.tol) return 0;
    if(d >= radius - k.tol) return -1;
    return 1;
}
int elev_ok(const Setup& k, int i, int y, int x, float limit) {
    if(!ref::ok(limit)) return 1;
    double a = k.pts.elevs.empty() ? NAN : k.pts.elevs[i], b = k.ig.elevs.empty() ? NAN : k.ig.elevs[y][x];
    if(!ref::ok(a) || !ref::ok(b)) return 1;      // unknown elevations are not excluded
    double d = std::fabs(a - b);
    if(std::fabs(d - limit) <= 1e-4 * (1 + d)) return -1;
    return d < limit;
}
}
PROP(P12, fill, 300000, 6000000) {
    Setup k = setup(s);
    vec r = radii(s, k);
    bool outside = s.b();
    float value = s.b(0.1) ? MV : s.f(-100, 100);
    LOG(c, outside ? "outside" : "inside", " value ", value, " radii ", str(r), "\ngrid ", gen::show(k.ig), "\npoints ", gen::show(k.pts), "\nfield ", str(k.f));
    vec2 o = gridpp::fill(k.ig.grid(), k.f, k.pts.points(), r, value, outside);
    REQUIRE(c, (int) o.size() == k.ig.Y(), "rows");
    int filled = 0, kept = 0;
    for(int y = 0; y < k.ig.Y(); y++) {
        REQUIRE(c, (int) o[y].size() == k.ig.X(), "columns");
        for(int x = 0; x < k.ig.X(); x++) {
            bool in = false, maybe = false;
            for(int i = 0; i < k.pts.n(); i++) { int w = within(k, i, y, x, r[i]); if(w == 1) in = true; if(w == -1) maybe = true; }
            bool asfill = pbt::same(o[y][x], value), asold = pbt::same(o[y][x], k.f[y][x]);
            if(!in && maybe) { REQUIRE(c, asfill || asold, "cell ", y, ",", x, " is ", o[y][x]); continue; }
            bool fill = in != outside;
            REQUIRE(c, fill ? asfill : asold, "cell ", y, ",", x, " is ", o[y][x], " but it is ", in ? "inside" : "outside", " and was ", k.f[y][x]);
            if(fill) filled++; else kept++;
        }
    }
    c.nontrivial(filled > 0 && kept > 0);
    c.label(outside ? "outside" : "inside");
}
PROP(P12, doping, 300000, 6000000) {
    Setup k = setup(s);
    bool square = s.b();
    int n = k.pts.n();
    vec obs = gen::values(s, n, -100, 100, s.b(0.2) ? 0.2 : 0);
    float limit = s.b(0.4) ? MV : s.f(0, 600);
    ivec hw;
    vec r = radii(s, k);
    for(int i = 0; i < n; i++) hw.push_back(s.b(0.05) ? 1000 : s.i(0, 3));
    LOG(c, square ? "square " : "circle ", square ? str(hw) : str(r), " observations ", str(obs), " elevation limit ", limit, "\ngrid ", gen::show(k.ig), "\npoints ", gen::show(k.pts), "\nfield ", str(k.f));
    vec2 o = square ? gridpp::doping_square(k.ig.grid(), k.f, k.pts.points(), obs, hw, limit) : gridpp::doping_circle(k.ig.grid(), k.f, k.pts.points(), obs, r, limit);
    REQUIRE(c, (int) o.size() == k.ig.Y(), "rows");
    int doped = 0, kept = 0;
    int Y = k.ig.Y(), X = k.ig.X();
    // Nearest node(s) of each point
    std::vector<std::vector<std::pair<int, int>>> near(n);
    for(int i = 0; i < n; i++) {
        double best = 1e99;
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) best = std::min(best, dist(k, i, y, x));
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) if(dist(k, i, y, x) <= best + 2 * k.tol) near[i].push_back({y, x});
    }
    for(int y = 0; y < Y; y++) {
        REQUIRE(c, (int) o[y].size() == X, "columns");
        for(int x = 0; x < X; x++) {
            // acceptable values: the last point that covers the cell wins
            std::vector<float> acc = {k.f[y][x]};
            bool sure = false;
            for(int i = 0; i < n; i++) {
                int w;
                if(square) {
                    size_t hits = 0;
                    for(auto& p : near[i]) hits += std::abs(p.first - y) <= hw[i] && std::abs(p.second - x) <= hw[i];
                    w = hits == 0 ? 0 : (hits == near[i].size() ? 1 : -1);
                }
                else w = within(k, i, y, x, r[i]);
                int e = elev_ok(k, i, y, x, limit);
                if(w == 0 || e == 0) continue;
                if(w == 1 && e == 1) { acc.clear(); sure = true; }
                acc.push_back(obs[i]);
            }
            bool in = false;
            for(float v : acc) in |= pbt::same(v, o[y][x]);
            REQUIRE(c, in, "cell ", y, ",", x, " is ", o[y][x], " expected one of ", str(acc));
            if(sure) doped++; else kept++;
        }
    }
    c.nontrivial(doped > 0 && kept > 0);
    c.label(square ? "square" : "circle");
    if(ref::ok(limit)) c.label("elevation-limit");
}
PROP(P12, fill_missing, 300000, 6000000) {
    int Y = s.i(1, 8), X = s.i(1, 8);
    vec2 f = gen::values2(s, Y, X, -20, 20, s.pick<double>({0.3, 0.1, 0.6, 0.9, 1.0}));
    LOG(c, "field ", str(f));
    vec2 o = gridpp::fill_missing(f);
    REQUIRE(c, (int) o.size() == Y, "rows");
    int filled = 0;
    auto interp = [](const std::vector<float>& line, int p, double& out) {
        int a = p, b = p, n = line.size();
        while(a >= 0 && !ref::ok(line[a])) a--;
        while(b < n && !ref::ok(line[b])) b++;
        if(a < 0 || b >= n) return false;
        out = line[a] + (double(line[b]) - line[a]) * (p - a) / (b - a);
        return true;
    };
    for(int y = 0; y < Y; y++) {
        REQUIRE(c, (int) o[y].size() == X, "columns");
        for(int x = 0; x < X; x++) {
            if(ref::ok(f[y][x])) { REQUIRE(c, o[y][x] == f[y][x], "valid cell ", y, ",", x, " is changed to ", o[y][x]); continue; }
            std::vector<float> row = f[y], col;
            for(int k = 0; k < Y; k++) col.push_back(f[k][x]);
            double a, b, want = NAN;
            bool ha = interp(row, x, a), hb = interp(col, y, b);
            if(ha && hb) want = (a + b) / 2; else if(ha) want = a; else if(hb) want = b;
            REQUIRE(c, feq(o[y][x], want, 1e-5, 1e-6), "cell ", y, ",", x, " is ", o[y][x], " expected ", want);
            if(ha || hb) filled++;
        }
    }
    c.nontrivial(filled > 0);
}
