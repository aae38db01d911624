// C04: the command-line program's downscalers
#include "cfile.h"
#include "Downscaler/Downscaler.h"
#include "KDTree.h"
#include <memory>

namespace {
typedef std::vector<std::pair<int, int> > Cells;
struct Case {
    cg::Geometry in, out;
    int T, E;
    std::vector<vec3c> v;
    std::vector<double> times;
    std::unique_ptr<cg::Mem> fi, fo;
    Variable iv, ov;
    std::vector<Cells> cand;      // per output cell
    const Cells& near(int y, int x) const { return cand[y * out.X() + x]; }
};
Options opt(const std::string& t) { return t.empty() ? Options() : Options(t); }
void build(Src& s, Case& k, const cg::Region& r, bool rectilinear = false, double outside = 1, double pmeta = 0.3, int n = 6) {
    k.in = cg::geometry(s, r, n, rectilinear, 1, true, pmeta);
    bool same_grid = s.b(0.07);
    k.out = same_grid ? k.in : cg::geometry(s, r, 4, false, outside, true, pmeta);
    if(!same_grid && s.b(0.1)) k.out.lats[s.draw(k.out.Y())][s.draw(k.out.X())] = NAN;
    if(s.b(0.05)) {
        int y = s.draw(k.in.Y()), x = s.draw(k.in.X());
        if(k.in.Y() * k.in.X() > 1 && !rectilinear && !same_grid) k.in.lons[y][x] = NAN;
    }
    k.T = s.i(1, 2);
    k.E = s.i(1, 3);
    k.iv = Variable("in");
    k.ov = s.b(0.8) ? Variable("out") : k.iv;
}
void finish(Src& s, Case& k, double lo, double hi, double p, bool ints = false) {
    k.v = cg::values(s, k.T, k.in.Y(), k.in.X(), k.E, lo, hi, p, ints);
    for(int t = 0; t < k.T; t++) k.times.push_back(t * 3600);
    k.fi.reset(new cg::Mem(k.in.lats, k.in.lons, k.in.elevs, k.in.lafs, k.E, k.times));
    k.fo.reset(new cg::Mem(k.out.lats, k.out.lons, k.out.elevs, k.out.lafs, k.E, k.times));
    k.fi->put(k.iv, k.v);
    for(int y = 0; y < k.out.Y(); y++) for(int x = 0; x < k.out.X(); x++) k.cand.push_back(cg::nearest(k.in, k.out.lats[y][x], k.out.lons[y][x]));
}
std::string show(const Case& k) { return cat("input ", cg::show(k.in), "\noutput ", cg::show(k.out), "\nvalues ", k.v); }
std::vector<vec3c> run(Ctx& c, Case& k, const std::string& name, const Options& o) {
    LOG(c, name, " ", o.toString(), "\n", show(k));
    std::unique_ptr<Downscaler> d(Downscaler::getScheme(name, k.iv, k.ov, o));
    REQUIRE(c, d->downscale(*k.fi, *k.fo), "downscale refused");
    std::vector<vec3c> r;
    for(int t = 0; t < k.T; t++) {
        r.push_back(cg::get(*k.fo, k.ov, t));
        REQUIRE(c, (int) r[t].size() == k.out.Y() && (int) r[t][0].size() == k.out.X() && (int) r[t][0][0].size() == k.E, "size of the output field");
        vec3c in = cg::get(*k.fi, k.iv, t);
        for(size_t y = 0; y < in.size(); y++) for(size_t x = 0; x < in[y].size(); x++) for(int e = 0; e < k.E; e++)
            REQUIRE(c, cg::same(in[y][x][e], k.v[t][y][x][e]), "the input field changed at ", y, ",", x, " member ", e);
    }
    LOG(c, "result ", r);
    return r;
}
double elev(const cg::Geometry& g, int y, int x) { return g.elevs.empty() ? cg::MV : g.elevs[y][x]; }
double laf(const cg::Geometry& g, int y, int x) { return g.lafs.empty() ? cg::MV : g.lafs[y][x]; }
}
#define EACH for(int t = 0; t < k.T; t++) for(int y = 0; y < k.out.Y(); y++) for(int x = 0; x < k.out.X(); x++) for(int e = 0; e < k.E; e++)

PROP(C04, nearest, 60000, 3000000) {
    Case k;
    build(s, k, cg::region(s), false, s.pick<double>({1, 1, 2}), 0.3, s.b(0.2) ? 12 : 6);
    finish(s, k, -100, 100, cg::pmiss(s));
    std::vector<vec3c> r = run(c, k, "nearestNeighbour", Options());
    bool same_grid = k.in.lats == k.out.lats && k.in.lons == k.out.lons;
    EACH {
        if(k.near(y, x).empty()) {
            REQUIRE(c, !cg::ok(r[t][y][x][e]), "output ", y, ",", x, " has no position but the value ", r[t][y][x][e]);
            continue;
        }
        bool found = same_grid && cg::same(r[t][y][x][e], k.v[t][y][x][e]);
        for(auto& p : k.near(y, x)) found = found || cg::same(r[t][y][x][e], k.v[t][p.first][p.second][e]);
        REQUIRE(c, found, "output ", y, ",", x, " is ", r[t][y][x][e], " but the nearest cell ", k.near(y, x)[0].first, ",", k.near(y, x)[0].second, " has ", k.v[t][k.near(y, x)[0].first][k.near(y, x)[0].second][e]);
    }
    c.label(k.in.kind);
    c.nontrivial(k.in.Y() * k.in.X() > 1);
    // The input grid moves: cells found earlier must not be used again
    if(s.b(0.3)) {
        vec2 lats = k.in.lats;
        for(auto& row : lats) for(float& v : row) v = -v;
        k.in.lats = lats;
        k.fi->setLats(lats);
        k.cand.clear();
        for(int y = 0; y < k.out.Y(); y++) for(int x = 0; x < k.out.X(); x++) k.cand.push_back(cg::nearest(k.in, k.out.lats[y][x], k.out.lons[y][x]));
        k.fo->clear();
        r = run(c, k, "nearestNeighbour", Options());
        same_grid = k.in.lats == k.out.lats && k.in.lons == k.out.lons;
        EACH {
            bool found = k.near(y, x).empty() || (same_grid && cg::same(r[t][y][x][e], k.v[t][y][x][e]));
            for(auto& p : k.near(y, x)) found = found || cg::same(r[t][y][x][e], k.v[t][p.first][p.second][e]);
            REQUIRE(c, found, "after the input grid moved: output ", y, ",", x, " is ", r[t][y][x][e], " but the nearest cell has ", k.v[t][k.near(y, x)[0].first][k.near(y, x)[0].second][e]);
        }
    }
}

PROP(C04, tree, 100000, 5000000) {
    cg::Region r = cg::region(s);
    cg::Geometry g = cg::geometry(s, r, s.b(0.3) ? 20 : 6, false, 1, false);
    if(s.b(0.1)) g.lons[s.draw(g.Y())][s.draw(g.X())] = NAN;
    if(s.b(0.1)) for(auto& row : g.lons) for(float& v : row) if(v < 0) v += 360;
    LOG(c, cg::show(g));
    bool any = false;
    for(int y = 0; y < g.Y(); y++) for(int x = 0; x < g.X(); x++) any = any || cg::ok(g.lons[y][x]);
    if(!any) return;
    KDTree tree(g.lats, g.lons), copy(tree), third;
    third = copy;
    c.nontrivial(g.Y() * g.X() > 1);
    for(int q = 0; q < 5; q++) {
        float lat = cg::clamp_lat(r.lat0 + r.dlat * s.u(-1.5, 1.5)), lon = cg::wrap_lon(r.lon0 + r.dlon * s.u(-1.5, 1.5));
        if(s.b(0.1)) { lat = s.f(-90, 90); lon = s.f(-180, 180); }
        if(std::fabs(lon) > 180) lon = 180;
        Cells n = cg::nearest(g, lat, lon);
        int I = -5, J = -5;
        (q == 1 ? copy : q == 2 ? third : tree).getNearestNeighbour(lat, lon, I, J);
        bool found = false;
        for(auto& p : n) found = found || (p.first == I && p.second == J);
        REQUIRE(c, found, "nearest to ", lat, ",", lon, " is ", I, ",", J, " but ", n[0].first, ",", n[0].second, " at ", g.lats[n[0].first][n[0].second], ",", g.lons[n[0].first][n[0].second], " is closer");
    }
}

PROP(C04, pressure, 40000, 2000000) {
    Case k;
    build(s, k, cg::region(s));
    finish(s, k, 80000, 105000, cg::pmiss(s));
    std::vector<vec3c> r = run(c, k, "pressure", Options());
    bool some = false;
    EACH {
        bool found = k.near(y, x).empty() && !cg::ok(r[t][y][x][e]);
        if(k.near(y, x).empty() && k.in.lats == k.out.lats) found = true;
        double want = 0;
        Cells cand = k.near(y, x);
        if(k.in.lats == k.out.lats && k.in.lons == k.out.lons) cand.push_back(std::make_pair(y, x));
        for(auto& p : cand) {
            double v = k.v[t][p.first][p.second][e], a = elev(k.in, p.first, p.second), b = elev(k.out, y, x);
            bool adjust = cg::ok(a) && cg::ok(b);
            want = !cg::ok(v) ? cg::MV : adjust ? v * std::exp(-1.21e-4 * (b - a)) : v;
            some = some || (cg::ok(v) && adjust && a != b);
            found = found || (cg::ok(want) ? feq(r[t][y][x][e], want, 0, 1e-5) : !cg::ok(r[t][y][x][e]));
        }
        REQUIRE(c, found, "output ", y, ",", x, " is ", r[t][y][x][e], " but the nearest cell gives ", want);
    }
    c.nontrivial(some);
}

PROP(C04, smart, 40000, 2000000) {
    Case k;
    build(s, k, cg::region(s));
    int radius = s.pick({0, 1, 1, 2, 3}), num = s.i(1, 8);
    float limit = cg::MV;
    std::string o = cat("radius=", radius, " num=", num);
    if(s.b(0.2)) { o = ""; radius = 3; num = 5; }
    if(s.b(0.3)) { limit = s.i(0, 300); o += cat(" minElevDiff=", limit); }
    finish(s, k, -100, 100, cg::pmiss(s));
    std::vector<vec3c> r = run(c, k, "smart", opt(o));
    bool some = false;
    EACH {
        Cells cand = k.near(y, x);
        if(k.in.lats == k.out.lats && k.in.lons == k.out.lons) cand.push_back(std::make_pair(y, x));
        bool found = cand.empty() && !cg::ok(r[t][y][x][e]);
        std::string all;
        for(auto& p : cand) {
            double oe = elev(k.out, y, x), ne = elev(k.in, p.first, p.second);
            // with a missing elevation, or within the limit (either way if just at it), the nearest cell
            bool nn = !cg::ok(oe), maybe = false;
            if(cg::ok(oe) && cg::ok(ne) && cg::ok(limit)) {
                double d = std::fabs(oe - ne);
                nn = nn || d <= limit;
                maybe = std::fabs(d - limit) < 1e-3;
            }
            float v = k.v[t][p.first][p.second][e];
            if(nn || maybe) {
                found = found || cg::same(r[t][y][x][e], v);
                all += " " + str(v);
                if(nn && !maybe) continue;
            }
            std::vector<std::pair<double, float> > w;
            for(int i = std::max(0, p.first - radius); i <= std::min(k.in.Y() - 1, p.first + radius); i++)
                for(int j = std::max(0, p.second - radius); j <= std::min(k.in.X() - 1, p.second + radius); j++) {
                    double ie = elev(k.in, i, j);
                    w.push_back(std::make_pair(cg::ok(ie) ? std::fabs((double) (float) (ie - oe)) : 1e10, k.v[t][i][j][e]));
                }
            std::sort(w.begin(), w.end(), [](const std::pair<double, float>& a, const std::pair<double, float>& b) { return a.first < b.first; });
            int n = std::min((int) w.size(), num);
            // Cells with equal differences at the end of the list: any of them
            double last = w[n - 1].first;
            int strict = 0, end = n;
            while(strict < n && w[strict].first < last - 1e-4) strict++;
            while(end < (int) w.size() && w[end].first <= last + 1e-4) end++;
            std::vector<double> tied;
            double sum = 0;
            int count = 0, miss = 0;
            for(int i = 0; i < strict; i++) if(cg::ok(w[i].second)) { sum += w[i].second; count++; }
            for(int i = strict; i < end; i++) { if(cg::ok(w[i].second)) tied.push_back(w[i].second); else miss++; }
            int take = n - strict;
            // enumerate the choices
            int m = tied.size();
            for(int used = std::max(0, take - miss); used <= std::min(m, take); used++) {
                std::sort(tied.begin(), tied.end());
                double lo = sum, hi = sum;
                for(int i = 0; i < used; i++) { lo += tied[i]; hi += tied[m - 1 - i]; }
                int cc = count + used;
                if(cc == 0) { found = found || !cg::ok(r[t][y][x][e]); all += " missing"; continue; }
                all += cat(" ", lo / cc, "..", hi / cc);
                found = found || (cg::ok(r[t][y][x][e]) && r[t][y][x][e] >= lo / cc - 1e-3 && r[t][y][x][e] <= hi / cc + 1e-3);
                if(cc > 1 && strict > 0 && end == n) some = true;
            }
        }
        REQUIRE(c, found, "output ", y, ",", x, " member ", e, " is ", r[t][y][x][e], " but the cells of similar elevation give", all);
    }
    c.nontrivial(some);
}

PROP(C04, upscale, 40000, 2000000) {
    Case k;
    build(s, k, cg::region(s), false, 1, 0.3, 7);
    static const std::vector<std::pair<std::string, Util::StatType> > stats = {{"mean", Util::StatTypeMean}, {"min", Util::StatTypeMin}, {"max", Util::StatTypeMax}, {"median", Util::StatTypeMedian}, {"std", Util::StatTypeStd}, {"sum", Util::StatTypeSum}, {"quantile", Util::StatTypeQuantile}};
    auto st = stats[s.draw(stats.size())];
    double q = s.i(0, 10) / 10.0;
    std::string o = s.b(0.1) ? (st = stats[0], "") : "stat=" + st.first;
    if(st.second == Util::StatTypeQuantile) o += cat(" quantile=", q);
    finish(s, k, -100, 100, cg::pmiss(s));
    // Here the output cell nearest to each input cell counts; leave out cases where that is ambiguous
    std::vector<std::vector<std::pair<int, int> > > members(k.out.Y() * k.out.X());
    bool any = false;
    for(int y = 0; y < k.out.Y(); y++) for(int x = 0; x < k.out.X(); x++) any = any || (cg::ok(k.out.lats[y][x]) && cg::ok(k.out.lons[y][x]));
    if(!any) return;
    for(int y = 0; y < k.in.Y(); y++) for(int x = 0; x < k.in.X(); x++) {
        Cells n = cg::nearest(k.out, k.in.lats[y][x], k.in.lons[y][x]);
        if(n.size() > 1) return;
        if(n.size() == 1) members[n[0].first * k.out.X() + n[0].second].push_back(std::make_pair(y, x));
    }
    std::vector<vec3c> r = run(c, k, "upscale", opt(o));
    c.label(st.first);
    EACH {
        std::vector<float> v;
        for(auto& p : members[y * k.out.X() + x]) v.push_back(k.v[t][p.first][p.second][e]);
        double want = cg::statistic(v, st.second, q);
        if(v.size() > 1) c.nontrivial();
        REQUIRE(c, cg::ok(want) ? feq(r[t][y][x][e], want, 1e-3, 1e-5) : !cg::ok(r[t][y][x][e]), "output ", y, ",", x, " member ", e, " is ", r[t][y][x][e], " instead of ", want, " (", st.first, " of ", v, ")");
    }
}

PROP(C04, bypass, 3000, 100000) {
    Case k;
    build(s, k, cg::region(s));
    finish(s, k, -100, 100, 0.1);
    bool has = s.b();
    std::vector<vec3c> old = cg::values(s, k.T, k.out.Y(), k.out.X(), k.E, -10, 10, 0.1);
    if(has) k.fo->put(k.ov, old);
    std::vector<vec3c> r = run(c, k, "bypass", Options());
    c.nontrivial(has);
    EACH REQUIRE(c, cg::same(r[t][y][x][e], has ? old[t][y][x][e] : cg::MV), "bypass changed output ", y, ",", x, " to ", r[t][y][x][e]);
}

// Other numbers of times: refused, and the output stays as it was
PROP(C04, times, 3000, 100000) {
    Case k;
    build(s, k, cg::region(s));
    finish(s, k, -100, 100, 0.1);
    std::vector<vec3c> old = cg::values(s, k.T, k.out.Y(), k.out.X(), k.E, -10, 10, 0.1);
    k.fo->put(k.ov, old);
    k.times.push_back(1e6);
    k.fi->setTimes(k.times);
    std::string name = s.pick<std::string>({"nearestNeighbour", "bilinear", "smart", "pressure", "gradient", "upscale", "bypass"});
    std::unique_ptr<Downscaler> d(Downscaler::getScheme(name, k.iv, k.ov, Options()));
    c.nontrivial();
    REQUIRE(c, !d->downscale(*k.fi, *k.fo), name, " accepts files with different numbers of times");
    EACH REQUIRE(c, cg::same(cg::get(*k.fo, k.ov, t)[y][x][e], old[t][y][x][e]), name, " changed the output");
}

namespace {
// The range of values that bilinear interpolation may give at a position of a rectilinear grid, from
// the four surrounding cells; empty if the position is outside the grid or close to its edge
struct Range { bool inside = false, edge = false, missing = false, valid = false; double lo = 0, hi = 0; };
Range bilinear(const cg::Geometry& g, const vec2& v, double lat, double lon) {
    Range r;
    int Y = g.Y(), X = g.X();
    double lo0 = 1e9, hi0 = -1e9, lo1 = 1e9, hi1 = -1e9;
    for(int y = 0; y < Y; y++) { lo0 = std::min(lo0, (double) g.lats[y][0]); hi0 = std::max(hi0, (double) g.lats[y][0]); }
    for(int x = 0; x < X; x++) { lo1 = std::min(lo1, (double) g.lons[0][x]); hi1 = std::max(hi1, (double) g.lons[0][x]); }
    double s0 = (hi0 - lo0) * 1e-5 + 1e-5, s1 = (hi1 - lo1) * 1e-5 + 1e-5;
    if(Y < 2 || X < 2 || lat < lo0 - s0 || lat > hi0 + s0 || lon < lo1 - s1 || lon > hi1 + s1) return r;
    r.edge = lat < lo0 + s0 || lat > hi0 - s0 || lon < lo1 + s1 || lon > hi1 - s1;
    for(int y = 0; y + 1 < Y; y++) for(int x = 0; x + 1 < X; x++) {
        double a = g.lats[y][0], b = g.lats[y + 1][0], c = g.lons[0][x], d = g.lons[0][x + 1];
        double u = (lat - a) / (b - a), w = (lon - c) / (d - c);
        if(u < -1e-5 || u > 1 + 1e-5 || w < -1e-5 || w > 1 + 1e-5) continue;
        u = std::min(1.0, std::max(0.0, u));
        w = std::min(1.0, std::max(0.0, w));
        double q[4] = {v[y][x], v[y][x + 1], v[y + 1][x], v[y + 1][x + 1]};
        bool miss = false;
        for(double z : q) miss = miss || !cg::ok(z);
        if(miss) { r.missing = true; r.edge = r.edge || r.inside; r.inside = true; continue; }
        double z = (1 - u) * ((1 - w) * q[0] + w * q[1]) + u * ((1 - w) * q[2] + w * q[3]);
        // coordinates are floats: the weights have errors
        double du = 2e-5 * std::max(1.0, std::fabs(lat)) / std::fabs(b - a) * 0.1 + 1e-5, dw = 4e-5 * std::max(1.0, std::fabs(lon)) / std::fabs(d - c) * 0.1 + 1e-5;
        double m = std::max(std::max(std::fabs(q[0] - q[1]), std::fabs(q[2] - q[3])), std::max(std::fabs(q[0] - q[2]), std::fabs(q[1] - q[3])));
        double slack = m * (du + dw) * 2 + 1e-5 * (std::fabs(z) + 1);
        if(r.missing) r.edge = true;
        if(!r.valid) { r.lo = z - slack; r.hi = z + slack; }
        r.valid = true;
        r.lo = std::min(r.lo, z - slack);
        r.hi = std::max(r.hi, z + slack);
        r.inside = true;
    }
    return r;
}
}

PROP(C04, bilinear, 60000, 3000000) {
    Case k;
    cg::Region reg = cg::region(s, true);
    reg.dlon = reg.dlat;      // cells of very different width and height are not supported (the program stops)
    build(s, k, reg, true, s.pick<double>({0.7, 1, 1.3}));
    finish(s, k, -100, 100, s.b(0.7) ? 0 : 0.1);
    std::vector<vec3c> r = run(c, k, "bilinear", Options());
    bool same_grid = k.in.lats == k.out.lats && k.in.lons == k.out.lons;
    EACH {
        double lat = k.out.lats[y][x], lon = k.out.lons[y][x];
        float got = r[t][y][x][e];
        if(!cg::ok(lat)) { REQUIRE(c, !cg::ok(got), "output ", y, ",", x, " has no position but the value ", got); continue; }
        vec2 v(k.in.Y(), std::vector<float>(k.in.X()));
        for(int i = 0; i < k.in.Y(); i++) for(int j = 0; j < k.in.X(); j++) v[i][j] = k.v[t][i][j][e];
        Range b = bilinear(k.in, v, lat, lon);
        bool nn = false, anymiss = false;
        for(auto& p : k.near(y, x)) nn = nn || cg::same(got, v[p.first][p.second]);
        for(auto& row : v) for(float f : row) anymiss = anymiss || !cg::ok(f);
        bool fits = b.valid && got >= b.lo && got <= b.hi;
        bool found;
        if(!b.inside) found = nn;
        else if(b.edge || b.missing) found = fits || nn || !cg::ok(got);     // at the border of two cells or of the grid
        else found = fits;
        if(b.inside && b.missing && !b.edge) found = !cg::ok(got);
        if(b.inside && !b.edge && !b.missing) c.nontrivial();
        REQUIRE(c, found || (b.edge && same_grid), "output ", y, ",", x, " (", lat, ",", lon, ") member ", e, " is ", got, " but ", b.inside ? cat("the surrounding cells give ", b.lo, " to ", b.hi) : std::string("the nearest cell is expected"), b.missing ? " (missing corner)" : "");
        if(cg::ok(got) && !anymiss && b.edge) {
            double lo = 1e9, hi = -1e9;
            for(auto& row : v) for(float f : row) { lo = std::min(lo, (double) f); hi = std::max(hi, (double) f); }
            REQUIRE(c, got >= lo - 1e-3 && got <= hi + 1e-3, "output ", y, ",", x, " is ", got, ", beyond all input values");
        }
    }
}

// On a rotated or sheared grid a field that is linear in latitude and longitude is reproduced
PROP(C04, bilinear_rotated, 40000, 2000000) {
    Case k;
    double lat0 = s.i(-20, 20), lon0 = s.i(-150, 150), d = s.pick<double>({0.1, 1, 0.5});
    int n = s.i(4, 7);
    double t = s.u(-0.45, 0.45), shear = s.u(-0.25, 0.25), c0 = std::cos(t), s0 = std::sin(t);
    bool fy = s.b(0.3), fx = s.b(0.3);
    k.in.kind = "rotated";
    k.in.lats = k.in.lons = vec2(n, std::vector<float>(n));
    for(int y = 0; y < n; y++) for(int x = 0; x < n; x++) {
        double u = (fy ? n - 1 - y : y) - (n - 1) / 2.0, v = (fx ? n - 1 - x : x) - (n - 1) / 2.0;
        v += shear * u;
        k.in.lats[y][x] = lat0 + d * (c0 * u - s0 * v);
        k.in.lons[y][x] = lon0 + d * (s0 * u + c0 * v);
    }
    k.out.kind = "inside";
    k.out.lats = k.out.lons = vec2(2, std::vector<float>(3));
    for(int y = 0; y < 2; y++) for(int x = 0; x < 3; x++) {
        // at least one cell from the edge
        double m = (n - 3) / 2.0, u = s.u(-m, m), v = s.u(-m, m);
        v += shear * u;
        k.out.lats[y][x] = lat0 + d * (c0 * u - s0 * v);
        k.out.lons[y][x] = lon0 + d * (s0 * u + c0 * v);
    }
    k.T = 1;
    k.E = s.i(1, 2);
    k.iv = Variable("in");
    k.ov = Variable("out");
    finish(s, k, 0, 1, 0);
    double a = s.u(-10, 10), b = s.u(-10, 10) / d, q = s.u(-10, 10) / d;
    auto f = [&](float lat, float lon, int e) { return a + b * (lat - lat0) + q * (lon - lon0) + e; };
    for(int y = 0; y < n; y++) for(int x = 0; x < n; x++) for(int e = 0; e < k.E; e++) k.v[0][y][x][e] = f(k.in.lats[y][x], k.in.lons[y][x], e);
    k.fi->put(k.iv, k.v);
    std::vector<vec3c> r = run(c, k, "bilinear", Options());
    c.nontrivial();
    // up to 5 % of a cell outside a cell counts as its edge
    double tol = 1e-3 + (std::fabs(b) + std::fabs(q)) * (1e-4 + 0.1 * d);
    EACH REQUIRE(c, feq(r[t][y][x][e], f(k.out.lats[y][x], k.out.lons[y][x], e), tol, 0), "output ", y, ",", x, " at ", k.out.lats[y][x], ",", k.out.lons[y][x], " is ", r[t][y][x][e], " instead of ", f(k.out.lats[y][x], k.out.lons[y][x], e));
}

namespace {
struct GradOpt {
    int elevRadius = 3, minNumPoints = 2, lafRadius = 0;
    double minElevDiff = 30, def = 0, minG = cg::MV, maxG = cg::MV, constant = cg::MV, minLafElev = 0, minLafDiff = 0.1, minSea = 0, minL = cg::MV, maxL = cg::MV;
    bool log = false, limit = false, bilinear = false;
    std::string save, gvar;
    std::vector<int> radii;
    std::vector<double> weights;
};
struct Val { double v = cg::MV, slack = 0; };
// Gradient of the values in the elevation neighbourhood of an input cell
Val elev_gradient(const GradOpt& o, const cg::Geometry& g, const vec3c& v, int I, int J, int e, bool& unsure) {
    double r = cg::MV, slack = 0;
    if(cg::ok(o.constant)) r = o.constant;
    else {
        std::vector<double> xs, ys;
        for(int i = std::max(0, I - o.elevRadius); i <= std::min(g.Y() - 1, I + o.elevRadius); i++) for(int j = std::max(0, J - o.elevRadius); j <= std::min(g.X() - 1, J + o.elevRadius); j++) {
            double x = elev(g, i, j), y = v[i][j][e], l = laf(g, i, j);
            if(!cg::ok(x) || !cg::ok(y) || (cg::ok(l) && l < (float) o.minLafElev)) continue;
            if(o.log) { if(y <= 0) continue; y = (float) std::log(y); }
            xs.push_back(x);
            ys.push_back(y);
        }
        double lo = 1e9, hi = -1e9, mx = 0, my = 0, sxy = 0, sxx = 0, my2 = 0;
        for(size_t i = 0; i < xs.size(); i++) { lo = std::min(lo, xs[i]); hi = std::max(hi, xs[i]); mx += xs[i] / xs.size(); my += ys[i] / xs.size(); }
        for(size_t i = 0; i < xs.size(); i++) { sxy += (xs[i] - mx) * (ys[i] - my); sxx += (xs[i] - mx) * (xs[i] - mx); my2 = std::max(my2, std::fabs(ys[i])); }
        if((int) xs.size() >= o.minNumPoints && !xs.empty()) {
            if(std::fabs(hi - lo - o.minElevDiff) < 1e-3 && o.minElevDiff > 0) unsure = true;
            if(hi - lo >= o.minElevDiff && sxx > 0) {
                r = sxy / sxx;
                slack = 1e-5 * std::fabs(r) + my2 * 1e-5 / std::sqrt(sxx);
                if(hi - lo < 0.1) unsure = true;
            }
        }
    }
    if(!cg::ok(r)) r = o.def;
    if(cg::ok(o.minG)) r = std::max(r, o.minG);
    if(cg::ok(o.maxG)) r = std::min(r, o.maxG);
    Val q;
    q.v = r;
    q.slack = slack + 1e-6 * std::fabs(r);
    return q;
}
Val laf_gradient(const GradOpt& o, const cg::Geometry& g, const vec3c& v, int I, int J, int e, const Val& eg, bool& unsure) {
    double sum = 0, w = 0, slack = 0;
    for(size_t k = 0; k < o.radii.size(); k++) {
        int R = o.radii[k], n = 0, sea = 0, i0 = -1, j0 = -1, i1 = -1, j1 = -1;
        for(int i = std::max(0, I - R); i <= std::min(g.Y() - 1, I + R); i++) for(int j = std::max(0, J - R); j <= std::min(g.X() - 1, J + R); j++) {
            double l = laf(g, i, j), y = v[i][j][e];
            if(!cg::ok(l) || !cg::ok(y)) continue;
            n++;
            sea += l < 0.5;
            if(i0 < 0 || l < laf(g, i0, j0)) { i0 = i; j0 = j; }
            if(i1 < 0 || l > laf(g, i1, j1)) { i1 = i; j1 = j; }
        }
        if(n == 0) continue;
        double d = laf(g, i1, j1) - laf(g, i0, j0), frac = sea / (double) n;
        if(std::fabs(d - o.minLafDiff) < 1e-5 || std::fabs(frac - o.minSea) < 1e-5 * o.minSea || d < 1e-3) unsure = unsure || (d > 0 || o.minLafDiff <= 0);
        if(d < o.minLafDiff || frac < o.minSea) continue;
        double de = elev(g, i1, j1) - elev(g, i0, j0);
        sum += o.weights[k] * (v[i1][j1][e] - eg.v * de - v[i0][j0][e]) / d;
        slack += o.weights[k] * (eg.slack * std::fabs(de) + 1e-5 * (std::fabs(v[i1][j1][e]) + std::fabs(v[i0][j0][e]) + std::fabs(eg.v * de))) / d;
        w += o.weights[k];
    }
    Val q;
    if(w == 0) return q;
    q.v = sum / w;
    if(cg::ok(o.minL)) q.v = std::max(q.v, o.minL);
    if(cg::ok(o.maxL)) q.v = std::min(q.v, o.maxL);
    q.slack = slack / w + 1e-5 * std::fabs(q.v);
    return q;
}
}

// Nearest (or bilinear) value plus gradients times the differences in elevation and land-area fraction
PROP(C04, gradient, 40000, 2000000) {
    Case k;
    GradOpt o;
    o.bilinear = s.b(0.15);
    o.log = s.b(0.15);
    bool use_laf = s.b(0.5);
    cg::Region reg = cg::region(s, o.bilinear);
    if(o.bilinear) reg.dlon = reg.dlat;
    build(s, k, reg, o.bilinear, 1, o.bilinear ? 0 : 0.3, s.b(0.3) ? 9 : 6);
    if(use_laf) {
        // land everywhere, or coast, with known elevation
        for(auto* g : {&k.in, &k.out}) {
            double p = s.b(0.3) && !o.bilinear ? 0.2 : 0;
            g->lafs = cg::meta(s, g->Y(), g->X(), 0, s.b(0.8) ? 1 : 0.2, p);
            if(g == &k.in || s.b()) g->elevs = cg::meta(s, g->Y(), g->X(), 0, 500, 0);
        }
    }
    // a coast: all but few cells at elevation zero
    if(s.b(0.2) && !k.in.elevs.empty()) for(auto& row : k.in.elevs) for(float& v : row) if(s.b(0.85)) v = 0;
    double lo = o.log ? 1 : s.b(0.2) ? 90000 : -20, hi = o.log ? 50 : lo > 0 ? 105000 : 30;
    double vmin = s.b(0.3) ? lo : cg::MV, vmax = s.b(0.3) ? hi : cg::MV;
    k.iv = Variable("in", vmin, vmax, "", "");
    k.ov = s.b(0.8) ? Variable("out", vmax == cg::MV ? lo : cg::MV, vmax, "", "") : k.iv;
    finish(s, k, lo, hi, o.bilinear ? 0 : cg::pmiss(s));
    std::vector<vec3c> gv = k.v;
    std::string t;
    auto add = [&](const std::string& key, double v) { t += (t.empty() ? "" : " ") + key + "=" + cat(v); };
    if(s.b(0.15)) { o.gvar = "other"; gv = cg::values(s, k.T, k.in.Y(), k.in.X(), k.E, o.log ? 1 : -10, 10, s.b(0.3) ? 0.2 : 0); k.fi->put(Variable("other"), gv); t = "elevGradientVariable=other"; }
    if(s.b(0.3)) add("constantElevGradient", o.constant = s.pick<double>({-0.0065, 0.01, 0, -0.0001}));
    if(s.b(0.6)) add("elevRadius", o.elevRadius = s.i(0, 4));
    if(s.b(0.5)) add("minElevDiff", o.minElevDiff = s.pick<double>({0, 10, 100, 500}));
    if(s.b(0.3)) add("defaultElevGradient", o.def = s.pick<double>({-0.0065, 0.02}));
    if(s.b(0.2)) add("minElevGradient", o.minG = s.pick<double>({-0.01, 0, 0.005}));
    if(s.b(0.2)) add("maxElevGradient", o.maxG = s.pick<double>({0.01, 0.02, 0.1}));
    if(s.b(0.2)) add("minLafForElevGradient", o.minLafElev = s.pick<double>({0.1, 0.5, 0.9}));
    if(s.b(0.3)) add("minNumPoints", o.minNumPoints = s.i(1, 10));
    if(s.b(0.3)) add("limit", o.limit = true);
    if(o.log) add("logTransform", 1);
    if(use_laf) {
        std::string r, w;
        int n = s.i(1, 3);
        for(int i = 0; i < n; i++) { o.radii.push_back(s.i(0, 4)); r += cat(i ? "," : "", o.radii[i]); o.weights.push_back(s.i(1, 5)); w += cat(i ? "," : "", o.weights[i]); }
        t += (t.empty() ? "" : " ") + ("lafSearchRadii=" + r);
        if(s.b(0.5)) t += " lafWeights=" + w;
        else o.weights.assign(n, 1.0 / n);
        if(s.b(0.4)) add("minLafDiff", o.minLafDiff = s.pick<double>({0.01, 0.3, 0.7}));
        if(s.b(0.3)) add("minFracSeaPoints", o.minSea = s.pick<double>({0.25, 0.6}));
        if(s.b(0.3)) add("minLafGradient", o.minL = s.pick<double>({-10, 0}));
        if(s.b(0.3)) add("maxLafGradient", o.maxL = s.pick<double>({10, 20}));
        if(s.b(0.3)) add("lafRadius", o.lafRadius = s.i(0, 2));
    }
    if(s.b(0.15)) { o.save = s.b() ? "elev" : "laf"; t += (t.empty() ? "" : " ") + ("saveGradient=" + o.save); }
    if(o.bilinear) t += std::string(t.empty() ? "" : " ") + "downscaler=bilinear";
    std::vector<vec3c> be, bl, bv;
    if(o.bilinear) {
        // the same interpolation of the values and the elevations as fields
        auto bil = [&](const vec2& m, const std::string& name) {
            std::vector<vec3c> f(k.T, vec3c(k.in.Y(), vec2(k.in.X(), std::vector<float>(k.E, cg::MV))));
            if(!m.empty()) for(auto& a : f) for(int y = 0; y < k.in.Y(); y++) for(int x = 0; x < k.in.X(); x++) for(float& z : a[y][x]) z = m[y][x];
            Variable a(name), b("tmp_out");
            k.fi->put(a, f);
            std::unique_ptr<Downscaler> d(Downscaler::getScheme("bilinear", a, b, Options()));
            cg::Mem fo(k.out.lats, k.out.lons, k.out.elevs, k.out.lafs, k.E, k.times);
            d->downscale(*k.fi, fo);
            std::vector<vec3c> r;
            for(int t = 0; t < k.T; t++) r.push_back(cg::get(fo, b, t));
            return r;
        };
        be = bil(k.in.elevs, "tmp_elev");
        bl = bil(k.in.lafs, "tmp_laf");
        Variable b("tmp2");
        std::unique_ptr<Downscaler> d(Downscaler::getScheme("bilinear", k.iv, b, Options()));
        cg::Mem fo(k.out.lats, k.out.lons, k.out.elevs, k.out.lafs, k.E, k.times);
        d->downscale(*k.fi, fo);
        for(int t = 0; t < k.T; t++) bv.push_back(cg::get(fo, b, t));
    }
    std::vector<vec3c> r = run(c, k, "gradient", opt(t));
    if(!o.gvar.empty()) LOG(c, "gradient variable ", gv);
    bool same_grid = k.in.lats == k.out.lats && k.in.lons == k.out.lons;
    EACH {
        float got = r[t][y][x][e];
        if(k.near(y, x).empty()) { REQUIRE(c, !cg::ok(got), "output ", y, ",", x, " has no position but the value ", got); continue; }
        Cells cand = k.near(y, x);
        if(same_grid) cand.push_back({y, x});
        bool found = false;
        std::string exp;
        for(auto& p : cand) {
            int I = p.first, J = p.second;
            double base = o.bilinear ? bv[t][y][x][e] : k.v[t][I][J][e];
            if(!cg::ok(base)) { found = found || !cg::ok(got); exp += "missing "; continue; }
            bool unsure = false;
            Val eg = elev_gradient(o, k.in, gv[t], I, J, e, unsure), lg;
            if(use_laf) lg = laf_gradient(o, k.in, k.v[t], I, J, e, eg, unsure);
            if(unsure) { found = true; continue; }
            if(!o.save.empty()) {
                Val q = o.save == "elev" ? eg : lg;
                if(!cg::ok(q.v)) found = found || !cg::ok(got);
                else found = found || std::fabs(q.v - got) <= q.slack + 1e-6;
                exp += cat(q.v, " ");
                continue;
            }
            double bel = o.bilinear ? be[t][y][x][e] : elev(k.in, I, J), bla = o.bilinear ? bl[t][y][x][e] : laf(k.in, I, J), oe = elev(k.out, y, x), ol = laf(k.out, y, x);
            if(o.lafRadius) {
                double sum = 0; int n = 0;
                for(int i = std::max(0, y - o.lafRadius); i <= std::min(k.out.Y() - 1, y + o.lafRadius); i++) for(int j = std::max(0, x - o.lafRadius); j <= std::min(k.out.X() - 1, x + o.lafRadius); j++) if(cg::ok(laf(k.out, i, j))) { sum += laf(k.out, i, j); n++; }
                ol = n ? sum / n : cg::MV;
            }
            double value = base, slack = 1e-5 * std::fabs(base) + 1e-4;
            if(cg::ok(oe) && cg::ok(bel)) {
                double d = oe - bel;
                if(o.log) { value *= std::exp(d * eg.v); slack += std::fabs(value) * (std::exp(std::min(50.0, std::fabs(d) * eg.slack + 1e-5 * std::fabs(d * eg.v))) - 1 + 1e-5); if(!(value < 1e30)) { found = true; continue; } }
                else { value += d * eg.v; slack += std::fabs(d) * (eg.slack + 1e-6 * std::fabs(eg.v)); }
                if(d * eg.v != 0) c.nontrivial();
            }
            if(cg::ok(ol) && cg::ok(bla) && cg::ok(lg.v)) { value += (ol - bla) * lg.v; slack += std::fabs(ol - bla) * lg.slack + 1e-6 * std::fabs(lg.v); }
            // either side of a limit of the variable
            std::vector<double> options;
            double a = k.ov.min(), b = k.ov.max();
            bool below = cg::ok(a) && value < a + slack, above = cg::ok(b) && value > b - slack;
            if(below || above) options.push_back(base);
            if(!(cg::ok(a) && value < a - slack) && !(cg::ok(b) && value > b + slack)) options.push_back(value);
            for(double q : options) {
                if(o.limit) {
                    double l = 1e30, h = -1e30;
                    for(int i = std::max(0, I - o.elevRadius); i <= std::min(k.in.Y() - 1, I + o.elevRadius); i++) for(int j = std::max(0, J - o.elevRadius); j <= std::min(k.in.X() - 1, J + o.elevRadius); j++) {
                        double z = k.v[t][i][j][e];
                        if(cg::ok(z)) { l = std::min(l, z); h = std::max(h, z); }
                    }
                    if(l <= h) q = std::min(h, std::max(l, q));
                }
                found = found || std::fabs(got - q) <= slack;
                exp += cat(q, " ");
            }
        }
        REQUIRE(c, found, "output ", y, ",", x, " member ", e, " time ", t, " is ", got, " instead of ", exp);
    }
}
