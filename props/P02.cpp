// P02: containers keep coordinates, metadata and type; box lookup
#include "gen.h"

namespace {
float at(const vec& v, int i) { return v.empty() ? MV : v[i]; }
void check_points(Ctx& c, const Points& p, const gen::Geo& g, const char* what) {
    int n = g.n();
    REQUIRE(c, p.size() == n, what, ": size ", p.size(), " expected ", n);
    vec la = p.get_lats(), lo = p.get_lons(), el = p.get_elevs(), lf = p.get_lafs();
    REQUIRE(c, (int) la.size() == n && (int) lo.size() == n, what, ": coordinate sizes");
    REQUIRE(c, (int) el.size() == n && (int) lf.size() == n, what, ": metadata sizes ", el.size(), ",", lf.size());
    REQUIRE(c, p.get_coordinate_type() == g.type || n == 0, what, ": coordinate type changed to ", p.get_coordinate_type());
    for(int i = 0; i < n; i++) {
        REQUIRE(c, la[i] == g.lats[i] && lo[i] == g.lons[i], what, ": coordinates of ", i, ": ", la[i], ",", lo[i]);
        REQUIRE(c, pbt::same(el[i], at(g.elevs, i)) && pbt::same(lf[i], at(g.lafs, i)), what, ": metadata of ", i, ": ", el[i], ",", lf[i]);
        Point q = p.get_point(i);
        ref::P3 x = ref::xyz(g.lats[i], g.lons[i], g.type);
        REQUIRE(c, q.lat == g.lats[i] && q.lon == g.lons[i] && q.type == g.type, what, ": get_point ", i);
        REQUIRE(c, pbt::same(q.elev, at(g.elevs, i)) && pbt::same(q.laf, at(g.lafs, i)), what, ": get_point metadata ", i);
        REQUIRE(c, std::fabs(q.x - x.x) < 2 && std::fabs(q.y - x.y) < 2 && std::fabs(q.z - x.z) < 2, what, ": get_point position ", i);
    }
}
// the derived set must also search in the right place
void check_search(Ctx& c, const Points& p, const gen::Geo& g, float lat, float lon, const char* what) {
    if(g.n() == 0) return;
    int I = p.get_nearest_neighbour(lat, lon);
    REQUIRE(c, I >= 0 && I < g.n(), what, ": nearest index ", I);
    double best = 1e99, scale = 1e4;
    for(int i = 0; i < g.n(); i++) best = std::min(best, ref::chord(lat, lon, g.lats[i], g.lons[i], g.type));
    double d = ref::chord(lat, lon, g.lats[I], g.lons[I], g.type);
    REQUIRE(c, d <= best + 2 * ref::tol(g.type, scale), what, ": search in derived set returns ", I, " at ", d, ", closest is at ", best);
}
gen::Geo take(const gen::Geo& g, const ivec& I) {
    gen::Geo o;
    o.type = g.type;
    for(int i : I) {
        o.lats.push_back(g.lats[i]);
        o.lons.push_back(g.lons[i]);
        if(!g.elevs.empty()) o.elevs.push_back(g.elevs[i]);
        if(!g.lafs.empty()) o.lafs.push_back(g.lafs[i]);
    }
    return o;
}
struct Q { double lat, lon; };
// Signed margin of m in the convex quadrilateral a,b,c,d (coordinate units): > 0 inside, < 0 outside
double margin(const Q* p, Q m) {
    double sgn = 0, best = 1e99;
    double area = 0;
    for(int k = 0; k < 4; k++) { Q a = p[k], b = p[(k + 1) % 4]; area += a.lon * b.lat - b.lon * a.lat; }
    sgn = area > 0 ? 1 : -1;
    for(int k = 0; k < 4; k++) {
        Q a = p[k], b = p[(k + 1) % 4];
        double ex = b.lon - a.lon, ey = b.lat - a.lat, len = std::sqrt(ex * ex + ey * ey);
        double cr = ex * (m.lat - a.lat) - ey * (m.lon - a.lon);
        best = std::min(best, sgn * cr / len);
    }
    return best;
}
}

PROP(P02, points, 400000, 8000000) {
    gen::Region r = gen::region(s);
    gen::Geo g = gen::geo(s, r, 0, 9);
    LOG(c, gen::show(g));
    Points p = g.points();
    check_points(c, p, g, "Points");
    float lat, lon;
    gen::loc(s, r, lat, lon);
    check_search(c, p, g, lat, lon, "Points");
    Points copy(p), assigned;
    assigned = p;
    check_points(c, copy, g, "copy");
    check_points(c, assigned, g, "assigned");
    check_search(c, assigned, g, lat, lon, "assigned");
    if(g.n() > 0) {
        int k = s.i(0, 12);
        ivec I;
        for(int i = 0; i < k; i++) I.push_back(s.i(0, g.n() - 1));
        LOG(c, "subset ", str(I));
        gen::Geo sub = take(g, I);
        Points q = p.subset(I);
        check_points(c, q, sub, "subset");
        check_search(c, q, sub, lat, lon, "subset");
        c.nontrivial(k >= 1 && g.n() >= 2);
    }
    // an index that does not exist is refused
    int bad = s.b() ? g.n() + s.i(0, 3) : -1 - s.i(0, 3);
    bool threw = false;
    try { p.subset(ivec(1, bad)); } catch(const std::invalid_argument&) { threw = true; }
    REQUIRE(c, threw, "subset with index ", bad, " of ", g.n(), " not refused");
    if(g.type == Cartesian) c.label("cartesian");
    c.label(g.elevs.empty() ? "no-elevs" : "elevs");
}

PROP(P02, tree_points, 100000, 2000000) {
    gen::Region r = gen::region(s);
    gen::Geo g = gen::geo(s, r, 1, 6);
    LOG(c, gen::show(g));
    KDTree t(g.lats, g.lons, g.type);
    REQUIRE(c, gen::same_vec(t.get_lats(), g.lats) && gen::same_vec(t.get_lons(), g.lons) && t.size() == g.n() && t.get_coordinate_type() == g.type, "KDTree getters");
    check_points(c, Points(t, g.elevs, g.lafs), g, "Points(tree)");
    c.nontrivial(g.n() > 1);
}

PROP(P02, grids, 200000, 5000000) {
    gen::Region r = gen::region(s);
    gen::GeoGrid gg = gen::grid(s, r, 1, 6);
    LOG(c, gen::show(gg));
    Grid grid = gg.grid();
    int Y = gg.Y(), X = gg.X();
    auto check = [&](const Grid& q, const char* what) {
        ivec sz = q.size();
        REQUIRE(c, sz.size() == 2 && sz[0] == Y && sz[1] == X, what, ": size ", str(sz));
        REQUIRE(c, gen::same_vec(q.get_lats(), gg.lats) && gen::same_vec(q.get_lons(), gg.lons), what, ": coordinates");
        REQUIRE(c, q.get_coordinate_type() == gg.type, what, ": type");
        vec2 none = gridpp::init_vec2(Y, X, MV);
        REQUIRE(c, gen::same_vec(q.get_elevs(), gg.elevs.empty() ? none : gg.elevs), what, ": elevs");
        REQUIRE(c, gen::same_vec(q.get_lafs(), gg.lafs.empty() ? none : gg.lafs), what, ": lafs");
    };
    check(grid, "Grid");
    Grid copy(grid), assigned;
    assigned = grid;
    check(copy, "copy");
    check(assigned, "assigned");
    gen::Geo flat = gg.flat();
    Points p = grid.to_points();
    check_points(c, p, flat, "to_points");
    float lat, lon;
    gen::loc(s, r, lat, lon);
    check_search(c, p, flat, lat, lon, "to_points");
    int y = s.i(0, Y - 1), x = s.i(0, X - 1);
    Point q = grid.get_point(y, x);
    ref::P3 z = ref::xyz(gg.lats[y][x], gg.lons[y][x], gg.type);
    REQUIRE(c, q.lat == gg.lats[y][x] && q.lon == gg.lons[y][x] && q.type == gg.type, "get_point");
    REQUIRE(c, pbt::same(q.elev, gg.elevs.empty() ? MV : gg.elevs[y][x]) && pbt::same(q.laf, gg.lafs.empty() ? MV : gg.lafs[y][x]), "get_point metadata");
    REQUIRE(c, std::fabs(q.x - z.x) < 2 && std::fabs(q.y - z.y) < 2 && std::fabs(q.z - z.z) < 2, "get_point position ", q.x, ",", q.y, ",", q.z);
    // A point made directly from the same coordinates is the same place
    Point d(gg.lats[y][x], gg.lons[y][x], 0, 0, gg.type);
    REQUIRE(c, std::fabs(q.x - d.x) < 2 && std::fabs(q.y - d.y) < 2 && std::fabs(q.z - d.z) < 2, "Point(", d.lat, ",", d.lon, ") is placed at ", d.x, ",", d.y, " but the grid's point at ", q.x, ",", q.y);
    c.nontrivial(Y > 1 && X > 1 && Y != X);
    if(gg.type == Cartesian) c.label("cartesian");
}

PROP(P02, boxes, 1000000, 20000000) {
    gen::Region r = gen::region(s);
    gen::GeoGrid gg = gen::grid(s, r, 1, 6);
    int Y = gg.Y(), X = gg.X();
    Grid grid = gg.grid();
    float lat, lon;
    if(s.b(0.1)) { int y = s.i(0, Y - 1), x = s.i(0, X - 1); lat = gg.lats[y][x]; lon = gg.lons[y][x]; }
    else gen::loc(s, r, lat, lon, 1.1);
    LOG(c, gen::show(gg), " query=", lat, ",", lon);
    double maxc = std::max(std::fabs(lat), std::fabs(lon)), scale = 0;
    for(auto& v : gg.lats) for(float a : v) maxc = std::max(maxc, (double) std::fabs(a));
    for(auto& v : gg.lons) for(float a : v) maxc = std::max(maxc, (double) std::fabs(a));
    double eps = 2e-6 * maxc + 1e-9;
    std::vector<double> mg((Y > 0 && X > 0) ? (Y) * (X) : 0, -1e99);
    bool clear_in = false, clear_out = true;
    int cy = -1, cx = -1;
    for(int y = 0; y + 1 < Y; y++) for(int x = 0; x + 1 < X; x++) {
        Q p[4] = {{gg.lats[y][x], gg.lons[y][x]}, {gg.lats[y][x + 1], gg.lons[y][x + 1]}, {gg.lats[y + 1][x + 1], gg.lons[y + 1][x + 1]}, {gg.lats[y + 1][x], gg.lons[y + 1][x]}};
        double m = margin(p, Q{lat, lon});
        mg[y * X + x] = m;
        if(m > eps) { clear_in = true; cy = y; cx = x; }
        if(m > -eps) clear_out = false;
    }
    // the nearest node must clearly be a corner of the enclosing cell (it always is unless the cells are very skewed)
    bool expected = clear_in;
    if(clear_in) {
        double best = 1e99;
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) best = std::min(best, ref::chord(lat, lon, gg.lats[y][x], gg.lons[y][x], gg.type));
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++)
            if(ref::chord(lat, lon, gg.lats[y][x], gg.lons[y][x], gg.type) <= best + 2 * ref::tol(gg.type, maxc) && !((y == cy || y == cy + 1) && (x == cx || x == cx + 1)))
                expected = false;
    }
    int Y1, X1, Y2, X2;
    bool got = grid.get_box(lat, lon, Y1, X1, Y2, X2);
    if(expected) REQUIRE(c, got && Y1 == cy && X1 == cx && Y2 == cy + 1 && X2 == cx + 1, "location is inside cell ", cy, ",", cx, " but got ", got, " ", Y1, ",", X1, " - ", Y2, ",", X2);
    if(clear_out) REQUIRE(c, !got, "location is outside the grid but attributed to ", Y1, ",", X1);
    if(got) {
        REQUIRE(c, Y1 >= 0 && X1 >= 0 && Y2 == Y1 + 1 && X2 == X1 + 1 && Y2 < Y && X2 < X, "bad box ", Y1, ",", X1, "-", Y2, ",", X2);
        REQUIRE(c, mg[Y1 * X + X1] > -eps, "box ", Y1, ",", X1, " does not enclose the location (margin ", mg[Y1 * X + X1], ")");
    }
    // the domain of point sets follows the same rule, and keeps their metadata
    if(s.b(0.3)) {
        gen::Geo g = gen::geo(s, r, 0, 6);
        Points p = g.points();
        ivec I = p.get_in_domain_indices(grid), want;
        for(int i = 0; i < g.n(); i++) { int a, b, d, e; if(grid.get_box(g.lats[i], g.lons[i], a, b, d, e)) want.push_back(i); }
        REQUIRE(c, I == want, "get_in_domain_indices ", str(I), " expected ", str(want));
        check_points(c, p.get_in_domain(grid), take(g, I), "get_in_domain");
        c.label("domain");
    }
    c.nontrivial(expected || (clear_out && Y > 1 && X > 1));
    c.label(expected ? "inside" : clear_in ? "inside-skewed" : clear_out ? "outside" : "edge");
}

PROP(P02, refused, 100000, 1000000) {
    gen::Region r = gen::region(s);
    gen::Geo g = gen::geo(s, r, 1, 5);
    if(g.elevs.empty()) g.elevs = vec(g.n(), 1);
    if(g.lafs.empty()) g.lafs = vec(g.n(), 0.5);
    int k = s.i(0, 4);
    int n = g.n();
    auto resize = [&](vec& v) { int m; do { m = s.i(1, n + 2); } while(m == n); v.resize(m, 0); };
    if(k == 0) resize(g.lons);
    else if(k == 1) resize(g.elevs);
    else if(k == 2) resize(g.lafs);
    else if(k == 3) g.lats[s.i(0, n - 1)] = g.type == Cartesian ? MV : s.pick<float>({90.5f, -91.f, MV, 1e20f});
    else g.lons[s.i(0, n - 1)] = s.pick<float>({MV, std::numeric_limits<float>::infinity()});
    LOG(c, gen::show(g));
    bool threw = false;
    try { g.points(); } catch(const std::invalid_argument&) { threw = true; }
    REQUIRE(c, threw, "invalid point set accepted");
    if(k >= 3) {
        threw = false;
        try { Grid q(vec2(1, g.lats), vec2(1, g.lons), vec2(), vec2(), g.type); } catch(const std::invalid_argument&) { threw = true; }
        REQUIRE(c, threw, "invalid grid accepted");
    }
    c.nontrivial();
}
