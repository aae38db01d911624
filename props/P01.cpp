// P01: neighbour searches equal exhaustive search
#include "gen.h"

namespace {
struct Model {
    gen::Geo g;
    double scale;
    std::vector<double> d;   // chord distance of each location to the query
    Model(const gen::Geo& g, float lat, float lon) : g(g) {
        scale = std::max(std::fabs(lat), std::fabs(lon));
        for(int i = 0; i < g.n(); i++) {
            d.push_back(ref::chord(g.lats[i], g.lons[i], lat, lon, g.type));
            if(g.type == Cartesian) scale = std::max(scale, (double) std::max(std::fabs(g.lats[i]), std::fabs(g.lons[i])));
        }
    }
    double tol() const { return ref::tol(g.type, scale); }
    bool exact(int i, float lat, float lon) const { return g.lats[i] == lat && g.lons[i] == lon; }
};

void query(Src& s, const gen::Region& r, const gen::Geo& g, float& lat, float& lon) {
    if(g.n() > 0 && s.b(0.25)) { int k = s.i(0, g.n() - 1); lat = g.lats[k]; lon = g.lons[k]; }
    else gen::loc(s, r, lat, lon, 1.2);
    if(r.type == Geodetic && s.b(0.1)) lon += s.b() ? 360 : -360;   // same place, other convention
}

void check_unique(Ctx& c, const ivec& I, int n, const char* what) {
    std::set<int> seen;
    for(int i : I) {
        REQUIRE(c, i >= 0 && i < n, what, ": index out of range ", i);
        REQUIRE(c, seen.insert(i).second, what, ": index ", i, " returned twice");
    }
}

void check_within(Ctx& c, const Model& m, const ivec& I, float lat, float lon, double radius, bool match, const char* what) {
    check_unique(c, I, m.g.n(), what);
    std::vector<char> in(m.g.n(), 0);
    for(int i : I) in[i] = 1;
    for(int i = 0; i < m.g.n(); i++) {
        double t = m.tol() + 1e-6 * radius;
        if(!match && m.exact(i, lat, lon)) {
            REQUIRE(c, !in[i], what, ": exact match ", i, " must be excluded");
            continue;
        }
        if(!match && m.d[i] <= t) continue;      // may or may not coincide after rounding
        if(m.d[i] <= radius - t) REQUIRE(c, in[i], what, ": location ", i, " at distance ", m.d[i], " is within radius ", radius, " but not returned");
        if(m.d[i] >= radius + t) REQUIRE(c, !in[i], what, ": location ", i, " at distance ", m.d[i], " is outside radius ", radius, " but returned");
    }
}

void check_closest(Ctx& c, const Model& m, const ivec& I, float lat, float lon, int num, bool match, const char* what) {
    check_unique(c, I, m.g.n(), what);
    int sure = 0, maybe = 0;       // candidates
    std::vector<char> in(m.g.n(), 0);
    for(int i : I) in[i] = 1;
    for(int i = 0; i < m.g.n(); i++) {
        if(!match && m.exact(i, lat, lon)) {
            REQUIRE(c, !in[i], what, ": exact match ", i, " must be excluded");
            continue;
        }
        if(!match && m.d[i] <= m.tol()) { maybe++; continue; }
        sure++;
    }
    int n = I.size();
    REQUIRE(c, n >= std::min(num, sure) && n <= std::min(num, sure + maybe), what, ": returned ", n, " of ", num, " with ", sure, "+", maybe, " candidates");
    // nothing left out may be clearly closer than something returned
    double worst = 0;
    for(int i : I) worst = std::max(worst, m.d[i]);
    for(int i = 0; i < m.g.n(); i++) {
        if(in[i]) continue;
        if(!match && (m.exact(i, lat, lon) || m.d[i] <= m.tol())) continue;
        if(n > 0 && n == num) REQUIRE(c, m.d[i] >= worst - 2 * m.tol(), what, ": left out location ", i, " at ", m.d[i], " while returning one at ", worst);
    }
}
double pick_radius(Src& s, const Model& m, const gen::Region& r) {
    double ext = r.type == Geodetic ? r.dlat * 111e3 : r.dlat;
    int k = s.draw(5);
    if(k == 0) return ext * 0.5;
    if(k == 1) return ext * s.u(0, 3);
    if(k == 2 && m.g.n() > 0) return m.d[s.i(0, m.g.n() - 1)] * (s.b() ? 1.01 : 0.99);
    if(k == 3) return s.b() ? 2.1 * ref::R : 0;
    return ext * 0.1;
}
}

PROP(P01, points, 3000000, 60000000) {
    gen::Region r = gen::region(s);
    gen::Geo g = gen::geo(s, r, 0, s.b(0.1) ? 60 : 12, false);
    float lat, lon;
    query(s, r, g, lat, lon);
    LOG(c, gen::show(g), " query=", lat, ",", lon);
    Model m(g, lat, lon);
    Points p = g.points();
    bool match = !s.b(0.4);
    double radius = (float) pick_radius(s, m, r);
    int num = s.i(1, g.n() + 2);
    LOG(c, "match=", match, " radius=", radius, " num=", num);
    ivec I = p.get_neighbours(lat, lon, radius, match);
    check_within(c, m, I, lat, lon, radius, match, "get_neighbours");
    vec dist;
    ivec J = p.get_neighbours_with_distance(lat, lon, radius, dist, match);
    check_within(c, m, J, lat, lon, radius, match, "get_neighbours_with_distance");
    REQUIRE(c, dist.size() == J.size(), "distance count");
    REQUIRE(c, std::set<int>(I.begin(), I.end()) == std::set<int>(J.begin(), J.end()), "with/without distance differ");
    for(size_t k = 0; k < J.size(); k++) REQUIRE(c, std::fabs(dist[k] - m.d[J[k]]) <= m.tol() + 1e-5 * m.d[J[k]], "distance of ", J[k], " is ", dist[k], " expected ", m.d[J[k]]);
    REQUIRE(c, p.get_num_neighbours(lat, lon, radius, match) == (int) I.size(), "get_num_neighbours");
    ivec K = p.get_closest_neighbours(lat, lon, num, match);
    check_closest(c, m, K, lat, lon, num, match, "get_closest_neighbours");
    int nn = p.get_nearest_neighbour(lat, lon, match);
    ivec N;
    if(nn >= 0) N.push_back(nn);
    check_closest(c, m, N, lat, lon, 1, match, "get_nearest_neighbour");
    // the bare tree answers the same questions
    KDTree t(g.lats, g.lons, g.type);
    check_within(c, m, t.get_neighbours(lat, lon, radius, match), lat, lon, radius, match, "KDTree::get_neighbours");
    check_closest(c, m, t.get_closest_neighbours(lat, lon, num, match), lat, lon, num, match, "KDTree::get_closest_neighbours");
    int tn = t.get_nearest_neighbour(lat, lon, match);
    check_closest(c, m, tn >= 0 ? ivec(1, tn) : ivec(), lat, lon, 1, match, "KDTree::get_nearest_neighbour");
    vec tdist;
    ivec T = t.get_neighbours_with_distance(lat, lon, radius, tdist, match);
    check_within(c, m, T, lat, lon, radius, match, "KDTree::get_neighbours_with_distance");
    REQUIRE(c, tdist.size() == T.size(), "distance count of the tree");
    for(size_t k = 0; k < T.size(); k++) REQUIRE(c, std::fabs(tdist[k] - m.d[T[k]]) <= m.tol() + 1e-5 * m.d[T[k]], "distance of ", T[k], " from the tree is ", tdist[k], " expected ", m.d[T[k]]);
    KDTree t2(t), t3;
    t3 = t;
    REQUIRE(c, t2.get_neighbours(lat, lon, radius, match).size() == I.size() && t3.get_num_neighbours(lat, lon, radius, match) == (int) I.size(), "copies answer differently");
    c.nontrivial(g.n() >= 2 && !I.empty() && (int) I.size() < g.n());
    c.label(r.type == Cartesian ? "cartesian" : (r.lat0 > 80 || r.lat0 < -80) ? "polar" : std::fabs(r.lon0) == 180 ? "dateline" : "geodetic");
    c.label(I.empty() ? "none-in-radius" : (int) I.size() == g.n() ? "all-in-radius" : "some-in-radius");
    if(!match) c.label("exclude-match");
}

PROP(P01, grids, 2000000, 40000000) {
    gen::Region r = gen::region(s);
    gen::GeoGrid gg = gen::grid(s, r, 1, 6, false);
    gen::Geo g = gg.flat();
    int X = gg.X();
    float lat, lon;
    query(s, r, g, lat, lon);
    LOG(c, gen::show(gg), " query=", lat, ",", lon);
    Model m(g, lat, lon);
    Grid grid = gg.grid();
    bool match = !s.b(0.4);
    double radius = (float) pick_radius(s, m, r);
    int num = s.i(1, g.n() + 2);
    LOG(c, "match=", match, " radius=", radius, " num=", num);
    auto flat = [&](const ivec2& I) {
        ivec o;
        for(const ivec& k : I) {
            REQUIRE(c, k.size() == 2 && k[0] >= 0 && k[0] < gg.Y() && k[1] >= 0 && k[1] < X, "bad grid index ", str(k));
            o.push_back(k[0] * X + k[1]);
        }
        return o;
    };
    ivec I = flat(grid.get_neighbours(lat, lon, radius, match));
    check_within(c, m, I, lat, lon, radius, match, "get_neighbours");
    vec dist;
    ivec J = flat(grid.get_neighbours_with_distance(lat, lon, radius, dist, match));
    check_within(c, m, J, lat, lon, radius, match, "get_neighbours_with_distance");
    REQUIRE(c, dist.size() == J.size(), "distance count");
    for(size_t k = 0; k < J.size(); k++) REQUIRE(c, std::fabs(dist[k] - m.d[J[k]]) <= m.tol() + 1e-5 * m.d[J[k]], "distance of ", J[k], " is ", dist[k], " expected ", m.d[J[k]]);
    REQUIRE(c, grid.get_num_neighbours(lat, lon, radius, match) == (int) I.size(), "get_num_neighbours");
    ivec K = flat(grid.get_closest_neighbours(lat, lon, num, match));
    check_closest(c, m, K, lat, lon, num, match, "get_closest_neighbours");
    ivec nn = grid.get_nearest_neighbour(lat, lon, match);
    ivec N;
    if(nn.size()) N = flat(ivec2(1, nn));
    check_closest(c, m, N, lat, lon, 1, match, "get_nearest_neighbour");
    Grid copy(grid);
    REQUIRE(c, flat(copy.get_neighbours(lat, lon, radius, match)).size() == I.size(), "copy answers differently");
    c.nontrivial(g.n() >= 2 && !I.empty() && (int) I.size() < g.n());
    c.label(gg.Y() == X ? "square" : "non-square");
    c.label(I.empty() ? "none-in-radius" : (int) I.size() == g.n() ? "all-in-radius" : "some-in-radius");
}

// Exactly representable Cartesian lattices: distances are exact, so no tolerance around the radius is needed
PROP(P01, exact_lattice, 1500000, 20000000) {
    gen::Geo g;
    g.type = Cartesian;
    int n = s.i(1, 12);
    for(int i = 0; i < n; i++) { g.lats.push_back(s.i(-10, 10)); g.lons.push_back(s.i(-10, 10)); }
    float lat = s.i(-10, 10), lon = s.i(-10, 10);
    int radius = s.b() ? s.i(0, 15) : s.pick({5, 10, 13, 0});
    if(s.b(0.7)) {
        // some locations exactly on the circle (axis-aligned, or a Pythagorean triple)
        static const int tri[][3] = {{3, 4, 5}, {6, 8, 10}, {5, 12, 13}};
        for(int i = 0; i < n; i++) if(s.b(0.4)) {
            int a = radius, b = 0;
            for(auto& t : tri) if(t[2] == radius && s.b(0.6)) { a = t[0]; b = t[1]; if(s.b()) std::swap(a, b); }
            else if(t[2] == radius && s.b()) std::swap(a, b);
            g.lats[i] = lat + (s.b() ? a : -a);
            g.lons[i] = lon + (s.b() ? b : -b);
        }
    }
    bool match = !s.b(0.3);
    LOG(c, gen::show(g), " query=", lat, ",", lon, " radius=", radius, " match=", match);
    ivec I = g.points().get_neighbours(lat, lon, radius, match);
    std::set<int> got(I.begin(), I.end());
    REQUIRE(c, got.size() == I.size(), "duplicates");
    bool boundary = false;
    for(int i = 0; i < n; i++) {
        int d2 = (int) ((g.lats[i] - lat) * (g.lats[i] - lat) + (g.lons[i] - lon) * (g.lons[i] - lon));
        bool want = d2 <= radius * radius && (match || d2 > 0);
        // Exactly on the radius is unspecified (the tests fix it to "outside" on an axis, while the filter says "inside")
        if(d2 == radius * radius && (d2 > 0 || match)) { boundary = true; continue; }
        REQUIRE(c, want == (got.count(i) > 0), "location ", i, " squared distance ", d2, " radius ", radius, " returned=", got.count(i));
    }
    c.nontrivial(!got.empty() && (int) got.size() < n);
    if(boundary) c.label("on-the-radius");
}
