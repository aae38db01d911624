// P03: distance() / count() products and the distance itself
#include "gen.h"

namespace {
double tol_d(CoordinateType t, double d, double scale) { return (t == Geodetic ? 8 : 2e-6 * scale) + 3e-7 * d; }
void anyloc(Src& s, float& lat, float& lon) {
    lat = s.b(0.15) ? (s.b() ? 90 : -90) : s.f(-90, 90);
    lon = s.b(0.15) ? (s.b() ? 180 : -180) : s.f(-180, 360);
}
}

PROP(P03, metric, 3000000, 60000000) {
    CoordinateType t = s.b(0.2) ? Cartesian : Geodetic;
    float la1, lo1, la2, lo2;
    anyloc(s, la1, lo1);
    int k = s.i(0, 5);
    if(k <= 1) anyloc(s, la2, lo2);
    else if(k == 2) { la2 = la1; lo2 = lo1 > 180 ? lo1 - 360 : lo1 + 360; if(t == Cartesian) lo2 = lo1; }   // the same place
    else if(k == 3) { la2 = -la1; lo2 = lo1 + 180; }    // antipode
    else {
        // very close: a few ulps away
        la2 = la1; lo2 = lo1;
        int a = s.i(0, 5), b = s.i(0, 5);
        for(int i = 0; i < a; i++) la2 = std::nextafter(la2, 0.0f);
        for(int i = 0; i < b; i++) lo2 = std::nextafter(lo2, 400.0f);
    }
    LOG(c, t == Cartesian ? "cartesian " : "geodetic ", la1, ",", lo1, " ", la2, ",", lo2);
    float d = KDTree::calc_distance(la1, lo1, la2, lo2, t), e = KDTree::calc_distance(la2, lo2, la1, lo1, t);
    REQUIRE(c, d >= 0 && std::isfinite(d), "distance is ", d);
    double want = ref::gc(la1, lo1, la2, lo2, t);
    double tol = tol_d(t, want, 400);
    REQUIRE(c, std::fabs(d - want) <= tol, "distance ", d, " expected ", want);
    REQUIRE(c, std::fabs(d - e) <= tol, "asymmetric ", d, " ", e);
    REQUIRE(c, t == Cartesian || d <= ref::PI * ref::R * 1.000001, "more than half the circumference: ", d);
    REQUIRE(c, KDTree::calc_distance(la1, lo1, la1, lo1, t) == 0, "not zero for the same place");
    if(std::fabs(lo1) <= 360 && std::fabs(lo2) <= 720) {
        Point p(la1, lo1, 0, 0, t), q(la2, lo2, 0, 0, t);
        float f = KDTree::calc_distance(p, q);
        REQUIRE(c, f == d, "distance of points ", f, " differs from distance of coordinates ", d);
        float st = KDTree::calc_straight_distance(p, q);
        double wst = ref::chord(la1, lo1, la2, lo2, t);
        REQUIRE(c, std::fabs(st - wst) <= tol_d(t, wst, 400), "straight distance ", st, " expected ", wst);
        REQUIRE(c, st == KDTree::calc_straight_distance(q, p), "straight distance asymmetric");
    }
    float fa = KDTree::calc_distance_fast(la1, lo1, la2, lo2, t), fb = KDTree::calc_distance_fast(la2, lo2, la1, lo1, t);
    REQUIRE(c, fa >= 0 && std::isfinite(fa) && std::fabs(fa - fb) <= 1e-6 * fa + 1e-3, "fast distance ", fa, " ", fb);
    if(t == Cartesian || (want < 20000 && std::fabs(la1) < 60 && std::fabs(la2) < 60))
        REQUIRE(c, std::fabs(fa - want) <= 0.01 * want + (t == Geodetic ? 8 : 1e-3), "fast distance ", fa, " expected ", want);
    c.nontrivial(d > 0);
    c.label(k == 3 ? "antipodal" : k > 3 ? "near-identical" : k == 2 ? "same-place" : "general");
}

PROP(P03, products, 300000, 8000000) {
    gen::Region r = gen::region(s);
    bool igrid = s.b(), ogrid = s.b();
    gen::GeoGrid ig, og;
    gen::Geo in, out;
    if(igrid) { ig = gen::grid(s, r, 1, 5); in = ig.flat(); } else in = gen::geo(s, r, 1, 12);
    if(ogrid) { og = gen::grid(s, r, 1, 4); out = og.flat(); } else out = gen::geo(s, r, 1, 6);
    int num = s.i(1, 5);
    double ext = r.type == Geodetic ? r.dlat * 111e3 : r.dlat;
    float radius = ext * s.u(0, 2);
    LOG(c, "input ", igrid ? gen::show(ig) : gen::show(in), "\noutput ", ogrid ? gen::show(og) : gen::show(out), "\nnum=", num, " radius=", radius);
    vec dist, cnt;
    auto flatten = [&](const vec2& v) {
        vec o;
        REQUIRE(c, (int) v.size() == og.Y(), "output rows");
        for(const vec& a : v) { REQUIRE(c, (int) a.size() == og.X(), "output columns"); o.insert(o.end(), a.begin(), a.end()); }
        return o;
    };
    if(igrid && ogrid) { dist = flatten(gridpp::distance(ig.grid(), og.grid(), num)); cnt = flatten(gridpp::count(ig.grid(), og.grid(), radius)); }
    else if(igrid) { dist = gridpp::distance(ig.grid(), out.points(), num); cnt = gridpp::count(ig.grid(), out.points(), radius); }
    else if(ogrid) { dist = flatten(gridpp::distance(in.points(), og.grid(), num)); cnt = flatten(gridpp::count(in.points(), og.grid(), radius)); }
    else { dist = gridpp::distance(in.points(), out.points(), num); cnt = gridpp::count(in.points(), out.points(), radius); }
    REQUIRE(c, (int) dist.size() == out.n() && (int) cnt.size() == out.n(), "output size");
    bool some = false;
    for(int o = 0; o < out.n(); o++) {
        double scale = 1;
        std::vector<double> d;
        int lo = 0, hi = 0;
        for(int i = 0; i < in.n(); i++) {
            double x = ref::gc(in.lats[i], in.lons[i], out.lats[o], out.lons[o], r.type);
            d.push_back(x);
            double ch = ref::chord(in.lats[i], in.lons[i], out.lats[o], out.lons[o], r.type);
            double t = ref::tol(r.type, 1e4) + 1e-6 * radius;
            if(ch <= radius - t) lo++;
            if(ch <= radius + t) hi++;
        }
        std::sort(d.begin(), d.end());
        double want = d[std::min(num, in.n()) - 1];
        REQUIRE(c, std::fabs(dist[o] - want) <= tol_d(r.type, want, 1e4), "distance at ", o, " is ", dist[o], " expected ", want);
        REQUIRE(c, cnt[o] >= lo && cnt[o] <= hi, "count at ", o, " is ", cnt[o], " expected ", lo, "-", hi);
        if(lo > 0 && lo < in.n()) some = true;
    }
    c.nontrivial(some && in.n() > 1);
    c.label(cat(igrid ? "grid" : "points", "-to-", ogrid ? "grid" : "points"));
}
