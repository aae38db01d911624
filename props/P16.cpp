// P16: structure functions
#include "structures.h"

namespace {
Point point(Src& s, const gen::Region& r, const Point* near, double size) {
    float la, lo;
    int k = near ? s.draw(4) : 1;
    if(k == 0) { la = near->lat; lo = near->lon; }
    else if(k == 1) gen::loc(s, r, la, lo);
    else {
        // somewhere around the other point, closer or further than the length scale
        double f = (r.type == Cartesian ? 1 : 1 / 111000.0) * size * s.pick<double>({1, 0.1, 3, 10});
        double a = s.u(-1, 1), b = s.u(-1, 1);
        la = gen::clamp_lat(near->lat + a * f, r);
        lo = (float) (near->lon + b * f);
    }
    float e = s.b(0.15) ? MV : s.f(0, 1000), w = s.b(0.15) ? MV : s.f(0, 1);
    if(near && s.b(0.3)) e = near->elev;
    if(near && s.b(0.3)) w = near->laf;
    return Point(la, lo, e, w, r.type);
}
std::string show(const Point& p) { return cat("(", p.lat, ",", p.lon, " elev ", p.elev, " laf ", p.laf, ")"); }
const double kTol = 5e-5;
}
PROP(P16, closed_form, 1000000, 20000000) {
    gen::Region r = gen::region(s);
    sf::Opt o;
    o.size = sf::region_size(r);
    o.positive_h = false;
    sf::MP m = sf::structure(s, r, o);
    double size = m->h > 0 ? m->h : o.size;
    Point p = point(s, r, nullptr, size), q = point(s, r, &p, size);
    LOG(c, m->show(), "\np ", show(p), " q ", show(q));
    bool sure = true, sureb = true, surel = true;
    double want = m->corr(p, q, sure), wantb = m->corr_background(p, q, sureb), wantl = m->loc(p, surel);
    float got = m->p->corr(p, q), gotb = m->p->corr_background(p, q), gotl = m->p->localization_distance(p);
    REQUIRE(c, ref::ok(got) && got >= 0 && got <= 1.00001, "correlation ", got, " is not in [0,1]");
    REQUIRE(c, ref::ok(gotb) && gotb >= 0 && gotb <= 1.00001, "background correlation ", gotb, " is not in [0,1]");
    if(sure) REQUIRE(c, feq(got, want, kTol, 1e-3), "correlation is ", got, " but the closed form gives ", want);
    else REQUIRE(c, feq(got, want, kTol, 1e-3) || got == 0 || want == 0 || !m->constant(), "correlation is ", got, " but the closed form gives ", want);
    if(sureb && sure) REQUIRE(c, feq(gotb, wantb, kTol, 1e-3), "background correlation is ", gotb, " but the closed form gives ", wantb);
    if(surel) REQUIRE(c, feq(gotl, wantl, 1e-6, 2e-4), "localization distance is ", gotl, " but the closed form gives ", wantl);
    double d = sf::Model::hdist(p, q);
    REQUIRE(c, d <= gotl * 1.0002 + 1e-3 || got == 0 || gotl < 0, "correlation is ", got, " at distance ", d, ", beyond the localization distance ", gotl);
    if(m->constant()) {
        float rev = m->p->corr(q, p);
        REQUIRE(c, feq(rev, got, 1e-6, 1e-6) || !sure, "not symmetric: ", got, " and ", rev);
    }
    REQUIRE(c, feq(m->p->corr(p, p), 1, 1e-5, 0), "correlation of a point with itself is ", m->p->corr(p, p));
    c.nontrivial(want > 0.01 && want < 0.99);
    c.label(sf::kname(m->kind));
    if(want == 0) c.label("zero");
    if(m->spatial) c.label("spatial");
}
PROP(P16, vectors_and_copies, 500000, 10000000) {
    gen::Region r = gen::region(s);
    sf::Opt o;
    o.size = sf::region_size(r);
    o.positive_h = false;
    sf::MP m = sf::structure(s, r, o);
    double size = m->h > 0 ? m->h : o.size;
    Point p = point(s, r, nullptr, size);
    std::vector<Point> qs;
    int n = s.i(0, 6);
    for(int i = 0; i < n; i++) qs.push_back(point(s, r, &p, size));
    LOG(c, m->show(), "\np ", show(p));
    for(auto& q : qs) LOG(c, "q ", show(q));
    StructureFunctionPtr copy = m->p->clone();
    StructureFunctionPtr copy2 = copy->clone();
    vec v = m->p->corr(p, qs), vb = m->p->corr_background(p, qs), w = copy2->corr(p, qs), wb = copy2->corr_background(p, qs);
    REQUIRE(c, (int) v.size() == n && (int) vb.size() == n && (int) w.size() == n && (int) wb.size() == n, "sizes of the results");
    bool some = false;
    for(int i = 0; i < n; i++) {
        float a = m->p->corr(p, qs[i]), b = m->p->corr_background(p, qs[i]);
        REQUIRE(c, feq(a, v[i], 1e-7, 1e-6), "vector request gives ", v[i], " for element ", i, ", scalar request ", a);
        REQUIRE(c, feq(b, vb[i], 1e-7, 1e-6), "vector background request gives ", vb[i], " for element ", i, ", scalar request ", b);
        REQUIRE(c, feq(a, w[i], 1e-7, 1e-6) && feq(b, wb[i], 1e-7, 1e-6), "the copy gives ", w[i], " and ", wb[i], " for element ", i, ", the original ", a, " and ", b);
        REQUIRE(c, feq(a, copy2->corr(p, qs[i]), 1e-7, 1e-6) && feq(b, copy2->corr_background(p, qs[i]), 1e-7, 1e-6), "the scalar copy differs for element ", i);
        some |= a > 0.01 && a < 0.99;
    }
    REQUIRE(c, pbt::same(m->p->localization_distance(p), copy->localization_distance(p)), "localization distance of the copy: ", copy->localization_distance(p), " original ", m->p->localization_distance(p));
    c.nontrivial(some && n >= 2);
    c.label(sf::kname(m->kind));
}
PROP(P16, monotone, 500000, 10000000) {
    gen::Region r = gen::region(s);
    sf::Opt o;
    o.size = sf::region_size(r);
    o.spatial = false;
    o.cross = false;
    sf::MP m = sf::structure(s, r, o);
    Point p = point(s, r, nullptr, o.size);
    if(!ref::ok(p.elev)) p.elev = 500;
    if(!ref::ok(p.laf)) p.laf = 0.5;
    // two locations, the second further away in one of the senses
    Point a = point(s, r, &p, m->h > 0 ? m->h : o.size), b = a;
    if(!ref::ok(a.elev)) a.elev = 600;
    if(!ref::ok(a.laf)) a.laf = 0.25;
    int what = s.draw(3);
    if(what == 0) {
        Point t = point(s, r, &p, m->h > 0 ? m->h : o.size);
        t.elev = a.elev; t.laf = a.laf;
        b = t;
    }
    else { b = a; if(what == 1) b.elev = s.f(-500, 1500); else b.laf = s.f(0, 1); }
    if(what == 0) b.elev = a.elev, b.laf = a.laf;
    if(what == 1) b.laf = a.laf;
    double da = what == 0 ? sf::Model::hdist(p, a) : std::fabs(double(p.elev) - a.elev), db = what == 0 ? sf::Model::hdist(p, b) : std::fabs(double(p.elev) - b.elev);
    if(what == 2) { da = std::fabs(double(p.laf) - a.laf); db = std::fabs(double(p.laf) - b.laf); }
    LOG(c, m->show(), "\np ", show(p), " a ", show(a), " b ", show(b));
    float ca = m->p->corr(p, a), cb = m->p->corr(p, b);
    if(da <= db) REQUIRE(c, cb <= ca + 1e-5, "further away but more correlated: ", ca, " at ", da, ", ", cb, " at ", db);
    if(db <= da) REQUIRE(c, ca <= cb + 1e-5, "further away but more correlated: ", cb, " at ", db, ", ", ca, " at ", da);
    c.nontrivial(da != db && (ca > 0.01 || cb > 0.01) && ca != cb);
    c.label(what == 0 ? "horizontal" : what == 1 ? "elevation" : "land fraction");
}
PROP(P16, refused, 40000, 800000) {
    float h = s.f(0, 1000), v = s.f(0, 100), w = s.f(0, 1), hm = s.b() ? MV : s.f(0, 3000);
    int bad = s.draw(5);
    float x = s.pick<float>({-1, NAN, -0.5f, -1000});
    if(bad == 1) h = x; if(bad == 2) v = x; if(bad == 3) w = x; if(bad == 4) hm = -s.f(1, 100);
    int k = s.draw(6);
    LOG(c, "kind ", k, " h ", h, " v ", v, " w ", w, " hmax ", hm);
    bool threw = false;
    try {
        if(k == 0) BarnesStructure(h, v, w, hm); else if(k == 1) SoarStructure(h, v, w, hm); else if(k == 2) ToarStructure(h, v, w, hm);
        else if(k == 3) PowerlawStructure(h, v, w, hm); else if(k == 4) LinearStructure(h, v, w, hm); else { CressmanStructure(h, v, w); if(bad == 4) { BarnesStructure b(1000); CrossValidation(b, hm); } }
    }
    catch(const std::exception& e) { threw = true; }
    REQUIRE(c, threw == (bad != 0), bad ? "invalid scale was accepted" : "valid scales were refused");
    c.nontrivial(bad != 0);
}

// Static correlations between points and knots
PROP(P16, static_correlations, 60000, 1500000) {
    gen::Region r = gen::region(s);
    gen::Geo p = gen::geo(s, r, 1, 6), k = gen::geo(s, r, 1, 10);
    sf::Opt o;
    o.size = sf::region_size(r) * s.pick<double>({1, 0.3, 3});
    o.linear = false;
    sf::MP m = sf::structure(s, r, o);
    int maxp = s.b() ? 0 : s.i(1, 6);
    LOG(c, m->show(), "\npoints ", gen::show(p), "\nknots ", gen::show(k), "\nmax_points ", maxp);
    Points P = p.points(), K = k.points();
    vec2 out = gridpp::staticcorr_points(P, K, *m->p, maxp);
    REQUIRE(c, (int) out.size() == p.n(), "rows");
    for(int i = 0; i < p.n(); i++) {
        REQUIRE(c, (int) out[i].size() == k.n(), "columns");
        bool sure = true;
        Point q = P.get_point(i);
        double L = m->loc(q, sure), scale = 1;
        std::vector<double> want(k.n(), 0), all;
        for(int j = 0; j < k.n(); j++) {
            double d = ref::chord(p.lats[i], p.lons[i], k.lats[j], k.lons[j], p.type);
            scale = std::max(scale, std::max((double) std::fabs(k.lats[j]), (double) std::fabs(k.lons[j])));
            if(std::fabs(d - L) <= 2 * ref::tol(p.type, scale) + 2e-4 * L) sure = false;
            if(d <= L) want[j] = m->corr_background(q, K.get_point(j), sure);
            if(want[j] > 0) all.push_back(want[j]);
        }
        if(!sure) { c.label("unsure"); continue; }
        std::sort(all.rbegin(), all.rend());
        double limit = maxp > 0 && (int) all.size() > maxp ? all[maxp - 1] : 0;
        bool limited = limit > 0;
        int used = 0;
        for(int j = 0; j < k.n(); j++) {
            used += out[i][j] != 0;
            if(limited && std::fabs(want[j] - limit) <= 2 * kTol + 2e-3 * limit) continue;       // about as good as the last one used
            double w = want[j] >= limit ? want[j] : 0;
            REQUIRE(c, feq(out[i][j], w, kTol, 1e-3), "correlation of point ", i, " with knot ", j, " is ", out[i][j], " but it should be ", w);
            c.nontrivial(w > 0.01 && w < 0.99);
        }
        if(maxp > 0) REQUIRE(c, used <= maxp, "point ", i, " is correlated with ", used, " knots, but at most ", maxp, " are allowed");
        c.label(limited ? "limited" : "all");
    }
}
