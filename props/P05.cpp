// P05: bilinear downscaling
#include "downscale_ref.h"

namespace {
void run(Src& s, Ctx& c, const gen::Region& r, const gen::GeoGrid& ig, bool general) {
    bool ogrid = s.b(), layers = s.b(0.4);
    gen::GeoGrid og;
    gen::Geo out;
    if(ogrid) { og = gen::grid(s, r, 1, 4, false); out = og.flat(); } else out = gen::geo(s, r, 1, 8, false);
    // some outputs exactly on nodes or on the middle of edges
    if(!ogrid) for(int i = 0; i < out.n(); i++) if(s.b(0.15)) { int y = s.i(0, ig.Y() - 1), x = s.i(0, ig.X() - 1); out.lats[i] = ig.lats[y][x]; out.lons[i] = ig.lons[y][x]; }
    int T = layers ? s.i(1, 3) : 1;
    double pm = s.b(0.3) ? 0.15 : 0;
    vec3 f;
    for(int t = 0; t < T; t++) f.push_back(gen::values2(s, ig.Y(), ig.X(), -20, 20, pm));
    LOG(c, "input ", gen::show(ig), "\noutput ", ogrid ? gen::show(og) : gen::show(out), "\nvalues ", str(f));
    Grid a = ig.grid();
    vec2 res;
    auto flat2 = [&](const vec2& v) {
        vec o;
        REQUIRE(c, (int) v.size() == og.Y(), "output has ", v.size(), " rows");
        for(const vec& q : v) { REQUIRE(c, (int) q.size() == og.X(), "output has ", q.size(), " columns"); o.insert(o.end(), q.begin(), q.end()); }
        return o;
    };
    Points op = out.points();
    if(ogrid) {
        Grid b = og.grid();
        if(layers) {
            vec3 v = gridpp::bilinear(a, b, f);
            REQUIRE(c, gen::same_vec(v, gridpp::downscaling(a, b, f, gridpp::Bilinear)), "generic downscaling differs");
            for(const vec2& q : v) res.push_back(flat2(q));
        }
        else {
            vec2 v = gridpp::bilinear(a, b, f[0]);
            REQUIRE(c, gen::same_vec(v, gridpp::downscaling(a, b, f[0], gridpp::Bilinear)), "generic downscaling differs");
            res.push_back(flat2(v));
        }
    }
    else {
        if(layers) { res = gridpp::bilinear(a, op, f); REQUIRE(c, gen::same_vec(res, gridpp::downscaling(a, op, f, gridpp::Bilinear)), "generic downscaling differs"); }
        else { res.push_back(gridpp::bilinear(a, op, f[0])); REQUIRE(c, gen::same_vec(res[0], gridpp::downscaling(a, op, f[0], gridpp::Bilinear)), "generic downscaling differs"); }
    }
    REQUIRE(c, (int) res.size() == T, "layers");
    int inside = 0;
    for(int t = 0; t < T; t++) {
        REQUIRE(c, (int) res[t].size() == out.n(), "output size");
        // grid or points, layer or single field: same numbers
        vec alone = gridpp::bilinear(a, op, f[t]);
        REQUIRE(c, gen::same_vec(alone, res[t]), "points/single field gives ", str(alone), " but got ", str(res[t]));
        for(int o = 0; o < out.n(); o++) {
            ds::Where w = ds::where(ig, out.lats[o], out.lons[o]);
            REQUIRE(c, ds::ok_bilinear(w, ig, f[t], res[t][o]), "output ", o, " layer ", t, " at ", out.lats[o], ",", out.lons[o], " is ", res[t][o], ", expected ", ds::explain(w, ig, f[t]));
            if(w.clear_in && !w.skewed) inside++;
        }
    }
    c.nontrivial(inside > 0);
    c.label(inside == 0 ? "all-outside" : "some-inside");
    if(ig.type == Cartesian) c.label("cartesian");
    if(pm > 0) c.label("missing");
    c.label(ogrid ? "to-grid" : "to-points");
}
}

PROP(P05, parallelograms, 400000, 8000000) {
    gen::Region r = gen::region(s);
    gen::GeoGrid ig = gen::grid(s, r, 1, 6, false);
    run(s, c, r, ig, false);
}
PROP(P05, quadrilaterals, 400000, 8000000) {
    gen::Region r = gen::region(s);
    gen::GeoGrid ig = gen::grid(s, r, 2, 5, false);
    ds::distort(s, ig, 0.2);
    run(s, c, r, ig, true);
}
