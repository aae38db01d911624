// P04: nearest-neighbour downscaling
#include "gen.h"

namespace {
std::vector<std::vector<int> > candidates(const gen::Geo& in, const gen::Geo& out) {
    std::vector<std::vector<int> > r(out.n());
    for(int o = 0; o < out.n(); o++) {
        double best = 1e99, scale = 1;
        std::vector<double> d(in.n());
        for(int i = 0; i < in.n(); i++) {
            d[i] = ref::chord(in.lats[i], in.lons[i], out.lats[o], out.lons[o], in.type);
            best = std::min(best, d[i]);
            if(in.type == Cartesian) scale = std::max(scale, (double) std::max(std::fabs(in.lats[i]), std::fabs(in.lons[i])));
        }
        for(int i = 0; i < in.n(); i++) if(d[i] <= best + 2 * ref::tol(in.type, scale)) r[o].push_back(i);
    }
    return r;
}
}

PROP(P04, nearest, 600000, 12000000) {
    gen::Region r = gen::region(s);
    bool igrid = s.b(), ogrid = s.b(), layers = s.b();
    gen::GeoGrid ig, og;
    gen::Geo in, out;
    if(igrid) { ig = gen::grid(s, r, 1, 7, false); in = ig.flat(); } else in = gen::geo(s, r, 1, 15, false);
    bool self = s.b(0.1) && igrid == ogrid;
    if(self) { og = ig; out = in; }
    else if(ogrid) { og = gen::grid(s, r, 1, 5, false); out = og.flat(); }
    else out = gen::geo(s, r, 0, 10, false);
    int T = layers ? s.i(1, 4) : 1, N = in.n();
    double pm = gen::pmiss(s);
    vec2 flat;
    for(int t = 0; t < T; t++) flat.push_back(gen::values(s, N, -50, 50, pm));
    LOG(c, "input ", igrid ? gen::show(ig) : gen::show(in), "\noutput ", ogrid ? gen::show(og) : gen::show(out), "\nvalues ", str(flat));
    auto shape2 = [&](const vec& v) { vec2 o(ig.Y(), vec(ig.X())); for(int i = 0; i < N; i++) o[i / ig.X()][i % ig.X()] = v[i]; return o; };
    auto shape3 = [&](const vec2& v) { vec3 o; for(const vec& a : v) o.push_back(shape2(a)); return o; };
    auto flat2 = [&](const vec2& v) {
        vec o;
        REQUIRE(c, (int) v.size() == og.Y(), "output has ", v.size(), " rows");
        for(const vec& a : v) { REQUIRE(c, (int) a.size() == og.X(), "output has ", a.size(), " columns"); o.insert(o.end(), a.begin(), a.end()); }
        return o;
    };
    vec2 res;
    std::string which;
    vec2 via;    // through the generic entry point
    if(igrid && ogrid) {
        Grid a = ig.grid(), b = og.grid();
        if(layers) {
            for(const vec2& v : gridpp::nearest(a, b, shape3(flat))) res.push_back(flat2(v));
            for(const vec2& v : gridpp::downscaling(a, b, shape3(flat), gridpp::Nearest)) via.push_back(flat2(v));
        }
        else { res.push_back(flat2(gridpp::nearest(a, b, shape2(flat[0])))); via.push_back(flat2(gridpp::downscaling(a, b, shape2(flat[0]), gridpp::Nearest))); }
    }
    else if(igrid) {
        Grid a = ig.grid(); Points b = out.points();
        if(layers) { res = gridpp::nearest(a, b, shape3(flat)); via = gridpp::downscaling(a, b, shape3(flat), gridpp::Nearest); }
        else { res.push_back(gridpp::nearest(a, b, shape2(flat[0]))); via.push_back(gridpp::downscaling(a, b, shape2(flat[0]), gridpp::Nearest)); }
    }
    else if(ogrid) {
        Points a = in.points(); Grid b = og.grid();
        if(layers) for(const vec2& v : gridpp::nearest(a, b, flat)) res.push_back(flat2(v));
        else res.push_back(flat2(gridpp::nearest(a, b, flat[0])));
    }
    else {
        Points a = in.points(), b = out.points();
        if(layers) res = gridpp::nearest(a, b, flat);
        else res.push_back(gridpp::nearest(a, b, flat[0]));
    }
    REQUIRE(c, (int) res.size() == T, "output has ", res.size(), " layers, expected ", T);
    if(igrid) REQUIRE(c, gen::same_vec(res, via), "generic downscaling differs: ", str(via), " vs ", str(res));
    std::vector<std::vector<int> > cand = candidates(in, out);
    bool multi = false;
    for(int t = 0; t < T; t++) REQUIRE(c, (int) res[t].size() == out.n(), "output size");
    std::set<int> used;
    for(int o = 0; o < out.n(); o++) {
        // one and the same location must explain every layer
        bool found = false;
        for(int i : cand[o]) {
            bool all = true;
            for(int t = 0; t < T; t++) all = all && pbt::same(res[t][o], flat[t][i]);
            if(all) { found = true; used.insert(i); break; }
        }
        vec got;
        for(int t = 0; t < T; t++) got.push_back(res[t][o]);
        REQUIRE(c, found, "output ", o, " is ", str(got), ", not the values at the closest location(s) ", str(cand[o]));
    }
    c.nontrivial(used.size() > 1);
    c.label(cat(igrid ? "grid" : "points", "-to-", ogrid ? "grid" : "points", layers ? "-layers" : ""));
    if(r.type == Cartesian) c.label("cartesian");
    if(self) c.label("onto-itself");
}
