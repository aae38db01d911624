// P06: simple and full gradient downscaling
#include "downscale_ref.h"

namespace {
// float rounding of v + g * (a - b)
double slack(double v, double g, double a, double b) { double r = 1e-5 * (std::fabs(v) + std::fabs(g) * (std::fabs(a) + std::fabs(b))) + 1e-5; return ref::ok(r) ? r : 1e-5; }

struct Case {
    gen::GeoGrid ig, og;
    gen::Geo out;           // output locations, also when the output is a grid
    bool ogrid;
    Downscaler d;
    Grid a; Points op;
};
Case setup(Src& s) {
    Case k;
    gen::Region r = gen::region(s);
    k.ig = gen::grid(s, r, 1, 5, true);
    k.ogrid = s.b();
    if(k.ogrid) { k.og = gen::grid(s, r, 1, 4, true); k.out = k.og.flat(); } else k.out = gen::geo(s, r, 1, 8, true);
    k.d = s.b() ? gridpp::Bilinear : gridpp::Nearest;
    k.a = k.ig.grid();
    k.op = k.out.points();
    return k;
}
vec flat(Ctx& c, const Case& k, const vec2& v) {
    vec o;
    REQUIRE(c, (int) v.size() == k.og.Y(), "output has ", v.size(), " rows");
    for(const vec& q : v) { REQUIRE(c, (int) q.size() == k.og.X(), "output has ", q.size(), " columns"); o.insert(o.end(), q.begin(), q.end()); }
    return o;
}
vec2 missing(const gen::GeoGrid& g) { return vec2(g.Y(), vec(g.X(), MV)); }
}

PROP(P06, simple, 300000, 6000000) {
    Case k = setup(s);
    bool layers = s.b(0.5);
    int T = layers ? s.i(1, 3) : 1;
    vec3 f;
    double pm = gen::pmiss(s);
    for(int t = 0; t < T; t++) f.push_back(gen::values2(s, k.ig.Y(), k.ig.X(), -20, 20, pm));
    float g = s.pick<float>({0, -0.0065f, 0.01f, 1.0f}) * (s.b(0.2) ? s.f(-2, 2) : 1);
    LOG(c, "input ", gen::show(k.ig), "\noutput ", k.ogrid ? gen::show(k.og) : gen::show(k.out), "\nvalues ", str(f), " gradient ", g, " downscaler ", (int) k.d);
    vec2 res;
    if(k.ogrid) {
        if(layers) for(const vec2& q : gridpp::simple_gradient(k.a, k.og.grid(), f, g, k.d)) res.push_back(flat(c, k, q));
        else res.push_back(flat(c, k, gridpp::simple_gradient(k.a, k.og.grid(), f[0], g, k.d)));
    }
    else if(layers) res = gridpp::simple_gradient(k.a, k.op, f, g, k.d);
    else res.push_back(gridpp::simple_gradient(k.a, k.op, f[0], g, k.d));
    REQUIRE(c, (int) res.size() == T, "layers");
    vec de = gridpp::downscaling(k.a, k.op, k.ig.elevs.empty() ? missing(k.ig) : k.ig.elevs, k.d);
    bool diff = false;
    for(int t = 0; t < T; t++) {
        vec dv = gridpp::downscaling(k.a, k.op, f[t], k.d);
        REQUIRE(c, res[t].size() == (size_t) k.out.n(), "output size");
        for(int o = 0; o < k.out.n(); o++) {
            double oe = k.out.elevs.empty() ? NAN : k.out.elevs[o];
            double want = (double) dv[o] + g * (oe - de[o]);
            REQUIRE(c, feq(res[t][o], want, slack(dv[o], g, oe, de[o]), 0), "output ", o, " layer ", t, ": ", res[t][o], " but nearest/bilinear value ", dv[o], " + ", g, " * (", oe, " - ", de[o], ") = ", want);
            if(ref::ok(want) && oe != de[o] && g != 0) diff = true;
        }
    }
    c.nontrivial(diff);
    c.label(k.d == gridpp::Bilinear ? "bilinear" : "nearest");
    if(layers) c.label("layers");
}

PROP(P06, full, 300000, 6000000) {
    Case k = setup(s);
    bool layers = s.b(0.5);
    int T = layers ? s.i(1, 3) : 1;
    bool use_e = s.b(0.8), use_l = s.b(0.6);
    vec3 f, ge, gl;
    double pm = gen::pmiss(s), pg = s.b(0.3) ? 0.2 : 0;
    int Y = k.ig.Y(), X = k.ig.X();
    for(int t = 0; t < T; t++) {
        f.push_back(gen::values2(s, Y, X, -20, 20, pm));
        if(use_e) ge.push_back(gen::values2(s, Y, X, -0.02, 0.02, pg));
        if(use_l) gl.push_back(gen::values2(s, Y, X, -5, 5, pg));
    }
    if(use_e) for(auto& a : ge) for(auto& b : a) for(float& x : b) if(x == 0 && s.b()) x = 0.01;
    vec2 e0 = use_e ? ge[0] : vec2(), l0 = use_l ? gl[0] : vec2();
    LOG(c, "input ", gen::show(k.ig), "\noutput ", k.ogrid ? gen::show(k.og) : gen::show(k.out), "\nvalues ", str(f), "\nelev gradient ", str(ge), "\nlaf gradient ", str(gl), " downscaler ", (int) k.d, " layers ", layers);
    vec2 res;
    vec3 dbg;
    if(k.ogrid) {
        if(layers) for(const vec2& q : gridpp::full_gradient(k.a, k.og.grid(), f, ge, gl, k.d)) res.push_back(flat(c, k, q));
        else {
            res.push_back(flat(c, k, gridpp::full_gradient(k.a, k.og.grid(), f[0], e0, l0, k.d)));
            dbg = gridpp::full_gradient_debug(k.a, k.og.grid(), f[0], e0, l0, k.d);
        }
    }
    else if(layers) res = gridpp::full_gradient(k.a, k.op, f, ge, gl, k.d);
    else res.push_back(gridpp::full_gradient(k.a, k.op, f[0], e0, l0, k.d));
    REQUIRE(c, (int) res.size() == T, "layers");
    vec de = gridpp::downscaling(k.a, k.op, k.ig.elevs.empty() ? missing(k.ig) : k.ig.elevs, k.d);
    vec dl = gridpp::downscaling(k.a, k.op, k.ig.lafs.empty() ? missing(k.ig) : k.ig.lafs, k.d);
    bool any = false;
    for(int t = 0; t < T; t++) {
        vec dv = gridpp::downscaling(k.a, k.op, f[t], k.d);
        vec dge, dgl;
        if(use_e) dge = gridpp::downscaling(k.a, k.op, ge[t], k.d);
        if(use_l) dgl = gridpp::downscaling(k.a, k.op, gl[t], k.d);
        REQUIRE(c, res[t].size() == (size_t) k.out.n(), "output size");
        for(int o = 0; o < k.out.n(); o++) {
            double oe = k.out.elevs.empty() ? NAN : k.out.elevs[o], ol = k.out.lafs.empty() ? NAN : k.out.lafs[o];
            double ec = 0, lc = 0, sl = slack(dv[o], 0, 0, 0);
            if(use_e && ref::ok(oe) && ref::ok(de[o])) { ec = dge[o] * (oe - de[o]); sl += slack(0, dge[o], oe, de[o]); }
            if(use_l && ref::ok(ol) && ref::ok(dl[o])) { lc = dgl[o] * (ol - dl[o]); sl += slack(0, dgl[o], ol, dl[o]); }
            double want = dv[o] + ec + lc;
            REQUIRE(c, feq(res[t][o], want, sl, 0), "output ", o, " layer ", t, ": ", res[t][o], " but ", dv[o], " + elevation term ", ec, " + land term ", lc, " = ", want);
            if(ref::ok(want) && (ec != 0 || lc != 0)) any = true;
            if(!dbg.empty()) {
                int y = o / k.og.X(), x = o % k.og.X();
                REQUIRE(c, (int) dbg.size() == k.og.Y() && (int) dbg[y].size() == k.og.X() && dbg[y][x].size() == 9, "debug shape");
                const vec& b = dbg[y][x];
                // 0: result, 3/4: corrections, 5: output laf, 6: input laf, 7/8: partial results
                REQUIRE(c, feq(b[0], want, sl, 0) && feq(b[3], lc, sl, 0) && feq(b[4], ec, sl, 0), "debug output ", o, ": ", str(b), " expected ", want, " land ", lc, " elevation ", ec);
                REQUIRE(c, feq(b[7], dv[o] + lc, sl, 0) && feq(b[8], dv[o] + ec, sl, 0), "debug partial results ", o, ": ", str(b));
                if(use_l) REQUIRE(c, feq(b[1], ol - dl[o], 1e-6, 1e-6) && feq(b[5], ol, 0, 0) && feq(b[6], dl[o], 1e-6, 1e-6), "debug land fractions ", str(b), " expected ", ol, " ", dl[o]);
                if(use_e) REQUIRE(c, feq(b[2], oe - de[o], 1e-3, 1e-6), "debug elevation difference ", str(b));
            }
        }
    }
    c.nontrivial(any);
    c.label(k.d == gridpp::Bilinear ? "bilinear" : "nearest");
    if(layers) c.label("layers");
    if(!dbg.empty()) c.label("debug");
}
