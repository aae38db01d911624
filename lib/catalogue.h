// Every operation of the API (see ops.h)
#pragma once
#include "ops.h"
namespace {
using namespace ops;
#define OP_CAT2(a, b) a##b
#define OP_CAT(a, b) OP_CAT2(a, b)
#define OP(name, par) static ops::Call OP_CAT(mk_, __LINE__)(Args& a); static ops::Reg OP_CAT(rg_, __LINE__)(name, par, OP_CAT(mk_, __LINE__)); static ops::Call OP_CAT(mk_, __LINE__)(Args& a)

// Functions of a field may return an empty field without looking at their other arguments
static ops::Call opt_empty(Args& a, ops::Call c, bool empty) { if(empty && a.broken) { a.broken = false; a.odd = true; } return c; }
// ---- downscaling from grids
template<class F> ops::Call gg2(Args& a, F f) {
    auto ig = a.grid("igrid"), og = a.grid("ogrid");
    auto v = a.v2("values", ig.Y(), ig.X());
    return {[=]() { return out(f(ig.grid(), og.grid(), v)); }, {og.Y(), og.X()}};
}
template<class F> ops::Call gg3(Args& a, F f) {
    auto ig = a.grid("igrid"), og = a.grid("ogrid");
    int T = a.dim(1, 3);
    auto v = a.layers("values", T, ig.Y(), ig.X());
    return {[=]() { return out(f(ig.grid(), og.grid(), v)); }, {T, og.Y(), og.X()}};
}
template<class F> ops::Call gp2(Args& a, F f) {
    auto ig = a.grid("igrid");
    auto op = a.points("opoints");
    auto v = a.v2("values", ig.Y(), ig.X());
    return {[=]() { return out(f(ig.grid(), op.points(), v)); }, {op.n()}};
}
template<class F> ops::Call gp3(Args& a, F f) {
    auto ig = a.grid("igrid");
    auto op = a.points("opoints");
    int T = a.dim(1, 3);
    auto v = a.layers("values", T, ig.Y(), ig.X());
    return {[=]() { return out(f(ig.grid(), op.points(), v)); }, {T, op.n()}};
}
OP("nearest g>g", true) { return gg2(a, [](const Grid& i, const Grid& o, const vec2& v) { return nearest(i, o, v); }); }
OP("nearest g>g 3d", true) { return gg3(a, [](const Grid& i, const Grid& o, const vec3& v) { return nearest(i, o, v); }); }
OP("nearest g>p", true) { return gp2(a, [](const Grid& i, const Points& o, const vec2& v) { return nearest(i, o, v); }); }
OP("nearest g>p 3d", true) { return gp3(a, [](const Grid& i, const Points& o, const vec3& v) { return nearest(i, o, v); }); }
OP("bilinear g>g", true) { return gg2(a, [](const Grid& i, const Grid& o, const vec2& v) { return bilinear(i, o, v); }); }
OP("bilinear g>g 3d", true) { return gg3(a, [](const Grid& i, const Grid& o, const vec3& v) { return bilinear(i, o, v); }); }
OP("bilinear g>p", true) { return gp2(a, [](const Grid& i, const Points& o, const vec2& v) { return bilinear(i, o, v); }); }
OP("bilinear g>p 3d", true) { return gp3(a, [](const Grid& i, const Points& o, const vec3& v) { return bilinear(i, o, v); }); }
OP("downscaling g>g", true) { auto d = a.down(); return gg2(a, [d](const Grid& i, const Grid& o, const vec2& v) { return downscaling(i, o, v, d); }); }
OP("downscaling g>g 3d", true) { auto d = a.down(); return gg3(a, [d](const Grid& i, const Grid& o, const vec3& v) { return downscaling(i, o, v, d); }); }
OP("downscaling g>p", true) { auto d = a.down(); return gp2(a, [d](const Grid& i, const Points& o, const vec2& v) { return downscaling(i, o, v, d); }); }
OP("downscaling g>p 3d", true) { auto d = a.down(); return gp3(a, [d](const Grid& i, const Points& o, const vec3& v) { return downscaling(i, o, v, d); }); }
OP("simple_gradient g>g", true) { auto d = a.down(); float g = a.val(-0.01, 0.01); return gg2(a, [=](const Grid& i, const Grid& o, const vec2& v) { return simple_gradient(i, o, v, g, d); }); }
OP("simple_gradient g>g 3d", true) { auto d = a.down(); float g = a.val(-0.01, 0.01); return gg3(a, [=](const Grid& i, const Grid& o, const vec3& v) { return simple_gradient(i, o, v, g, d); }); }
OP("simple_gradient g>p", true) { auto d = a.down(); float g = a.val(-0.01, 0.01); return gp2(a, [=](const Grid& i, const Points& o, const vec2& v) { return simple_gradient(i, o, v, g, d); }); }
OP("simple_gradient g>p 3d", true) { auto d = a.down(); float g = a.val(-0.01, 0.01); return gp3(a, [=](const Grid& i, const Points& o, const vec3& v) { return simple_gradient(i, o, v, g, d); }); }
OP("nearest p>p", true) {
    auto ip = a.points("ipoints"), op = a.points("opoints");
    auto v = a.v1("values", ip.n());
    return {[=]() { return out(nearest(ip.points(), op.points(), v)); }, {op.n()}};
}
OP("nearest p>p 2d", true) {
    auto ip = a.points("ipoints"), op = a.points("opoints");
    int T = a.dim(1, 3);
    auto v = a.rows("values", T, ip.n());
    return {[=]() { return out(nearest(ip.points(), op.points(), v)); }, {T, op.n()}};
}
OP("nearest p>g", true) {
    auto ip = a.points("ipoints"); auto og = a.grid("ogrid");
    auto v = a.v1("values", ip.n());
    return {[=]() { return out(nearest(ip.points(), og.grid(), v)); }, {og.Y(), og.X()}};
}
OP("nearest p>g 2d", true) {
    auto ip = a.points("ipoints"); auto og = a.grid("ogrid");
    int T = a.dim(1, 3);
    auto v = a.rows("values", T, ip.n());
    return {[=]() { return out(nearest(ip.points(), og.grid(), v)); }, {T, og.Y(), og.X()}};
}
// gradients may be left out (empty)
OP("full_gradient g>g", true) {
    auto ig = a.grid("igrid"), og = a.grid("ogrid");
    auto v = a.v2("values", ig.Y(), ig.X());
    auto e = a.s.b(0.2) ? vec2() : a.v2("egrad", ig.Y(), ig.X(), -0.01, 0.01, true, true);
    auto l = a.s.b(0.4) ? vec2() : a.v2("lgrad", ig.Y(), ig.X(), -5, 5, true, true);
    auto d = a.down();
    bool dbg = a.s.b(0.3);
    if(dbg) return {[=]() { return out(full_gradient_debug(ig.grid(), og.grid(), v, e, l, d)); }, {}};
    return {[=]() { return out(full_gradient(ig.grid(), og.grid(), v, e, l, d)); }, {og.Y(), og.X()}};
}
OP("full_gradient g>g 3d", true) {
    auto ig = a.grid("igrid"), og = a.grid("ogrid");
    int T = a.dim(1, 3);
    auto v = a.layers("values", T, ig.Y(), ig.X());
    auto e = a.s.b(0.2) ? vec3() : a.layers("egrad", T, ig.Y(), ig.X(), -0.01, 0.01);
    auto l = a.s.b(0.4) ? vec3() : a.layers("lgrad", T, ig.Y(), ig.X(), -5, 5);
    auto d = a.down();
    return {[=]() { return out(full_gradient(ig.grid(), og.grid(), v, e, l, d)); }, {T, og.Y(), og.X()}};
}
OP("full_gradient g>p", true) {
    auto ig = a.grid("igrid"); auto op = a.points("opoints");
    auto v = a.v2("values", ig.Y(), ig.X());
    auto e = a.s.b(0.2) ? vec2() : a.v2("egrad", ig.Y(), ig.X(), -0.01, 0.01, true, true);
    auto l = a.s.b(0.4) ? vec2() : a.v2("lgrad", ig.Y(), ig.X(), -5, 5, true, true);
    auto d = a.down();
    return {[=]() { return out(full_gradient(ig.grid(), op.points(), v, e, l, d)); }, {op.n()}};
}
OP("full_gradient g>p 3d", true) {
    auto ig = a.grid("igrid"); auto op = a.points("opoints");
    int T = a.dim(1, 3);
    auto v = a.layers("values", T, ig.Y(), ig.X());
    auto e = a.s.b(0.2) ? vec3() : a.layers("egrad", T, ig.Y(), ig.X(), -0.01, 0.01);
    auto l = a.s.b(0.4) ? vec3() : a.layers("lgrad", T, ig.Y(), ig.X(), -5, 5);
    auto d = a.down();
    return {[=]() { return out(full_gradient(ig.grid(), op.points(), v, e, l, d)); }, {T, op.n()}};
}
OP("smart", true) {
    auto ig = a.grid("igrid"), og = a.grid("ogrid");
    auto v = a.v2("values", ig.Y(), ig.X());
    int num = a.par<int>("num", a.s.i(1, 4), {0, -1}, {1000000});
    auto st = a.structure();
    return {[=]() { return out(smart(ig.grid(), og.grid(), v, num, *st)); }, {og.Y(), og.X()}};
}
OP("downscale_probability", true) {
    auto ig = a.grid("igrid"), og = a.grid("ogrid");
    auto v = a.ens("values", ig.Y(), ig.X(), a.dim(1, 4));
    auto t = a.v2("threshold", og.Y(), og.X());
    auto op = a.op();
    return {[=]() { return out(downscale_probability(ig.grid(), og.grid(), v, t, op)); }, {og.Y(), og.X()}};
}
OP("mask_threshold_downscale", true) {
    auto ig = a.grid("igrid"), og = a.grid("ogrid");
    int E = a.dim(1, 4);
    auto vt = a.ens("true", ig.Y(), ig.X(), E), vf = a.ens("false", ig.Y(), ig.X(), E), th = a.ens("threshold_values", ig.Y(), ig.X(), E);
    auto t = a.v2("threshold", og.Y(), og.X());
    auto op = a.op();
    if(a.s.b()) { float q = a.level(); return {[=]() { return out(mask_threshold_downscale_quantile(ig.grid(), og.grid(), vt, vf, th, t, op, q)); }, {og.Y(), og.X()}}; }
    auto st = a.stat();
    return {[=]() { return out(mask_threshold_downscale_consensus(ig.grid(), og.grid(), vt, vf, th, t, op, st)); }, {og.Y(), og.X()}};
}
// ---- distances and counts
OP("count g>p", true) { auto g = a.grid("g"); auto p = a.points("p"); float r = a.radius_any(); return {[=]() { return out(count(g.grid(), p.points(), r)); }, {p.n()}}; }
OP("count g>g", true) { auto g = a.grid("g"), o = a.grid("o"); float r = a.radius_any(); return {[=]() { return out(count(g.grid(), o.grid(), r)); }, {o.Y(), o.X()}}; }
OP("count p>g", true) { auto g = a.grid("g"); auto p = a.points("p"); float r = a.radius_any(); return {[=]() { return out(count(p.points(), g.grid(), r)); }, {g.Y(), g.X()}}; }
OP("count p>p", true) { auto q = a.points("q"), p = a.points("p"); float r = a.radius_any(); return {[=]() { return out(count(p.points(), q.points(), r)); }, {q.n()}}; }
#define NUM a.par<int>("num", a.s.i(1, 5), {}, {0, -1, 1000000})
OP("distance g>p", true) { auto g = a.grid("g"); auto p = a.points("p"); int n = NUM; return {[=]() { return out(distance(g.grid(), p.points(), n)); }, {p.n()}}; }
OP("distance g>g", true) { auto g = a.grid("g"), o = a.grid("o"); int n = NUM; return {[=]() { return out(distance(g.grid(), o.grid(), n)); }, {o.Y(), o.X()}}; }
OP("distance p>g", true) { auto g = a.grid("g"); auto p = a.points("p"); int n = NUM; return {[=]() { return out(distance(p.points(), g.grid(), n)); }, {g.Y(), g.X()}}; }
OP("distance p>p", true) { auto q = a.points("q"), p = a.points("p"); int n = NUM; return {[=]() { return out(distance(p.points(), q.points(), n)); }, {q.n()}}; }
OP("distance types", false) {
    auto g = a.grid("g"); auto p = a.points("p");
    p.type = a.other(p.type);
    for(float& x : p.lats) x = std::max(-90.0f, std::min(90.0f, x));
    a.broken = a.fuzz; a.what = "coordinate types"; a.odd = true;
    bool k = a.s.b();
    return {[=]() { if(k) return out(distance(g.grid(), p.points(), 1)); return out(distance(p.points(), g.grid(), 1)); }, {}};
}
// ---- gridding
OP("gridding g", true) {
    auto g = a.grid("g"); auto p = a.points("p"); auto v = a.v1("values", p.n());
    float r = a.radius(); int m = a.par<int>("min_num", a.s.i(0, 3), {-1}, {1000000}); auto st = a.stat();
    return {[=]() { return out(gridding(g.grid(), p.points(), v, r, m, st)); }, {g.Y(), g.X()}};
}
OP("gridding p", true) {
    auto o = a.points("o"), p = a.points("p"); auto v = a.v1("values", p.n());
    float r = a.radius(); int m = a.par<int>("min_num", a.s.i(0, 3), {-1}, {1000000}); auto st = a.stat();
    return {[=]() { return out(gridding(o.points(), p.points(), v, r, m, st)); }, {o.n()}};
}
OP("gridding_nearest g", true) {
    auto g = a.grid("g"); auto p = a.points("p"); auto v = a.v1("values", p.n());
    int m = a.par<int>("min_num", a.s.i(0, 3), {-1}, {1000000}); auto st = a.stat();
    return {[=]() { return out(gridding_nearest(g.grid(), p.points(), v, m, st)); }, {g.Y(), g.X()}};
}
OP("gridding_nearest p", true) {
    auto o = a.points("o"), p = a.points("p"); auto v = a.v1("values", p.n());
    int m = a.par<int>("min_num", a.s.i(0, 3), {-1}, {1000000}); auto st = a.stat();
    return {[=]() { return out(gridding_nearest(o.points(), p.points(), v, m, st)); }, {o.n()}};
}
OP("neighbourhood_score", true) {
    auto g = a.grid("g"); auto p = a.points("p");
    auto f = a.v2("fcst", g.Y(), g.X()); auto v = a.v1("ref", p.n());
    int h = a.halfwidth(1); auto m = a.metric(); float t = a.val(0, 10);
    return {[=]() { return out(neighbourhood_score(g.grid(), p.points(), f, v, h, m, t)); }, {g.Y(), g.X()}};
}
// ---- filling
OP("fill", false) {
    auto g = a.grid("g"); auto p = a.points("p");
    auto f = a.v2("input", g.Y(), g.X());
    auto rr = a.v1("radii", p.n(), 0, a.size());
    for(float& x : rr) if(std::isnan(x)) x = 0; else if(x < 0) a.odd = true;
    if(rr.size() && a.brk("negative radius")) rr[a.s.draw(rr.size())] = -1;
    float v = a.val(0, 10); bool o = a.s.b();
    return {[=]() { return out(fill(g.grid(), f, p.points(), rr, v, o)); }, {g.Y(), g.X()}};
}
OP("fill_missing", false) {
    int Y = a.dim(1, a.big), X = a.dim(1, a.big);
    auto f = a.v2("values", Y, X, 0, 10, false);
    return {[=]() { return out(fill_missing(f)); }, {}};
}
OP("doping_square", false) {
    auto g = a.grid("g"); auto p = a.points("p");
    auto f = a.v2("background", g.Y(), g.X()); auto v = a.v1("obs", p.n()); auto h = a.i1("halfwidths", p.n(), 0, 3);
    if(h.size() && a.brk("negative halfwidth")) h[a.s.draw(h.size())] = -1;
    if(h.size() && a.fuzz && !a.broken && a.s.b(0.1)) h[a.s.draw(h.size())] = 1000000;
    float e = a.par<float>("max_elev_diff", a.s.b() ? MV : a.s.f(0, 500), {-1}, {0});
    return {[=]() { return out(doping_square(g.grid(), f, p.points(), v, h, e)); }, {g.Y(), g.X()}};
}
OP("doping_circle", false) {
    auto g = a.grid("g"); auto p = a.points("p");
    auto f = a.v2("background", g.Y(), g.X()); auto v = a.v1("obs", p.n()); auto h = a.v1("radii", p.n(), 0, a.size());
    for(float& x : h) if(std::isnan(x)) x = 0; else if(x < 0) a.odd = true;
    if(h.size() && a.brk("negative radius")) h[a.s.draw(h.size())] = -1;
    float e = a.par<float>("max_elev_diff", a.s.b() ? MV : a.s.f(0, 500), {-1}, {0});
    return {[=]() { return out(doping_circle(g.grid(), f, p.points(), v, h, e)); }, {g.Y(), g.X()}};
}
// ---- neighbourhoods and windows
#define SHAPE3 (Y * X == 0 || v[0][0].empty() ? std::vector<int>() : std::vector<int>{Y, X})
#define FIELD2 int Y = a.dim(1, a.big), X = Y ? a.s.i(1, a.big) : 0; auto v = a.v2("input", Y, X, 0, 10, false); bool ragged = a.ragged(v);
#define FIELD3 int Y = a.dim(1, a.big), X = Y ? a.s.i(1, a.big) : 0; vec3 v(Y, vec2(X, vec(a.dim(1, 4)))); for(auto& p : v) for(auto& q : p) for(float& x : q) x = a.val(0, 10); a.ragged3(v);
OP("neighbourhood", true) { FIELD2; int h = a.halfwidth(); auto st = a.stat(); return opt_empty(a, {[=]() { return out(neighbourhood(v, h, st)); }, {Y, X}}, Y * X == 0); }
OP("neighbourhood 3d", true) { FIELD3; int h = a.halfwidth(); auto st = a.stat(); return opt_empty(a, {[=]() { return out(neighbourhood(v, h, st)); }, SHAPE3}, Y * X == 0 || v[0][0].empty()); }
OP("neighbourhood_brute_force", true) { FIELD2; int h = a.s.i(0, 3); auto st = a.stat(); return opt_empty(a, {[=]() { return out(neighbourhood_brute_force(v, h, st)); }, {Y, X}}, Y * X == 0); }
OP("neighbourhood_brute_force 3d", true) { FIELD3; int h = a.s.i(0, 3); auto st = a.stat(); return opt_empty(a, {[=]() { return out(neighbourhood_brute_force(v, h, st)); }, SHAPE3}, Y * X == 0 || v[0][0].empty()); }
OP("neighbourhood_quantile", true) { FIELD2; int h = a.halfwidth(); float q = a.level(); return opt_empty(a, {[=]() { return out(neighbourhood_quantile(v, q, h)); }, {Y, X}}, Y * X == 0); }
OP("neighbourhood_quantile 3d", true) { FIELD3; int h = a.halfwidth(); float q = a.level(); return opt_empty(a, {[=]() { return out(neighbourhood_quantile(v, q, h)); }, SHAPE3}, Y * X == 0 || v[0][0].empty()); }

static vec thresholds(Args& a) {
    int n = a.dim(1, 5);
    vec t(n);
    for(float& x : t) x = a.val(0, 10);
    if(!a.fuzz) for(float& x : t) if(std::isnan(x)) x = 3;
    if(!a.fuzz || a.s.b(0.7)) std::sort(t.begin(), t.end());
    else a.odd = true;
    return t;
}
OP("neighbourhood_quantile_fast", true) { FIELD2; int h = a.halfwidth(); float q = a.level(); auto t = thresholds(a); return opt_empty(a, {[=]() { return out(neighbourhood_quantile_fast(v, q, h, t)); }, {Y, X}}, Y * X == 0); }
OP("neighbourhood_quantile_fast 3d", true) { FIELD3; int h = a.halfwidth(); float q = a.level(); auto t = thresholds(a); return opt_empty(a, {[=]() { return out(neighbourhood_quantile_fast(v, q, h, t)); }, SHAPE3}, Y * X == 0 || v[0][0].empty()); }
OP("neighbourhood_quantile_fast levels", true) {
    FIELD2; int h = a.halfwidth(); auto t = thresholds(a);
    vec2 q = a.v2("levels", Y, X, 0, 1);
    if(a.s.b(0.1)) q = vec2(1, vec(1, 0.5));
    for(auto& row : q) for(float& x : row) if(!(x >= 0 && x <= 1)) x = 0.5;
    if(q.size() && q[0].size() && a.brk("level")) q[a.s.draw(q.size())][0] = 1.5;
    if(q.size() == 1 && q[0].size() == 1 && a.what.substr(0, 6) == "levels") { a.broken = false; a.odd = true; }
    return opt_empty(a, {[=]() { return out(neighbourhood_quantile_fast(v, q, h, t)); }, {Y, X}}, Y * X == 0);
}
OP("neighbourhood_quantile_fast 3d levels", true) {
    FIELD3; int h = a.halfwidth(); auto t = thresholds(a);
    vec2 q = a.v2("levels", Y, X, 0, 1);
    for(auto& row : q) for(float& x : row) if(!(x >= 0 && x <= 1)) x = 0.5;
    if(q.size() && q[0].size() && a.brk("level")) q[a.s.draw(q.size())][0] = -0.5;
    if(q.size() == 1 && q[0].size() == 1 && a.what.substr(0, 6) == "levels") { a.broken = false; a.odd = true; }
    return opt_empty(a, {[=]() { return out(neighbourhood_quantile_fast(v, q, h, t)); }, SHAPE3}, Y * X == 0 || v[0][0].empty());
}
OP("get_neighbourhood_thresholds", false) { FIELD2; int n = a.par<int>("num", a.s.i(1, 6), {0, -1}, {1000000}); return opt_empty(a, {[=]() { return out(get_neighbourhood_thresholds(v, n)); }, {}}, Y * X == 0); }
OP("get_neighbourhood_thresholds 3d", false) { FIELD3; int n = a.par<int>("num", a.s.i(1, 6), {0, -1}, {1000000}); return opt_empty(a, {[=]() { return out(get_neighbourhood_thresholds(v, n)); }, {}}, Y * X == 0 || v[0][0].empty()); }
OP("calc_even_quantiles", false) { auto v = a.v1("values", a.dim(1, 8), 0, 5, false); int n = a.par<int>("num", a.s.i(1, 8), {}, {0, -1, 1000000}); return {[=]() { return out(calc_even_quantiles(v, n)); }, {}}; }
OP("window", true) {
    FIELD2; int L = a.par<int>("length", 2 * a.s.i(0, 4) + 1, {0, -3}, {1000001}); auto st = a.stat();
    bool b = a.s.b(), k = a.s.b(), m = a.s.b();
    return {[=]() { return out(window(v, L, st, b, k, m)); }, {Y, X}};
}
OP("calc_gradient", true) {
    FIELD2;
    auto w = ragged && a.s.b() ? v : a.v2("values", Y, X);
    auto t = a.odd_enum(a.s.b() ? MinMax : LinearRegression);
    int h = a.halfwidth(1), m = a.par<int>("min_num", a.s.i(0, 4), {-1}, {1000000});
    float mr = a.par<float>("min_range", a.s.b() ? MV : a.s.f(0, 5), {-1}, {1e9f}), d = a.val(-1, 1);
    if(Y == 0) a.odd = true;
    return {[=]() { return out(calc_gradient(v, w, t, h, m, mr, d)); }, {Y, X}};
}
OP("neighbourhood_search", false) {
    FIELD2;
    auto w = ragged && a.s.b() ? v : a.v2("search", Y, X);
    ivec2 ap;
    if(a.s.b()) {
        int y = Y, x = X;
        if(Y > 0 && a.brk("apply_array")) a.size2(y, x, true);
        ap = ivec2(y, ivec(x));
        for(auto& row : ap) for(int& q : row) q = a.s.i(0, 1);
    }
    float lo = a.s.f(0, 5), hi = a.par<float>("max", lo + a.s.f(0.1, 5), {lo - 1}), d = a.s.f(0, 3);
    int h = a.par<int>("halfwidth", a.s.i(0, 3), {-1}, {1000000});
    return {[=]() { return out(neighbourhood_search(v, w, h, lo, hi, d, ap)); }, {Y, X}};
}
// ---- curves and scores
OP("apply_curve", true) {
    int n = a.dim(1, 6);
    auto ref = a.v1("ref", n, 0, 10, false), f = a.v1("fcst", n);
    if(n == 0) { a.broken = a.fuzz; a.what = "empty curve"; }
    auto x = a.v1("x", a.dim(1, 50), -5, 15, false);
    auto b = a.extrap(), c = a.extrap();
    int k = a.s.draw(3);
    if(k == 0) return {[=]() { return out(apply_curve(x.empty() ? 0 : x[0], ref, f, b, c)); }, {-1}};
    if(k == 1) { vec2 xx = a.v2("x", a.dim(1, 3), 4, -5, 15, false); return {[=]() { return out(apply_curve(xx, ref, f, b, c)); }, {(int) xx.size(), xx.size() ? 4 : 0}}; }
    int N = x.size();
    return {[=]() { return out(apply_curve(x, ref, f, b, c)); }, {N}};
}
OP("apply_curve 3d", true) {
    int Y = a.dim(1, 6), X = Y ? a.s.i(1, 6) : 0, n = a.dim(1, 4);
    auto x = a.v2("x", Y, X, -5, 15, false);
    auto ref = a.ens("ref", Y, X, n), f = a.ens("fcst", Y, X, n);
    if(n == 0 && Y * X > 0 && a.fuzz) { a.broken = true; a.what = "empty curves"; }
    auto b = a.extrap(), c = a.extrap();
    return {[=]() { return out(apply_curve(x, ref, f, b, c)); }, {Y, X}};
}
OP("monotonize_curve", false) {
    int n = a.dim(1, 8);
    auto ref = a.v1("ref", n, 0, 10, false), f = a.v1("fcst", n);
    if(n == 0) { a.broken = a.fuzz; a.what = "empty curve"; }
    if(a.pm > 0) a.odd = true;
    return {[=]() { vec o; vec r = monotonize_curve(ref, f, o); if(r.size() != o.size()) { Out x = out(r, o); x.ragged = true; return x; } return out(r, o); }, {}};
}
OP("quantile_mapping_curve", false) {
    int n = a.dim(1, 8);
    auto ref = a.v1("ref", n, 0, 10, false), f = a.v1("fcst", n);
    auto q = a.v1("quantiles", a.s.i(0, 4), 0, 1, false);
    for(float& x : q) if(!(x >= 0 && x <= 1)) x = 0.5;
    if(q.size() && a.brk("quantile")) q[a.s.draw(q.size())] = a.s.pick<float>({-0.1f, 1.1f});
    return {[=]() { vec o; vec r = quantile_mapping_curve(ref, f, o, q); return out(r, o); }, {}};
}
OP("metric_optimizer_curve", false) {
    int n = a.dim(1, 8);
    auto ref = a.v1("ref", n, 0, 10, false), f = a.v1("fcst", n), t = a.v1("thresholds", a.s.i(0, 4), 0, 10, false);
    auto m = a.metric();
    return {[=]() { vec o; vec r = metric_optimizer_curve(ref, f, t, m, o); return out(r, o); }, {}};
}
OP("get_optimal_threshold", false) {
    int n = a.dim(1, 8);
    auto ref = a.v1("ref", n, 0, 10, false), f = a.v1("fcst", n);
    auto m = a.metric(); float t = a.val(0, 10);
    return {[=]() { return out(get_optimal_threshold(ref, f, t, m)); }, {-1}};
}
OP("calc_score", false) {
    int n = a.dim(1, 8);
    auto ref = a.v1("ref", n, 0, 10, false), f = a.v1("fcst", n);
    auto m = a.metric(); float t = a.val(0, 10), u = a.val(0, 10);
    int k = a.s.draw(2);
    return {[=]() { if(k) return out(calc_score(ref, f, t, m)); return out(calc_score(ref, f, t, u, m)); }, {-1}};
}
// ---- optimal interpolation
OP("oi g", true) {
    auto g = a.grid("g"); auto p = a.points("obs", 0, 10); int N = p.n();
    auto bg = a.v2("background", g.Y(), g.X()); auto o = a.v1("obs", N), vr = a.v1("ratios", N, 0.05, 2), pb = a.v1("pbackground", N);
    auto st = a.structure(); int m = a.max_points(); bool e = a.s.b();
    return {[=]() { return out(optimal_interpolation(g.grid(), bg, p.points(), o, vr, pb, *st, m, e)); }, {g.Y(), g.X()}};
}
OP("oi p", true) {
    auto g = a.points("b", 1, 20); auto p = a.points("obs", 0, 10); int N = p.n();
    auto bg = a.v1("background", g.n()), o = a.v1("obs", N), vr = a.v1("ratios", N, 0.05, 2), pb = a.v1("pbackground", N);
    auto st = a.structure(); int m = a.max_points(); bool e = a.s.b();
    return {[=]() { return out(optimal_interpolation(g.points(), bg, p.points(), o, vr, pb, *st, m, e)); }, {g.n()}};
}
OP("oi full g", true) {
    auto g = a.grid("g"); auto p = a.points("obs", 0, 10); int N = p.n();
    auto bg = a.v2("background", g.Y(), g.X()), bv = a.v2("bvariance", g.Y(), g.X(), 0.1, 2);
    auto o = a.v1("obs", N), ov = a.v1("obs_variance", N, 0.05, 2), pb = a.v1("pbackground", N), pv = a.v1("bvariance_at_points", N, 0.1, 2);
    auto st = a.structure(); int m = a.max_points(); bool e = a.s.b();
    return {[=]() { vec2 av; vec2 r = optimal_interpolation_full(g.grid(), bg, bv, p.points(), o, ov, pb, pv, *st, m, av, e); return out(r, av); }, {g.Y(), g.X()}};
}
OP("oi full p", true) {
    auto g = a.points("b", 1, 20); auto p = a.points("obs", 0, 10); int N = p.n();
    auto bg = a.v1("background", g.n()), bv = a.v1("bvariance", g.n(), 0.1, 2);
    auto o = a.v1("obs", N), ov = a.v1("obs_variance", N, 0.05, 2), pb = a.v1("pbackground", N), pv = a.v1("bvariance_at_points", N, 0.1, 2);
    auto st = a.structure(); int m = a.max_points(); bool e = a.s.b();
    return {[=]() { vec av; vec r = optimal_interpolation_full(g.points(), bg, bv, p.points(), o, ov, pb, pv, *st, m, av, e); return out(r, av); }, {g.n()}};
}
OP("oi types", false) {
    auto g = a.grid("g"); auto p = a.points("obs"); int N = p.n();
    p.type = a.other(p.type);
    for(float& x : p.lats) x = std::max(-90.0f, std::min(90.0f, x));
    bool fz = a.fuzz; a.fuzz = false;
    auto bg = a.v2("background", g.Y(), g.X()); auto o = a.v1("obs", N), vr = a.v1("ratios", N, 0.05, 2), pb = a.v1("pbackground", N);
    vec2 ob = vec2(N, vec(2, 1)); vec3 eb(g.Y(), vec2(g.X(), vec(2, 1))); vec2 br(g.Y(), vec(g.X(), 1));
    auto st = a.structure();
    a.fuzz = fz; a.odd = true; a.what = "coordinate types";
    a.broken = fz && N > 0 && g.Y() > 0;
    int k = a.s.draw(6);
    return {[=]() {
        if(k == 0) return out(optimal_interpolation(g.grid(), bg, p.points(), o, vr, pb, *st, 3));
        if(k == 1) return out(optimal_interpolation_ensi(g.grid(), eb, p.points(), o, vr, ob, *st, 3));
        if(k == 2) return out(optimal_interpolation_ensi_multi_ebe(g.grid(), br, eb, eb, p.points(), ob, vr, ob, ob, *st, 3));
        if(k == 3) return out(optimal_interpolation_ensi_multi_ebesc(g.grid(), br, eb, p.points(), ob, vr, ob, *st, 3));
        if(k == 4) return out(optimal_interpolation_ensi_multi_utem(g.grid(), br, eb, eb, p.points(), o, vr, ob, ob, *st, 3));
        vec2 av;
        return out(optimal_interpolation_full(g.grid(), bg, bg, p.points(), o, vr, pb, pb, *st, 3, av));
    }, {}};
}
OP("oi_ensi g", true) {
    auto g = a.grid("g"); auto p = a.points("obs", 0, 8); int N = p.n(), E = a.dim(2, 5);
    auto bg = a.ens("background", g.Y(), g.X(), E); auto o = a.v1("obs", N), sd = a.v1("sd", N, 0.1, 2);
    auto pb = a.v2("pbackground", N, E);
    auto st = a.structure(); int m = a.max_points(); bool e = a.s.b();
    return opt_empty(a, {[=]() { return out(optimal_interpolation_ensi(g.grid(), bg, p.points(), o, sd, pb, *st, m, e)); }, N == 0 ? std::vector<int>() : std::vector<int>{g.Y(), g.X(), E}}, g.Y() * g.X() == 0 || N == 0);
}
OP("oi_ensi p", true) {
    auto g = a.points("b", 1, 12); auto p = a.points("obs", 0, 8); int N = p.n(), E = a.dim(2, 5);
    auto bg = a.v2("background", g.n(), E); auto o = a.v1("obs", N), sd = a.v1("sd", N, 0.1, 2);
    auto pb = a.v2("pbackground", N, E);
    auto st = a.structure(); int m = a.max_points(); bool e = a.s.b();
    return opt_empty(a, {[=]() { return out(optimal_interpolation_ensi(g.points(), bg, p.points(), o, sd, pb, *st, m, e)); }, N == 0 ? std::vector<int>() : std::vector<int>{g.n(), E}}, g.n() == 0 || N == 0);
}
OP("oi_ensi_multi g", true) {
    auto g = a.grid("g"); auto p = a.points("obs", 0, 8); int N = p.n(), E = a.dim(2, 5);
    int k = a.s.draw(3);
    auto br = a.v2("bratios", g.Y(), g.X(), 0.2, 2);
    auto bg = a.ens("background", g.Y(), g.X(), E);
    vec3 bc; if(k != 1) bc = a.ens("background_corr", g.Y(), g.X(), E);
    vec2 po; vec o;
    if(k == 2) o = a.v1("pobs", N); else po = a.v2("pobs", N, E);
    auto pr = a.v1("pratios", N, 0.1, 2);
    auto pb = a.v2("pbackground", N, E); vec2 pc; if(k != 1) pc = a.v2("pbackground_corr", N, E);
    auto st = a.structure(); int m = a.max_points(); bool e = a.s.b();
    return opt_empty(a, {[=]() {
        if(k == 0) return out(optimal_interpolation_ensi_multi_ebe(g.grid(), br, bg, bc, p.points(), po, pr, pb, pc, *st, m, e));
        if(k == 1) return out(optimal_interpolation_ensi_multi_ebesc(g.grid(), br, bg, p.points(), po, pr, pb, *st, m, e));
        return out(optimal_interpolation_ensi_multi_utem(g.grid(), br, bg, bc, p.points(), o, pr, pb, pc, *st, m, e));
    }, N == 0 ? std::vector<int>() : std::vector<int>{g.Y(), g.X(), E}}, g.Y() * g.X() == 0 || N == 0);
}
OP("oi_ensi_multi p", true) {
    auto g = a.points("b", 1, 12); auto p = a.points("obs", 0, 8); int N = p.n(), E = a.dim(2, 5);
    int k = a.s.draw(3);
    auto br = a.v1("bratios", g.n(), 0.2, 2);
    auto bg = a.v2("background", g.n(), E);
    vec2 bc; if(k != 1) bc = a.v2("background_corr", g.n(), E);
    vec2 po; vec o;
    if(k == 2) o = a.v1("pobs", N); else po = a.v2("pobs", N, E);
    auto pr = a.v1("pratios", N, 0.1, 2);
    auto pb = a.v2("pbackground", N, E); vec2 pc; if(k != 1) pc = a.v2("pbackground_corr", N, E);
    auto st = a.structure(); int m = a.max_points(); bool e = a.s.b();
    return opt_empty(a, {[=]() {
        if(k == 0) return out(optimal_interpolation_ensi_multi_ebe(g.points(), br, bg, bc, p.points(), po, pr, pb, pc, *st, m, e));
        if(k == 1) return out(optimal_interpolation_ensi_multi_ebesc(g.points(), br, bg, p.points(), po, pr, pb, *st, m, e));
        return out(optimal_interpolation_ensi_multi_utem(g.points(), br, bg, bc, p.points(), o, pr, pb, pc, *st, m, e));
    }, N == 0 ? std::vector<int>() : std::vector<int>{g.n(), E}}, g.n() == 0 || N == 0);
}
OP("staticcorr_points", true) {
    auto p = a.points("points", 1, 10), k = a.points("knots", 1, 6);
    auto st = a.structure(); int m = a.s.i(0, 5);
    return {[=]() { return out(staticcorr_points(p.points(), k.points(), *st, m)); }, {}};
}
OP("local_distribution_correction", true) {
    auto g = a.grid("g"); auto p = a.points("obs", 1, 8); int N = p.n();
    auto bg = a.v2("background", g.Y(), g.X());
    auto st = a.structure(); float lo = a.s.f(0, 0.5), hi = a.s.f(0.5, 1); int m = a.s.i(0, 4);
    if(a.brk("quantiles")) { if(a.s.b()) hi = 1.2; else lo = -0.2; }
    if(a.s.b()) {
        auto o = a.v1("obs", N), pb = a.v1("pbackground", N);
        if(a.broken && (a.what == "obs" || a.what == "pbackground") && (int) o.size() >= N && (int) pb.size() >= N) { a.broken = false; a.odd = true; }
        return {[=]() { return out(local_distribution_correction(g.grid(), bg, p.points(), o, pb, *st, lo, hi, m)); }, {g.Y(), g.X()}};
    }
    int T = a.dim(1, 3);
    auto o = a.rows("obs", T, N), pb = a.rows("pbackground", T, N);
    // Values that do not belong to any point are not used
    if(a.what.substr(0, 3) == "obs" || a.what.substr(0, 11) == "pbackground") { a.broken = false; a.odd = true; for(auto* v : {&o, &pb}) for(auto& row : *v) if((int) row.size() < N) a.broken = true; }
    return {[=]() { return out(local_distribution_correction(g.grid(), bg, p.points(), o, pb, *st, lo, hi, m)); }, {g.Y(), g.X()}};
}
// ---- point-wise
OP("dewpoint", true) { int n = a.dim(1, 40); auto t = a.v1("t", n, 240, 310, false), r = a.v1("rh", n, 0, 1); return {[=]() { return out(dewpoint(t, r)); }, {n}}; }
OP("relative_humidity", true) { int n = a.dim(1, 40); auto t = a.v1("t", n, 240, 310, false), r = a.v1("td", n, 240, 310); return {[=]() { return out(relative_humidity(t, r)); }, {n}}; }
OP("wetbulb", true) { int n = a.dim(1, 40); auto t = a.v1("t", n, 240, 310, false), p = a.v1("p", n, 70000, 105000), r = a.v1("rh", n, 0, 1); return {[=]() { return out(wetbulb(t, p, r)); }, {n}}; }
OP("pressure", true) { int n = a.dim(1, 40); auto i = a.v1("ie", n, 0, 2000, false), o = a.v1("oe", n, 0, 2000), p = a.v1("p", n, 70000, 105000), t = a.v1("t", n, 240, 310); return {[=]() { return out(pressure(i, o, p, t)); }, {n}}; }
OP("sea_level_pressure", true) {
    int n = a.dim(1, 40);
    a.odd = true;
    auto p = a.v1("ps", n, 70000, 105000, false), z = a.v1("z", n, 0, 2000), t = a.v1("t", n, 240, 310), r = a.v1("rh", n, 0, 1), d = a.v1("td", n, 230, 290);
    return {[=]() { return out(sea_level_pressure(p, z, t, r, d)); }, {n}};
}
OP("qnh", true) { int n = a.dim(1, 40); auto p = a.v1("p", n, 70000, 105000, false), z = a.v1("z", n, 0, 2000); return {[=]() { return out(qnh(p, z)); }, {n}}; }
OP("wind_speed", true) { int n = a.dim(1, 40); auto x = a.v1("x", n, -20, 20, false), y = a.v1("y", n, -20, 20); return {[=]() { return out(wind_speed(x, y)); }, {n}}; }
OP("wind_direction", true) { int n = a.dim(1, 40); auto x = a.v1("x", n, -20, 20, false), y = a.v1("y", n, -20, 20); return {[=]() { return out(wind_direction(x, y)); }, {n}}; }
OP("gamma_inv", true) {
    int n = a.dim(1, 40);
    auto l = a.v1("levels", n, 0.01, 0.99, false), s = a.v1("shape", n, 0.2, 5), c = a.v1("scale", n, 0.2, 5);
    if(a.pm > 0 || n == 0) a.odd = true;
    return {[=]() { return out(gamma_inv(l, s, c)); }, {n}};
}
OP("transform", false) {
    int Y = a.dim(1, 3), X = a.dim(1, 4), E = a.dim(1, 3), k = a.s.draw(5);
    vec3 v(Y, vec2(X, vec(E)));
    for(auto& p : v) for(auto& q : p) for(float& x : q) x = a.val(0, 10);
    float p = a.s.f(0.1, 2), q = a.s.f(0.1, 2);
    if(a.fuzz && (k == 0 || k == 2) && a.s.b(0.2)) { a.odd = true; p = a.special(); }
    if((k == 3 || k == 4) && a.brk("parameter")) (a.s.b() ? p : q) = a.s.pick<float>({0, -1});
    bool fw = a.s.b(); int dim = a.s.i(0, 3);
    return {[=]() {
        std::shared_ptr<Transform> t;
        if(k == 0) t = std::make_shared<Log>();
        else if(k == 1) t = std::make_shared<Identity>();
        else if(k == 2) t = std::make_shared<BoxCox>(p);
        else if(k == 3) t = std::make_shared<StartedBoxCox>(p, q);
        else t = std::make_shared<Gamma>(p, q, 0.01);
        if(dim == 0) { float x = v.size() && v[0].size() && v[0][0].size() ? v[0][0][0] : 1; return out(fw ? t->forward(x) : t->backward(x)); }
        if(dim == 1) { vec x = v.size() && v[0].size() ? v[0][0] : vec(); return out(fw ? t->forward(x) : t->backward(x)); }
        if(dim == 2) { vec2 x = v.size() ? v[0] : vec2(); return out(fw ? t->forward(x) : t->backward(x)); }
        return out(fw ? t->forward(v) : t->backward(v));
    }, {}};
}
OP("calc_statistic", false) { auto v = a.v2("v", a.dim(1, 4), a.s.i(0, 5), 0, 10, false); auto st = a.stat(); int n = v.size(); return {[=]() { return out(calc_statistic(v, st)); }, {n}}; }
OP("calc_quantile", false) { auto v = a.v2("v", a.dim(1, 4), a.s.i(0, 5), 0, 10, false); float q = a.level(); int n = v.size(); if(n == 0) a.broken = false, a.odd = true; return {[=]() { return out(calc_quantile(v, q)); }, {n}}; }
OP("calc_quantile 3d", false) {
    int Y = a.dim(1, 4), X = a.dim(1, 4), E = a.dim(1, 4);
    vec2 q = a.v2("levels", Y, X, 0, 1, false);
    for(auto& row : q) for(float& x : row) if(!(x >= 0 && x <= 1)) x = 0.5;
    auto v = a.ens("v", Y, X, E, 0, 10, false);
    if(X == 0) a.odd = true;
    if(Y * X * E > 0 && a.brk("level")) q[a.s.draw(Y)][a.s.draw(X)] = 2;
    return {[=]() { return out(calc_quantile(v, q)); }, {}};
}
OP("interpolate", false) {
    int n = a.dim(1, 6);
    auto x = a.v1("x", n, 0, 10, false);
    std::sort(x.begin(), x.end(), [](float p, float q) { return (std::isnan(p) ? 99 : p) < (std::isnan(q) ? 99 : q); });
    if(a.pm > 0) a.odd = true;
    auto y = a.v1("y", n), q = a.v1("q", a.dim(1, 5), -2, 12, false);
    int N = q.size();
    return {[=]() { return out(interpolate(q, x, y)); }, {N}};
}
OP("indices", false) {
    auto x = a.v1("x", a.dim(1, 6), 0, 10, false);
    std::sort(x.begin(), x.end(), [](float p, float q) { return (std::isnan(p) ? 99 : p) < (std::isnan(q) ? 99 : q); });
    float q = a.val(-2, 12);
    a.odd = true;
    return {[=]() { return out((float) get_lower_index(q, x), (float) get_upper_index(q, x)); }, {}};
}
OP("num_missing_values", false) { auto v = a.v2("v", a.dim(1, 4), a.s.i(0, 5), 0, 10, false); return {[=]() { return out((float) num_missing_values(v)); }, {-1}}; }
// ---- locations
template<class T> Out queries(const T& p, float la, float lo, float r, int n, bool inc) {
    Out o;
    o.add(p.get_nearest_neighbour(la, lo, inc));
    o.add(p.get_neighbours(la, lo, r, inc));
    vec d;
    o.add(p.get_neighbours_with_distance(la, lo, r, d, inc));
    o.add(d);
    o.add((float) p.get_num_neighbours(la, lo, r, inc));
    o.add(p.get_closest_neighbours(la, lo, n, inc));
    o.dims.clear();
    return o;
}
OP("queries", false) {
    float la, lo;
    gen::loc(a.s, a.r, la, lo);
    if(a.fuzz && a.s.b(0.1)) { (a.s.b() ? la : lo) = a.special(); }
    float r = a.radius_any(); int n = NUM; bool inc = a.s.b();
    if(a.s.b()) { auto g = a.grid("g"); return {[=]() { return queries(g.grid(), la, lo, r, n, inc); }, {}}; }
    auto p = a.points("p");
    return {[=]() { Points q = p.points(); Out o; o.add(q.get_neighbours(la, lo, r, inc)); o.add((float) q.get_nearest_neighbour(la, lo, inc)); vec d; o.add(q.get_neighbours_with_distance(la, lo, r, d, inc)); o.add((float) q.get_num_neighbours(la, lo, r, inc)); o.add(q.get_closest_neighbours(la, lo, n, inc)); o.dims.clear(); return o; }, {}};
}
OP("views", false) {
    auto g = a.grid("g"); auto p = a.points("p");
    float la, lo;
    gen::loc(a.s, a.r, la, lo);
    int Y = a.par<int>("y", g.Y() ? a.s.draw(g.Y()) : 0, {}, {}), X = g.X() ? a.s.draw(g.X()) : 0, i = p.n() ? a.s.draw(p.n()) : 0;
    ivec idx;
    for(int k = a.s.i(0, 4); k > 0; k--) idx.push_back(p.n() ? a.s.draw(p.n()) : 0);
    if(a.brk("index")) idx.push_back(a.s.pick<int>({-1, p.n(), 1000000}));
    if(p.n() == 0 && !idx.empty()) a.odd = true;
    return {[=]() {
        Grid gg = g.grid(); Points pp = p.points();
        Out o;
        o.add(gg.to_points().get_lats());
        int a1, a2, a3, a4;
        bool f = gg.get_box(la, lo, a1, a2, a3, a4);
        o.add((float) f);
        if(f) o.add(ivec{a1, a2, a3, a4});
        o.add(pp.subset(idx).get_lons());
        o.add(pp.get_in_domain(gg).get_lats());
        if(g.Y()) o.add(gg.get_point(Y, X).elev);
        if(p.n()) o.add(pp.get_point(i).laf);
        o.dims.clear();
        return o;
    }, {}};
}
OP("grid sizes", false) {
    auto g = a.grid("g");
    gen::GeoGrid h = g;
    if(g.Y() == 0) a.odd = true;
    auto brk = [&](vec2& v, const char* n) {
        if(v.empty() || !a.brk(n)) return;
        int k = a.s.draw(3);
        if(k == 0) v.back().push_back(0);
        else if(k == 1) v.push_back(v[0]);
        else { if(v.size() == 1) v.push_back(v[0]); else v.pop_back(); }
    };
    brk(h.lats, "lats"); brk(h.lons, "lons");
    bool before = a.broken;
    brk(h.elevs, "elevs"); brk(h.lafs, "lafs");
    // Elevations and land area fractions of other sizes are replaced by missing values
    if(a.broken && !before) { a.broken = false; a.odd = true; }
    return {[=]() { return out(h.grid().get_lats()); }, {g.Y(), g.X()}};
}
OP("points sizes", false) {
    auto p = a.points("p");
    auto brk = [&](vec& v, const char* n) {
        if(v.empty() || !a.brk(n)) return;
        if(v.size() > 1 && a.s.b()) v.pop_back(); else v.push_back(0);
    };
    brk(p.lats, "lats"); brk(p.lons, "lons"); brk(p.elevs, "elevs"); brk(p.lafs, "lafs");
    int n = p.lats.size();
    return {[=]() { return out(p.points().get_lats()); }, {n}};
}
OP("structure grids", false) {
    auto g = a.grid("g", false);
    if(g.Y() == 0) { a.odd = true; }
    auto H = a.v2("h", g.Y(), g.X(), 0.1 * a.size(), a.size()), V = a.v2("v", g.Y(), g.X(), 50, 500), W = a.v2("w", g.Y(), g.X(), 0.1, 1);
    auto fix = [](vec2& v) { for(auto& r : v) for(float& x : r) if(!(x > 0)) x = 1; };
    fix(H); fix(V); fix(W);
    auto p = a.points("p");
    int k = a.s.draw(4);
    return {[=]() {
        std::shared_ptr<StructureFunction> st;
        if(k == 0) st = std::make_shared<BarnesStructure>(g.grid(), H, V, W);
        else if(k == 1) st = std::make_shared<SoarStructure>(g.grid(), H, V, W);
        else if(k == 2) st = std::make_shared<ToarStructure>(g.grid(), H, V, W);
        else st = std::make_shared<PowerlawStructure>(g.grid(), H, V, W);
        Out o;
        Points q = p.points();
        for(int i = 0; i < q.size(); i++) { o.add(st->corr(q.get_point(0), q.get_point(i))); o.add(st->localization_distance(q.get_point(i))); }
        o.dims.clear();
        return o;
    }, {}};
}
}
