// P18: calibration curves, tables and their monotone correction
#include "gen.h"

namespace {
const double EPS = 6e-8;
struct Range { double lo, hi; };
// Every acceptable value at x of the table with non-decreasing X (the documented rules for repeated
// points, in double precision); the range covers rounding
Range table(double x, const vec& X, const vec& Y) {
    int n = X.size();
    double v, scale = 0;
    for(float y : Y) scale = std::max(scale, std::fabs((double) y));
    if(x > X[n - 1]) v = Y[n - 1];
    else if(x < X[0]) v = Y[0];
    else {
        int first = -1, last = -1;      // the elements equal to x
        for(int i = 0; i < n; i++) if(X[i] == x) { if(first < 0) first = i; last = i; }
        if(first >= 0) {
            if(first == 0 && last == n - 1) v = ((double) Y[0] + Y[n - 1]) / 2;
            else if(first == last) v = Y[first];
            else if(first == 0) v = Y[last];
            else if(last == n - 1) v = Y[first];
            else v = ((double) Y[first] + Y[last]) / 2;
        }
        else {
            int i = 0;
            while(X[i + 1] < x) i++;
            v = Y[i] + ((double) Y[i + 1] - Y[i]) * (x - X[i]) / ((double) X[i + 1] - X[i]);
        }
    }
    double e = 8 * EPS * scale + 1e-30;
    return Range{v - e, v + e};
}
vec sorted(Src& s, int n, double lo, double hi) {
    int kind = s.draw(4);
    double offset = kind == 3 ? 270 : 0, scale = kind == 3 ? 0.02 : 1;
    vec v(n);
    for(float& x : v) x = (float) ((kind == 1 ? s.i(0, 4) : s.real(lo, hi)) * scale + offset);
    std::sort(v.begin(), v.end());
    return v;
}
// A value in, at the nodes of, or outside the table
float query(Src& s, const vec& X) {
    double lo = X.front(), hi = X.back(), w = std::max(hi - lo, 0.01);
    switch(s.draw(6)) {
        case 0: return X[s.i(0, X.size() - 1)];
        case 1: return (float) (lo - s.u(0, 1) * w);
        case 2: return (float) (hi + s.u(0, 1) * w);
        case 3: return (float) (s.b() ? lo - s.u(0, 1e-3) * w : hi + s.u(0, 1e-3) * w);
        default: return (float) s.u(lo, hi);
    }
}
std::string pol(Extrapolation e) {
    return e == OneToOne ? "OneToOne" : e == MeanSlope ? "MeanSlope" : e == NearestSlope ? "NearestSlope" : e == Zero ? "Zero" : "Unchanged";
}
const std::initializer_list<Extrapolation> POL = {OneToOne, MeanSlope, NearestSlope, Zero, Unchanged};
}

PROP(P18, interpolate, 800000, 6000000) {
    int n = gen::size(s, 1, 9, 150);
    vec X = sorted(s, n, -10, 10), Y = gen::values(s, n, -10, 10, 0);
    float x = query(s, X);
    LOG(c, "x ", x, " table ", X, " -> ", Y);
    float got = gridpp::interpolate(x, X, Y);
    Range r = table(x, X, Y);
    c.nontrivial(n > 1 && x >= X[0] && x <= X[n - 1]);
    bool rep = false;
    for(int i = 1; i < n; i++) rep |= X[i] == X[i - 1];
    c.label(rep ? "repeated" : "distinct");
    REQUIRE(c, got >= r.lo && got <= r.hi, "interpolation gives ", got, " but it should be within ", r.lo, " and ", r.hi);
    REQUIRE(c, std::isnan(gridpp::interpolate((float) NAN, X, Y)), "a missing value becomes valid");
    // array version
    vec xs(s.i(0, 5));
    for(float& v : xs) v = s.b(0.1) ? (float) NAN : query(s, X);
    vec out = gridpp::interpolate(xs, X, Y);
    REQUIRE(c, out.size() == xs.size(), "size");
    for(size_t k = 0; k < xs.size(); k++)
        REQUIRE(c, pbt::same(out[k], gridpp::interpolate(xs[k], X, Y)), "array version: ", out[k], " for ", xs[k]);
}

PROP(P18, table_lookup, 400000, 2000000) {
    // the indices that bracket a value
    int n = gen::size(s, 1, 8, 150);
    vec X = sorted(s, n, -10, 10);
    float x = query(s, X);
    LOG(c, "x ", x, " in ", X);
    c.nontrivial(n > 1 && x > X[0] && x < X[n - 1]);
    if(x >= X[0]) {
        int i = gridpp::get_lower_index(x, X);
        LOG(c, "lower ", i);
        REQUIRE(c, i >= 0 && i < n && X[i] <= x, "lower index ", i);
        for(int k = 0; k < n; k++) REQUIRE(c, !(X[k] <= x && X[k] > X[i]), "lower index ", i, " but element ", k, " is closer");
    }
    if(x <= X[n - 1]) {
        int i = gridpp::get_upper_index(x, X);
        LOG(c, "upper ", i);
        REQUIRE(c, i >= 0 && i < n && X[i] >= x, "upper index ", i);
        for(int k = 0; k < n; k++) REQUIRE(c, !(X[k] >= x && X[k] < X[i]), "upper index ", i, " but element ", k, " is closer");
    }
}

PROP(P18, apply, 1000000, 8000000) {
    int n = gen::size(s, 1, 8, 150);
    vec X = sorted(s, n, -10, 10), Y = gen::values(s, n, -10, 10, 0);
    if(s.b(0.3)) std::sort(Y.begin(), Y.end());
    Extrapolation below = s.pick(POL), above = s.pick(POL);
    float x = query(s, X);
    LOG(c, "input ", x, " curve ", X, " -> ", Y, " below ", pol(below), " above ", pol(above));
    float got = gridpp::apply_curve(x, Y, X, below, above);
    double xs = std::max(std::fabs((double) X[0]), std::fabs((double) X[n - 1])), ys = 0;
    for(float y : Y) ys = std::max(ys, std::fabs((double) y));
    if(x >= X[0] && x <= X[n - 1]) {
        Range r = table(x, X, Y);
        c.label("inside");
        c.nontrivial(n > 1);
        REQUIRE(c, got >= r.lo && got <= r.hi, "inside the curve the result is ", got, " but should be within ", r.lo, " and ", r.hi);
        return;
    }
    bool lower = x < X[0];
    Extrapolation p = lower ? below : above;
    double x0 = lower ? X[0] : X[n - 1], y0 = lower ? Y[0] : Y[n - 1], slope = 1, serr = 0;
    if(p == Zero) slope = 0;
    else if(p == MeanSlope && n > 1) slope = ((double) Y[n - 1] - Y[0]) / ((double) X[n - 1] - X[0]);
    else if(p == NearestSlope && n > 1) slope = lower ? ((double) Y[1] - Y[0]) / ((double) X[1] - X[0]) : ((double) Y[n - 1] - Y[n - 2]) / ((double) X[n - 1] - X[n - 2]);
    if(!ref::ok(slope)) { c.label("vertical"); return; }
    c.label(cat(lower ? "below_" : "above_", pol(p)));
    c.nontrivial(n > 1 && below != above);
    double want = p == Unchanged ? (double) x : y0 + slope * (x - x0);
    double tol = p == Unchanged ? 0 : 8 * EPS * (ys + std::fabs(want)) + 8 * EPS * std::fabs(slope) * std::fabs(x - x0) + 1e-30;
    REQUIRE(c, std::fabs(got - want) <= tol, "outside the curve the result is ", got, " but ", pol(p), " gives ", want);
    // continuous at the end point (unless it is repeated)
    if(p != Unchanged && n > 1 && X[0] < X[1] && X[n - 2] < X[n - 1]) {
        float e = lower ? X[0] : X[n - 1];
        float at = gridpp::apply_curve(e, Y, X, below, above), near = gridpp::apply_curve(std::nextafterf(e, lower ? -1e9f : 1e9f), Y, X, below, above);
        REQUIRE(c, std::fabs(at - near) <= 8 * EPS * (ys + std::fabs(slope) * (xs + 1)), "not continuous at the end: ", at, " and ", near);
    }
}

PROP(P18, arrays, 200000, 1500000) {
    int Yn = s.i(1, 4), Xn = s.i(1, 5), n = s.i(1, 6);
    Extrapolation below = s.pick(POL), above = s.pick(POL);
    vec X = sorted(s, n, -10, 10), Y = gen::values(s, n, -10, 10, 0);
    vec2 f(Yn, vec(Xn));
    vec3 cx(Yn, vec2(Xn)), cy(Yn, vec2(Xn));
    for(int y = 0; y < Yn; y++) for(int x = 0; x < Xn; x++) {
        f[y][x] = s.b(0.1) ? (float) NAN : query(s, X);
        cx[y][x] = sorted(s, n, -10, 10);
        cy[y][x] = gen::values(s, n, -10, 10, 0);
    }
    LOG(c, "field ", f, " curve ", X, " -> ", Y, " below ", pol(below), " above ", pol(above), " local curves ", cx, " -> ", cy);
    c.nontrivial(Yn > 1 && Xn > 1 && n > 1 && Yn != Xn);
    vec2 o2 = gridpp::apply_curve(f, Y, X, below, above), o3 = gridpp::apply_curve(f, cy, cx, below, above);
    REQUIRE(c, (int) o2.size() == Yn && (int) o3.size() == Yn, "shape");
    for(int y = 0; y < Yn; y++) {
        vec o1 = gridpp::apply_curve(f[y], Y, X, below, above);
        REQUIRE(c, (int) o1.size() == Xn && (int) o2[y].size() == Xn && (int) o3[y].size() == Xn, "shape");
        for(int x = 0; x < Xn; x++) {
            float w = gridpp::apply_curve(f[y][x], Y, X, below, above), wl = gridpp::apply_curve(f[y][x], cy[y][x], cx[y][x], below, above);
            REQUIRE(c, pbt::same(o1[x], w), "1D version gives ", o1[x], " for ", f[y][x], ", the scalar version ", w);
            REQUIRE(c, pbt::same(o2[y][x], w), "2D version gives ", o2[y][x], " for ", f[y][x], ", the scalar version ", w);
            REQUIRE(c, pbt::same(o3[y][x], wl), "version with local curves gives ", o3[y][x], " at (", y, ",", x, "), the scalar version ", wl);
            if(!ref::ok(f[y][x])) REQUIRE(c, !ref::ok(o2[y][x]) && !ref::ok(o3[y][x]), "a missing value becomes valid");
        }
    }
}

PROP(P18, monotonize, 600000, 4000000) {
    int n = gen::size(s, 1, 12, 150);
    int kind = s.draw(4);
    vec X(n), Y(n);
    double pm = s.b(0.3) ? 0.15 : 0;
    for(int i = 0; i < n; i++) {
        double step = kind == 0 ? s.i(0, 12) : kind == 1 ? i + s.i(-2, 2) : kind == 2 ? i * 0.2 + s.u(-0.3, 0.3) : i + (s.b(0.1) ? s.i(-4, 4) : 0);
        X[i] = (float) step;
        Y[i] = s.f(-10, 10);
        if(s.b(pm)) (s.b() ? X[i] : Y[i]) = (float) NAN;
    }
    vec vx, vy;
    for(int i = 0; i < n; i++) if(ref::ok(X[i]) && ref::ok(Y[i])) { vx.push_back(X[i]); vy.push_back(Y[i]); }
    if(vx.empty()) throw pbt::Discard();
    LOG(c, "x ", X, " y ", Y);
    vec ox, oy = gridpp::monotonize_curve(Y, X, ox);
    LOG(c, "gives x ", ox, " y ", oy);
    REQUIRE(c, ox.size() == oy.size(), "sizes ", ox.size(), " and ", oy.size());
    const double TOL = 0.1;    // the separation that the method asks for
    // A point is on the monotone part if all earlier points are clearly lower and all later ones clearly higher
    int m = vx.size();
    vec wx, wy;
    bool sure = true;
    for(int i = 0; i < m; i++) {
        double before = -1e30, after = 1e30;
        for(int j = 0; j < i; j++) before = std::max(before, (double) vx[j]);
        for(int j = i + 1; j < m; j++) after = std::min(after, (double) vx[j]);
        // differences between nothing and somewhat more than the separation can go either way
        if((vx[i] - before > 0 && vx[i] - before < 2.01 * TOL) || (after - vx[i] > 0 && after - vx[i] < 2.01 * TOL)) sure = false;
        if(vx[i] > before && vx[i] < after) { wx.push_back(vx[i]); wy.push_back(vy[i]); }
    }
    c.nontrivial(wx.size() > 1 && (int) wx.size() < m);
    c.label((int) wx.size() == m ? "monotone" : sure ? "loops" : "close");
    for(size_t k = 1; k < ox.size(); k++) REQUIRE(c, ox[k] > ox[k - 1], "the result is not increasing");
    size_t j = 0;
    for(size_t k = 0; k < ox.size(); k++) {
        while(j < vx.size() && !(vx[j] == ox[k] && vy[j] == oy[k])) j++;
        REQUIRE(c, j < vx.size(), "result point ", k, " is not a point of the curve (in order)");
        j++;
    }
    if(sure) {
        REQUIRE(c, ox == wx && oy == wy, "the points on the monotone part are x ", wx, " y ", wy);
    }
}

PROP(P18, refused, 40000, 100000) {
    int n = s.i(0, 4), m = s.i(0, 4);
    if(n == m && n != 0) m++;
    vec a = gen::values(s, n, 0, 5, 0), b = gen::values(s, m, 0, 5, 0);
    int k = s.draw(5);
    LOG(c, "kind ", k, " sizes ", n, " and ", m);
    c.nontrivial();
    bool thrown = false;
    vec o;
    try {
        if(k == 0) gridpp::apply_curve(1.0f, a, b, OneToOne, Zero);
        if(k == 1) gridpp::apply_curve(vec(2, 1), a, b, OneToOne, Zero);
        if(k == 2) gridpp::apply_curve(vec2(2, vec(2, 1)), a, b, OneToOne, Zero);
        if(k == 3) gridpp::monotonize_curve(a, b, o);
        if(k == 4) { if(n == m) return; gridpp::interpolate(1.0f, a, b); }
    }
    catch(const std::invalid_argument& e) { thrown = true; }
    REQUIRE(c, thrown, "sizes ", n, " and ", m, " were accepted by ", k);
}
