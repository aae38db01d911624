// Shared reference for nearest / bilinear downscaling
#pragma once
#include "gen.h"

namespace ds {
struct Q { double lat, lon; };
// Signed margin of m in the convex quadrilateral (coordinate units): > 0 inside, < 0 outside
inline double margin(const Q* p, Q m) {
    double area = 0, best = 1e99;
    for(int k = 0; k < 4; k++) { Q a = p[k], b = p[(k + 1) % 4]; area += a.lon * b.lat - b.lon * a.lat; }
    double sgn = area > 0 ? 1 : -1;
    for(int k = 0; k < 4; k++) {
        Q a = p[k], b = p[(k + 1) % 4];
        double ex = b.lon - a.lon, ey = b.lat - a.lat, len = std::sqrt(ex * ex + ey * ey);
        best = std::min(best, sgn * (ex * (m.lat - a.lat) - ey * (m.lon - a.lon)) / len);
    }
    return best;
}
// Inverse bilinear map by Newton iteration: p = order (0,0), (0,1), (1,1), (1,0) in (v, u)
inline bool inverse(const Q* p, Q m, double& u, double& v) {
    double bu = 0.5, bv = 0.5;
    for(int start = 0; start < 5; start++) {
        u = start == 0 ? 0.5 : (start & 1 ? 0.1 : 0.9);
        v = start == 0 ? 0.5 : (start & 2 ? 0.1 : 0.9);
        for(int it = 0; it < 60; it++) {
            double fx = (1-u)*(1-v)*p[0].lon + u*(1-v)*p[1].lon + u*v*p[2].lon + (1-u)*v*p[3].lon - m.lon;
            double fy = (1-u)*(1-v)*p[0].lat + u*(1-v)*p[1].lat + u*v*p[2].lat + (1-u)*v*p[3].lat - m.lat;
            double xu = (1-v)*(p[1].lon-p[0].lon) + v*(p[2].lon-p[3].lon), xv = (1-u)*(p[3].lon-p[0].lon) + u*(p[2].lon-p[1].lon);
            double yu = (1-v)*(p[1].lat-p[0].lat) + v*(p[2].lat-p[3].lat), yv = (1-u)*(p[3].lat-p[0].lat) + u*(p[2].lat-p[1].lat);
            double det = xu * yv - xv * yu;
            if(det == 0) break;
            double du = (fx * yv - fy * xv) / det, dv = (fy * xu - fx * yu) / det;
            u -= du; v -= dv;
            if(std::fabs(du) + std::fabs(dv) < 1e-13) break;
        }
        if(u > -0.02 && u < 1.02 && v > -0.02 && v < 1.02) return true;
    }
    return false;
}
struct Where {                       // all that is acceptable for one output location
    std::vector<int> nearest;        // flat indices at minimal distance (within tolerance)
    bool nearest_ok = false;         // falling back to the nearest neighbour is acceptable
    struct Cell { int y, x; double u, v, eps; };
    std::vector<Cell> cells;         // cells in which the location may be
    bool clear_in = false;           // clearly inside one cell
    bool skewed = false;
};
inline Where where(const gen::GeoGrid& g, float lat, float lon) {
    Where w;
    int Y = g.Y(), X = g.X();
    double maxc = std::max(std::fabs(lat), std::fabs(lon));
    double best = 1e99;
    std::vector<double> d(Y * X);
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        maxc = std::max(maxc, (double) std::max(std::fabs(g.lats[y][x]), std::fabs(g.lons[y][x])));
        d[y * X + x] = ref::chord(lat, lon, g.lats[y][x], g.lons[y][x], g.type);
        best = std::min(best, d[y * X + x]);
    }
    for(int i = 0; i < Y * X; i++) if(d[i] <= best + 2 * ref::tol(g.type, maxc)) w.nearest.push_back(i);
    double eps = 2e-6 * maxc + 1e-9;
    w.nearest_ok = true;
    for(int y = 0; y + 1 < Y; y++) for(int x = 0; x + 1 < X; x++) {
        Q p[4] = {{g.lats[y][x], g.lons[y][x]}, {g.lats[y][x + 1], g.lons[y][x + 1]}, {g.lats[y + 1][x + 1], g.lons[y + 1][x + 1]}, {g.lats[y + 1][x], g.lons[y + 1][x]}};
        double m = margin(p, Q{lat, lon});
        if(m > -eps) {
            double u, v;
            if(!inverse(p, Q{lat, lon}, u, v)) { u = 0; v = 0; w.nearest_ok = true; continue; }
            double size = 1e99;
            for(int k = 0; k < 4; k++) size = std::min(size, std::hypot(p[k].lat - p[(k + 1) % 4].lat, p[k].lon - p[(k + 1) % 4].lon));
            double area = 0;
            for(int k = 0; k < 4; k++) area += p[k].lon * p[(k + 1) % 4].lat - p[(k + 1) % 4].lon * p[k].lat;
            // relative uncertainty of u and v due to float coordinates; larger in thin cells
            w.cells.push_back({y, x, std::min(1.0, std::max(0.0, u)), std::min(1.0, std::max(0.0, v)), 1e-4 + 10 * 6e-8 * maxc / size + 10 * 6e-8 * maxc * size / (std::fabs(area) / 2)});
            if(m > eps) {
                w.clear_in = true;
                w.nearest_ok = false;
                for(int i : w.nearest) { int a = i / X, b = i % X; if(a < y || a > y + 1 || b < x || b > x + 1) w.skewed = true; }
            }
        }
    }
    if(w.skewed) w.nearest_ok = true;
    return w;
}
// Is `got` an acceptable nearest-neighbour value?
inline bool ok_nearest(const Where& w, const gen::GeoGrid& g, const vec2& f, float got) {
    for(int i : w.nearest) if(pbt::same(f[i / g.X()][i % g.X()], got)) return true;
    return false;
}
inline bool ok_bilinear(const Where& w, const gen::GeoGrid& g, const vec2& f, float got, double extra = 0) {
    bool nn = w.nearest_ok;
    for(const Where::Cell& k : w.cells) {
        double a = f[k.y][k.x], b = f[k.y][k.x + 1], c = f[k.y + 1][k.x + 1], d = f[k.y + 1][k.x];
        if(!ref::ok(a) || !ref::ok(b) || !ref::ok(c) || !ref::ok(d)) { nn = true; continue; }
        double want = (1 - k.u) * (1 - k.v) * a + k.u * (1 - k.v) * b + k.u * k.v * c + (1 - k.u) * k.v * d;
        double rng = std::max(std::max(a, b), std::max(c, d)) - std::min(std::min(a, b), std::min(c, d));
        double mx = std::max(std::max(std::fabs(a), std::fabs(b)), std::max(std::fabs(c), std::fabs(d)));
        if(std::fabs(got - want) <= k.eps * rng + 1e-5 * mx + 1e-6 + extra) return true;
    }
    if(nn) return ok_nearest(w, g, f, got);
    return false;
}
inline std::string explain(const Where& w, const gen::GeoGrid& g, const vec2& f) {
    std::string o = "nearest:";
    for(int i : w.nearest) o += cat(" ", f[i / g.X()][i % g.X()]);
    for(const Where::Cell& k : w.cells) {
        double a = f[k.y][k.x], b = f[k.y][k.x + 1], c = f[k.y + 1][k.x + 1], d = f[k.y + 1][k.x];
        o += cat("; cell ", k.y, ",", k.x, " u=", k.u, " v=", k.v, " eps=", k.eps, " value=", (1 - k.u) * (1 - k.v) * a + k.u * (1 - k.v) * b + k.u * k.v * c + (1 - k.u) * k.v * d);
    }
    return o + (w.nearest_ok ? " (nearest acceptable)" : "");
}
// Are all cells convex, with no corner close to being flat or folded?
inline bool convex(const gen::GeoGrid& g) {
    for(int y = 0; y + 1 < g.Y(); y++) for(int x = 0; x + 1 < g.X(); x++) {
        Q p[4] = {{g.lats[y][x], g.lons[y][x]}, {g.lats[y][x + 1], g.lons[y][x + 1]}, {g.lats[y + 1][x + 1], g.lons[y + 1][x + 1]}, {g.lats[y + 1][x], g.lons[y + 1][x]}};
        double area = 0;
        for(int k = 0; k < 4; k++) area += (p[k].lon * p[(k + 1) % 4].lat - p[(k + 1) % 4].lon * p[k].lat) / 2;
        for(int k = 0; k < 4; k++) {
            Q a = p[k], b = p[(k + 1) % 4], c = p[(k + 2) % 4];
            double cr = (b.lon - a.lon) * (c.lat - b.lat) - (b.lat - a.lat) * (c.lon - b.lon);
            if(cr * area <= 0 || std::fabs(cr) < 0.1 * std::fabs(area)) return false;
        }
    }
    return true;
}
// Push every node of a regular grid by up to `frac` of the spacing, so that cells are general
// quadrilaterals (less if that would give cells that are not convex)
inline void distort(Src& s, gen::GeoGrid& g, double frac) {
    int Y = g.Y(), X = g.X();
    if(Y < 2 || X < 2) return;
    double dy = std::hypot(g.lats[1][0] - g.lats[0][0], g.lons[1][0] - g.lons[0][0]), dx = std::hypot(g.lats[0][1] - g.lats[0][0], g.lons[0][1] - g.lons[0][0]);
    double d = std::min(dx, dy) * frac;
    std::vector<int> a(Y * X), b(Y * X);
    for(int i = 0; i < Y * X; i++) { a[i] = s.i(-10, 10); b[i] = s.i(-10, 10); }
    gen::GeoGrid orig = g;
    for(int attempt = 0; attempt < 4; attempt++, d /= 2) {
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
            float la = orig.lats[y][x] + (float) (a[y * X + x] * 0.1 * d);
            if(g.type == Cartesian || std::fabs(la) < 89.5) g.lats[y][x] = la;
            g.lons[y][x] = orig.lons[y][x] + (float) (b[y * X + x] * 0.1 * d);
        }
        if(convex(g)) return;
    }
    g = orig;
}
}
