// Generators and double-precision reference helpers for the gridpp API
#pragma once
#include "gridpp.h"
#include "pbt.h"
using namespace gridpp;
using pbt::Src;
using pbt::Ctx;
using pbt::cat;
using pbt::feq;
using pbt::str;

namespace ref {
const double PI = 3.14159265358979323846;
const double R = 6.378137e6;

// NaN-aware validity, as the library: NaN and +-inf are missing
inline bool ok(double v) { return !std::isnan(v) && !std::isinf(v); }

struct P3 { double x, y, z; };
inline P3 xyz(double lat, double lon, CoordinateType t) {
    if(t == Cartesian) return P3{lon, lat, 0};
    double a = lat * PI / 180, b = lon * PI / 180;
    return P3{std::cos(a) * std::cos(b) * R, std::cos(a) * std::sin(b) * R, std::sin(a) * R};
}
inline double chord(double la1, double lo1, double la2, double lo2, CoordinateType t) {
    P3 a = xyz(la1, lo1, t), b = xyz(la2, lo2, t);
    return std::sqrt((a.x-b.x)*(a.x-b.x) + (a.y-b.y)*(a.y-b.y) + (a.z-b.z)*(a.z-b.z));
}
// great-circle distance via haversine
inline double gc(double la1, double lo1, double la2, double lo2, CoordinateType t) {
    if(t == Cartesian) return chord(la1, lo1, la2, lo2, t);
    double h = chord(la1, lo1, la2, lo2, t) / (2 * R);
    return 2 * R * std::asin(std::min(1.0, h));
}
// Uncertainty of a straight-line distance computed from float coordinates (metres)
inline double tol(CoordinateType t, double scale = R) {
    return t == Geodetic ? 3.0 : std::max(1e-6 * scale, 1e-6);
}

inline double quantile(std::vector<double> v, double q) {
    // linear interpolation between order statistics at positions k/(n-1)
    if(v.empty()) return NAN;
    std::sort(v.begin(), v.end());
    double pos = q * (v.size() - 1);
    size_t lo = (size_t) std::floor(pos);
    if(lo + 1 >= v.size()) return v.back();
    return v[lo] + (v[lo + 1] - v[lo]) * (pos - lo);
}
inline double statistic(const std::vector<double>& all, Statistic st, double q = NAN) {
    std::vector<double> v;
    for(double x : all) if(ok(x)) v.push_back(x);
    if(st == Count) return v.size();
    if(v.empty()) return NAN;
    double s = 0;
    for(double x : v) s += x;
    double n = v.size(), m = s / n;
    if(st == Mean) return m;
    if(st == Sum) return s;
    if(st == Min) return *std::min_element(v.begin(), v.end());
    if(st == Max) return *std::max_element(v.begin(), v.end());
    if(st == Median) return quantile(v, 0.5);
    if(st == Quantile) return quantile(v, q);
    double d = 0;
    for(double x : v) d += (x - m) * (x - m);
    if(st == Variance) return d / n;
    if(st == Std) return std::sqrt(d / n);
    return NAN;
}
}

namespace gen {
// Swallows what the code under test prints on standard output
struct Quiet {
    std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(nullptr)) {}
    ~Quiet() { std::cout.rdbuf(old); std::cout.clear(); }
};
inline std::string stat_name(Statistic s) {
    switch(s) {
        case Mean: return "Mean"; case Min: return "Min"; case Median: return "Median"; case Max: return "Max";
        case Quantile: return "Quantile"; case Std: return "Std"; case Variance: return "Variance"; case Sum: return "Sum";
        case Count: return "Count"; case RandomChoice: return "RandomChoice"; default: return "Unknown";
    }
}
// Value with occasional missing
// A size that rarely is much larger than usual, since code may treat large inputs in another way
inline int size(Src& s, int lo, int hi, int big) { return s.b(0.01) ? s.i(lo, big) : s.i(lo, hi); }
inline float val(Src& s, double lo, double hi, double pmiss) {
    if(pmiss > 0 && s.b(pmiss)) return MV;
    return s.f(lo, hi);
}
inline vec values(Src& s, int n, double lo, double hi, double pmiss) {
    vec v(n);
    for(int i = 0; i < n; i++) v[i] = val(s, lo, hi, pmiss);
    return v;
}
inline vec2 values2(Src& s, int Y, int X, double lo, double hi, double pmiss) {
    vec2 v(Y);
    for(int i = 0; i < Y; i++) v[i] = values(s, X, lo, hi, pmiss);
    return v;
}
inline vec3 values3(Src& s, int Y, int X, int E, double lo, double hi, double pmiss) {
    vec3 v(Y);
    for(int i = 0; i < Y; i++) v[i] = values2(s, X, E, lo, hi, pmiss);
    return v;
}
// Missing rate: often none, sometimes some, rarely most
inline double pmiss(Src& s) {
    static const double p[] = {0, 0, 0.1, 0.3, 0.7};
    return p[s.draw(5)];
}

struct Geo {           // plain model of a set of locations
    vec lats, lons, elevs, lafs;
    CoordinateType type = Geodetic;
    int n() const { return lats.size(); }
    Points points() const { return Points(lats, lons, elevs, lafs, type); }
};
struct GeoGrid {
    vec2 lats, lons, elevs, lafs;
    CoordinateType type = Geodetic;
    int Y() const { return lats.size(); }
    int X() const { return lats.empty() ? 0 : lats[0].size(); }
    Grid grid() const { return Grid(lats, lons, elevs, lafs, type); }
    Geo flat() const {
        Geo g;
        g.type = type;
        for(int y = 0; y < Y(); y++) for(int x = 0; x < X(); x++) {
            g.lats.push_back(lats[y][x]);
            g.lons.push_back(lons[y][x]);
            if(!elevs.empty()) g.elevs.push_back(elevs[y][x]);
            if(!lafs.empty()) g.lafs.push_back(lafs[y][x]);
        }
        return g;
    }
};

// The region in which everything of one case happens
struct Region {
    CoordinateType type;
    double lat0, lon0, dlat, dlon;   // centre and half extents
};
inline Region region(Src& s, bool cartesian_ok = true) {
    Region r;
    r.type = Geodetic;
    int kind = s.draw(cartesian_ok ? 10 : 8);
    switch(kind) {
        case 0: case 1: case 2: r.lat0 = s.i(-60, 60); r.lon0 = s.i(-150, 150); break;
        case 3: r.lat0 = s.i(-60, 60); r.lon0 = s.b() ? 180 : -180; break;  // date line
        case 4: r.lat0 = 85; r.lon0 = s.i(-180, 180); break;                  // near pole
        case 5: r.lat0 = -85; r.lon0 = s.i(-180, 180); break;
        case 6: r.lat0 = 0; r.lon0 = 0; break;
        case 7: r.lat0 = 0; r.lon0 = 0; r.dlat = 90; r.dlon = 180; return r;     // whole globe
        default:
            r.type = Cartesian;
            r.lat0 = s.i(-3, 3) * 1000;
            r.lon0 = s.i(-3, 3) * 1000;
            r.dlat = r.dlon = s.pick<double>({10, 1000, 100, 1});
            return r;
    }
    r.dlat = s.pick<double>({1, 5, 0.1});
    r.dlon = s.pick<double>({1, 5, 0.1});
    return r;
}
inline float clamp_lat(double v, const Region& r) {
    if(r.type == Geodetic) { if(v > 90) v = 90; if(v < -90) v = -90; }
    return (float) v;
}
inline float wrap_lon(double v, const Region& r) { return (float) v; }
// A location in the region; often on a coarse lattice so that ties and duplicates happen
inline void loc(Src& s, const Region& r, float& lat, float& lon, double spread = 1) {
    double a, b;
    if(s.b(0.3)) { a = s.i(-4, 4) / 4.0; b = s.i(-4, 4) / 4.0; }
    else { a = s.u(-1, 1); b = s.u(-1, 1); }
    lat = clamp_lat(r.lat0 + a * r.dlat * spread, r);
    lon = wrap_lon(r.lon0 + b * r.dlon * spread, r);
}
inline void meta(Src& s, int n, vec& elevs, vec& lafs) {
    int k = s.draw(4);
    double pm = s.b(0.2) ? 0.2 : 0;
    if(k >= 1) elevs = values(s, n, 0, 1000, pm);
    if(k >= 2) lafs = values(s, n, 0, 1, pm);
    if(k == 3 && s.b(0.3)) elevs.clear();
}
inline Geo geo(Src& s, const Region& r, int nmin, int nmax, bool with_meta = true) {
    Geo g;
    g.type = r.type;
    int n = nmax > 4 ? size(s, nmin, nmax, 8 * nmax) : s.i(nmin, nmax);
    for(int i = 0; i < n; i++) {
        float la, lo;
        if(i > 0 && s.b(0.05)) { int k = s.i(0, i - 1); la = g.lats[k]; lo = g.lons[k]; }  // duplicate
        else loc(s, r, la, lo);
        g.lats.push_back(la);
        g.lons.push_back(lo);
    }
    if(with_meta) meta(s, n, g.elevs, g.lafs);
    return g;
}
// A grid: regular, stretched, rotated or sheared; rows/columns possibly in flipped order
inline GeoGrid grid(Src& s, const Region& r, int nmin, int nmax, bool with_meta = true, bool allow_rotation = true) {
    GeoGrid g;
    g.type = r.type;
    int Y = nmax > 3 ? size(s, nmin, nmax, 5 * nmax) : s.i(nmin, nmax), X = nmax > 3 ? size(s, nmin, nmax, 5 * nmax) : s.i(nmin, nmax);
    int kind = allow_rotation ? s.draw(4) : s.draw(2);
    double dlat = r.dlat, dlon = r.dlon;
    if(dlat > 45) dlat = 60;
    if(dlon > 90) dlon = 150;
    double lat0 = r.lat0;
    if(r.type == Geodetic) {
        // keep clear of the poles, so that latitudes are not clamped into degenerate rows
        if(std::fabs(lat0) + 2 * dlat > 89) { lat0 = lat0 > 0 ? 88 - 2 * dlat : (lat0 < 0 ? -88 + 2 * dlat : 0); if(dlat > 45) lat0 = 0; }
    }
    std::vector<double> ty(Y), tx(X);
    for(int y = 0; y < Y; y++) ty[y] = Y == 1 ? 0 : -1 + 2.0 * y / (Y - 1);
    for(int x = 0; x < X; x++) tx[x] = X == 1 ? 0 : -1 + 2.0 * x / (X - 1);
    if(kind == 1) {
        // stretched: uneven spacing
        for(int y = 1; y + 1 < Y; y++) ty[y] += (s.i(-4, 4) / 10.0) * 2.0 / (Y - 1);
        for(int x = 1; x + 1 < X; x++) tx[x] += (s.i(-4, 4) / 10.0) * 2.0 / (X - 1);
    }
    double m00 = 1, m01 = 0, m10 = 0, m11 = 1;
    if(kind == 2) { double a = s.i(-8, 8) * 0.1; m00 = std::cos(a) * 0.7; m01 = -std::sin(a) * 0.7; m10 = std::sin(a) * 0.7; m11 = std::cos(a) * 0.7; }
    if(kind == 3) { m01 = s.i(-5, 5) * 0.1; m10 = s.i(-5, 5) * 0.1; m00 = 0.7; m11 = 0.7; }
    bool fy = s.b(0.2), fx = s.b(0.2);
    g.lats = vec2(Y, vec(X));
    g.lons = vec2(Y, vec(X));
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        double a = ty[fy ? Y - 1 - y : y], b = tx[fx ? X - 1 - x : x];
        double la = m00 * a + m01 * b, lo = m10 * a + m11 * b;
        g.lats[y][x] = (float) (lat0 + la * dlat);
        g.lons[y][x] = (float) (r.lon0 + lo * dlon);
    }
    if(s.b(0.15)) {
        // stored with rows and columns swapped
        vec2 la(X, vec(Y)), lo(X, vec(Y));
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { la[x][y] = g.lats[y][x]; lo[x][y] = g.lons[y][x]; }
        g.lats = la;
        g.lons = lo;
        std::swap(Y, X);
    }
    if(with_meta) {
        int k = s.draw(3);
        double pm = s.b(0.2) ? 0.2 : 0;
        if(k >= 1) g.elevs = values2(s, Y, X, 0, 1000, pm);
        if(k >= 2) g.lafs = values2(s, Y, X, 0, 1, pm);
    }
    return g;
}
inline std::string show(const Geo& g) { return cat(g.type == Geodetic ? "geodetic" : "cartesian", " lats=", str(g.lats), " lons=", str(g.lons), " elevs=", str(g.elevs), " lafs=", str(g.lafs)); }
inline std::string show(const GeoGrid& g) { return cat(g.type == Geodetic ? "geodetic" : "cartesian", " lats=", str(g.lats), " lons=", str(g.lons), " elevs=", str(g.elevs), " lafs=", str(g.lafs)); }
inline bool same_vec(const vec& a, const vec& b) {
    if(a.size() != b.size()) return false;
    for(size_t i = 0; i < a.size(); i++) if(!pbt::same(a[i], b[i])) return false;
    return true;
}
inline bool same_vec(const vec2& a, const vec2& b) {
    if(a.size() != b.size()) return false;
    for(size_t i = 0; i < a.size(); i++) if(!same_vec(a[i], b[i])) return false;
    return true;
}
inline bool same_vec(const vec3& a, const vec3& b) {
    if(a.size() != b.size()) return false;
    for(size_t i = 0; i < a.size(); i++) if(!same_vec(a[i], b[i])) return false;
    return true;
}
}
