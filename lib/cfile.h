// In-memory files and geometry for the command-line program's classes
#pragma once
#include "cgen.h"
#include "File/File.h"
typedef std::vector<std::vector<std::vector<float> > > vec3c;

namespace cg {
// A file in memory: geometry and fields are given, nothing is written anywhere
class Mem : public File {
    public:
        Mem(const vec2& lats, const vec2& lons, const vec2& elevs, const vec2& lafs, int E, const std::vector<double>& times, double ref = 0) : File("memory", Options()) {
            setLats(lats);
            setLons(lons);
            if(!elevs.empty()) setElevs(elevs);
            if(!lafs.empty()) setLandFractions(lafs);
            setNumEns(E);
            setTimes(times);
            setReferenceTime(ref);
        }
        std::string name() const { return "memory"; }
        void put(const Variable& v, const std::vector<vec3c>& values) { data[v.name()] = values; }      // [time][y][x][member]
        mutable std::vector<std::string> reads;
        int writes = 0;
    protected:
        FieldPtr getFieldCore(const Variable& v, int t) const {
            FieldPtr f = getEmptyField();
            const vec3c& d = data.at(v.name()).at(t);
            for(size_t y = 0; y < d.size(); y++) for(size_t x = 0; x < d[y].size(); x++) for(size_t e = 0; e < d[y][x].size(); e++) (*f)(y, x, e) = d[y][x][e];
            return f;
        }
        bool hasVariableCore(const Variable& v) const { return data.count(v.name()); }
        void writeCore(std::vector<Variable>, std::string) { writes++; }
    private:
        std::map<std::string, std::vector<vec3c> > data;
};
// The values of a field
inline vec3c get(const File& f, const Variable& v, int t) {
    FieldPtr p = f.getField(v, t);
    vec3c r(p->getNumY(), vec2(p->getNumX(), std::vector<float>(p->getNumEns())));
    for(int y = 0; y < p->getNumY(); y++) for(int x = 0; x < p->getNumX(); x++) for(int e = 0; e < p->getNumEns(); e++) r[y][x][e] = (*p)(y, x, e);
    return r;
}
inline bool same(float a, float b) { return a == b || (!ok(a) && !ok(b)); }

struct Geometry {
    vec2 lats, lons, elevs, lafs;
    std::string kind;
    int Y() const { return lats.size(); }
    int X() const { return lats[0].size(); }
};
inline std::string show(const Geometry& g) { return cat(g.kind, " lats ", g.lats, " lons ", g.lons, " elevs ", g.elevs, " lafs ", g.lafs); }
// The part of the globe in which one case happens
struct Region { double lat0, lon0, dlat, dlon; bool plain; };
inline Region region(Src& s, bool plain = false) {
    Region r;
    r.plain = true;
    int k = plain ? s.draw(4) : s.draw(8);
    r.dlat = s.pick<double>({1, 5, 0.1, 10});
    r.dlon = s.pick<double>({1, 5, 0.1, 10});
    if(k < 4) { r.lat0 = s.i(-60, 60); r.lon0 = s.i(-150, 150); }
    else {
        r.plain = false;
        if(k == 4) { r.lat0 = s.i(-60, 60); r.lon0 = s.b() ? 180 : -180; }      // date line
        else if(k == 5) { r.lat0 = s.b() ? 85 : -85; r.lon0 = s.i(-180, 180); }
        else { r.lat0 = 0; r.lon0 = 0; r.dlat = 90; r.dlon = 180; }
    }
    return r;
}
inline float clamp_lat(double v) { return std::min(90.0, std::max(-90.0, v)); }
inline float wrap_lon(double v) { return v > 180 ? v - 360 : v < -180 ? v + 360 : v; }
inline vec2 meta(Src& s, int Y, int X, double lo, double hi, double p) {
    vec2 r(Y, std::vector<float>(X));
    for(auto& y : r) for(float& x : y) x = s.b(p) ? (s.b(0.8) ? MV : NAN) : s.f(lo, hi);
    return r;
}
// Rectilinear (increasing or decreasing, uneven spacing), rotated, or scattered
inline Geometry geometry(Src& s, const Region& r, int n, bool rectilinear = false, double spread = 1, bool with_meta = true, double pmeta = 0.3) {
    Geometry g;
    int Y = s.i(1, n), X = s.i(1, n), k = rectilinear ? s.draw(2) : s.draw(4);
    g.lats = g.lons = vec2(Y, std::vector<float>(X));
    if(k < 2) {
        g.kind = "rectilinear";
        std::vector<double> a(Y), b(X);
        double da = 2.0 * r.dlat * spread / std::max(1, Y - 1), db = 2.0 * r.dlon * spread / std::max(1, X - 1);
        for(int y = 0; y < Y; y++) a[y] = r.lat0 - r.dlat * spread + da * (y + (k ? s.u(-0.4, 0.4) : 0));
        for(int x = 0; x < X; x++) b[x] = r.lon0 - r.dlon * spread + db * (x + (k ? s.u(-0.4, 0.4) : 0));
        if(s.b(0.3)) std::reverse(a.begin(), a.end());
        if(s.b(0.3)) std::reverse(b.begin(), b.end());
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { g.lats[y][x] = clamp_lat(a[y]); g.lons[y][x] = wrap_lon(b[x]); }
    }
    else if(k == 2) {
        g.kind = "rotated";
        double t = s.u(-3.14159, 3.14159), c = std::cos(t), q = std::sin(t);
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
            double u = 2.0 * y / std::max(1, Y - 1) - 1, v = 2.0 * x / std::max(1, X - 1) - 1;
            g.lats[y][x] = clamp_lat(r.lat0 + r.dlat * spread * 0.7 * (c * u - q * v));
            g.lons[y][x] = wrap_lon(r.lon0 + r.dlon * spread * 0.7 * (q * u + c * v));
        }
    }
    else {
        g.kind = "scattered";
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
            g.lats[y][x] = clamp_lat(r.lat0 + r.dlat * spread * (s.b(0.3) ? s.i(-4, 4) / 4.0 : s.u(-1, 1)));
            g.lons[y][x] = wrap_lon(r.lon0 + r.dlon * spread * (s.b(0.3) ? s.i(-4, 4) / 4.0 : s.u(-1, 1)));
        }
    }
    if(with_meta) {
        double p = s.b(pmeta) ? 0.2 : 0;
        if(s.b(0.9)) g.elevs = meta(s, Y, X, 0, s.b() ? 1000 : 100, p);
        if(s.b(0.8)) g.lafs = meta(s, Y, X, 0, 1, p);
    }
    return g;
}
// Values [time][y][x][member]
inline std::vector<vec3c> values(Src& s, int T, int Y, int X, int E, double lo, double hi, double p, bool ints = false) {
    std::vector<vec3c> r(T, vec3c(Y, vec2(X, std::vector<float>(E))));
    for(auto& t : r) for(auto& y : t) for(auto& x : y) for(float& e : x) { e = val(s, lo, hi, p); if(ints && ok(e)) e = std::floor(e); }
    return r;
}
// The cells that can count as the nearest one: the program computes distances with an error of several metres (angles are floats)
inline std::vector<std::pair<int, int> > nearest(const Geometry& g, float lat, float lon, double tol = 10) {
    std::vector<std::pair<int, int> > r;
    if(!ok(lat) || !ok(lon)) return r;
    double best = 1e99;
    for(int pass = 0; pass < 2; pass++) for(int y = 0; y < g.Y(); y++) for(int x = 0; x < g.X(); x++) {
        if(!ok(g.lats[y][x]) || !ok(g.lons[y][x])) continue;
        double d = distance(g.lats[y][x], g.lons[y][x], lat, lon);
        if(pass == 0) best = std::min(best, d);
        else if(d <= best * (1 + 1e-6) + tol) r.push_back(std::make_pair(y, x));
    }
    return r;
}
}
