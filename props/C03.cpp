// C03: the calibrators of the command-line program
#include "cfile.h"
#include "linalg.h"
#include "Calibrator/Calibrator.h"
#include "ParameterFile/ParameterFile.h"
#include <boost/math/distributions/gamma.hpp>
#include <boost/math/distributions/normal.hpp>
#include <boost/math/distributions/students_t.hpp>
#include <functional>
#include <iomanip>
#include <memory>
#include <omp.h>

namespace {
typedef std::vector<float> Set;
const double NONE = std::numeric_limits<double>::quiet_NaN();       // missing is expected
class PMem : public ParameterFile {
    public:
        PMem() : ParameterFile(Options()) {}
        bool isFixedSize() const { return true; }
        bool isReadable() const { return true; }
        std::string name() const { return "memory"; }
};
struct Loc { float lat, lon, elev; };
// Parameters: none, the same everywhere, or at locations; at one or at all times
struct Pars {
    bool any = false, spatial = false;
    std::vector<Loc> locs;
    std::vector<std::vector<Set> > sets;    // [location][time]
    std::unique_ptr<PMem> file;
    int times() const { return sets.empty() ? 0 : sets[0].size(); }
    // The sets that apply at a point
    std::vector<Set> at(int t, float lat, float lon) const {
        std::vector<Set> r;
        if(!any) { r.push_back(Set()); return r; }
        int q = times() == 1 ? 0 : t;
        if(!spatial) { r.push_back(sets[0][q]); return r; }
        for(size_t k = 0; k < locs.size(); k++) if(locs[k].lat == lat && locs[k].lon == lon) { r.push_back(sets[k][q]); return r; }
        double best = 1e99;
        for(int pass = 0; pass < 2; pass++) for(size_t k = 0; k < locs.size(); k++) {
            double d = cg::distance(locs[k].lat, locs[k].lon, lat, lon);
            if(pass == 0) best = std::min(best, d);
            else if(d <= best * (1 + 1e-6) + 10) r.push_back(sets[k][q]);
        }
        return r;
    }
};
struct Case {
    cg::Region r;
    cg::Geometry g;
    int T, E;
    double top = 1000;      // highest location
    std::map<std::string, std::vector<vec3c> > data;
    std::unique_ptr<cg::Mem> file;
    Pars par;
    std::string options;
    int Y() const { return g.Y(); }
    int X() const { return g.X(); }
};
void geometry(Src& s, Case& c, int n = 5, bool elevs = false) {
    c.r = cg::region(s, true);
    c.g = cg::geometry(s, c.r, s.b(0.03) ? 14 : n);
    if(elevs && c.g.elevs.empty()) c.g.elevs = cg::meta(s, c.g.Y(), c.g.X(), 0, 1000, 0);
    c.T = s.i(1, 3);
    c.E = s.i(1, 3);
}
void field(Src& s, Case& c, const std::string& name, double lo, double hi, double p = -1, bool ints = false) {
    c.data[name] = cg::values(s, c.T, c.Y(), c.X(), c.E, lo, hi, p < 0 ? cg::pmiss(s) : p, ints || s.b(0.15));
}
void parameters(Src& s, Case& c, std::function<Set()> make, int spatial = -1, int timed = -1) {
    Pars& p = c.par;
    p.any = true;
    p.spatial = spatial < 0 ? s.b(0.5) : spatial;
    int nt = (timed < 0 ? s.b(0.4) : timed) ? c.T : 1, nl = p.spatial ? s.i(1, 5) : 1;
    for(int k = 0; k < nl; k++) {
        Loc l = {cg::MV, cg::MV, cg::MV};
        if(p.spatial) {
            int y = s.draw(c.Y()), x = s.draw(c.X());
            if(s.b(0.6)) { l.lat = c.g.lats[y][x]; l.lon = c.g.lons[y][x]; }
            else { l.lat = cg::clamp_lat(c.r.lat0 + c.r.dlat * s.u(-1.3, 1.3)); l.lon = cg::wrap_lon(c.r.lon0 + c.r.dlon * s.u(-1.3, 1.3)); }
            l.elev = s.b(0.8) ? s.f(0, c.top) : cg::MV;
            bool old = false;
            for(auto& o : p.locs) old = old || (o.lat == l.lat && o.lon == l.lon);
            if(old) continue;
        }
        p.locs.push_back(l);
        std::vector<Set> v;
        for(int t = 0; t < nt; t++) v.push_back(make());
        p.sets.push_back(v);
    }
    p.file.reset(new PMem());
    for(size_t k = 0; k < p.locs.size(); k++) for(int t = 0; t < nt; t++) p.file->setParameters(Parameters(p.sets[k][t]), t, Location(p.locs[k].lat, p.locs[k].lon, p.locs[k].elev));
    p.file->recomputeTree();
}
std::vector<vec3c> run(Src& s, Ctx& c, Case& k, const std::string& scheme, const std::string& target, const std::set<std::string>& outputs = std::set<std::string>()) {
    std::vector<double> times;
    for(int t = 0; t < k.T; t++) times.push_back(t * 3600.0);
    k.file.reset(new cg::Mem(k.g.lats, k.g.lons, k.g.elevs, k.g.lafs, k.E, times));
    for(auto& d : k.data) {
        k.file->put(Variable(d.first), d.second);
        for(int t = 0; t < k.T; t++) if(s.b(0.2)) k.file->getField(d.first, t);
    }
    std::ostringstream ps;
    for(size_t l = 0; l < k.par.locs.size(); l++) ps << "\n    " << k.par.locs[l].lat << " " << k.par.locs[l].lon << " " << k.par.locs[l].elev << ": " << cat(k.par.sets[l]);
    LOG(c, "-c ", scheme, " ", k.options, " target ", target, " members ", k.E, " times ", k.T, " ", cg::show(k.g), " parameters", ps.str());
    for(auto& d : k.data) LOG(c, "  ", d.first, " ", d.second);
    omp_set_num_threads(s.i(1, 3));
    std::unique_ptr<Calibrator> cal(Calibrator::getScheme(scheme, Variable(target), Options(k.options)));
    REQUIRE(c, cal->name() == scheme, "the name is ", cal->name());
    REQUIRE(c, cal->calibrate(*k.file, k.par.any ? k.par.file.get() : nullptr), "not successful");
    auto equal = [](const vec2& a, const vec2& b) {
        if(a.size() != b.size()) return false;
        for(size_t y = 0; y < a.size(); y++) {
            if(a[y].size() != b[y].size()) return false;
            for(size_t x = 0; x < a[y].size(); x++) if(!cg::same(a[y][x], b[y][x])) return false;
        }
        return true;
    };
    REQUIRE(c, equal(k.file->getLats(), k.g.lats) && equal(k.file->getLons(), k.g.lons) && k.file->getNumEns() == k.E && k.file->getNumTime() == k.T, "the file changes");
    // Nothing else has changed
    for(auto& d : k.data) if(d.first != target && !outputs.count(d.first)) for(int t = 0; t < k.T; t++) {
        vec3c v = cg::get(*k.file, Variable(d.first), t);
        for(int y = 0; y < k.Y(); y++) for(int x = 0; x < k.X(); x++) for(int e = 0; e < k.E; e++)
            REQUIRE(c, cg::same(v[y][x][e], d.second[t][y][x][e]), d.first, " changes at time ", t, " cell (", y, ",", x, ") member ", e, " to ", v[y][x][e]);
    }
    if(scheme != "altitude") {
        vec2 e = k.file->getElevs();
        for(int y = 0; y < k.Y(); y++) for(int x = 0; x < k.X(); x++) REQUIRE(c, cg::same(e[y][x], k.g.elevs.empty() ? cg::MV : k.g.elevs[y][x]), "the altitudes change");
    }
    std::vector<vec3c> got;
    for(int t = 0; t < k.T; t++) got.push_back(cg::get(*k.file, Variable(target), t));
    return got;
}
std::string at(int t, int y, int x, int e) { return cat("time ", t, " cell (", y, ",", x, ") member ", e); }
// Compares every value with the reference; fn(t, y, x, e, parameters)
template<class F> void compare(Ctx& c, const Case& k, const std::vector<vec3c>& got, double atol, double rtol, F fn) {
    for(int t = 0; t < k.T; t++) for(int y = 0; y < k.Y(); y++) for(int x = 0; x < k.X(); x++) {
        std::vector<Set> ps = k.par.at(t, k.g.lats[y][x], k.g.lons[y][x]);
        for(int e = 0; e < k.E; e++) {
            bool ok = false;
            double want = 0;
            for(auto& p : ps) {
                want = fn(t, y, x, e, p);
                double v = got[t][y][x][e];
                ok = ok || (cg::ok(want) ? cg::ok(v) && feq(v, want, atol, rtol) : !cg::ok(v));
            }
            REQUIRE(c, ok, at(t, y, x, e), " is ", got[t][y][x][e], " not ", want);
        }
    }
}
bool interesting(const Case& k) { return k.Y() * k.X() > 1 && k.T * k.E > 1; }
std::string num(double v) { std::ostringstream o; o << v; return o.str(); }
std::string join(const std::vector<float>& v) { std::string o; for(size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + num(v[i]); return o; }
}

PROP(C03, accumulate, 3000, 100000) {
    Case k;
    geometry(s, k, 4);
    k.T = s.i(1, 7);
    field(s, k, "precip", 0, 20);
    const std::vector<vec3c>& in = k.data["precip"];
    bool de = s.b(0.5);
    int w = 1;
    if(de && s.b(0.7)) { w = s.i(1, 4); k.options = cat("window=", w); }
    std::vector<vec3c> got = run(s, c, k, de ? "deaccumulate" : "accumulate", "precip");
    c.nontrivial(interesting(k) && k.T > w);
    compare(c, k, got, 1e-4, 1e-5, [&](int t, int y, int x, int e, const Set&) -> double {
        if(de) {
            if(t < w) return NONE;
            double a = in[t][y][x][e], b = in[t - w][y][x][e];
            return cg::ok(a) && cg::ok(b) ? a - b : NONE;
        }
        double sum = 0;
        for(int q = 1; q <= t; q++) { if(!cg::ok(in[q][y][x][e])) return NONE; sum += in[q][y][x][e]; }
        return sum;
    });
}

PROP(C03, limits, 4000, 100000) {
    Case k;
    geometry(s, k, 4);
    int kind = s.draw(3);
    field(s, k, "v", -10, 10);
    if(kind == 0) {
        bool lo = s.b(0.7), hi = s.b(0.7);
        double a = s.real(-8, 8), b = a + std::fabs(s.real(0, 8));
        a = (float) a; b = (float) b;
        if(lo) k.options += " min=" + num(a);
        if(hi) k.options += " max=" + num(b);
        a = (float) std::atof(num(a).c_str()); b = (float) std::atof(num(b).c_str());
        const std::vector<vec3c>& in = k.data["v"];
        std::vector<vec3c> got = run(s, c, k, "qc", "v");
        compare(c, k, got, 1e-6, 1e-6, [&](int t, int y, int x, int e, const Set&) -> double {
            double v = in[t][y][x][e];
            if(!cg::ok(v)) return NONE;
            return lo && v < a ? a : hi && v > b ? b : v;
        });
    }
    else if(kind == 1) {
        int n = s.i(1, 4);
        std::vector<float> th, va, eq;
        for(int i = 0; i < n; i++) th.push_back(s.i(-8, 8) / (s.b() ? 1.0 : 2.0));
        std::sort(th.begin(), th.end());
        for(int i = 0; i <= n; i++) va.push_back(s.i(-20, 20));
        for(int i = 0; i < n; i++) eq.push_back(s.i(0, 1));
        bool given = s.b(0.6);
        k.options = "thresholds=" + join(th) + " values=" + join(va) + (given ? " equals=" + join(eq) : "");
        const std::vector<vec3c>& in = k.data["v"];
        std::vector<vec3c> got = run(s, c, k, "threshold", "v");
        compare(c, k, got, 0, 0, [&](int t, int y, int x, int e, const Set&) -> double {
            float v = in[t][y][x][e];
            if(!cg::ok(v)) return NONE;
            for(int i = 0; i < n; i++) if(v < th[i] || (given && eq[i] == 1 && v == th[i])) return va[i];
            return va[n];
        });
    }
    else {
        field(s, k, "p", 0, 2);
        double value = 1;
        if(s.b(0.5)) { value = s.i(-3, 8); k.options = " value=" + num(value); }
        k.options += " precipVariable=p";
        for(auto& t : k.data["p"]) for(auto& y : t) for(auto& x : y) for(float& e : x) if(s.b(0.3)) e = 0;
        const std::vector<vec3c> in = k.data["v"], p = k.data["p"];
        std::vector<vec3c> got = run(s, c, k, "cloud", "v");
        compare(c, k, got, 0, 0, [&](int t, int y, int x, int e, const Set&) -> double {
            float v = in[t][y][x][e];
            return !cg::ok(v) ? NONE : cg::ok(p[t][y][x][e]) && p[t][y][x][e] > 0 && v < value ? value : v;
        });
    }
    c.nontrivial(interesting(k));
}

PROP(C03, sort, 2000, 100000) {
    Case k;
    geometry(s, k, 3);
    k.E = s.i(1, 8);
    field(s, k, "v", -10, 10);
    const std::vector<vec3c>& in = k.data["v"];
    std::vector<vec3c> got = run(s, c, k, "sort", "v");
    c.nontrivial(k.E > 2);
    compare(c, k, got, 0, 0, [&](int t, int y, int x, int e, const Set&) -> double {
        std::vector<float> v;
        for(float f : in[t][y][x]) if(cg::ok(f)) v.push_back(f);
        std::sort(v.begin(), v.end());
        return e < (int) v.size() ? v[e] : NONE;
    });
}

namespace {
Util::StatType statistic(Src& s, Case& k, double& q, bool& given) {
    static const char* names[] = {"mean", "min", "max", "median", "quantile", "std", "sum"};
    static const Util::StatType types[] = {Util::StatTypeMean, Util::StatTypeMin, Util::StatTypeMax, Util::StatTypeMedian, Util::StatTypeQuantile, Util::StatTypeStd, Util::StatTypeSum};
    given = s.b(0.85);
    int i = given ? s.draw(7) : 0;
    q = 0;
    if(given) k.options += cat(" stat=", names[i]);
    if(given && i == 4) { q = s.pick<double>({0, 1, 0.5, 0.25, 0.1, 0.9}); k.options += " quantile=" + num(q); }
    return types[i];
}
}

PROP(C03, window, 4000, 100000) {
    Case k;
    geometry(s, k, 3);
    k.T = s.i(1, 8);
    field(s, k, "v", -10, 30);
    int n = 7;
    bool before = s.b(0.4), keep = s.b(0.4), edge = s.b(0.3), given;
    double q;
    if(s.b(0.85)) { n = s.i(1, 9); k.options += cat(" length=", n); }
    if(before) k.options += " before=1"; else if(s.b(0.2)) k.options += " before=0";
    if(keep) k.options += " keepMissing=1";
    if(edge) k.options += " edgePolicy=missing"; else if(s.b(0.2)) k.options += " edgePolicy=compute";
    Util::StatType st = statistic(s, k, q, given);
    const std::vector<vec3c>& in = k.data["v"];
    std::vector<vec3c> got = run(s, c, k, "window", "v");
    c.nontrivial(interesting(k) && k.T > 2 && n > 1);
    compare(c, k, got, 1e-4, 2e-4, [&](int t, int y, int x, int e, const Set&) -> double {
        int lo = before ? t - n + 1 : t - (n - 1) / 2, hi = lo + n - 1;
        bool cut = lo < 0 || hi >= k.T, miss = false;
        if(edge && cut) return NONE;
        std::vector<float> v;
        for(int i = std::max(0, lo); i <= std::min(k.T - 1, hi); i++) { v.push_back(in[i][y][x][e]); miss = miss || !cg::ok(v.back()); }
        if(keep && miss) return NONE;
        double r = cg::statistic(v, st, q);
        return r == cg::MV ? NONE : r;
    });
}

PROP(C03, neighbourhood, 4000, 100000) {
    Case k;
    geometry(s, k, 7);
    field(s, k, "v", -10, 30);
    int n = 3;
    bool given, fast = true;
    double q;
    if(s.b(0.85)) { n = s.i(0, 4); k.options += cat(" radius=", n); }
    Util::StatType st = statistic(s, k, q, given);
    if(s.b(0.5)) { fast = s.b(0.5); k.options += cat(" fast=", (int) fast); }
    if(s.b(0.3)) parameters(s, k, [&]() { return Set(1, s.i(0, 4)); }, 0);
    const std::vector<vec3c>& in = k.data["v"];
    std::vector<vec3c> got = run(s, c, k, "neighbourhood", "v");
    c.nontrivial(interesting(k));
    compare(c, k, got, 1e-3, 2e-4, [&](int t, int y, int x, int e, const Set& p) -> double {
        int r = p.empty() ? n : p[0];
        std::vector<float> v;
        for(int i = std::max(0, y - r); i <= std::min(k.Y() - 1, y + r); i++) for(int j = std::max(0, x - r); j <= std::min(k.X() - 1, x + r); j++) v.push_back(in[t][i][j][e]);
        double w = cg::statistic(v, st, q);
        return w == cg::MV ? NONE : w;
    });
}

PROP(C03, mask, 3000, 100000) {
    Case k;
    geometry(s, k, 6);
    field(s, k, "v", -10, 30);
    bool keep = true;
    if(s.b(0.7)) { keep = s.b(0.5); k.options = cat("keep=", (int) keep); }
    double size = k.r.dlat * 111000;
    parameters(s, k, [&]() { return Set(1, s.b(0.1) ? cg::MV : s.b(0.2) ? 0 : (float) (size * s.u(0, 1))); }, 1);
    const std::vector<vec3c>& in = k.data["v"];
    std::vector<vec3c> got = run(s, c, k, "mask", "v");
    c.nontrivial(interesting(k) && k.par.locs.size() > 1);
    for(int t = 0; t < k.T; t++) for(int y = 0; y < k.Y(); y++) for(int x = 0; x < k.X(); x++) {
        bool in_sure = false, out_sure = true;
        for(size_t l = 0; l < k.par.locs.size(); l++) {
            float r = k.par.sets[l][k.par.times() == 1 ? 0 : t][0];
            if(!cg::ok(r)) continue;
            double d = cg::distance(k.par.locs[l].lat, k.par.locs[l].lon, k.g.lats[y][x], k.g.lons[y][x]), tol = 15 + 1e-5 * d;
            if(d < r - tol) in_sure = true;
            if(d < r + tol && r > 0) out_sure = false;
        }
        if(!in_sure && !out_sure) continue;
        bool removed = keep ? !in_sure : in_sure;
        for(int e = 0; e < k.E; e++) REQUIRE(c, removed ? !cg::ok(got[t][y][x][e]) : cg::same(got[t][y][x][e], in[t][y][x][e]), at(t, y, x, e), " is ", got[t][y][x][e], removed ? " but is removed" : " but is kept");
    }
}

PROP(C03, override, 3000, 100000) {
    Case k;
    geometry(s, k, 7, true);
    field(s, k, "v", -10, 30);
    int r = 0;
    double diff = -1;
    if(s.b(0.6)) { r = s.i(0, 3); k.options += cat(" radius=", r); }
    if(s.b(0.5)) { diff = s.i(0, 8) * 50 + s.pick<double>({0.5, 0.25, 0}); k.options += " maxElevDiff=" + num(diff); }
    if(s.b(0.5)) for(auto& row : k.g.elevs) for(float& e : row) if(cg::ok(e)) e = s.i(0, 4) * 0.5f;
    parameters(s, k, [&]() { return Set(1, s.b(0.2) ? cg::MV : s.f(50, 90)); }, 1);
    if(s.b(0.5) && diff >= 0 && diff < 1) {}
    const std::vector<vec3c>& in = k.data["v"];
    // The nearest cell of each location has to be clear
    std::vector<std::pair<int, int> > cell;
    for(auto& l : k.par.locs) {
        std::vector<std::pair<int, int> > n = cg::nearest(k.g, l.lat, l.lon);
        if(n.size() != 1) throw pbt::Discard();
        cell.push_back(n[0]);
    }
    std::vector<vec3c> got = run(s, c, k, "override", "v");
    c.nontrivial(interesting(k) && k.Y() > 2 && k.X() > 2);
    for(int t = 0; t < k.T; t++) for(int y = 0; y < k.Y(); y++) for(int x = 0; x < k.X(); x++) {
        std::set<float> values;     // where several locations cover a cell, any of their values
        bool loose = false;
        for(size_t l = 0; l < cell.size(); l++) {
            int cy = cell[l].first, cx = cell[l].second;
            float v = k.par.sets[l][k.par.times() == 1 ? 0 : t][0], le = k.par.locs[l].elev, e = k.g.elevs[y][x];
            if(!cg::ok(v) || cy <= 0 || cx <= 0 || cy >= k.Y() - 1 || cx >= k.X() - 1) continue;
            if(std::abs(y - cy) > r || std::abs(x - cx) > r) continue;
            if(diff >= 0) {
                if(!cg::ok(le) || !cg::ok(e)) continue;
                double d = std::fabs((double) e - le);
                if(std::fabs(d - diff) < 1e-3 && d != diff) { loose = true; continue; }
                if(d >= diff) continue;
            }
            values.insert(v);
        }
        if(loose) continue;
        for(int e = 0; e < k.E; e++) REQUIRE(c, values.empty() ? cg::same(got[t][y][x][e], in[t][y][x][e]) : values.count(got[t][y][x][e]) > 0, at(t, y, x, e), " is ", got[t][y][x][e], ", was ", in[t][y][x][e], values.empty() ? " and is not covered" : " and is covered");
    }
}

PROP(C03, altitude, 1500, 50000) {
    Case k;
    geometry(s, k, 5);
    field(s, k, "v", -10, 30);
    parameters(s, k, [&]() { return Set(1, 0); }, 1, 0);
    run(s, c, k, "altitude", "other");
    c.nontrivial(k.par.locs.size() > 1);
    vec2 e = k.file->getElevs();
    for(int y = 0; y < k.Y(); y++) for(int x = 0; x < k.X(); x++) {
        bool ok = false;
        double best = 1e99;
        for(auto& l : k.par.locs) best = std::min(best, cg::distance(l.lat, l.lon, k.g.lats[y][x], k.g.lons[y][x]));
        for(auto& l : k.par.locs) if(cg::distance(l.lat, l.lon, k.g.lats[y][x], k.g.lons[y][x]) <= best * (1 + 1e-6) + 10) ok = ok || cg::same(e[y][x], l.elev);
        REQUIRE(c, ok, "the altitude of (", y, ",", x, ") is ", e[y][x]);
    }
}

PROP(C03, phase, 3000, 100000) {
    Case k;
    geometry(s, k, 4);
    field(s, k, "t", 270, 278);
    field(s, k, "p", 0, 1);
    bool exists = s.b(0.5);
    if(exists) field(s, k, "phase", 0, 3);
    double snow = 273.15f, rain = 274.15f, least = 0.2f;
    k.options = "temperature=t precipitation=p";
    if(s.b(0.5)) { snow = s.i(540, 550) / 2.0; rain = snow + s.i(0, 4) / 2.0; k.options += " snowThreshold=" + num(snow) + " rainThreshold=" + num(rain); }
    if(s.b(0.4)) { least = s.i(0, 8) / 8.0; k.options += " minPrecip=" + num(least); }
    const std::vector<vec3c> T = k.data["t"], P = k.data["p"];
    std::vector<vec3c> got = run(s, c, k, "phase", "phase");
    c.nontrivial(interesting(k));
    compare(c, k, got, 0, 0, [&](int t, int y, int x, int e, const Set&) -> double {
        float a = T[t][y][x][e], p = P[t][y][x][e];
        if(!cg::ok(a) || !cg::ok(p)) return NONE;
        return p <= (float) least ? 0 : a <= (float) snow ? 3 : a <= (float) rain ? 2 : 1;
    });
}

PROP(C03, wind_direction, 3000, 100000) {
    Case k;
    geometry(s, k, 4);
    field(s, k, "w", 0, 30);
    field(s, k, "d", 0, 360);
    k.options = "directionVariable=d";
    double pm = s.b(0.3) ? 0.05 : 0;
    parameters(s, k, [&]() { Set p; for(int i = 0; i < 9; i++) p.push_back(s.b(pm) ? cg::MV : s.f(-0.5, i ? 0.5 : 2)); return p; });
    const std::vector<vec3c> W = k.data["w"], D = k.data["d"];
    std::vector<vec3c> got = run(s, c, k, "windDirection", "w");
    c.nontrivial(interesting(k));
    compare(c, k, got, 1e-3, 1e-4, [&](int t, int y, int x, int e, const Set& p) -> double {
        double w = W[t][y][x][e], d = D[t][y][x][e];
        if(!cg::ok(w)) return NONE;
        if(!cg::ok(d)) return w;
        for(float v : p) if(!cg::ok(v)) return NONE;
        double f = p[0], a = d * M_PI / 180;
        for(int h = 1; h <= 4; h++) f += p[2 * h - 1] * std::sin(h * a) + p[2 * h] * std::cos(h * a);
        return std::max(0.0, f) * w;
    });
}

PROP(C03, wind, 3000, 100000) {
    Case k;
    geometry(s, k, 4);
    int kind = s.draw(4);
    static const char* names[] = {"x", "y", "speed", "direction"};
    bool comp = kind < 2;
    field(s, k, comp ? "s" : "u", comp ? 0 : -20, 20);
    field(s, k, comp ? "d" : "v", comp ? 0 : -20, comp ? 360 : 20);
    bool exists = s.b(0.3);
    if(exists) field(s, k, "out", 0, 5, 0);
    k.options = cat("compute=", names[kind], comp ? " speed=s direction=d" : " x=u y=v");
    const std::vector<vec3c> A = k.data[comp ? "s" : "u"], B = k.data[comp ? "d" : "v"], O = k.data.count("out") ? k.data["out"] : std::vector<vec3c>();
    std::vector<vec3c> got = run(s, c, k, "diagnoseWind", "out");
    c.nontrivial(interesting(k));
    compare(c, k, got, 2e-4, 1e-5, [&](int t, int y, int x, int e, const Set&) -> double {
        double a = A[t][y][x][e], b = B[t][y][x][e];
        if(!cg::ok(a) || !cg::ok(b)) return O.empty() ? NONE : got[t][y][x][e];
        if(kind == 0) return -a * std::sin(b * M_PI / 180);
        if(kind == 1) return -a * std::cos(b * M_PI / 180);
        if(kind == 2) return std::sqrt(a * a + b * b);
        double g = got[t][y][x][e];
        if(a == 0 && b == 0) return g;
        double d = std::atan2(-a, -b) * 180 / M_PI;
        if(d < 0) d += 360;
        if(g >= -1e-3 && g <= 360.001 && (std::fabs(g - d) < 1e-3 || std::fabs(std::fabs(g - d) - 360) < 1e-3)) return g;
        return d;
    });
}

PROP(C03, humidity, 3000, 100000) {
    static const double es[41] = { .000034, .000089, .000220, .000517, .001155, .002472, .005080, .01005, .01921, .03553, .06356, .1111, .1891, .3139, .5088, .8070, 1.2540, 1.9118, 2.8627, 4.2148, 6.1078, 8.7192, 12.272, 17.044,
        23.373, 31.671, 42.430, 56.236, 73.777, 95.855, 123.40, 157.46, 199.26, 250.16, 311.69, 385.56, 473.67, 578.09, 701.13, 845.28, 1013.25 };
    Case k;
    geometry(s, k, 4, true);
    int kind = s.draw(3);
    static const char* names[] = {"dewpoint", "rh", "wetbulb"};
    double hot = kind == 1 && s.b(0.3) ? 380 : 320;
    field(s, k, "t", hot > 320 ? 160 : 230, hot);
    if(kind == 1) field(s, k, "td", hot > 320 ? 160 : 220, hot - 10);
    else field(s, k, "rh", 0.02, 1);
    bool exists = s.b(0.3), press = kind == 2 && s.b(0.5);
    if(exists) field(s, k, "out", 0, 5, 0);
    if(press) field(s, k, "p", 70000, 105000);
    k.options = cat("temperature=t compute=", names[kind], kind == 1 ? " dewpoint=td" : " rh=rh", press ? " pressure=p" : "");
    const std::vector<vec3c> A = k.data["t"], B = k.data[kind == 1 ? "td" : "rh"], P = k.data.count("p") ? k.data["p"] : std::vector<vec3c>();
    std::vector<vec3c> got = run(s, c, k, "diagnoseHumidity", "out");
    c.nontrivial(interesting(k));
    auto saturation = [&](double T) { double x = std::min(39.0, std::max(0.0, (T - 173.16) * 0.2)); int l = x; return es[l] + (es[l + 1] - es[l]) * (x - l); };
    compare(c, k, got, 2e-3, 1e-4, [&](int t, int y, int x, int e, const Set&) -> double {
        double T = A[t][y][x][e], b = B[t][y][x][e];
        if(!cg::ok(T) || !cg::ok(b)) return exists ? got[t][y][x][e] : NONE;
        if(kind == 1) return T <= b ? 1 : std::min(1.0, saturation(b) / saturation(T));
        double C = T - 273.15, v = b * 0.611 * std::exp(17.63 * C / (C + 243.04)), td = (116.9 + 243.04 * std::log(v)) / (16.78 - std::log(v));
        if(kind == 0) return std::min(T, td + 273.15);
        double p = press ? P[t][y][x][e] : cg::ok(k.g.elevs[y][x]) ? 101325 * std::exp(-1.21e-4 * k.g.elevs[y][x]) : cg::MV;
        if(!cg::ok(p)) return NONE;
        double gamma = 0.00066 * p / 1000, delta = 4098 * v / std::pow(td + 243.04, 2);
        return (gamma * C + delta * td) / (gamma + delta) + 273.15;
    });
}

PROP(C03, qnh, 2000, 50000) {
    Case k;
    geometry(s, k, 4);
    field(s, k, "p", 60000, 108000);
    bool exists = s.b(0.3);
    if(exists) field(s, k, "qnh", 0, 5, 0);
    k.options = "pressureVariable=p";
    const std::vector<vec3c> P = k.data["p"];
    std::vector<vec3c> got = run(s, c, k, "qnh", "qnh");
    c.nontrivial(interesting(k));
    compare(c, k, got, 0, 3e-6, [&](int t, int y, int x, int e, const Set&) -> double {
        double p = P[t][y][x][e], h = k.g.elevs.empty() ? cg::MV : k.g.elevs[y][x];
        if(!cg::ok(p) || !cg::ok(h)) return exists ? got[t][y][x][e] : NONE;
        double n = 287.053 * 0.0065 / 9.80665;
        return 101325 * std::pow(std::pow(p / 101325, n) + h * 0.0065 / 288.15, 1 / n);
    });
}

PROP(C03, quantile_mapping, 5000, 150000) {
    Case k;
    geometry(s, k, 3);
    field(s, k, "v", -12, 12);
    static const char* names[] = {"1to1", "meanSlope", "nearestSlope", "zero"};
    int pol = 0;
    if(s.b(0.8)) { pol = s.draw(4); k.options = cat("extrapolation=", names[pol]); }
    std::vector<float> xo, xf;
    if(s.b(0.3)) {
        int n = s.i(1, 2);
        for(int i = 0; i < n; i++) { xo.push_back(s.i(-9, 9)); xf.push_back(s.i(-9, 9)); }
        k.options += " extraObs=" + join(xo) + " extraFcst=" + join(xf);
    }
    int n = s.i(1, 5);
    bool ties = s.b(0.2);
    double pm = s.b(0.2) ? 0.1 : 0;
    parameters(s, k, [&]() {
        std::vector<float> o, f;
        for(int i = 0; i < n; i++) { o.push_back(s.f(-10, 10)); f.push_back(s.f(-10, 10)); }
        std::sort(o.begin(), o.end());
        std::sort(f.begin(), f.end());
        if(!ties) for(int i = 1; i < n; i++) if(f[i] <= f[i - 1]) f[i] = f[i - 1] + 0.5f;
        Set p;
        for(int i = 0; i < n; i++) { p.push_back(s.b(pm) ? cg::MV : o[i]); p.push_back(f[i]); }
        return p;
    });
    const std::vector<vec3c> V = k.data["v"];
    std::vector<vec3c> got = run(s, c, k, "qq", "v");
    c.nontrivial(interesting(k) && n > 1);
    compare(c, k, got, 1e-3, 1e-4, [&](int t, int y, int x, int e, const Set& p) -> double {
        double v = V[t][y][x][e];
        if(!cg::ok(v)) return NONE;
        for(float q : p) if(!cg::ok(q)) return v;
        std::vector<double> o, f;
        for(size_t i = 0; i < p.size() / 2; i++) { o.push_back(p[2 * i]); f.push_back(p[2 * i + 1]); }
        for(size_t i = 0; i < xo.size(); i++) { o.push_back(xo[i]); f.push_back(xf[i]); }
        std::sort(o.begin(), o.end());
        std::sort(f.begin(), f.end());
        int N = o.size(), i = -1;
        double g = got[t][y][x][e];
        if(v > f[0] && v < f[N - 1]) {
            // A vertical part of the curve, or one as steep as the rounding, gives anything it covers
            double lo = 1e99, hi = -1e99;
            for(int q = 0; q + 1 < N; q++) {
                if(v < f[q] - 1e-5 || v > f[q + 1] + 1e-5) continue;
                if(f[q + 1] - f[q] < 1e-3) { lo = std::min(lo, o[q]); hi = std::max(hi, o[q + 1]); continue; }
                double w = std::min(1.0, std::max(0.0, (v - f[q]) / (f[q + 1] - f[q]))), r = o[q] + w * (o[q + 1] - o[q]);
                lo = std::min(lo, r); hi = std::max(hi, r);
            }
            if(g >= lo - 1e-3 && g <= hi + 1e-3) return g;
            return lo;
        }
        bool low = v <= f[0];
        i = low ? 0 : N - 1;
        double slope = 1;
        if(pol == 3) slope = 0;
        else if(pol == 1 && N > 1) slope = (o[N - 1] - o[0]) / (f[N - 1] - f[0]);
        else if(pol == 2 && N > 1) slope = low ? (o[1] - o[0]) / (f[1] - f[0]) : (o[N - 1] - o[N - 2]) / (f[N - 1] - f[N - 2]);
        if(!std::isfinite(slope) || std::fabs(slope) > 100) return g;       // not defined, or too steep to compare
        return o[i] + slope * (v - f[i]);
    });
}

PROP(C03, regression, 4000, 100000) {
    Case k;
    geometry(s, k, 4);
    field(s, k, "v", -10, 10);
    bool multi = s.b(0.5);
    int n = s.i(1, 4);
    std::vector<std::string> names;
    if(multi) {
        std::string list;
        for(int i = 0; i < n; i++) {
            std::string v = s.pick<std::string>({"1", "v", "a", "b"});
            if(v != "1" && !k.data.count(v)) field(s, k, v, -10, 10);
            names.push_back(v);
            list += (i ? "," : "") + v;
        }
        k.options = "variables=" + list;
    }
    if(s.b(0.2)) k.options += " order=2";
    double pm = s.b(0.2) ? 0.1 : 0;
    parameters(s, k, [&]() { Set p; for(int i = 0; i < n; i++) p.push_back(s.b(pm) ? cg::MV : s.f(-2, 2)); return p; });
    std::map<std::string, std::vector<vec3c> > in = k.data;
    std::vector<vec3c> got = run(s, c, k, "regression", "v");
    c.nontrivial(interesting(k));
    compare(c, k, got, 1e-2, 1e-4, [&](int t, int y, int x, int e, const Set& p) -> double {
        double v = in["v"][t][y][x][e], sum = 0;
        if(!cg::ok(v)) return NONE;
        for(int i = 0; i < n; i++) {
            double q = multi ? (names[i] == "1" ? 1 : in[names[i]][t][y][x][e]) : std::pow(v, i);
            if(!cg::ok(p[i]) || !cg::ok(q)) return NONE;
            sum += p[i] * q;
        }
        return sum;
    });
}

PROP(C03, coastal, 4000, 100000) {
    Case k;
    geometry(s, k, 5);
    k.g.lafs = cg::meta(s, k.Y(), k.X(), 0, 1, s.b(0.3) ? 0.2 : 0);
    if(s.b(0.5)) for(auto& r : k.g.lafs) for(float& l : r) if(cg::ok(l)) l = s.i(0, 4) / 4.0f;
    field(s, k, "v", 260, 290);
    int r = 3;
    double least = 0.1f;
    bool nn = false;
    if(s.b(0.7)) { r = s.i(0, 3); k.options += cat(" searchRadius=", r); }
    if(s.b(0.4)) { least = s.i(0, 6) / 8.0; k.options += " minLafDiff=" + num(least); }
    if(s.b(0.6)) { nn = s.b(0.5); k.options += cat(" useNN=", (int) nn); }
    double pm = s.b(0.2) ? 0.1 : 0;
    parameters(s, k, [&]() { Set p; for(int i = 0; i < 3; i++) p.push_back(s.b(pm) ? cg::MV : s.f(-2, 2)); return p; }, 1);
    const std::vector<vec3c> V = k.data["v"];
    std::vector<vec3c> got = run(s, c, k, "coastal", "v");
    c.nontrivial(interesting(k) && k.Y() > 1 && k.X() > 1);
    auto want = [&](int t, int y, int x, int e, const Set& p) -> double {
        for(float q : p) if(!cg::ok(q)) return NONE;
        double lo = 2, hi = -1, lv = cg::MV, hv = cg::MV;
        for(int i = std::max(0, y - r); i <= std::min(k.Y() - 1, y + r); i++) for(int j = std::max(0, x - r); j <= std::min(k.X() - 1, x + r); j++) {
            double l = k.g.lafs[i][j], v = V[t][i][j][e];
            if(!cg::ok(l)) continue;
            if(l < lo) { lo = l; lv = v; }
            if(l > hi) { hi = l; hv = v; }
        }
        if(!cg::ok(V[t][y][x][e])) return NONE;
        double grad = cg::ok(lv) && cg::ok(hv) && (float) hi - (float) lo > (float) least ? (hv - lv) / (hi - lo) : 0;
        double base = nn ? V[t][y][x][e] : lv;
        return cg::ok(base) ? p[0] + p[1] * base + p[2] * grad : NONE;
    };
    compare(c, k, got, 5e-2, 1e-4, [&](int t, int y, int x, int e, const Set& p) -> double {
        double w = want(t, y, x, e, p);
        // Differences of land fractions at the limit
        double lo = 2, hi = -1;
        for(int i = std::max(0, y - r); i <= std::min(k.Y() - 1, y + r); i++) for(int j = std::max(0, x - r); j <= std::min(k.X() - 1, x + r); j++) if(cg::ok(k.g.lafs[i][j])) { lo = std::min<double>(lo, k.g.lafs[i][j]); hi = std::max<double>(hi, k.g.lafs[i][j]); }
        if(std::fabs(hi - lo - least) < 1e-6 && hi - lo != least) return got[t][y][x][e];
        if(hi > lo && hi - lo < 0.05) return got[t][y][x][e];
        return w;
    });
}

namespace {
double expit(double x) { return 1 / (1 + std::exp(-x)); }
// Quantiles of the distributions; shift moves the probability to bound rounding
struct Zaga {
    double p0, shape, scale;
    Zaga(double mean, double frac, const Set& p) {
        p0 = expit(p[4] + p[5] * mean + p[6] * frac + p[7] * std::cbrt(mean));
        double mu = std::exp(p[0] + p[1] * std::cbrt(mean)), sigma = std::exp(p[2] + p[3] * mean);
        shape = 1 / (sigma * sigma);
        scale = sigma * sigma * mu;
    }
    double inverse(double q, double shift) const {
        double r = (q - p0) / (1 - p0) + shift / (1 - p0);
        if(r <= 0) return 0;
        return boost::math::quantile(boost::math::gamma_distribution<>(shape, scale), std::min(r, 1 - 1e-12));
    }
    double above(double x) const { return x < 0 ? 1 : x == 0 ? 1 - p0 : (1 - p0) * boost::math::cdf(boost::math::complement(boost::math::gamma_distribution<>(shape, scale), x)); }
};
double bct(double q, double shift, double mean, double sd, const Set& p) {
    double mu = p[0] + p[1] * mean, sigma = std::exp(p[2] + p[3] * std::cbrt(sd)), nu = p[4] + p[5] * mean;
    boost::math::students_t_distribution<> dist(std::exp(std::min(10.0, (double) p[6])));
    double edge = nu == 0 ? 1 : boost::math::cdf(dist, 1 / (sigma * std::fabs(nu)));
    double qz = (nu <= 0 ? q * edge : 1 - (1 - q) * edge) + shift;
    double z = boost::math::quantile(dist, std::min(1 - 1e-9, std::max(1e-9, qz)));
    if(nu == 0) return mu * std::exp(sigma * z);
    double b = 1 + sigma * nu * z;
    if(b <= 0) return nu > 0 ? 0 : INFINITY;
    return mu * std::pow(b, 1 / nu);
}
}

PROP(C03, distributions, 5000, 150000) {
    Case k;
    geometry(s, k, 4);
    int kind = s.draw(4);       // zaga, probability of precipitation, gaussian, bct
    k.E = s.i(1, 6);
    bool six = kind == 1 && s.b(0.4);
    if(six) k.T = s.i(4, 8);
    double p1 = s.b(0.5) ? 0 : 0.1, lo = kind == 2 ? s.pick<double>({-5, 1, 270}) : kind == 3 ? 0.5 : 0, hi = kind == 2 ? lo + s.pick<double>({20, 1}) : kind == 3 ? 25 : s.pick<double>({2, 15, 120});
    field(s, k, "v", lo, hi, p1);
    if(s.b(0.3)) for(auto& t : k.data["v"]) for(auto& y : t) for(auto& x : y) for(float& e : x) if(cg::ok(e)) e = x[0] == cg::MV || !cg::ok(x[0]) ? e : x[0];
    int nb = 0;
    if(kind != 3 && s.b(0.5)) { nb = s.i(0, 2); k.options += cat(" neighbourhoodSize=", nb); }
    double frac = 0.5, limit = 100, pop = 0.5;
    if(kind < 2 && s.b(0.5)) { frac = s.i(0, 8) / 8.0; k.options += " fracThreshold=" + num(frac); }
    if(kind != 2 && s.b(0.4)) { limit = s.i(1, 20); k.options += " maxEnsMean=" + num(limit); }
    if(kind == 0 && s.b(0.2)) k.options += " 6h=1";     // only of use to the probabilities
    std::set<std::string> outputs;
    double quant[3] = {0, 0, 0};
    static const char* qn[] = {"Low", "Middle", "High"};
    static const char* vn[] = {"low", "middle", "high"};
    bool pop_exists = false;
    if(kind == 1) {
        k.options += " popVariable=pop";
        if(s.b(0.5)) { pop = s.i(0, 10) / 4.0; k.options += " popThreshold=" + num(pop); }
        if(six) k.options += " 6h=1";
        if((pop_exists = s.b(0.3))) field(s, k, "pop", 0, 1, 0);
        outputs.insert("pop");
        for(int i = 0; i < 3; i++) if(s.b(0.3)) {
            quant[i] = s.i(1, 19) / 20.0;
            k.options += cat(" precip", qn[i], "Quantile=", num(quant[i]), " ", vn[i], "Variable=", vn[i]);
        }
    }
    double pm = s.b(0.2) ? 0.05 : 0;
    parameters(s, k, [&]() {
        static const double zl[] = {-1, 0, -1, -0.02, -2, -0.2, -2, -1}, zh[] = {1, 1, 0.3, 0.02, 2, 0.2, 2, 1};
        static const double gl[] = {-1, -0.5}, gh[] = {1, 1};
        static const double bl[] = {0, 0.5, -2, -0.3, -1, -0.05, 0}, bh[] = {2, 1.2, 0, 0.3, 1.5, 0.05, 12};
        const double* l = kind < 2 ? zl : kind == 2 ? gl : bl;
        const double* h = kind < 2 ? zh : kind == 2 ? gh : bh;
        Set p;
        for(int i = 0; i < (kind < 2 ? 8 : kind == 2 ? 2 : 7); i++) p.push_back(s.b(pm) ? cg::MV : s.f(l[i], h[i]));
        if(kind == 3 && s.b(0.15)) p[4] = p[5] = 0;
        return p;
    });
    const std::vector<vec3c> V = k.data["v"], O = pop_exists ? k.data["pop"] : std::vector<vec3c>();
    std::vector<vec3c> got = run(s, c, k, kind < 2 ? "zaga" : kind == 2 ? "gaussian" : "bct", "v", outputs);
    std::vector<vec3c> gp, gq[3];
    if(kind == 1) for(int t = 0; t < k.T; t++) {
        gp.push_back(cg::get(*k.file, Variable("pop"), t));
        for(int i = 0; i < 3; i++) if(quant[i]) gq[i].push_back(cg::get(*k.file, Variable(vn[i]), t));
    }
    c.nontrivial(interesting(k) && k.E > 1);
    for(int t = 0; t < k.T; t++) for(int y = 0; y < k.Y(); y++) for(int x = 0; x < k.X(); x++) {
        std::vector<Set> ps = k.par.at(t, k.g.lats[y][x], k.g.lons[y][x]);
        const std::vector<float>& raw = V[t][y][x];
        const std::vector<float>& out = got[t][y][x];
        auto same = [&]() { for(int e = 0; e < k.E; e++) if(!cg::same(raw[e], out[e])) return false; return true; };
        // The ensemble, with its neighbours
        int w = six ? 6 : 1, n = 0, below = 0, near = 0;
        double sum = 0, sum2 = 0;
        bool missing = false, own = true;
        for(int e = 0; e < k.E; e++) {
            own = own && cg::ok(raw[e]);
            for(int i = std::max(0, y - nb); i <= std::min(k.Y() - 1, y + nb); i++) for(int j = std::max(0, x - nb); j <= std::min(k.X() - 1, x + nb); j++) {
                double total = 0;
                bool ok = true;
                for(int q = std::max(0, t - w + 1); q <= t; q++) { ok = ok && cg::ok(V[q][i][j][e]); total += V[q][i][j][e]; }
                if(!ok) { missing = true; continue; }
                if(w > 1 && std::fabs(total - frac) < 1e-4 && total != frac) near++;
                sum += total; sum2 += total * total; below += total <= frac; n++;
            }
        }
        bool early = six && t < 5;
        if(kind == 1) REQUIRE(c, same(), "the precipitation changes at time ", t, " cell (", y, ",", x, ")");
        bool use = kind == 2 ? own && n > 0 : !missing && n > 0;
        std::string where = cat("time ", t, " cell (", y, ",", x, ")");
        if(!use || early) {
            if(kind != 1) REQUIRE(c, same(), where, " changes with missing members from ", raw, " to ", out);
            else for(int e = 0; e < k.E; e++) REQUIRE(c, early || O.empty() ? !cg::ok(gp[t][y][x][e]) : cg::same(gp[t][y][x][e], O[t][y][x][e]), where, " has a probability of ", gp[t][y][x][e], " from missing values");
            continue;
        }
        if(near) continue;
        double mean = sum / n, fraction = (double) below / n, var = std::max(0.0, sum2 / n - mean * mean);
        if(kind == 3) { var = 0; for(float v : raw) var += (v - mean) * (v - mean) / n; }
        if(kind != 2) mean = std::min(mean, limit);
        std::string why;
        bool fine = false;
        for(auto& p : ps) {
            bool valid = true;
            for(float q : p) valid = valid && cg::ok(q);
            std::ostringstream m;
            if(kind == 1) {
                Zaga z(mean, fraction, valid ? p : Set(8, 0));
                double want = z.above(pop);
                bool good = true;
                for(int e = 0; e < k.E && good; e++) {
                    float g = gp[t][y][x][e];
                    good = valid ? cg::ok(g) && std::fabs(g - want) < 1e-4 : !cg::ok(g);
                    if(!good) m << where << " member " << e << " has a probability of " << g << " not " << want;
                    for(int i = 0; i < 3 && good; i++) if(quant[i]) {
                        float v = gq[i][t][y][x][e];
                        double a = z.inverse(quant[i], -1e-5), b = z.inverse(quant[i], 1e-5);
                        good = valid ? cg::ok(v) && v >= a - 1e-4 - 1e-3 * a && v <= b + 1e-4 + 1e-3 * b : !cg::ok(v);
                        if(!good) m << where << " member " << e << " has a " << vn[i] << " quantile of " << v << " not " << z.inverse(quant[i], 0);
                    }
                }
                fine = fine || good;
                why = m.str();
                continue;
            }
            if(!valid) {
                if(same()) fine = true;
                else why = where + " changes with missing parameters";
                continue;
            }
            std::vector<float> sorted = out;
            bool good = true;
            for(float v : out) good = good && cg::ok(v);
            if(!good) { why = cat(where, " is ", out); continue; }
            std::sort(sorted.begin(), sorted.end());
            for(int e = 0; e < k.E && good; e++) {
                double q = (e + 0.5) / k.E, a, b, mid, tol = 1e-3;
                if(kind == 0) { Zaga z(mean, fraction, p); a = z.inverse(q, -1e-5); b = z.inverse(q, 1e-5); mid = z.inverse(q, 0); }
                else if(kind == 2) {
                    boost::math::normal d(mean, std::exp(p[0] + p[1] * std::sqrt(var)));
                    a = b = mid = boost::math::quantile(d, q);
                    if(var < 1e-3) { double f = std::exp(std::fabs(p[1]) * 2e-2); double dev = mid - mean; a = mean + std::min(dev / f, dev * f); b = mean + std::max(dev / f, dev * f); }
                    tol = 1e-4;
                }
                else {
                    double sd = std::sqrt(var), d = 1e-6 * (1 + mean);
                    mid = a = b = bct(q, 0, mean, sd, p);
                    for(double u : {std::max(0.0, sd - d), sd, sd + d}) for(double h : {-2e-6, 2e-6}) { double r = bct(q, h, mean, u, p); a = std::min(a, r); b = std::max(b, r); }
                }
                good = sorted[e] >= a - 1e-3 - tol * std::fabs(a) && sorted[e] <= b + 1e-3 + tol * std::fabs(b);
                if(!good) m << where << " has " << e << " of the sorted members " << cat(sorted) << " not " << mid << " from mean " << mean << " variance " << var << " fraction " << fraction;
            }
            for(int e = 0; e < k.E && good; e++) for(int f = 0; f < k.E && good; f++) if(raw[e] < raw[f] && out[e] > out[f]) { good = false; m << where << " changes the order of the members from " << cat(raw) << " to " << cat(out); }
            fine = fine || good;
            why = m.str();
        }
        REQUIRE(c, fine, why);
    }
}

// Biases at locations spread by kriging
PROP(C03, kriging, 3000, 100000) {
    Case k;
    geometry(s, k, 5, true);
    field(s, k, "v", 5, 30);
    int op = s.draw(4);
    static const char* ops[] = {"add", "subtract", "multiply", "divide"};
    if(op || s.b()) k.options += cat(" operator=", ops[op]);
    double unit = 111000 * k.r.dlat;
    float radius = 30000, efold = 30000, high = -1;
    if(s.b(0.8) || unit > 50000) { radius = (int) (unit * s.u(0.2, 2)); k.options += cat(" radius=", radius); }
    if(s.b(0.8) || unit > 50000) { efold = (int) (unit * s.u(0.1, 1.5)) + 1; k.options += cat(" efoldDist=", efold); }
    if(s.b(0.5)) { high = s.i(1, 8) * 100; k.options += cat(" maxElevDiff=", high); }
    bool barnes = s.b(0.4), approx = true, cross = s.b(0.3);
    if(barnes || s.b(0.2)) k.options += barnes ? " type=barnes" : " type=cressman";
    if(s.b(0.3)) { approx = s.b(); k.options += cat(" approxDist=", (int) approx); }
    if(cross || s.b(0.2)) k.options += cat(" crossValidate=", (int) cross);
    bool aux = s.b(0.4);
    int window = 0;
    double lo = s.i(-5, 5), hi = lo + s.i(0, 8);
    if(aux) {
        field(s, k, "aux", -8, 8, -1, true);
        k.options += cat(" auxVariable=aux range=", lo, ",", hi);
        if(s.b()) { window = s.i(0, 2); k.options += cat(" window=", window); }
    }
    double pm = s.b(0.15) ? 0.1 : 0;
    parameters(s, k, [&]() { return Set(1, s.b(pm) ? cg::MV : op < 2 ? s.f(-5, 5) : s.f(0.6, 1.5)); }, 1);
    const auto& locs = k.par.locs;
    int n = locs.size();
    auto covar = [&](float lat1, float lon1, float e1, float lat2, float lon2, float e2) -> double {
        if(!cg::ok(e1) || !cg::ok(e2)) return 0;
        double d = Util::getDistance(lat1, lon1, lat2, lon2, approx), v = std::fabs((double) e1 - e2);
        if(std::fabs(d - radius) < 1e-5 * radius + 0.5 || (high >= 0 && std::fabs(v - high) < 1e-3)) throw pbt::Discard();
        if(d >= radius || (high >= 0 && v >= high)) return 0;
        double f = (double) efold, h = (double) high;
        if(barnes) return std::exp(-d * d / (2 * f * f)) * (high >= 0 ? std::exp(-v * v / (2 * h * h)) : 1);
        if(d > f) return 0;
        return (f * f - d * d) / (f * f + d * d) * (high >= 0 ? (h * h - v * v) / (h * h + v * v) : 1);
    };
    la::M a = la::zeros(n, n), inv;
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) a[i][j] = i == j ? 1 : covar(locs[i].lat, locs[i].lon, locs[i].elev, locs[j].lat, locs[j].lon, locs[j].elev) * 0.414 / 0.5;
    la::R cond;
    if(!la::inverse(a, inv, cond) || cond > 300) throw pbt::Discard();
    const std::vector<vec3c>& in = k.data["v"];
    bool any = false;
    for(auto& row : k.g.elevs) for(float e : row) any = any || cg::ok(e);
    if(!any) throw pbt::Discard();
    std::vector<vec3c> got = run(s, c, k, "kriging", "v");
    bool partly = false;
    for(int y = 0; y < k.Y(); y++) for(int x = 0; x < k.X(); x++) {
        std::vector<double> S(n);
        int nearest = -1;
        bool tie = false;
        for(int i = 0; i < n; i++) {
            S[i] = covar(locs[i].lat, locs[i].lon, locs[i].elev, k.g.lats[y][x], k.g.lons[y][x], k.g.elevs[y][x]);
            if(S[i] > 0 && (nearest < 0 || S[i] > S[nearest])) nearest = i;
        }
        for(int i = 0; i < n; i++) tie = tie || (i != nearest && nearest >= 0 && S[i] > S[nearest] - 1e-5);
        la::M use = inv;
        if(cross && nearest >= 0) {
            if(tie) continue;
            // As if the nearest location was not there
            la::M b = a;
            for(int i = 0; i < n; i++) if(i != nearest) b[i][nearest] = b[nearest][i] = 0;
            la::R cc;
            if(!la::inverse(b, use, cc) || cc > 300) continue;
            S[nearest] = 0;
        }
        for(int t = 0; t < k.T; t++) {
            bool known = true;
            double bias = 0, size = 0;
            for(int i = 0; i < n; i++) {
                float p = k.par.sets[i][k.par.times() == 1 ? 0 : t][0];
                known = known && cg::ok(p);
                double w = 0;
                for(int j = 0; j < n; j++) w += (double) use[i][j] * S[j];
                bias += w * (op < 2 ? p : p - 1);
                size += std::fabs(w * (op < 2 ? p : p - 1));
            }
            for(int e = 0; e < k.E; e++) {
                double v = in[t][y][x][e], want = v;
                double inside = 0, valid = 0;
                if(aux) for(int q = std::max(0, t - window); q <= std::min(k.T - 1, t + window); q++) {
                    float x0 = k.data["aux"][q][y][x][e];
                    valid += cg::ok(x0);
                    inside += cg::ok(x0) && x0 >= lo && x0 <= hi;
                }
                double w = valid == 0 ? 1 : inside / valid, factor = 1;
                if(!cg::ok(v)) want = NONE;
                else if(known && nearest >= 0) {
                    if(op < 2) want = op == 0 ? v + bias * w : v - bias * w;
                    else {
                        if(1 + bias < 0.2) continue;
                        factor = std::pow(1 + bias, w);
                        want = op == 2 ? v * factor : v / factor;
                    }
                    partly = partly || std::fabs(want - v) > 0.01;
                }
                double z = got[t][y][x][e], tol = 1e-3 + (1e-4 + 1e-6 * cond) * (size * (op < 2 ? 1 : 30) + std::fabs(want)) * (op == 3 ? 5 : 1);
                REQUIRE(c, cg::ok(want) ? cg::ok(z) && std::fabs(z - want) < tol : !cg::ok(z), at(t, y, x, e), " is ", z, " not ", want, " from ", v, " with ", bias, " weight ", w);
            }
        }
    }
    c.nontrivial(partly && n > 1);
}

// Observations merged into the field by optimal interpolation, with the spread of the ensemble or with a given structure
PROP(C03, oi, 12000, 400000) {
    Case k;
    geometry(s, k, 9, true);
    if(k.Y() < 3 || k.X() < 3) if(s.b(0.8)) geometry(s, k, 9, true);
    k.T = s.i(1, 2);
    k.E = s.i(1, 8);
    int Y = k.Y(), X = k.X();
    if(k.g.lafs.empty() || s.b(0.3)) { k.g.lafs = cg::meta(s, Y, X, 0, 1, 0); for(auto& r : k.g.lafs) for(float& x : r) if(s.b(0.3)) x = 0; }
    if(s.b(0.8)) {
        k.top = 150;
        for(auto& r : k.g.elevs) for(float& x : r) if(cg::ok(x)) x *= 0.15f;
    }
    field(s, k, "v", -10, 30, s.b(0.7) ? 0 : 0.02);
    double unit = 111000 * k.r.dlat;
    auto number = [&](const char* name, double value, int digits) {
        std::ostringstream o;
        o << std::fixed << std::setprecision(digits) << value;
        k.options += cat(" ", name, "=", o.str());
        return (double) std::strtof(o.str().c_str(), nullptr);
    };
    double d = 30000, h = 100, w = 0.2, wmin = -1, minrho = 0.0013, sigma = 1, sigmac = 1, dc = 10000, delta = 1, eps = 0.5, gradient = 0, maxdiff = 200;
    int most = 20, minens = 5;
    bool useens = true, extrapolate = false, cross = s.b(0.2), land = s.b(0.2), soar = s.b(0.3);
    d = number("d", std::floor(unit * s.u(0.1, 2)) + 1, 0);
    if(s.b(0.7)) h = s.b(0.3) ? (k.options += " h=-999", -1) : number("h", s.u(50, 500), 0);
    if(s.b(0.7)) w = s.b(0.4) ? (k.options += " w=-999", -1) : number("w", s.u(0.1, 2), 2);
    if(s.b(0.3)) wmin = number("wmin", s.u(0, 1), 2);
    if(s.b(0.4)) minrho = number("minRho", s.u(0.01, 0.5), 3);
    sigmac = sigma;
    if(s.b(0.6)) sigmac = sigma = number("sigma", s.u(0.3, 4), 2);
    if(s.b(0.3)) sigmac = number("sigmaC", s.u(0.3, 4), 2);
    if(s.b(0.3)) dc = number("dc", std::floor(unit * s.u(0.1, 1)) + 1, 0);
    if(s.b(0.3)) delta = number("delta", s.u(0.3, 3), 2);
    if(s.b(0.4)) eps = number("epsilon", s.u(0.3, 2), 2);
    if(s.b(0.3)) gradient = number("elevGradient", s.u(-0.02, 0.02), 4);
    if(s.b(0.6)) maxdiff = s.b() ? (k.options += " maxElevDiff=-999", -1) : number("maxElevDiff", s.u(50, 1000), 0);
    if(s.b(0.3)) k.options += cat(" maxLocations=", most = s.i(1, 4));
    if(s.b(0.6)) k.options += cat(" minEns=", minens = s.i(1, 6));
    if(s.b(0.2)) k.options += cat(" useEns=", (int) (useens = s.b()));
    if(s.b(0.6)) k.options += cat(" extrapolate=", (int) (extrapolate = s.b(0.7)));
    if(cross || s.b(0.2)) k.options += cat(" crossValidate=", (int) cross);
    if(land) k.options += " landOnly=1";
    if(soar || s.b(0.2)) k.options += soar ? " rhoType=soar" : " rhoType=gaussian";
    int np = s.i(1, 3);
    double pm = s.b(0.2) ? 0.2 : 0;
    parameters(s, k, [&]() {
        Set p(1, s.b(pm) ? cg::MV : s.f(-10, 30));
        if(np == 2) p.push_back(s.f(0.3, 3));
        if(np == 3) { p.push_back(1); p.push_back(s.b() ? 1 : 0); }
        return p;
    }, 1, 0);
    if(s.b(0.1)) { int y = s.draw(Y), x = s.draw(X); k.g.lats[y][x] = k.g.lons[y][x] = NAN; }
    const auto& locs = k.par.locs;
    const auto& g = k.g;
    int n = locs.size();
    bool any = false;
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) any = any || (cg::ok(g.lats[y][x]) && cg::ok(g.elevs[y][x]));
    if(!any) throw pbt::Discard();
    double size = NAN;
    if(Y > 1 && X > 1 && cg::ok(g.lats[0][0]) && cg::ok(g.lats[1][0])) {
        size = Util::getDistance(g.lats[0][0], g.lons[0][0], g.lats[1][0], g.lons[1][0]);
        if(size < 10) throw pbt::Discard();
    }
    double reach = std::sqrt(-2 * std::log(minrho)) * d, cells = reach / size;
    if(std::fabs(cells - std::round(cells)) < 1e-4 * std::max(1.0, cells)) throw pbt::Discard();
    auto rho = [&](double dist, double v, bool vok, double l) {
        double q = dist / d, r = soar ? (1 + q) * std::exp(-q) : std::exp(-0.5 * q * q);
        if(h >= 0) r *= vok ? std::exp(-0.5 * v * v / h / h) : 0;
        if(wmin >= 0) r *= 1 - (1 - wmin) * std::fabs(l);
        if(w >= 0) r *= std::exp(-0.5 * l * l / w / w);
        return r;
    };
    // The cell and the usability of each observation
    std::vector<int> py(n), px(n), usable(n);
    for(int i = 0; i < n; i++) {
        double best = 1e99, second = 1e99;
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
            if(!cg::ok(g.lats[y][x])) continue;
            double q = cg::distance(locs[i].lat, locs[i].lon, g.lats[y][x], g.lons[y][x]);
            if(q < best) { second = best; best = q; py[i] = y; px[i] = x; }
            else second = std::min(second, q);
        }
        if(second <= best * (1 + 1e-4) + 15) throw pbt::Discard();
        float le = locs[i].elev, ce = g.elevs[py[i]][px[i]], cl = g.lafs[py[i]][px[i]];
        usable[i] = cg::ok(k.par.sets[i][0][0]);
        if(size == size) usable[i] = usable[i] && py[i] > 0 && py[i] < Y - 1 && px[i] > 0 && px[i] < X - 1;
        if(maxdiff >= 0) usable[i] = usable[i] && cg::ok(le) && cg::ok(ce) && std::fabs(le - ce) < maxdiff;
        if(maxdiff >= 0 && cg::ok(le) && cg::ok(ce) && std::fabs(std::fabs(le - ce) - maxdiff) < 1e-3) throw pbt::Discard();
        if(land && cg::ok(cl) && cl == 0) usable[i] = 0;
    }
    std::vector<vec3c> in = k.data["v"], got;
    {
        std::streambuf* old = std::cout.rdbuf(nullptr);
        try { got = run(s, c, k, "oi", "v"); } catch(...) { std::cout.rdbuf(old); std::cout.clear(); throw; }
        std::cout.rdbuf(old);
        std::cout.clear();
    }
    auto pair = [&](int i, int j) {
        double v = locs[i].elev - locs[j].elev, l = 0;
        float a = g.lafs[py[i]][px[i]], b = g.lafs[py[j]][px[j]];
        if(cg::ok(a) && cg::ok(b)) l = a - b;
        return rho(Util::getDistance(locs[i].lat, locs[i].lon, locs[j].lat, locs[j].lon, true), v, cg::ok(locs[i].elev) && cg::ok(locs[j].elev), l);
    };
    bool changed = false, several = false;
    for(int t = 0; t < k.T; t++) {
        std::vector<int> mem;
        for(int e = 0; e < k.E; e++) {
            bool full = true;
            for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) full = full && cg::ok(in[t][y][x][e]);
            if(full) mem.push_back(e);
        }
        int m = mem.size();
        bool single = !useens || m < minens;
        // The background at the observations
        la::M obs = la::zeros(n, std::max(m, 1));
        std::vector<double> mean(n, 0);
        for(int i = 0; i < n; i++) {
            float le = locs[i].elev, ce = g.elevs[py[i]][px[i]];
            double corr = gradient != 0 && cg::ok(le) && cg::ok(ce) ? gradient * (le - ce) : 0;
            for(int q = 0; q < m; q++) { obs[i][q] = in[t][py[i]][px[i]][mem[q]] + corr; mean[i] += (double) obs[i][q] / m; }
        }
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
            std::vector<std::pair<double, int> > sel;
            bool skip = false;
            for(int i = 0; i < n; i++) {
                if(!usable[i] || !cg::ok(g.lats[y][x])) continue;
                double dist = Util::getDistance(locs[i].lat, locs[i].lon, g.lats[y][x], g.lons[y][x], true);
                if(size == size) { if(std::abs(y - py[i]) > cells || std::abs(x - px[i]) > cells) continue; }
                else { skip = skip || std::fabs(dist - reach) < 1; if(dist >= reach) continue; }
                float l1 = g.lafs[py[i]][px[i]], l2 = g.lafs[y][x];
                double r = rho(dist, (double) locs[i].elev - g.elevs[y][x], cg::ok(locs[i].elev) && cg::ok(g.elevs[y][x]), cg::ok(l1) && cg::ok(l2) ? l1 - l2 : 0);
                if(std::fabs(r - minrho) < 1e-3 * minrho) skip = true;
                if(r > minrho) sel.push_back(std::make_pair(-r, i));
            }
            std::sort(sel.begin(), sel.end());
            auto tied = [&](size_t p) { return p > 0 && p < sel.size() && sel[p].first - sel[p - 1].first < 1e-4; };
            if(cross && !sel.empty()) { skip = skip || tied(1); sel.erase(sel.begin()); }
            if((int) sel.size() > most) { skip = skip || tied(most); sel.resize(most); }
            if(skip) continue;
            int L = sel.size();
            several = several || L > 1;
            // The increment of each member
            std::vector<double> inc(m, 0), lo(m, 1e99), hi(m, -1e99);
            double cond = 1;
            if(L > 0 && m > 0) {
                for(int q = 0; q < m; q++) for(int i = 0; i < L; i++) {
                    double z = k.par.sets[sel[i].second][0][0] - obs[sel[i].second][q];
                    lo[q] = std::min(lo[q], z);
                    hi[q] = std::max(hi[q], z);
                }
                auto weight = [&](int i) { return np == 2 ? (double) k.par.sets[sel[i].second][0][1] : 1.0; };
                auto radar = [&](int i) { return np == 3 && k.par.sets[sel[i].second][0][2] > 0; };
                if(single) {
                    la::M a = la::zeros(L, L), inv;
                    for(int i = 0; i < L; i++) for(int j = 0; j < L; j++) a[i][j] = pair(sel[i].second, sel[j].second) + (i == j ? eps * eps * weight(i) : 0);
                    la::R cc;
                    if(!la::inverse(a, inv, cc) || cc > 1000) continue;
                    cond = cc;
                    for(int q = 0; q < m; q++) for(int i = 0; i < L; i++) for(int j = 0; j < L; j++)
                        inc[q] += -sel[i].first * (double) inv[i][j] * (k.par.sets[sel[j].second][0][0] - (double) obs[sel[j].second][q]);
                }
                else {
                    la::M r = la::zeros(L, L), ri;
                    for(int i = 0; i < L; i++) r[i][i] = 1;
                    for(int i = 0; i < L; i++) for(int j = 0; j < L; j++) if(i != j && radar(i) && radar(j)) {
                        double q = Util::getDistance(locs[sel[i].second].lat, locs[sel[i].second].lon, locs[sel[j].second].lat, locs[sel[j].second].lon, true) / dc;
                        r[i][j] = (1 + q) * std::exp(-q);
                    }
                    la::R cr, cp;
                    if(!la::inverse(r, ri, cr) || cr > 1000) continue;
                    for(int i = 0; i < L; i++) for(int j = 0; j < L; j++) {
                        if(radar(i) && radar(j)) ri[i][j] *= std::sqrt(sel[i].first * sel[j].first) / (sigmac * sigmac);
                        else ri[i][j] = i == j ? -sel[i].first / (sigma * sigma * weight(i)) : 0;
                    }
                    la::M yp = la::zeros(L, m), dev = la::zeros(L, 1), xp = la::zeros(1, m);
                    double xm = 0;
                    for(int q = 0; q < m; q++) xm += in[t][y][x][mem[q]] / (double) m;
                    for(int q = 0; q < m; q++) xp[0][q] = in[t][y][x][mem[q]] - xm;
                    for(int i = 0; i < L; i++) {
                        dev[i][0] = k.par.sets[sel[i].second][0][0] - mean[sel[i].second];
                        for(int q = 0; q < m; q++) yp[i][q] = obs[sel[i].second][q] - mean[sel[i].second];
                    }
                    la::M cm = la::mul(la::transpose(yp), ri), pinv = la::mul(cm, yp), p;
                    for(int q = 0; q < m; q++) pinv[q][q] += (m - 1) / delta;
                    if(m < 2 || !la::inverse(pinv, p, cp)) continue;
                    cond = (double) (cr * cp);
                    if(cond > 1e6) continue;
                    la::M pw = p;
                    for(auto& row : pw) for(auto& z : row) z *= m - 1;
                    la::M W = la::sqrt_sym(pw), wv = la::mul(p, la::mul(cm, dev));
                    for(int q = 0; q < m; q++) {
                        double total = 0;
                        for(int u = 0; u < m; u++) total += (double) (xp[0][u] * (W[u][q] + wv[u][0]));
                        inc[q] = total - (double) xp[0][q];
                    }
                }
            }
            for(int e = 0; e < k.E; e++) {
                auto it = std::find(mem.begin(), mem.end(), e);
                double v = in[t][y][x][e], z = got[t][y][x][e];
                if(it == mem.end()) {       // not used: stays or becomes missing
                    REQUIRE(c, !cg::ok(z) || (cg::ok(v) && z == v), at(t, y, x, e), " is ", z, " instead of ", v);
                    continue;
                }
                int q = it - mem.begin();
                double bounded = L > 0 ? std::max(std::min(0.0, lo[q]), std::min(std::max(0.0, hi[q]), inc[q])) : 0;
                double tol = 2e-3 + 1e-6 * cond * (10 + std::fabs(inc[q]));
                bool good = cg::ok(z) && std::fabs(z - v - (extrapolate || single ? inc[q] : bounded)) < tol;
                if(single && !extrapolate) good = good || (cg::ok(z) && std::fabs(z - v - bounded) < tol);
                REQUIRE(c, good, at(t, y, x, e), single ? " (structure)" : " (ensemble)", " is ", z, " not ", v, " + ", extrapolate || single ? inc[q] : bounded, " (", inc[q], ", limits ", lo[q], " to ", hi[q], ") from ", L, " observations");
                changed = changed || std::fabs(z - v) > 0.05;
            }
        }
        c.label(single ? "structure" : "ensemble");
    }
    c.nontrivial(changed && several);
}
