// Generated NetCDF files in which the command-line program finds fields, and what writing fields has to do to them
#pragma once
#include "cnc.h"
#include "cfile.h"
#include <memory>
#include "File/Netcdf.h"

namespace {
struct Made {
    nc::File f;
    std::string options;
    int y = -1, x = -1, e = -1, t = -1, lat = -1, lon = -1, time = -1, ref = -1, elev = -1, laf = -1;
    double elev_scale = 1;
    bool has_ref = false;
    int Y = 1, X = 1, E = 1, T = 1;
    std::vector<double> times;
    double reftime = cg::MV;
    std::vector<std::string> fields;     // variables with field dimensions
};
std::string ascii(Src& s, int n) { return cg::word(s, n, "abc XYZ019_.:\n"); }
nc::Att any_att(Src& s, const std::string& name, bool nc4) {
    nc::Att a;
    a.name = name;
    int k = s.draw(nc4 ? 5 : 4);
    if(k < 2) { a.type = NC_CHAR; a.text = ascii(s, 12); }
    else if(k == 4) { a.type = NC_STRING; a.text = ascii(s, 6) + "\xc2\xb0"; }
    else {
        a.type = s.pick<int>({NC_INT, NC_SHORT, NC_FLOAT, NC_DOUBLE});
        int n = s.i(1, 3);
        for(int i = 0; i < n; i++) a.num.push_back(s.i(-100, 100));
    }
    return a;
}
void add_att(std::vector<nc::Att>& as, const nc::Att& a) { if(!nc::att(as, a.name)) as.push_back(a); }
std::vector<int> order(Src& s, std::vector<int> d) {
    if(s.b(0.5)) for(size_t k = 0; k + 1 < d.size(); k++) std::swap(d[k], d[k + s.draw(d.size() - k)]);
    return d;
}
// A text attribute that the program may rewrite
void text_att(Src& s, std::vector<nc::Att>& as, const std::string& name, std::initializer_list<std::string> texts, bool nc4, double p) {
    if(!s.b(p)) return;
    nc::Att a;
    a.name = name;
    a.text = s.pick(texts);
    a.type = nc4 && s.b(0.2) ? NC_STRING : NC_CHAR;
    if(s.b(0.05)) { a.type = NC_INT; a.text = ""; a.num = {1}; }
    add_att(as, a);
}
// Storage of a numeric variable: type, packing, value for missing; fills in the data
void storage(Src& s, nc::File& f, nc::Var& v, bool plain, double p, double lo, double hi) {
    v.type = s.pick<int>({NC_FLOAT, NC_FLOAT, NC_DOUBLE, NC_SHORT, NC_INT});
    if(plain) v.type = s.pick<int>({NC_FLOAT, NC_DOUBLE});
    bool ints = v.type == NC_SHORT || v.type == NC_INT;
    double scale = 1, offset = 0;
    if(!plain) {
        int t = s.b() ? NC_FLOAT : NC_DOUBLE;
        if(s.b(ints ? 0.7 : 0.15)) { scale = s.pick<double>({0.5, 0.01, 0.1, 2, -0.1, 100}); v.atts.push_back(nc::Att{"scale_factor", t, "", {t == NC_FLOAT ? (double) (float) scale : scale}}); scale = v.atts.back().num[0]; }
        if(s.b(ints ? 0.5 : 0.15)) { offset = s.pick<double>({273.15, 10, -5, 1000}); v.atts.push_back(nc::Att{"add_offset", t, "", {t == NC_FLOAT ? (double) (float) offset : offset}}); offset = v.atts.back().num[0]; }
    }
    if(s.b(0.6)) {
        double fv = ints ? s.pick<double>({-32767, -999, 9999, 0, -1}) : s.pick<double>({-999, 1e20, (double) NAN, -32767, 9.969209968386869e36, -9999.9, 0});
        if(v.type == NC_INT && s.b(0.2)) fv = -2147483647;
        if(v.type == NC_FLOAT) fv = (float) fv;
        v.atts.push_back(nc::Att{"_FillValue", v.type, "", {fv}});
    }
    double fill = nc::fill(v);
    v.data.resize(f.size(v));
    for(double& d : v.data) {
        if(p > 0 && s.b(p)) { d = fill; continue; }
        if(ints) d = s.i(-300, 300);
        else { d = s.real(lo, hi); d = v.type == NC_FLOAT ? (float) ((d - offset) / scale) : (d - offset) / scale; }
        if(d == fill) d += 1;
        if(!ints && std::fabs(d * scale + offset - cg::MV) < 0.5) d += 1 / scale;
    }
}
// What the file has to fit to: another file of the same times and members, in the same area
struct Fit { int E = 0, T = 0; bool local = false; double lat0 = 0, lon0 = 0, d = 1; int max = 4; bool ints = false; };
Made make(Src& s, const Fit& fit = Fit()) {
    Made m;
    nc::File& f = m.f;
    f.format = s.pick<int>({NC_NETCDF4, 0, NC_64BIT_OFFSET, NC_NETCDF4 | NC_CLASSIC_MODEL});
    bool nc4 = f.format == NC_NETCDF4;
    bool big = s.b(0.02);
    m.Y = s.i(1, big ? 30 : fit.max); m.X = s.i(1, big ? 30 : fit.max); m.E = s.i(1, 3); m.T = s.i(1, big ? 6 : 3);
    if(fit.E) m.E = fit.E;
    if(fit.T) m.T = fit.T;
    int names = s.draw(4), L = s.i(1, 3);
    bool custom = names == 3;
    std::string ny = names == 0 ? "y" : names == 1 ? "latitude" : names == 2 ? "lat" : "rows", nx = names == 0 ? "x" : names == 1 ? "longitude" : names == 2 ? "lon" : "cols";
    if(custom) m.options += " yDim=rows xDim=cols";
    bool has_e = s.b(0.7) || fit.E > 1, opt_e = s.b(0.25);
    if(!has_e) m.E = 1;
    std::string ne = opt_e ? "member" : "ensemble_member";
    if(opt_e) m.options += " ensDim=member";
    // Times: dimension and variable, a single time, or only the reference time
    int tk = s.pick<int>({0, 0, 0, 0, 1, 2});
    if(fit.T > 1) tk = 0;
    bool opt_t = tk == 0 && s.b(0.25);
    if(tk) m.T = 1;
    std::vector<std::pair<std::string, int> > want;
    want.push_back({ny, m.Y}); want.push_back({nx, m.X});
    if(has_e) want.push_back({ne, m.E});
    if(tk == 0) want.push_back({opt_t ? "date" : "time", m.T});
    bool has_l = s.b(0.6);
    if(has_l) want.push_back({"height", L});
    bool other = s.b(0.5);
    if(other) want.push_back({"other", s.i(1, 3)});
    bool single = s.b(0.3);
    if(single) want.push_back({"single", 1});
    if(s.b(0.5)) for(size_t k = 0; k + 1 < want.size(); k++) std::swap(want[k], want[k + s.draw(want.size() - k)]);
    bool unlim = s.b(0.4);
    for(auto& w : want) f.dims.push_back(nc::Dim{w.first, (size_t) w.second, unlim && (w.first == "time" || w.first == "date")});
    m.y = f.dim(ny); m.x = f.dim(nx); m.e = has_e ? f.dim(ne) : -1; m.t = tk == 0 ? f.dim(opt_t ? "date" : "time") : -1;
    int height = f.dim("height"), od = f.dim("other"), sd = f.dim("single");
    // With an unlimited dimension in a classic file, that dimension has to come first
    bool classic = f.format != NC_NETCDF4;
    auto legal = [&](std::vector<int> d) {
        if(!classic) return d;
        for(size_t k = 0; k < d.size(); k++) if(f.dims[d[k]].unlimited) { int u = d[k]; d.erase(d.begin() + k); d.insert(d.begin(), u); }
        return d;
    };
    std::vector<nc::Var> vars;
    // Coordinates
    bool flat = s.b(0.5);
    std::string nlat = names == 0 ? (s.b() ? "lat" : "latitude") : names == 1 ? "latitude" : names == 2 ? "lat" : "my_lat", nlon = names == 0 ? (s.b() ? "lon" : "longitude") : names == 1 ? "longitude" : names == 2 ? "lon" : "my_lon";
    if(custom) m.options += " latVar=my_lat lonVar=my_lon";
    nc::Var lat, lon;
    lat.name = nlat; lon.name = nlon;
    lat.dims = flat ? std::vector<int>(1, m.y) : order(s, {m.y, m.x});
    lon.dims = flat ? std::vector<int>(1, m.x) : s.b(0.8) ? lat.dims : order(s, {m.y, m.x});
    if(!flat && single && s.b(0.3)) lat.dims.insert(lat.dims.begin(), sd);
    lat.type = s.b() ? NC_DOUBLE : NC_FLOAT; lon.type = lat.type;
    bool wide = s.b(0.3);
    for(nc::Var* v : {&lat, &lon}) {
        v->data.resize(f.size(*v));
        for(double& d : v->data) { d = v == &lat ? s.real(-90, 90) : s.real(wide ? -360 : -180, wide ? 360 : 180); d = (float) d; }
        if(fit.local) {
            int n = v == &lat ? m.Y : m.X, me = v == &lat ? m.y : m.x;
            std::vector<double> axis(n);
            double from = (v == &lat ? fit.lat0 : fit.lon0) - fit.d, step = 2 * fit.d / n;
            for(int i = 0; i < n; i++) axis[i] = from + step * (i + s.u(0.1, 0.9));
            if(s.b(0.2)) std::reverse(axis.begin(), axis.end());
            nc::each(f, *v, [&](size_t k, const std::vector<int>& ix) {
                for(size_t q = 0; q < ix.size(); q++) if(v->dims[q] == me) v->data[k] = (float) (axis[ix[q]] + (flat ? 0 : s.u(-0.2, 0.2) * step));
            });
        }
        text_att(s, v->atts, "units", {"degrees_north", "degrees_east"}, nc4, 0.5);
    }
    vars.push_back(lat); vars.push_back(lon);
    if(m.t >= 0 || tk == 1) {
        nc::Var t;
        t.name = opt_t ? "date" : "time";
        if(opt_t) m.options += " timeDim=date timeVar=date";
        t.type = s.pick<int>({NC_DOUBLE, NC_INT});
        if(m.t >= 0) t.dims.push_back(m.t);
        double t0 = s.b() ? s.i(0, 100) : 1467590400.0 + s.i(0, 1000) * 3600.0, step = s.pick<double>({3600, 600, 86400, 1});
        t.data.resize(m.T);
        for(int k = 0; k < m.T; k++) t.data[k] = t0 + k * step + (t.type == NC_DOUBLE && !fit.ints && s.b(0.1) ? 0.5 : 0);
        m.times = t.data;
        text_att(s, t.atts, "units", {"seconds since 1970-01-01 00:00:00 +00:00", "seconds since 1970-01-01"}, nc4, 0.7);
        if(s.b(0.3)) add_att(t.atts, any_att(s, "comment", nc4));
        vars.push_back(t);
        m.time = 1;
    }
    if(tk == 2 || s.b(0.6)) {
        nc::Var r;
        r.name = "forecast_reference_time";
        r.type = s.pick<int>({NC_DOUBLE, NC_INT});
        r.data.push_back(s.b() ? s.i(0, 100) : 1467590400.0 + s.i(0, 1000) * 3600.0);
        m.reftime = r.data[0];
        m.has_ref = true;
        text_att(s, r.atts, "units", {"seconds since 1970-01-01 00:00:00 +00:00"}, nc4, 0.5);
        vars.push_back(r);
    }
    if(!m.has_ref) m.reftime = m.times[0];
    if(tk == 2) m.times.assign(1, m.reftime);
    // Altitudes and land area fractions
    int ek = s.draw(5);     // none, altitude, geopotential, both, another variable
    for(int k : {1, 2, 4, 5}) {
        bool on = k == 1 ? ek == 1 || ek == 3 : k == 2 ? ek == 2 || ek == 3 : k == 4 ? ek == 4 : s.b(0.5);
        if(k == 1 && ek == 4 && s.b(0.4)) on = true;      // an altitude that is not used
        if(!on) continue;
        nc::Var a;
        a.name = k == 1 ? "altitude" : k == 2 ? "surface_geopotential" : k == 4 ? "topography" : s.b(0.7) ? "land_area_fraction" : "lsm";
        if(k == 4) m.options += " elevVar=topography";
        if(k == 5 && a.name == "lsm") m.options += " lafVar=lsm";
        a.dims = order(s, {m.y, m.x});
        if(single && s.b(0.4)) a.dims.insert(a.dims.begin() + s.draw(3), sd);
        storage(s, f, a, true, s.b(0.3) ? 0.3 : 0, 0, k == 5 ? 1 : 3000);
        text_att(s, a.atts, "units", {"m", "1"}, nc4, 0.4);
        if(s.b(0.3)) add_att(a.atts, any_att(s, "long_name", nc4));
        vars.push_back(a);
    }
    // Fields
    int nf = s.i(1, 4);
    for(int k = 0; k < nf; k++) {
        nc::Var v;
        v.name = cat("var", k);
        std::vector<int> d;
        bool has_t = m.t >= 0 && (m.T > 1 || s.b(0.8));
        if(has_t) d.push_back(m.t);
        if(has_l && s.b(0.5)) d.push_back(height);
        if(m.e >= 0) d.push_back(m.e);
        if(single && s.b(0.3)) d.push_back(sd);
        d.push_back(m.y); d.push_back(m.x);
        v.dims = legal(order(s, d));
        storage(s, f, v, false, s.b(0.5) ? 0.2 : 0, -50, 300);
        text_att(s, v.atts, "units", {"K", "mm", "m/s"}, nc4, 0.5);
        text_att(s, v.atts, "standard_name", {"air_temperature", "wind_speed"}, nc4, 0.4);
        text_att(s, v.atts, "coordinates", {"longitude latitude", "a b"}, nc4, 0.3);
        if(s.b(0.3)) add_att(v.atts, any_att(s, "long_name", nc4));
        m.fields.push_back(v.name);
        vars.push_back(v);
    }
    // Variables that are no fields
    int no = s.i(0, 3);
    for(int k = 0; k < no; k++) {
        nc::Var v;
        v.name = cat("extra", k);
        if(s.b(0.2)) {
            v.type = NC_CHAR;
            if(od >= 0) v.dims.push_back(od);
            v.data.resize(f.size(v));
            for(double& d : v.data) d = 'a' + (int) s.draw(26);
        }
        else {
            std::vector<int> d;
            for(int q : {m.t, height, od, m.y, m.e}) if(q >= 0 && s.b(0.3)) d.push_back(q);
            v.dims = legal(order(s, d));
            storage(s, f, v, false, 0.1, -50, 300);
        }
        if(s.b(0.5)) add_att(v.atts, any_att(s, "about", nc4));
        text_att(s, v.atts, "units", {"K", "mm"}, nc4, 0.3);
        vars.push_back(v);
    }
    int na = s.i(0, 2);
    for(int k = 0; k < na; k++) add_att(f.atts, any_att(s, cat("global", k), nc4));
    if(s.b(0.4)) text_att(s, f.atts, "history", {"2012-01-01: made", "one\ntwo", "x"}, nc4, 1);
    if(s.b(0.4)) text_att(s, f.atts, "Conventions", {"CF-1.6", "CF-1.0"}, nc4, 1);
    if(s.b(0.5)) for(size_t k = 0; k + 1 < vars.size(); k++) std::swap(vars[k], vars[k + s.draw(vars.size() - k)]);
    f.vars = vars;
    m.lat = f.var(nlat); m.lon = f.var(nlon);
    m.time = m.time >= 0 ? f.var(opt_t ? "date" : "time") : -1;
    m.ref = f.var("forecast_reference_time");
    m.laf = f.var(m.options.find("lafVar=lsm") != std::string::npos ? "lsm" : "land_area_fraction");
    m.elev = m.options.find("elevVar") != std::string::npos ? f.var("topography") : f.var("altitude") >= 0 ? f.var("altitude") : f.var("surface_geopotential");
    if(m.elev >= 0 && f.vars[m.elev].name == "surface_geopotential") m.elev_scale = 1 / 9.81;
    return m;
}
bool missing(const nc::Var& v, double d) { return nc::same(d, nc::fill(v)) || std::isnan(d); }
// A coordinate (altitude, ...) at a grid point
float at(const Made& m, int var, int y, int x) {
    const nc::Var& v = m.f.vars[var];
    float r = cg::MV;
    nc::each(m.f, v, [&](size_t k, const std::vector<int>& ix) {
        bool hit = true;
        for(size_t d = 0; d < ix.size(); d++) hit = hit && ix[d] == (v.dims[d] == m.y ? y : v.dims[d] == m.x ? x : 0);
        if(hit) r = missing(v, v.data[k]) ? cg::MV : v.data[k];
    });
    return r;
}
float lon180(float lon) {
    double l = std::fmod(lon, 360);
    return l > 180 ? l - 360 : l < -180 ? l + 360 : l;
}
// The field of a variable at one time and level
vec3c field(const Made& m, const nc::Var& v, int t, int level, bool& in) {
    double scale = nc::number(v, "scale_factor", 1), offset = nc::number(v, "add_offset", 0);
    vec3c r(m.Y, vec2(m.X, std::vector<float>(m.E, cg::MV)));
    in = true;
    nc::each(m.f, v, [&](size_t k, const std::vector<int>& ix) {
        int y = 0, x = 0, e = 0;
        bool hit = true;
        for(size_t d = 0; d < ix.size(); d++) {
            int q = v.dims[d];
            if(q == m.y) y = ix[d];
            else if(q == m.x) x = ix[d];
            else if(q == m.e) e = ix[d];
            else if(q == m.t) hit = hit && ix[d] == t;
            else hit = hit && ix[d] == (level > 0 && m.f.dims[q].len > 1 ? level : 0);
        }
        if(hit) r[y][x][e] = missing(v, v.data[k]) ? cg::MV : v.data[k] * scale + offset;
    });
    return r;
}
void set(FieldPtr p, const vec3c& v) { for(size_t y = 0; y < v.size(); y++) for(size_t x = 0; x < v[y].size(); x++) for(size_t e = 0; e < v[y][x].size(); e++) (*p)(y, x, e) = v[y][x][e]; }
std::string where(const std::string& n, int t, int y, int x, int e) { return cat(n, " at time ", t, ", cell (", y, ",", x, "), member ", e); }
struct Want { double value; bool changed; };    // what a file has to contain
typedef std::map<std::string, std::vector<Want> > Plan;

void check_open(Ctx& c, const Made& m, const ::File& f) {
    REQUIRE(c, f.getNumY() == m.Y && f.getNumX() == m.X && f.getNumEns() == m.E && f.getNumTime() == m.T, "the program sees ", f.getNumY(), " x ", f.getNumX(), " cells, ", f.getNumEns(), " members, ", f.getNumTime(), " times");
    REQUIRE(c, f.getTimes() == m.times, "the times are ", f.getTimes(), " not ", m.times);
    REQUIRE(c, f.getReferenceTime() == m.reftime, "the reference time is ", f.getReferenceTime());
    vec2 la = f.getLats(), lo = f.getLons(), el = f.getElevs(), lf = f.getLandFractions();
    for(int y = 0; y < m.Y; y++) for(int x = 0; x < m.X; x++) {
        REQUIRE(c, la[y][x] == at(m, m.lat, y, x), "the latitude of (", y, ",", x, ") is ", la[y][x], " not ", at(m, m.lat, y, x));
        REQUIRE(c, feq(lo[y][x], lon180(at(m, m.lon, y, x)), 1e-4, 0), "the longitude of (", y, ",", x, ") is ", lo[y][x], " not ", lon180(at(m, m.lon, y, x)));
        float e = m.elev < 0 ? cg::MV : at(m, m.elev, y, x), l = m.laf < 0 ? cg::MV : at(m, m.laf, y, x);
        if(cg::ok(e)) e *= m.elev_scale;
        REQUIRE(c, cg::ok(e) ? feq(el[y][x], e, 1e-4, 1e-6) : !cg::ok(el[y][x]), "the altitude of (", y, ",", x, ") is ", el[y][x], " not ", e);
        REQUIRE(c, cg::same(lf[y][x], l), "the land area fraction of (", y, ",", x, ") is ", lf[y][x], " not ", l);
    }
    for(auto& v : m.f.vars) {
        Variable got;
        REQUIRE(c, f.getVariable(v.name, got), "no variable ", v.name);
        REQUIRE(c, got.units() == nc::text(v.atts, "units") && got.standardName() == nc::text(v.atts, "standard_name"), v.name, " has units '", got.units(), "' and standard name '", got.standardName(), "'");
    }
}
void check_field(Ctx& c, const Made& m, const std::string& name, int t, const vec3c& want, const vec3c& got, double scale, double offset) {
    REQUIRE(c, (int) got.size() == m.Y && (int) got[0].size() == m.X && (int) got[0][0].size() == m.E, "the field has the wrong size");
    for(int y = 0; y < m.Y; y++) for(int x = 0; x < m.X; x++) for(int e = 0; e < m.E; e++) {
        float a = want[y][x][e], b = got[y][x][e];
        double tol = 2e-7 * (std::fabs(a) + 2 * std::fabs(offset));
        REQUIRE(c, cg::ok(a) ? cg::ok(b) && std::fabs(a - b) <= tol : !cg::ok(b), where(name, t, y, x, e), " is ", b, " not ", a);
    }
}
// Everything in the file on disk is as the model says
void check_disk(Ctx& c, const nc::File& want, const nc::File& got, const Plan& plan, const std::string* message) {
    REQUIRE(c, got.dims.size() == want.dims.size(), "the file has ", got.dims.size(), " dimensions");
    for(auto& d : want.dims) {
        int k = got.dim(d.name);
        REQUIRE(c, k >= 0 && got.dims[k].len == d.len && got.dims[k].unlimited == d.unlimited, "the dimension ", d.name, " changes");
    }
    REQUIRE(c, got.vars.size() == want.vars.size(), "the file has ", got.vars.size(), " variables, not ", want.vars.size());
    for(auto& w : want.vars) {
        int k = got.var(w.name);
        REQUIRE(c, k >= 0, "the variable ", w.name, " is not in the file");
        const nc::Var& g = got.vars[k];
        std::vector<std::string> wd, gd;
        for(int d : w.dims) wd.push_back(want.dims[d].name);
        for(int d : g.dims) gd.push_back(got.dims[d].name);
        REQUIRE(c, g.type == w.type && wd == gd, "the type or dimensions of ", w.name, " change: type ", g.type, " dimensions ", gd, " not ", wd);
        REQUIRE(c, g.atts.size() == w.atts.size(), "the attributes of ", w.name, " are", nc::show(g.atts), " not", nc::show(w.atts));
        for(auto& a : w.atts) {
            const nc::Att* b = nc::att(g.atts, a.name);
            REQUIRE(c, b && nc::same(a, *b), "the attribute ", nc::show(a), " of ", w.name, " becomes ", b ? nc::show(*b) : "nothing");
        }
        auto p = plan.find(w.name);
        for(size_t i = 0; i < w.data.size(); i++) {
            double x = g.data[i];
            if(p == plan.end() || !p->second[i].changed) { REQUIRE(c, nc::same(x, w.data[i]), "element ", i, " of ", w.name, " is ", x, " not ", w.data[i], " (not written or not modified)"); continue; }
            double v = p->second[i].value;
            if(nc::same(v, nc::fill(w))) { REQUIRE(c, nc::same(x, v), "element ", i, " of ", w.name, " is ", x, " not the fill value ", v); continue; }
            double offset = nc::number(w, "add_offset", 0), scale = nc::number(w, "scale_factor", 1);
            double tol = 3e-7 * (std::fabs(v) + 2 * std::fabs(offset / scale));
            if(w.type == NC_SHORT || w.type == NC_INT) tol += 0.5;
            REQUIRE(c, std::fabs(x - v) <= tol, "element ", i, " of ", w.name, " is ", x, " not ", v);
        }
    }
    for(auto& a : want.atts) {
        const nc::Att* b = nc::att(got.atts, a.name);
        if(a.name == "history" && message) REQUIRE(c, b && b->text.find("gridpp " + *message) != std::string::npos && b->text.size() >= a.text.size() && b->text.compare(b->text.size() - a.text.size(), a.text.size(), a.text) == 0, "the history is '", b ? b->text : "", "'");
        else REQUIRE(c, b && nc::same(a, *b), "the global attribute ", nc::show(a), " becomes ", b ? nc::show(*b) : "nothing");
    }
    REQUIRE(c, got.atts.size() == want.atts.size(), "the global attributes are", nc::show(got.atts));
}
// What has to be in the file after these variables are written: changes the model of the file, and lists the new values
void expect_write(Made& m, const std::vector<std::string>& listed, std::map<std::string, Variable>& variable, std::map<std::string, int>& level,
        std::map<std::string, std::vector<vec3c> >& cache, std::map<std::string, std::vector<char> >& touched, Plan& plan) {
    nc::File& M = m.f;
    for(auto& a : M.atts) {
        if(a.name == "Conventions" && a.text != "") nc::put(M.atts, "Conventions", "CF-1.0");
    }
    const nc::Att* h = nc::att(M.atts, "history");
    nc::put(M.atts, "history", h ? h->text : "");
    bool any = false;
    for(int y = 0; y < m.Y; y++) for(int x = 0; x < m.X; x++) any = any || (m.elev >= 0 && cg::ok(at(m, m.elev, y, x)));
    if(m.time < 0) {
        if(m.t < 0) { M.dims.push_back(nc::Dim{"time", 1, true}); m.t = M.dims.size() - 1; }
        nc::Var t;
        t.name = "time"; t.type = NC_DOUBLE; t.dims.push_back(m.t); t.data = m.times;
        M.vars.push_back(t);
        m.time = M.vars.size() - 1;
    }
    if(m.ref < 0) {
        nc::Var t;
        t.name = "forecast_reference_time"; t.type = NC_DOUBLE; t.data.push_back(m.reftime);
        M.vars.push_back(t);
        m.ref = M.vars.size() - 1;
    }
    nc::put(M.vars[m.time].atts, "long_name", "time");
    nc::put(M.vars[m.time].atts, "standard_name", "time");
    nc::put(M.vars[m.time].atts, "units", "seconds since 1970-01-01 00:00:00 +00:00");
    nc::put(M.vars[m.ref].atts, "standard_name", "forecast_reference_time");
    nc::put(M.vars[m.ref].atts, "units", "seconds since 1970-01-01 00:00:00 +00:00");
    for(auto& n : listed) {
        if(M.var(n) < 0) {
            nc::Var v;
            v.name = n; v.type = NC_FLOAT;
            for(int d : {m.t, m.e, m.y, m.x}) if(d >= 0) v.dims.push_back(d);
            v.data.assign(M.size(v), nc::fill(v));
            M.vars.push_back(v);
            m.fields.push_back(n);
            touched[n].assign(m.T, 1);
        }
        nc::Var& v = M.vars[M.var(n)];
        double scale = nc::number(v, "scale_factor", 1), offset = nc::number(v, "add_offset", 0);
        nc::put(v.atts, "coordinates", M.vars[m.lon].name + " " + M.vars[m.lat].name);
        if(variable[n].units() != "") nc::put(v.atts, "units", variable[n].units());
        if(variable[n].standardName() != "") nc::put(v.atts, "standard_name", variable[n].standardName());
        std::vector<Want>& p = plan[n];
        p.resize(v.data.size(), Want{0, false});
        nc::each(M, v, [&](size_t k, const std::vector<int>& ix) {
            int y = 0, x = 0, e = 0, t = 0;
            bool hit = true;
            for(size_t d = 0; d < ix.size(); d++) {
                int q = v.dims[d];
                if(q == m.y) y = ix[d];
                else if(q == m.x) x = ix[d];
                else if(q == m.e) e = ix[d];
                else if(q == m.t) t = ix[d];
                else hit = hit && ix[d] == (level[n] > 0 && M.dims[q].len > 1 ? level[n] : 0);
            }
            if(!hit) return;
            float now = cache[n][t][y][x][e];
            bool miss = missing(v, v.data[k]);
            if(!touched[n][t] || (cg::ok(now) ? (float) (v.data[k] * scale + offset) == now && !miss : miss)) {      // not modified
                // Single precision numbers and integers come out as they were, other numbers pass through single precision
                if(!miss && !p[k].changed && (v.type == NC_DOUBLE || (v.type == NC_FLOAT && (scale != 1 || offset != 0)))) { p[k].changed = true; p[k].value = v.data[k]; }
                return;
            }
            p[k].changed = true;
            p[k].value = cg::ok(now) ? (now - offset) / scale : nc::fill(v);
        });
    }
    // A new altitude variable holds the altitudes
    bool new_altitude = any && M.var("altitude") < 0;
    if(new_altitude) {
        nc::Var a;
        a.name = "altitude"; a.type = NC_FLOAT;
        int q = M.vars[m.lat].dims.size() >= 2 ? m.lat : M.var("surface_geopotential");
        bool yfirst = true;
        if(q >= 0) { int py = -1, px = -1; for(size_t d = 0; d < M.vars[q].dims.size(); d++) { if(M.vars[q].dims[d] == m.y) py = d; if(M.vars[q].dims[d] == m.x) px = d; } yfirst = py < px; }
        a.dims = yfirst ? std::vector<int>{m.y, m.x} : std::vector<int>{m.x, m.y};
        for(int i = 0; i < (yfirst ? m.Y : m.X); i++) for(int j = 0; j < (yfirst ? m.X : m.Y); j++) {
            float e = yfirst ? at(m, m.elev, i, j) : at(m, m.elev, j, i);
            a.data.push_back(cg::ok(e) ? (float) (e * m.elev_scale) : nc::fill(a));
        }
        M.vars.push_back(a);
        plan["altitude"].resize(a.data.size());
        for(size_t k = 0; k < a.data.size(); k++) plan["altitude"][k] = Want{a.data[k], true};
        if(m.options.find("elevVar") == std::string::npos) { m.elev = M.vars.size() - 1; m.elev_scale = 1; }
    }
}
}
