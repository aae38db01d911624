// C02: parameter files of the command-line program
#include "cgen.h"
#include "ParameterFile/ParameterFile.h"
#include <netcdf.h>
#include <memory>
#include <map>

namespace {
typedef std::vector<float> Set;
struct Loc { float lat, lon, elev; };
// The reference: for every location (ignoring the elevation) the sets by time
struct Model {
    bool spatial = false;
    std::vector<Loc> locs;
    std::vector<std::map<int, Set> > sets;
    int max_time = 0;
    bool cycle = false;
    int find(float lat, float lon) const {
        for(size_t i = 0; i < locs.size(); i++) if(locs[i].lat == lat && locs[i].lon == lon) return i;
        return -1;
    }
    void set(const Set& p, int t, const Loc& l) {
        int i = find(l.lat, l.lon);
        if(i < 0) { i = locs.size(); locs.push_back(l); sets.push_back(std::map<int, Set>()); }
        sets[i][t] = p;
        max_time = std::max(max_time, t);
    }
    // time in the file for a requested time; -1: refused
    int time(int t) const {
        if(t < 0) return -1;
        if(max_time == 0) return 0;
        if(cycle) t %= max_time + 1;
        return t > max_time ? -1 : t;
    }
    const Set* at(int i, int t) const {
        auto it = sets[i].find(t);
        return it == sets[i].end() || it->second.empty() ? nullptr : &it->second;
    }
    // the sets that may be returned
    std::vector<Set> expect(int t, float lat, float lon, bool nearest) const {
        std::vector<Set> r;
        if(!spatial) {
            if(!locs.empty() && at(0, t)) r.push_back(*at(0, t));
            return r;
        }
        int i = find(lat, lon);
        if(i >= 0 && at(i, t)) { r.push_back(*at(i, t)); return r; }
        if(!nearest) return r;
        double best = 1e99;
        for(int pass = 0; pass < 2; pass++) for(size_t k = 0; k < locs.size(); k++) {
            if(!at(k, t)) continue;
            double d = cg::distance(locs[k].lat, locs[k].lon, lat, lon);
            if(pass == 0) best = std::min(best, d);
            else if(d <= best * (1 + 1e-6) + 10) r.push_back(*at(k, t));
        }
        return r;
    }
};
class Mem : public ParameterFile {
    public:
        Mem(const Options& o) : ParameterFile(o) {}
        bool isFixedSize() const { return false; }
        bool isReadable() const { return true; }
        std::string name() const { return "memory"; }
};
std::string show(const Model& m) {
    std::string r = m.spatial ? "spatial" : "not spatial";
    for(size_t i = 0; i < m.locs.size(); i++) {
        r += cat("\n  ", m.locs[i].lat, " ", m.locs[i].lon, " ", m.locs[i].elev, ":");
        for(auto& e : m.sets[i]) r += cat(" t", e.first, " ", e.second);
    }
    return r;
}
bool equal(const Set& a, const Set& b, double rtol = 0) {
    if(a.size() != b.size()) return false;
    for(size_t i = 0; i < a.size(); i++) if(!(a[i] == b[i] || (!cg::ok(a[i]) && !cg::ok(b[i])) || std::fabs(a[i] - b[i]) <= rtol * std::fabs(b[i]))) return false;
    return true;
}
struct Area { double lat0, lon0, d; };
Area area(Src& s) {
    Area a;
    a.lat0 = s.i(-70, 70);
    a.lon0 = s.b(0.2) ? 178 : s.i(-170, 170);
    a.d = s.pick<double>({1, 0.01, 10});
    return a;
}
float lon(double v) { return v > 180 ? v - 360 : v < -180 ? v + 360 : v; }
Loc place(Src& s, const Area& a) {
    Loc l;
    bool lattice = s.b(0.5);
    l.lat = a.lat0 + a.d * (lattice ? s.i(-2, 2) / 2.0 : s.u(-1, 1));
    l.lon = lon(a.lon0 + a.d * (lattice ? s.i(-2, 2) / 2.0 : s.u(-1, 1)));
    l.elev = s.b(0.2) ? cg::MV : s.f(0, 1000);
    return l;
}
Set values(Src& s, int n, double pm) {
    Set v(n);
    for(float& x : v) x = s.b(pm) ? cg::MV : s.b(0.3) ? s.i(-3, 3) : s.b(0.2) ? s.f(-1e6, 1e6) : s.f(-2, 2);
    return v;
}
// Queries at known and other places
void compare(Src& s, Ctx& c, const ParameterFile& f, const Model& m, const Area& a, double rtol = 0, int n = 8, const std::string& what = "") {
    if(m.locs.empty()) return;
    for(int q = 0; q < n; q++) {
        int t = s.i(0, std::max(4, m.max_time));
        Loc l = place(s, a);
        if(s.b(0.4) && m.spatial) { l = m.locs[s.draw(m.locs.size())]; if(s.b(0.3)) l.elev = 17; }
        else if(s.b(0.2) && m.spatial) { l.lat += 1e-4; }
        bool near = s.b(0.7);
        int tt = m.time(t);
        if(tt < 0) continue;
        std::vector<Set> e = m.expect(tt, l.lat, l.lon, near);
        Parameters p;
        if(!m.spatial && s.b(0.6)) p = f.getParameters(t);
        else if(!m.spatial) p = f.getParameters(t, Location(l.lat, l.lon, l.elev), true);
        else p = f.getParameters(t, Location(l.lat, l.lon, l.elev), near);
        Set v = p.getValues();
        bool found = e.empty() && v.empty();
        for(auto& x : e) found = found || equal(v, x, rtol);
        REQUIRE(c, found, what, "time ", t, " at ", l.lat, ",", l.lon, near ? "" : " (no neighbours)", " gives ", v, " instead of ", e.empty() ? Set() : e[0]);
        if(!e.empty() && m.locs.size() > 1) c.nontrivial();
        if(!e.empty() && !m.spatial && m.max_time > 0) c.nontrivial();
    }
}
bool has_location(const std::vector<Location>& v, const Loc& l, bool elev) {
    for(auto& x : v) if(x.lat() == l.lat && x.lon() == l.lon && (!elev || x.elev() == l.elev || (!cg::ok(x.elev()) && !cg::ok(l.elev)))) return true;
    return false;
}
void locations(Ctx& c, const ParameterFile& f, const Model& m) {
    REQUIRE(c, f.isLocationDependent() == m.spatial, "location dependent: ", f.isLocationDependent());
    if(!m.spatial) return;
    std::vector<Location> v = f.getLocations();
    REQUIRE(c, v.size() == m.locs.size(), "there are ", v.size(), " locations instead of ", m.locs.size());
    for(auto& l : m.locs) REQUIRE(c, has_location(v, l, true), "location ", l.lat, " ", l.lon, " ", l.elev, " is not in the file");
}
// A random model with sets of n parameters
Model model(Src& s, const Area& a, bool spatial, int n, bool full, double pm) {
    Model m;
    m.spatial = spatial;
    int L = spatial ? s.i(1, 6) : 1, T = s.i(1, 4);
    Loc none = {cg::MV, cg::MV, cg::MV};
    for(int i = 0; i < L; i++) {
        Loc l = spatial ? place(s, a) : none;
        for(int t = 0; t < T; t++) if(full || s.b(0.7)) m.set(values(s, n, pm), t, l);
    }
    if(m.locs.empty()) m.set(values(s, n, pm), 0, spatial ? place(s, a) : none);
    return m;
}
void fill(ParameterFile& f, const Model& m) {
    for(size_t i = 0; i < m.locs.size(); i++) for(auto& e : m.sets[i]) {
        if(m.spatial) f.setParameters(Parameters(e.second), e.first, Location(m.locs[i].lat, m.locs[i].lon, m.locs[i].elev));
        else f.setParameters(Parameters(e.second), e.first);
    }
    f.recomputeTree();
}
std::string number(float v) { char t[64]; snprintf(t, sizeof(t), "%.9g", v); return t; }
}

PROP(C02, memory, 60000, 3000000) {
    Area a = area(s);
    Model m;
    m.spatial = s.b(0.8);
    m.cycle = s.b(0.3);
    Mem f(m.cycle ? Options("cycle=1") : Options());
    Loc none = {cg::MV, cg::MV, cg::MV};
    std::string log;
    int rounds = s.i(1, 3);
    for(int r = 0; r < rounds; r++) {
        int n = s.i(1, 8);
        for(int k = 0; k < n; k++) {
            Set p = values(s, s.b(0.15) ? 0 : s.i(1, 3), 0.1);
            int t = s.i(0, 4);
            if(s.b(0.4)) t = 0;
            Loc l = !m.spatial ? none : !m.locs.empty() && s.b(0.3) ? m.locs[s.draw(m.locs.size())] : place(s, a);
            if(m.spatial) f.setParameters(Parameters(p), t, Location(l.lat, l.lon, l.elev));
            else f.setParameters(Parameters(p), t);
            m.set(p, t, l);
            LOG(c, "set ", p, " time ", t, " at ", l.lat, " ", l.lon, " ", l.elev);
        }
        f.recomputeTree();
        LOG(c, "recomputeTree");
        locations(c, f, m);
        REQUIRE(c, f.isTimeDependent() == (m.max_time > 0), "time dependent: ", f.isTimeDependent());
        compare(s, c, f, m, a);
    }
    // a time that does not exist is refused
    if(s.b(0.01)) {
        int t = s.b() ? -1 : m.max_time + 1;
        bool ok = m.time(t) >= 0;
        char o = cg::outcome([&] { if(m.spatial) f.getParameters(t, Location(a.lat0, a.lon0)); else f.getParameters(t); });
        REQUIRE(c, o == (ok ? 'r' : 'e'), "time ", t, ": outcome ", o);
    }
    ParameterFileSimple simple(Parameters(values(s, s.i(1, 4), 0)));
    Set v = simple.getParameters(0).getValues();
    for(int k = 0; k < 3; k++) {
        Loc l = place(s, a);
        REQUIRE(c, equal(simple.getParameters(s.i(0, 5), Location(l.lat, l.lon, l.elev)).getValues(), v), "simple parameters differ between places or times");
    }
}

PROP(C02, text_read, 6000, 300000) {
    Area a = area(s);
    int n = s.i(1, 5);
    if(s.b(0.03)) n = 1500;
    bool spatial = s.b(0.7);
    Model m = model(s, a, spatial, n, s.b(), 0.1);
    bool has_time = m.max_time > 0 || s.b();
    if(!spatial && m.sets[0].size() > 1) has_time = true;
    if(m.sets.size() == 1 && m.sets[0].size() == 1 && m.max_time > 0) { Set p = m.sets[0].begin()->second; m.sets[0].clear(); m.sets[0][0] = p; m.max_time = 0; }
    m.cycle = s.b(0.2);
    // columns in any order
    std::vector<std::string> cols;
    if(has_time) cols.push_back("time");
    if(spatial) for(auto t : {"lat", "lon", "elev"}) cols.push_back(t);
    for(int i = 0; i < n; i++) cols.push_back(cat("p", i));
    bool shuffled = s.b(0.3) && n < 10;
    if(shuffled) for(size_t i = cols.size() - 1; i > 0; i--) {
        size_t j = s.draw(i + 1);
        bool p = cols[i][0] == 'p' || cols[j][0] == 'p';
        if(!p || cols[i][0] != cols[j][0]) std::swap(cols[i], cols[j]);
    }
    std::string text, sep = s.b(0.8) ? " " : s.b() ? "  " : "\t";
    if(s.b(0.2)) text += "# a comment\n";
    for(size_t k = 0; k < cols.size(); k++) text += (k ? sep : "") + cols[k];
    text += "\n";
    std::vector<std::pair<int, int> > rows;
    for(size_t i = 0; i < m.locs.size(); i++) for(auto& e : m.sets[i]) rows.push_back(std::make_pair((int) i, e.first));
    for(size_t i = rows.size(); i > 1; i--) std::swap(rows[i - 1], rows[s.draw(i)]);
    for(size_t r = 0; r < rows.size(); r++) {
        Loc& l = m.locs[rows[r].first];
        const Set& p = m.sets[rows[r].first][rows[r].second];
        if(s.b(0.1)) text += "# time lat\n";
        int next = 0;
        for(size_t k = 0; k < cols.size(); k++) {
            std::string v = cols[k] == "time" ? cat(rows[r].second) : cols[k] == "lat" ? number(l.lat) : cols[k] == "lon" ? number(l.lon) : cols[k] == "elev" ? number(l.elev) : number(p[next]);
            if(cols[k][0] == 'p') next++;
            text += (k ? sep : "") + v;
        }
        if(r + 1 < rows.size() || s.b(0.8)) text += "\n";
    }
    std::string name = cg::scratch("params.txt");
    cg::write_file(name, text);
    LOG(c, text.substr(0, 3000));
    std::unique_ptr<ParameterFile> f(ParameterFile::getScheme("text", Options("file=" + name + (m.cycle ? " cycle=1" : ""))));
    std::set<int> times;
    for(auto& r : rows) times.insert(r.second);
    REQUIRE(c, f->getTimes() == std::vector<int>(times.begin(), times.end()), "times ", f->getTimes());
    REQUIRE(c, f->isReadable() && f->isFixedSize(), "not readable");
    locations(c, *f, m);
    compare(s, c, *f, m, a);
    // not valid: rows of different lengths, partial position, no rows, words instead of numbers
    if(s.b(0.02)) {
        int k = s.draw(5);
        std::string bad = k == 0 ? "time a b\n0 1 2\n1 2\n" : k == 1 ? "time lat a\n0 1 2\n" : k == 2 ? "time a b\n" : k == 3 ? "time a b\n0 1 x\n" : "a b\n1 2\n3 4\n";
        cg::write_file(name, bad);
        char o = cg::outcome([&] { ParameterFileText g(Options("file=" + name)); });
        REQUIRE(c, o == 'e', "the file '", bad, "' is not refused: outcome ", o);
    }
}

PROP(C02, text_round_trip, 6000, 300000) {
    Area a = area(s);
    int n = s.i(1, 5);
    Model m = model(s, a, s.b(0.7), n, s.b(), 0.1);
    // a single set applies to all times
    if(m.sets.size() == 1 && m.sets[0].size() == 1 && m.max_time > 0) { Set p = m.sets[0].begin()->second; m.sets[0].clear(); m.sets[0][0] = p; m.max_time = 0; }
    LOG(c, show(m));
    std::string name = cg::scratch("params.txt");
    {
        ParameterFileText f(Options("file=" + name), true);
        fill(f, m);
        compare(s, c, f, m, a, 0, 4);
        f.write();
    }
    LOG(c, "file:\n", cg::read_file(name));
    ParameterFileText g(Options("file=" + name));
    std::set<int> times;
    for(auto& x : m.sets) for(auto& e : x) times.insert(e.first);
    REQUIRE(c, g.getTimes() == std::vector<int>(times.begin(), times.end()), "times ", g.getTimes());
    locations(c, g, m);
    compare(s, c, g, m, a, 0, 12, "after reading: ");
    // once more, to another name
    std::string other = cg::scratch("params2.txt");
    g.write(other);
    ParameterFileText h(Options("file=" + other));
    locations(c, h, m);
    compare(s, c, h, m, a, 0, 4, "after reading twice: ");
}

namespace {
void nc(int status) { if(status != NC_NOERR) { fprintf(stderr, "netcdf: %s\n", nc_strerror(status)); abort(); } }
}

PROP(C02, netcdf_read, 1500, 60000) {
    Area a = area(s);
    int Y = s.i(1, 4), X = s.i(1, 4), T = s.i(1, 3), C = s.i(1, 4);
    bool has_time = T > 1 || s.b(), flat = s.b(0.3), swapped = s.b(0.3), has_elev = s.b();
    // names of dimensions and variables
    std::string ydim = s.pick<std::string>({"lat", "latitude", "y", "row"}), xdim = s.pick<std::string>({"lon", "longitude", "x", "col"});
    std::string cdim = s.pick<std::string>({"coeff", "param"}), var = s.pick<std::string>({"coefficient", "values"});
    std::string ylat = s.b() ? "lat" : "latitude", xlon = s.b() ? "lon" : "longitude";
    std::string name = cg::scratch("params.nc"), opt = "file=" + name;
    if(ydim == "row") opt += " yDim=row";
    if(xdim == "col") opt += " xDim=col";
    if(cdim == "param") opt += " dimName=param";
    if(var == "values") opt += " varName=values";
    Model m;
    m.spatial = true;
    m.cycle = s.b(0.2);
    if(m.cycle) opt += " cycle=1";
    vec2 lats(Y, std::vector<float>(X)), lons = lats, elevs = lats;
    std::vector<float> la(Y), lo(X);
    for(int y = 0; y < Y; y++) la[y] = a.lat0 + a.d * (y - 1.5 + s.u(-0.3, 0.3));
    for(int x = 0; x < X; x++) lo[x] = lon(a.lon0 + a.d * (x - 1.5 + s.u(-0.3, 0.3)));
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        lats[y][x] = flat ? la[y] : (float) (la[y] + a.d * s.u(-0.2, 0.2));
        lons[y][x] = flat ? lo[x] : lon(lo[x] + a.d * s.u(-0.2, 0.2));
        elevs[y][x] = has_elev ? s.f(0, 1000) : cg::MV;
        Loc l = {lats[y][x], lons[y][x], elevs[y][x]};
        if(m.find(l.lat, l.lon) >= 0) return;
        for(int t = 0; t < T; t++) m.set(values(s, C, 0.1), t, l);
    }
    if(m.sets.empty()) return;
    m.max_time = T - 1;
    // the file
    int id, dy, dx, dt = -1, dc, vlat, vlon, velev = -1, vt = -1, vc;
    nc(nc_create(name.c_str(), s.b() ? NC_NETCDF4 : 0, &id));
    nc(nc_def_dim(id, cdim.c_str(), C, &dc));
    nc(nc_def_dim(id, xdim.c_str(), X, &dx));
    if(has_time) nc(nc_def_dim(id, "time", T, &dt));
    nc(nc_def_dim(id, ydim.c_str(), Y, &dy));
    int g2[2] = {swapped ? dx : dy, swapped ? dy : dx};
    nc(nc_def_var(id, ylat.c_str(), NC_FLOAT, flat ? 1 : 2, flat ? &dy : g2, &vlat));
    nc(nc_def_var(id, xlon.c_str(), s.b() ? NC_FLOAT : NC_DOUBLE, flat ? 1 : 2, flat ? &dx : g2, &vlon));
    if(has_elev) nc(nc_def_var(id, "altitude", NC_FLOAT, 2, g2, &velev));
    if(has_time) nc(nc_def_var(id, "time", NC_DOUBLE, 1, &dt, &vt));
    std::vector<int> dims = {dy, dx, dc};
    if(has_time) dims.push_back(dt);
    int dh = -1;
    if(s.b(0.1)) { nc(nc_def_dim(id, "height", 1, &dh)); dims.push_back(dh); }
    for(size_t i = dims.size() - 1; i > 0; i--) std::swap(dims[i], dims[s.draw(i + 1)]);
    nc(nc_def_var(id, var.c_str(), s.b() ? NC_FLOAT : NC_DOUBLE, dims.size(), dims.data(), &vc));
    float fill = NC_FILL_FLOAT;
    if(s.b(0.4)) {
        fill = -32767;
        nc_type ty;
        nc(nc_inq_vartype(id, vc, &ty));
        double fd = fill;
        nc(ty == NC_FLOAT ? nc_put_att_float(id, vc, "_FillValue", NC_FLOAT, 1, &fill) : nc_put_att_double(id, vc, "_FillValue", NC_DOUBLE, 1, &fd));
    }
    nc(nc_enddef(id));
    if(flat) { nc(nc_put_var_float(id, vlat, la.data())); nc(nc_put_var_float(id, vlon, lo.data())); }
    else {
        std::vector<float> b1, b2;
        for(int i = 0; i < X * Y; i++) { int y = swapped ? i % Y : i / X, x = swapped ? i / Y : i % X; b1.push_back(lats[y][x]); b2.push_back(lons[y][x]); }
        nc(nc_put_var_float(id, vlat, b1.data()));
        nc(nc_put_var_float(id, vlon, b2.data()));
    }
    if(has_elev) {
        std::vector<float> b;
        for(int i = 0; i < X * Y; i++) { int y = swapped ? i % Y : i / X, x = swapped ? i / Y : i % X; b.push_back(elevs[y][x]); }
        nc(nc_put_var_float(id, velev, b.data()));
    }
    if(has_time) { std::vector<double> t(T); for(int i = 0; i < T; i++) t[i] = 3600 * i; nc(nc_put_var_double(id, vt, t.data())); }
    std::vector<size_t> at(dims.size());
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) for(int t = 0; t < (has_time ? T : 1); t++) for(int k = 0; k < C; k++) {
        for(size_t d = 0; d < dims.size(); d++) at[d] = dims[d] == dy ? y : dims[d] == dx ? x : dims[d] == dc ? k : dims[d] == dh ? 0 : t;
        float v = m.sets[m.find(lats[y][x], lons[y][x])][t][k];
        if(!cg::ok(v)) v = fill;
        nc(nc_put_var1_float(id, vc, at.data(), &v));
    }
    nc(nc_close(id));
    LOG(c, opt, " dims ", dims, "\n", show(m));
    std::unique_ptr<ParameterFile> f(ParameterFile::getScheme("netcdf", Options(opt)));
    locations(c, *f, m);
    REQUIRE(c, f->getNumParameters() == C, "number of parameters ", f->getNumParameters());
    REQUIRE(c, f->isTimeDependent() == (T > 1) && (int) f->getTimes().size() == T, "times");
    compare(s, c, *f, m, a);
}

PROP(C02, netcdf_round_trip, 1500, 60000) {
    Area a = area(s);
    int n = s.i(1, 4);
    Model m = model(s, a, true, n, s.b(), 0.1);
    std::string name = cg::scratch("params.nc"), opt = "file=" + name;
    if(s.b(0.2)) opt += " dimName=param";
    if(s.b(0.2)) opt += " varName=values";
    if(s.b(0.2)) opt += " xDim=x";
    if(s.b(0.2)) opt += " yDim=y";
    LOG(c, opt, "\n", show(m));
    unlink(name.c_str());
    // sets may come from a text file
    std::string text = cg::scratch("params.txt");
    bool via = s.b(0.3) && !(m.sets.size() == 1 && m.sets[0].size() == 1);
    {
        std::unique_ptr<ParameterFile> f(ParameterFile::getScheme("netcdf", Options(opt), true));
        fill(*f, m);
        compare(s, c, *f, m, a, 0, 4);
        // std::cout << timings
        std::streambuf* old = std::cout.rdbuf(nullptr);
        f->write();
        std::cout.rdbuf(old);
    }
    (void) via;
    std::unique_ptr<ParameterFile> g(ParameterFile::getScheme("netcdf", Options(opt)));
    // sets that are not there are all missing in the file
    Model r = m;
    for(auto& x : r.sets) for(int t = 0; t <= m.max_time; t++) if(!x.count(t)) x[t] = Set(n, cg::MV);
    locations(c, *g, m);
    REQUIRE(c, (int) g->getTimes().size() == m.max_time + 1, "number of times ", g->getTimes().size());
    compare(s, c, *g, r, a, 0, 12, "after reading: ");
}
