// Random structure functions with a closed-form double-precision model
#pragma once
#include "gen.h"

namespace sf {
enum Kind { BARNES, SOAR, TOAR, POWERLAW, LINEAR, CRESSMAN, MULTIPLE, CROSS };
inline const char* kname(Kind k) {
    static const char* n[] = {"Barnes", "Soar", "Toar", "Powerlaw", "Linear", "Cressman", "Multiple", "CrossValidation"};
    return n[k];
}
// Rho as a function of the distance in length scales
inline double shape(Kind k, double v) {
    v = std::fabs(v);
    switch(k) {
        case BARNES: return std::exp(-0.5 * v * v);
        case SOAR: return (1 + v) * std::exp(-v);
        case TOAR: return (1 + v + v * v / 3) * std::exp(-v);
        case POWERLAW: return 1 / (1 + 0.5 * v * v);
        case CRESSMAN: return v >= 1 ? 0 : (1 - v * v) / (1 + v * v);
        default: return NAN;
    }
}
inline double rho(Kind k, double d, double length) {
    if(k == LINEAR) return 1 - (1 - length) * std::min(1.0, std::fabs(d));
    if(length == 0) return 1;
    return shape(k, d / length);
}
// Distance (in length scales) at which the shape falls to r
inline double cutoff(Kind k, double r) {
    double a = 0, b = 1;
    while(shape(k, b) > r && b < 1e6) b *= 2;
    for(int i = 0; i < 200; i++) { double m = (a + b) / 2; (shape(k, m) > r ? a : b) = m; }
    return a;
}

struct Model {
    Kind kind;
    bool spatial = false;
    double h = 0, v = 0, w = 0, hmax = NAN, min_rho = 0.0013;
    gen::GeoGrid gg;
    vec2 H, V, W;
    std::shared_ptr<Model> a, b, c;
    double cv = 0;
    StructureFunctionPtr p;

    bool constant() const {
        if(kind == MULTIPLE) return a->constant() && b->constant() && c->constant();
        if(kind == CROSS) return a->constant();
        return !spatial;
    }
    static double hdist(const Point& p, const Point& q) {
        double x = double(p.x) - q.x, y = double(p.y) - q.y, z = double(p.z) - q.z;
        return std::sqrt(x * x + y * y + z * z);
    }
    // Scales in force at p; false if two nodes of the grid are about equally close
    bool scales(const Point& p, double& hh, double& vv, double& ww) const {
        if(!spatial) { hh = h; vv = v; ww = w; return true; }
        double best = 1e99, second = 1e99, scale = 1;
        for(int y = 0; y < gg.Y(); y++) for(int x = 0; x < gg.X(); x++) {
            scale = std::max(scale, std::max((double) std::fabs(gg.lats[y][x]), (double) std::fabs(gg.lons[y][x])));
            double d = ref::chord(p.lat, p.lon, gg.lats[y][x], gg.lons[y][x], gg.type);
            if(d < best) { second = best; best = d; hh = H[y][x]; vv = V[y][x]; ww = W[y][x]; }
            else if(d < second) second = d;
        }
        scale = std::max(scale, std::max((double) std::fabs(p.lat), (double) std::fabs(p.lon)));
        return second - best > 2 * ref::tol(gg.type, scale);
    }
    double loc(const Point& p, bool& sure) const {
        if(kind == MULTIPLE || kind == CROSS) return a->loc(p, sure);
        double hh, vv, ww;
        if(!scales(p, hh, vv, ww)) sure = false;
        if(kind == LINEAR) return 0;
        if(kind == CRESSMAN) return hh;
        if(ref::ok(hmax) && !spatial && hh > 0) return hmax;
        return cutoff(kind, min_rho) * hh;
    }
    double corr(const Point& p, const Point& q, bool& sure) const {
        if(kind == CROSS) return a->corr(p, q, sure);
        if(kind == MULTIPLE) {
            Point qh(q.lat, q.lon, p.elev, p.laf, q.type, q.x, q.y, q.z);
            Point qv(p.lat, p.lon, q.elev, p.laf, p.type, p.x, p.y, p.z);
            Point qw(p.lat, p.lon, p.elev, q.laf, p.type, p.x, p.y, p.z);
            return a->corr(p, qh, sure) * b->corr(p, qv, sure) * c->corr(p, qw, sure);
        }
        double hh, vv, ww;
        if(!scales(p, hh, vv, ww)) sure = false;
        double d = hdist(p, q);
        if(kind != CRESSMAN) {
            bool s2 = true;
            double L = loc(p, s2);
            if(d > 0 && std::fabs(d - L) <= 2e-4 * std::max(L, 1e-6)) sure = false;   // at the cut-off
            if(d > L) return 0;
        }
        double r = rho(kind, d, hh);
        if(ref::ok(p.elev) && ref::ok(q.elev)) r *= rho(kind, double(p.elev) - q.elev, vv);
        if(ref::ok(p.laf) && ref::ok(q.laf)) r *= rho(kind, double(p.laf) - q.laf, ww);
        return r;
    }
    double corr_background(const Point& p, const Point& q, bool& sure) const {
        if(kind == CROSS) {
            double d = hdist(p, q);
            if(std::fabs(d - cv) <= 1e-5 * std::max(d, cv) + (p.type == Geodetic ? 1e-2 : 1e-7) && !(d == 0)) sure = false;
            if(d <= cv) return 0;
            return a->corr_background(p, q, sure);
        }
        return corr(p, q, sure);
    }
    std::string show() const {
        if(kind == MULTIPLE) return cat("Multiple{", a->show(), ", ", b->show(), ", ", c->show(), "}");
        if(kind == CROSS) return cat("CrossValidation{", a->show(), ", ", cv, "}");
        if(spatial) return cat(kname(kind), "(grid ", gen::show(gg), ", h=", str(H), ", v=", str(V), ", w=", str(W), ", min_rho=", min_rho, ")");
        return cat(kname(kind), "(h=", h, ", v=", v, ", w=", w, ", hmax=", hmax, ")");
    }
};
typedef std::shared_ptr<Model> MP;

template<class T> StructureFunctionPtr make(const Model& m) {
    if(m.spatial) return std::make_shared<T>(m.gg.grid(), m.H, m.V, m.W, (float) m.min_rho);
    if(ref::ok(m.hmax)) return std::make_shared<T>((float) m.h, (float) m.v, (float) m.w, (float) m.hmax);
    return std::make_shared<T>((float) m.h, (float) m.v, (float) m.w);
}
inline void build(Model& m) {
    switch(m.kind) {
        case BARNES: m.p = make<BarnesStructure>(m); break;
        case SOAR: m.p = make<SoarStructure>(m); break;
        case TOAR: m.p = make<ToarStructure>(m); break;
        case POWERLAW: m.p = make<PowerlawStructure>(m); break;
        case LINEAR: m.p = make<LinearStructure>(m); break;
        case CRESSMAN: m.p = std::make_shared<CressmanStructure>((float) m.h, (float) m.v, (float) m.w); break;
        case MULTIPLE: m.p = std::make_shared<MultipleStructure>(*m.a->p, *m.b->p, *m.c->p); break;
        case CROSS: m.p = std::make_shared<CrossValidation>(*m.a->p, (float) m.cv); break;
    }
}
// Options of a generated structure
struct Opt {
    double size = 1000;          // typical distance between locations (metres)
    bool spatial = true, cross = true, multiple = true, linear = true, hmax = true;
    bool positive_h = true;      // horizontal scale never zero
};
// Scale which is representable as float, so the model and the library use the same number
inline double scale(Src& s, double size) { return (float) (size * s.pick<double>({1, 0.5, 2, 0.2, 4}) * (s.b(0.5) ? 1 : s.u(0.5, 1.5))); }
inline MP structure(Src& s, const gen::Region& r, const Opt& o, int depth = 0) {
    MP m = std::make_shared<Model>();
    std::vector<Kind> ks = {BARNES, CRESSMAN, SOAR, TOAR, POWERLAW, BARNES};
    if(o.linear) ks.push_back(LINEAR);
    if(o.multiple && depth == 0) ks.push_back(MULTIPLE);
    if(o.cross && depth == 0) ks.push_back(CROSS);
    m->kind = s.pick<Kind>(ks);
    if(m->kind == MULTIPLE) {
        Opt o1 = o, o2 = o;
        o1.linear = o.linear && s.b(0.1);
        m->a = structure(s, r, o1, 1);
        m->b = structure(s, r, o2, 1);
        m->c = structure(s, r, o2, 1);
    }
    else if(m->kind == CROSS) {
        m->a = structure(s, r, o, s.b(0.3) ? 0 : 1);
        m->cv = (float) (s.b(0.3) ? 0 : scale(s, o.size));
    }
    else {
        bool lin = m->kind == LINEAR;
        auto vscale = [&]() { return (float) (lin ? s.u(0, 1) : (s.b(0.35) ? 0.0 : s.pick<double>({100, 300, 50}) * s.u(0.5, 2))); };
        auto wscale = [&]() { return (float) (lin ? s.u(0, 1) : (s.b(0.5) ? 0.0 : s.u(0.1, 1.5))); };
        if(m->kind != CRESSMAN && o.spatial && s.b(0.25)) {
            m->spatial = true;
            m->gg = gen::grid(s, r, 1, 4, false);
            m->H = m->V = m->W = vec2(m->gg.Y(), vec(m->gg.X()));
            bool v0 = s.b(0.3), w0 = s.b(0.4);
            for(int y = 0; y < m->gg.Y(); y++) for(int x = 0; x < m->gg.X(); x++) {
                m->H[y][x] = (!o.positive_h && s.b(0.05)) ? 0 : (lin ? (float) s.u(0, 1) : scale(s, o.size));
                m->V[y][x] = v0 ? 0 : vscale();
                m->W[y][x] = w0 ? 0 : wscale();
            }
            if(s.b(0.5)) m->min_rho = (float) s.pick<double>({0.1, 0.5, 0.01, 0.0001, 0.9});
            else m->min_rho = StructureFunction::default_min_rho;
            if(m->gg.Y() == 1 && m->gg.X() == 1) {       // a single scale means it does not vary
                m->spatial = false;
                m->h = m->H[0][0]; m->v = m->V[0][0]; m->w = m->W[0][0];
                m->spatial = true;
            }
        }
        else {
            m->h = (!o.positive_h && s.b(0.05) && m->kind != CRESSMAN) ? 0 : (lin ? (float) s.u(0, 1) : scale(s, o.size));
            m->v = vscale();
            m->w = wscale();
            m->min_rho = StructureFunction::default_min_rho;
            if(o.hmax && m->kind != CRESSMAN && s.b(0.3)) m->hmax = (float) (m->h * s.pick<double>({1, 2, 3, 5, 0.5, 0.1}) * s.u(0.8, 1.2));
        }
    }
    build(*m);
    return m;
}
// Typical distance between two random locations of a region, in metres
inline double region_size(const gen::Region& r) {
    return r.type == Cartesian ? r.dlat : std::min(r.dlat, 60.0) * 111000;
}
}
