// P17: transforms
#include "gen.h"
#include <memory>
#include <boost/math/distributions/gamma.hpp>
#include <boost/math/distributions/normal.hpp>

namespace {
const double EPS = 6e-8;
struct T {
    std::shared_ptr<Transform> p;
    std::string name;
    int kind;
    double a, b, tol;
    double lo, hi;     // domain of forward
    double fwd(double x) const {
        switch(kind) {
            case 0: return x;
            case 1: return std::log(x);
            case 2: return a == 0 ? std::log(x) : (std::pow(x, a) - 1) / a;
            case 3: return x <= b ? x : b * (1 + (std::pow(x / b, a) - 1) / a);
            default: {
                boost::math::gamma_distribution<> g(a, b);
                boost::math::normal n;
                double p = boost::math::cdf(g, x + tol);
                if(p < 0.5) return boost::math::quantile(n, p);
                return boost::math::quantile(boost::math::complement(n, boost::math::cdf(boost::math::complement(g, x + tol))));
            }
        }
    }
    // uncertainty of a float computation of forward
    double err(double x) const {
        double y = fwd(x), e = 4 * EPS * std::fabs(y) + 1e-30;
        if(kind == 1) e += 4 * EPS;
        if(kind == 2) e += 8 * EPS * (a == 0 ? 1 : std::max(1.0, std::pow(x, a)) / std::fabs(a));
        if(kind == 3 && x > b) e += 8 * EPS * b * (1 + std::pow(x / b, a) / a) + 4 * EPS * std::pow(x / b, a - 1) * x;
        if(kind == 4) { double h = std::max(1e-3 * (x + tol), 1e-9); e += 2e-6 * (1 + std::fabs(y)) + 4 * EPS * (x + tol) * std::fabs(fwd(x + h) - y) / h; }
        return e;
    }
    // what that means for the value after the way back
    double back_err(double x) const {
        double h = 1e-4 * std::max(x, 1e-6);
        double slope = (fwd(x + h) - fwd(x)) / h;
        return 2 * err(x) / slope + 8 * EPS * (std::fabs(x) + tol) + 1e-12;
    }
};
T transform(Src& s) {
    T t;
    t.kind = s.draw(5);
    t.tol = 0;
    if(t.kind == 0) { t.p.reset(new Identity()); t.name = "Identity"; t.lo = -1e6; t.hi = 1e6; }
    else if(t.kind == 1) { t.p.reset(new Log()); t.name = "Log"; t.lo = 1e-6; t.hi = 1e6; }
    else if(t.kind == 2) {
        t.a = (float) s.pick<double>({0.5, 0.1, 0, 1, 2, -0.5, -1, 0.25, s.u(0.02, 2.5), s.u(-1.5, -0.1)});
        t.p.reset(new BoxCox(t.a));
        t.name = cat("BoxCox(", t.a, ")");
        t.lo = t.a <= 0 ? 1e-2 : 0;
        t.hi = 1000;
    }
    else if(t.kind == 3) {
        t.a = (float) s.pick<double>({0.5, 0.1, 1, 2, s.u(0.05, 2.5)});
        t.b = (float) s.pick<double>({1, 0.1, 10, s.u(0.01, 20)});
        t.p.reset(new StartedBoxCox(t.a, t.b));
        t.name = cat("StartedBoxCox(", t.a, ",", t.b, ")");
        t.lo = 0;
        t.hi = 1000;
    }
    else {
        t.a = (float) s.pick<double>({1, 2, 0.5, s.u(0.2, 10)});
        t.b = (float) s.pick<double>({2, 1, 0.1, s.u(0.05, 20)});
        t.tol = (float) s.pick<double>({0.01, 0.1, s.u(0.001, 1)});
        t.p.reset(new Gamma(t.a, t.b, t.tol));
        t.name = cat("Gamma(", t.a, ",", t.b, ",", t.tol, ")");
        t.lo = 0;
        t.hi = t.b * (t.a + 25);
    }
    return t;
}
float value(Src& s, const T& t) {
    int k = s.draw(4);
    double x;
    if(k == 0) x = s.real(t.lo, t.hi);
    else if(k == 1) x = s.u(t.lo, std::min(t.hi, t.lo + 3));
    else if(k == 2) x = t.kind == 0 ? s.u(t.lo, t.hi) : std::max(t.lo, t.hi * std::pow(10, -s.u(0, 5)));
    else x = t.kind == 3 ? s.pick<double>({t.b, t.b * 1.0001, t.b * 0.9999, t.b * 2}) : t.lo;
    return (float) std::min(std::max(x, t.lo), t.hi);
}
}

PROP(P17, round_trip, 600000, 4000000) {
    T t = transform(s);
    float x = value(s, t);
    LOG(c, t.name, " value ", x);
    c.label(t.name.substr(0, t.name.find('(')));
    c.nontrivial(t.kind > 0 && x > 0);
    float y = t.p->forward(x);
    double want = t.fwd(x);
    LOG(c, "forward ", y, " reference ", want);
    REQUIRE(c, ref::ok(y), "forward gives ", y);
    REQUIRE(c, std::fabs(y - want) <= t.err(x), "forward gives ", y, " but the formula gives ", want, " (tolerance ", t.err(x), ")");
    float z = t.p->backward(y);
    LOG(c, "backward ", z);
    REQUIRE(c, std::fabs(z - x) <= t.back_err(x), "forward then backward gives ", z, " for ", x, " (tolerance ", t.back_err(x), ")");
    // and the other way: a value reached by the transform comes back to it
    float y2 = t.p->forward(z);
    REQUIRE(c, std::fabs(y2 - y) <= 4 * t.err(x) + 1e-6 * std::fabs(y) + 4 * EPS, "backward then forward gives ", y2, " for ", y);
}

PROP(P17, monotone, 400000, 4000000) {
    T t = transform(s);
    float a = value(s, t), b = value(s, t);
    if(s.b(0.2)) b = std::nextafterf(a, 1e9f);
    if(a > b) std::swap(a, b);
    if(b > t.hi) throw pbt::Discard();
    c.label(t.name.substr(0, t.name.find('(')));
    c.nontrivial(t.kind > 0 && a < b);
    float ya = t.p->forward(a), yb = t.p->forward(b);
    LOG(c, t.name, " ", a, " -> ", ya, ", ", b, " -> ", yb);
    REQUIRE(c, ya <= yb + t.err(a) , "forward decreases: ", a, " -> ", ya, " but ", b, " -> ", yb);
    // anywhere in the transformed range, also beyond what forward reaches
    float p = s.f(-6, 6), q = s.f(-6, 6);
    if(p > q) std::swap(p, q);
    if(t.kind == 2 && t.a < 0 && q > -0.9 / t.a) q = p = 0;     // unbounded there
    float za = t.p->backward(p), zb = t.p->backward(q);
    LOG(c, "backward ", p, " -> ", za, ", ", q, " -> ", zb);
    REQUIRE(c, !std::isnan(za) && !std::isnan(zb), "backward of ", p, " and ", q, " gives ", za, " and ", zb);
    REQUIRE(c, za <= zb + 1e-5 * (std::fabs(zb) + t.tol) + 1e-9, "backward decreases: ", p, " -> ", za, " but ", q, " -> ", zb);
    // below the range of the transform the way back gives the lower end of the domain
    if(t.kind == 2 || t.kind == 3) REQUIRE(c, za >= 0, "backward of ", p, " gives ", za);
}

PROP(P17, arrays, 100000, 600000) {
    T t = transform(s);
    int Y = s.i(0, 4), X = s.i(0, 4), E = s.i(0, 4);
    double pm = gen::pmiss(s);
    vec v1(Y); vec2 v2(Y, vec(X)); vec3 v3(Y, vec2(X, vec(E)));
    auto one = [&]() { return s.b(pm) ? (float) NAN : value(s, t); };
    for(auto& x : v1) x = one();
    for(auto& r : v2) for(auto& x : r) x = one();
    for(auto& r : v3) for(auto& q : r) for(auto& x : q) x = one();
    if(s.b(0.2) && Y > 1) { v2[Y - 1].push_back(one()); v3[Y - 1].push_back(vec(1, one())); }   // ragged
    bool fw = s.b();
    if(!fw) {   // transformed values
        for(auto& x : v1) x = t.p->forward(x);
        for(auto& r : v2) for(auto& x : r) x = t.p->forward(x);
        for(auto& r : v3) for(auto& q : r) for(auto& x : q) x = t.p->forward(x);
    }
    LOG(c, t.name, fw ? " forward " : " backward ", v1, " ", v2, " ", v3);
    c.nontrivial(t.kind > 0 && Y > 1 && X > 1 && E > 1);
    c.label(t.name.substr(0, t.name.find('(')));
    auto f = [&](float x) { return fw ? t.p->forward(x) : t.p->backward(x); };
    vec o1 = fw ? t.p->forward(v1) : t.p->backward(v1);
    vec2 o2 = fw ? t.p->forward(v2) : t.p->backward(v2);
    vec3 o3 = fw ? t.p->forward(v3) : t.p->backward(v3);
    auto check = [&](const vec& in, const vec& out, const char* what) {
        REQUIRE(c, in.size() == out.size(), what, ": ", out.size(), " elements for ", in.size());
        for(size_t k = 0; k < in.size(); k++) {
            float w = f(in[k]);
            REQUIRE(c, pbt::same(w, out[k]), what, ": element ", k, " is ", out[k], " but the scalar version gives ", w, " for ", in[k]);
            REQUIRE(c, ref::ok(in[k]) || !ref::ok(out[k]), what, ": a missing value becomes ", out[k]);
        }
    };
    check(v1, o1, "1D");
    REQUIRE(c, o2.size() == v2.size() && o3.size() == v3.size(), "shape");
    for(size_t y = 0; y < v2.size(); y++) check(v2[y], o2[y], "2D");
    for(size_t y = 0; y < v3.size(); y++) {
        REQUIRE(c, o3[y].size() == v3[y].size(), "shape");
        for(size_t x = 0; x < v3[y].size(); x++) check(v3[y][x], o3[y][x], "3D");
    }
}

PROP(P17, refused, 20000, 60000) {
    float bad = s.pick<float>({0, -1, NAN, -0.001f}), good = s.f(0.1, 3);
    int k = s.draw(5);
    bool thrown = false;
    LOG(c, "bad ", bad, " kind ", k);
    if(k == 4 && bad == 0) bad = -1;
    try {
        if(k == 0) StartedBoxCox(bad, good);
        if(k == 1) StartedBoxCox(good, bad);
        if(k == 2) Gamma(bad, good);
        if(k == 3) Gamma(good, bad);
        if(k == 4) Gamma(good, good, bad);
    }
    catch(const std::invalid_argument& e) { thrown = true; }
    c.nontrivial();
    REQUIRE(c, thrown, "parameter ", bad, " of kind ", k, " was accepted");
}

// Quantiles of the Gamma distribution
PROP(P17, gamma_quantiles, 200000, 4000000) {
    int n = s.i(1, 6);
    vec level(n), shape(n), scale(n);
    for(int i = 0; i < n; i++) {
        level[i] = s.b(0.1) ? 0.0f : (float) s.u(0, 1);
        shape[i] = (float) s.pick<double>({1, 0.5, 2, 5, s.u(0.05, 20)});
        scale[i] = (float) s.pick<double>({1, 0.5, 2, 100, s.u(0.01, 20)});
    }
    LOG(c, "levels ", level, " shapes ", shape, " scales ", scale);
    vec out = gridpp::gamma_inv(level, shape, scale);
    REQUIRE(c, (int) out.size() == n, "size");
    c.nontrivial(n > 1);
    for(int i = 0; i < n; i++) {
        boost::math::gamma_distribution<> g(shape[i], scale[i]);
        REQUIRE(c, out[i] >= 0, "quantile ", out[i]);
        if(level[i] == 0) { REQUIRE(c, out[i] == 0, "quantile ", out[i], " at level 0"); continue; }
        double lo = boost::math::cdf(g, std::max(0.0, out[i] * (1 - 1e-5) - 1e-37)), hi = boost::math::cdf(g, out[i] * (1 + 1e-5) + 1e-37);
        REQUIRE(c, lo <= level[i] + 1e-9 && hi >= level[i] - 1e-9, "the distribution function at the quantile ", out[i], " is ", boost::math::cdf(g, out[i]), " but the level is ", level[i], " (shape ", shape[i], ", scale ", scale[i], ")");
    }
    // an invalid value anywhere is refused
    int k = s.i(0, n - 1), what = s.draw(3);
    (what == 0 ? level : what == 1 ? shape : scale)[k] = s.pick<float>({-0.5f, -1e-3f, NAN});
    bool refused = false;
    try { gridpp::gamma_inv(level, shape, scale); }
    catch(const std::invalid_argument&) { refused = true; }
    REQUIRE(c, refused, "invalid ", what == 0 ? "level" : what == 1 ? "shape" : "scale", " is accepted");
}
