// A catalogue of every operation of the API with generated arguments. Used by P23 (the same call with
// different numbers of threads) and P24 (the same calls with deliberately broken arguments).
#pragma once
#include "gen.h"
#include "structures.h"

namespace ops {
struct Out {
    std::vector<float> v;
    std::vector<int> dims;     // of the first array that is returned
    bool ragged = false;
    void shape(std::vector<int> d) { if(dims.empty()) dims = d; }
    template<class T> void add1(const std::vector<T>& a) { for(auto x : a) v.push_back((float) x); }
    void add(float x) { v.push_back(x); shape({0}); dims.clear(); dims = {-1}; }
    void add(const vec& a) { shape({(int) a.size()}); add1(a); }
    void add(const ivec& a) { shape({(int) a.size()}); add1(a); }
    void add(const vec2& a) {
        int X = a.size() ? a[0].size() : 0;
        shape({(int) a.size(), X});
        for(auto& r : a) { if((int) r.size() != X) ragged = true; add1(r); }
    }
    void add(const ivec2& a) { shape({(int) a.size(), a.size() ? (int) a[0].size() : 0}); for(auto& r : a) add1(r); }
    void add(const vec3& a) {
        int X = a.size() ? a[0].size() : 0, E = X ? a[0][0].size() : 0;
        shape({(int) a.size(), X, E});
        for(auto& r : a) {
            if((int) r.size() != X) ragged = true;
            for(auto& q : r) { if((int) q.size() != E) ragged = true; add1(q); }
        }
    }
};
template<class T> Out out(const T& x) { Out o; o.add(x); return o; }
template<class T, class U> Out out(const T& x, const U& y) { Out o; o.add(x); o.add(y); return o; }

struct Call {
    std::function<Out()> run;
    std::vector<int> want;      // expected shape of the result (empty: not checked)
};

struct Args {
    Src& s;
    bool fuzz;
    int big;                    // upper limit for grid extents
    gen::Region r;
    bool broken = false;        // an argument is inconsistent: the call has to refuse it
    bool odd = false;           // unusual values or sizes: the call may refuse them
    std::string what, log;
    double pm;
    Args(Src& s_, bool f, int b) : s(s_), fuzz(f), big(b), r(gen::region(s_)), pm(gen::pmiss(s_)) {}

    bool brk(const std::string& name) {
        if(!fuzz || broken || !s.b(0.12)) return false;
        broken = true;
        what = name;
        return true;
    }
    void note(const std::string& n, const std::string& v) { if(log.size() < 3000) log += (log.empty() ? "" : ", ") + n + "=" + v; }
    float special() {
        odd = true;
        return s.pick<float>({NAN, INFINITY, -INFINITY, 3e38f, -3e38f, 0, -0.0f, 1e-45f, 1e10f, -1e10f, -1, 1});
    }
    float val(double lo, double hi) {
        if(fuzz && s.b(0.02)) return special();
        return gen::val(s, lo, hi, pm);
    }
    int dim(int lo, int hi) {
        if(fuzz && s.b(0.06)) { odd = true; return 0; }
        return s.i(lo, hi);
    }
    // A parameter: a valid value, or one which has to be refused, or an extreme one
    template<class T> T par(const std::string& n, T valid, std::vector<T> refused, std::vector<T> extreme = {}) {
        T v = valid;
        if(!refused.empty() && brk(n)) v = refused[s.draw(refused.size())];
        else if(fuzz && !extreme.empty() && s.b(0.1)) { odd = true; v = extreme[s.draw(extreme.size())]; }
        note(n, cat(v));
        return v;
    }
    vec v1(const std::string& n, int N, double lo = 0, double hi = 10, bool strict = true) {
        int M = N;
        if(strict && brk(n)) { M = s.pick<int>({N + 1, N - 1, 0, 2 * N}); if(M < 0 || M == N) M = N + 1; }
        vec v(M);
        for(float& x : v) x = val(lo, hi);
        note(n, str(v));
        return v;
    }
    // Rows (or gridpoints) of different lengths
    template<class T> bool ragged(std::vector<std::vector<T>>& v) {
        if(v.size() < 2 || v[0].empty() || !brk("rows")) return false;
        std::vector<T>& row = v[s.i(s.b(0.9), v.size() - 1)];
        row.resize(s.b(0.7) ? row.size() - 1 : row.size() + 1, row[0]);
        return true;
    }
    void ragged3(vec3& v) {
        if(v.empty() || v[0].empty()) return;
        if(v.size() > 1 && s.b()) ragged(v);
        else if(v.size() * v[0].size() > 1 && v[0][0].size() > 0 && brk("members")) {
            int k = s.i(1, v.size() * v[0].size() - 1);
            vec& m = v[k / v[0].size()][k % v[0].size()];
            m.resize(s.b(0.7) ? m.size() - 1 : m.size() + 1, 1);
        }
    }
    ivec i1(const std::string& n, int N, int lo, int hi) {
        int M = N;
        if(brk(n)) { M = s.pick<int>({N + 1, N - 1, 0}); if(M < 0 || M == N) M = N + 1; }
        ivec v(M);
        for(int& x : v) x = s.i(lo, hi);
        return v;
    }
    void size2(int& Y, int& X, bool empty_ok) {
        int y0 = Y, x0 = X;
        switch(s.draw(6)) {
            case 0: Y++; break;
            case 1: X++; if(Y == 0) Y = 1; break;
            case 2: Y = std::max(0, Y - 1); break;
            case 3: if(X > 1) X--; else X++; break;
            case 4: std::swap(Y, X); break;
            case 5: Y = 0; X = 0; break;
        }
        if((Y == y0 && X == x0) || (Y == 0 && (y0 == 0 || empty_ok))) { Y = y0 + 1; X = std::max(1, x0); }
    }
    // An array that has to be Y x X
    vec2 v2(const std::string& n, int Y, int X, double lo = 0, double hi = 10, bool strict = true, bool empty_ok = false) {
        bool ragged = false;
        if(strict && brk(n)) {
            if(Y > 1 && X > 0 && s.b(0.3)) ragged = true;
            else size2(Y, X, empty_ok);
        }
        vec2 v(Y, vec(X));
        for(auto& row : v) for(float& x : row) x = val(lo, hi);
        if(ragged) { what += " (ragged)"; v[s.i(1, Y - 1)].resize(s.b() ? X - 1 : X + 1, 1); }
        note(n, str(v));
        return v;
    }
    // T layers, each of which has to be Y x X
    vec3 layers(const std::string& n, int T, int Y, int X, double lo = 0, double hi = 10) {
        vec3 v(T, vec2(Y, vec(X)));
        for(auto& l : v) for(auto& row : l) for(float& x : row) x = val(lo, hi);
        if(T > 0 && brk(n)) {
            int t = s.draw(T), y = Y, x = X;
            if(Y > 1 && X > 0 && s.b(0.3)) { what += " (ragged)"; v[t][s.i(1, Y - 1)].resize(s.b() ? X - 1 : X + 1, 1); }
            else { size2(y, x, false); v[t] = vec2(y, vec(x, 1)); what += cat(" (layer ", t, ": ", y, "x", x, ")"); }
        }
        note(n, cat("[", T, ",", Y, ",", X, "]"));
        return v;
    }
    // T rows, each of which has to have N values
    vec2 rows(const std::string& n, int T, int N, double lo = 0, double hi = 10) {
        vec2 v(T, vec(N));
        for(auto& row : v) for(float& x : row) x = val(lo, hi);
        if(T > 0 && brk(n)) { int t = s.draw(T); v[t].resize(N == 0 || s.b() ? N + 1 : N - 1, 1); what += cat(" (row ", t, ")"); }
        note(n, str(v));
        return v;
    }
    // Y x X cells with E members
    vec3 ens(const std::string& n, int Y, int X, int E, double lo = 0, double hi = 10, bool members_strict = true) {
        vec3 v(Y, vec2(X, vec(E)));
        for(auto& l : v) for(auto& row : l) for(float& x : row) x = val(lo, hi);
        if(brk(n)) {
            bool m = members_strict && Y * X > 1 && s.b();
            if(m) { int y = s.draw(Y), x = s.draw(X); if(y == 0 && x == 0) { y = Y - 1; x = X - 1; } v[y][x].resize(E > 0 && s.b() ? E - 1 : E + 1, 1); what += " (members)"; }
            else { int y = Y, x = X; size2(y, x, false); v = vec3(y, vec2(x, vec(E, 1))); what += cat(" (", y, "x", x, ")"); }
        }
        note(n, cat("[", Y, ",", X, ",", E, "]"));
        return v;
    }
    gen::GeoGrid grid(const std::string& n, bool meta = true) {
        gen::GeoGrid g = gen::grid(s, r, 1, s.b(0.7) ? std::min(big, 5) : big, meta);
        if(fuzz && s.b(0.05)) { odd = true; g = gen::GeoGrid(); g.type = r.type; }
        note(n, cat(g.Y(), "x", g.X()));
        return g;
    }
    gen::Geo points(const std::string& n, int lo = 1, int hi = 8) {
        gen::Geo g = gen::geo(s, r, lo, hi);
        if(fuzz && s.b(0.05)) { odd = true; g = gen::Geo(); g.type = r.type; }
        if(fuzz && g.n() && s.b(0.03)) { odd = true; (s.b() ? g.lats : g.lons)[s.draw(g.n())] = special(); }
        note(n, cat(g.n()));
        return g;
    }
    // Gridded and pointwise sets of other coordinate type than the rest of the case
    CoordinateType other(CoordinateType t) const { return t == Geodetic ? Cartesian : Geodetic; }
    double size() const { return r.type == Cartesian ? r.dlat : r.dlat * 111e3; }
    float radius() { return par<float>("radius", (float) (s.u(0.05, 1.2) * size()), {-1.0f, -1e6f}, {0, 1e9f}); }
    float radius_any() { return par<float>("radius", (float) (s.u(0.05, 1.2) * size()), {}, {0, 1e9f, -1, NAN}); }
    Statistic stat(bool quantile = false) {
        std::vector<Statistic> v = {Mean, Min, Median, Max, Std, Variance, Sum, Count};
        Statistic st = v[s.draw(v.size())];
        if(fuzz && s.b(0.05)) { odd = true; st = s.pick<Statistic>({RandomChoice, Unknown, Quantile, (Statistic) 5, (Statistic) 100}); }
        note("statistic", gen::stat_name(st));
        return st;
    }
    // A value that is not one of the enumeration, which is what an integer that is passed from Python can be
    template<class E> E odd_enum(E e) { if(fuzz && s.b(0.04)) { odd = true; return (E) 5; } return e; }
    ComparisonOperator op() { return odd_enum(op_()); }
    Metric metric() { return odd_enum(metric_()); }
    Extrapolation extrap() { return odd_enum(s.pick<Extrapolation>({OneToOne, MeanSlope, NearestSlope, Zero, Unchanged})); }
    ComparisonOperator op_() { return s.pick<ComparisonOperator>({Lt, Leq, Gt, Geq}); }
    Downscaler down() { return s.pick<Downscaler>({Nearest, Bilinear}); }
    Metric metric_() { return s.pick<Metric>({Ets, Ts, Kss, Pc, Bias, Hss}); }
    int halfwidth(int lo = 0) {
        std::vector<int> bad = {-1, -1000};
        if(lo > 0) bad.push_back(0);
        return par<int>("halfwidth", s.i(lo, 3), bad, {100, 1000000});
    }
    float level() { return par<float>("level", s.f(0, 1), {-0.1f, 1.5f}, {0, 1}); }
    StructureFunctionPtr structure(int depth = 1) {
        float h = (float) (s.u(0.1, 1) * size()), v = s.b() ? s.f(50, 500) : 0, w = s.b() ? s.f(0.2, 1) : 0;
        if(fuzz && s.b(0.05)) { odd = true; h = s.pick<float>({0, 1e-3f, 1e9f}); }
        if(fuzz && s.b(0.05)) { odd = true; v = s.pick<float>({1e-3f, 1e9f}); }
        int k = s.draw(depth > 0 ? 9 : 6);
        switch(k) {
            case 1: return std::make_shared<SoarStructure>(h, v, w);
            case 2: return std::make_shared<ToarStructure>(h, v, w);
            case 3: return std::make_shared<PowerlawStructure>(h, v, w);
            case 4: return std::make_shared<CressmanStructure>(h, v, w);
            case 5: return std::make_shared<BarnesStructure>(h, v, w, h * s.f(0.5, 3));
            case 6: return std::make_shared<CrossValidation>(*structure(0), (float) (s.u(0, 0.5) * size()));
            case 7: return std::make_shared<MultipleStructure>(*structure(0), BarnesStructure(h, s.f(50, 500), 0), BarnesStructure(h, 0, s.f(0.2, 1)));
            case 8: {
                gen::GeoGrid g = gen::grid(s, r, 1, 3, false);
                vec2 H = gen::values2(s, g.Y(), g.X(), 0.1 * size(), size(), 0), V = gen::values2(s, g.Y(), g.X(), 50, 500, 0), W = gen::values2(s, g.Y(), g.X(), 0.2, 1, 0);
                if(s.b()) return std::make_shared<BarnesStructure>(g.grid(), H, V, W);
                return std::make_shared<SoarStructure>(g.grid(), H, V, W);
            }
        }
        return std::make_shared<BarnesStructure>(h, v, w);
    }
    int max_points() { return par<int>("max_points", s.i(0, 8), {-1, -100}, {1000000}); }
};

typedef std::function<Call(Args&)> Maker;
struct Op { std::string name; Maker make; bool parallel; };
static inline std::vector<Op>& all() { static std::vector<Op> v; return v; }
namespace { struct Reg { Reg(const char* n, bool par, Maker m) { all().push_back({n, m, par}); } }; }
}
