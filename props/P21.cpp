// P21: probabilistic and masked ensemble downscaling
#include "gen.h"

namespace {
const std::initializer_list<ComparisonOperator> OPS = {Lt, Leq, Gt, Geq};
std::string name(ComparisonOperator o) { return o == Lt ? "<" : o == Leq ? "<=" : o == Gt ? ">" : ">="; }
bool holds(float a, ComparisonOperator o, float b) { return o == Lt ? a < b : o == Leq ? a <= b : o == Gt ? a > b : a >= b; }
ComparisonOperator opposite(ComparisonOperator o) { return o == Lt ? Geq : o == Leq ? Gt : o == Gt ? Leq : Lt; }
// Input cells that may count as the nearest one of each output cell
std::vector<std::vector<int> > candidates(const gen::Geo& in, const gen::Geo& out) {
    std::vector<std::vector<int> > r(out.n());
    for(int o = 0; o < out.n(); o++) {
        double best = 1e99, scale = 1;
        std::vector<double> d(in.n());
        for(int i = 0; i < in.n(); i++) {
            d[i] = ref::chord(in.lats[i], in.lons[i], out.lats[o], out.lons[o], in.type);
            best = std::min(best, d[i]);
            if(in.type == Cartesian) scale = std::max(scale, (double) std::max(std::fabs(in.lats[i]), std::fabs(in.lons[i])));
        }
        for(int i = 0; i < in.n(); i++) if(d[i] <= best + 2 * ref::tol(in.type, scale)) r[o].push_back(i);
    }
    return r;
}
struct Case {
    gen::GeoGrid ig, og;
    std::vector<std::vector<int> > cand;
    int E;
    vec3 a, b, m;       // members; false members; mask members
    vec2 t;
    ComparisonOperator op;
};
Case setup(Src& s) {
    Case k;
    gen::Region r = gen::region(s);
    k.ig = gen::grid(s, r, 1, 6, false);
    k.og = gen::grid(s, r, 1, 6, false);
    k.cand = candidates(k.ig.flat(), k.og.flat());
    k.E = s.i(1, 6);
    double pm = gen::pmiss(s);
    bool ints = s.b(0.6);      // so that values equal thresholds
    auto val = [&]() { return s.b(pm) ? (float) NAN : ints ? (float) s.i(0, 4) : s.f(0, 5); };
    auto field = [&]() { vec3 f(k.ig.Y(), vec2(k.ig.X(), vec(k.E))); for(auto& y : f) for(auto& x : y) for(float& e : x) e = val(); return f; };
    k.a = field();
    k.b = field();
    k.m = field();
    k.t = vec2(k.og.Y(), vec(k.og.X()));
    double pt = s.b(0.3) ? 0.3 : 0;      // no member satisfies a comparison with a missing threshold
    for(auto& y : k.t) for(float& x : y) x = s.b(pt) ? (float) NAN : ints ? (float) s.i(0, 4) : s.f(0, 5);
    k.op = s.pick(OPS);
    return k;
}
std::string show(const Case& k) { return cat("input grid ", gen::show(k.ig), "\noutput grid ", gen::show(k.og), "\noperator ", name(k.op), " thresholds ", str(k.t)); }
void shape(Ctx& c, const Case& k, const vec2& o) {
    REQUIRE(c, (int) o.size() == k.og.Y(), "output has ", o.size(), " rows");
    for(const vec& r : o) REQUIRE(c, (int) r.size() == k.og.X(), "output has ", r.size(), " columns");
}
}

PROP(P21, probability, 150000, 4000000) {
    Case k = setup(s);
    LOG(c, show(k), "\nmembers ", k.a);
    Grid ig = k.ig.grid(), og = k.og.grid();
    vec2 p = gridpp::downscale_probability(ig, og, k.a, k.t, k.op), q = gridpp::downscale_probability(ig, og, k.a, k.t, opposite(k.op));
    LOG(c, "probabilities ", p, " opposite ", q);
    shape(c, k, p);
    shape(c, k, q);
    c.label(name(k.op));
    bool some = false;
    for(int y = 0; y < k.og.Y(); y++) for(int x = 0; x < k.og.X(); x++) {
        bool found = false;
        std::string all;
        for(int i : k.cand[y * k.og.X() + x]) {
            int n = 0, h = 0, g = 0;
            for(float v : k.a[i / k.ig.X()][i % k.ig.X()]) if(ref::ok(v)) { n++; h += holds(v, k.op, k.t[y][x]); g += holds(v, opposite(k.op), k.t[y][x]); }
            double want = n ? (double) h / n : NAN;
            all += " " + str(want);
            if(n > 1 && h > 0 && h < n) some = true;
            found = found || (feq(p[y][x], want, 1e-6, 0) && (n == 0 ? !ref::ok(q[y][x]) : feq(q[y][x], (double) g / n, 1e-6, 0)));
        }
        REQUIRE(c, found, "(", y, ",", x, ") is ", p[y][x], " (opposite comparison ", q[y][x], ") but the members give", all);
    }
    c.nontrivial(some);
}

PROP(P21, masked, 150000, 4000000) {
    Case k = setup(s);
    bool quant = s.b(0.4);
    Statistic st = s.pick({Mean, Min, Max, Median, Sum, Std, Variance, Count});
    float level = s.b(0.3) ? s.pick<float>({0, 1, 0.5}) : (float) s.u(0, 1);
    LOG(c, show(k), "\ntrue ", k.a, "\nfalse ", k.b, "\nmask ", k.m, "\n", quant ? cat("quantile ", level) : gen::stat_name(st));
    Grid ig = k.ig.grid(), og = k.og.grid();
    vec2 o = quant ? gridpp::mask_threshold_downscale_quantile(ig, og, k.a, k.b, k.m, k.t, k.op, level) : gridpp::mask_threshold_downscale_consensus(ig, og, k.a, k.b, k.m, k.t, k.op, st);
    LOG(c, "result ", o);
    shape(c, k, o);
    c.label(quant ? "Quantile" : gen::stat_name(st));
    bool some = false;
    for(int y = 0; y < k.og.Y(); y++) for(int x = 0; x < k.og.X(); x++) {
        bool found = false;
        std::string all;
        for(int i : k.cand[y * k.og.X() + x]) {
            int I = i / k.ig.X(), J = i % k.ig.X(), nt = 0, nf = 0;
            std::vector<double> v;
            for(int e = 0; e < k.E; e++) {
                if(!ref::ok(k.m[I][J][e])) continue;
                bool h = holds(k.m[I][J][e], k.op, k.t[y][x]);
                v.push_back(h ? k.a[I][J][e] : k.b[I][J][e]);
                (h ? nt : nf)++;
            }
            if(nt && nf) some = true;
            double want = ref::statistic(v, quant ? gridpp::Quantile : st, level);
            all += " " + str(want);
            found = found || feq(o[y][x], want, 1e-5, 1e-5);
        }
        REQUIRE(c, found, "(", y, ",", x, ") is ", o[y][x], " but the members give", all);
    }
    c.nontrivial(some);
}
