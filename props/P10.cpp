// P10: sliding windows
#include "gen.h"

PROP(P10, window, 400000, 8000000) {
    static const std::vector<Statistic> kStats = {Mean, Sum, Count, Min, Max, Median, Std, Variance, RandomChoice};
    int Y = s.i(1, 3), X = s.b(0.03) ? s.i(100, 400) : s.i(1, 12);
    double base = s.pick<double>({0, 0, 273, 101325}), range = s.pick<double>({20, 1, 1000});
    vec2 a = gen::values2(s, Y, X, -range, range, gen::pmiss(s));
    for(auto& r : a) for(float& x : r) if(ref::ok(x)) x = (float) (base + x);
    bool before = s.b(), keep = s.b(), edges = s.b();
    int length = s.b(0.1) ? s.i(1, 40) : s.i(1, 7);
    if(!before && length % 2 == 0) length++;
    Statistic st = s.pick(kStats);
    LOG(c, gen::stat_name(st), " length ", length, before ? " before" : " centred", keep ? " keep missing" : "", edges ? " missing edges" : "", "\narray ", str(a));
    vec2 out = gridpp::window(a, length, st, before, keep, edges);
    REQUIRE(c, (int) out.size() == Y, "rows");
    bool some = false;
    for(int y = 0; y < Y; y++) {
        REQUIRE(c, (int) out[y].size() == X, "columns");
        for(int x = 0; x < X; x++) {
            int lo = before ? x - length + 1 : x - length / 2, hi = before ? x : x + length / 2;
            std::vector<double> v;
            bool miss = false, outside = lo < 0 || hi >= X;
            for(int i = std::max(0, lo); i <= std::min(X - 1, hi); i++) { if(ref::ok(a[y][i])) v.push_back(a[y][i]); else miss = true; }
            float got = out[y][x];
            int n = v.size();
            std::string where = cat("row ", y, " element ", x);
            // the number of values is reported even where other statistics are set to missing
            if(st == Count) { REQUIRE(c, got == n, where, ": count ", got, " expected ", n); continue; }
            if(n == 0 || (keep && miss) || (edges && outside)) { REQUIRE(c, std::isnan(got), where, ": ", got, " expected missing"); continue; }
            double m = 0, r = *std::max_element(v.begin(), v.end()) - *std::min_element(v.begin(), v.end());
            for(double q : v) m = std::max(m, std::fabs(q));
            if(n < length) some = true;
            if(st == RandomChoice) { bool in = false; for(double q : v) in |= q == got; REQUIRE(c, in, where, ": random choice ", got, " is not in the window"); continue; }
            double want = ref::statistic(v, st), tol = 0;
            if(st == Mean) tol = 2.5e-7 * m;
            if(st == Sum) tol = 2.5e-7 * m * n;
            if(st == Median) tol = 4e-7 * r + 1.3e-7 * m;
            if(st == Variance || st == Std) {
                double w = st == Std ? want * want : want, g = st == Std ? (double) got * got : got;
                REQUIRE(c, got >= 0 && std::fabs(g - w) <= (n + 4) * 3e-7 * r * r, where, ": ", gen::stat_name(st), " is ", got, " expected ", want);
                continue;
            }
            REQUIRE(c, feq(got, want, tol, 0), where, ": ", gen::stat_name(st), " is ", got, " expected ", want);
        }
    }
    c.nontrivial(X > 2 && length > 1 && length < 2 * X);
    c.label(gen::stat_name(st));
    if(some) c.label("shortened-window");
}
PROP(P10, refused, 20000, 100000) {
    vec2 a = gen::values2(s, s.i(1, 3), s.i(1, 5), -5, 5, 0.1);
    bool before = s.b();
    int length = s.b() ? s.i(-5, 0) : 2 * s.i(1, 5);
    LOG(c, "length ", length, before ? " before" : " centred");
    bool threw = false;
    try { gridpp::window(a, length, gridpp::Mean, before, s.b(), s.b()); } catch(const std::invalid_argument&) { threw = true; }
    REQUIRE(c, threw == (length <= 0 || !before), "length ", length, threw ? " is refused" : " is accepted");
    c.nontrivial();
}
