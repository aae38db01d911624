// P23: results do not depend on the number of threads
#include "catalogue.h"
#include "omp_fuzz.h"
#include <omp.h>
// with the real OpenMP runtime
__attribute__((weak)) void omp_fuzz::begin(uint64_t, unsigned) {}
__attribute__((weak)) void omp_fuzz::end() {}
__attribute__((weak)) const char* omp_fuzz::race() { return nullptr; }
__attribute__((weak)) long omp_fuzz::regions() { return 0; }
__attribute__((weak)) long omp_fuzz::switches() { return 0; }
__attribute__((weak)) bool omp_fuzz::available() { return false; }

static bool bitwise(const ops::Out& a, const ops::Out& b, size_t& where) {
    where = 0;
    if(a.v.size() != b.v.size()) return false;
    for(size_t i = 0; i < a.v.size(); i++) {
        where = i;
        if(std::isnan(a.v[i]) && std::isnan(b.v[i])) continue;
        if(memcmp(&a.v[i], &b.v[i], sizeof(float))) return false;
    }
    return true;
}

static void threads(const ops::Op& op, Src& s, Ctx& c) {
    bool shim = omp_fuzz::available();
    int n = s.i(2, shim ? 6 : 16);
    int big = shim ? s.pick<int>({4, 8}) : s.pick<int>({6, 12, 25});
    unsigned period = s.pick<unsigned>({0, 3, 30, 1000});
    ops::Args a(s, false, big);
    ops::Call call = op.make(a);
    LOG(c, op.name, " with ", n, " threads: ", a.log);
    gridpp::set_omp_threads(1);
    ops::Out one, again, many;
    try { one = call.run(); again = call.run(); }
    catch(const std::exception& e) { if(a.odd) throw pbt::Discard(); REQUIRE(c, false, op.name, " refuses valid arguments: ", e.what()); }
    size_t k;
    REQUIRE(c, bitwise(one, again, k), op.name, " gives different results for the same call: value ", k);
    int reps = shim ? 2 : 4;
    for(int r = 0; r < reps; r++) {
        gridpp::set_omp_threads(n);
        omp_fuzz::begin(s.draw(1ULL << 40), period);
        try { many = call.run(); }
        catch(const std::exception& e) { REQUIRE(c, false, op.name, " with ", n, " threads: ", e.what()); }
        omp_fuzz::end();
        gridpp::set_omp_threads(1);
        REQUIRE(c, omp_fuzz::race() == nullptr, op.name, " with ", n, " threads: ", omp_fuzz::race());
        REQUIRE(c, bitwise(one, many, k), op.name, " with ", n, " threads: value ", k, " is ", k < many.v.size() ? many.v[k] : NAN, " but with one thread ", k < one.v.size() ? one.v[k] : NAN);
        if(omp_fuzz::regions() > 0) c.label("parallel");
        if(omp_fuzz::switches() > 0) c.label("interleaved");
    }
    std::set<float> d(one.v.begin(), one.v.end());
    if(d.size() > 2 && (!shim || omp_fuzz::regions() > 0)) c.nontrivial();
}

static bool registered = []() {
    for(const ops::Op& op : ops::all()) {
        if(!op.parallel) continue;
        std::string n = "threads_" + op.name;
        for(char& ch : n) if(!isalnum((unsigned char) ch)) ch = '_';
        pbt::registry().push_back(pbt::Sub{"P23", n, [&op](Src& s, Ctx& c) { threads(op, s, c); }, 60, 3000, ""});
    }
    return true;
}();
