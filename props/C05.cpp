// C05: option strings, times and the other helpers of the command-line program
#include "cgen.h"
#include "linalg.h"
#include "Variable.h"
#include "Location.h"

namespace {
typedef std::vector<std::pair<std::string, std::string> > Pairs;
void put(Pairs& p, const std::string& k, const std::string& v) {
    if(k == "" || v == "") return;
    for(auto& e : p) if(e.first == k) { e.second = v; return; }
    p.push_back(std::make_pair(k, v));
}
std::string text(const Pairs& p) {
    std::string o;
    for(size_t k = 0; k < p.size(); k++) o += (k ? " " : "") + p[k].first + "=" + p[k].second;
    return o;
}
const std::string VALUE = "ab1.,=-+:/%_[]";
// A text with options, and the pairs it contains
std::string generate(Src& s, Pairs& p, bool& odd) {
    std::string t(s.i(0, 2), ' ');
    int n = s.i(0, 6);
    for(int k = 0; k < n; k++) {
        std::string key = cg::word(s, 2, "abcD_");
        int kind = s.draw(8);
        if(kind == 0) { t += key; put(p, key, "1"); }                       // flag
        else if(kind == 1) { t += key + "="; odd = true; }                  // no value: ignored
        else if(kind == 2) { t += "=" + cg::word(s, 3, VALUE); odd = true; }  // no key: ignored
        else {
            std::string v = cg::word(s, 6, VALUE);
            t += key + "=" + v;
            put(p, key, v);
        }
        t += std::string(s.i(1, 3), ' ');
    }
    return t;
}
}

PROP(C05, options_text, 40000, 2000000) {
    Pairs p;
    bool odd = false;
    std::string t = generate(s, p, odd);
    Options o(t);
    if(s.b(0.5)) { std::string more = generate(s, p, odd); t += " | " + more; o.addOptions(more); }
    if(s.b(0.3)) { int v = s.i(-5, 1000); t += cat(" | n=", v); o.addOption("n", v); put(p, "n", cat(v)); }
    LOG(c, "options '", t, "' expect '", text(p), "'");
    c.nontrivial(p.size() >= 2);
    REQUIRE(c, o.toString() == text(p), "the text of the options is '", o.toString(), "'");
    for(auto& e : p) {
        std::string v = "unset";
        REQUIRE(c, o.hasValue(e.first), "no value for '", e.first, "'");
        REQUIRE(c, o.getValue(e.first, v) && v == e.second, "the value of '", e.first, "' is '", v, "'");
    }
    std::string v = "unchanged";
    for(std::string absent : {"absent", "a=", "", "=", "aa a"}) {
        bool has = false;
        for(auto& e : p) has = has || e.first == absent;
        if(!has) {
            REQUIRE(c, !o.hasValue(absent), "an absent key has a value");
            REQUIRE(c, !o.getValue(absent, v) && v == "unchanged", "an absent key changes the value to ", v);
            std::vector<float> vs(2, 1);
            REQUIRE(c, !o.getValues(absent, vs) && vs.empty(), "an absent key gives values");
        }
    }
    // Text and back, in any order
    Options back(o.toString());
    REQUIRE(c, back == o && o == back && !(back != o), "the options are not equal to those from their text");
    Pairs shuffled = p;
    for(size_t k = 0; k + 1 < shuffled.size(); k++) std::swap(shuffled[k], shuffled[k + s.draw(shuffled.size() - k)]);
    Options sh(text(shuffled));
    REQUIRE(c, sh == o && o == sh, "the order of the options matters");
    if(!p.empty()) {
        int k = s.draw(p.size());
        Pairs other = p;
        int kind = s.draw(3);
        if(kind == 0) other.erase(other.begin() + k);
        else if(kind == 1) other[k].second += "x";
        else other.push_back(std::make_pair("newkey", "1"));
        Options d(text(other));
        REQUIRE(c, d != o && o != d && !(d == o), "'", text(other), "' is equal to '", text(p), "'");
    }
    // Keys that nobody asked for
    Options fresh(text(p));
    int used = p.empty() ? 0 : s.draw(p.size() + 1);
    for(int k = 0; k < used; k++) {
        std::string x;
        std::vector<std::string> xs;
        if(k % 2) fresh.getValue(p[k].first, x);
        else fresh.getValues(p[k].first, xs);
    }
    fresh.getValue("absent", v);
    REQUIRE(c, fresh.check() == (used == (int) p.size()), used, " of ", p.size(), " keys were used, but check() gives ", fresh.check());
    o.clear();
    REQUIRE(c, o.toString() == "" && o == Options(), "cleared options are not empty");
}

PROP(C05, options_typed, 40000, 2000000) {
    int n = s.i(1, 5);
    std::vector<long> ints;
    std::vector<std::string> floats, words;
    std::string ti, tf, tw;
    for(int k = 0; k < n; k++) {
        ints.push_back(s.b(0.2) ? s.pick({0, -1, 2147483647, -2147483647}) : s.i(-1000000, 1000000));
        char buf[64];
        double x = s.pick({1.0, 1e-6, 1e6, 1e-20, 1e20}) * s.real(-1000, 1000);
        snprintf(buf, sizeof(buf), s.pick({"%g", "%.3f", "%.9e", "%+g"}), x);
        floats.push_back(buf);
        words.push_back(cg::word(s, 4, "abc=:%/[]"));
        ti += (k ? "," : "") + cat(ints[k]);
        tf += (k ? "," : "") + floats[k];
        tw += (k ? "," : "") + words[k];
    }
    Options o("i=" + ti + " f=" + tf + " w=" + tw + cat(" b=", n % 2));
    LOG(c, o.toString());
    c.nontrivial(n >= 2);
    std::vector<int> iv;
    std::vector<float> fv(3, 7);
    std::vector<double> dv;
    std::vector<std::string> wv;
    REQUIRE(c, o.getValues("i", iv) && o.getValues("f", fv) && o.getValues("f", dv) && o.getValues("w", wv), "no values");
    REQUIRE(c, (int) iv.size() == n && (int) fv.size() == n && (int) dv.size() == n && (int) wv.size() == n, "wrong number of values");
    for(int k = 0; k < n; k++) {
        REQUIRE(c, iv[k] == ints[k], "value ", k, " of ", ti, " is ", iv[k]);
        REQUIRE(c, fv[k] == strtof(floats[k].c_str(), 0), "value ", k, " of ", tf, " is ", fv[k]);
        REQUIRE(c, dv[k] == strtod(floats[k].c_str(), 0), "value ", k, " of ", tf, " is ", dv[k]);
        REQUIRE(c, wv[k] == words[k], "value ", k, " of ", tw, " is ", wv[k]);
    }
    int i1 = 0; float f1 = 0; bool b1 = n % 2 == 0; std::string w1;
    Options one("i=" + cat(ints[0]) + " f=" + floats[0] + " w=" + words[0] + cat(" b=", n % 2));
    REQUIRE(c, one.getValue("i", i1) && i1 == ints[0], i1, " for ", ints[0]);
    REQUIRE(c, one.getValue("f", f1) && f1 == strtof(floats[0].c_str(), 0), f1, " for ", floats[0]);
    REQUIRE(c, one.getValue("w", w1) && w1 == words[0], w1, " for ", words[0]);
    REQUIRE(c, one.getValue("b", b1) && b1 == (n % 2 == 1), b1, " for ", n % 2);
    float r = 0;
    std::vector<float> rs;
    one.getRequiredValue("f", r);
    o.getRequiredValues("f", rs);
    REQUIRE(c, r == f1 && rs == fv, "required values differ from optional values");
    if(s.b(0.01)) {
        REQUIRE(c, cg::outcome([&]() { float x; o.getRequiredValue("absent", x); }) == 'e', "a missing required value is not refused");
        REQUIRE(c, cg::outcome([&]() { std::vector<float> x; o.getRequiredValues("absent", x); }) == 'e', "missing required values are not refused");
    }
}

PROP(C05, variable, 20000, 1000000) {
    // Each item is present or not
    std::string name = cg::word(s, 5, cg::LETTERS), units = cg::word(s, 5, "abm/s^%"), std_name = cg::word(s, 5, cg::LETTERS);
    bool u = s.b(), n = s.b(), mi = s.b(), ma = s.b(), le = s.b();
    float lo = s.i(-100, 100), hi = s.i(-100, 100);
    int level = s.i(0, 5);
    std::string t = (u ? " units=" + units : "") + (n ? " standardName=" + std_name : "") + (mi ? cat(" min=", lo) : "") + (ma ? cat(" max=", hi) : "");
    LOG(c, "name=", name, t);
    c.nontrivial(u || n || mi || ma);
    Variable v(Options("name=" + name + t + (le ? cat(" level=", level) : "")));
    REQUIRE(c, v.name() == name, v.name());
    REQUIRE(c, v.units() == (u ? units : ""), v.units());
    REQUIRE(c, v.standardName() == (n ? std_name : ""), v.standardName());
    REQUIRE(c, v.min() == (mi ? lo : cg::MV) && v.max() == (ma ? hi : cg::MV), "range ", v.min(), " ", v.max());
    REQUIRE(c, v.level() == (le ? level : cg::MV), "level ", v.level());
    // Options given later change what they name and nothing else
    Variable w(name, -7, 7, "K", "std", 3);
    w.add(Options(t));
    REQUIRE(c, w.name() == name && w.level() == 3, "name ", w.name(), " level ", w.level());
    REQUIRE(c, w.units() == (u ? units : "K") && w.standardName() == (n ? std_name : "std"), w.units(), " ", w.standardName());
    REQUIRE(c, w.min() == (mi ? lo : -7), "minimum ", w.min(), " after '", t, "'");
    REQUIRE(c, w.max() == (ma ? hi : 7), "maximum ", w.max(), " after '", t, "'");
    std::string other = cg::word(s, 5, cg::LETTERS);
    // The same variable: same name and level, whatever the metadata
    Variable o(other, s.f(-5, 5), 5, units, std_name, s.b() ? v.level() : s.pick<float>({cg::MV, (float) s.i(0, 5)}));
    bool same = name == other && v.level() == o.level();
    LOG(c, "other=", other, " level=", o.level());
    REQUIRE(c, (v == o) == same, "equality");
    REQUIRE(c, (v < o) + (o < v) == !same, "order");
}

PROP(C05, calendar, 100000, 5000000) {
    static const long lo = cg::days_from_civil(1400, 1, 1), hi = cg::days_from_civil(9998, 12, 31);
    long day = s.b(0.7) ? s.i(-36500, 73000) : lo + (long) s.draw(hi - lo);
    if(s.b(0.3)) day = cg::days_from_civil(s.i(1890, 2110), s.pick({1, 2, 3, 12}), s.pick({1, 28, 31})) + s.i(0, 1);
    int sec = s.b(0.3) ? s.pick({0, 1, 59, 60, 3599, 3600, 43200, 86399}) : s.i(0, 86399);
    time_t t = (time_t) day * 86400 + sec;
    int date = cg::civil_from_days(day), hms = sec / 3600 * 10000 + sec / 60 % 60 * 100 + sec % 60;
    LOG(c, "unix time ", (long) t, " is ", date, " ", hms);
    c.nontrivial(sec != 0);
    c.label(t < 0 ? "before 1970" : "after 1970");
    REQUIRE(c, Util::getUnixTime(date, hms) == t, "getUnixTime gives ", (long) Util::getUnixTime(date, hms));
    REQUIRE(c, Util::getDate(t) == date, "getDate gives ", Util::getDate(t));
    REQUIRE(c, Util::getTime(t) == hms, "getTime gives ", Util::getTime(t));
    if(day > lo + 50000 && day < hi - 50000) {
        int days = s.i(-1500, 1500), hours = s.i(0, 23);
        int expect = cg::civil_from_days(day + days);
        int got = Util::calcDate(date, days * 24 + hours);
        REQUIRE(c, got == expect, date, " plus ", days * 24 + hours, " hours is ", got, " instead of ", expect);
    }
    // The clock of the computer
    if(s.b(0.001)) {
        time_t a = time(NULL), b = Util::getCurrentUnixTime(), d = Util::getUnixTime(Util::getCurrentDate(), Util::getCurrentTime());
        REQUIRE(c, b >= a && b <= a + 2, "current time");
        REQUIRE(c, std::abs((long) (d - b)) <= 2 || std::abs((long) (d - b)) >= 86398, "current date and time");
    }
}

PROP(C05, distance, 100000, 5000000) {
    float la1 = s.f(-90, 90), lo1 = s.f(-180, 180), la2, lo2;
    int kind = s.draw(4);
    if(kind == 0) { la2 = s.f(-90, 90); lo2 = s.f(-180, 180); }
    else if(kind == 1) { la2 = std::min(90.0, std::max(-90.0, la1 + s.u(-0.5, 0.5))); lo2 = lo1 + s.u(-0.5, 0.5); }
    else if(kind == 2) {
        la2 = s.b() ? std::nextafterf(la1, la1 > 0 ? -1 : 1) : la1;
        lo2 = s.b() ? std::nextafterf(lo1, lo1 > 0 ? -1 : 1) : lo1;
    }
    else { la2 = -la1; lo2 = lo1 > 0 ? lo1 - 180 : lo1 + 180; }
    if(s.b(0.2)) lo2 = lo2 > 0 ? lo2 - 360 : lo2 + 360;
    if(std::fabs(lo2) > 360) lo2 = 360;
    double expect = cg::distance(la1, lo1, la2, lo2);
    float d = Util::getDistance(la1, lo1, la2, lo2);
    LOG(c, la1, ",", lo1, " to ", la2, ",", lo2, ": ", d, " m, expect ", expect);
    c.nontrivial(expect > 1);
    REQUIRE(c, feq(d, expect, 30, 2e-6), "distance ", d, " but the great circle is ", expect, " m long");
    REQUIRE(c, Util::getDistance(la2, lo2, la1, lo1) == d || feq(Util::getDistance(la2, lo2, la1, lo1), d, 1, 1e-6), "the distance is not symmetric");
    REQUIRE(c, d >= 0 && Util::getDistance(la1, lo1, la1, lo1) == 0, "zero distance");
    if(std::fabs(la1) < 80 && std::fabs(la2 - la1) < 1 && std::fabs(lo1 - lo2) < 1) {
        float a = Util::getDistance(la1, lo1, la2, lo2, true);
        REQUIRE(c, feq(a, expect, 40, 0.005), "approximate distance ", a, " instead of ", expect);
    }
    float args[4] = {la1, lo1, la2, lo2};
    int m = s.draw(4);
    args[m] = s.pick<float>({-999, NAN, INFINITY});
    REQUIRE(c, Util::getDistance(args[0], args[1], args[2], args[3], s.b()) == cg::MV, "the distance to an unknown location is not missing");
    REQUIRE(c, feq(Util::deg2rad(la1), la1 * M_PI / 180, 1e-7, 1e-6) && feq(Util::rad2deg(Util::deg2rad(lo1)), lo1, 1e-5, 1e-6), "degrees and radians");
    if(s.b(0.002)) {
        float bad[4] = {la1, lo1, la2, lo2};
        bad[m] = m % 2 ? 361 : 91;
        REQUIRE(c, cg::outcome([&]() { Util::getDistance(bad[0], bad[1], bad[2], bad[3]); }) == 'e', "an invalid location is not refused");
    }
}

PROP(C05, statistics, 60000, 3000000) {
    int n = s.i(0, 12);
    double p = cg::pmiss(s), off = s.pick({0.0, 0.0, 300.0, 100000.0});
    std::vector<float> v;
    int valid = 0;
    float ma = 0;
    for(int k = 0; k < n; k++) {
        float x = cg::val(s, -20, 20, p);
        if(cg::ok(x)) { x += off; valid++; ma = std::max(ma, std::fabs(x)); }
        v.push_back(x);
    }
    if(s.b(0.3)) for(float& x : v) if(cg::ok(x)) x = std::floor(x);
    c.nontrivial(valid >= 2);
    std::string names[] = {"mean", "min", "median", "max", "quantile", "std", "sum"};
    Util::StatType types[] = {Util::StatTypeMean, Util::StatTypeMin, Util::StatTypeMedian, Util::StatTypeMax, Util::StatTypeQuantile, Util::StatTypeStd, Util::StatTypeSum};
    int k = s.draw(7);
    float q = s.b(0.5) ? (float) s.i(0, 12) / 12 : (float) s.u(0, 1);
    Util::StatType st = Util::StatTypeMean;
    REQUIRE(c, Util::getStatType(names[k], st) && st == types[k], "the name ", names[k], " gives statistic ", (int) st);
    REQUIRE(c, !Util::getStatType("invalid", st) && !Util::getStatType("", st) && st == types[k], "an invalid name gives a statistic");
    float got = Util::calculateStat(v, st, q);
    double expect = cg::statistic(v, st, q);
    LOG(c, names[k], " (", q, ") of ", v, " = ", got, ", expect ", expect);
    c.label(names[k]);
    double tol = 1e-6 * (1 + ma) * (st == Util::StatTypeSum ? n + 1 : 2);
    if(st == Util::StatTypeStd) tol = 2e-3 + 1e-6 * ma;     // sum of squares of up to 12 values within 40 of each other
    REQUIRE(c, feq(got, expect, tol, 1e-6), got, " instead of ", expect);
}

PROP(C05, interpolate, 60000, 3000000) {
    int n = s.i(1, 8);
    std::vector<float> x, y;
    float cur = s.i(-10, 10);
    for(int k = 0; k < n; k++) {
        x.push_back(cur);
        if(s.b(0.7)) cur += s.pick({1.0, 0.5, 3.0, 0.1});
        y.push_back(s.f(-50, 50));
    }
    float v = s.b(0.4) ? x[s.draw(n)] : (float) s.real(x[0] - 2, x[n - 1] + 2);
    float got = Util::interpolate(v, x, y);
    int first = -999, last = -999;      // see Util.h
    for(int k = 0; k < n; k++) if(x[k] < v) first = k;
    for(int k = n - 1; k >= 0; k--) if(x[k] == v) first = k;
    for(int k = n - 1; k >= 0; k--) if(x[k] > v) last = k;
    for(int k = 0; k < n; k++) if(x[k] == v) last = k;
    LOG(c, "interpolate to ", v, " in ", x, " -> ", y, ": ", got);
    c.nontrivial(n >= 2 && v > x[0] && v < x[n - 1]);
    REQUIRE(c, Util::getLowerIndex(v, x) == first, "lower index ", Util::getLowerIndex(v, x), " instead of ", first);
    REQUIRE(c, Util::getUpperIndex(v, x) == last, "upper index ", Util::getUpperIndex(v, x), " instead of ", last);
    double expect;
    if(v > x[n - 1]) expect = y[n - 1];
    else if(v < x[0]) expect = y[0];
    else if(x[first] == x[last]) expect = ((double) y[first] + y[last]) / 2;
    else expect = y[first] + ((double) y[last] - y[first]) * ((double) v - x[first]) / ((double) x[last] - x[first]);
    REQUIRE(c, feq(got, expect, 1e-3, 1e-5), got, " instead of ", expect);
}

PROP(C05, inverse, 20000, 1000000) {
    int n = s.i(1, 6);
    vec2 a(n, std::vector<float>(n));
    for(auto& r : a) for(float& x : r) x = s.b(0.2) ? 0 : s.f(-10, 10);
    int kind = s.draw(5);
    if(kind == 0) a[s.draw(n)][s.draw(n)] = s.pick<float>({-999, NAN, INFINITY});
    else if(kind == 1) {        // singular, exactly
        int k = s.draw(n), l = s.draw(n);
        if(k < l) for(float& x : a[k]) x = 0;
        else for(auto& r : a) r[k] = 0;
    }
    vec2 inv = Util::inverse(a);
    LOG(c, "inverse of ", a, " = ", inv);
    REQUIRE(c, (int) inv.size() == n, "size of the inverse");
    for(auto& r : inv) REQUIRE(c, (int) r.size() == n, "size of the inverse");
    bool all_missing = true;
    for(auto& r : inv) for(float x : r) all_missing = all_missing && x == cg::MV;
    if(kind <= 1) {
        REQUIRE(c, all_missing, "a matrix without inverse has the inverse ", inv);
        c.nontrivial(n > 1);
        return;
    }
    la::M m = la::zeros(n, n), ref;
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) m[i][j] = a[i][j];
    la::R cond;
    if(!la::inverse(m, ref, cond) || cond > 1e3) return;
    c.nontrivial(n > 1);
    double big = 0;
    for(auto& r : ref) for(la::R x : r) big = std::max(big, (double) std::fabs(x));
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++)
        REQUIRE(c, feq(inv[i][j], (double) ref[i][j], 2e-5 * (double) cond * big, 0), "element ", i, ",", j, " is ", inv[i][j], " instead of ", (double) ref[i][j]);
}

PROP(C05, regression, 20000, 1000000) {
    int N = s.i(1, 3), T = s.i(2, 12);
    bool constant = s.b();
    if(N + constant > T) N = 1;
    std::vector<std::vector<float> > x(N, std::vector<float>(T));
    std::vector<float> y(T);
    for(auto& r : x) for(float& v : r) v = s.f(-10, 10);
    for(float& v : y) v = s.f(-10, 10);
    int P = N + constant;
    la::M A = la::zeros(T, P), b = la::zeros(T, 1), inv;
    for(int t = 0; t < T; t++) {
        for(int k = 0; k < P; k++) A[t][k] = constant ? (k == 0 ? 1 : x[k - 1][t]) : x[k][t];
        b[t][0] = y[t];
    }
    la::R cond;
    if(!la::inverse(la::mul(la::transpose(A), A), inv, cond) || cond > 1e8) return;
    std::vector<float> got = Util::regression(y, x, constant);
    LOG(c, "regression of ", y, " on ", x, constant ? " with a constant: " : ": ", got);
    c.nontrivial(T > P);
    la::M expect = la::mul(inv, la::mul(la::transpose(A), b));
    REQUIRE(c, (int) got.size() == P, "number of coefficients");
    for(int k = 0; k < P; k++)
        REQUIRE(c, feq(got[k], (double) expect[k][0], 1e-4, 1e-4), "coefficient ", k, " is ", got[k], " instead of ", (double) expect[k][0]);
}

PROP(C05, text, 40000, 2000000) {
    std::string delims = s.b(0.5) ? " " : s.pick<std::string>({",", " ,", ";,"});
    int n = s.i(0, 20);
    std::string t;
    for(int k = 0; k < n; k++) t += s.pick({'a', 'b', 'c', ' ', ',', ';', ' '});
    std::vector<std::string> expect;
    std::string cur;
    for(char ch : t + delims[0]) {
        if(delims.find(ch) != std::string::npos) { if(cur != "") expect.push_back(cur); cur = ""; }
        else cur += ch;
    }
    std::vector<std::string> got = Util::split(t, delims);
    LOG(c, "split '", t, "' at '", delims, "': ", got);
    c.nontrivial(expect.size() >= 2);
    REQUIRE(c, got == expect, "expected ", expect);
    char ch = s.pick({'a', ',', 'z'});
    bool has = false;
    for(char x : t) has = has || x == ch;
    REQUIRE(c, Util::hasChar(t, ch) == has, "hasChar");
    std::vector<int> a, b;
    std::set<int> all;
    for(int k = s.i(0, 5); k > 0; k--) { a.push_back(s.i(0, 9)); all.insert(a.back()); }
    for(int k = s.i(0, 5); k > 0; k--) { b.push_back(s.i(0, 9)); all.insert(b.back()); }
    REQUIRE(c, Util::combine(a, b) == std::vector<int>(all.begin(), all.end()), "combination of ", a, " and ", b, " is ", Util::combine(a, b));
    // Descriptions keep all words, in order, in aligned lines
    std::string title = s.b(0.2) ? "" : cg::word(s, 8, "abc="), message;
    std::vector<std::string> words;
    for(int k = s.i(0, 25); k > 0; k--) { words.push_back(cg::word(s, 9, "abcdef")); message += words.back() + " "; }
    int width = s.i(12, 24), max = width + s.i(12, 40), indent = s.i(0, 3);
    std::string d = Util::formatDescription(title, message, width, max, indent);
    LOG(c, d);
    std::vector<std::string> out = Util::split(d, " \n"), all_words = Util::split(title);
    all_words.insert(all_words.end(), words.begin(), words.end());
    REQUIRE(c, out == all_words, "the words ", all_words, " became ", out);
    std::vector<std::string> lines = Util::split(d, "\n");
    for(size_t k = 0; k < lines.size(); k++) {
        REQUIRE(c, (int) lines[k].size() <= max + 1, "line ", k, " has ", lines[k].size(), " characters");
        if(k > 0) REQUIRE(c, lines[k].substr(0, width) == std::string(width, ' ') && lines[k][width] != ' ', "line ", k, " is not aligned");
    }
}

PROP(C05, logit, 20000, 1000000) {
    float p = s.b(0.2) ? s.pick<float>({0, 1, -1, 2, NAN, -999}) : (float) s.u(0.0001, 0.9999);
    float l = Util::logit(p);
    LOG(c, "logit ", p, " = ", l);
    if(!cg::ok(p) || p <= 0 || p >= 1) { REQUIRE(c, l == cg::MV, "no missing value outside (0,1)"); return; }
    c.nontrivial();
    REQUIRE(c, feq(l, std::log((double) p / (1 - (double) p)), 1e-4, 1e-4), "value");
    REQUIRE(c, feq(Util::invLogit(l), p, 1e-5, 0), "the inverse gives ", Util::invLogit(l));
    REQUIRE(c, Util::invLogit(cg::MV) == cg::MV, "inverse of missing");
    float x = s.f(-300, 300), il = Util::invLogit(x);
    REQUIRE(c, feq(il, 1 / (1 + std::exp(-(double) x)), 1e-6, 1e-5), "invLogit ", x, " = ", il);
}

PROP(C05, files, 3000, 60000) {
    int n = s.b(0.2) ? 0 : s.i(1, 300);
    std::string content;
    for(int k = 0; k < n; k++) content += (char) s.draw(256);
    std::string a = cg::scratch("a.bin"), b = cg::scratch("b.bin"), absent = cg::scratch("absent.bin");
    cg::write_file(a, content);
    if(s.b()) cg::write_file(b, "something longer than before, or not");
    else Util::remove(b);
    c.nontrivial(n > 1);
    REQUIRE(c, Util::exists(a) && !Util::exists(absent), "existence");
    REQUIRE(c, Util::copy(a, b), "copy failed");
    REQUIRE(c, cg::read_file(b) == content && cg::read_file(a) == content, "the copy differs from the original");
    REQUIRE(c, !Util::copy(absent, cg::scratch("c.bin")), "an absent file was copied");
    std::string dir = cg::scratch("");
    std::vector<std::string> g = Util::glob(dir + "[ab].bin," + absent);
    REQUIRE(c, g == std::vector<std::string>({dir + "a.bin", dir + "b.bin", absent}), "glob gives ", g);
    REQUIRE(c, Util::remove(b) && !Util::exists(b) && !Util::remove(b), "removal");
    Util::remove(a);
    Util::remove(cg::scratch("c.bin"));
}
