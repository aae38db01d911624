// P20: meteorological diagnostics
#include "gen.h"

namespace {
const double EPS = 6e-8;
// Saturation vapour pressure in 5 K steps from 173.16 K [hPa] (the table of the relative humidity method)
const double EWT[41] = {.000034, .000089, .000220, .000517, .001155, .002472, .005080, .01005, .01921, .03553, .06356, .1111,
                        .1891, .3139, .5088, .8070, 1.2540, 1.9118, 2.8627, 4.2148, 6.1078, 8.7192, 12.272, 17.044,
                        23.373, 31.671, 42.430, 56.236, 73.777, 95.855, 123.40, 157.46, 199.26, 250.16, 311.69, 385.56,
                        473.67, 578.09, 701.13, 845.28, 1013.25};
double ewt(double T) {
    double x = std::min(std::max((T - 173.16) / 5, 0.0), 39.0);
    int l = (int) x;
    return EWT[l] + (EWT[l + 1] - EWT[l]) * (x - l);
}
double magnus(double tc) { return 0.611 * std::exp(17.63 * tc / (tc + 243.04)); }       // kPa
double dewpoint_ref(double T, double rh) {
    double e = std::log(rh * magnus(T - 273.15));
    return std::min(T, (116.9 + 243.04 * e) / (16.78 - e) + 273.15);
}
double wetbulb_ref(double T, double p, double rh) {
    double tc = T - 273.15, e = rh * magnus(tc), le = std::log(e), td = std::min(tc, (116.9 + 243.04 * le) / (16.78 - le));
    double g = 0.00066 * p / 1000, d = 4098 * e / ((td + 243.04) * (td + 243.04));
    return (g * tc + d * td) / (g + d) + 273.15;
}
double pressure_ref(double z0, double z1, double p, double T) { return p * std::exp(-9.80665 * 0.0289644 * (z1 - z0) / (8.3144598 * T)); }
double qnh_ref(double p, double z) {
    double k = 287.053 * 0.0065 / 9.80665;
    return 101325 * std::pow(std::pow(p / 101325, k) + z * 0.0065 / 288.15, 1 / k);
}
double slp_ref(double ps, double z, double T, double rh, double td) {
    double tc = T - 273.15, e = 0, d;
    ps /= 100;
    if(ref::ok(rh)) {
        e = rh * 6.11 * std::pow(10, 7.5 * tc / (237.3 + tc));
        double l = std::log(e / 6.1094);
        d = 243.04 * l / (17.625 - l);
    }
    else if(ref::ok(td)) {
        d = td - 273.15;
        e = 6.11 * std::pow(10, 7.5 * d / (237.3 + d));
    }
    else d = tc - 3;
    if(z >= 50) return 100 * ps * std::exp(9.80665 * z / 287.05 / (T + 0.5 * 0.0065 * z + e * 0.12));
    double tv = T / (1 - 0.379 * 6.11 * std::pow(10, 7.5 * d / (237.7 + d)) / ps);
    return 100 * (ps + ps * z / (29.27 * tv));
}
float temp(Src& s) { return s.b(0.2) ? (float) (273.16 + 5 * s.i(-14, 9)) : s.f(200, 325); }
float hum(Src& s) { return s.b(0.15) ? 1.0f : (float) s.u(0.01, 1); }
}

PROP(P20, humidity, 400000, 10000000) {
    float T = temp(s), rh = hum(s), p = s.f(30000, 108000);
    LOG(c, "T ", T, " RH ", rh, " p ", p);
    float td = gridpp::dewpoint(T, rh);
    LOG(c, "dew point ", td);
    c.nontrivial(rh < 1);
    REQUIRE(c, td <= T, "dew point ", td, " exceeds the temperature");
    REQUIRE(c, feq(td, dewpoint_ref(T, rh), 2e-3, 0), "dew point ", td, " but the formula gives ", dewpoint_ref(T, rh));
    // higher humidity, higher dew point
    float rh2 = hum(s);
    float td2 = gridpp::dewpoint(T, rh2);
    REQUIRE(c, rh2 < rh || td2 >= td - 1e-3, "dew point ", td2, " at humidity ", rh2);
    // and back
    float back = gridpp::relative_humidity(T, td);
    LOG(c, "humidity ", back);
    REQUIRE(c, back >= 0 && back <= 1, "humidity is ", back);
    double want = T <= td ? 1 : std::min(1.0, ewt(td) / ewt(T));
    REQUIRE(c, feq(back, want, 1e-6, 2e-4), "relative humidity ", back, " but the table gives ", want);
    if(T > 233.15 && td > 223.15) REQUIRE(c, std::fabs(back - rh) <= 0.01 + 0.15 * rh, "humidity ", rh, " becomes ", back, " by way of its dew point ", td);
    float d = (float) std::min((double) T + 3, std::max(200.0, T - s.u(-3, 50)));
    float r = gridpp::relative_humidity(T, d);
    REQUIRE(c, feq(r, T <= d ? 1 : std::min(1.0, ewt(d) / ewt(T)), 1e-6, 2e-4), "relative humidity for dew point ", d, " is ", r);
    if(d <= T && d > 223.15 && T > 233.15) {
        float d2 = gridpp::dewpoint(T, r);
        REQUIRE(c, std::fabs(d2 - d) <= 1.5, "dew point ", d, " becomes ", d2, " by way of its humidity ", r);
    }
    float wb = gridpp::wetbulb(T, p, rh);
    LOG(c, "wet bulb ", wb);
    REQUIRE(c, wb <= T + 2e-3 && wb >= td - 2e-3, "wet bulb ", wb, " is not between the dew point ", td, " and the temperature ", T);
    REQUIRE(c, feq(wb, wetbulb_ref(T, p, rh), 3e-3, 0), "wet bulb ", wb, " but the formula gives ", wetbulb_ref(T, p, rh));
}

PROP(P20, pressure, 400000, 10000000) {
    float z0 = s.f(-400, 5000), z1 = s.f(-400, 5000), p = s.f(50000, 108000), T = s.f(220, 320);
    LOG(c, "elevations ", z0, " ", z1, " pressure ", p, " temperature ", T);
    float q = gridpp::pressure(z0, z1, p, T), back = gridpp::pressure(z1, z0, q, T);
    LOG(c, "reduced ", q, " and back ", back);
    c.nontrivial(z0 != z1);
    REQUIRE(c, feq(q, pressure_ref(z0, z1, p, T), 0, 1e-5), "pressure ", q, " but the formula gives ", pressure_ref(z0, z1, p, T));
    REQUIRE(c, feq(back, p, 0, 1e-5), "the way back gives ", back);
    REQUIRE(c, z1 < z0 || q <= p, "pressure increases with height");
    REQUIRE(c, z1 > z0 || q >= p, "pressure increases with height");
    float same = gridpp::pressure(z0, z0, p, T);
    REQUIRE(c, same == p, "pressure at the same elevation is ", same);

    float n = gridpp::qnh(p, z0);
    REQUIRE(c, feq(n, qnh_ref(p, z0), 0, 5e-6), "QNH ", n, " but the formula gives ", qnh_ref(p, z0));
    REQUIRE(c, feq(gridpp::qnh(p, 0), p, 0, 3e-6), "QNH at zero altitude is ", gridpp::qnh(p, 0));
    REQUIRE(c, z0 <= 0 || n >= p * (1 - 1e-6), "QNH ", n, " is less than the pressure");

    bool with_rh = s.b(), with_td = s.b();
    float rh = with_rh ? hum(s) : NAN, td = with_td ? (float) (T - s.u(0, 20)) : NAN;
    float z = s.b(0.4) ? s.pick<float>({50, 49.99f, 0, 100, 10, -5}) : z0;
    LOG(c, "SLP at ", z, " rh ", rh, " dew point ", td);
    float l = gridpp::sea_level_pressure(p, z, T, rh, td);
    double want = slp_ref(p, z, T, rh, td);
    REQUIRE(c, feq(l, want, 0, 2e-5), "sea-level pressure ", l, " but the formula gives ", want);
    REQUIRE(c, feq(gridpp::sea_level_pressure(p, 0, T, rh, td), p, 0, 1e-6), "sea-level pressure at zero altitude is ", gridpp::sea_level_pressure(p, 0, T, rh, td));
    REQUIRE(c, z <= 0 || l >= p * (1 - 1e-6), "sea-level pressure ", l, " is less than the station pressure");
    c.label(z < 50 ? "low" : "high");
}

PROP(P20, wind, 200000, 5000000) {
    float u = s.f(-60, 60), v = s.f(-60, 60);
    if(s.b(0.1)) u = (float) (s.u(-1, 1) * 1e-6);
    LOG(c, "u ", u, " v ", v);
    float sp = gridpp::wind_speed(u, v), dir = gridpp::wind_direction(u, v);
    LOG(c, "speed ", sp, " direction ", dir);
    c.nontrivial(u != 0 && v != 0);
    REQUIRE(c, feq(sp, std::hypot((double) u, (double) v), 1e-12, 1e-6), "speed is ", sp);
    REQUIRE(c, dir >= 0 && dir <= 360, "direction is ", dir);
    double a = dir * ref::PI / 180;
    // the direction is where the wind comes from, clockwise from north
    REQUIRE(c, feq(-sp * std::sin(a), u, 2e-6 * sp + 1e-12, 0) && feq(-sp * std::cos(a), v, 2e-6 * sp + 1e-12, 0),
            "speed and direction give the components ", -sp * std::sin(a), ", ", -sp * std::cos(a));
    if(u == 0 && v < 0) REQUIRE(c, dir == 0 || dir == 360, "wind from the north has direction ", dir);
}

PROP(P20, arrays, 30000, 1000000) {
    int n = gen::size(s, 0, 12, 300);
    double pm = gen::pmiss(s);
    vec T(n), rh(n), td(n), p(n), z(n), z1(n), u(n), v(n);
    auto m = [&](float x) { return s.b(pm) ? (float) NAN : x; };
    for(int i = 0; i < n; i++) {
        T[i] = m(temp(s)); rh[i] = m(hum(s)); td[i] = m(temp(s)); p[i] = m(s.f(50000, 108000)); z[i] = m(s.f(-100, 3000)); z1[i] = m(s.f(-100, 3000));
        u[i] = m(s.f(-30, 30)); v[i] = m(s.f(-30, 30));
    }
    // conditions that are the same for many elements
    for(vec* a : {&T, &rh, &td, &p, &z, &z1, &u, &v}) if(s.b(0.4)) for(int i = 1; i < n; i++) if(s.b(0.8)) (*a)[i] = (*a)[i - 1];
    LOG(c, "T ", T, " rh ", rh, " td ", td, " p ", p, " z ", z, " z1 ", z1, " u ", u, " v ", v);
    c.nontrivial(n > 1);
    auto check = [&](const char* what, const vec& got, std::function<float(int)> f, std::function<bool(int)> valid) {
        REQUIRE(c, (int) got.size() == n, what, ": ", got.size(), " elements for ", n);
        for(int i = 0; i < n; i++) {
            float w = f(i);
            REQUIRE(c, feq(got[i], w, 0, 1e-6), what, ": element ", i, " is ", got[i], " but the scalar version gives ", w);
            REQUIRE(c, valid(i) == ::ref::ok(w), what, ": element ", i, " is ", w, " for ", valid(i) ? "valid" : "missing", " input");
        }
    };
    auto ok = [](float x) { return ref::ok(x); };
    check("dewpoint", gridpp::dewpoint(T, rh), [&](int i) { return gridpp::dewpoint(T[i], rh[i]); }, [&](int i) { return ok(T[i]) && ok(rh[i]); });
    check("relative_humidity", gridpp::relative_humidity(T, td), [&](int i) { return gridpp::relative_humidity(T[i], td[i]); }, [&](int i) { return ok(T[i]) && ok(td[i]); });
    check("wetbulb", gridpp::wetbulb(T, p, rh), [&](int i) { return gridpp::wetbulb(T[i], p[i], rh[i]); }, [&](int i) { return ok(T[i]) && ok(p[i]) && ok(rh[i]); });
    check("pressure", gridpp::pressure(z, z1, p, T), [&](int i) { return gridpp::pressure(z[i], z1[i], p[i], T[i]); }, [&](int i) { return ok(T[i]) && ok(p[i]) && ok(z[i]) && ok(z1[i]); });
    check("qnh", gridpp::qnh(p, z), [&](int i) { return gridpp::qnh(p[i], z[i]); }, [&](int i) { return ok(p[i]) && ok(z[i]); });
    check("wind_speed", gridpp::wind_speed(u, v), [&](int i) { return gridpp::wind_speed(u[i], v[i]); }, [&](int i) { return ok(u[i]) && ok(v[i]); });
    check("wind_direction", gridpp::wind_direction(u, v), [&](int i) { return gridpp::wind_direction(u[i], v[i]); }, [&](int i) { return ok(u[i]) && ok(v[i]); });
    // sea-level pressure needs altitude and temperature: without, it is refused as a whole
    vec d(n);
    for(int i = 0; i < n; i++) d[i] = ref::ok(T[i]) ? T[i] - std::fabs(u[i]) : (float) NAN;
    bool refuse = false;
    for(int i = 0; i < n; i++) refuse |= !ok(z[i]) || !ok(T[i]);
    bool thrown = false;
    try {
        vec l = gridpp::sea_level_pressure(p, z, T, rh, d);
        if(!refuse) check("sea_level_pressure", l, [&](int i) { return gridpp::sea_level_pressure(p[i], z[i], T[i], rh[i], d[i]); }, [&](int i) { return ok(p[i]); });
    }
    catch(const std::runtime_error& e) { thrown = true; }
    REQUIRE(c, thrown == refuse, thrown ? "sea-level pressure was refused" : "sea-level pressure without altitude or temperature was accepted");
}

PROP(P20, refused, 4000, 100000) {
    int n = s.i(0, 5), d = s.pick<int>({1, -1, 3}), k = s.draw(19);
    if(n + d < 0) d = 1;
    vec a(n, 280), b(n + d, 280);
    LOG(c, "kind ", k, " sizes ", n, " ", n + d);
    c.nontrivial();
    bool thrown = false;
    try {
        switch(k) {
            case 0: gridpp::dewpoint(a, b); break;
            case 1: gridpp::relative_humidity(a, b); break;
            case 2: gridpp::wetbulb(a, b, a); break;
            case 3: gridpp::wetbulb(a, a, b); break;
            case 4: gridpp::pressure(a, b, a, a); break;
            case 5: gridpp::pressure(a, a, b, a); break;
            case 6: gridpp::pressure(a, a, a, b); break;
            case 7: gridpp::sea_level_pressure(a, b, a, a, a); break;
            case 8: gridpp::sea_level_pressure(a, a, b, a, a); break;
            case 9: gridpp::sea_level_pressure(a, a, a, b, a); break;
            case 10: gridpp::sea_level_pressure(a, a, a, a, b); break;
            case 11: gridpp::qnh(a, b); break;
            case 12: gridpp::wind_speed(a, b); break;
            case 13: gridpp::wind_direction(a, b); break;
            case 14: gridpp::sea_level_pressure(b, a, a, a, a); break;
            case 15: gridpp::pressure(b, a, a, a); break;
            case 16: gridpp::wetbulb(b, a, a); break;
            case 17: gridpp::wind_speed(b, a); break;
            case 18: gridpp::qnh(b, a); break;
        }
    }
    catch(const std::invalid_argument& e) { thrown = true; }
    REQUIRE(c, thrown, "arrays of different sizes were accepted");
    // unphysical values
    float ps = 1e5, z = 10, T = 280, rh = 0.5, td = 270;
    int w = s.draw(7);
    if(w == 0) ps = -1;
    if(w == 1) T = -1;
    if(w == 2) rh = -0.1;
    if(w == 3) rh = 1.1;
    if(w == 4) td = -1;
    if(w == 5) T = NAN;
    if(w == 6) z = NAN;
    for(int v = 0; v < 2; v++) {
        thrown = false;
        try { v ? (void) gridpp::sea_level_pressure(vec({1e5f, ps}), vec({10, z}), vec({280, T}), vec({0.5f, rh}), vec({270, td})) : (void) gridpp::sea_level_pressure(ps, z, T, rh, td); }
        catch(const std::runtime_error& e) { thrown = true; }
        REQUIRE(c, thrown, "unphysical value ", w, " was accepted", v ? " (array version)" : "");
    }
}
