// P15: ensemble optimal interpolation
#include "ens_ref.h"

PROP(P15, equations, 150000, 3000000) {
    ens::Case d = ens::setup(s);
    LOG(c, ens::show(d));
    ens::Ref r = ens::reference(d);
    vec2 a = ens::run(d);
    REQUIRE(c, (int) a.size() == d.k.nY(), "number of locations");
    bool some = false, used;
    std::vector<char> is_used(d.nE);
    for(int e : r.valid) is_used[e] = 1;
    for(int y = 0; y < d.k.nY(); y++) {
        REQUIRE(c, (int) a[y].size() == d.nE, "number of members");
        for(int e = 0; e < d.nE; e++) if(!is_used[e]) REQUIRE(c, pbt::same(a[y][e], d.bg[y][e]), "unused member ", e, " at location ", y, " changed from ", d.bg[y][e], " to ", a[y][e]);
        if(r.sel[y].sure && r.sel[y].idx.empty()) REQUIRE(c, gen::same_vec(a[y], d.bg[y]), "location ", y, " without observations changed to ", str(a[y]));
        if(!r.ok[y]) continue;
        for(size_t q = 0; q < r.valid.size(); q++)
            REQUIRE(c, feq(a[y][r.valid[q]], r.a[y][q], r.tol[y], 3e-6), "member ", r.valid[q], " at location ", y, " is ", a[y][r.valid[q]], " but the equations give ", r.a[y][q], " (tolerance ", r.tol[y], ") from observations ", str(r.sel[y].idx));
        some |= r.sel[y].idx.size() >= 2 && r.valid.size() >= 2;
    }
    c.nontrivial(some);
    c.label(ens::name(d.method));
    if((int) r.valid.size() < d.nE) c.label("missing-members");
    if(d.k.nS() > d.k.nY()) c.label("more-observations-than-locations");
}
PROP(P15, relations, 80000, 1600000) {
    ens::Case d = ens::setup(s);
    LOG(c, ens::show(d));
    ens::Ref r = ens::reference(d);
    vec2 a = ens::run(d);
    if(d.k.is_grid) {
        vec2 g = ens::run_grid(d);
        REQUIRE(c, gen::same_vec(g, a), "grid ", str(g), " points ", str(a));
        c.label("grid");
    }
    // permuted observations and members
    int nS = d.k.nS();
    std::vector<int> po, pe;
    for(int i = 0; i < nS; i++) po.push_back(i);
    for(int e = 0; e < d.nE; e++) pe.push_back(e);
    for(int i = nS - 1; i > 0; i--) std::swap(po[i], po[s.i(0, i)]);
    for(int i = d.nE - 1; i > 0; i--) std::swap(pe[i], pe[s.i(0, i)]);
    LOG(c, "observations ", str(po), " members ", str(pe));
    ens::Case p = d;
    for(int i = 0; i < nS; i++) {
        int q = po[i];
        p.obs[i] = d.obs[q]; p.sigma[i] = d.sigma[q];
        p.k.o.lats[i] = d.k.o.lats[q]; p.k.o.lons[i] = d.k.o.lons[q];
        if(!d.k.o.elevs.empty()) p.k.o.elevs[i] = d.k.o.elevs[q];
        if(!d.k.o.lafs.empty()) p.k.o.lafs[i] = d.k.o.lafs[q];
        for(int e = 0; e < d.nE; e++) { p.pobs[i][e] = d.pobs[q][pe[e]]; p.pbg[i][e] = d.pbg[q][pe[e]]; p.pbgc[i][e] = d.pbgc[q][pe[e]]; }
    }
    for(int y = 0; y < d.k.nY(); y++) for(int e = 0; e < d.nE; e++) { p.bg[y][e] = d.bg[y][pe[e]]; p.bgc[y][e] = d.bgc[y][pe[e]]; }
    vec2 b = ens::run(p);
    bool some = false;
    for(int y = 0; y < d.k.nY(); y++) {
        if(!r.ok[y]) continue;
        for(int e = 0; e < d.nE; e++) REQUIRE(c, feq(b[y][e], a[y][pe[e]], 2 * r.tol[y], 6e-6), "location ", y, " member ", pe[e], " is ", a[y][pe[e]], " but permuted ", b[y][e]);
        some |= r.sel[y].idx.size() >= 2 && r.valid.size() >= 2;
    }
    c.nontrivial(some);
    c.label(ens::name(d.method));
}
