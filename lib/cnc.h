// NetCDF files as data: a model of a file, written and read with the NetCDF C library only
#pragma once
#include "cgen.h"
#include <netcdf.h>
#include <map>

namespace nc {
struct Att { std::string name; int type; std::string text; std::vector<double> num; };
struct Dim { std::string name; size_t len; bool unlimited; };
struct Var {
    std::string name;
    int type;
    std::vector<int> dims;
    std::vector<Att> atts;
    std::vector<double> data;   // as stored (packed)
};
struct File {
    int format = 0;
    std::vector<Dim> dims;
    std::vector<Var> vars;
    std::vector<Att> atts;
    int dim(const std::string& n) const { for(size_t k = 0; k < dims.size(); k++) if(dims[k].name == n) return k; return -1; }
    int var(const std::string& n) const { for(size_t k = 0; k < vars.size(); k++) if(vars[k].name == n) return k; return -1; }
    size_t size(const Var& v) const { size_t n = 1; for(int d : v.dims) n *= dims[d].len; return n; }
};
inline const Att* att(const std::vector<Att>& a, const std::string& n) { for(auto& e : a) if(e.name == n) return &e; return nullptr; }
inline std::string text(const std::vector<Att>& a, const std::string& n) { const Att* e = att(a, n); return e && (e->type == NC_CHAR || e->type == NC_STRING) ? e->text : ""; }
inline void put(std::vector<Att>& a, const std::string& n, const std::string& v) {
    for(auto& e : a) if(e.name == n) { e.type = NC_CHAR; e.text = v; e.num.clear(); return; }
    a.push_back(Att{n, NC_CHAR, v, {}});
}
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same(const Att& a, const Att& b) {
    if(a.type != b.type || a.text != b.text || a.num.size() != b.num.size()) return false;
    for(size_t k = 0; k < a.num.size(); k++) if(!same(a.num[k], b.num[k])) return false;
    return true;
}
inline std::string show(const Att& a) { return a.type == NC_CHAR || a.type == NC_STRING ? cat(a.name, "='", a.text, "'(", a.type, ")") : cat(a.name, "=", a.num, "(", a.type, ")"); }
inline std::string show(const std::vector<Att>& as) { std::string o; for(auto& a : as) o += " " + show(a); return o; }
inline std::string show(const File& f) {
    std::string o = cat("format ", f.format, " dims");
    for(auto& d : f.dims) o += cat(" ", d.name, ":", d.len, d.unlimited ? "*" : "");
    o += " global" + show(f.atts);
    for(auto& v : f.vars) {
        o += cat("\n    ", v.name, " type ", v.type, " (");
        for(int d : v.dims) o += f.dims[d].name + " ";
        o += ")" + show(v.atts) + cat(" ", v.data);
    }
    return o;
}
inline void must(int status, const char* what) { if(status != NC_NOERR) throw std::runtime_error(cat("the NetCDF library refuses: ", what, ": ", nc_strerror(status))); }
#define NCM(x) nc::must((x), #x)

inline void put_att(int id, int var, const Att& a) {
    const char* n = a.name.c_str();
    if(a.type == NC_CHAR) NCM(nc_put_att_text(id, var, n, a.text.size(), a.text.c_str()));
    else if(a.type == NC_STRING) { const char* p = a.text.c_str(); NCM(nc_put_att_string(id, var, n, 1, &p)); }
    else NCM(nc_put_att_double(id, var, n, a.type, a.num.size(), a.num.data()));
}
inline void write(const std::string& path, const File& f) {
    int id;
    NCM(nc_create(path.c_str(), NC_CLOBBER | f.format, &id));
    for(auto& d : f.dims) { int k; NCM(nc_def_dim(id, d.name.c_str(), d.unlimited ? NC_UNLIMITED : d.len, &k)); }
    for(auto& a : f.atts) put_att(id, NC_GLOBAL, a);
    for(auto& v : f.vars) {
        int k;
        NCM(nc_def_var(id, v.name.c_str(), v.type, v.dims.size(), v.dims.data(), &k));
        for(auto& a : v.atts) put_att(id, k, a);
    }
    NCM(nc_enddef(id));
    for(size_t k = 0; k < f.vars.size(); k++) {
        const Var& v = f.vars[k];
        std::vector<size_t> start(v.dims.size() + 1, 0), count(v.dims.size() + 1, 1);
        for(size_t d = 0; d < v.dims.size(); d++) count[d] = f.dims[v.dims[d]].len;
        if(v.type == NC_CHAR) {
            std::string t;
            for(double x : v.data) t += (char) x;
            NCM(nc_put_vara_text(id, k, start.data(), count.data(), t.data()));
        }
        else NCM(nc_put_vara_double(id, k, start.data(), count.data(), v.data.data()));
    }
    NCM(nc_close(id));
}
inline Att get_att(int id, int var, const std::string& name) {
    Att a;
    a.name = name;
    size_t len;
    nc_type t;
    NCM(nc_inq_att(id, var, name.c_str(), &t, &len));
    a.type = t;
    if(t == NC_CHAR) { a.text.assign(len, ' '); if(len) NCM(nc_get_att_text(id, var, name.c_str(), &a.text[0])); }
    else if(t == NC_STRING) {
        std::vector<char*> p(len);
        NCM(nc_get_att_string(id, var, name.c_str(), p.data()));
        for(char* q : p) a.text += q ? q : "";
        nc_free_string(len, p.data());
    }
    else { a.num.resize(len); NCM(nc_get_att_double(id, var, name.c_str(), a.num.data())); }
    return a;
}
inline File read(const std::string& path) {
    File f;
    int id, nd, nv, na, ud;
    NCM(nc_open(path.c_str(), NC_NOWRITE, &id));
    NCM(nc_inq(id, &nd, &nv, &na, &ud));
    int nu = 0;
    std::vector<int> un(nd + 1);
    nc_inq_unlimdims(id, &nu, un.data());
    char name[NC_MAX_NAME + 1];
    for(int d = 0; d < nd; d++) {
        size_t len;
        NCM(nc_inq_dim(id, d, name, &len));
        bool u = false;
        for(int k = 0; k < nu; k++) u = u || un[k] == d;
        f.dims.push_back(Dim{name, len, u});
    }
    for(int a = 0; a < na; a++) { NCM(nc_inq_attname(id, NC_GLOBAL, a, name)); f.atts.push_back(get_att(id, NC_GLOBAL, name)); }
    for(int v = 0; v < nv; v++) {
        Var w;
        nc_type t;
        int n, k, ids[NC_MAX_VAR_DIMS];
        NCM(nc_inq_var(id, v, name, &t, &n, ids, &k));
        w.name = name;
        w.type = t;
        w.dims.assign(ids, ids + n);
        for(int a = 0; a < k; a++) { NCM(nc_inq_attname(id, v, a, name)); w.atts.push_back(get_att(id, v, name)); }
        std::vector<size_t> start(n + 1, 0), count(n + 1, 1);
        for(int d = 0; d < n; d++) count[d] = f.dims[ids[d]].len;
        size_t size = f.size(w);
        w.data.resize(size);
        if(t == NC_CHAR) {
            std::vector<char> b(size + 1);
            if(size) NCM(nc_get_vara_text(id, v, start.data(), count.data(), b.data()));
            for(size_t i = 0; i < size; i++) w.data[i] = b[i];
        }
        else if(size) NCM(nc_get_vara_double(id, v, start.data(), count.data(), w.data.data()));
        f.vars.push_back(w);
    }
    NCM(nc_close(id));
    return f;
}
// The number that stands for missing values in a variable
inline double fill(const Var& v) {
    const Att* a = att(v.atts, "_FillValue");
    if(a && a->num.size()) return a->num[0];
    switch(v.type) {
        case NC_SHORT: return NC_FILL_SHORT;
        case NC_INT: return NC_FILL_INT;
        case NC_INT64: return NC_FILL_INT64;
        case NC_DOUBLE: return NC_FILL_DOUBLE;
        default: return NC_FILL_FLOAT;
    }
}
inline double number(const Var& v, const std::string& n, double def) { const Att* a = att(v.atts, n); return a && a->num.size() ? a->num[0] : def; }
// Visits every element of a variable with its index along each dimension
template<class F> inline void each(const File& f, const Var& v, F fn) {
    std::vector<int> ix(v.dims.size(), 0);
    size_t n = f.size(v);
    for(size_t k = 0; k < n; k++) {
        fn(k, ix);
        for(int d = (int) ix.size() - 1; d >= 0; d--) { if(++ix[d] < (int) f.dims[v.dims[d]].len) break; ix[d] = 0; }
    }
}
}
