// C01: NetCDF files read and written by the command-line program
#include "cmade.h"

PROP(C01, files, 6000, 300000) {
    Made m = make(s);
    // The case can be given up at any draw
    struct Path {
        std::string name;
        Path(const std::string& n) : name(n) { unlink(n.c_str()); }
        ~Path() { unlink(name.c_str()); }
    } scratch(cg::scratch("c01.nc"));
    const std::string& path = scratch.name;
    nc::write(path, m.f);
    LOG(c, "options '", m.options, "' ", nc::show(m.f));
    int levels = m.f.dim("height") >= 0 ? m.f.dims[m.f.dim("height")].len : 1;
    c.nontrivial(m.Y * m.X > 1 && (m.T > 1 || m.E > 1));
    {   // Reading
        FileNetcdf f(path, Options(m.options), true);
        check_open(c, m, f);
        for(int k = s.i(1, 4); k > 0; k--) {
            const nc::Var& v = m.f.vars[m.f.var(s.pick(m.fields))];
            int t = s.draw(m.T), level = s.b(0.3) ? s.draw(levels) : -1;
            if(level > 0) f.clear();    // fields of one name are shared
            bool in;
            vec3c want = field(m, v, t, level, in);
            check_field(c, m, v.name, t, want, cg::get(f, level >= 0 ? Variable(v.name, "", "", level) : Variable(v.name), t), nc::number(v, "scale_factor", 1), nc::number(v, "add_offset", 0));
            if(level > 0) { c.label("level"); f.clear(); }
        }
    }
    nc::File before = nc::read(path);
    check_disk(c, m.f, before, Plan(), nullptr);
    // Rounds of opening, changing fields, writing some variables
    int rounds = s.i(1, 3);
    for(int r = 0; r < rounds; r++) {
        std::unique_ptr<FileNetcdf> f(new FileNetcdf(path, Options(m.options), false));
        check_open(c, m, *f);
        std::map<std::string, std::vector<vec3c> > cache;      // fields as the program has them
        std::map<std::string, int> level;
        std::map<std::string, std::vector<char> > touched;
        for(auto& n : m.fields) level[n] = s.b(0.2) ? s.draw(levels) : -1;
        auto load = [&](const std::string& n) {
            if(cache.count(n)) return;
            int k = m.f.var(n);
            for(int t = 0; t < m.T; t++) { bool in; cache[n].push_back(k >= 0 ? field(m, m.f.vars[k], t, level[n], in) : vec3c(m.Y, vec2(m.X, std::vector<float>(m.E, cg::MV)))); }
            touched[n].assign(m.T, 0);
        };
        std::map<std::string, Variable> variable;
        for(auto& n : m.fields) {
            Variable v;
            f->getVariable(n, v);
            if(level[n] >= 0) v.level(level[n]);
            if(s.b(0.1)) v.units("new units");
            variable[n] = v;
        }
        std::vector<std::string> all = m.fields;
        if(s.b(0.4)) {
            std::string n = cat("new", r);
            all.push_back(n);
            level[n] = -1;
            variable[n] = Variable(n, s.b() ? "kg" : "", s.b() ? "new_name" : "");
        }
        int written = s.i(1, 2);
        Plan plan;
        for(int w = 0; w < written; w++) {
            std::set<std::string> changed;
            for(int k = s.i(0, 4); k > 0; k--) {
                std::string n = s.pick(all);
                int t = s.draw(m.T);
                load(n);
                int kind = s.draw(4);
                double lo = -30, hi = 200;
                int q = m.f.var(n);
                double scale = q >= 0 ? nc::number(m.f.vars[q], "scale_factor", 1) : 1, offset = q >= 0 ? nc::number(m.f.vars[q], "add_offset", 0) : 0;
                bool ints = q >= 0 && (m.f.vars[q].type == NC_SHORT || m.f.vars[q].type == NC_INT);
                if(kind == 0) { check_field(c, m, n, t, cache[n][t], cg::get(*f, variable[n], t), scale, offset); LOG(c, "  read ", n, " ", t); }
                else {
                    vec3c v = cache[n][t];
                    for(auto& a : v) for(auto& b : a) for(float& e : b) if(kind != 1 || s.b(0.4)) {
                        e = s.b(0.15) ? (s.b(0.7) ? cg::MV : NAN) : ints ? (float) (s.real(-300, 300) * scale + offset) : s.f(lo, hi);
                        // Not a value that stands for missing, and in the range of the storage type
                        if(cg::ok(e) && q >= 0 && std::fabs(e - (nc::fill(m.f.vars[q]) * scale + offset)) <= std::fabs(scale) + 1) e += 3 * std::fabs(scale) + 5;
                    }
                    FieldPtr p = kind == 3 ? FieldPtr(new Field(m.Y, m.X, m.E)) : f->getField(variable[n], t);
                    set(p, v);
                    if(kind == 3) f->addField(p, variable[n], t);
                    cache[n][t] = v;
                    touched[n][t] = 1;
                    LOG(c, "  set ", n, " level ", level[n], " time ", t, kind == 3 ? " (added) " : " ", v);
                }
            }
            std::vector<Variable> list;
            std::vector<std::string> listed;
            for(auto& n : all) if(s.b(0.6)) { list.push_back(variable[n]); listed.push_back(n); load(n); }
            if(s.b(0.5)) for(size_t k = 0; k + 1 < list.size(); k++) { size_t o = k + s.draw(list.size() - k); std::swap(list[k], list[o]); std::swap(listed[k], listed[o]); }
            std::string message = s.b() ? "" : "message " + cg::word(s, 4, "abc");
            LOG(c, "  write ", listed, " '", message, "'");
            f->write(list, message);
            nc::File& M = m.f;
            expect_write(m, listed, variable, level, cache, touched, plan);
            // The library must see the file only after it is closed
            if(w + 1 == written) f.reset();
            if(w + 1 < written) {
                // The values of this write become the model without being looked at yet
                for(auto& p : plan) { nc::Var& v = M.vars[M.var(p.first)]; for(size_t k = 0; k < v.data.size(); k++) if(p.second[k].changed) {
                    double x = p.second[k].value;
                    if((v.type == NC_SHORT || v.type == NC_INT) && x != nc::fill(v)) x = std::floor(x + 0.5);
                    v.data[k] = x;
                } }
                for(auto& n : listed) for(auto& t : touched[n]) t = 1;
                continue;
            }
            nc::File got = nc::read(path);
            check_disk(c, M, got, plan, &message);
            // From here on, the model is what is in the file
            nc::File keep = M;
            for(auto& v : keep.vars) v.data = got.vars[got.var(v.name)].data;
            for(auto& a : keep.atts) if(a.name == "history") { a = *nc::att(got.atts, "history"); }
            M = keep;
        }
        // Reading the file again gives the fields that were written
        FileNetcdf again(path, Options(m.options), true);
        check_open(c, m, again);
        for(auto& n : m.fields) {
            const nc::Var& v = m.f.vars[m.f.var(n)];
            int t = s.draw(m.T);
            bool in;
            check_field(c, m, n, t, field(m, v, t, -1, in), cg::get(again, Variable(n), t), nc::number(v, "scale_factor", 1), nc::number(v, "add_offset", 0));
        }
    }
}
