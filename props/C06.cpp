// C06: the command-line program from the command line to the files
#include "cmade.h"
#include "Calibrator/Calibrator.h"
#include "Downscaler/Downscaler.h"
#include "ParameterFile/ParameterFile.h"
#include <poll.h>
#include <spawn.h>
#include <sys/wait.h>

extern char** environ;
namespace {
typedef std::vector<std::string> Words;
std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.9g", v); return b; }

// ---- Running the program ----
std::string program() {
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b);
    std::string p(b, n > 0 ? n : 0);
    size_t slash = p.rfind('/'), us = p.rfind('_');
    return p.substr(0, slash + 1) + "gridpp" + p.substr(us);
}
struct Ran { char how; int status; std::string text; };     // 'r': returned status, 'e': stopped with an error message, 'c': died otherwise, 'h': did not end
Ran launch(const Words& args) {
    static const std::string exe = program();
    static bool once = false;
    if(!once) { struct rlimit none = {0, 0}; setrlimit(RLIMIT_CORE, &none); once = true; }
    std::vector<char*> argv;
    argv.push_back((char*) exe.c_str());
    for(auto& a : args) argv.push_back((char*) a.c_str());
    argv.push_back(nullptr);
    int p[2];
    if(pipe2(p, O_CLOEXEC)) throw std::runtime_error("no pipe");
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, p[1], 1);
    posix_spawn_file_actions_adddup2(&fa, p[1], 2);
    pid_t pid;
    std::vector<char*> env;
    for(char** e = environ; *e; e++) if(strncmp(*e, "OMP_NUM_THREADS=", 16)) env.push_back(*e);
    env.push_back((char*) "OMP_NUM_THREADS=2");
    env.push_back(nullptr);
    int rc = posix_spawn(&pid, exe.c_str(), &fa, nullptr, argv.data(), env.data());
    posix_spawn_file_actions_destroy(&fa);
    close(p[1]);
    if(rc) { close(p[0]); throw std::runtime_error("cannot start " + exe); }
    Ran r;
    r.how = 'r';
    char b[8192];
    for(;;) {
        struct pollfd f = {p[0], POLLIN, 0};
        int k = poll(&f, 1, 60000);
        if(k < 0 && errno == EINTR) continue;
        if(k == 0 || r.text.size() > (1 << 22)) { r.how = 'h'; kill(pid, SIGKILL); break; }
        ssize_t n = read(p[0], b, sizeof b);
        if(n < 0 && errno == EINTR) continue;
        if(n <= 0) break;
        r.text.append(b, n);
    }
    close(p[0]);
    int status = 0;
    while(waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    r.status = WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
    if(r.how == 'r' && WIFSIGNALED(status)) {
        bool said = r.text.find("Error: ") != std::string::npos;
        r.how = WTERMSIG(status) == SIGABRT && said ? 'e' : 'c';
    }
    return r;
}
std::string tail(const std::string& t) { return t.size() < 1500 ? t : t.substr(t.size() - 1500); }

// ---- What a command says ----
class PMem : public ParameterFile {
    public:
        PMem() : ParameterFile(Options()) {}
        bool isFixedSize() const { return true; }
        bool isReadable() const { return true; }
        std::string name() const { return "memory"; }
};
struct Par {
    std::string path, options;
    bool spatial = false;
    std::vector<std::vector<float> > locs;                  // lat, lon, elev
    std::vector<std::vector<std::vector<float> > > sets;    // [location][time]
};
struct Method { std::string name, options; std::shared_ptr<Par> par; };
struct Item {
    std::string name, options;          // -v
    std::string input, input_options;   // -vi; empty: none
    bool input_first = false, write = true;
    bool has_down = false;
    Method down, first;                 // first: another -d before the one that counts
    std::vector<Method> cals;
    size_t down_at = 0;                 // before which of the calibrators -d is written
};
struct Alias { std::string name, variable; int level; std::string options; };
struct Pair { Made in, out; std::string in_path, out_path; };
struct Paths {
    std::vector<std::string> names;
    std::string add(const std::string& n) { names.push_back(cg::scratch(n)); unlink(names.back().c_str()); return names.back(); }
    ~Paths() { for(auto& n : names) unlink(n.c_str()); }
};
struct Command {
    Paths paths;
    std::vector<Pair> pairs;
    bool in_place = false;
    std::vector<Alias> aliases;
    std::vector<Item> items;
    double lat0, lon0, d;
    int T = 1, E = 1;
    std::vector<std::string> known;     // variables that the output has or gets
    std::set<std::string> partial;      // variables that only some of the files have
    const std::string& in_options() const { return pairs[0].in.options; }
    const std::string& out_options() const { return pairs[0].out.options; }
};
Words split(Src& s, const std::string& options, bool joined = true) {
    std::istringstream is(options);
    Words w;
    std::string o, all;
    while(is >> o) { w.push_back(o); all += (all.empty() ? "" : " ") + o; }
    if(joined && w.size() > 1 && s.b(0.2)) return Words(1, all);
    return w;
}
void append(Words& w, const Words& o) { w.insert(w.end(), o.begin(), o.end()); }
void shuffled(Src& s, std::string& options) {
    Words w = split(s, options, false);
    if(s.b(0.3)) for(size_t k = 0; k + 1 < w.size(); k++) std::swap(w[k], w[k + s.draw(w.size() - k)]);
    options.clear();
    for(auto& o : w) options += " " + o;
}
Words words(Src& s, const Command& k) {
    Words w;
    std::string in, out;
    for(auto& p : k.pairs) { in += (in.empty() ? "" : ",") + p.in_path; out += (out.empty() ? "" : ",") + p.out_path; }
    w.push_back(in);
    append(w, split(s, k.in_options()));
    if(!k.in_place || s.b(0.3)) {
        w.push_back(out);
        append(w, split(s, k.in_place ? k.in_options() : k.out_options()));
    }
    for(auto& a : k.aliases) {
        w.push_back("-va"); w.push_back(a.name);
        append(w, split(s, cat("name=", a.variable, a.level >= 0 ? cat(" level=", a.level) : "", a.options)));
    }
    for(auto& i : k.items) {
        Words v, vi;
        v.push_back("-v"); v.push_back(i.name);
        append(v, split(s, i.options));
        if(!i.input.empty()) { vi.push_back("-vi"); vi.push_back(i.input); append(vi, split(s, i.input_options)); }
        append(w, i.input_first ? vi : v);
        append(w, i.input_first ? v : vi);
        for(size_t c = 0; c <= i.cals.size(); c++) {
            if(i.has_down && c == i.down_at) for(const Method* d : {&i.first, &i.down}) if(!d->name.empty()) {
                w.push_back("-d"); w.push_back(d->name); append(w, split(s, d->options));
                if(d->par) { w.push_back("-p"); w.push_back(d->par->path); append(w, split(s, d->par->options)); }
            }
            if(c == i.cals.size()) break;
            w.push_back("-c"); w.push_back(i.cals[c].name);
            append(w, split(s, i.cals[c].options));
            if(i.cals[c].par) { w.push_back("-p"); w.push_back(i.cals[c].par->path); append(w, split(s, i.cals[c].par->options)); }
        }
    }
    return w;
}
// ---- Generators ----
void write_par(const Par& p) {
    std::string t = "";
    bool timed = p.sets[0].size() > 1 || !p.spatial;
    if(timed) t += "time ";
    if(p.spatial) t += "lat lon elev ";
    for(size_t k = 0; k < p.sets[0][0].size(); k++) t += cat(k ? " " : "", "p", k);
    t += "\n";
    for(size_t l = 0; l < p.sets.size(); l++) for(size_t q = 0; q < p.sets[l].size(); q++) {
        if(timed) t += cat(q, " ");
        if(p.spatial) for(float f : p.locs[l]) t += num(f) + " ";
        for(size_t i = 0; i < p.sets[l][q].size(); i++) t += (i ? " " : "") + num(p.sets[l][q][i]);
        t += "\n";
    }
    cg::write_file(p.path, t);
}
std::shared_ptr<Par> parameters(Src& s, Command& k, std::function<std::vector<float>()> make, int spatial = -1) {
    std::shared_ptr<Par> p(new Par);
    p->spatial = spatial < 0 ? s.b() : spatial;
    int nt = s.b(0.3) ? k.T : 1, nl = p->spatial ? s.i(1, 3) : 1;
    if(nt == 1 && !p->spatial && s.b()) nt = k.T;
    for(int l = 0; l < nl; l++) {
        std::vector<float> at;
        at.push_back(cg::clamp_lat(k.lat0 + k.d * s.u(-1, 1))); at.push_back(k.lon0 + k.d * s.u(-1, 1)); at.push_back(s.f(0, 500));
        bool old = false;
        for(auto& o : p->locs) old = old || (o[0] == at[0] && o[1] == at[1]);
        if(old) continue;
        p->locs.push_back(at);
        std::vector<std::vector<float> > v;
        for(int t = 0; t < nt; t++) v.push_back(make());
        p->sets.push_back(v);
    }
    p->path = k.paths.add(cat("c06-p", k.paths.names.size(), ".txt"));
    p->options = " type=text";
    write_par(*p);
    return p;
}
std::string stat(Src& s) {
    static const char* n[] = {"mean", "min", "max", "median", "std", "sum", "quantile"};
    int i = s.draw(7);
    return cat(" stat=", n[i], i == 6 ? " quantile=" + num(s.pick<double>({0, 0.25, 0.5, 1})) : "");
}
Method calibrator(Src& s, Command& k) {
    Method m;
    switch(s.draw(15)) {
        case 0: { m.name = "qc"; int lo = s.i(-20, 100); if(s.b(0.8)) m.options += cat(" min=", lo); if(s.b(0.8)) m.options += cat(" max=", lo + s.i(0, 100)); break; }
        case 1: m.name = "sort"; break;
        case 2: m.name = "accumulate"; break;
        case 3: m.name = "deaccumulate"; if(s.b()) m.options = cat(" window=", s.i(1, 2)); break;
        case 4: m.name = "neighbourhood"; if(s.b(0.8)) m.options = cat(" radius=", s.i(0, 2)); if(s.b(0.7)) m.options += stat(s); if(s.b(0.3)) m.options += cat(" fast=", s.i(0, 1)); break;
        case 5: m.name = "window"; if(s.b(0.8)) m.options = cat(" length=", s.i(1, 4)); if(s.b(0.7)) m.options += stat(s); if(s.b(0.3)) m.options += " before=1"; break;
        case 6: { m.name = "threshold"; int a = s.i(-20, 150); m.options = cat(" thresholds=", a, ",", a + 50, " values=", s.i(0, 5), ",", s.i(6, 9), ",", s.i(10, 20)); break; }
        case 7: m.name = "regression"; m.par = parameters(s, k, [&]() { return std::vector<float>{s.f(-5, 5), s.f(0.5, 1.5)}; }); break;
        case 8: m.name = "override"; if(s.b(0.7)) m.options = cat(" radius=", s.i(0, 2)); m.par = parameters(s, k, [&]() { return std::vector<float>{s.f(0, 100)}; }, 1); break;
        case 9: m.name = "mask"; if(s.b(0.7)) m.options = cat(" keep=", s.i(0, 1)); m.par = parameters(s, k, [&]() { return std::vector<float>{(float) (k.d * 111000 * s.u(0, 1))}; }, 1); break;
        case 10: m.name = "cloud"; m.options = " precipVariable=" + s.pick(k.known); if(s.b()) m.options += cat(" value=", s.i(1, 80)); break;
        case 11: m.name = "coastal"; if(s.b(0.7)) m.options = cat(" searchRadius=", s.i(0, 2)); m.par = parameters(s, k, [&]() { return std::vector<float>{s.f(-1, 1), s.f(0.5, 1.5), s.f(-1, 1)}; }, 1); break;
        case 12: m.name = "diagnoseWind"; m.options = cat(" compute=speed x=", s.pick(k.known), " y=", s.pick(k.known)); break;
        case 13: m.name = "qnh"; m.options = " pressureVariable=" + s.pick(k.known); break;
        default: m.name = "windDirection"; m.options = " directionVariable=" + s.pick(k.known); m.par = parameters(s, k, [&]() { std::vector<float> v; for(int i = 0; i < 9; i++) v.push_back(s.f(0, 1)); return v; }); break;
    }
    shuffled(s, m.options);
    return m;
}
// Bilinear interpolation does not support distorted grids
bool regular(const Made& m) {
    for(int y = 0; y < m.Y; y++) for(int x = 0; x < m.X; x++)
        if(at(m, m.lat, y, x) != at(m, m.lat, y, 0) || at(m, m.lon, y, x) != at(m, m.lon, 0, x)) return false;
    return true;
}
bool regular(const Command& k) { for(auto& p : k.pairs) if(!regular(p.in)) return false; return true; }
Method downscaler(Src& s, bool simple, bool regular) {
    Method m;
    switch(s.draw(simple ? 2 : 7)) {
        case 0: case 1: m.name = "nearestNeighbour"; break;
        case 2: m.name = regular ? "bilinear" : "nearestNeighbour"; break;
        case 3: m.name = "smart"; if(s.b(0.7)) m.options += cat(" radius=", s.i(0, 2)); if(s.b(0.7)) m.options += cat(" num=", s.i(1, 4)); if(s.b(0.3)) m.options += cat(" minElevDiff=", s.i(0, 100)); break;
        case 4: m.name = "upscale"; if(s.b(0.7)) m.options = stat(s); break;
        case 5: m.name = "gradient"; m.options = cat(" constantElevGradient=", num(s.i(-8, 8) / 512.0)); break;
        default: m.name = "pressure"; break;
    }
    shuffled(s, m.options);
    return m;
}
bool has(const Made& m, const std::string& n) { for(auto& f : m.fields) if(f == n) return true; return false; }
void make_pair(Src& s, Command& k) {
    int n = k.pairs.size();
    Fit fit;
    fit.local = true; fit.lat0 = k.lat0; fit.lon0 = k.lon0; fit.d = k.d; fit.ints = true;
    Pair p;
    p.in = make(s, fit);
    for(int q = 0; n > 0 && q < 20 && p.in.options != k.in_options(); q++) p.in = make(s, fit);
    if(n > 0 && p.in.options != k.in_options()) throw pbt::Discard();
    p.in_path = k.paths.add(cat("c06-i", n, ".nc"));
    if(k.in_place) { p.out_path = p.in_path; }
    else {
        fit.E = p.in.E; fit.T = p.in.T;
        if(s.b(0.3)) { p.out = p.in; if(s.b()) { p.out.f.vars[p.out.f.var(p.out.fields[0])].data.assign(p.out.f.vars[p.out.f.var(p.out.fields[0])].data.size(), 3); } }
        else p.out = make(s, fit);
        for(int q = 0; n > 0 && q < 20 && p.out.options != k.out_options(); q++) p.out = make(s, fit);
        if(n > 0 && p.out.options != k.out_options()) throw pbt::Discard();
        p.out_path = k.paths.add(cat("c06-o", n, ".nc"));
    }
    k.pairs.push_back(p);
    k.T = std::max(k.T, p.in.T);
}
void common(std::vector<std::string>& names, const Made& m) {
    std::vector<std::string> all;
    for(auto& n : names) if(has(m, n)) all.push_back(n);
    names = all;
}
// A valid command
void make_command(Src& s, Command& k, int max_items, bool several) {
    k.lat0 = s.i(-60, 60); k.lon0 = s.i(-150, 150); k.d = s.pick<double>({1, 0.1, 5});
    k.in_place = s.b(0.2);
    int np = several && s.b(0.1) ? 2 : 1;
    for(int p = 0; p < np; p++) make_pair(s, k);
    const Made& in = k.pairs[0].in;
    const Made& out = k.in_place ? in : k.pairs[0].out;
    int levels = in.f.dim("height") >= 0 ? in.f.dims[in.f.dim("height")].len : 1;
    if(np == 1 && s.b(0.25)) for(int a = s.i(1, 2); a > 0; a--) {
        Alias al;
        al.name = cat("alias", k.aliases.size());
        al.variable = s.pick(in.fields);
        al.level = s.b(0.7) ? s.draw(levels) : -1;
        if(s.b(0.2)) al.options = " units=K";
        k.aliases.push_back(al);
    }
    // The variables that all the files have
    std::vector<std::string> in_fields = in.fields, out_fields = out.fields;
    for(auto& p : k.pairs) {
        const Made& po = k.in_place ? p.in : p.out;
        common(in_fields, p.in);
        common(out_fields, po);
        for(auto& n : in.fields) if(!has(p.in, n)) k.partial.insert(n);
        for(auto& n : p.in.fields) if(!has(in, n)) k.partial.insert(n);
        for(auto& n : out.fields) if(!has(po, n)) k.partial.insert(n);
        for(auto& n : po.fields) if(!has(out, n)) k.partial.insert(n);
    }
    if(in_fields.empty() || out_fields.empty()) throw pbt::Discard();
    k.known = out_fields;
    int n = s.i(1, max_items);
    bool open = true;       // a -vi here belongs to the next variable
    for(int q = 0; q < n; q++) {
        Item i;
        int how = s.draw(6);
        i.name = how < 2 ? s.pick(in_fields) : how < 4 ? s.pick(out_fields) : cat("new", s.draw(3));
        if(k.partial.count(i.name)) throw pbt::Discard();
        bool found = has(in, i.name);
        if(!found || s.b(0.3)) {
            if(!k.aliases.empty() && s.b(0.6)) i.input = s.pick(k.aliases).name;
            else if(k.in_place && q > 0 && s.b(0.4)) i.input = k.items[s.draw(k.items.size())].name;
            else if(s.b(0.8)) i.input = s.pick(in_fields);
        }
        if(!i.input.empty()) found = true;
        if(s.b(0.2)) i.options += " units=" + s.pick<std::string>({"K", "kg", "m/s"});
        if(s.b(0.1)) i.options += " standardName=" + s.pick<std::string>({"air_temperature", "some_name"});
        if(s.b(0.15)) { i.write = s.b(0.3); i.options += cat(" write=", (int) i.write); }
        if(s.b(0.05)) i.options += " min=0";
        shuffled(s, i.options);
        if(!i.input.empty() && s.b(0.3)) i.input_options = " units=m";
        i.input_first = !i.input.empty() && open && s.b();
        if(!found) { i.has_down = true; i.down.name = "bypass"; }
        else if(s.b(0.7)) { i.has_down = true; i.down = s.b(0.15) ? Method{"bypass", "", nullptr} : downscaler(s, k.in_place, regular(k)); }
        k.known.push_back(i.name);
        int nc = s.pick<int>({0, 0, 1, 1, 2, 3});
        for(int c = 0; c < nc; c++) i.cals.push_back(calibrator(s, k));
        if(i.has_down && s.b(0.1)) i.down.par = parameters(s, k, [&]() { return std::vector<float>{s.f(-1, 1)}; });
        if(i.has_down && s.b(0.08)) { i.first = downscaler(s, false, regular(k)); if(s.b(0.3)) i.first.par = parameters(s, k, [&]() { return std::vector<float>{s.f(-1, 1)}; }); }
        if(i.has_down) i.down_at = s.b(0.7) ? 0 : s.draw(i.cals.size() + 1);
        open = i.has_down || !i.cals.empty() || !i.input.empty();
        k.items.push_back(i);
    }
}
void store(const Command& k) {
    for(auto& p : k.pairs) { nc::write(p.in_path, p.in.f); if(!k.in_place) nc::write(p.out_path, p.out.f); }
}
void log(Ctx& c, const Command& k, const Words& w) {
    std::string line = "gridpp";
    for(auto& a : w) line += " '" + a + "'";
    LOG(c, line);
    for(auto& p : k.pairs) { LOG(c, "input ", nc::show(p.in.f)); if(!k.in_place) LOG(c, "output ", nc::show(p.out.f)); }
    for(auto& i : k.items) for(auto& m : i.cals) if(m.par) LOG(c, m.par->path, ":\n", cg::read_file(m.par->path));
}
// ---- The reference ----
typedef std::map<std::string, Variable> Variables;
// The file as it is before the command; fields of an alias are called name#level
std::unique_ptr<cg::Mem> memory(const Made& m, const std::vector<Alias>& aliases) {
    vec2 g[4];
    int var[] = {m.lat, m.lon, m.elev, m.laf};
    for(int q = 0; q < 4; q++) if(var[q] >= 0) {
        g[q] = vec2(m.Y, std::vector<float>(m.X));
        for(int y = 0; y < m.Y; y++) for(int x = 0; x < m.X; x++) {
            float v = at(m, var[q], y, x);
            if(q == 2 && cg::ok(v)) v *= (float) m.elev_scale;
            g[q][y][x] = v;
        }
    }
    std::unique_ptr<cg::Mem> f(new cg::Mem(g[0], g[1], g[2], g[3], m.E, m.times, m.reftime));
    auto put = [&](const std::string& as, const std::string& name, int level) {
        std::vector<vec3c> v;
        bool in;
        for(int t = 0; t < m.T; t++) v.push_back(field(m, m.f.vars[m.f.var(name)], t, level, in));
        f->put(Variable(as), v);
    };
    for(auto& n : m.fields) put(n, n, -1);
    for(auto& a : aliases) if(a.level >= 0 && has(m, a.variable)) put(cat(a.variable, "#", a.level), a.variable, a.level);
    return f;
}
Variable describe(const Made& m, const std::string& name) {
    const nc::Var& v = m.f.vars[m.f.var(name)];
    return Variable(name, nc::text(v.atts, "units"), nc::text(v.atts, "standard_name"));
}
// Applies the command to the models of the files; returns what the output has to contain
void reference(const Command& k, size_t p, Made& want, Plan& plan) {
    const Made& in0 = k.pairs[0].in;
    const Made& out0 = k.in_place ? in0 : k.pairs[0].out;
    const Made& in = k.pairs[p].in;
    want = k.in_place ? in : k.pairs[p].out;
    std::unique_ptr<cg::Mem> fi = memory(in, k.aliases), fo;
    cg::Mem* o = fi.get();
    if(!k.in_place) { fo = memory(want, std::vector<Alias>()); o = fo.get(); }
    o->setTimes(in.times);
    o->setReferenceTime(in.reftime);
    std::set<std::string> done;
    Words listed;
    Variables variable;
    for(auto& i : k.items) {
        if(!done.insert(i.name).second) continue;       // the first one counts
        std::string name = i.input.empty() ? i.name : i.input;
        Variable iv;
        if(has(in0, name)) iv = describe(in0, name);
        else {
            const Alias* al = nullptr;
            for(auto& a : k.aliases) if(a.name == name) al = &a;
            if(al) iv = Variable(al->level >= 0 ? cat(al->variable, "#", al->level) : al->variable);
            else if(k.in_place && done.count(name)) iv = Variable(name);
        }
        iv.add(Options(i.input.empty() ? i.options : i.input_options));
        Variable ov = has(out0, i.name) ? describe(out0, i.name) : has(in0, i.name) ? describe(in0, i.name) : Variable(i.name);
        ov.add(Options(i.options));
        o->initNewVariable(ov);
        std::unique_ptr<Downscaler> d(Downscaler::getScheme(i.has_down ? i.down.name : "nearestNeighbour", iv, ov, Options(i.down.options)));
        d->downscale(*fi, *o);
        for(auto& m : i.cals) {
            std::unique_ptr<Calibrator> cal(Calibrator::getScheme(m.name, ov, Options(m.options)));
            std::unique_ptr<PMem> pm;
            if(m.par) {
                pm.reset(new PMem());
                for(size_t l = 0; l < m.par->sets.size(); l++) for(size_t t = 0; t < m.par->sets[l].size(); t++) {
                    Location loc = m.par->spatial ? Location(m.par->locs[l][0], m.par->locs[l][1], m.par->locs[l][2]) : Location(cg::MV, cg::MV, cg::MV);
                    pm->setParameters(Parameters(m.par->sets[l][t]), t, loc);
                }
                pm->recomputeTree();
            }
            cal->calibrate(*o, pm.get());
        }
        if(i.write) { listed.push_back(i.name); variable[i.name] = ov; }
    }
    // The file gets the times of the input, and the variables
    want.times = in.times;
    want.reftime = in.reftime;
    if(want.time >= 0) {
        nc::Var& t = want.f.vars[want.time];
        for(size_t q = 0; q < t.data.size(); q++) t.data[q] = t.type == NC_INT ? std::trunc(in.times[q]) : in.times[q];
    }
    if(want.ref >= 0) want.f.vars[want.ref].data[0] = in.reftime;
    std::map<std::string, int> level;
    std::map<std::string, std::vector<vec3c> > cache;
    std::map<std::string, std::vector<char> > touched;
    for(auto& n : listed) {
        level[n] = -1;
        touched[n].assign(want.T, 1);
        for(int t = 0; t < want.T; t++) cache[n].push_back(cg::get(*o, Variable(n), t));
    }
    expect_write(want, listed, variable, level, cache, touched, plan);
    // Values that the storage cannot hold
    for(auto& q : plan) {
        const nc::Var& v = want.f.vars[want.f.var(q.first)];
        double fill = nc::fill(v), limit = v.type == NC_SHORT ? 32766 : v.type == NC_INT ? 2147483600.0 : 1e30;
        for(auto& x : q.second) if(x.changed && !nc::same(x.value, fill)) if(std::fabs(x.value) > limit || (std::fabs(x.value - fill) <= 1)) throw pbt::Discard();
    }
}
std::string joined(const Words& w) { std::string o; for(auto& a : w) o += (o.empty() ? "" : " ") + a; return o; }
}

PROP(C06, commands, 12000, 250000) {
    Command k;
    make_command(s, k, 3, true);
    Words w = words(s, k), full = w;
    if(s.b(0.3)) {
        size_t at = s.draw(full.size() + 1);
        full.insert(full.begin() + at, s.pick<std::string>({"quiet", "error", "warn", "info"}));
        full.insert(full.begin() + at, "--debug");
    }
    std::vector<Made> want(k.pairs.size());
    std::vector<Plan> plan(k.pairs.size());
    log(c, k, full);
    for(size_t p = 0; p < k.pairs.size(); p++) reference(k, p, want[p], plan[p]);
    store(k);
    std::vector<std::string> before;
    for(auto& p : k.pairs) before.push_back(cg::read_file(p.in_path));
    const Made& in = k.pairs[0].in;
    c.nontrivial((k.items.size() > 1 || k.items[0].cals.size() > 1) && in.Y * in.X > 1);
    c.label(k.in_place ? "one file" : k.pairs.size() > 1 ? "several files" : "two files");
    for(auto& i : k.items) for(auto& m : i.cals) c.label(m.name);
    Ran r = launch(full);
    REQUIRE(c, r.how == 'r' && r.status == 0, "the program ends with ", r.how == 'h' ? "no result" : cat("status ", r.status), ": ", tail(r.text));
    std::string message = joined(full);
    for(size_t p = 0; p < k.pairs.size(); p++) {
        if(!k.in_place) REQUIRE(c, cg::read_file(k.pairs[p].in_path) == before[p], "the input file changes");
        check_disk(c, want[p].f, nc::read(k.pairs[p].out_path), plan[p], &message);
    }
}

// Settings no scheme accepts: the values its option parser or its parameter
// file check rejects.
struct Bad { const char* what; Words words; const char* parameters; };
const std::vector<Bad>& bad_settings() {
    static const std::vector<Bad> all = {
        {"threshold: one value too few", {"threshold", "thresholds=1,2", "values=0,1", "equals=0,0"}, nullptr},
        {"threshold: one value too many", {"threshold", "thresholds=1", "values=0,1,2", "equals=0"}, nullptr},
        {"threshold: equals too long", {"threshold", "thresholds=1", "values=0,1", "equals=0,1"}, nullptr},
        {"window: edgePolicy", {"window", "length=3", "edgePolicy=wrap"}, nullptr},
        {"window: length 0", {"window", "length=0"}, nullptr},
        {"window: stat", {"window", "length=3", "stat=average"}, nullptr},
        {"window: quantile above 1", {"window", "length=3", "stat=quantile", "quantile=1.1"}, nullptr},
        {"window: quantile below 0", {"window", "length=3", "stat=quantile", "quantile=-0.1"}, nullptr},
        {"window: no quantile", {"window", "length=3", "stat=quantile"}, nullptr},
        {"neighbourhood: radius", {"neighbourhood", "radius=-1"}, nullptr},
        {"neighbourhood: stat", {"neighbourhood", "radius=1", "stat=average"}, nullptr},
        {"neighbourhood: quantile above 1", {"neighbourhood", "radius=1", "stat=quantile", "quantile=1.5"}, nullptr},
        {"neighbourhood: quantile below 0", {"neighbourhood", "radius=1", "stat=quantile", "quantile=-0.5"}, nullptr},
        {"neighbourhood: no quantile", {"neighbourhood", "radius=1", "stat=quantile"}, nullptr},
        {"zaga: maxEnsMean 0", {"zaga", "maxEnsMean=0"}, "p0 p1 p2 p3 p4 p5 p6 p7\n1 1 1 1 1 1 1 1\n"},
        {"zaga: maxEnsMean missing", {"zaga", "maxEnsMean=-999"}, "p0 p1 p2 p3 p4 p5 p6 p7\n1 1 1 1 1 1 1 1\n"},
        {"zaga: neighbourhoodSize", {"zaga", "neighbourhoodSize=-1"}, "p0 p1 p2 p3 p4 p5 p6 p7\n1 1 1 1 1 1 1 1\n"},
        {"gaussian: neighbourhoodSize", {"gaussian", "neighbourhoodSize=-1"}, "p0 p1 p2 p3\n1 1 1 1\n"},
        {"qq: extrapolation", {"qq", "extrapolation=linear"}, "p0 p1 p2 p3\n1 1 1 1\n"},
        {"qq: extraObs without extraFcst", {"qq", "extraObs=1,2"}, "p0 p1 p2 p3\n1 1 1 1\n"},
        {"qq: extraFcst longer", {"qq", "extraObs=1", "extraFcst=1,2"}, "p0 p1 p2 p3\n1 1 1 1\n"},
        {"kriging: efoldDist", {"kriging", "efoldDist=-1"}, "lat lon elev p0\n0 0 0 1\n"},
        {"kriging: maxElevDiff", {"kriging", "maxElevDiff=-1"}, "lat lon elev p0\n0 0 0 1\n"},
        {"kriging: radius", {"kriging", "radius=-1"}, "lat lon elev p0\n0 0 0 1\n"},
        {"kriging: type", {"kriging", "type=linear"}, "lat lon elev p0\n0 0 0 1\n"},
        {"kriging: operator", {"kriging", "operator=power"}, "lat lon elev p0\n0 0 0 1\n"},
        {"kriging: range of one", {"kriging", "auxVariable=fresh", "range=1"}, "lat lon elev p0\n0 0 0 1\n"},
        {"kriging: range of three", {"kriging", "auxVariable=fresh", "range=1,2,3"}, "lat lon elev p0\n0 0 0 1\n"},
        {"kriging: no range", {"kriging", "auxVariable=fresh"}, "lat lon elev p0\n0 0 0 1\n"},
        {"kriging: range reversed", {"kriging", "auxVariable=fresh", "range=2,1"}, "lat lon elev p0\n0 0 0 1\n"},
        {"oi: transform", {"oi", "transform=log"}, "lat lon elev p0 p1\n0 0 0 1 2\n"},
        {"oi: rhoType", {"oi", "rhoType=linear"}, "lat lon elev p0 p1\n0 0 0 1 2\n"},
        {"diagnoseWind: compute", {"diagnoseWind"}, nullptr},
        {"diagnoseWind: no direction", {"diagnoseWind", "compute=x", "speed=fresh"}, nullptr},
        {"diagnoseWind: no y", {"diagnoseWind", "compute=speed", "x=fresh"}, nullptr},
        {"diagnoseHumidity: compute", {"diagnoseHumidity", "temperature=fresh"}, nullptr},
        {"diagnoseHumidity: no rh", {"diagnoseHumidity", "compute=dewpoint", "temperature=fresh"}, nullptr},
        {"diagnoseHumidity: no dewpoint", {"diagnoseHumidity", "compute=rh", "temperature=fresh"}, nullptr},
        {"diagnoseHumidity: no temperature", {"diagnoseHumidity", "compute=rh", "dewpoint=fresh"}, nullptr},
        {"override: two columns", {"override"}, "lat lon elev p0 p1\n0 0 0 1 2\n"},
        {"override: no locations", {"override"}, "p0\n1\n"},
        {"mask: no locations", {"mask"}, "p0\n1\n"},
        {"altitude: no locations", {"altitude"}, "p0\n1\n"},
        {"coastal: no locations", {"coastal"}, "p0 p1\n1 1\n"},
        {"qq: an odd number of columns", {"qq"}, "p0 p1 p2\n1 1 1\n"},
        {"windDirection: eight columns", {"windDirection", "directionVariable=fresh"}, "p0 p1 p2 p3 p4 p5 p6 p7\n1 1 1 1 1 1 1 1\n"},
        {"neighbourhood: locations", {"neighbourhood", "radius=1"}, "lat lon elev p0\n0 0 0 1\n"},
    };
    return all;
}
PROP(C06, refused, 3000, 40000) {
    Command k;
    make_command(s, k, 2, false);
    Words w = words(s, k);
    auto find = [&](const std::string& a) { std::vector<size_t> r; for(size_t q = 0; q < w.size(); q++) if(w[q] == a) r.push_back(q); return r; };
    std::string kind;
    std::vector<size_t> v = find("-v"), ds = find("-d"), cs = find("-c"), ps = find("-p"), vis = find("-vi");
    Item& last = k.items.back();
    switch(s.draw(20)) {
        case 0: kind = "no variable"; w.resize(std::min(v[0], vis.empty() ? v[0] : vis[0])); if(w.back().find('=') == std::string::npos || w.size() < 2 || !k.aliases.empty()) { w = Words{k.pairs[0].in_path, k.in_place ? k.pairs[0].in_path : k.pairs[0].out_path}; } break;
        case 1: kind = "-v without name"; w.insert(w.end(), "-v"); break;
        case 2: kind = "unknown downscaler"; append(w, Words{"-v", "fresh", "-d", "noSuchDownscaler"}); break;
        case 3: kind = "unknown calibrator"; append(w, Words{"-v", "fresh", "-d", "bypass", "-c", "noSuchCalibrator"}); break;
        case 4: kind = "-c without name"; w.push_back("-c"); break;
        case 5: kind = "-d without name"; w.push_back("-d"); break;
        case 6: kind = "input variable missing"; append(w, Words{"-v", "fresh"}); if(s.b()) append(w, Words{"-d", "nearestNeighbour"}); break;
        case 7: kind = "input variable of -vi missing"; append(w, Words{"-v", "fresh", "-vi", "nothing"}); break;
        case 8: kind = "parameter file without type"; { std::string p = k.paths.add("c06-x.txt"); cg::write_file(p, "p0 p1\n1 1\n"); append(w, Words{"-v", "fresh", "-d", "bypass", "-c", "regression", "-p", p}); } break;
        case 9: kind = "parameter file missing"; append(w, Words{"-v", "fresh", "-d", "bypass", "-c", "regression", "-p", cg::scratch("c06-none.txt"), "type=text"}); break;
        case 10: kind = "calibrator without its parameter file"; append(w, Words{"-v", "fresh", "-d", "bypass", "-c", s.pick<std::string>({"regression", "override", "mask", "coastal", "windDirection"})}); if(w.back() == "windDirection") w.push_back("directionVariable=fresh"); break;
        case 11: kind = "input file missing"; unlink(k.pairs[0].in_path.c_str()); w[0] = cg::scratch("c06-none.nc"); if(k.in_place) w.insert(w.begin() + 1, k.pairs[0].in_path); break;
        case 12: kind = "more inputs than outputs"; w[0] += "," + w[0] + "x"; if(k.in_place) { w = Words{w[0], k.pairs[0].in_path, "-v", k.items[0].name, "-d", "bypass"}; } break;
        case 13: kind = "-p without a method"; { size_t q = v[0] + 2; Words x = {"-p", "x.txt"}; w.insert(w.begin() + q, x.begin(), x.end()); } break;
        case 14: case 15: case 16: case 17: case 18: {
            const Bad& bad = s.pick(bad_settings());
            kind = bad.what;
            append(w, Words{"-v", "fresh", "-d", "bypass", "-c"});
            append(w, bad.words);
            if(bad.parameters) {
                std::string p = k.paths.add("c06-x.txt"), text = bad.parameters;
                cg::write_file(p, text);
                append(w, Words{"-p", p, "type=text"});
            }
            break;
        }
        default: kind = "-vi without -v"; w = Words{k.pairs[0].in_path}; append(w, split(s, k.in_options())); if(!k.in_place) { w.push_back(k.pairs[0].out_path); append(w, split(s, k.out_options())); } append(w, Words{"-vi", s.pick(k.pairs[0].in.fields)}); if(s.b()) append(w, Words{"-d", "nearestNeighbour"}); break;
    }
    (void) last;
    store(k);
    log(c, k, w);
    LOG(c, "invalid: ", kind);
    c.label(kind);
    c.nontrivial();
    const std::string& out = k.in_place ? k.pairs[0].in_path : k.pairs[0].out_path;
    std::string before = cg::read_file(out);
    nc::File was = nc::read(out);
    std::string input = cg::read_file(k.pairs[0].in_path);
    Ran r = launch(w);
    REQUIRE(c, r.how == 'e', "not refused (", kind, "): ", r.how, " status ", r.status, ": ", tail(r.text));
    REQUIRE(c, k.in_place || cg::read_file(k.pairs[0].in_path) == input, "the input file changes");
    check_disk(c, was, nc::read(out), Plan(), nullptr);
}
