#include "pbt.h"
#ifdef _OPENMP
#include <omp.h>
#endif
using namespace pbt;

namespace {
double g_case_cpu = 60;   // seconds of CPU one case may use before it counts as not terminating
long g_shrink_evals = 6000; // candidates tried when shrinking
bool g_crash_only = false; // only crashes (signals, sanitizer reports) are violations

Shared* map_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*) p;
}
void arm(double sec) {
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = (long) sec;
    setitimer(ITIMER_PROF, &t, nullptr);
}
void silence() {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
}
enum Result { OK = 0, FAILED = 1, DISCARD = 2 };

Result run_case(const Sub& sub, Src& s, Ctx& c, std::string& msg) {
    try {
        sub.fn(s, c);
        return OK;
    }
    catch(const Fail& f) { msg = f.msg; return g_crash_only ? OK : FAILED; }
    catch(const Discard&) { return DISCARD; }
    catch(const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return g_crash_only ? OK : FAILED; }
    catch(...) { msg = "unexpected unknown exception"; return g_crash_only ? OK : FAILED; }
}

// Evaluate a choice sequence in a child. Returns OK/FAILED/DISCARD; msg explains; used = the choices consumed
Result eval_forked(const Sub& sub, const std::vector<uint64_t>& ch, Shared* sh, std::string& msg, std::string* log, bool show = false) {
    sh->failed = 0;
    sh->num_choices = 0;
    sh->msg[0] = 0;
    int pfd[2];
    if(log && pipe(pfd)) return OK;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if(pid == 0) {
        if(!show) silence();
        if(log) close(pfd[0]);
        arm(g_case_cpu);
        Src s(&ch, sh);
        Ctx c;
        c.verbose = (log != nullptr);
        if(log) c.fd = pfd[1];
        std::string m;
        Result r = run_case(sub, s, c, m);
        strncpy(sh->msg, m.c_str(), sizeof(sh->msg) - 1);
        sh->msg[sizeof(sh->msg) - 1] = 0;
        if(log) close(pfd[1]);
        fflush(stdout);
        _exit(r == OK ? 0 : r == FAILED ? 41 : 42);
    }
    if(log) {
        close(pfd[1]);
        char buf[4096];
        ssize_t n;
        while((n = read(pfd[0], buf, sizeof buf)) > 0) log->append(buf, n);
        close(pfd[0]);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if(WIFEXITED(st)) {
        int e = WEXITSTATUS(st);
        if(e == 0) return OK;
        if(e == 41) { msg = sh->msg; return FAILED; }
        if(e == 42) return DISCARD;
        msg = cat("process exited with code ", e, " (sanitizer report or exit in the code under test)");
        return FAILED;
    }
    if(WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if(sg == SIGPROF) msg = "did not terminate (CPU limit for one case)";
        else msg = cat("crashed with signal ", sg, " (", strsignal(sg), ")");
        return FAILED;
    }
    return OK;
}

std::vector<uint64_t> used_choices(Shared* sh) {
    return std::vector<uint64_t>(sh->choices, sh->choices + sh->num_choices);
}

std::vector<uint64_t> shrink(const Sub& sub, std::vector<uint64_t> best, Shared* sh, long& evals) {
    struct timeval t0;
    gettimeofday(&t0, nullptr);
    auto elapsed = [&]() { struct timeval t; gettimeofday(&t, nullptr); return (t.tv_sec - t0.tv_sec) + 1e-6 * (t.tv_usec - t0.tv_usec); };
    const long max_evals = g_shrink_evals;
    const double max_sec = 60;
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        if(evals >= max_evals || elapsed() > max_sec) return false;
        evals++;
        std::string m;
        Result r = eval_forked(sub, cand, sh, m, nullptr);
        if(r != FAILED) return false;
        std::vector<uint64_t> u = used_choices(sh);
        if(u.size() > cand.size()) u = cand;
        while(!u.empty() && u.back() == 0) u.pop_back();
        // accept only strictly simpler sequences (shorter, then lexicographically smaller)
        if(u.size() < best.size() || (u.size() == best.size() && u < best)) { best = u; return true; }
        return false;
    };
    bool improved = true;
    while(improved && evals < max_evals && elapsed() < max_sec) {
        improved = false;
        for(size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for(size_t st = 0; st + len <= best.size();) {
                std::vector<uint64_t> cand = best;
                cand.erase(cand.begin() + st, cand.begin() + st + len);
                if(attempt(cand)) { improved = true; continue; }
                st += len;
                if(evals >= max_evals || elapsed() > max_sec) break;
            }
            if(len == 1) break;
        }
        for(size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
            for(size_t st = 0; st + len <= best.size(); st += len) {
                std::vector<uint64_t> cand = best;
                bool any = false;
                for(size_t k = st; k < st + len; k++) { any = any || cand[k]; cand[k] = 0; }
                if(any && attempt(cand)) improved = true;
                if(evals >= max_evals || elapsed() > max_sec) break;
            }
            if(len == 1) break;
        }
        for(size_t k = 0; k < best.size(); k++) {
            uint64_t lo = 0;
            // binary search for the smallest failing value
            while(k < best.size() && lo < best[k]) {
                uint64_t mid = lo + (best[k] - lo) / 2;
                std::vector<uint64_t> cand = best;
                cand[k] = mid;
                if(attempt(cand)) improved = true;
                else lo = mid + 1;
                if(evals >= max_evals || elapsed() > max_sec) break;
            }
        }
    }
    return best;
}
}

std::string pbt::json_escape(const std::string& s) {
    std::string o;
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if(ch == '\n') o += "\\n";
        else if(ch == '\t') o += "\\t";
        else if(ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

// Usage: exe --prop ID --tier quick|thorough --seed N --out partial.json --replay-dir DIR [--workers N] [--scale X] [--crash-only] [--sub NAME]
//        exe --replay FILE
int pbt::run_main(int argc, char** argv) {
    std::string prop, tier = "quick", out, replay_dir = ".", replay, only, tag;
    uint64_t seed = 1;
    int workers = 8;
    double scale = 1;
    bool all_props = false;
    for(int k = 1; k < argc; k++) {
        std::string a = argv[k];
        auto next = [&]() { if(k + 1 >= argc) exit(2); return std::string(argv[++k]); };
        if(a == "--prop") prop = next();
        else if(a == "--tier") tier = next();
        else if(a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
        else if(a == "--out") out = next();
        else if(a == "--replay-dir") replay_dir = next();
        else if(a == "--workers") workers = atoi(next().c_str());
        else if(a == "--scale") scale = atof(next().c_str());
        else if(a == "--sub") only = next();
        else if(a == "--tag") tag = next();
        else if(a == "--crash-only") g_crash_only = true;
        else if(a == "--all-props") all_props = true;
        else if(a == "--shrink") g_shrink_evals = atol(next().c_str());
        else if(a == "--cpu") g_case_cpu = atof(next().c_str());
        else if(a == "--replay") replay = next();
        else { std::cerr << "unknown argument " << a << std::endl; return 2; }
    }
#ifdef _OPENMP
    omp_set_num_threads(1);   // as the Python module does on load
#endif
    signal(SIGPIPE, SIG_IGN);
    Shared* sh = map_shared();

    if(replay != "") {
        // the replay file is JSON written below; read the few fields needed
        std::ifstream f(replay);
        std::stringstream ss;
        ss << f.rdbuf();
        std::string t = ss.str();
        auto field = [&](const std::string& key) {
            size_t p = t.find("\"" + key + "\": \"");
            if(p == std::string::npos) return std::string();
            p += key.size() + 5;
            return t.substr(p, t.find('"', p) - p);
        };
        std::string rp = field("case_property"), rs = field("sub");
        g_crash_only = t.find("\"crash_only\": true") != std::string::npos;
        std::vector<uint64_t> ch;
        size_t p = t.find("\"choices\": [");
        if(p != std::string::npos) {
            p += 12;
            std::string l = t.substr(p, t.find(']', p) - p);
            for(char& x : l) if(x == ',') x = ' ';
            std::stringstream ls(l);
            uint64_t v;
            while(ls >> v) ch.push_back(v);
        }
        for(const Sub& sub : registry()) {
            if(sub.prop == rp && sub.name == rs) {
                std::string msg, log;
                Result r = eval_forked(sub, ch, sh, msg, &log, true);
                std::cout << log << (r == FAILED ? "FAILED: " + msg : r == OK ? "OK" : "DISCARDED") << std::endl;
                return r == FAILED ? 1 : 0;
            }
        }
        std::cerr << "no such case" << std::endl;
        return 2;
    }

    struct timeval t0;
    gettimeofday(&t0, nullptr);
    std::vector<const Sub*> subs;
    for(const Sub& sub : registry())
        if((all_props || sub.prop == prop) && (only == "" || only == sub.name) && (sub.known == "" || !all_props))
            subs.push_back(&sub);
    if(subs.empty()) { std::cerr << "no properties" << std::endl; return 2; }

    std::ostringstream js;
    js.precision(6);
    js << "{\"subs\": [";
    bool violated = false;
    std::string vio_path;
    std::vector<std::string> known_lines;
    long total_eval = 0, total_nt = 0;
    std::vector<std::string> samples;
    bool first_sub = true;

    for(size_t si = 0; si < subs.size(); si++) {
        const Sub& sub = *subs[si];
        if(sub.known != "") {
            std::string msg, log;
            std::vector<uint64_t> none;
            if(eval_forked(sub, none, sh, msg, &log) == FAILED)
                std::cout << "KNOWN-SUB " << sub.name << std::endl;
            continue;
        }
        long N = (long) std::max(1.0, (tier == "thorough" ? sub.thorough : sub.quick) * scale);
        uint64_t base = mix(hash_str(sub.prop + "/" + sub.name) ^ mix(seed));
        int W = (int) std::min<long>(workers, N);
        std::vector<Shared*> shs;
        std::vector<pid_t> pids;
        std::vector<int> fds;
        fflush(stdout);
        for(int w = 0; w < W; w++) {
            Shared* s2 = map_shared();
            s2->case_index = -1;
            shs.push_back(s2);
            int pfd[2];
            if(pipe(pfd)) return 2;
            pid_t pid = fork();
            if(pid == 0) {
                silence();
                close(pfd[0]);
                for(int fd : fds) close(fd);
                long evals = 0, disc = 0;
                std::map<std::string, long> labels;
                std::vector<uint64_t> hashes;
                std::vector<long> first_nt;
                for(long n = w; n < N; n += W) {
                    s2->case_index = n;
                    arm(g_case_cpu);
                    Src s(mix(base + (uint64_t) n * 0x2545F4914F6CDD1DULL), s2);
                    Ctx c;
                    std::string msg;
                    Result r = run_case(sub, s, c, msg);
                    if(r == DISCARD) { disc++; continue; }
                    evals++;
                    if(c.is_nontrivial) {
                        if(hashes.size() < 400000) hashes.push_back(s.hash());   // bounded memory: beyond this the distinct count is a lower bound
                        if(first_nt.size() < 1) first_nt.push_back(n);
                    }
                    for(const std::string& l : c.labels) labels[l]++;
                    if(r == FAILED) {
                        strncpy(s2->msg, msg.c_str(), sizeof(s2->msg) - 1);
                        s2->failed = 1;
                        break;
                    }
                }
                std::ostringstream o;
                o << evals << " " << disc << " " << first_nt.size();
                for(long x : first_nt) o << " " << x;
                o << " " << labels.size();
                for(auto& l : labels) o << " " << l.first << " " << l.second;
                o << " " << hashes.size();
                for(uint64_t h : hashes) o << " " << h;
                std::string l = o.str();
                size_t off = 0;
                while(off < l.size()) { ssize_t n = write(pfd[1], l.data() + off, l.size() - off); if(n <= 0) break; off += n; }
                close(pfd[1]);
                _exit(0);
            }
            close(pfd[1]);
            fds.push_back(pfd[0]);
            pids.push_back(pid);
        }
        long evals = 0, disc = 0;
        std::map<std::string, long> labels;
        std::unordered_set<uint64_t> hashes;
        std::vector<long> nts;
        // read all pipes (a worker only writes at its end, so reading in order cannot deadlock)
        for(int w = 0; w < W; w++) {
            std::string text;
            char buf[65536];
            ssize_t n;
            while((n = read(fds[w], buf, sizeof buf)) > 0) text.append(buf, n);
            close(fds[w]);
            std::istringstream is(text);
            long e = 0, d = 0, k = 0;
            if(!(is >> e >> d >> k)) continue;
            evals += e;
            disc += d;
            for(long q = 0; q < k; q++) { long x; is >> x; nts.push_back(x); }
            is >> k;
            for(long q = 0; q < k; q++) { std::string nm; long x; is >> nm >> x; labels[nm] += x; }
            is >> k;
            for(long q = 0; q < k; q++) { uint64_t h; is >> h; hashes.insert(h); }
        }
        long fail_case = -1;
        int fail_w = -1;
        std::string fail_msg;
        for(int w = 0; w < W; w++) {
            int st = 0;
            waitpid(pids[w], &st, 0);
            bool bad = shs[w]->failed == 1;
            std::string m = shs[w]->msg;
            if(WIFSIGNALED(st)) {
                bad = true;
                m = WTERMSIG(st) == SIGPROF ? "did not terminate (CPU limit for one case)" : cat("crashed with signal ", WTERMSIG(st));
            }
            else if(WEXITSTATUS(st) != 0) { bad = true; m = cat("process exited with code ", WEXITSTATUS(st)); }
            if(bad && (fail_case < 0 || shs[w]->case_index < fail_case)) {
                fail_case = shs[w]->case_index;
                fail_w = w;
                fail_msg = m;
            }
        }
        total_eval += evals;
        total_nt += hashes.size();
        if(!first_sub) js << ", ";
        first_sub = false;
        js << "{\"sub\": \"" << sub.prop << "/" << sub.name << "\", \"evaluations\": " << evals << ", \"discarded\": " << disc << ", \"distinct_nontrivial\": " << hashes.size() << ", \"labels\": {";
        bool fl = true;
        for(auto& l : labels) { js << (fl ? "" : ", ") << "\"" << json_escape(l.first) << "\": " << l.second; fl = false; }
        js << "}}";
        // a sample of a nontrivial case
        std::sort(nts.begin(), nts.end());
        if(!nts.empty() && fail_case < 0 && samples.size() < 12) {
            // regenerate through the seed in a child
            std::string log;
            int pfd[2];
            if(!pipe(pfd)) {
                pid_t pid = fork();
                if(pid == 0) {
                    silence();
                    close(pfd[0]);
                    Src s(mix(base + (uint64_t) nts[0] * 0x2545F4914F6CDD1DULL), sh);
                    Ctx c;
                    c.verbose = true;
                    c.fd = pfd[1];
                    std::string m;
                    run_case(sub, s, c, m);
                    _exit(0);
                }
                close(pfd[1]);
                char buf[4096];
                ssize_t n;
                while((n = read(pfd[0], buf, sizeof buf)) > 0) log.append(buf, n);
                close(pfd[0]);
                int st;
                waitpid(pid, &st, 0);
            }
            if(log.size() > 1500) { log.resize(1500); log += "..."; }
            samples.push_back(cat("sub=", sub.name, " case=", nts[0], ": ", log));
        }
        if(fail_case >= 0) {
            std::vector<uint64_t> ch = used_choices(shs[fail_w]);
            std::string msg;
            int confirmed = 0;
            for(int k = 0; k < 3; k++)
                if(eval_forked(sub, ch, sh, msg, nullptr) == FAILED) confirmed++;
            long sev = 0;
            std::vector<uint64_t> mn = ch;
            if(confirmed == 3) {
                mn = shrink(sub, ch, sh, sev);
                int conf2 = 0;
                for(int k = 0; k < 3; k++)
                    if(eval_forked(sub, mn, sh, msg, nullptr) == FAILED) conf2++;
                if(conf2 < 3) mn = ch;
            }
            else if(confirmed == 0) {
                // not reproducible on its own: treat as a failure only if it shows up again
                for(int k = 0; k < 20 && confirmed == 0; k++)
                    if(eval_forked(sub, ch, sh, msg, nullptr) == FAILED) confirmed++;
            }
            if(confirmed > 0) {
                std::string log;
                if(eval_forked(sub, mn, sh, msg, &log) != FAILED) msg = fail_msg;
                std::string path = cat(replay_dir, "/", prop, tag, "_", sub.name, ".json");
                std::ofstream rf(path.c_str());
                rf << "{\"property\": \"" << prop << "\", \"case_property\": \"" << sub.prop << "\", \"sub\": \"" << sub.name << "\", \"crash_only\": " << (g_crash_only ? "true" : "false")
                   << ", \"exe\": \"" << json_escape(argv[0]) << "\", \"seed\": " << seed << ", \"case\": " << fail_case
                   << ", \"shrink_evaluations\": " << sev << ", \"original_length\": " << ch.size() << ",\n \"message\": \"" << json_escape(msg) << "\",\n \"description\": \"" << json_escape(log) << "\",\n \"choices\": [";
                for(size_t k = 0; k < mn.size(); k++) rf << (k ? "," : "") << mn[k];
                rf << "]}\n";
                rf.close();
                std::cout << "FAIL " << sub.prop << "/" << sub.name << " case " << fail_case << ": " << msg << std::endl;
                std::cout << log << std::endl;
                std::cout << "REPLAY " << path << std::endl;
                violated = true;
                vio_path = path;
            }
            else {
                std::cout << "UNREPRODUCED " << sub.prop << "/" << sub.name << " case " << fail_case << ": " << fail_msg << std::endl;
            }
        }
        for(Shared* s2 : shs) munmap(s2, sizeof(Shared));
    }
    struct timeval t1;
    gettimeofday(&t1, nullptr);
    js << "], \"evaluations\": " << total_eval << ", \"distinct_nontrivial\": " << total_nt << ", \"samples\": [";
    for(size_t k = 0; k < samples.size(); k++) js << (k ? ", " : "") << "\"" << json_escape(samples[k]) << "\"";
    js << "], \"violated\": " << (violated ? "true" : "false") << ", \"wall_s\": " << (t1.tv_sec - t0.tv_sec) + 1e-6 * (t1.tv_usec - t0.tv_usec) << "}\n";
    if(out != "") { std::ofstream f(out.c_str()); f << js.str(); }
    else std::cout << js.str();
    return violated ? 1 : 0;
}

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
