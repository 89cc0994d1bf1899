// Command line: seeded search, minimisation, replay, evidence.
#include "plan.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=1:handle_abort=1:handle_sigfpe=1:allow_user_segv_handler=0:detect_stack_use_after_return=0:symbolize=1:fast_unwind_on_fatal=1:print_legend=0:print_full_thread_history=0:color=never:detect_odr_violation=0:allocator_may_return_null=1:use_sigaltstack=1:poison_partial=1:quarantine_size_mb=16"; }

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string so_path, out_dir = ".", tmp_dir = "/tmp";
static const Plan *crash_plan; static std::string asan_text; static int crash_fd = -1; static bool in_run;

static i64 cur_index = -1;
struct Replay { std::string prop; u64 seed = 0; std::string cls, msg; u64 trace = 0; std::set<int> drop; std::map<SwitchKey, int> sw; std::map<SwitchKey, FaultRec> fl; };
static std::string ser(const Replay &r, Plan *p, bool comments) {
    std::ostringstream o; o << "fsim-replay 1\nproperty " << r.prop << "\nseed " << r.seed << "\nclass " << r.cls << "\ntrace " << r.trace << "\n";
    { std::string m = r.msg; for (auto &c : m) if (c == '\n') c = '|'; o << "message " << m << "\n"; }
    if (cur_index >= 0) o << "index " << cur_index << "\n";
    o << "drop"; for (int i : r.drop) o << " " << i; o << "\n";
    for (auto &kv : r.fl) o << "fault " << kv.first.actor << " " << kv.first.op << " " << kv.first.n << " " << kv.second.kind << " " << kv.second.arg << " # " << fault_names[kv.second.kind] << " at system call " << kv.first.n << " of op " << kv.first.op << "\n";
    for (auto &kv : r.sw) o << "switch " << kv.first.actor << " " << kv.first.op << " " << kv.first.kind << " " << kv.first.n << " " << kv.second << "\n";
    if (comments && p) { int ai = 0; for (auto &a : p->actors) { o << "# actor " << ai++ << " (process " << a.proc << ")\n"; for (auto &op : a.ops) if (!r.drop.count(op->id)) { std::string s = op_str(*op); for (auto &c : s) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '.'; o << "#   " << s << "\n"; } } }
    return o.str();
}
static bool parse(const std::string &file, Replay &r) {
    std::ifstream f(file); std::string line; if (!std::getline(f, line) || line != "fsim-replay 1") return false;
    while (std::getline(f, line)) {
        std::istringstream s(line); std::string k; s >> k;
        if (k == "property") s >> r.prop; else if (k == "seed") s >> r.seed; else if (k == "class") s >> r.cls; else if (k == "trace") s >> r.trace; else if (k == "message") { std::getline(s, r.msg); if (!r.msg.empty()) r.msg.erase(0, 1); }
        else if (k == "drop") { int i; while (s >> i) r.drop.insert(i); }
        else if (k == "fault") { SwitchKey x; FaultRec fr; x.kind = 'f'; s >> x.actor >> x.op >> x.n >> fr.kind >> fr.arg; r.fl[x] = fr; }
        else if (k == "switch") { SwitchKey x; int t; s >> x.actor >> x.op >> x.kind >> x.n >> t; r.sw[x] = t; }
    }
    return !r.prop.empty();
}
static void writef(const std::string &f, const std::string &s) { std::ofstream o(f); o << s; }

// a memory error inside the simulated process ends the worker: leave a trace of it
static void on_asan(const char *t) { asan_text = t; }
static void on_death() {
    if (!in_run || !crash_plan) return;
    std::string m = asan_text; std::string first, frames; std::istringstream s(m); std::string l; int nf = 0;
    while (std::getline(s, l)) { size_t i; if (first.empty() && (i = l.find("ERROR: AddressSanitizer: ")) != std::string::npos) { first = l.substr(i + 25); size_t e = first.find(" on "); if (e == std::string::npos) e = first.find(" ("); first = first.substr(0, e); } if ((i = l.find(" in ")) != std::string::npos && l.find("#") != std::string::npos && nf < 6) { std::string fr = l.substr(i + 4); fr = fr.substr(0, fr.find(' ')); frames += (nf++ ? " < " : "") + fr; } }
    Replay r; r.prop = crash_plan->prop; r.seed = crash_plan->seed; r.cls = K->cur && K->cur->mixed ? "open-over-recreation" : "memory-error"; r.msg = "memory error (" + first + ") in " + (K->cur && K->cur->op ? std::string(op_name(K->cur->op->code)) + " (op " + std::to_string(K->cur->op->id) + ")" : "?") + ": " + frames; r.trace = hstr(first, K->trace); r.drop = crash_plan->dropped; r.sw = K->sw; r.fl = K->fl;
    std::string o = ser(r, nullptr, false);
    if (crash_fd >= 0) { if (write(crash_fd, o.data(), o.size()) < 0) {} }
    _exit(77);
}
static RunResult run_guarded(Plan &p, bool replay, const std::map<SwitchKey, int> *sw, const std::map<SwitchKey, FaultRec> *fl, RunStats *st, bool log) {
    crash_plan = &p; in_run = true; RunResult r = run_plan(p, replay, sw, fl, st, log); in_run = false; return r;
}
// run in a child; returns class ("" = fine) and fills res
static bool run_child(const Replay &r, bool replay, Replay *out, double tmo, bool log = false, std::string *logtext = nullptr) {
    std::string f = tmp_dir + "/child." + std::to_string(getpid()); unlink(f.c_str());
    pid_t pid = fork();
    if (!pid) {
        crash_fd = open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); RunStats st; Plan p = make_plan(r.prop, r.seed); p.dropped = r.drop; alarm((unsigned)tmo + 1);
        int nul = open("/dev/null", O_WRONLY); if (!log) dup2(nul, 2);
        RunResult x = run_guarded(p, replay, &r.sw, &r.fl, &st, log);
        Replay o; o.prop = r.prop; o.seed = r.seed; o.cls = x.bad ? x.cls : ""; o.msg = x.msg; o.trace = x.trace; o.drop = r.drop; o.sw = x.sw; o.fl = x.fl;
        if (log) { writef(f + ".log", x.log); }
        std::string s = ser(o, nullptr, false); if (write(crash_fd, s.data(), s.size()) < 0) {} _exit(x.bad ? 1 : 0);
    }
    int stt; waitpid(pid, &stt, 0);
    if (log && logtext) { std::ifstream i(f + ".log"); std::stringstream b; b << i.rdbuf(); *logtext = b.str(); unlink((f + ".log").c_str()); }
    Replay o; bool ok = parse(f, o); unlink(f.c_str()); if (!ok) return false;
    *out = o; return true;
}

struct Minim { double t_end; int tries = 0; };
static bool same(const Replay &a, const Replay &want) { return a.cls == want.cls; }
static Replay minimise(Replay best, double budget) {
    double end = wall() + budget; int tries = 0; const std::string cls = best.cls;
    auto attempt = [&](const Replay &cand) -> bool { if (wall() > end) return false; tries++; Replay o; if (!run_child(cand, true, &o, 20)) return false; if (o.cls != cls) return false; Replay n = cand; n.msg = o.msg; n.trace = o.trace; n.cls = o.cls; best = n; return true; };
    { Replay o; if (!run_child(best, true, &o, 60) || o.cls != cls) return best; best.msg = o.msg; best.trace = o.trace; }
    bool prog = true; int round = 0;
    while (prog && wall() < end && round++ < 6) {
        prog = false;
        // drop operations
        Plan p = make_plan(best.prop, best.seed); std::vector<int> ids; for (auto &a : p.actors) for (auto &o : a.ops) if (!best.drop.count(o->id)) ids.push_back(o->id);
        for (size_t chunk = std::max<size_t>(1, ids.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < ids.size() && wall() < end;) { Replay c = best; size_t e = std::min(ids.size(), i + chunk); for (size_t k = i; k < e; k++) c.drop.insert(ids[k]);
                for (auto it = c.fl.begin(); it != c.fl.end();) it = c.drop.count(it->first.op) ? c.fl.erase(it) : std::next(it); for (auto it = c.sw.begin(); it != c.sw.end();) it = c.drop.count(it->first.op) ? c.sw.erase(it) : std::next(it);
                if (attempt(c)) { ids.erase(ids.begin() + (long)i, ids.begin() + (long)e); prog = true; } else i = e; }
            if (chunk == 1) break;
        }
        auto shrink = [&](auto &mp, auto get) {
            typedef typename std::decay<decltype(mp)>::type M; std::vector<SwitchKey> ks; for (auto &kv : mp) ks.push_back(kv.first);
            for (size_t chunk = std::max<size_t>(1, ks.size()); chunk >= 1; chunk /= 2) {
                for (size_t i = 0; i < ks.size() && wall() < end;) { Replay c = best; size_t e = std::min(ks.size(), i + chunk); M &m = get(c); for (size_t k = i; k < e; k++) m.erase(ks[k]); if (attempt(c)) { ks.erase(ks.begin() + (long)i, ks.begin() + (long)e); prog = true; } else i = e; }
                if (chunk == 1) break;
            } };
        { auto m = best.fl; shrink(m, [](Replay &r) -> std::map<SwitchKey, FaultRec> & { return r.fl; }); }
        { auto m = best.sw; shrink(m, [](Replay &r) -> std::map<SwitchKey, int> & { return r.sw; }); }
    }
    fprintf(stderr, "minimised in %d runs: %zu faults, %zu switches\n", tries, best.fl.size(), best.sw.size());
    return best;
}

static void put_u64(FILE *f, const char *k, u64 v) { fprintf(f, "%s %llu\n", k, (unsigned long long)v); }
static void save_stats(const std::string &fn, const RunStats &s, const std::set<u64> &tr, const std::set<u64> &sc, const std::set<u64> &fst, double secs) {
    FILE *f = fopen(fn.c_str(), "w"); put_u64(f, "runs", s.runs); put_u64(f, "ops", s.ops); put_u64(f, "nsys", s.nsys); put_u64(f, "nswitch", s.nswitch); put_u64(f, "probes", s.probes); put_u64(f, "recoveries", s.recoveries); put_u64(f, "simus", s.simus); put_u64(f, "crashes", s.crashes); put_u64(f, "errors", s.errors);
    for (int i = 0; i < F_MAX; i++) if (s.faults[i]) fprintf(f, "F %s %llu\n", fault_names[i], (unsigned long long)s.faults[i]);
    for (int i = 0; i < SK_MAX; i++) if (s.sys[i]) fprintf(f, "S %s %llu\n", sys_names[i], (unsigned long long)s.sys[i]);
    for (int i = 0; i < OP_MAX; i++) if (s.opc[i]) fprintf(f, "O %s %llu\n", op_name(i), (unsigned long long)s.opc[i]);
    for (auto &kv : s.reach) fprintf(f, "R %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    for (u64 t : tr) fprintf(f, "t %llx\n", (unsigned long long)t); for (u64 t : sc) fprintf(f, "c %llx\n", (unsigned long long)t); for (u64 t : fst) fprintf(f, "d %llx\n", (unsigned long long)t);
    fprintf(f, "secs %.3f\n", secs); fclose(f);
}

int main(int argc, char **argv) {
    if (!getenv("FSIM_NORAND")) { setenv("FSIM_NORAND", "1", 1); int pe = personality(0xffffffff); if (pe != -1 && !(pe & ADDR_NO_RANDOMIZE) && personality(pe | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    std::string mode = argc > 1 ? argv[1] : ""; std::map<std::string, std::string> opt; std::vector<std::string> pos;
    for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a.compare(0, 2, "--") == 0) { size_t e = a.find('='); opt[a.substr(2, e == std::string::npos ? e : e - 2)] = e == std::string::npos ? "1" : a.substr(e + 1); } else pos.push_back(a); }
    char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0; std::string dir = exe; dir = dir.substr(0, dir.rfind('/'));
    // threads that share memory are preempted between single memory accesses
    std::string prop = pos.empty() ? "" : pos[0]; if (!known_prop(prop) && !pos.empty()) { std::ifstream in(pos[0]); std::string l; while (std::getline(in, l)) if (l.compare(0, 9, "property ") == 0) { prop = l.substr(9); break; } }
    bool fine = prop == "C09" || prop == "C10";
    so_path = opt.count("so") ? opt["so"] : dir + (fine ? "/libfine.so" : "/libproc.so"); tmp_dir = opt.count("tmp") ? opt["tmp"] : dir; out_dir = opt.count("out") ? opt["out"] : dir;
    int nslots = opt.count("slots") ? atoi(opt["slots"].c_str()) : 6;
    kernel_init(so_path, nslots, tmp_dir);
    __asan_set_error_report_callback(on_asan); __sanitizer_set_death_callback(on_death);

    if (mode == "one") {
        u64 seed = strtoull(pos[1].c_str(), 0, 10); RunStats st; Plan p = make_plan(pos[0], seed); crash_fd = 1;
        RunResult r = run_guarded(p, false, nullptr, nullptr, &st, opt.count("log") > 0); if (opt.count("log")) fputs(r.log.c_str(), stdout);
        if (opt.count("plan")) { Replay rr; rr.prop = pos[0]; rr.seed = seed; fputs(ser(rr, &p, true).c_str(), stdout); }
        printf("%s %s trace=%llx ops=%llu sys=%llu probes=%llu switches=%llu sim=%.3fs\n", r.bad ? ("BAD " + r.cls).c_str() : "ok", r.msg.c_str(), (unsigned long long)r.trace, (unsigned long long)st.ops, (unsigned long long)st.nsys, (unsigned long long)st.probes, (unsigned long long)st.nswitch, st.simus / 1e6); return r.bad;
    }
    if (mode == "replay" || mode == "minimise") {
        Replay r; if (!parse(pos[0], r)) { fprintf(stderr, "bad replay file\n"); return 2; }
        if (mode == "minimise") { Replay m = minimise(r, opt.count("budget") ? atof(opt["budget"].c_str()) : 60); Plan p = make_plan(m.prop, m.seed); writef(pos.size() > 1 ? pos[1] : pos[0], ser(m, &p, true)); return 0; }
        Replay o; std::string lg; if (!run_child(r, true, &o, 120, opt.count("log") > 0, &lg)) { fprintf(stderr, "replay: the run gives no result\n"); return 2; }
        if (opt.count("log")) fputs(lg.c_str(), stdout);
        printf("replay: class=%s trace=%llu\n%s\n", o.cls.empty() ? "none" : o.cls.c_str(), (unsigned long long)o.trace, o.msg.c_str());
        if (o.cls.empty()) return 0; if (o.cls == r.cls && o.trace == r.trace) return 1; if (o.cls == r.cls) return 4; return 5;
    }
    if (mode == "describe") {
        u64 base = strtoull(opt["seed"].c_str(), 0, 10), i = strtoull(opt["index"].c_str(), 0, 10), seed = (hmix(hmix(base, 77), i) >> 1) & 0x7fffffffffffffffull; RunStats st; Plan p = make_plan(pos[0], seed); RunResult x = run_guarded(p, false, nullptr, nullptr, &st, false); Replay rr; rr.prop = pos[0]; rr.seed = seed; rr.cls = x.cls; rr.trace = x.trace; rr.sw = x.sw; rr.fl = x.fl; fputs(ser(rr, &p, true).c_str(), stdout); return 0;
    }
    if (mode == "search") {   // search PROP --first= --count= --step= --budget= --stats=
        std::string prop = pos[0]; u64 base = strtoull(opt["seed"].c_str(), 0, 10); u64 first = strtoull(opt["first"].c_str(), 0, 10), count = strtoull(opt["count"].c_str(), 0, 10), step = opt.count("step") ? strtoull(opt["step"].c_str(), 0, 10) : 1; double budget = atof(opt["budget"].c_str()); std::string sf = opt["stats"];
        int dup = opt.count("twice") ? atoi(opt["twice"].c_str()) : 0; double t0 = wall(); RunStats st; std::set<u64> tr, sc, fst; crash_fd = open((sf + ".viol").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
        u64 idx = 0; int rc = 0;
        for (u64 i = first; i < count; i += step, idx++) {
            if (wall() - t0 > budget) break;
            u64 seed = (hmix(hmix(base, 77), i) >> 1) & 0x7fffffffffffffffull; if (opt.count("raw")) seed = i;
            cur_index = (i64)i; Plan p = make_plan(prop, seed); RunResult r = run_guarded(p, false, nullptr, nullptr, &st, false);
            if (r.nontrivial) tr.insert(r.trace); sc.insert(r.sched); if (fst.size() < 200000) fst.insert(K->fsstates.begin(), K->fsstates.end());
            if (r.bad) { Replay o; o.prop = prop; o.seed = seed; o.cls = r.cls; o.msg = r.msg; o.trace = r.trace; o.sw = r.sw; o.fl = r.fl; std::string s = ser(o, nullptr, false); if (write(crash_fd, s.data(), s.size()) < 0) {} rc = 1; if (!opt.count("keep")) break; }
            else if (dup > 0 && idx % 16 == 0) {   // determinism: same seed again, and its recorded schedule
                dup--; RunStats s2; RunResult r2 = run_guarded(p, false, nullptr, nullptr, &s2, false); RunResult r3 = run_guarded(p, true, &r.sw, &r.fl, &s2, false); st.reach["determinism_reruns"] += 2;
                if (r2.trace != r.trace || r3.trace != r.trace) { fprintf(stderr, "NONDETERMINISM seed %llu: %llx %llx %llx\n", (unsigned long long)seed, (unsigned long long)r.trace, (unsigned long long)r2.trace, (unsigned long long)r3.trace); rc = 3; break; }
            }
        }
        save_stats(sf, st, tr, sc, fst, wall() - t0); return rc;
    }
    fprintf(stderr, "usage\n"); return 2;
}
