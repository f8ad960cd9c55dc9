// Driver: runs plans in forked simulated processes, searches seeds, turns a failing
// run into an explicit schedule, minimises it, replays it.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "model.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sched.h>
#include <fstream>
#include <functional>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#ifndef VARIANT
#define VARIANT "small"
#endif

static const u32 CAP_EV = 500000, CAP_SW = 1000000;
static const size_t BUMP = 192u << 20;
static char* g_bump0;
static double now_s() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static void make_arena()
{
    size_t sz = sizeof(Arena) + CAP_EV * sizeof(Ev) + 600 * sizeof(Inode) + (size_t)CAP_SW * sizeof(Arena::Sw) + BUMP + (1 << 20);
    char* m = (char*)mmap((void*)0x100000000000ull, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (m == MAP_FAILED) { perror("arena"); exit(2); }
    auto take = [&](size_t n) { char* p = m; m += (n + 4095) & ~(size_t)4095; return p; };
    A = (Arena*)take(sizeof(Arena));
    A->ev = (Ev*)take(CAP_EV * sizeof(Ev)); A->ino = (Inode*)take(600 * sizeof(Inode)); A->sw = (Arena::Sw*)take((size_t)CAP_SW * sizeof(Arena::Sw));
    g_bump0 = take(BUMP);
    rt_new_pool();
}
static const i64 MONO0 = 1000000000000LL;
static void reset_arena(const Plan& p)
{
    Ev* ev = A->ev; Inode* ino = A->ino; Arena::Sw* sw = A->sw;
    memset((void*)A, 0, sizeof *A);
    A->ev = ev; A->ino = ino; A->sw = sw; A->cap_ev = CAP_EV; A->cap_sw = CAP_SW;
    A->bump = g_bump0; A->bump_end = g_bump0 + BUMP;
    A->mono = MONO0;
    A->wall_off = p.k("start_s", 1700000000) * 1000000LL + p.k("start_us", 0) - A->mono / 1000;
    A->disk_free = p.k("disk_free", -1);
}
static u64 event_hash()
{
    u64 h = 1;
    auto add = [&](u64 v) { h = mix64(h ^ v); };
    for (u32 i = 0; i < A->nev; i++)
    {
        const Ev& e = A->ev[i];
        add(e.type | (u64)(u32)e.tid << 32); add(e.step); add((u64)e.mono); add((u64)e.wall); add((u64)e.a); add((u64)e.b); add((u64)e.c); add((u64)e.d); add((u64)e.e);
        u64 x = 1469598103934665603ull; for (u32 k = 0; k < e.sn; k++) x = (x ^ (unsigned char)e.s[k]) * 1099511628211ull; add(x);
    }
    { u64 x = 1469598103934665603ull; for (u32 k = 0; k < A->screen.n; k++) x = (x ^ (unsigned char)A->screen.p[k]) * 1099511628211ull; add(x); }
    for (int n = 0; n < A->nino; n++) { Inode& I = A->ino[n]; u64 x = 1469598103934665603ull; for (u32 k = 0; k < I.data.n; k++) x = (x ^ (unsigned char)I.data.p[k]) * 1099511628211ull; add(x); }
    return h;
}
static u64 history_hash()
{   // what was visible: order of operations and outputs, without times
    u64 h = 1;
    for (u32 i = 0; i < A->nev; i++) { const Ev& e = A->ev[i]; if (e.type == EV_PROBE) continue; h = mix64(h ^ (e.type | (u64)(u32)e.tid << 16 | (u64)(u32)e.life << 32 | (u64)(e.a & 0xffff) << 40)); }
    return h;
}
static void run_plan(const Plan& p)
{
    reset_arena(p);
    for (size_t l = 0; l < p.lives.size(); l++)
    {
        A->life = (int)l;
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); run_life(p, (int)l); }
        if (c < 0) { A->fatal_class = FC_HARNESS; snprintf(A->fatal_msg, sizeof A->fatal_msg, "fork failed"); break; }
        int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && (A->life_end == 1 || A->life_end == 2);
        if (!ok)
        {
            if (!A->fatal_class)
            {
                A->fatal_class = WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL ? FC_SEGV : FC_HARNESS;
                snprintf(A->fatal_msg, sizeof A->fatal_msg, "process ended with status 0x%x", st);
            }
            break;
        }
        if (A->fatal_class) break;
    }
    A->sim_ns = A->mono - MONO0;
}
static bool harness_cls(const std::string& c) { return c == "fatal:harness" || c == "fatal:timeout" || c == "fatal:diverge"; }
static std::vector<Viol> judge(const Plan& p, std::vector<Viol>* others = nullptr)
{
    std::vector<Viol> all = oracle(p, false), r;
    for (auto& v : all) if (!harness_cls(v.cls) && class_matters(p.prop, v.cls)) r.push_back(v); else if (others) others->push_back(v);
    if (A->ev_lost || (A->fatal_class && (A->fatal_class == FC_HARNESS || A->fatal_class == FC_TIMEOUT || A->fatal_class == FC_DIVERGE))) r.clear();
    return r;
}
static void to_explicit(Plan& p)
{
    p.explicit_sched = true; p.sw.clear();
    for (u32 i = 0; i < A->nsw; i++) { auto& s = A->sw[i]; p.sw.push_back(Switch{ s.life, s.tid, s.epoch, s.pt, s.to }); }
}
static bool has_cls(const std::vector<Viol>& v, const std::string& c) { for (auto& x : v) if (x.cls == c) return true; return false; }
struct Minimiser
{
    Plan best; std::string cls; int runs = 0; double deadline; int max_runs = 500;
    bool over() { return runs >= max_runs || now_s() > deadline; }
    bool still(const Plan& q)
    {
        if (over()) return false;
        runs++; run_plan(q); return has_cls(judge(q), cls);
    }
    bool try_(const Plan& q) { if (still(q)) { best = q; return true; } return false; }
    template<class F> void chunks(size_t n, F drop)
    {   // drop(lo,hi) returns a candidate plan without [lo,hi); shrink greedily
        size_t step = n;
        while (step >= 1 && !over())
        {
            for (size_t lo = 0; lo < n && !over();)
            {
                size_t hi = std::min(n, lo + step); Plan q = best;
                size_t removed = drop(q, lo, hi);
                if (removed && try_(q)) { if (removed == hi - lo && n_after) { n = n_after(); } else lo = hi; }
                else lo = hi;
            }
            if (step == 1) break;
            step = (step + 1) / 2;
        }
    }
    std::function<size_t()> n_after;
    void switches()
    {
        { Plan q = best; q.sw.clear(); if (try_(q)) return; }
        n_after = [this]() { return best.sw.size(); };
        chunks(best.sw.size(), [](Plan& q, size_t lo, size_t hi) { hi = std::min(hi, q.sw.size()); if (lo >= hi) return (size_t)0; q.sw.erase(q.sw.begin() + (long)lo, q.sw.begin() + (long)hi); return hi - lo; });
        n_after = nullptr;
    }
    // the counters are judged at rest: the wait that brings the rest about stays
    bool rest_needed() const { for (auto& l : best.lives) for (auto& t : l.threads) for (auto& o : t.ops) if (o.kind == OP_COUNTERS) return true; return false; }
    bool droppable(int k) { if (k == OP_QUIESCE && rest_needed()) return false; return k == OP_LOG || k == OP_SLEEP || k == OP_SETCH || k == OP_SETDEV || k == OP_BATCHCH || k == OP_BATCHDEV || k == OP_CLOCK || k == OP_COUNTERS || k == OP_DGRAM || k == OP_FLOOD || k == OP_FAULTWIN || k == OP_WRITECFG || k == OP_QUIESCE || k == OP_WAITSEQ; }
    void run()
    {
        { Plan q = best; q.sw.clear(); try_(q); }
        // whole threads' statements
        for (size_t l = 0; l < best.lives.size(); l++) for (size_t t = 1; t < best.lives[l].threads.size(); t++)
        {
            Plan q = best; bool any = false; for (auto& o : q.lives[l].threads[t].ops) if (droppable(o.kind)) { o.kind = OP_NOP; any = true; } if (any) try_(q);
        }
        for (size_t i = best.faults.size(); i-- > 0;) { Plan q = best; q.faults.erase(q.faults.begin() + (long)i); try_(q); }
        for (size_t l = 0; l < best.lives.size(); l++) for (size_t t = 0; t < best.lives[l].threads.size(); t++)
        {
            std::vector<size_t> idx; for (size_t i = 0; i < best.lives[l].threads[t].ops.size(); i++) if (droppable(best.lives[l].threads[t].ops[i].kind)) idx.push_back(i);
            if (idx.empty()) continue;
            chunks(idx.size(), [&](Plan& q, size_t lo, size_t hi) { size_t n = 0; for (size_t k = lo; k < hi; k++) { Op& o = q.lives[l].threads[t].ops[idx[k]]; if (o.kind != OP_NOP) { o.kind = OP_NOP; n++; } } return n; });
        }
        switches();
        // shorter texts
        for (size_t l = 0; l < best.lives.size(); l++) for (size_t t = 0; t < best.lives[l].threads.size(); t++) for (size_t i = 0; i < best.lives[l].threads[t].ops.size() && !over(); i++)
            if (best.lives[l].threads[t].ops[i].kind == OP_LOG && best.lives[l].threads[t].ops[i].a[6] > 40) { Plan q = best; q.lives[l].threads[t].ops[i].a[6] = 30; try_(q); }
        switches();
    }
};
static std::string slurp(const char* f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spill(const std::string& f, const std::string& t) { std::ofstream o(f, std::ios::binary); o << t; }
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r; }
static std::string hex(u64 v) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }

static const char* EVN[] = { "none","life","inv","ret","fault","FATAL","open","close","write","fsync","rename","unlink","mkdir","screen","sock","sockclose","send","recv","hook","counter","clockstep","shm","thread","BADUSE","RACE","probe","cfgfile","xmit","dgram","fwrite" };
static void dump_events(const Plan& p)
{
    for (u32 i = 0; i < A->nev; i++)
    {
        const Ev& e = A->ev[i];
        printf("%6llu L%d T%-2d %10.3fms %-8s", (unsigned long long)e.step, e.life, e.tid, (double)(e.mono - MONO0) / 1e6, EVN[e.type]);
        if (e.type == EV_INV || e.type == EV_RET)
        {
            const Op& o = p.lives[(size_t)e.life].threads[(size_t)e.tid].ops[(size_t)e.a];
            printf(" #%lld %s", (long long)e.a, OP_NAMES[o.kind]); if (e.type == EV_RET) printf(" -> %lld", (long long)e.b); else for (int k = 0; k < 9; k++) printf(" %ld", o.a[k]);
        }
        else printf(" a=%lld b=%lld c=%lld d=%lld e=%lld", (long long)e.a, (long long)e.b, (long long)e.c, (long long)e.d, (long long)e.e);
        if (e.type == EV_FAULT) printf(" (%s)", FK_NAMES[e.a]);
        const char* s = e.s; u32 n = e.sn;
        if (e.type == EV_WRITE) { s = A->ino[e.b].data.p + e.c; n = (u32)e.d; }
        if (e.type == EV_SCREEN) { s = A->screen.p + e.c; n = (u32)e.d; }
        if (s) { printf(" '"); for (u32 k = 0; k < n && k < 300; k++) { unsigned char c = (unsigned char)s[k]; if (c == '\n') printf("\\n"); else if (c < 32 || c > 126) printf("\\x%02x", c); else putchar(c); } printf("'"); }
        printf("\n");
    }
}
static std::string header(const Plan& p, const std::vector<Viol>& v, u64 eh)
{
    std::ostringstream o;
    o << "# property " << p.prop << "\n# events " << hex(eh) << "\n# schedule " << hex(A->hash) << "\n";
    for (auto& x : v) o << "# violation " << x.cls << ": " << esc(x.msg) << "\n";
    return o.str();
}
static std::string with_header(const Plan& p, const std::vector<Viol>& v, u64 eh)
{
    std::string t = plan_to_text(p); size_t k = t.find('\n'); return t.substr(0, k + 1) + header(p, v, eh) + t.substr(k + 1);
}

struct Shared { volatile int stop; volatile int found; };
struct Stats
{
    u64 runs = 0, ops = 0, points = 0, syncs = 0, switches = 0, preempts = 0, twice = 0, nondet = 0, harness = 0, lives = 0, crashes = 0, unrepro = 0; double sim_s = 0; int maxthr = 0;
    u64 fault[FK_MAX] = {}, probe[64] = {}; std::map<std::string, u64> other; std::map<std::string,u64> profiles; std::vector<std::string> harness_msgs;
};
int main(int argc, char** argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality((unsigned long)personality(0xffffffff) | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
    std::map<std::string, std::string> opt; std::vector<std::string> pos;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.compare(0, 2, "--") == 0) { if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) { opt[a.substr(2)] = argv[i + 1]; i++; } else opt[a.substr(2)] = "1"; } else pos.push_back(a); }
    auto O = [&](const char* k, const char* d) { return opt.count(k) ? opt[k] : std::string(d); };
    std::string mode = pos.empty() ? "help" : pos[0];
    if (mode == "one" || mode == "replay" || mode == "gen" || mode == "min")
    {
        make_arena();
        Plan p; std::string err;
        if (mode == "one" || mode == "gen") p = gen_plan(O("prop", "Q01"), VARIANT, strtoull(O("seed", "1").c_str(), nullptr, 10), O("thorough", "0") == "1");
        else if (!plan_from_text(slurp(pos[1].c_str()), p, err)) { fprintf(stderr, "cannot read plan: %s\n", err.c_str()); return 2; }
        if (p.variant != VARIANT) { fprintf(stderr, "plan is for variant %s\n", p.variant.c_str()); return 2; }
        if (opt.count("as")) p.prop = O("as", "");
        if (mode == "gen") { printf("%s", plan_to_text(p).c_str()); return 0; }
        run_plan(p); u64 eh = event_hash(); std::vector<Viol> oth; auto v = judge(p, &oth);
        if (opt.count("v")) dump_events(p);
        for (auto& x : v) printf("violation %s: [life %d step %llu] %s\n", x.cls.c_str(), x.life, (unsigned long long)x.step, x.msg.c_str());
        if (!opt.count("q")) for (auto& x : oth) printf("(other) %s: [life %d step %llu] %s\n", x.cls.c_str(), x.life, (unsigned long long)x.step, x.msg.c_str());
        if (A->fatal_class) printf("fatal %s: %s\n", FC_NAMES[A->fatal_class], A->fatal_msg);
        printf("events %s schedule %s steps %llu switches %llu nev %u sim_ms %lld\n", hex(eh).c_str(), hex(A->hash).c_str(), (unsigned long long)A->points, (unsigned long long)A->switches, A->nev, (long long)(A->sim_ns / 1000000));
        if (mode == "replay")
        {
            // the file says what to expect
            std::istringstream in(slurp(pos[1].c_str())); std::string l; std::string want;
            while (std::getline(in, l)) if (l.compare(0, 9, "# events ") == 0) want = l.substr(9);
            if (!want.empty()) printf("reproduced %s\n", want == hex(eh) ? "exactly" : "NOT exactly (the code under test differs from the recorded run)");
        }
        if (opt.count("explicit") && mode == "one") { Plan q = p; to_explicit(q); run_plan(q); printf("explicit replay: events %s -> %s\n", hex(event_hash()).c_str(), event_hash() == eh ? "same" : "DIFFERENT"); if (opt.count("out")) spill(O("out", ""), with_header(q, judge(q), event_hash())); }
        if (mode == "min" && !v.empty())
        {
            Minimiser m; m.best = p; if (!p.explicit_sched) to_explicit(m.best); m.cls = O("cls", v[0].cls.c_str()); m.deadline = now_s() + atof(O("budget", "60").c_str()); m.max_runs = 5000; m.run();
            run_plan(m.best); auto mv = judge(m.best); spill(pos.size() > 2 ? pos[2] : "/dev/stdout", with_header(m.best, mv, event_hash()));
            printf("minimised in %d runs\n", m.runs);
        }
        return v.empty() ? 0 : 1;
    }
    if (mode != "search") { printf("sim search|one|replay|min|gen\n"); return 2; }
    std::string prop = O("prop", "Q01"), dir = O("dir", "/tmp"); u64 base = strtoull(O("base", "1").c_str(), nullptr, 10); double secs = atof(O("seconds", "10").c_str()); int W = atoi(O("workers", "8").c_str());
    u64 maxruns = strtoull(O("runs", "1000000000").c_str(), nullptr, 10); bool thorough = O("thorough", "0") == "1"; bool keep_going = opt.count("keep-going") > 0;
    double minbudget = atof(O("min-budget", "20").c_str());
    Shared* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now_s();
    std::vector<pid_t> kids;
    for (int w = 0; w < W; w++)
    {
        pid_t c = fork();
        if (c) { kids.push_back(c); continue; }
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        {   // all threads of a simulated process run one at a time: one CPU per worker
            cpu_set_t all, one; std::vector<int> cpus;
            if (!sched_getaffinity(0, sizeof all, &all)) for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) cpus.push_back(i);
            if ((int)cpus.size() >= W) { CPU_ZERO(&one); CPU_SET(cpus[(size_t)w], &one); sched_setaffinity(0, sizeof one, &one); }
        }
        make_arena();
        Stats s; std::vector<u64> hs, hh; std::set<std::string> seen;
        for (u64 k = (u64)w; k < maxruns && now_s() - t0 < secs && !sh->stop; k += (u64)W)
        {
            u64 seed = base + k;
            Plan p = gen_plan(prop, VARIANT, seed, thorough);
            run_plan(p);
            s.runs++; s.lives += (u64)A->life + 1; s.points += A->points; s.syncs += A->syncpoints; s.switches += A->switches; s.preempts += A->preempts; s.sim_s += (double)A->sim_ns / 1e9; if (A->max_threads > s.maxthr) s.maxthr = A->max_threads;
            for (int i = 0; i < FK_MAX; i++) s.fault[i] += A->fault_fired[i];
            s.profiles[p.profile]++;
            u64 ops0 = s.ops; for (u32 i = 0; i < A->nev; i++) if (A->ev[i].type == EV_INV) s.ops++;
            if (hs.size() < 4000000 && A->switches > 0 && s.ops > ops0) { hs.push_back(A->hash); hh.push_back(history_hash()); }
            u64 eh = event_hash();
            std::vector<Viol> oth; auto v = judge(p, &oth);
            for (int i = 0; i < 64; i++) s.probe[i] += A->probe[i];
            for (auto& x : oth) if (!harness_cls(x.cls)) s.other[x.cls]++;
            if (A->ev_lost || A->fatal_class == FC_HARNESS || A->fatal_class == FC_TIMEOUT || A->fatal_class == FC_DIVERGE) { s.harness++; char b[400]; snprintf(b, sizeof b, "seed %llu: %.300s", (unsigned long long)seed, A->fatal_msg); if (s.harness_msgs.size() < 5) s.harness_msgs.push_back(b); continue; }
            if (s.runs % 40 == 1 && v.empty()) { s.twice++; run_plan(p); if (event_hash() != eh) { s.nondet++; if (s.harness_msgs.size() < 5) s.harness_msgs.push_back("not deterministic: seed " + std::to_string(seed)); } }
            if (v.empty() || seen.count(v[0].cls)) continue;
            if (!keep_going && sh->found) continue;
            // reproduce, make explicit, minimise
            run_plan(p); if (event_hash() != eh) { s.nondet++; s.unrepro++; continue; }
            auto v1 = judge(p); if (v1.empty()) { s.unrepro++; continue; }
            std::string cls = v1[0].cls;
            Plan q = p; to_explicit(q); run_plan(q);
            bool same = event_hash() == eh;
            if (!has_cls(judge(q), cls)) { s.unrepro++; if (s.harness_msgs.size() < 5) s.harness_msgs.push_back("explicit schedule does not reproduce: seed " + std::to_string(seed)); continue; }
            (void)same;
            if (!keep_going) { if (__sync_lock_test_and_set(&sh->found, 1)) continue; }
            Minimiser m; m.best = q; m.cls = cls; m.deadline = now_s() + minbudget; m.run();
            run_plan(m.best); auto mv = judge(m.best); u64 e2 = event_hash();
            std::string f = dir + "/" + prop + "_" + VARIANT + "_" + std::to_string(seed) + "_" + (cls.compare(0, 6, "fatal:") == 0 ? cls.substr(6) : cls) + ".plan";
            spill(f, with_header(m.best, mv, e2));
            seen.insert(cls);
            printf("FOUND %s class=%s seed=%llu min_runs=%d file=%s msg=%s\n", prop.c_str(), cls.c_str(), (unsigned long long)seed, m.runs, f.c_str(), mv.empty() ? "?" : esc(mv[0].msg).c_str());
            fflush(stdout);
            if (!keep_going) { sh->stop = 1; break; }
        }
        std::ostringstream o;
        o << "runs " << s.runs << "\nops " << s.ops << "\npoints " << s.points << "\nsyncs " << s.syncs << "\nswitches " << s.switches << "\npreempts " << s.preempts << "\ntwice " << s.twice << "\nnondet " << s.nondet << "\nharness " << s.harness << "\nlives " << s.lives << "\nunrepro " << s.unrepro << "\nsim_s " << s.sim_s << "\nmaxthr " << s.maxthr << "\n";
        for (int i = 1; i < FK_MAX; i++) if (s.fault[i]) o << "fault." << FK_NAMES[i] << " " << s.fault[i] << "\n";
        for (int i = 0; i < PR_N; i++) if (s.probe[i]) o << "probe." << PR_NAMES[i] << " " << s.probe[i] << "\n";
        for (auto& x : s.other) o << "other." << x.first << " " << x.second << "\n";
        for (auto& x : s.profiles) o << "profile." << (x.first.empty() ? "-" : x.first) << " " << x.second << "\n";
        for (auto& x : s.harness_msgs) o << "msg " << x << "\n";
        spill(dir + "/w" + std::to_string(w) + ".stats", o.str());
        spill(dir + "/w" + std::to_string(w) + ".hash", std::string((const char*)hs.data(), hs.size() * 8));
        spill(dir + "/w" + std::to_string(w) + ".hist", std::string((const char*)hh.data(), hh.size() * 8));
        _exit(0);
    }
    for (pid_t c : kids) { int st; waitpid(c, &st, 0); }
    // merge
    std::map<std::string, double> sum; std::vector<std::string> msgs; std::unordered_set<u64> S, H;
    for (int w = 0; w < W; w++)
    {
        std::string b = dir + "/w" + std::to_string(w);
        std::istringstream in(slurp((b + ".stats").c_str())); std::string k;
        while (in >> k) { if (k == "msg") { std::string l; std::getline(in, l); msgs.push_back(l); continue; } double v; in >> v; if (k == "maxthr") sum[k] = std::max(sum[k], v); else sum[k] += v; }
        for (auto e : { std::make_pair(".hash", &S), std::make_pair(".hist", &H) }) { std::string d = slurp((b + e.first).c_str()); for (size_t i = 0; i + 8 <= d.size(); i += 8) { u64 x; memcpy(&x, d.data() + i, 8); e.second->insert(x); } remove((b + e.first).c_str()); }
        remove((b + ".stats").c_str());
    }
    std::ostringstream o; o << "{\"variant\":\"" << VARIANT << "\",\"seconds\":" << now_s() - t0 << ",\"distinct_schedules\":" << S.size() << ",\"distinct_histories\":" << H.size();
    for (auto& x : sum) o << ",\"" << esc(x.first) << "\":" << (x.first == "sim_s" ? x.second : (double)(u64)x.second);
    o << ",\"messages\":["; for (size_t i = 0; i < msgs.size() && i < 10; i++) o << (i ? "," : "") << "\"" << esc(msgs[i]) << "\""; o << "]}";
    spill(dir + "/stats_" VARIANT ".json", o.str());
    printf("%s\n", o.str().c_str());
    return sh->found ? 1 : 0;
}
