// Plan generators: one per property, plus the table of which violation classes
// falsify which property.
#include "model.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <ctime>

static const std::map<std::string, std::set<std::string>>& table()
{
    static const std::map<std::string, std::set<std::string>> t = {
        { "Q01", { "lost", "dup", "phantom", "garbled", "ghost", "late", "stray_file" } },
        { "Q02", { "order", "devorder" } },
        { "Q03", { "garbled", "phantom" } },
        { "Q04", { "lost", "dup", "garbled", "phantom", "late", "slow", "order" } },
        { "Q05", { "sync_late", "sync_multi", "lost", "dup", "garbled", "phantom" } },
        { "Q06", { "slow", "late", "lost", "dup", "garbled", "phantom" } },
        { "L01", { "lost", "late_write", "leak", "slow_stop", "stop_fail", "dup", "thread_leak", "garbled", "slow" } },
        { "L02", { "alternate", "start_ok", "start_fail", "stop_fail", "stop_ok", "lost", "dup", "ghost", "slow_start", "slow_stop", "late", "late_write", "phantom", "garbled", "thread_leak", "leak", "slow" } },
        { "L03", { "start_leak", "start_ok", "start_fail", "leak", "slow_start", "lost", "dup", "thread_leak", "garbled", "phantom", "ghost", "alternate", "stop_fail", "slow_stop", "late", "shm_foreign" } },
        { "L04", { "dup", "ghost", "garbled", "order", "phantom", "lost", "late_write" } },
        { "F01", { "rotation", "size_limit", "truncate", "lost", "dup", "garbled", "stray_file", "order" } },
        { "F02", { "period", "discarded", "lost", "dup", "stray_file", "garbled", "rotation" } },
        { "F03", { "discarded", "garbled", "lost", "dup", "phantom", "slow", "truncate", "order", "stray_file" } },
        { "G01", { "phantom", "lost", "dup" } },
        { "G02", { "hook", "lost", "dup", "garbled", "phantom" } },
        { "H01", { "udp_addr", "period", "hook", "phantom", "lost", "dup", "late", "garbled" } },
        { "H02", { "phantom", "lost", "dup", "late", "garbled" } },
        { "S01", { "lost_crash", "lost", "order", "dup", "garbled", "recovered_done" } },
        { "S02", { "recovered_bad", "recovered_done", "recovered_dup", "recovered_text", "recovered_extra", "dup_old", "dup", "garbled", "phantom" } },
        { "S03", { "start_fail", "start_ok", "slow_start", "lost", "dup", "shm_left", "shm_foreign", "stop_fail", "slow_stop", "late" } },
        { "U01", { "garbled", "lost", "dup", "udp_lost", "udp_addr", "slow", "order", "phantom", "late" } },
        { "U02", { "udp_in", "udp_stall", "late", "lost", "dup", "garbled", "phantom" } },
        { "K01", { "counter", "udp_lost" } },
        { "T01", { "timestamp", "thread_no" } },
        { "M01", { "race" } },
        { "X01", { "leak", "baduse", "thread_leak", "late_write", "start_leak" } },
    };
    return t;
}
bool class_matters(const std::string& prop, const std::string& cls)
{
    if (cls.compare(0, 6, "fatal:") == 0) return true;
    auto it = table().find(prop);
    return it != table().end() && it->second.count(cls);
}

namespace {
struct G
{
    Rng r; Plan p; bool th; int LOG, QUE, CH; CfgM c;
    std::string variant; bool big;
    G(u64 seed, const std::string& prop, const std::string& var, bool t) : r(seed * 1000003 + mix64((u64)prop[0] << 16 | (u64)prop[1] << 8 | (u64)prop[2])), th(t)
    {
        p.seed = seed; p.prop = prop; p.variant = variant = var; LOG = sut_log_size(); QUE = sut_queue_size(); CH = sut_max_channels(); big = QUE > 100;
        p.lives.push_back(LifePlan());
    }
    LifePlan& L() { return p.lives.back(); }
    std::vector<Op>& T(size_t t) { if (L().threads.size() <= t) L().threads.resize(t + 1); return L().threads[t].ops; }
    static Op op(int k, long a0 = 0, long a1 = 0, long a2 = 0, long a3 = 0, long a4 = 0) { Op o; o.kind = k; o.a[0] = a0; o.a[1] = a1; o.a[2] = a2; o.a[3] = a3; o.a[4] = a4; return o; }
    void add(size_t t, int k, long a0 = 0, long a1 = 0, long a2 = 0, long a3 = 0, long a4 = 0) { T(t).push_back(op(k, a0, a1, a2, a3, a4)); }
    void fault(int kind, int life, long nth, long p1 = 0, long p2 = 0, long ch = -1) { Fault f; f.kind = kind; f.life = life; f.nth = nth; f.p1 = p1; f.p2 = p2; f.ch = ch; p.faults.push_back(f); }
    long rnd(long a, long b) { return r.range(a, b); }
    bool ch(double q) { return r.chance(q); }
    int pick(std::initializer_list<int> l) { return *(l.begin() + (long)r.below(l.size())); }
    int life() { return (int)p.lives.size() - 1; }

    // ---- schedule
    void sched()
    {
        p.knob["tick_ns"] = pick({ 200, 500, 1000 });
        if (ch(0.7)) { p.knob["sched"] = 0; p.knob["p_sync_ppm"] = pick({ 5000, 20000, 100000, 300000, 700000 }); p.knob["p_plain_ppm"] = pick({ 0, 0, 500, 5000, 30000 }); }
        else { p.knob["sched"] = 1; p.knob["pct_d"] = rnd(1, 10); p.knob["pct_span"] = pick({ 300, 2000, 10000, 60000, 200000 }); }
        p.knob["dirty"] = pick({ 0xCD, 0xCD, 0xFF, 0x01 });
        p.knob["start_s"] = 1600000000 + rnd(0, 200000000); p.knob["start_us"] = rnd(0, 999999);
    }
    // random pauses of threads at synchronisation points; writers included
    void stalls(int n, int nthreads, long maxms)
    {
        for (int i = 0; i < n; i++) fault(FK_STALL, (int)r.below(p.lives.size()), ch(0.5) ? rnd(1, 60) : rnd(1, 1500), ch(0.5) ? rnd(1, 30) : rnd(1, maxms), rnd(0, nthreads));
    }
    void slow_io(int n, long maxms) { for (int i = 0; i < n; i++) fault(FK_STALLIO, (int)r.below(p.lives.size()), rnd(1, 60), rnd(1, maxms), ch(0.5) ? 0 : rnd(1, 300), ch(0.5) ? -1 : rnd(0, 2)); }
    // ---- configuration
    DevM dev(int type, int chn, int d)
    {
        DevM v; v.type = type; char b[60];
        if (type == DT_FILE) { snprintf(b, sizeof b, "c%dd%d", chn, d); v.file = b; static const char* P[] = { "log", "log/", "./log/a/b", "out/sub", "" }; v.path = P[r.below(5)]; if (v.path.empty()) v.path = "./"; }
        if (type == DT_UDP) v.f[F_PORT] = 8000 + chn * 32 + d;
        return v;
    }
    int out_type(bool screen_ok) { int x = (int)r.below(10); return x < 6 ? DT_FILE : x < 8 ? DT_UDP : screen_ok ? DT_SCREEN : DT_FILE; }
    void channel(bool sync, int ndev, bool screen_ok, int force = 0)
    {
        ChM h; h.sync = sync; bool scr = screen_ok;
        for (int d = 0; d < ndev; d++) { int t = force ? force : out_type(scr); if (t == DT_SCREEN) scr = false; h.dev.push_back(dev(t, (int)c.ch.size(), d)); }
        c.ch.push_back(h);
    }
    int nch(int lo, int hi) { return (int)rnd(lo, std::min(hi, CH)); }
    int put_cfg() { p.cfg.push_back(cfg_yaml(c)); return (int)p.cfg.size() - 1; }
    // values the filters are about: small ones, all that a mask can name, or ranges far from zero (without masks)
    long coff = 0, ioff = 0; bool wide = false;
    void filter_values() { double u = r.uni(); if (u < 0.25) wide = true; else if (u < 0.45) { if (ch(0.7)) ioff = ch(0.5) ? rnd(1, 5) << 32 : (1L << rnd(24, 40)) - rnd(0, 4); if (!ioff || ch(0.4)) coff = rnd(1000, 2000000000); } }
    long value(long off) { return wide ? (ch(0.5) ? pick({ 0, 1, 31, 32, 33, 62, 63 }) : rnd(0, 63)) : off + rnd(0, 6); }
    long mask() { if (!wide) return rnd(1, 63); unsigned long m = 0; int q = (int)rnd(1, 3); for (int b = 0; b < 64; b++) if (ch(q * 0.25)) m |= 1UL << b; return m ? (long)m : 1; }
    void rand_filter(long* f, bool ondev)
    {
        if (ch(0.4)) f[F_PRI] = rnd(0, 4);
        if (ch(0.3)) { f[F_CAT] = coff + rnd(0, 3); f[F_CATX] = rnd(1, 4); }
        if (!coff && ch(0.3)) f[F_CATM] = mask();
        if (ch(0.3)) { f[F_ID] = ioff + rnd(0, 3); f[F_IDX] = rnd(1, 4); }
        if (!ioff && ch(0.3)) f[F_IDM] = mask();
        if (ondev && ch(0.15)) f[F_ABLE] = 0;
    }
    // ---- statements
    long text_len(int mode)
    {   // mode 0 mixed, 1 short, 2 around the limit
        double u = r.uni();
        if (mode == 1 || (mode == 0 && u < 0.7)) return rnd(24, 120);
        if (mode == 2 ? u < 0.5 : u < 0.85) return LOG - 2 + rnd(-40, 30);
        if (u < 0.95) return rnd(24, LOG - 10);
        return LOG + rnd(30, LOG);
    }
    int lenmode = 0; double p_pieces = 0.15; long pause_max = 5; bool filters = false; unsigned force_prefix = 0;
    Op log(int chn)
    {
        Op o; o.kind = OP_LOG; o.a[0] = chn; o.a[1] = rnd(0, 6); o.a[2] = filters ? value(coff) : 0; o.a[3] = filters ? value(ioff) : 0;
        static const long PX[] = { 0x63, 0, 0x7f, 0x63, 4, 0x1, 0x2, 0x20 }; o.a[4] = ch(0.8) ? PX[r.below(8)] : rnd(0, 127);
        o.a[4] |= (long)force_prefix;
        o.a[5] = ch(0.5) ? 0 : rnd(0, 4); if (filters && ch(0.12)) { long was = value(coff) - o.a[2]; if (was >= -44 && was <= 45) o.a[5] = 54 + was; }   // 4: a stream that is moved; 10..99: the category is changed on the stream
        o.a[6] = text_len(lenmode); if (big && o.a[6] > 400 && ch(0.8)) o.a[6] = rnd(24, 400);
        o.a[7] = ch(p_pieces) ? rnd(2, 3) : 1; o.a[8] = o.a[7] > 1 && ch(0.7) ? rnd(0, pause_max) : 0;
        return o;
    }
    void logs(size_t t, int n, double p_sleep = 0.1, long maxsleep = 25, int only = -1)
    {
        for (int i = 0; i < n; i++)
        {
            if (ch(p_sleep)) add(t, OP_SLEEP, rnd(0, maxsleep));
            T(t).push_back(log(only >= 0 ? only : (int)r.below(c.ch.size())));
        }
    }
    long total_pause() { long s = 0; for (auto& l : p.lives) for (auto& t : l.threads) for (auto& o : t.ops) if (o.kind == OP_LOG) s += o.a[8] * 3; return s; }
    long total_stall() { long s = 0; for (auto& f : p.faults) if (f.kind == FK_STALL || f.kind == FK_OVERSLEEP) s += f.p1; return s; }
    void spawn_all(int n) { for (int i = 1; i <= n; i++) add(0, OP_SPAWN, i); }
    // a first session, after which the queues continue as after some billions of records
    void aged(int cf, double q)
    {
        if (QUE > 64 || !ch(q)) return;
        p.profile += p.profile.empty() ? "aged" : "+aged";
        add(0, OP_START, 0, cf); for (int k = 3 * QUE + 2 + (int)r.below(4); k > 0; k--) for (size_t i = 0; i < c.ch.size(); i++) { Op o = log((int)i); o.a[6] = 24; o.a[7] = 1; o.a[8] = 0; T(0).push_back(o); }
        add(0, OP_STOP); add(0, OP_AGE, (ch(0.6) ? 1L << 31 : ch(0.7) ? 1L << 32 : 1L << 33) - rnd(0, 40)); add(0, OP_NOP);
    }
    void join_all(int n) { for (int i = 1; i <= n; i++) add(0, OP_JOIN, i); }
    void quiesce(long ms, int check = 1, int chn = -1) { add(0, OP_QUIESCE, ms, check, chn); }
    void new_life() { p.lives.push_back(LifePlan()); }
    long nops(int n) { return big ? n * 2 : n; }

    // ================================================================ plans
    void q_plan()
    {   // Q01 Q02 Q03 M01 base
        const std::string& P = p.prop;
        int nc = nch(1, 3); for (int i = 0; i < nc; i++) channel(false, (int)rnd(1, 4), true);
        int nt = (int)rnd(1, 6); if (P == "Q02" && nt < 2) nt = 2;
        p_pieces = P == "Q03" ? 0.6 : 0.2; lenmode = P == "Q03" ? 2 : 0; pause_max = ch(0.3) ? 40 : 3;
        int focus = ch(0.5) ? 0 : -1;
        int cf = put_cfg(); aged(cf, 0.05); add(0, OP_START, 0, cf);
        int per = (int)nops(rnd(3, 60 / nt + 4));
        if (ch(0.2)) logs(0, (int)rnd(1, 10), 0.1, 25, focus);
        for (int t = 1; t <= nt; t++)
        {
            logs((size_t)t, per, 0.08, ch(0.5) ? 3 : 25, focus);
            if (P == "Q02" && nt > 1 && ch(0.6)) { size_t at = r.below(T((size_t)t).size()); int other = (int)(t % nt) + 1; T((size_t)t).insert(T((size_t)t).begin() + (long)at, op(OP_WAITSEQ, other, (long)r.below((u64)per))); }
        }
        spawn_all(nt); if (ch(0.5)) logs(0, (int)rnd(1, 12), 0.1, 25, focus); join_all(nt);
        if (ch(0.3)) { quiesce(rnd(100, 400), 1); if (ch(0.5)) logs(0, (int)rnd(1, 5)); }
        stalls((int)r.below(4), nt + nc, 300); if (ch(0.3)) slow_io((int)rnd(1, 3), 200);
        if (ch(0.2)) fault(FK_OVERSLEEP, 0, rnd(1, 30), rnd(1, 500), rnd(0, 500));
        long slack = total_stall() + total_pause(); for (auto& f : p.faults) if (f.kind == FK_STALLIO) slack += f.p1 * 3 + f.p2 * 2;
        for (auto& o : T(0)) if (o.kind == OP_QUIESCE) o.a[0] += slack + 500;
        if (ch(0.8)) add(0, OP_STOP);
    }
    // statements that stream values after their text (only where no output fails)
    void values(double share)
    {
        auto harmless = [](long k) { return k == FK_STALLIO || k == FK_STALL || k == FK_OVERSLEEP || k == FK_SLOWTHREAD; };
        for (auto& f : p.faults) if (!harmless(f.kind)) return;
        for (auto& l : p.lives) for (auto& t : l.threads) for (auto& o : t.ops) if (o.kind == OP_FAULTWIN && !harmless(o.a[0])) return;
        Rng q(mix64(p.seed) ^ 0x7a1);
        if (!q.chance(0.5)) return;
        for (auto& l : p.lives) for (auto& t : l.threads) for (auto& o : t.ops) if (o.kind == OP_LOG && q.chance(share))
        {
            o.a[5] = 100 + (long)q.below(1000000000);
            if (prop_is_q03() && q.chance(0.6)) o.a[6] = std::max<long>(24, LOG - (long)q.range(0, 220));
        }
    }
    // statements executed while another one of the same thread is being composed (an argument that logs): never so many that
    // a thread would wait for room behind the record that it is itself composing
    void nested(double share)
    {
        Rng q(mix64(p.seed) ^ 0x3e57);
        if (!q.chance(0.35)) return;
        std::map<long, long> n; long all = 0; bool hook = false;
        for (auto& l : p.lives) for (auto& t : l.threads) for (auto& o : t.ops) { if (o.kind == OP_LOG) { n[o.a[0]]++; all++; } if (o.kind == OP_HOOK || o.kind == OP_AGE) hook = true; }
        if (hook) return;
        for (auto& l : p.lives) for (auto& t : l.threads) for (size_t i = 0; i + 1 < t.ops.size(); i++)
        {
            Op& o = t.ops[i]; Op& u = t.ops[i + 1];
            if (o.kind != OP_LOG || u.kind != OP_LOG || o.a[5] >= 100 || !q.chance(share)) continue;
            long a = o.a[0], b = u.a[0];
            if ((size_t)a < c.ch.size() && c.ch[(size_t)a].sync && a == b) continue;
            if (!(b > a || (a == b && n[a] < QUE - 2) || all < QUE - 2)) continue;
            if (o.a[7] < 2) o.a[7] = 2;
            o.a[7] += 8; i++;
        }
    }
    bool prop_is_q03() const { return p.prop == "Q03"; }
    void m_plan()
    {   // hand-off monitor: asynchronous and synchronous channels, restarts excluded
        p.knob["hb"] = 1; lenmode = 1;
        int nc = nch(1, 2); for (int i = 0; i < nc; i++) channel(ch(0.25), (int)rnd(1, 2), true);
        int nt = (int)rnd(1, 4); int cf = put_cfg(); aged(cf, 0.04); add(0, OP_START, 0, cf);
        int per = (int)rnd(4, 40 / nt + 6); if (big) per *= 1;
        for (int t = 1; t <= nt; t++) logs((size_t)t, per, 0.1, 20);
        spawn_all(nt); join_all(nt); if (ch(0.3)) quiesce(100, 0); stalls((int)r.below(3), nt + nc, 60);
        if (ch(0.7)) add(0, OP_STOP);
    }
    void q04()
    {
        int nc = nch(1, 2); for (int i = 0; i < nc; i++) channel(false, (int)rnd(1, 3), true);
        int nt = (int)rnd(2, 8); int cf = put_cfg(); aged(cf, 0.04); add(0, OP_START, 0, cf);
        p_pieces = 0.1; pause_max = ch(0.3) ? 1500 : 30;
        int per = (int)rnd(5, 100 / nt + 6); if (big) per = (int)rnd(100, 1300 / nt + 110);
        if (big) { lenmode = 1; p_pieces = 0.01; }
        for (int t = 1; t <= nt; t++) logs((size_t)t, per, 0.02, 5, ch(0.7) ? 0 : -1);
        if (ch(0.6)) add(0, OP_FAULTWIN, FK_STALLIO, rnd(20, 3000), ch(0.5) ? -1 : 0, rnd(5, 500));
        spawn_all(nt); if (ch(0.5)) { add(0, OP_SLEEP, rnd(1, 2000)); add(0, OP_FAULTEND, FK_STALLIO); }
        join_all(nt);
        stalls((int)rnd(0, 3), nt + nc, 2500); if (ch(0.3)) slow_io(1, 1500);
        long slack = 4000 + total_stall() + total_pause(); for (auto& f : p.faults) if (f.kind == FK_STALLIO) slack += f.p1 * 3 + f.p2 * 2;
        for (auto& o : T(0)) if (o.kind == OP_FAULTWIN) slack += o.a[1] + o.a[3] * 2;
        p.knob["log_limit_ms"] = slack + per * 50;
        quiesce(slack, 1); logs(0, 3); quiesce(500 + slack, 1); if (ch(0.7)) add(0, OP_STOP);
        p.knob["limit_ms"] = 200000 + slack * 4;
    }
    void rot_small(int chn, int d, bool bigfiles = false)
    {
        add(0, OP_SETDEV, chn, d, F_LIMIT, bigfiles ? rnd(20000, 60000) : rnd(200, 3000));
    }
    void q05()
    {
        int nc = nch(1, 2); bool rot = ch(0.35);
        for (int i = 0; i < nc; i++)
        {
            channel(i == 0 || ch(0.6), (int)rnd(1, 3), true, rot && i == 0 ? DT_FILE : 0);
            if (rot && i == 0) for (auto& d : c.ch.back().dev) if (d.type == DT_FILE) d.f[F_ROLL] = rnd(2, 5);
        }
        bool multi = ch(0.7); p.profile = multi ? "multi" : "single"; if (rot) p.profile += "+rotation";
        int cf = put_cfg(); add(0, OP_START, 0, cf);
        if (rot) for (size_t d = 0; d < c.ch[0].dev.size(); d++) if (c.ch[0].dev[d].type == DT_FILE) rot_small(0, (int)d);
        int nt = multi ? (int)rnd(2, 5) : (int)rnd(1, 3); p_pieces = 0.15; pause_max = multi ? 20 : 3;
        int per = (int)rnd(2, 50 / nt + 4);
        for (int t = 1; t <= nt; t++) logs((size_t)t, per, 0.1, 15, ch(0.7) ? 0 : -1);
        if (multi) { spawn_all(nt); if (ch(0.5)) logs(0, (int)rnd(1, 8)); join_all(nt); }
        else for (int t = 1; t <= nt; t++) { add(0, OP_SPAWN, t); add(0, OP_JOIN, t); }
        logs(0, 2, 0, 0, 0);
        stalls((int)r.below(4), nt, 100); if (ch(0.3)) slow_io(1, 200);
        if (ch(0.7)) add(0, OP_STOP);
    }
    void q06()
    {
        int nc = nch(2, 3); if (nc < 2) nc = 2;
        for (int i = 0; i < nc; i++) channel(ch(0.2), (int)rnd(1, 3), i == 1, i == 0 ? (ch(0.7) ? DT_FILE : DT_UDP) : 0);
        int cf = put_cfg(); add(0, OP_START, 0, cf); p_pieces = 0.05; pause_max = 2;
        int n0 = (int)rnd(1, 3), n1 = (int)rnd(1, 3), nt = n0 + n1;
        bool file0 = c.ch[0].dev[0].type == DT_FILE;
        long win = rnd(1000, 8000);
        int kind = file0 ? (ch(0.6) ? FK_STALLIO : pick({ FK_OPEN, FK_WRITE, FK_RENAME, FK_ENOSPC, FK_FSTAT })) : (ch(0.6) ? FK_STALLIO : FK_SENDTO);
        if (ch(0.3)) logs(0, 3, 0, 0, 0);
        add(0, OP_FAULTWIN, kind, win, 0, kind == FK_STALLIO ? rnd(100, 2000) : 0);
        for (int t = 1; t <= n0; t++) logs((size_t)t, (int)rnd(5, 30), 0.1, 50, 0);
        for (int t = n0 + 1; t <= nt; t++) { logs((size_t)t, (int)rnd(5, 30), 0.2, 60, -1); for (auto& o : T((size_t)t)) if (o.kind == OP_LOG && o.a[0] == 0) o.a[0] = 1 + (long)r.below((u64)nc - 1); }
        spawn_all(nt); for (int t = n0 + 1; t <= nt; t++) add(0, OP_JOIN, t);
        for (int k = 1; k < nc; k++) quiesce(200, 1, k);
        p.knob["log_limit_ms"] = 1500; p.knob["slow_ch"] = 0;
        for (int t = 1; t <= n0; t++) add(0, OP_JOIN, t);
        add(0, OP_FAULTEND, 0); if (ch(0.7)) add(0, OP_STOP);
        p.knob["stop_limit_ms"] = 120000; p.knob["limit_ms"] = 600000;
    }
    // a UDP input that nobody uses: one more socket the channel opens
    void udp_input() { size_t h = r.below(c.ch.size()); if (c.ch[h].sync || c.ch[h].dev.size() > 3) return; size_t d = c.ch[h].dev.size(); DevM v = dev(DT_FILE, (int)h, (int)d); v.in = true; v.f[F_PORT] = 9000 + (long)h * 32 + (long)d; c.ch[h].dev.push_back(v); }
    void l01()
    {
        int nc = nch(1, 3); for (int i = 0; i < nc; i++) channel(ch(0.2), (int)rnd(1, 3), true);
        if (ch(0.15)) udp_input();
        bool hot = ch(0.25); c.hot = hot;
        int cf = put_cfg(); int sessions = (int)rnd(1, 3); int tid = 1; p_pieces = 0.1; pause_max = 10;
        bool racing = ch(0.4); if (hot) p.knob["yaml_cfg"] = cf; p.profile = racing ? "racing" : "joined"; if (hot) p.profile += "_hot";
        for (int s = 0; s < sessions; s++)
        {
            add(0, OP_START, hot ? 1 : 0, cf);
            int nt = (int)rnd(0, 3), first = tid;
            for (int k = 0; k < nt; k++, tid++) { logs((size_t)tid, (int)nops(rnd(2, 25)), 0.15, 20); add(0, OP_SPAWN, tid); }
            logs(0, (int)nops(rnd(0, 20)), ch(0.5) ? 0 : 0.1);
            // the channels notice a new version just as they are stopped
            if (hot && ch(0.8)) { add(0, OP_SLEEP, rnd(0, 30)); add(0, OP_WRITECFG, cf, 1, 0, 0); add(0, OP_CLOCK, rnd(6000, 20000)); add(0, OP_SLEEP, rnd(0, 12)); }
            if (racing) { add(0, OP_SLEEP, rnd(0, 40)); add(0, OP_STOP); for (int k = first; k < tid; k++) add(0, OP_JOIN, k); }
            else { for (int k = first; k < tid; k++) add(0, OP_JOIN, k); if (s + 1 < sessions || ch(0.7)) add(0, OP_STOP); }
            if (ch(0.3)) { logs(0, 2); add(0, OP_SLEEP, rnd(0, 60)); }
        }
        stalls((int)r.below(4), tid + nc, 400); if (ch(0.4)) slow_io((int)rnd(1, 3), 300);
        p.knob["limit_ms"] = 400000;
    }
    void l02()
    {
        int nc = nch(1, 2); for (int i = 0; i < nc; i++) channel(ch(0.25), (int)rnd(1, 2), true);
        bool hot = ch(0.3); c.hot = hot; int cf = put_cfg(), cg = cf; p.knob["yaml_cfg"] = cf; p.profile = hot ? "hot" : "plain";
        if (!hot && ch(0.5)) { cg = second_cfg(0.25, true); p.profile = "two_configurations"; p.knob["strict_start"] = 1; }
        int nt = (int)rnd(2, 5); p_pieces = 0.15; pause_max = ch(0.3) ? 300 : 10;
        for (int t = 1; t <= nt; t++)
        {
            int n = (int)rnd(2, 14); double ps = r.uni() * 0.4;
            for (int i = 0; i < n; i++)
            {
                double u = r.uni();
                if (u < ps) add((size_t)t, OP_START, hot ? 1 : 0, ch(0.5) ? cf : cg); else if (u < 2 * ps) add((size_t)t, OP_STOP);
                else logs((size_t)t, (int)rnd(1, 4), 0.1, 20);
                if (ch(0.1)) add((size_t)t, OP_SLEEP, ch(0.2) && hot ? rnd(1000, 6000) : rnd(0, 40));
            }
        }
        if (ch(0.7)) add(0, OP_START, hot ? 1 : 0, cf); if (ch(0.3)) logs(0, 3);
        spawn_all(nt); if (hot && ch(0.5)) add(0, OP_WRITECFG, cf, 1, 0, 0); join_all(nt);
        if (cg != cf && ch(0.5)) { int n = (int)rnd(1, 3); for (int i = 0; i < n; i++) fault(FK_SLOWTHREAD, 0, rnd(1, 6), rnd(1, 300)); } // a start takes its time, the others race with it
        // whatever happened: a clean session
        add(0, OP_STOP); if (ch(0.2)) { add(0, OP_STOP); logs(0, 2); }
        add(0, OP_START, 0, ch(0.5) ? cf : cg);
        int n2 = (int)rnd(1, 3); for (int t = nt + 1; t <= nt + n2; t++) { logs((size_t)t, (int)rnd(3, 25), 0.1, 20); add(0, OP_SPAWN, t); }
        for (int t = nt + 1; t <= nt + n2; t++) add(0, OP_JOIN, t);
        logs(0, (int)rnd(1, 5));
        stalls((int)r.below(4), nt + n2 + nc, 200);
        quiesce(600 + total_stall() + total_pause(), 1); if (ch(0.6)) add(0, OP_STOP);
        p.knob["log_limit_ms"] = 10000 + total_stall() + total_pause();
        p.knob["limit_ms"] = 500000;
    }
    std::string bad_yaml()
    {
        switch (r.below(6))
        {
        case 0: return "";
        case 1: return "garbage: 1\n";
        case 2: return " - channel: 0\n    sync: async\n    -device: 1\n        out_type: file\n";
        case 3: { std::string s; for (int i = 0; i <= CH; i++) { char b[120]; snprintf(b, sizeof b, " - channel: %d\n    sync: async\n    -device: 0\n        disable: false\n        out_type: file\n        file: \"c%dd0\"\n", i, i); s += b; } return s; }
        case 4: return " - channel: 0\n    sync: async\n    -device: 0\n        out_type: file\n    -device: 0\n        out_type: screen\n";
        default: return " - channel: 1\n    sync: async\n    -device: 0\n        out_type: file\n";
        }
    }
    void l03()
    {
        int nc = nch(1, 3); for (int i = 0; i < nc; i++) channel(ch(0.2), (int)rnd(1, 2), true);
        int kind = (int)r.below(6); bool shm = kind == 4;
        if (shm) c.shm_key = 0x5151;
        if (ch(0.25)) udp_input();
        int good = put_cfg(); int other = good; if (shm && ch(0.6)) { long k0 = c.shm_key; c.shm_key = pick({ 0, 0x5252 }); other = put_cfg(); c.shm_key = k0; }   // the memory in use stays
        p.cfg.push_back(bad_yaml()); int bad = (int)p.cfg.size() - 1; p.knob["bad_cfg"] = 1L << bad; p.knob["yaml_cfg"] = good; p.knob["shm_key"] = 0x5151;
        static const char* PN[] = { "bad_config", "missing_file", "thread_fails", "thread_slow", "shm", "mixed" }; p.profile = PN[kind];
        if (ch(0.3)) { add(0, OP_START, 0, good); logs(0, (int)rnd(1, 10)); add(0, OP_STOP); }
        int fails = (int)rnd(1, 3);
        for (int i = 0; i < fails; i++)
        {
            int k = kind == 5 ? (int)r.below(4) : kind;
            if (k == 0) add(0, OP_START, 0, bad);
            else if (k == 1) add(0, OP_START, 2, 0);
            else { add(0, OP_FAULTWIN, k == 2 ? FK_THREAD : k == 3 ? FK_SLOWTHREAD : pick({ FK_SHMGET, FK_SHMAT }), -1, -1, k == 3 ? (ch(0.3) ? rnd(1, 120) : ch(0.3) ? -(1000000 + rnd(0, 400)) : rnd(900, 6000)) : 0); add(0, OP_START, 0, good); add(0, OP_FAULTEND, 0); if (ch(0.3)) add(0, OP_SLEEP, rnd(0, 8000)); }
            if (ch(0.3)) logs(0, 2);
            if (ch(0.2)) add(0, OP_STOP);
            if (other != good && ch(0.5)) { add(0, OP_STOP); add(0, OP_START, 0, ch(0.7) ? other : good); logs(0, (int)rnd(1, 6)); add(0, OP_STOP); }
        }
        if (ch(0.4) && (kind == 2 || kind == 3)) { fault(kind == 2 ? FK_THREAD : FK_SLOWTHREAD, 0, rnd(1, nc + 2), kind == 3 ? (ch(0.3) ? -(1000000 + rnd(0, 400)) : rnd(900, 5000)) : 0); add(0, OP_START, 0, good); add(0, OP_STOP); add(0, OP_FAULTEND, 0); }
        add(0, OP_STOP);
        add(0, OP_START, 0, ch(0.6) ? good : other); int nt = (int)rnd(1, 3); for (int t = 1; t <= nt; t++) logs((size_t)t, (int)rnd(3, 20), 0.1, 15);
        spawn_all(nt); join_all(nt); quiesce(800 + total_pause(), 1); if (ch(0.7)) add(0, OP_STOP);
        p.knob["limit_ms"] = 400000;
    }
    // another configuration for a later session; c stays the union for choosing channels
    int second_cfg(double p_sync, bool screen)
    {
        CfgM old = c; c.ch.clear(); int n2 = nch(1, 2); for (int i = 0; i < n2; i++) channel(ch(p_sync), (int)rnd(1, 3), screen);
        // the screen is one stream: keep the position of a channel's screen output
        for (size_t h = 0; h < c.ch.size() && h < old.ch.size(); h++) for (size_t d = 0; d < c.ch[h].dev.size(); d++) if (c.ch[h].dev[d].type == DT_SCREEN)
            for (size_t d2 = 0; d2 < old.ch[h].dev.size(); d2++) if (d2 != d && old.ch[h].dev[d2].type == DT_SCREEN) c.ch[h].dev[d] = dev(DT_FILE, (int)h, (int)d);
        int b = put_cfg(); if (old.ch.size() > c.ch.size()) c = old;
        return b;
    }
    void l04()
    {
        int nc = nch(1, 2); for (int i = 0; i < nc; i++) channel(ch(0.2), (int)rnd(1, 2), true);
        int a = put_cfg(), b = a;
        if (ch(0.4)) b = second_cfg(0.2, true);
        int nt = (int)rnd(1, 4); int sessions = (int)rnd(2, 4); p_pieces = 0.5; pause_max = ch(0.5) ? 60 : 1500;
        if (b != a) p.profile = "reconfigured"; else p.profile = "same";
        add(0, OP_START, 0, a);
        for (int t = 1; t <= nt; t++) logs((size_t)t, (int)rnd(3, 25), 0.3, 60);
        spawn_all(nt);
        for (int s = 1; s < sessions; s++)
        {
            p_pieces = 0.05; logs(0, (int)rnd(0, 15), 0.1); add(0, OP_SLEEP, ch(0.5) ? rnd(0, 30) : rnd(0, 500)); add(0, OP_STOP);
            if (ch(0.5)) add(0, OP_SLEEP, rnd(0, 200)); add(0, OP_START, 0, ch(0.5) ? a : b);
        }
        logs(0, (int)rnd(1, 12)); join_all(nt); logs(0, (int)rnd(1, QUE > 100 ? 20 : QUE + 10), 0.05);
        stalls((int)r.below(3), nt + nc, 300);
        if (ch(0.6)) add(0, OP_STOP);
        p.knob["limit_ms"] = 400000 + 4 * total_pause();
    }
    void crash(int lf)
    {
        if (ch(0.3)) { fault(FK_CRASH, lf, ch(0.5) ? rnd(1, 80) : rnd(1, QUE > 100 ? 40 : QUE + 20), 3, ch(0.6) ? rnd(1, 300) : rnd(1, 1500)); return; }   // while a statement is being composed
        int m = (int)r.below(3);
        fault(FK_CRASH, lf, m == 0 ? (ch(0.5) ? rnd(500, 20000) : rnd(500, 400000)) : m == 1 ? (ch(0.5) ? rnd(20, 500) : rnd(100, 12000)) : (ch(0.6) ? rnd(1, 40) : rnd(1, 200)), m);
    }
    void f01()
    {
        if (big && ch(0.5))
        {   // the configured unit: megabytes
            p.profile = "megabyte"; channel(ch(0.3), 1, false, DT_FILE); auto& d = c.ch[0].dev[0]; d.f[F_ROLL] = rnd(1, 3); d.f[F_LIMIT] = 1000000; int cf = put_cfg();
            add(0, OP_START, 0, cf); int n = (int)rnd(105, 320); lenmode = 2; for (int i = 0; i < n; i++) { Op o = log(0); o.a[6] = ch(0.9) ? 9900 : 200; o.a[5] = 0; o.a[7] = 1; o.a[8] = 0; T(0).push_back(o); if (ch(0.02)) add(0, OP_SLEEP, 20); }
            add(0, OP_STOP); p.knob["stdio_buf"] = 4096; p.knob["p_plain_ppm"] = 0; p.knob["sched"] = 0; p.knob["p_sync_ppm"] = 2000; return;
        }
        int lives = ch(0.5) ? 1 : (int)rnd(2, 3); p.profile = lives == 1 ? "one_process" : "crash_restart";
        bool deep = ch(0.15); if (deep) { p.profile = "many_backups"; lives = ch(0.7) ? 1 : 2; }
        int nc = deep ? 1 : nch(1, 2); for (int i = 0; i < nc; i++) { channel(ch(0.3), deep ? 1 : (int)rnd(1, 2), false, DT_FILE); for (auto& d : c.ch.back().dev) { d.f[F_ROLL] = deep ? rnd(9, 13) : rnd(1, 4); d.f[F_STUFF] = ch(0.5); if (ch(0.15)) d.f[ch(0.5) ? F_HOURLY : F_DAILY] = 1; if (ch(0.06)) d.path = "log/" + std::string((size_t)rnd(120, 190), 'p') + "/"; } }
        int cf = put_cfg();
        for (int l = 0; l < lives; l++)
        {
            if (l) new_life();
            int sess = ch(0.7) ? 1 : 2; int tid = 1; bool last = l + 1 == lives;
            for (int s = 0; s < sess; s++)
            {
                add(0, OP_START, 0, cf); for (size_t h = 0; h < c.ch.size(); h++) for (size_t d = 0; d < c.ch[h].dev.size(); d++) rot_small((int)h, (int)d);
                int nt = (int)rnd(0, 3), f = tid; for (int k = 0; k < nt; k++, tid++) { logs((size_t)tid, (int)rnd(3, 25), 0.3, 60); add(0, OP_SPAWN, tid); }
                logs(0, deep ? (int)rnd(25, 60) : (int)rnd(5, 30), 0.3, 60); if (ch(0.04)) { add(0, OP_CLOCK, rnd(1, 30) * 3600000); logs(0, (int)rnd(1, 10)); } for (int k = f; k < tid; k++) add(0, OP_JOIN, k);
                if (s + 1 < sess || ch(0.7)) add(0, OP_STOP);
            }
            if (!last) { if (ch(0.8)) crash(l); else if (ch(0.5)) add(0, OP_EXITLIFE, 1); }
        }
        if (ch(0.3)) { int n = (int)rnd(1, 3); for (int i = 0; i < n; i++) fault(ch(0.7) ? FK_RENAME : FK_UNLINK, (int)r.below((u64)lives), rnd(1, 12), 0, ch(0.6) ? 0 : rnd(1, 80)); }
        p.knob["stdio_buf"] = pick({ 256, 1024, 4096 });
    }
    // interesting instants: near a local midnight, hour, or offset change
    long boundary(int tz)
    {
        static const long DST[6][4] = { { 0 }, { 0 }, { 1710054000, 1730613600, 1741503600, 1762063200 }, { 1711846800, 1729990800, 1743296400, 1761440400 }, { 0 }, { 1728142200, 1712415600, 1759591800, 1743865200 } };
        if (DST[tz][0] && ch(0.45)) { long b = DST[tz][r.below(4)]; return ch(0.5) ? b : b + (ch(0.5) ? 1 : -1) * rnd(0, 30) * 3600; }
        setenv("TZ", TZS[tz], 1); tzset();
        struct tm t; memset(&t, 0, sizeof t); t.tm_year = 124 + (int)r.below(2); t.tm_mon = (int)r.below(12); t.tm_mday = (int)rnd(1, 31); t.tm_hour = ch(0.5) ? 0 : (int)r.below(24); t.tm_isdst = -1;
        return (long)mktime(&t);
    }
    // steps of hours, and steps of the size of the retry delays
    long step_back() { return ch(0.5) ? rnd(-8000, 500) : rnd(-7200, 100) * 1000 + rnd(-999, 999); }
    void clock_jump(size_t t) { long s; switch (r.below(10)) { case 8: s = (ch(0.7) ? 1 : -1) * pick({ 28, 29, 30, 31 }) * 86400L + rnd(-3600, 3600); break; case 9: s = (ch(0.7) ? 1 : -1) * pick({ 365, 366, 730 }) * 86400L + (ch(0.7) ? 0 : rnd(-7200, 7200)); break; case 0: s = 86400; break; case 1: s = -86400; break; case 2: s = 3600; break; case 3: s = -3600; break; case 4: s = rnd(-100, 100); break; case 5: s = rnd(1, 5) * 86400 + rnd(-7200, 7200); break; case 6: s = rnd(1, 40) * 3600; break; default: s = -rnd(1, 7200); } add(t, OP_CLOCK, s * 1000 + rnd(-999, 999)); }
    void time_setup() { int tz = (int)r.below(6); p.knob["tz"] = tz; p.knob["start_s"] = boundary(tz) - (ch(0.7) ? rnd(0, 8) : rnd(0, 4000)); p.knob["start_us"] = rnd(0, 999999); }
    void f02()
    {
        time_setup(); int nc = nch(1, 2); static const char* pat[] = { "_$YEAR$MON$DAY", "_$YEAR-$MON-$DAY", "_$DAY", "_$MON$DAY" };
        bool names = ch(0.25);
        for (int i = 0; i < nc; i++)
        {
            channel(ch(0.3), (int)rnd(1, 2), false, DT_FILE);
            for (auto& d : c.ch.back().dev)
            {
                bool hourly = ch(0.4); std::string pt = pat[r.below(3)]; if (hourly) pt += "_$HOUR";
                if (hourly) d.f[F_HOURLY] = 1; else d.f[F_DAILY] = 1;
                if (ch(0.75)) d.file += pt; else { d.path = "log/" + pt.substr(1); }
                if (names && ch(0.4)) { static const char* N[] = { "_%F", "_$PNAME_%F", "_$PID$YEAR$MON$DAY", "$PNAME$PNAME_%F_x" }; d.file = d.file.substr(0, d.file.find('_')) + N[r.below(4)] + (hourly ? "-$HOUR" : ""); }
                else if (names && !hourly && ch(0.6)) d.file = "";
            }
        }
        if (ch(0.3)) { for (auto& h : c.ch) for (auto& d : h.dev) d.f[F_ROLL] = rnd(1, 4); p.profile = "backups"; }
        bool lim = !p.profile.empty() && ch(0.3); if (lim) p.profile += "+limit";
        bool sw = ch(0.25); if (sw && ch(0.5)) for (auto& h : c.ch) for (auto& d : h.dev) d.f[F_DAILY] = d.f[F_HOURLY] = 0;
        if (nc > 1 && ch(0.2))
        {   // a hook copies the records of one channel to the other
            int from = (int)r.below(2); DevM v; v.type = DT_VIRTUAL; c.ch[(size_t)from].dev.push_back(v); p.profile += p.profile.empty() ? "copied" : "+copied"; add(0, OP_HOOK, 2, 1 - from);
        }
        int cf = put_cfg(); add(0, OP_START, 0, cf); force_prefix = 1; p_pieces = 0.25; pause_max = ch(0.5) ? 30 : 3000;
        if (lim) for (size_t h = 0; h < c.ch.size(); h++) for (size_t d = 0; d < c.ch[h].dev.size(); d++) rot_small((int)h, (int)d);
        auto roll = [&]() { int h = (int)r.below(c.ch.size()); size_t d = r.below(c.ch[(size_t)h].dev.size()); bool on = ch(0.75); bool hr = (c.ch[(size_t)h].dev[d].file + c.ch[(size_t)h].dev[d].path).find("$HOUR") != std::string::npos; add(0, OP_SETDEV, h, (long)d, hr ? F_HOURLY : F_DAILY, on); };
        int nt = (int)rnd(0, 3); for (int t = 1; t <= nt; t++) logs((size_t)t, (int)rnd(3, 15), 0.4, ch(0.5) ? 50 : 3000);
        spawn_all(nt);
        int n = (int)rnd(3, 12); for (int i = 0; i < n; i++) { logs(0, (int)rnd(1, 4), 0.2, 1500); if (sw && ch(0.5)) roll(); if (ch(0.5)) clock_jump(0); if (ch(0.3)) { p.lives[0].threads[0].ops.push_back(op(OP_CLOCK, rnd(0, 5000))); } }
        join_all(nt); logs(0, 2); if (ch(0.3)) fault(FK_CLOCKSTEP, 0, rnd(1, 300), rnd(-4000, 4000));
        if (ch(0.6)) stalls((int)rnd(1, 3), nt + nc, 3000);
        if (ch(0.7)) add(0, OP_STOP); p.knob["limit_ms"] = 400000;
    }
    void f03()
    {
        int nc = nch(1, 2); bool rot = ch(0.3);
        for (int i = 0; i < nc; i++) { channel(ch(0.25), (int)rnd(1, 3), true, i == 0 && ch(0.5) ? DT_FILE : 0); if (i == 0 && c.ch[0].dev[0].type != DT_FILE) c.ch[0].dev[0] = dev(DT_FILE, 0, 0); }
        if (rot) for (auto& d : c.ch[0].dev) if (d.type == DT_FILE) d.f[F_ROLL] = rnd(1, 4);
        int cf = put_cfg(); add(0, OP_START, 0, cf); if (rot) for (size_t d = 0; d < c.ch[0].dev.size(); d++) if (c.ch[0].dev[d].type == DT_FILE) rot_small(0, (int)d);
        if (!rot && ch(0.2))
        {   // a long outage with backups but no size limit
            p.profile = "outage"; lenmode = pick({ 0, 2, 2 }); for (auto& h : c.ch) for (auto& d : h.dev) if (d.type == DT_FILE) d.f[F_ROLL] = rnd(1, 3);
            p.cfg.clear(); put_cfg(); int k = pick({ FK_OPEN, FK_FSTAT, FK_WRITE, FK_SHORTW, FK_ENOSPC, FK_CLOSE }); p.profile += std::string("_") + FK_NAMES[k];
            if (ch(0.8)) { for (size_t h = 0; h < c.ch.size(); h++) logs(0, (int)rnd(1, 6), 0, 0, (int)h); quiesce(150, 0); }
            add(0, OP_FAULTWIN, k, -1, ch(0.6) ? 0 : -1, k == FK_SHORTW ? rnd(1, 60) : k == FK_WRITE ? EIO : 0);
            for (int n = (int)rnd(3, 12); n > 0; n--) { logs(0, (int)rnd(1, 4), 0.1, 25, ch(0.6) ? 0 : -1); add(0, OP_SLEEP, ch(0.3) ? rnd(100, 5000) : rnd(5000, 7000)); }
            add(0, OP_FAULTEND, 0); add(0, OP_SLEEP, rnd(6500, 9000)); logs(0, (int)rnd(2, 12)); quiesce(500, 1); if (ch(0.7)) add(0, OP_STOP);
            p.knob["stdio_buf"] = pick({ 256, 256, 256, 1024, 4096 }); p.knob["limit_ms"] = 400000; return;
        }
        int nt = (int)rnd(1, 3); p_pieces = 0.1; pause_max = 5;
        int kind = pick({ FK_OPEN, FK_FSTAT, FK_WRITE, FK_SHORTW, FK_ENOSPC, FK_FSYNC, FK_RENAME, FK_MKDIR, FK_OPENDIR, FK_UNLINK, FK_CLOSE, FK_WRITE, FK_OPEN }); p.profile = FK_NAMES[kind];
        bool early = ch(0.4);
        long err = kind == FK_SHORTW ? rnd(1, 60) : kind == FK_WRITE ? (ch(0.3) ? EINTR : EIO) : 0;
        if (!early) { logs(0, (int)rnd(1, 6)); quiesce(150, 0); }
        bool win = ch(0.6);
        if (win) add(0, OP_FAULTWIN, kind, -1, ch(0.6) ? 0 : -1, err);
        else { int n = (int)rnd(1, 4); for (int i = 0; i < n; i++) fault(kind, 0, rnd(1, 15), err, ch(0.5) ? 0 : rnd(1, 2000), ch(0.6) ? 0 : -1); }
        for (int t = 1; t <= nt; t++) logs((size_t)t, (int)rnd(2, 15), 0.3, 200);
        spawn_all(nt); if (ch(0.4)) { add(0, OP_SLEEP, rnd(0, 8000)); logs(0, 2); } join_all(nt);
        if (ch(0.2)) add(0, OP_CLOCK, step_back());
        add(0, OP_FAULTEND, 0); add(0, OP_SLEEP, rnd(6500, 9000)); logs(0, (int)rnd(2, 12)); quiesce(500, 1);
        if (ch(0.3)) stalls(1, nt + nc, 100);
        for (auto& o : T(0)) if (o.kind == OP_QUIESCE) o.a[0] += total_stall() + total_pause();
        if (ch(0.7)) add(0, OP_STOP); p.knob["stdio_buf"] = pick({ 256, 1024, 4096 }); p.knob["limit_ms"] = 400000;
    }
    void setter(size_t t)
    {
        int h = (int)r.below(c.ch.size()); int f; long v;
        double u = r.uni(); bool onch = u < 0.3, bch = u >= 0.3 && u < 0.4, bdev = u >= 0.4 && u < 0.55;
        f = (onch || bch) ? pick({ F_PRI, F_CATX, F_CATM, F_IDX, F_IDM, F_CAT, F_ID }) :  pick({ F_PRI, F_CATX, F_CATM, F_IDX, F_IDM, F_CAT, F_ID, F_ABLE, F_ABLE });
        if (f == F_CATM && coff) f = F_CAT;
        if (f == F_IDM && ioff) f = F_ID;
        v = f == F_PRI ? rnd(0, 6) : f == F_ABLE ? (ch(0.65) ? 1 : 0) : f == F_CATM || f == F_IDM ? (ch(0.4) ? 0 : wide ? mask() : rnd(1, 127)) : (f == F_CATX || f == F_IDX) ? (ch(0.5) ? 0 : wide ? rnd(1, 64) : rnd(1, 6)) : wide ? rnd(0, 40) : (f == F_CAT ? coff : ioff) + rnd(0, 4);
        if (onch) add(t, OP_SETCH, h, f, v); else if (bch) add(t, OP_BATCHCH, f, v); else if (bdev) add(t, OP_BATCHDEV, rnd(0, 3), f, v);
        else add(t, OP_SETDEV, h, (long)r.below(c.ch[(size_t)h].dev.size()), f, v);
    }
    void g01()
    {
        filter_values(); int nc = nch(1, 2); for (int i = 0; i < nc; i++) { channel(ch(0.3), (int)rnd(1, 4), true); if (ch(0.6)) rand_filter(c.ch.back().f, false); for (auto& d : c.ch.back().dev) if (ch(0.7)) rand_filter(d.f, true); }
        int cf = put_cfg(); add(0, OP_START, 0, cf); filters = true; lenmode = 1; bool dyn = ch(0.7); p.profile = dyn ? "changing" : "static";
        int nt = (int)rnd(0, 4); for (int t = 1; t <= nt; t++) { int n = (int)rnd(2, 12); for (int i = 0; i < n; i++) { logs((size_t)t, (int)rnd(1, 5), 0.1, 20); if (dyn && ch(0.3)) setter((size_t)t); } }
        spawn_all(nt); int n = (int)rnd(2, 15); for (int i = 0; i < n; i++) { logs(0, (int)rnd(1, 5), 0.1, 20); if (dyn) { if (ch(0.3)) quiesce(60 + total_pause(), 0); setter(0); } }
        join_all(nt); stalls((int)r.below(3), nt + nc, 40); for (auto& o : T(0)) if (o.kind == OP_QUIESCE) o.a[0] += total_stall() + 200;
        add(0, OP_STOP);
    }
    void g02()
    {
        filter_values(); int nc = nch(1, 3); int vch = (int)r.below((u64)nc); int two = ch(0.3);
        for (int i = 0; i < nc; i++)
        {
            channel(ch(0.2), (int)rnd(1, 2), true);
            if (i == vch || (two && ch(0.5))) { DevM v; v.type = DT_VIRTUAL; if (ch(0.5)) rand_filter(v.f, false); size_t at = r.below(c.ch.back().dev.size() + 1); if (at > 0) at = c.ch.back().dev.size(); c.ch.back().dev.insert(c.ch.back().dev.begin() + (long)at, v); for (size_t d = 0; d < c.ch.back().dev.size(); d++) { auto& x = c.ch.back().dev[d]; if (x.type == DT_FILE || x.type == DT_UDP) { auto y = dev(x.type, i, (int)d); x.file = y.file; x.path = y.path; x.f[F_PORT] = y.f[F_PORT]; } } }
            if (ch(0.3)) rand_filter(c.ch.back().f, false);
            for (auto& d : c.ch.back().dev) if (d.type != DT_VIRTUAL && ch(0.25)) rand_filter(d.f, true);
        }
        int mode = nc > 1 && ch(0.7) ? (ch(0.5) ? 3 : 2) : 1;    // 3: the copies have another category and identify
        if (mode >= 2)
        {   // an original and its copy look the same on a shared screen: only one channel shows there
            size_t keep = r.below((u64)nc);
            for (size_t i = 0; i < (size_t)nc; i++) if (i != keep) for (size_t d = 0; d < c.ch[i].dev.size(); d++) if (c.ch[i].dev[d].type == DT_SCREEN) { DevM y = dev(DT_FILE, (int)i, (int)d); memcpy(y.f, c.ch[i].dev[d].f, sizeof y.f); c.ch[i].dev[d] = y; }
        }
        int cf = put_cfg(); p.profile = mode >= 2 ? "transmit" : "observe"; add(0, OP_HOOK, mode, (vch + 1) % nc); filters = true;
        bool dyn = ch(0.3); if (dyn) { p.profile += "_changing"; p.knob["p_plain_ppm"] = pick({ 500, 5000, 30000, 100000 }); }
        add(0, OP_START, 0, cf); int nt = (int)rnd(1, 4); for (int t = 1; t <= nt; t++) logs((size_t)t, (int)rnd(3, 20), 0.1, 20);
        if (dyn) { nt++; int n = (int)rnd(2, 12); for (int i = 0; i < n; i++) { if (ch(0.5)) add((size_t)nt, OP_SLEEP, rnd(1, 15)); logs((size_t)nt, (int)rnd(0, 2), 0.1, 10); add((size_t)nt, OP_HOOK, i % 2 ? mode : 0, (vch + 1) % nc); } }
        spawn_all(nt); logs(0, (int)rnd(0, 8)); join_all(nt); if (ch(0.3)) { setter(0); logs(0, 4); } stalls((int)r.below(3), nt + nc, 100); if (ch(0.8)) add(0, OP_STOP);
    }
    CfgM variation()
    {
        CfgM d = c; for (auto& h : d.ch) { for (int i = 0; i < 7; i++) h.f[i] = 0; if (ch(0.5)) rand_filter(h.f, false); for (auto& v : h.dev) { for (int i = 0; i < 7; i++) v.f[i] = 0; v.f[F_ABLE] = 1; if (ch(0.6)) rand_filter(v.f, true); if (v.type == DT_UDP && ch(0.4)) v.f[F_PORT] = v.f[F_PORT] % 10000 + 10000 * rnd(0, 2); if (v.file.find("$HOUR") != std::string::npos) { v.f[F_HOURLY] = ch(0.6); v.f[F_DAILY] = ch(0.1); } } }
        return d;
    }
    void h_plan(bool bad)
    {
        filter_values();
        c.hot = true; int nc = nch(1, 3); for (int i = 0; i < nc; i++) channel(false, (int)rnd(1, 3), true);
        if (!bad && ch(0.3)) for (auto& h : c.ch) for (auto& v : h.dev) if (v.type == DT_FILE && ch(0.5)) { v.file += "_$MON$DAY_$HOUR"; v.f[F_HOURLY] = ch(0.5); }
        if (!bad && ch(0.3)) { add(0, OP_HOOK, 1, -1); if (ch(0.5)) { auto& h = c.ch[r.below(c.ch.size())]; if (h.dev.size() < 4) { DevM v; v.type = DT_VIRTUAL; h.dev.push_back(v); } } }
        int first = put_cfg(); p.knob["yaml_cfg"] = first; std::vector<int> good; int n = (int)rnd(1, 3);
        for (int i = 0; i < n; i++) { CfgM d = variation(); if (!bad && ch(0.2)) { size_t h = r.below(d.ch.size()); if (d.ch[h].dev.size() < 4) { bool hooked = false; for (auto& v : d.ch[h].dev) if (v.type == DT_VIRTUAL) hooked = true; d.ch[h].dev.push_back(dev(!hooked && ch(0.35) ? DT_VIRTUAL : ch(0.3) ? DT_UDP : DT_FILE, (int)h, (int)d.ch[h].dev.size())); c.ch[h].dev = d.ch[h].dev; } } if (!bad && i == n - 1 && ch(0.15)) d.hot = false; if (!bad && (int)d.ch.size() < CH && ch(0.15)) { ChM x; x.sync = false; x.dev.push_back(dev(DT_FILE, (int)d.ch.size(), 0)); d.ch.push_back(x); } p.cfg.push_back(cfg_yaml(d)); good.push_back((int)p.cfg.size() - 1); }
        std::vector<int> bads; if (bad) { int m = (int)rnd(1, 2); for (int i = 0; i < m; i++) { p.cfg.push_back(bad_yaml()); bads.push_back((int)p.cfg.size() - 1); p.knob["bad_cfg"] = p.knob["bad_cfg"] | (1L << bads.back()); } }
        filters = true; lenmode = 1; add(0, OP_START, 1, first);
        bool older = !bad && ch(0.3); if (older) p.profile = "older_file"; //each version with an earlier time, as restored from a backup
        int nt = (int)rnd(1, 3); for (int t = 1; t <= nt; t++) logs((size_t)t, (int)rnd(5, 30), 0.5, 2500); spawn_all(nt);
        logs(0, 3);
        for (int i = 0; i < n; i++)
        {
            if (bad)
            {
                int m = (int)rnd(1, 3);
                for (int k = 0; k < m; k++)
                {
                    switch (r.below(4))
                    {
                    case 0: add(0, OP_WRITECFG, good[(size_t)i], 1, 2, 0); break;
                    case 1: add(0, OP_WRITECFG, good[(size_t)i], 1, 3, 0); break;
                    case 2: add(0, OP_WRITECFG, bads[r.below(bads.size())], rnd(1, 5), ch(0.5) ? 0 : 1, 0); break;
                    default: { long len = (long)p.cfg[(size_t)good[(size_t)i]].size(); (void)len; add(0, OP_WRITECFG, bads[r.below(bads.size())], rnd(1, 3), 1, 0); }
                    }
                    logs(0, (int)rnd(0, 3), 0.2, 400); add(0, OP_SLEEP, rnd(0, 7000)); logs(0, (int)rnd(1, 3)); quiesce(100, 0);
                }
            }
            add(0, OP_WRITECFG, good[(size_t)i], older ? -rnd(1, 100) - (ch(0.2) ? 40000000 : 0) : rnd(1, 100), ch(0.7) ? 0 : 1, 0);
            logs(0, (int)rnd(0, 6), 0.4, 2500);
            if (ch(0.3)) clock_jump_any(0);
            add(0, OP_SLEEP, 2 * sut_hot_interval() * 1000 + 4000); quiesce(100, 0); logs(0, (int)rnd(3, 8), 0.1, 20); quiesce(300, 0);
        }
        join_all(nt); stalls((int)r.below(3), nt + nc, 60); long s = total_stall() + total_pause(); p.knob["hot_slack_ms"] = s;
        for (auto& o : T(0)) { if (o.kind == OP_QUIESCE) o.a[0] += s; if (o.kind == OP_SLEEP && o.a[0] >= 2 * sut_hot_interval() * 1000) o.a[0] += s; }
        if (ch(0.7)) add(0, OP_STOP); p.knob["limit_ms"] = 900000; p.knob["step_cap"] = 30000000;
    }
    void clock_jump_any(size_t t) { add(t, OP_CLOCK, ch(0.3) ? rnd(-9000, 9000) : rnd(-7200, 7200) * 1000); }
    void s_plan(int which)
    {
        c.shm_key = 0x5151; p.knob["shm_key"] = 0x5151;
        int nc = nch(1, 2); for (int i = 0; i < nc; i++) channel(ch(0.2), (int)rnd(1, 2), false, DT_FILE);
        int cf = put_cfg(); int lives = (int)rnd(2, 3), cf2 = cf; if (ch(0.15)) { c.shm_key = pick({ 0, 0x5252 }); cf2 = put_cfg(); c.shm_key = 0x5151; } p_pieces = which == 2 ? 0.7 : 0.3; pause_max = which == 2 ? 60 : 10;
        if (which == 3 && ch(0.12))
        {
            p.profile = "foreign"; p.knob["foreign_seg"] = rnd(1, 3); add(0, OP_START, 0, cf); logs(0, 2); if (ch(0.5)) { add(0, OP_STOP); add(0, OP_START, 0, cf); } logs(0, 2); p.knob["limit_ms"] = 60000; return;
        }
        bool rot = which == 1 && ch(0.2), sw = which == 1 && ch(0.25);
        if (rot) { p.profile = "rotated"; for (auto& h : c.ch) for (auto& v : h.dev) { v.f[F_ROLL] = 30; v.f[F_STUFF] = ch(0.5); } p.cfg.clear(); cf = cf2 = put_cfg(); }
        if (sw) { p.profile = "switched"; p.knob["fw"] = 1; }
        aged(cf, 0.04);
        for (int l = 0; l < lives; l++)
        {
            if (l) new_life();
            bool last = l + 1 == lives; int tid = 1; int sess = ch(cf2 == cf ? 0.85 : 0.3) ? 1 : 2; bool swl = sw && (l == 0 || ch(0.4));
            for (int s = 0; s < sess; s++)
            {
                add(0, OP_START, 0, s ? cf2 : cf); if (rot) for (size_t h = 0; h < c.ch.size(); h++) for (size_t d = 0; d < c.ch[h].dev.size(); d++) if (ch(0.8)) rot_small((int)h, (int)d);
                int nt = (int)rnd(0, 3), f = tid; for (int k = 0; k < nt; k++, tid++) { logs((size_t)tid, (int)rnd(2, 20), 0.2, 30); add(0, OP_SPAWN, tid); }
                if (swl) for (int k = (int)rnd(1, 3); k > 0; k--) { logs(0, (int)rnd(1, 6), 0.05, 3); int h = (int)r.below(c.ch.size()); long dv = (long)r.below(c.ch[(size_t)h].dev.size()); add(0, OP_SETDEV, h, dv, F_ABLE, 0); if (ch(0.4)) { logs(0, (int)rnd(0, 2), 0.3, 20); add(0, OP_SETDEV, h, dv, F_ABLE, 1); } }
                logs(0, (int)rnd(1, 20), 0.15, 30); for (int k = f; k < tid; k++) add(0, OP_JOIN, k);
                if (last) quiesce(400, 0);
                if (s + 1 < sess || last || ch(0.4)) add(0, OP_STOP);
            }
            if (!last)
            {
                if (which == 3 && ch(0.4)) fault(FK_CRASH, l, rnd(1, 12), 2);                                        // during start or recovery
                else if (which == 3 && ch(0.3)) fault(FK_CRASH, l, rnd(10, 3000), 0);
                else crash(l);
                if (ch(0.3)) fault(FK_STALLIO, l, rnd(1, 20), rnd(20, 300), 0, -1);
            }
        }
        if (ch(0.3)) stalls(1, 4, 60);
        p.knob["stdio_buf"] = pick({ 256, 4096, 4096 }); p.knob["limit_ms"] = 400000;
    }
    void u01()
    {
        int nc = nch(1, 2); for (int i = 0; i < nc; i++) { channel(ch(0.35), (int)rnd(1, 3), true); if (i == 0) c.ch[0].dev[0] = dev(DT_UDP, 0, 0); }
        int cf = put_cfg(); add(0, OP_START, 0, cf); lenmode = 0; p.knob["udp_lost"] = 1;
        bool faulty = ch(0.6); int nt = (int)rnd(1, 3); int kind = pick({ FK_SENDTO, FK_SENDTO, FK_SOCKET, FK_FCNTL }); bool both = faulty && kind == FK_FCNTL && ch(0.6); p.profile = faulty ? FK_NAMES[kind] : "clean";
        if (both) { fault(FK_FCNTL, 0, rnd(1, 3), 0, 0); add(0, OP_FAULTWIN, FK_SENDTO, -1, -1, pick({ EAGAIN, EAGAIN, ENOBUFS })); }   // the buffer is full as well
        else if (faulty) { if (ch(0.4)) { logs(0, 3); quiesce(100, 0); } if (ch(0.6)) add(0, OP_FAULTWIN, kind, -1, -1, kind == FK_SENDTO ? pick({ EAGAIN, ENOBUFS, ECONNREFUSED, EPERM, EMSGSIZE }) : 0); else fault(kind, 0, rnd(1, 8), kind == FK_SENDTO ? EAGAIN : 0, rnd(0, 2000)); }
        bool moves = ch(0.35); auto move = [&](size_t t) { int h = (int)r.below(c.ch.size()); for (size_t d = 0; d < c.ch[(size_t)h].dev.size(); d++) if (c.ch[(size_t)h].dev[d].type == DT_UDP) add(t, OP_SETDEV, h, (long)d, F_PORT, 8000 + h * 32 + (long)d + 10000 * rnd(0, 2)); };
        for (int t = 1; t <= nt; t++) { logs((size_t)t, (int)rnd(3, 25), 0.2, 60); if (moves && ch(0.4)) { move((size_t)t); logs((size_t)t, (int)rnd(1, 8), 0.2, 60); } }
        spawn_all(nt); logs(0, (int)rnd(0, 8), 0.2, 300); if (moves) { move(0); logs(0, (int)rnd(1, 6), 0.2, 100); } join_all(nt);
        if (moves) { if (ch(0.6)) quiesce(100 + total_pause(), 0); move(0); logs(0, (int)rnd(1, 6)); }
        if (faulty) { if (ch(0.2)) add(0, OP_CLOCK, step_back()); add(0, OP_FAULTEND, 0); add(0, OP_SLEEP, rnd(5500, 7000)); logs(0, (int)rnd(2, 8)); }
        p.knob["log_limit_ms"] = 3000; if (!faulty) { stalls((int)r.below(3), nt + nc, 100); }
        quiesce(300 + total_stall() + total_pause(), 1); add(0, OP_COUNTERS, nc, 4);
        p.knob["log_limit_ms"] = 3000 + total_stall() + total_pause();
        if (ch(0.7)) add(0, OP_STOP);
    }
    void u02()
    {
        int nc = nch(1, 2); for (int i = 0; i < nc; i++) { channel(false, (int)rnd(1, 3), false); if (i == 0 || ch(0.4)) { size_t d = r.below(c.ch.back().dev.size()); DevM v = dev(ch(0.75) ? DT_FILE : DT_SCREEN, i, (int)d); if (v.type == DT_SCREEN && i) v = dev(DT_FILE, i, (int)d); v.in = true; v.f[F_PORT] = 9000 + i * 32 + (int)d; c.ch.back().dev[d] = v; } }
        int cf = put_cfg(); add(0, OP_START, 0, cf); quiesce(60, 0);
        std::vector<std::pair<int,int>> ins; for (size_t h = 0; h < c.ch.size(); h++) for (size_t d = 0; d < c.ch[h].dev.size(); d++) if (c.ch[h].dev[d].in) ins.push_back({ (int)h, (int)d });
        auto dg = [&](size_t t) { auto x = ins[r.below(ins.size())]; bool screen = c.ch[(size_t)x.first].dev[(size_t)x.second].type == DT_SCREEN; double u = r.uni(); long len = u < 0.7 ? rnd(24, 150) : u < 0.9 ? rnd(24, LOG - 3) : u < 0.96 ? LOG - rnd(2, 8) : LOG + rnd(-2, ch(0.5) ? 2 : 90); add(t, OP_DGRAM, x.first, x.second, len, ch(0.7) ? 1 : rnd(2, 12), screen ? 0 : ch(0.3)); };
        int nt = (int)rnd(1, 3); for (int t = 1; t <= nt; t++) { int n = (int)rnd(3, 15); for (int i = 0; i < n; i++) { if (ch(0.5)) dg((size_t)t); else logs((size_t)t, 1, 0.2, 30); if (ch(0.3)) add((size_t)t, OP_SLEEP, rnd(0, 30)); } }
        bool faulty = ch(0.4); int kind = pick({ FK_RECV, FK_RECV, FK_SOCKET, FK_BIND, FK_FCNTL }); p.profile = faulty ? FK_NAMES[kind] : "clean";
        if (faulty) { if (kind == FK_RECV) for (int i = 0; i < 3; i++) fault(FK_RECV, 0, rnd(1, 60), pick({ EINTR, EAGAIN, ECONNREFUSED, ENOMEM }), ch(0.5) ? 0 : rnd(1, 500)); else fault(kind, 0, rnd(1, 2), 0, rnd(0, 3000)); }
        else if (ch(0.3)) { auto x = ins[0]; add(0, OP_SETDEV, x.first, x.second, F_ABLE, 0); quiesce(100, 0); add(0, OP_SETDEV, x.first, x.second, F_ABLE, 1); quiesce(ch(0.5) ? 3500 : 6000, 0); p.profile = "rebind"; }
        spawn_all(nt); for (int i = 0; i < 5; i++) { if (ch(0.5)) dg(0); if (ch(0.5)) logs(0, 1); } join_all(nt);
        if (faulty) { if (ch(0.2)) add(0, OP_CLOCK, step_back()); add(0, OP_SLEEP, 6000); dg(0); logs(0, 2); }
        if (!faulty && ch(0.15)) { auto x = ins[r.below(ins.size())]; p.profile = "flood"; add(0, OP_FLOOD, x.first, x.second, 5000, 700); add(0, OP_SLEEP, rnd(0, 900)); logs(0, (int)rnd(2, 8)); quiesce(2800 + total_pause(), 1); }
        stalls((int)r.below(2), nt + nc, 100); quiesce(800 + total_stall() + total_pause(), 1);
        if (ch(0.7)) add(0, OP_STOP);
    }
    void k01()
    {
        int nc = nch(1, 3); for (int i = 0; i < nc; i++) { channel(ch(0.4), (int)rnd(1, 3), true); if (ch(0.25)) { DevM v; v.type = DT_VIRTUAL; c.ch.back().dev.push_back(v); } else if (ch(0.15)) { DevM v; v.type = DT_EMPTY; c.ch.back().dev.push_back(v); } if (ch(0.3)) rand_filter(c.ch.back().f, false); for (auto& d : c.ch.back().dev) if (ch(0.3)) rand_filter(d.f, true); }
        int cf = put_cfg(), cg = cf; filters = true; int tid = 1; int sess = (int)rnd(1, 4); bool many = ch(0.5);
        if (ch(0.35)) { CfgM full = c; while (c.ch.size() > 1 && ch(0.6)) c.ch.pop_back(); for (auto& h : c.ch) if (h.dev.size() > 1 && ch(0.5)) h.dev.pop_back(); if (ch(0.5)) c.ch[0].sync = !c.ch[0].sync; cg = put_cfg(); c = full; p.profile = "reconfigured"; }
        add(0, OP_HOOK, ch(0.6) ? 1 : 0, -1);
        if (ch(0.2))
        {   // outputs that refuse some records: those are not delivered and not counted
            p.profile = "refused"; int kind = ch(0.6) ? FK_SENDTO : FK_OPEN; int k = (int)rnd(1, 3);
            for (int i = 0; i < k; i++) fault(kind, 0, rnd(1, 40), kind == FK_SENDTO ? pick({ EAGAIN, ECONNREFUSED, EPERM }) : pick({ EMFILE, EACCES }), ch(0.5) ? 0 : rnd(1, 300));
            if (kind == FK_SENDTO) { DevM u = dev(DT_UDP, 0, 0); memcpy(u.f, c.ch[0].dev[0].f, sizeof(long) * 8); u.f[F_PORT] = 8000; c.ch[0].dev[0] = u; p.cfg.clear(); cf = cg = put_cfg(); }
        }
        for (int s = 0; s < sess; s++)
        {
            add(0, OP_START, 0, ch(0.5) ? cf : cg); int nt = (int)rnd(0, many ? 4 : 2), f = tid; for (int k = 0; k < nt; k++, tid++) { logs((size_t)tid, (int)rnd(2, 20), 0.1, 20); add(0, OP_SPAWN, tid); }
            logs(0, (int)rnd(1, 10)); for (int k = f; k < tid; k++) add(0, OP_JOIN, k); quiesce(200, 0); add(0, OP_COUNTERS, nc, 5);
            if (s + 1 < sess || ch(0.5)) { add(0, OP_STOP); if (ch(0.5)) add(0, OP_COUNTERS, nc, 5); }
        }
        stalls((int)r.below(3), tid + nc, 100); for (auto& o : T(0)) if (o.kind == OP_QUIESCE) o.a[0] += total_stall() + total_pause() + 300;
    }
    void t01()
    {
        time_setup(); int nc = nch(1, 2); for (int i = 0; i < nc; i++) channel(ch(0.3), (int)rnd(1, 2), true);
        int cf = put_cfg(); add(0, OP_START, 0, cf); force_prefix = ch(0.8) ? 5 : 1; lenmode = 1; p_pieces = 0.15; pause_max = 1500;
        int nt = (int)rnd(1, 5); for (int t = 1; t <= nt; t++) logs((size_t)t, (int)rnd(3, 12), 0.4, ch(0.5) ? 100 : 3000);
        spawn_all(nt); int n = (int)rnd(2, 12); for (int i = 0; i < n; i++) { logs(0, (int)rnd(1, 3), 0.2, 1200); if (ch(0.6)) clock_jump(0); } join_all(nt); logs(0, 2);
        if (ch(0.3)) fault(FK_CLOCKSTEP, 0, rnd(1, 300), rnd(-90000, 90000) * 1000);
        stalls((int)r.below(3), nt + nc, 1500); add(0, OP_STOP);
    }
};
}
Plan gen_plan(const std::string& prop, const std::string& variant, u64 seed, bool thorough)
{
    G g(seed, prop, variant, thorough);
    g.sched();
    if (prop == "Q01" || prop == "Q02" || prop == "Q03") g.q_plan();
    else if (prop == "Q04") g.q04(); else if (prop == "Q05") g.q05(); else if (prop == "Q06") g.q06();
    else if (prop == "L01") g.l01(); else if (prop == "L02") g.l02(); else if (prop == "L03") g.l03(); else if (prop == "L04") g.l04();
    else if (prop == "F01") g.f01(); else if (prop == "F02") g.f02(); else if (prop == "F03") g.f03();
    else if (prop == "G01") g.g01(); else if (prop == "G02") g.g02(); else if (prop == "H01") g.h_plan(false); else if (prop == "H02") g.h_plan(true);
    else if (prop == "S01") g.s_plan(1); else if (prop == "S02") g.s_plan(2); else if (prop == "S03") g.s_plan(3);
    else if (prop == "U01") g.u01(); else if (prop == "U02") g.u02(); else if (prop == "K01") g.k01(); else if (prop == "T01") g.t01(); else if (prop == "M01") g.m_plan();
    else if (prop == "X01") { switch (g.r.below(8)) { case 0: g.f03(); break; case 1: g.l02(); break; case 2: g.h_plan(true); break; case 3: g.l03(); break; case 4: g.q05(); break; case 5: g.u01(); break; case 6: g.f02(); break; default: g.u02(); } g.p.profile = "mixed:" + g.p.profile; }
    if (prop == "Q02" || prop == "Q03" || prop == "M01" || prop == "T01" || prop == "F02") g.values(prop == "Q03" ? 0.3 : 0.05);
    { static const std::set<std::string> N = { "Q01", "Q02", "Q03", "Q04", "L01", "L04", "M01", "S01", "S02" }; if (N.count(prop)) g.nested(0.3); }
    {   // texts that are not plain: format characters, bytes beyond ASCII, zero bytes where nothing takes them for the end
        static const std::set<std::string> B = { "Q01", "Q02", "Q03", "Q04", "Q05", "G01", "G02", "L01", "L04", "M01", "U01", "K01" }; bool io = false, screen = false;
        for (auto& f : g.p.faults) if (f.kind >= FK_OPEN && f.kind <= FK_CLOSE) io = true;
        for (auto& l : g.p.lives) for (auto& t : l.threads) for (auto& o : t.ops) if (o.kind == OP_FAULTWIN) io = true;
        for (auto& c : g.p.cfg) if (c.find("screen") != std::string::npos) screen = true;
        if (B.count(prop) && !io && g.ch(0.3)) g.p.knob["bin"] = screen || g.ch(0.4) ? 1 : 2;
    }
    for (auto& l : g.p.lives) for (auto& t : l.threads) for (size_t i = 0; i < t.ops.size(); i++) t.ops[i].a[9] = (long)i;
    for (auto& ch : g.p.profile) if (ch == ' ') ch = '_';
    return g.p;
}
