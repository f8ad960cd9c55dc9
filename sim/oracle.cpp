// History checks: everything is judged from the recorded event history (kernel
// level events, operation invocations/responses) against the reference model.
#include "model.h"
#include <algorithm>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <functional>
#include <netinet/in.h>
#include <unordered_map>

namespace {
const u64 INF = ~0ull;
struct OpX { u64 inv = 0, ret = INF; i64 inv_w = 0, ret_w = 0, inv_m = 0, ret_m = 0; i64 res = 0; bool begun = false, done = false; };
struct Item
{
    int life, tid, seq, ch; long len; const Op* op; bool dgram, xmit;
    u64 inv, ret; i64 inv_w, ret_w, inv_m, ret_m; bool done; u64 began = 0;   // began: of a transmitted copy, when the statement of the original was invoked
    std::string exact;       // xmit: exact content
    int pri, cat; long id; int cat0 = 0;   // cat0: the category of the statement, cat: of the record (set_category)
    int op_tid;              // thread that executed
};
struct Occ { int item; u64 step; i64 mono; int life; int inode; u32 off, end; std::string prefix; bool cut, recovered, frag; u32 n; long port = 0; };
struct Sink { int ch, dev, type; bool in; std::vector<Occ> occ; std::string stream; };
struct Chg { u64 may, must; long val; };

struct Oracle
{
    const Plan& p;
    std::vector<Viol> out;
    std::vector<CfgM> cfg; std::vector<bool> cfg_ok;
    std::vector<std::vector<std::vector<OpX>>> ox;       // life, tid, op
    std::vector<Item> items;
    std::unordered_map<u64, std::vector<int>> by_key;     // life.tid.seq -> items
    std::map<std::tuple<int,int,int>, Sink> sinks;        // ch,dev,type
    std::vector<u64> life_begin, life_end; std::vector<int> life_how; std::vector<i64> life_end_m;
    bool shm = false, io_faulty = false, any_kill = false;
    int LOG, QUE;
    std::set<std::string> names, descs;
    struct StartOp { int life, tid, idx; const OpX* x; int cfg; bool ok; };
    std::vector<StartOp> starts; std::vector<StartOp> stops;   // all, in invocation order
    struct FaultEv { u64 step; i64 mono; int kind, ch, life; long val; };
    std::vector<FaultEv> fev;
    struct Quiesce { u64 inv, ret; i64 ret_m; int life; long check, ch; };
    std::vector<Quiesce> quies;

    Oracle(const Plan& pl) : p(pl) {}
    void v(const char* cls, int life, u64 step, const char* fmt, ...) __attribute__((format(printf, 5, 6)))
    {
        if (out.size() > 60) return;
        char b[700]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        Viol x; x.cls = cls; x.msg = b; x.life = life; x.step = step; out.push_back(x);
    }
    static u64 key(int l, int t, int s) { return ((u64)l << 48) | ((u64)t << 36) | (u64)s; }
    std::string iname(const Item& i)
    {
        char b[100]; snprintf(b, sizeof b, "%s %d.%d.%d (channel %d)", i.dgram ? "datagram" : i.xmit ? "transmitted record" : "record", i.life, i.tid, i.seq, i.ch); return b;
    }
    static const char* tname(int t) { static const char* N[] = { "?","screen","file","udp","virtual","empty" }; return N[t % 6]; }
    std::string sname(const Sink& s) { char b[60]; snprintf(b, sizeof b, "%s output %d.%d", tname(s.type), s.ch, s.dev); return b; }

    // ------------------------------------------------------------ history
    void load()
    {
        g_text_bin = (int)p.k("bin", 0); LOG = sut_log_size(); QUE = sut_queue_size();
        long bad = p.k("bad_cfg", 0);
        names.insert("simapp"); descs.insert("");
        for (size_t i = 0; i < p.cfg.size(); i++)
        {
            CfgM c; bool ok = cfg_parse(p.cfg[i], c) && !(bad >> i & 1);
            cfg.push_back(c); cfg_ok.push_back(ok);
            if (ok && c.shm_key) shm = true;
            if (!c.name.empty()) names.insert(c.name);
            if (!c.desc.empty()) descs.insert(c.desc);
        }
        size_t nl = p.lives.size();
        ox.resize(nl); life_begin.assign(nl, INF); life_end.assign(nl, INF); life_how.assign(nl, 0); life_end_m.assign(nl, 0);
        for (size_t l = 0; l < nl; l++) { ox[l].resize(p.lives[l].threads.size()); for (size_t t = 0; t < ox[l].size(); t++) ox[l][t].resize(p.lives[l].threads[t].ops.size()); }
        int filecfg = p.cfg.empty() ? -1 : (int)p.k("yaml_cfg", 0); bool filebad = false;
        std::map<std::pair<int,int>, int> start_cfg;   // (life,tid) pending
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i];
            if (e.type == EV_LIFE) { if (e.b == 0) life_begin[(size_t)e.life] = e.step; else { life_end[(size_t)e.life] = e.step; life_how[(size_t)e.life] = (int)e.b; life_end_m[(size_t)e.life] = e.mono; if (e.b == 2) any_kill = true; } }
            else if (e.type == EV_INV)
            {
                OpX& x = ox[(size_t)e.life][(size_t)e.tid][(size_t)e.a]; x.begun = true; x.inv = e.step; x.inv_w = e.wall; x.inv_m = e.mono;
                const Op& o = p.lives[(size_t)e.life].threads[(size_t)e.tid].ops[(size_t)e.a];
                if (o.kind == OP_START) { int c = o.a[0] == 0 ? (int)o.a[1] : o.a[0] == 1 ? (filebad ? -1 : filecfg) : -1; starts.push_back({ e.life, e.tid, (int)e.a, nullptr, c, false }); }
                if (o.kind == OP_STOP) stops.push_back({ e.life, e.tid, (int)e.a, nullptr, -1, false });
            }
            else if (e.type == EV_RET) { OpX& x = ox[(size_t)e.life][(size_t)e.tid][(size_t)e.a]; x.done = true; x.ret = e.step; x.ret_w = e.wall; x.ret_m = e.mono; x.res = e.b; }
            else if (e.type == EV_CFGFILE) { if (e.b == 2 || e.b == 3) filebad = true; else { filecfg = (int)e.a; filebad = e.d > 0; } }
            else if (e.type == EV_FAULT) fev.push_back({ e.step, e.mono, (int)e.a, (int)e.c, e.life, (long)e.b });
        }
        for (auto& s : starts) { s.x = &ox[(size_t)s.life][(size_t)s.tid][(size_t)s.idx]; s.ok = s.x->done && s.x->res == 0; }
        for (auto& s : stops) { s.x = &ox[(size_t)s.life][(size_t)s.tid][(size_t)s.idx]; s.ok = s.x->done && s.x->res == 0; }
        // items
        for (size_t l = 0; l < nl; l++) for (size_t t = 0; t < ox[l].size(); t++) for (size_t i = 0; i < ox[l][t].size(); i++)
        {
            const Op& o = p.lives[l].threads[t].ops[i]; const OpX& x = ox[l][t][i];
            if (!x.begun) continue;
            if (o.kind == OP_LOG)
            {
                Item m; m.life = (int)l; m.tid = (int)t; m.seq = (int)o.a[9]; m.ch = (int)o.a[0]; m.len = o.a[6]; m.op = &o; m.dgram = m.xmit = false; m.inv = x.inv; m.ret = x.ret; m.inv_w = x.inv_w; m.ret_w = x.ret_w; m.inv_m = x.inv_m; m.ret_m = x.ret_m; m.done = x.done;
                m.pri = (int)o.a[1]; m.cat = m.cat0 = (int)o.a[2]; if (o.a[5] >= 10 && o.a[5] < 100) m.cat0 += (int)o.a[5] - 54; m.id = o.a[3]; m.op_tid = (int)t;
                by_key[key(m.life, m.tid, m.seq)].push_back((int)items.size()); items.push_back(m);
            }
            else if (o.kind == OP_DGRAM)
                for (int k = 0; k < o.a[3]; k++)
                {
                    Item m; m.life = (int)l; m.tid = (int)t; m.seq = (int)o.a[9] * 100 + k; m.ch = (int)o.a[0]; m.len = o.a[2]; m.op = &o; m.dgram = true; m.xmit = false; m.inv = x.inv; m.ret = x.ret; m.inv_w = x.inv_w; m.ret_w = x.ret_w; m.inv_m = x.inv_m; m.ret_m = x.ret_m; m.done = x.done;
                    m.pri = 2; m.cat = 0; m.id = 0; m.op_tid = (int)t;
                    by_key[key(m.life, m.tid, m.seq)].push_back((int)items.size()); items.push_back(m);
                }
            else if (o.kind == OP_FLOOD)
            {
                Item m; m.life = (int)l; m.tid = (int)t; m.seq = (int)o.a[9] * 100; m.ch = (int)o.a[0]; m.len = 40; m.op = &o; m.dgram = true; m.xmit = false; m.inv = x.inv; m.ret = x.ret; m.inv_w = x.inv_w; m.ret_w = x.ret_w; m.inv_m = x.inv_m; m.ret_m = x.ret_m; m.done = x.done;
                m.pri = 2; m.cat = 0; m.id = 0; m.op_tid = (int)t; by_key[key(m.life, m.tid, m.seq)].push_back((int)items.size()); items.push_back(m);
            }
            else if (o.kind == OP_QUIESCE && x.done) quies.push_back({ x.inv, x.ret, x.ret_m, (int)l, o.a[1], o.a[2] });
        }
        // transmitted copies
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i]; if (e.type != EV_XMIT) continue;
            const char* at = (const char*)memchr(e.s, '@', e.sn); int L, T, S; long n;
            if (!at || sscanf(at, "@%d.%d.%d.%ld:", &L, &T, &S, &n) != 4) continue;
            auto it = by_key.find(key(L, T, S)); if (it == by_key.end()) continue;
            Item m = items[(size_t)it->second[0]]; m.ch = (int)e.a; m.xmit = true; m.cat0 = m.cat = (int)e.c; m.id = e.e; m.began = m.inv; m.inv = e.step; m.exact.assign(e.s, e.sn);
            it->second.push_back((int)items.size()); items.push_back(m);
        }
        // sinks
        for (size_t c = 0; c < cfg.size(); c++) if (cfg_ok[c]) for (size_t h = 0; h < cfg[c].ch.size(); h++) for (size_t d = 0; d < cfg[c].ch[h].dev.size(); d++)
        {
            const DevM& dv = cfg[c].ch[h].dev[d];
            Sink& s = sinks[std::make_tuple((int)h, (int)d, dv.type)]; s.ch = (int)h; s.dev = (int)d; s.type = dv.type; s.in = dv.in;
        }
    }

    // ------------------------------------------------------------ streamed values
    struct VP { std::string s; bool num; int align; };
    static std::string quarter(double q) { char b[64]; if (q == (double)(long long)q) snprintf(b, sizeof b, "%lld", (long long)q); else snprintf(b, sizeof b, "%.2f", q); return b; }
    static void value_pieces(long style, std::vector<VP>& out)
    {
        SVal v[SV_COUNT]; int n = stream_vals(style, v, SV_COUNT);
        auto S = [&](const std::string& t) { out.push_back({ t, false, 0 }); };
        auto N = [&](const std::string& t) { out.push_back({ t, true, 0 }); };
        auto I = [&](long long t) { N(std::to_string(t)); };
        for (int i = 0; i < n; i++)
        {
            unsigned long long x = v[i].x; char b[80];
            auto cont = [&](const char* name, std::function<void(unsigned long long)> el)
            {
                S(std::string(name) + ":("); I((long long)(x % 8)); S(")[");
                for (unsigned long long j = 0; j < x % 8; j++) { if (j == 5) { S("..., "); break; } if (j) S(", "); el(j); }
                S("]");
            };
            switch (v[i].k)
            {
            case SV_LL: I((long long)x); break;
            case SV_ULL: N(std::to_string(x)); break;
            case SV_INT: I((int)x); break;
            case SV_SHORT: I((short)x); break;
            case SV_UCHAR: I((unsigned char)x); break;
            case SV_BOOL: S(x & 1 ? "true" : "false"); break;
            case SV_CHAR: S(std::string(1, (char)('a' + x % 26))); break;
            case SV_DBL: N(quarter((double)((long long)(x % 8000000) - 4000000) / 4.0)); break;
            case SV_FLT: N(quarter((double)((long long)(x % 80000) - 40000) / 4.0)); break;
            case SV_PTR: if (x >> 4) { snprintf(b, sizeof b, "0x%llX", x >> 4); N(b); } else N("null"); break;
            case SV_STR: S(std::string((size_t)(x % 40), (char)('A' + x % 26))); break;
            case SV_VEC: cont("vector", [&](unsigned long long j) { I((int)(x >> j)); }); break;
            case SV_LIST: cont("list", [&](unsigned long long j) { S(std::string((size_t)((x >> j) % 5), 'q')); }); break;
            case SV_MAP: cont("map", [&](unsigned long long j) { S("<"); I((int)j); S(":"); N(quarter((double)((x >> j) % 1000) / 4.0)); S(">"); }); break;
            case SV_PAIR: S("<"); I((int)(x & 0xffff)); S(":"); N(std::to_string(x)); S(">"); break;
            case SV_PCT: N(x % 9 ? quarter((double)(x % 9) / 8.0 * 100.0) + "%" : "00.00%"); break;
            case SV_TIME:
            {
                time_t t = (time_t)(x % 2000000000ull); struct tm m; localtime_r(&t, &m); size_t k = strftime(b, sizeof b, "[%Y%m%d %H:%M:%S.", &m);
                snprintf(b + k, sizeof b - k, "%03d]", (int)(x % 1000)); N(b); break;
            }
            case SV_NULLSTR: S("null"); break;
            case SV_NULLPTR: N("null"); break;
            case SV_SPECIAL: { static const char* W[] = { "0", "inf", "nan", "1e+300", "-1e+300", "0.00005000", "-0.00005000" }; N(W[x % 7]); break; }
            case SV_BIN:
            {
                char q[64]; int k = binary_value(x, q); S("\r|\t[");
                for (int r = 0; r < k / 32 + 1; r++) for (int w = 0; w < 2; w++)
                {
                    S("\r|\t["); out.push_back({ "", true, -1 }); S(": ");
                    for (int j = r * 32; j < (r + 1) * 32 && j < k; j++)
                    {
                        if (w == 0) { if (isprint((unsigned char)q[j])) S(std::string(" ") + q[j] + " "); else S(" . "); }
                        else { snprintf(b, sizeof b, "%02X", (unsigned char)q[j]); N(b); out.push_back({ " ", true, 0 }); }
                    }
                }
                S("\r|\t]\r|\t"); break;
            }
            case SV_ALIGN: out.push_back({ "", true, x & 1 ? 120 : 400 }); break;
            }
            S(";");
        }
    }
    // the values at the end of a line: 1 whole, 2 the line ends within them, 0 differs. Near the maximum record size a number may be left out.
    int match_values(const std::string& line, size_t q, long style, bool& cut, size_t& bad)
    {
        std::vector<VP> v; value_pieces(style, v); cut = false; size_t n = line.size();
        for (auto& x : v)
        {
            if (x.align < 0)
            {   // an address
                size_t z = q; if (line.compare(z, 2, "0x") == 0) { z += 2; while (z < n && isxdigit((unsigned char)line[z])) z++; }
                if (z > q + 2) { q = z; continue; }
                if (q + 45 > (size_t)LOG) { cut = true; if (line.compare(q, 1, "0") == 0 && n - q < 2) return 2; if (line.compare(q, 2, "0x") == 0) return 2; continue; }
                if (q == n) return 2;
                bad = q; return 0;
            }
            std::string t = x.align ? std::string((size_t)std::max<long>(0, x.align - (long)q), ' ') : x.s;
            if (line.compare(q, t.size(), t) == 0 && (!x.align || q + (size_t)x.align < (size_t)LOG - 4 || t.empty())) { q += t.size(); continue; }
            if (x.align && q + (size_t)x.align + 45 > (size_t)LOG) { while (q < n && line[q] == ' ') q++; cut = true; continue; }
            if (q + t.size() > n && t.compare(0, n - q, line, q, n - q) == 0) return 2;
            if (x.num && q + 45 > (size_t)LOG) { cut = true; continue; }
            bad = q; return 0;
        }
        bad = q; return q == n ? 1 : 0;
    }
    // ------------------------------------------------------------ lines
    static bool digits(const char*& q, const char* e, int n) { for (int i = 0; i < n; i++) { if (q >= e || *q < '0' || *q > '9') return false; q++; } return true; }
    // returns 1 whole prefix matches, 0 no, 2 the text is a proper head of a possible prefix
    int match_prefix(const std::string& s, unsigned mask, const Item& it, std::string* why)
    {
        const char* q = s.data(); const char* e = q + s.size();
#define NEED(c) do { if (q >= e) return 2; if (*q != (c)) { if (why) *why = "unexpected prefix text"; return 0; } q++; } while (0)
        if (mask == 0) return q == e ? 1 : 0;
        if (mask & 1)
        {
            NEED('['); { const char* z = q; if (!digits(q, e, 8)) return q == e && z <= q ? 2 : 0; } NEED(' ');
            if (!digits(q, e, 2)) return q == e ? 2 : 0; NEED(':'); if (!digits(q, e, 2)) return q == e ? 2 : 0; NEED(':'); if (!digits(q, e, 2)) return q == e ? 2 : 0; NEED('.'); if (!digits(q, e, 3)) return q == e ? 2 : 0; NEED(']');
        }
        auto lit = [&](const std::string& t) -> int { for (char c : t) { if (q >= e) return 2; if (*q != c) return 0; q++; } return 1; };
        if (mask & 2)
        {
            static const char* PN[] = { "[TRACE]","[DEBUG]","[INFO ]","[WARN ]","[ERROR]","[ALARM]","[FATAL]" };
            int r = lit(PN[it.pri % 7]); if (r != 1) { if (why && r == 0) *why = "wrong priority name"; return r; }
        }
        if (mask & 4)
        {
            char b[40]; snprintf(b, sizeof b, "[%d]", 5000 + it.life * 100 + it.op_tid);
            int r = lit(b);
            if (r != 1) { std::string k(b); if (why && r == 0) { *why = "wrong thread number (expected " + k + ")"; } return r; }
        }
        for (int w = 0; w < 2; w++) if (mask & (w ? 16u : 8u))
        {
            NEED('[');
            const char* z = (const char*)memchr(q, ']', (size_t)(e - q)); if (!z) return 2;
            std::string n(q, z); if (!(w ? descs : names).count(n)) { if (why) *why = w ? "unknown logger description" : "unknown logger name"; return 0; }
            q = z + 1;
        }
        if (mask & 32)
        {
            NEED('[');
            const char* z = (const char*)memchr(q, ']', (size_t)(e - q)); if (!z) return 2;
            std::string n(q, z); size_t k = n.find("sut.cpp:"); if (k == std::string::npos || n.find_first_not_of("0123456789", k + 8) != std::string::npos || k + 8 == n.size()) { if (why) *why = "wrong source location"; return 0; }
            q = z + 1;
        }
        if (mask & 64) { int r = lit(!it.dgram && it.op->a[5] >= 100 ? "(log_values)" : "(sut_log)"); if (r != 1) { if (why && !r) *why = "wrong function name"; return r; } }
        NEED(' ');
        if (q != e) { if (why) *why = "extra text after the prefix"; return 0; }
        return 1;
    }
    static unsigned mask_of(const Item& it) { if (it.dgram) return 0; return it.op->a[5] == 3 ? 0x63u : (unsigned)it.op->a[4]; }
    enum { LN_BAD, LN_OK, LN_FRAG, LN_RECOV, LN_NOREC };
    // classify one line (without newline). fills o.item
    int classify(const char* s, size_t n, bool nl, int ch, Occ& o, std::string& why, int want_dgram = -1)
    {
        o.item = -1; o.cut = o.recovered = o.frag = false; o.n = (u32)n + (nl ? 1 : 0);
        const char* at = (const char*)memchr(s, '@', n);
        static const std::string MARK = "!!!core recover!!!";
        std::string line(s, n);
        if (!at)
        {
            size_t k = line.find(MARK);
            if (k != std::string::npos && k + MARK.size() == n) { o.recovered = true; o.prefix = line.substr(0, k); return LN_RECOV; }
            return LN_NOREC;
        }
        int L, T, S, used = 0; long len;
        if (sscanf(line.c_str() + (at - s), "@%d.%d.%d.%ld:%n", &L, &T, &S, &len, &used) != 4 || used == 0)
        {
            size_t k = line.find(MARK);
            if (k != std::string::npos && k + MARK.size() == n) { o.recovered = true; o.prefix = line.substr(0, k); return LN_RECOV; }
            why = "broken record header"; return nl ? LN_BAD : LN_FRAG;
        }
        auto f = by_key.find(key(L, T, S));
        if (f == by_key.end()) { why = "a record that was never logged"; return LN_BAD; }
        int idx = -1;
        for (int i : f->second) if (items[(size_t)i].ch == ch && (want_dgram < 0 || items[(size_t)i].dgram == (want_dgram != 0))) idx = i;
        if (idx < 0) { o.item = f->second[0]; why = "record " + iname(items[(size_t)f->second[0]]) + " in an output of channel " + std::to_string(ch); return LN_BAD; }
        const Item& it = items[(size_t)idx];
        o.item = idx;
        std::string text = record_text(T, S, L, it.len);
        std::string body = line.substr((size_t)(at - s)); o.prefix = line.substr(0, (size_t)(at - s));
        size_t k = body.find(MARK);
        if (k != std::string::npos && k + MARK.size() == body.size() && body.compare(0, k, text, 0, k) == 0 && k <= text.size())
        { o.recovered = true; return LN_RECOV; }
        // a recovered piece whose marker was itself torn by the next crash
        if (!nl) { size_t c = 0; while (c < body.size() && c < text.size() && body[c] == text[c]) c++;
            if (c < body.size() && body[c] == '!' && body.size() - c < MARK.size() && MARK.compare(0, body.size() - c, body, c, std::string::npos) == 0) { o.frag = true; why = "recovered piece without newline"; return LN_FRAG; } }
        int pm = match_prefix(o.prefix, mask_of(it), it, &why);
        if (pm != 1) { if (why.empty()) why = "incomplete prefix"; return LN_BAD; }
        if (it.xmit && it.exact.size() <= (size_t)LOG - 2 && line != it.exact) { why = "transmitted copy differs from the original"; return LN_BAD; }
        size_t full = o.prefix.size() + text.size();
        if (!it.dgram && it.op->a[5] >= 100 && body.size() >= text.size() && body.compare(0, text.size(), text) == 0)
        {
            bool cut; size_t bad = 0; int m = match_values(line, full, it.op->a[5], cut, bad);
            if (m == 1) { if (cut) o.cut = true; if (!nl) { why = "record without newline"; return LN_FRAG; } return LN_OK; }
            if (m == 2 && !nl) { o.frag = true; return LN_FRAG; }
            if (m == 2 && n + 1 <= (size_t)LOG && n + 10 >= (size_t)LOG) { o.cut = true; return LN_OK; }
            char b[200]; snprintf(b, sizeof b, m == 2 ? "record with values cut to %zu bytes (maximum %d)" : "streamed values differ at byte %zu (maximum %d): '%.40s'", m == 2 ? n + 1 : bad, LOG, m == 2 ? "" : line.c_str() + std::min(bad, line.size())); why = b;
            return LN_BAD;
        }
        if (body == text) { if (!nl) { if (it.dgram) return LN_OK; why = "record without newline"; return LN_FRAG; } return LN_OK; }
        if (body.size() < text.size() && text.compare(0, body.size(), body) == 0)
        {
            if (!nl) { o.frag = true; return LN_FRAG; }
            if (full > (size_t)LOG - 2 && n + 1 <= (size_t)LOG && n + 10 >= (size_t)LOG) { o.cut = true; return LN_OK; }
            char b[160]; snprintf(b, sizeof b, "record cut to %zu bytes although %zu fit (maximum %d)", n + 1, full + 1, LOG); why = b; return LN_BAD;
        }
        size_t d = 0; while (d < body.size() && d < text.size() && body[d] == text[d]) d++;
        char b[200]; snprintf(b, sizeof b, "content differs from the logged text at byte %zu of %zu: '%.40s'", d, text.size(), body.c_str() + std::min(d, body.size())); why = b;
        return LN_BAD;
    }
    static std::string shown(const char* s, size_t n) { std::string r; for (size_t i = 0; i < n && r.size() < 120; i++) { unsigned char c = (unsigned char)s[i]; if (c >= 32 && c < 127) r += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }
    static bool is_prefix_piece(const std::string& s) { for (char c : s) if (!(c == '[' || c == ']' || c == ' ' || c == ':' || c == '.' || c == '(' || c == ')' || c == '/' || c == '_' || c == '-' || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'))) return false; return true; }
    // with I/O faults: a line may consist of pieces of records followed by a whole one
    bool pieces_ok(const std::string& line, int ch, std::vector<Occ>& found, bool nl)
    {
        // split at every '@'
        size_t pos = 0; std::vector<size_t> ats; while ((pos = line.find('@', pos)) != std::string::npos) ats.push_back(pos++);
        if (ats.empty())
        {
            // head of a prefix, or tail/middle of a record text
            return is_prefix_piece(line) || line.find('~') != std::string::npos || line == "$" || line.empty();
        }
        for (size_t i = 0; i < ats.size(); i++)
        {
            size_t end = i + 1 < ats.size() ? ats[i + 1] : line.size();
            int L, T, S, used = 0; long len;
            std::string seg = line.substr(ats[i], end - ats[i]);
            if (sscanf(seg.c_str(), "@%d.%d.%d.%ld:%n", &L, &T, &S, &len, &used) != 4 || used == 0) { size_t d = 1; while (d < seg.size() && ((seg[d] >= '0' && seg[d] <= '9') || seg[d] == '.' || seg[d] == ':')) d++; if (!is_prefix_piece(seg.substr(d))) return false; continue; }
            auto f = by_key.find(key(L, T, S)); if (f == by_key.end()) return false;
            int idx = -1; for (int q : f->second) if (items[(size_t)q].ch == ch) idx = q;
            if (idx < 0) return false;
            std::string text = record_text(T, S, L, items[(size_t)idx].len);
            size_t d = 0; while (d < seg.size() && d < text.size() && seg[d] == text[d]) d++;
            bool last = i + 1 == ats.size();
            if (d == text.size() && (!last || d == seg.size()))
            {
                if (last && nl) { Occ o; o.item = idx; o.cut = o.recovered = o.frag = false; found.push_back(o); }
            }
            else if (d == text.size()) return false;
            else if (!last) { /* a piece followed by the prefix of the next record */ std::string rest = seg.substr(d); size_t tl = rest.find('~'); if (tl != std::string::npos) { /* garbage of the same record may not follow */ } if (!rest.empty() && !is_prefix_piece(rest)) return false; }
            else if (d < seg.size()) return false;
            else if (nl) { size_t full = line.size(); if (items[(size_t)idx].len + 200 > LOG) { Occ o; o.item = idx; o.cut = true; o.recovered = o.frag = false; (void)full; found.push_back(o); } }
        }
        return true;
    }
    int inode_sink_dev(const Inode& n, int& ch) { return path_dev(n.birth_path, ch); }
    static int path_dev(const char* path, int& ch)
    {
        const char* b = strrchr(path, '/'); b = b ? b + 1 : path;
        int d; if (sscanf(b, "c%dd%d", &ch, &d) == 2) return d;
        const char* q = strstr(b, "_00424");   // the file name that is used when none is configured
        if (q && !strncmp(b, "simapp_", 7) && q[7] == '.' && isdigit(q[8]) && isdigit(q[9])) { ch = q[8] - '0'; return q[9] - '0'; }
        return -1;
    }
    void parse_stream(Sink& s, const char* data, size_t lo, size_t hi, int inode, int life, bool may_tear, bool lenient, bool may_tear_head, const std::function<void(u32, u64&, i64&)>& when)
    {
        size_t pos = lo; bool first = true;
        while (pos < hi)
        {
            const char* nlp = (const char*)memchr(data + pos, '\n', hi - pos);
            size_t end = nlp ? (size_t)(nlp - data) : hi; bool nl = nlp != nullptr;
            Occ o; std::string why; u64 st; i64 mo; when((u32)(nl ? end : end - 1), st, mo);
            o.inode = inode; o.life = life; o.step = st; o.mono = mo; o.off = (u32)pos; o.end = (u32)(nl ? end + 1 : end); o.n = 0;
            int k = classify(data + pos, end - pos, nl, s.ch, o, why, s.in ? 1 : 0);
            bool stop_dg = s.in;
            if (stop_dg) { if (k == LN_OK) s.occ.push_back(o); pos = end + (nl ? 1 : 0); continue; }
            if (k == LN_OK || k == LN_RECOV) s.occ.push_back(o);
            else if (lenient)
            {
                std::vector<Occ> f;
                if (!pieces_ok(std::string(data + pos, end - pos), s.ch, f, nl)) v("garbled", life, st, "%s: not made of pieces of records: '%s' (%s)", sname(s).c_str(), shown(data + pos, end - pos).c_str(), why.c_str());
                for (auto& q : f) { Occ z = o; z.item = q.item; z.cut = q.cut; z.prefix.clear(); s.occ.push_back(z); }
            }
            else if (!nl && may_tear && end == hi) { if (k == LN_BAD) v("garbled", life, st, "%s: torn tail is not the beginning of a record: '%s' (%s)", sname(s).c_str(), shown(data + pos, end - pos).c_str(), why.c_str()); }
            else if (first && may_tear_head) {}
            else if (k == LN_FRAG) v("garbled", life, st, "%s: incomplete record at the end: '%s'", sname(s).c_str(), shown(data + pos, end - pos).c_str());
            else if (k == LN_NOREC) v("garbled", life, st, "%s: bytes that belong to no record: '%s'", sname(s).c_str(), shown(data + pos, end - pos).c_str());
            else if (why == "a record that was never logged") v("phantom", life, st, "%s: %s: '%s'", sname(s).c_str(), why.c_str(), shown(data + pos, end - pos).c_str());
            else v(o.item >= 0 && why.find("in an output of channel") != std::string::npos ? "phantom" : why.find("thread number") != std::string::npos ? "thread_no" : "garbled", life, st, "%s: %s: '%s'", sname(s).c_str(), why.c_str(), shown(data + pos, end - pos).c_str());
            pos = end + (nl ? 1 : 0); first = false;
        }
    }
    bool file_fault_on(int ch) { for (auto& f : fev) if ((f.ch == ch || f.ch < 0) && (f.kind == FK_OPEN || f.kind == FK_WRITE || f.kind == FK_ENOSPC || f.kind == FK_FSTAT || f.kind == FK_SHORTW)) return true; return false; }
    struct WSeg { u32 off, end; u64 step; i64 mono; int life; };
    std::map<int, std::vector<WSeg>> wsegs;
    void parse_outputs()
    {
        // files
        for (u32 i = 0; i < A->nev; i++) { const Ev& e = A->ev[i]; if (e.type == EV_WRITE) wsegs[(int)e.b].push_back({ (u32)e.c, (u32)(e.c + e.d), e.step, e.mono, e.life }); }
        for (int n = 0; n < A->nino; n++)
        {
            Inode& I = A->ino[n]; if (!I.used || I.isdir) continue;
            int ch; int d = inode_sink_dev(I, ch); if (d < 0) { if (wsegs.count(n)) v("stray_file", 0, 0, "wrote to an unexpected file %s", I.birth_path); continue; }
            auto it = sinks.find(std::make_tuple(ch, d, (int)DT_FILE));
            if (it == sinks.end()) { if (wsegs.count(n)) v("stray_file", 0, 0, "wrote to file %s which no configured output names", I.birth_path); continue; }
            auto& ws = wsegs[n];
            bool len = file_fault_on(ch);
            // split per life
            size_t k = 0; bool prev_torn = false;
            while (k < ws.size())
            {
                size_t j = k; while (j < ws.size() && ws[j].life == ws[k].life) j++;
                u32 lo = ws[k].off, hi = ws[j - 1].end; int life = ws[k].life;
                bool kill = life_how[(size_t)life] == 2;
                if (hi > I.data.n) hi = I.data.n;
                (void)prev_torn;
                parse_stream(it->second, I.data.p, lo, hi, n, life, kill, len, false, [&](u32 off, u64& st, i64& mo) { size_t a = k, b = j - 1; while (a < b) { size_t m = (a + b) / 2; if (ws[m].end > off) b = m; else a = m + 1; } st = ws[a].step; mo = ws[a].mono; });
                k = j;
            }
        }
        for (auto& s : sinks) std::stable_sort(s.second.occ.begin(), s.second.occ.end(), [](const Occ& a, const Occ& b) { return a.step != b.step ? a.step < b.step : a.off < b.off; });
        // screen
        std::string acc; int acc_life = -1; std::vector<std::pair<size_t, const Ev*>> marks;
        auto flush = [&]()
        {
            // strip escapes
            std::string t; std::vector<const Ev*> src; size_t mi = 0;
            for (size_t i = 0; i < acc.size(); i++)
            {
                while (mi + 1 < marks.size() && marks[mi + 1].first <= i) mi++;
                if (acc[i] == '\033' && i + 1 < acc.size() && acc[i + 1] == '[') { size_t j = i + 2; while (j < acc.size() && acc[j] != 'm' && j < i + 12) j++; i = j; continue; }
                t += acc[i]; src.push_back(marks[mi].second);
            }
            size_t pos = 0;
            while (pos < t.size())
            {
                size_t e = t.find('\n', pos); bool nl = e != std::string::npos; if (!nl) e = t.size();
                std::string line = t.substr(pos, e - pos);
                const Ev* ev = src[std::min(e, src.size() - 1)];
                size_t at = line.find('@');
                if (at != std::string::npos || line.find('~') != std::string::npos || line.find("!!!core") != std::string::npos)
                {
                    int L, T, S; long n; Item* it = nullptr;
                    if (at != std::string::npos && sscanf(line.c_str() + at, "@%d.%d.%d.%ld:", &L, &T, &S, &n) == 4) { auto f = by_key.find(key(L, T, S)); if (f != by_key.end()) it = &items[(size_t)f->second[0]]; }
                    bool done = false; std::string why;
                    for (auto& sk : sinks)
                    {
                        Sink& s = sk.second; if (s.type != DT_SCREEN || done) continue;
                        if (it) { bool okc = false; for (int q : by_key[key(it->life, it->tid, it->seq)]) if (items[(size_t)q].ch == s.ch) okc = true; if (!okc) continue; if (it->dgram != s.in) continue; }
                        Occ o; o.inode = -1; o.life = acc_life; o.step = ev->step; o.mono = ev->mono; o.off = (u32)pos; o.end = (u32)e + 1;
                        int k = classify(line.data(), line.size(), nl, s.ch, o, why, s.in ? 1 : 0);
                        if (k == LN_OK || k == LN_RECOV) { s.occ.push_back(o); done = true; }
                        else if (!nl && life_how[(size_t)acc_life] == 2) done = true;
                    }
                    if (!done) v("garbled", acc_life, ev->step, "screen output: %s: '%s'", why.empty() ? "record on a screen that is not configured" : why.c_str(), shown(line.data(), line.size()).c_str());
                }
                pos = e + 1;
            }
            acc.clear(); marks.clear();
        };
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i]; if (e.type != EV_SCREEN) continue;
            if (e.life != acc_life) { if (acc_life >= 0) flush(); acc_life = e.life; }
            marks.push_back({ acc.size(), &e }); acc.append(A->screen.p + e.c, (size_t)e.d);
        }
        if (acc_life >= 0) flush();
        // udp out
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i]; if (e.type != EV_SEND) continue;
            i64 base = e.c % 10000; int ch = (int)(base - 8000) / 32, d = (int)(base - 8000) % 32;
            auto it = base >= 8000 && base < 8200 ? sinks.find(std::make_tuple(ch, d, (int)DT_UDP)) : sinks.end();
            if (it == sinks.end() || (u32)e.b != htonl(0x7f000001)) { v("udp_addr", e.life, e.step, "datagram sent to an address that is not configured (port %d)", (int)e.c); continue; }
            bool nl = e.sn && e.s[e.sn - 1] == '\n';
            Occ o; std::string why; o.inode = -1; o.life = e.life; o.step = e.step; o.mono = e.mono; o.off = 0; o.end = e.sn; o.port = (long)e.c;
            int k = classify(e.s, e.sn - (nl ? 1u : 0u), nl, ch, o, why, it->second.in ? 1 : 0);
            if (memchr(e.s, '\n', e.sn) != (nl ? e.s + e.sn - 1 : nullptr)) { v("garbled", e.life, e.step, "%s: a datagram that is not exactly one record: '%s'", sname(it->second).c_str(), shown(e.s, e.sn).c_str()); continue; }
            if (it->second.in) { continue; }
            if (k == LN_OK || k == LN_RECOV) { if (e.e) it->second.occ.push_back(o); }
            else if (e.e) v(why.find("thread number") != std::string::npos ? "thread_no" : "garbled", e.life, e.step, "%s: datagram is not one whole record (%s): '%s'", sname(it->second).c_str(), why.c_str(), shown(e.s, e.sn).c_str());
        }
    }

    // ------------------------------------------------------------ running state
    bool run_must(int life, u64 a, u64 b)
    {
        if (b == INF) return false;
        for (auto& s : starts) if (s.ok && s.life == life && s.x->ret < a)
        {
            bool bad = false;
            for (auto& t : stops) if (t.life == life && t.x->begun && (t.ok || !t.x->done) && t.x->inv < b && t.x->ret > s.x->inv) bad = true;
            if (!bad) return true;
        }
        return false;
    }
    bool run_may(int life, u64 a, u64 b, const StartOp* self = nullptr)
    {
        for (auto& s : starts) if (&s != self && (s.ok || !s.x->done || s.cfg >= 0) && s.life == life && s.x->inv < b)
        {
            if (s.x->done && !s.ok) { if (s.x->ret < a) continue; if (s.cfg < 0 || !cfg_ok[(size_t)s.cfg]) continue; return true; }
            bool over = false;
            for (auto& t : stops) if (t.ok && t.life == life && t.x->inv > s.x->ret && t.x->ret < a) over = true;
            if (!over) return true;
        }
        return false;
    }
    // ------------------------------------------------------------ settings timeline
    struct Field { std::vector<Chg> c; };
    std::map<std::tuple<int,int,int,int>, Field> tl;     // life, ch, dev(-1 channel, type*100+dev), field
    std::vector<u64> step_at(i64) ;
    u64 step_of_mono(i64 m)
    {
        u32 lo = 0, hi = A->nev; while (lo < hi) { u32 k = (lo + hi) / 2; if (A->ev[k].mono < m) lo = k + 1; else hi = k; }
        return lo < A->nev ? A->ev[lo].step : INF;
    }
    void chg(int life, int ch, int dev, int f, u64 may, u64 must, long val) { tl[std::make_tuple(life, ch, dev, f)].c.push_back({ may, must, val }); }
    static int dk(int dev, int type) { return type * 100 + dev; }
    void set_all(int life, const CfgM& c, u64 may, u64 must, bool hot, int only_ch = -1)
    {
        for (size_t h = 0; h < cfg_max_ch(); h++)
        {
            if (only_ch >= 0 && (int)h != only_ch) continue;
            bool has = h < c.ch.size();
            if (!has && hot) continue;
            for (int f = 0; f < 7; f++) chg(life, (int)h, -1, f, may, must, has ? c.ch[h].f[f] : 7);
            for (auto& sk : sinks) if (sk.second.ch == (int)h)
            {
                Sink& s = sk.second;
                bool dh = has && (size_t)s.dev < c.ch[h].dev.size() && c.ch[h].dev[(size_t)s.dev].type == s.type;
                if (!dh && hot) continue;
                for (int f = 0; f < F_N; f++) chg(life, (int)h, dk(s.dev, s.type), f, may, must, dh ? c.ch[h].dev[(size_t)s.dev].f[f] : 0);
            }
        }
    }
    size_t cfg_max_ch() { size_t m = 0; for (size_t i = 0; i < cfg.size(); i++) if (cfg_ok[i]) m = std::max(m, cfg[i].ch.size()); return m; }
    void timeline()
    {
        for (auto& s : starts)
        {
            if (s.cfg < 0 || !cfg_ok[(size_t)s.cfg]) continue;
            if (s.x->done && !s.ok && p.k("strict_start", 0)) continue;   // an error means: without effect
            u64 must = s.ok ? s.x->ret : INF;
            set_all(s.life, cfg[(size_t)s.cfg], s.x->inv, must, false);
        }
        for (size_t l = 0; l < ox.size(); l++) for (size_t t = 0; t < ox[l].size(); t++) for (size_t i = 0; i < ox[l][t].size(); i++)
        {
            const OpX& x = ox[l][t][i]; const Op& o = p.lives[l].threads[t].ops[i]; if (!x.begun) continue;
            int L = (int)l;
            if (o.kind == OP_SETCH) chg(L, (int)o.a[0], -1, (int)o.a[1], x.inv, x.ret, o.a[2]);
            else if (o.kind == OP_BATCHCH) { for (size_t h = 0; h < cfg_max_ch(); h++) chg(L, (int)h, -1, (int)o.a[0], x.inv, x.ret, o.a[1]); }
            else if (o.kind == OP_SETDEV) { for (auto& s : sinks) if (s.second.ch == o.a[0] && s.second.dev == o.a[1]) chg(L, (int)o.a[0], dk((int)o.a[1], s.second.type), (int)o.a[2], x.inv, x.ret, o.a[3]); }
            else if (o.kind == OP_BATCHDEV) { for (auto& s : sinks) if (o.a[0] == 0 || s.second.type == o.a[0]) chg(L, s.second.ch, dk(s.second.dev, s.second.type), (int)o.a[1], x.inv, x.ret, o.a[2]); }
        }
        // hot update
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i]; if (e.type != EV_CFGFILE || e.b == 2 || e.b == 3 || e.d > 0) continue;
            if (!cfg_ok[(size_t)e.a]) continue;
            i64 deadline = e.mono + (2 * (i64)sut_hot_interval() + 3) * 1000000000LL + p.k("hot_slack_ms", 0) * 1000000LL;
            // superseded before the deadline?
            bool stays = true;
            for (u32 j = i + 1; j < A->nev && A->ev[j].mono <= deadline; j++) if (A->ev[j].type == EV_CFGFILE) stays = false;
            u64 must = stays ? step_of_mono(deadline) : INF;
            for (size_t h = 0; h < cfg_max_ch(); h++)
            {
                bool sync = false; for (auto& c : cfg) if (h < c.ch.size() && c.ch[h].sync) sync = true;
                set_all(e.life, cfg[(size_t)e.a], e.step, sync ? INF : must, true, (int)h);
            }
        }
        for (auto& f : tl) std::stable_sort(f.second.c.begin(), f.second.c.end(), [](const Chg& a, const Chg& b) { return a.may < b.may; });
    }
    void possible(int life, int ch, int dev, int f, u64 w0, u64 w1, std::vector<long>& vals)
    {
        vals.clear();
        auto it = tl.find(std::make_tuple(life, ch, dev, f)); if (it == tl.end()) return;
        auto& c = it->second.c;
        for (size_t i = 0; i < c.size(); i++)
        {
            if (c[i].may > w1) continue;
            bool superseded = false;
            for (size_t j = 0; j < c.size(); j++) if (j != i && c[j].may >= c[i].must && c[j].must <= w0 && c[i].must != INF) superseded = true;
            // a change that can never be confirmed (INF) is superseded only by a later confirmed start
            if (c[i].must == INF) for (size_t j = i + 1; j < c.size(); j++) if (c[j].must <= w0 && c[j].may > c[i].may && hard_reset(life, c[j].may)) superseded = true;
            if (!superseded) vals.push_back(c[i].val);
        }
        std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
    }
    bool hard_reset(int life, u64 may) { for (auto& s : starts) if (s.ok && s.life == life && s.x->inv == may) return true; return false; }
    // 0 no 1 maybe 2 yes
    int filter(int life, int ch, int dev, const Item& it, u64 w0, u64 w1, bool entry = false)
    {
        std::vector<long> a, b; bool yes = true;
        auto fold = [&](bool any, bool all) { if (!any) return false; if (!all) yes = false; return true; };
        if (dev >= 0)
        {
            possible(life, ch, dev, F_ABLE, w0, w1, a); if (a.empty()) return 0;
            bool any = false, all = true; for (long x : a) { if (x) any = true; else all = false; } if (!fold(any, all)) return 0;
        }
        possible(life, ch, dev, F_PRI, w0, w1, a); if (a.empty()) return 0;
        { bool any = false, all = true; for (long x : a) { if (it.pri >= x) any = true; else all = false; } if (!fold(any, all)) return 0; }
        for (int g = 0; g < 2; g++)
        {
            long val = g ? it.id : entry ? it.cat0 : it.cat;
            possible(life, ch, dev, g ? F_ID : F_CAT, w0, w1, a); possible(life, ch, dev, g ? F_IDX : F_CATX, w0, w1, b);
            bool any = false, all = true;
            for (long x : a) for (long y : b) { bool ok = y <= 0 || (val >= x && val < x + y); if (ok) any = true; else all = false; }
            if (!fold(any, all)) return 0;
            possible(life, ch, dev, g ? F_IDM : F_CATM, w0, w1, a);
            any = false; all = true;
            for (long x : a) { bool ok = x == 0 || ((unsigned long)x >> (val & 63) & 1); if (ok) any = true; else all = false; }
            if (!fold(any, all)) return 0;
        }
        return yes ? 2 : 1;
    }
    u64 settle(const Item& it)
    {
        for (auto& q : quies) if (q.life == it.life && q.inv > it.ret) return q.ret;
        return life_end[(size_t)it.life];
    }
    // acceptance into the queue: 0 no 1 maybe 2 yes  (filters and running state)
    int accept(const Item& it)
    {
        if (it.dgram) return 0;
        if (!run_may(it.life, it.inv, it.ret)) return 0;
        bool must = it.done && run_must(it.life, it.inv, it.ret);
        int c = filter(it.life, it.ch, -1, it, it.inv, it.ret, true);
        if (c == 0) return 0;
        int best = 0;
        for (auto& s : sinks) if (s.second.ch == it.ch && !s.second.in) best = std::max(best, filter(it.life, it.ch, dk(s.second.dev, s.second.type), it, it.inv, it.ret, true));
        if (best == 0) return 0;
        return must && c == 2 && best == 2 ? 2 : 1;
    }
    bool sync_at(const Item& it) { (void)it; bool any = false; for (size_t i = 0; i < cfg.size(); i++) if (cfg_ok[i] && (size_t)it.ch < cfg[i].ch.size() && cfg[i].ch[(size_t)it.ch].sync) any = true; return any; }
    bool sync_always(int ch) { bool any = false; for (size_t i = 0; i < cfg.size(); i++) if (cfg_ok[i] && (size_t)ch < cfg[i].ch.size()) { if (!cfg[i].ch[(size_t)ch].sync) return false; any = true; } return any; }
    bool async_always(int ch) { for (size_t i = 0; i < cfg.size(); i++) if (cfg_ok[i] && (size_t)ch < cfg[i].ch.size() && cfg[i].ch[(size_t)ch].sync) return false; return true; }

    // may the item have been dropped because a statement was in progress on its channel when a stop began?
    bool stop_excuse(const Item& it)
    {
        for (auto& t : stops)
        {
            if (!t.x->begun || t.life != it.life) continue;
            if (t.x->done && !t.ok) continue;
            // a straddler that began before this item returned
            for (auto& s : items) if (s.life == it.life && s.ch == it.ch && !s.dgram && s.inv < t.x->inv && s.ret > t.x->inv && s.inv < it.ret && it.inv < t.x->ret) return true;
        }
        return false;
    }
    // item lost legally because of output faults
    bool fault_excuse(const Item& it, const Sink& s)
    {
        for (auto& f : fev)
        {
            if (f.life != it.life) continue;
            bool rel = false; i64 after = 0;
            if (s.type == DT_FILE && (f.ch == s.ch || f.ch < 0) && (f.kind == FK_OPEN || f.kind == FK_FSTAT || f.kind == FK_WRITE || f.kind == FK_ENOSPC || f.kind == FK_MKDIR || f.kind == FK_OPENDIR)) { rel = true; after = 6000000000LL; }
            if (s.type == DT_UDP && (f.kind == FK_SOCKET || f.kind == FK_FCNTL || (f.kind == FK_SENDTO && (f.ch == s.ch || f.ch < 0)))) { rel = true; after = 5000000000LL; }
            if (!rel) continue;
            // logged more than `after` past the last firing?
            if (it.inv_m > f.mono + after) continue;
            // delivered surely before the fault?
            bool before = false;
            for (auto& q : quies) if (q.life == it.life && q.inv > it.ret && q.ret < f.step) before = true;
            if (before) continue;
            return true;
        }
        return false;
    }
    // records handed to the stream of an output whose life was then killed, where no later life changed a setting
    std::set<std::tuple<int,int,int>> streamed;
    void find_streamed()
    {
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i]; if (e.type != EV_FWRITE) continue;
            bool changed = false; for (size_t l = (size_t)e.life + 1; l < p.lives.size(); l++) for (auto& t : p.lives[l].threads) for (auto& o : t.ops) if (o.kind == OP_SETDEV || o.kind == OP_SETCH || o.kind == OP_BATCHCH || o.kind == OP_BATCHDEV) changed = true;
            if (changed) continue;
            int ch, d = inode_sink_dev(A->ino[e.b], ch); if (d < 0) continue;
            const char* at = (const char*)memchr(e.s, '@', e.sn); int L, T, S; long n;
            std::string str(e.s, e.sn); if (!at || sscanf(str.c_str() + (at - e.s), "@%d.%d.%d.%ld:", &L, &T, &S, &n) != 4) continue;
            auto f = by_key.find(key(L, T, S)); if (f == by_key.end()) continue;
            for (int q : f->second) if (items[(size_t)q].ch == ch && !items[(size_t)q].dgram) streamed.insert(std::make_tuple(q, ch, d));
        }
    }
    void deliveries()
    {
        find_streamed();
        std::vector<std::vector<const Occ*>> occs(items.size());
        for (auto& sk : sinks)
        {
            Sink& s = sk.second; if (s.in) continue;
            for (auto& o : occs) o.clear();
            for (auto& o : s.occ) if (o.item >= 0) occs[(size_t)o.item].push_back(&o);
            if (s.type == DT_VIRTUAL || s.type == DT_EMPTY) continue;
            std::map<int, std::vector<int>> pos;
            for (size_t i = 0; i < items.size(); i++)
            {
                const Item& it = items[i]; if (it.ch != s.ch || it.dgram) { continue; }
                size_t n = 0, rec = 0; const Occ* first = nullptr; const Occ* second = nullptr;
                for (auto* o : occs[i]) { if (o->recovered) rec++; else { if (!first) first = o; else if (!second) second = o; n++; } }
                bool killed = life_how[(size_t)it.life] == 2;
                int acc = accept(it);
                int d = acc == 0 ? 0 : filter(it.life, it.ch, dk(s.dev, s.type), it, it.inv, first ? first->step : settle(it));
                bool ran_after_kill = killed && shm;
                if (d == 1 && killed && shm && s.type == DT_FILE && it.done && streamed.count(std::make_tuple((int)i, s.ch, s.dev))) d = 2;
                int must = acc == 2 && d == 2 ? 2 : (acc && d) ? 1 : 0;
                bool recov = killed && shm; for (auto* o : occs[i]) if (o->life == it.life) recov = false;      // the recovering process applies its own settings
                if (must == 0 && n + rec > 0 && !recov)
                {
                    bool running = run_may(it.life, it.inv, it.ret);
                    v(running ? "phantom" : "ghost", it.life, (first ? first : occs[i][0])->step, "%s: %s appears although %s", sname(s).c_str(), iname(it).c_str(), running ? "the filters exclude it" : "it was logged while the logger was not running");
                    continue;
                }
                if (rec && !killed) v("recovered_bad", it.life, occs[i][0]->step, "%s: %s is marked as recovered although its process was not killed", sname(s).c_str(), iname(it).c_str());
                if (rec && killed && it.done) v("recovered_done", it.life, occs[i][0]->step, "%s: %s was completed before the kill but only a recovered piece is shown as well", sname(s).c_str(), iname(it).c_str());
                // a crash may repeat records: once more in a later life, if the life that wrote it was killed
                for (int pass = 0; pass < 2; pass++)
                {
                    const Occ* prev = nullptr; bool rep = false;
                    for (auto* o : occs[i])
                    {
                        if (o->recovered != (pass == 1)) continue;
                        if (prev && !rep)
                        {
                            bool ok = shm && o->life > prev->life && life_how[(size_t)prev->life] == 2;
                            if (!ok) { v(pass ? "recovered_dup" : "dup", it.life, o->step, "%s: %s %s %zu times", sname(s).c_str(), iname(it).c_str(), pass ? "recovered" : "appears", pass ? rec : n); rep = true; continue; }
                            // how far back from the kill is it
                            size_t later = 0; for (auto& q : s.occ) if (&q > prev && q.item >= 0 && q.life == prev->life) later++;
                            if (later > (size_t)QUE) { v("dup_old", it.life, o->step, "%s: %s, written %zu records before the crash, is repeated by recovery", sname(s).c_str(), iname(it).c_str(), later); rep = true; }
                        }
                        prev = o;
                    }
                }
                (void)second; (void)ran_after_kill;
                if (n == 0 && must == 2)
                {
                    if (killed && !shm) { if (!(sync_always(it.ch) && it.done)) continue; }
                    if (killed && shm)
                    {
                        if (s.type != DT_FILE) continue;
                        // needs a later life that ran the same configuration to the end
                        bool later = false; for (auto& st : starts) if (st.ok && st.life > it.life && life_how[(size_t)st.life] == 1) later = true;
                        if (!later) continue;
                    }
                    if (stop_excuse(it)) continue;
                    if (fault_excuse(it, s)) continue;
                    if (life_how[(size_t)it.life] == 0) continue;      // execution was cut (fatal): reported separately
                    v(killed ? "lost_crash" : "lost", it.life, it.ret, "%s: %s completed but never reached the output", sname(s).c_str(), iname(it).c_str());
                }
            }
            // bounded delivery at marked quiescence points
            for (auto& q : quies) if (q.check)
            {
                for (size_t i = 0; i < items.size(); i++)
                {
                    const Item& it = items[i];
                    if (it.ch != s.ch || it.life != q.life || it.ret > q.inv || it.dgram || (q.ch >= 0 && q.ch != it.ch)) continue;
                    if (accept(it) != 2 || filter(it.life, it.ch, dk(s.dev, s.type), it, it.inv, settle(it)) != 2) continue;
                    if (stop_excuse(it) || fault_excuse(it, s)) continue;
                    bool ok = false; for (auto* o : occs[i]) if (o->step < q.ret) ok = true;
                    if (!ok) { bool ever = !occs[i].empty(); if (ever || !q.ch) {} v("late", it.life, q.ret, "%s: %s not delivered %s by the end of a quiet period", sname(s).c_str(), iname(it).c_str(), "in bounded time,"); break; }
                }
            }
        }
    }
    void order()
    {
        for (auto& sk : sinks)
        {
            Sink& s = sk.second; if (s.in || s.type == DT_EMPTY || s.type == DT_VIRTUAL) continue;
            bool async = async_always(s.ch);
            u64 maxinv = 0; int maxi = -1, maxl = -1; std::set<int> seen;
            for (auto& o : s.occ)
            {
                if (o.item < 0 || seen.count(o.item) || o.recovered) continue;
                seen.insert(o.item);
                const Item& it = items[(size_t)o.item];
                if (it.xmit) continue;
                if (it.ret < maxinv)
                {
                    const Item& b = items[(size_t)maxi];
                    // written by a later life only: the earlier life may have had the device switched off, or failing, when it wrote the other one
                    if (o.life != maxl && (filter(it.life, it.ch, dk(s.dev, s.type), it, it.inv, settle(it)) != 2 || fault_excuse(it, s))) continue;
                    if (async || (b.tid == it.tid && b.life == it.life))
                        v("order", it.life, o.step, "%s: %s completed before %s began but comes after it", sname(s).c_str(), iname(it).c_str(), iname(b).c_str());
                    break;
                }
                if (it.inv > maxinv && (async || true)) { if (async || maxi < 0 || true) { maxinv = it.inv; maxi = o.item; maxl = o.life; } }
            }
            if (!async)
            {
                std::map<std::pair<int,int>, int> last; seen.clear();
                for (auto& o : s.occ) if (o.item >= 0 && !o.recovered && seen.insert(o.item).second) { const Item& it = items[(size_t)o.item]; if (it.xmit) continue; int& l = last[{ it.life, it.tid }]; if (it.seq < l) { v("order", it.life, o.step, "%s: %s comes after a later record of its thread", sname(s).c_str(), iname(it).c_str()); break; } l = it.seq; }
            }
        }
        // relative order between outputs of one channel
        for (auto a = sinks.begin(); a != sinks.end(); ++a) for (auto b = std::next(a); b != sinks.end(); ++b)
        {
            if (a->second.ch != b->second.ch || a->second.in || b->second.in || !async_always(a->second.ch)) continue;
            if (a->second.occ.empty() || b->second.occ.empty() || any_kill) continue;
            std::map<int,int> pa; int n = 0;
            for (auto& o : a->second.occ) if (o.item >= 0 && !pa.count(o.item)) pa[o.item] = n++;
            int last = -1, li = -1; std::set<int> seen;
            for (auto& o : b->second.occ)
            {
                auto f = pa.find(o.item); if (f == pa.end() || !seen.insert(o.item).second) continue;
                if (f->second < last) { v("devorder", o.life, o.step, "%s and %s disagree on the order of %s and %s", sname(a->second).c_str(), sname(b->second).c_str(), iname(items[(size_t)o.item]).c_str(), iname(items[(size_t)li]).c_str()); break; }
                last = f->second; li = o.item;
            }
        }
    }
    // ------------------------------------------------------------ synchronous channels
    void sync_writes()
    {
        for (auto& sk : sinks)
        {
            Sink& s = sk.second; if (s.in || !sync_always(s.ch) || s.type == DT_EMPTY || s.type == DT_VIRTUAL) continue;
            std::vector<int> v1; for (size_t i = 0; i < items.size(); i++) if (items[i].ch == s.ch && !items[i].dgram) v1.push_back((int)i);
            std::sort(v1.begin(), v1.end(), [&](int a, int b) { return items[(size_t)a].inv < items[(size_t)b].inv; });
            std::map<int, u64> at; for (auto& o : s.occ) if (o.item >= 0 && !o.recovered && !at.count(o.item)) at[o.item] = o.step;
            size_t i = 0;
            while (i < v1.size())
            {
                size_t j = i; u64 end = items[(size_t)v1[i]].ret; bool multi = false;
                while (j + 1 < v1.size() && items[(size_t)v1[j + 1]].life == items[(size_t)v1[i]].life && items[(size_t)v1[j + 1]].inv < end) { j++; multi = true; end = std::max(end, items[(size_t)v1[j]].ret); }
                for (size_t k = i; k <= j; k++)
                {
                    const Item& it = items[(size_t)v1[k]];
                    if (end == INF) { break; }
                    if (accept(it) != 2 || filter(it.life, it.ch, dk(s.dev, s.type), it, it.inv, end) != 2 || stop_excuse(it) || fault_excuse(it, s)) continue;
                    auto f = at.find(v1[k]);
                    if (f == at.end() || f->second > end) { v(multi ? "sync_multi" : "sync_late", it.life, end, "%s: synchronous %s %s handed to the operating system when %s returned", sname(s).c_str(), iname(it).c_str(), f == at.end() ? "was never" : "was not yet", multi ? "all overlapping statements had" : "its statement"); break; }
                }
                i = j + 1;
            }
        }
    }
    // ------------------------------------------------------------ life cycle
    bool fault_between(int life, u64 a, u64 b) { for (auto& f : fev) if (f.life == life && f.step > a && f.step < b && f.kind != FK_STALLIO && f.kind != FK_OVERSLEEP && f.kind != FK_STALL && f.kind != FK_CLOCKSTEP && f.kind != FK_WRITE && f.kind != FK_SHORTW
        && !(f.kind == FK_SLOWTHREAD && f.val >= 0 && f.val <= 150)) return true; return false; }   // a thread that comes up this late is no reason to fail
    void lifecycle()
    {
        std::vector<StartOp*> all; for (auto& s : starts) all.push_back(&s);
        for (auto& s : stops) all.push_back(&s);
        auto overlaps = [&](const StartOp& s) { for (auto* o : all) if (o != &s && o->life == s.life && o->x->begun && o->x->inv < s.x->ret && o->x->ret > s.x->inv) return true; return false; };
        for (auto& s : starts)
        {
            if (!s.x->done) continue;
            bool invalid = s.cfg < 0 || !cfg_ok[(size_t)s.cfg];
            bool foreign = p.k("foreign_seg", 0) && s.cfg >= 0 && cfg[(size_t)s.cfg].shm_key;
            if (s.ok && invalid) v("start_ok", s.life, s.x->ret, "a start with an invalid or missing configuration succeeded");
            if (s.ok && foreign) v("start_ok", s.life, s.x->ret, "a start on a shared memory segment of another layout succeeded");
            if (s.ok && run_must(s.life, s.x->inv, s.x->ret)) v("start_ok", s.life, s.x->ret, "a start succeeded while the logger was already running");
            if (!s.ok && !invalid && !foreign && !overlaps(s) && !fault_between(s.life, s.x->inv, s.x->ret) && !run_may(s.life, s.x->inv, s.x->ret, &s))
                v("start_fail", s.life, s.x->ret, "a start with a valid configuration failed with %lld although nothing prevents it", (long long)s.x->res);
            if (s.x->ret_m - s.x->inv_m > 25000000000LL) v("slow_start", s.life, s.x->ret, "a start took %lld simulated ms", (long long)((s.x->ret_m - s.x->inv_m) / 1000000));
            if (!s.ok)
            {
                // nothing may be left behind
                if (overlaps(s) || run_may(s.life, s.x->inv, s.x->ret, &s)) continue;
                int thr = 0; std::set<i64> open;
                for (u32 i = 0; i < A->nev; i++) { const Ev& e = A->ev[i]; if (e.life != s.life || e.step > s.x->ret) continue; if (e.type == EV_THREAD) thr += e.b == 0 ? 1 : is_sut_thread(e.life, e.a) ? -1 : 0; if (e.type == EV_OPEN || e.type == EV_SOCK) open.insert(e.a); if (e.type == EV_CLOSE || e.type == EV_SOCKCLOSE) open.erase(e.a); }
                if (thr > 0) v("start_leak", s.life, s.x->ret, "%d writer thread(s) left behind by a failed start", thr);
                if (!open.empty()) v("leak", s.life, s.x->ret, "%zu file(s) or socket(s) left open by a failed start", open.size());
            }
        }
        for (auto& s : stops)
        {
            if (!s.x->done) continue;
            if (!s.ok && !overlaps(s) && run_must(s.life, s.x->inv, s.x->ret)) v("stop_fail", s.life, s.x->ret, "a stop of a running logger failed with %lld", (long long)s.x->res);
            if (s.ok && !run_may(s.life, s.x->inv, s.x->ret)) v("stop_ok", s.life, s.x->ret, "a stop succeeded although the logger was not running");
            if (s.ok)
            {
                // silence until the next start, nothing open
                u64 nxt = INF; for (auto& t : starts) if (t.life == s.life && t.x->ret > s.x->inv && t.x->inv != s.x->inv) nxt = std::min(nxt, t.x->inv);
                nxt = std::min(nxt, life_end[(size_t)s.life]);
                std::set<i64> open;
                for (u32 i = 0; i < A->nev; i++)
                {
                    const Ev& e = A->ev[i]; if (e.life != s.life) continue;
                    if (e.step <= s.x->ret) { if (e.type == EV_OPEN || e.type == EV_SOCK) open.insert(e.a); if (e.type == EV_CLOSE || e.type == EV_SOCKCLOSE) open.erase(e.a); }
                    else if (e.step < nxt)
                    {
                        bool scr = e.type == EV_SCREEN && (memchr(A->screen.p + e.c, '@', (size_t)e.d) || memchr(A->screen.p + e.c, '~', (size_t)e.d));
                        if (e.type == EV_WRITE || e.type == EV_SEND || scr || (e.type == EV_OPEN && e.c) || e.type == EV_SOCK) { v("late_write", s.life, e.step, "output activity (%s) after a stop had returned", e.type == EV_WRITE ? "file write" : e.type == EV_SEND ? "datagram" : scr ? "screen" : e.type == EV_OPEN ? "file open" : "socket"); break; }
                    }
                }
                if (nxt > s.x->ret && !open.empty()) v("leak", s.life, s.x->ret, "%zu file(s) or socket(s) open after a stop had returned", open.size());
            }
            if (s.x->ret_m - s.x->inv_m > p.k("stop_limit_ms", 60000) * 1000000LL) v("slow_stop", s.life, s.x->ret, "a stop took %lld simulated ms", (long long)((s.x->ret_m - s.x->inv_m) / 1000000));
        }
        // alternation of successful starts and stops
        for (size_t l = 0; l < ox.size(); l++)
        {
            std::vector<u64> pts; for (auto* o : all) if (o->life == (int)l && o->ok) pts.push_back(o->x->ret);
            for (u64 t : pts)
            {
                int sm = 0, sp = 0, tm = 0, tp = 0;
                for (auto& s : starts) if (s.life == (int)l && (s.ok || !s.x->done)) { if (s.ok && s.x->ret <= t) sm++; if (s.x->begun && s.x->inv <= t) sp++; }
                for (auto& s : stops) if (s.life == (int)l && (s.ok || !s.x->done)) { if (s.ok && s.x->ret <= t) tm++; if (s.x->begun && s.x->inv <= t) tp++; }
                if (sm > tp + 1) { v("alternate", (int)l, t, "%d starts succeeded but at most %d stops", sm, tp); break; }
                if (tm > sp) { v("alternate", (int)l, t, "%d stops succeeded but at most %d starts", tm, sp); break; }
            }
        }
        // after process exit: nothing of the process remains open (checked by its own events)
        for (size_t l = 0; l < ox.size(); l++) if (life_how[l] == 1)
        {
            std::set<i64> open; int thr = 0;
            for (u32 i = 0; i < A->nev; i++) { const Ev& e = A->ev[i]; if (e.life != (int)l) continue; if (e.type == EV_OPEN || e.type == EV_SOCK) open.insert(e.a); if (e.type == EV_CLOSE || e.type == EV_SOCKCLOSE) open.erase(e.a); if (e.type == EV_THREAD && e.b == 0) thr++; if (e.type == EV_THREAD && e.b == 1 && is_sut_thread((int)l, e.a)) thr--; }
            if (!open.empty()) v("leak", (int)l, life_end[l], "%zu file(s) or socket(s) still open at normal process exit", open.size());
            if (thr > 0) v("thread_leak", (int)l, life_end[l], "%d writer thread(s) alive at normal process exit", thr);
        }
    }
    bool is_sut_thread(int life, i64 t) { return t >= (i64)p.lives[(size_t)life].threads.size(); }
    void durations()
    {
        long lim = p.k("log_limit_ms", 0); long slowch = p.k("slow_ch", -1);
        if (lim <= 0) return;
        for (auto& it : items) if (!it.dgram && !it.xmit && it.done && it.ch != slowch)
        {
            i64 own = it.op->a[8] * 4; i64 ms = (it.ret_m - it.inv_m) / 1000000;
            for (auto& f : p.faults) if (f.kind == FK_STALL || f.kind == FK_OVERSLEEP) own += f.p1;
            if (ms > lim + own) { v("slow", it.life, it.ret, "the statement of %s took %lld simulated ms", iname(it).c_str(), (long long)ms); break; }
        }
    }
    // ------------------------------------------------------------ handles
    void handles()
    {
        std::map<std::pair<int,i64>, std::pair<int,int>> fds; std::map<std::pair<int,int>, int> open; int socks = 0, udp_max = 0, rd = 0; int life = -1; int sock_peak = 0, rd_peak = 0;
        std::set<i64> rds;
        for (size_t i = 0; i < cfg.size(); i++) { int n = 0; for (auto& h : cfg[i].ch) for (auto& d : h.dev) if (d.type == DT_UDP || d.in) n++; udp_max = std::max(udp_max, n); }
        std::set<std::pair<int,int>> uu; for (size_t i = 0; i < cfg.size(); i++) for (size_t h = 0; h < cfg[i].ch.size(); h++) for (size_t d = 0; d < cfg[i].ch[h].dev.size(); d++) { auto& D = cfg[i].ch[h].dev[d]; if (D.type == DT_UDP || D.in) uu.insert({ (int)h, (int)d }); }
        udp_max = (int)uu.size();
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i];
            if (e.life != life) { life = e.life; fds.clear(); open.clear(); socks = 0; rd = 0; rds.clear(); }
            if (e.type == EV_OPEN && e.c)
            {
                int ch; Inode& I = A->ino[e.b]; int d = inode_sink_dev(I, ch); if (d < 0) continue;
                fds[{ e.life, e.a }] = { ch, d };
                if (++open[{ ch, d }] > 1) { v("leak", e.life, e.step, "file output %d.%d has two open files", ch, d); }
            }
            else if (e.type == EV_OPEN) { rds.insert(e.a); rd = (int)rds.size(); if (rd > rd_peak) rd_peak = rd; if (rd > 12) { v("leak", e.life, e.step, "%d files or directories open for reading at once", rd); return; } }
            else if (e.type == EV_CLOSE) { if (e.c) { auto f = fds.find({ e.life, e.a }); if (f != fds.end()) { open[f->second]--; fds.erase(f); } } else rds.erase(e.a); }
            else if (e.type == EV_SOCK) { if (++socks > udp_max) { v("leak", e.life, e.step, "%d sockets open but only %d outputs or inputs use one", socks, udp_max); return; } if (socks > sock_peak) sock_peak = socks; }
            else if (e.type == EV_SOCKCLOSE) socks--;
            else if (e.type == EV_BADUSE) v("baduse", e.life, e.step, "%s", e.s);
        }
    }
    // ------------------------------------------------------------ rotation
    static std::string expand(const std::string& pat, const struct tm& t, int life)
    {
        std::string r;
        for (size_t i = 0; i < pat.size();)
        {
            auto is = [&](const char* k) { return pat.compare(i, strlen(k), k) == 0; };
            char b[16];
            if (is("$YEAR")) { snprintf(b, sizeof b, "%04d", t.tm_year + 1900); r += b; i += 5; }
            else if (is("$MON")) { snprintf(b, sizeof b, "%02d", t.tm_mon + 1); r += b; i += 4; }
            else if (is("$DAY")) { snprintf(b, sizeof b, "%02d", t.tm_mday); r += b; i += 4; }
            else if (is("$HOUR")) { snprintf(b, sizeof b, "%02d", t.tm_hour); r += b; i += 5; }
            else if (is("%F")) { snprintf(b, sizeof b, "%04d-%02d-%02d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday); r += b; i += 2; }
            else if (is("$PNAME")) { r += "simapp"; i += 6; }
            else if (is("$PID")) { snprintf(b, sizeof b, "%06d", 4242 + life); r += b; i += 4; }
            else r += pat[i++];
        }
        return r;
    }
    static std::string full_path(const DevM& d, int ch, int dev, const struct tm& t, int life)
    {
        std::string path = expand(d.path, t, life), file = d.file.empty() ? "$PNAME_$YEAR$MON$DAY_$PID." + std::to_string(ch) + std::to_string(dev) : d.file; if (!path.empty() && path.back() != '/') path += '/';
        std::string r = path + expand(file, t, life) + ".log";
        while (r.compare(0, 2, "./") == 0) r = r.substr(2);
        return r;
    }
    const DevM* devm(int ch, int dev, int type) { for (size_t i = 0; i < cfg.size(); i++) if (cfg_ok[i] && (size_t)ch < cfg[i].ch.size() && (size_t)dev < cfg[i].ch[(size_t)ch].dev.size() && cfg[i].ch[(size_t)ch].dev[(size_t)dev].type == type) return &cfg[i].ch[(size_t)ch].dev[(size_t)dev]; return nullptr; }
    void rotation()
    {
        // replay the name space: per base path, the inodes under base, base.1, ...
        std::map<std::string, int> ns;
        auto backup = [](const std::string& path, std::string& base) -> int { size_t k = path.rfind('.'); if (k == std::string::npos) return -1; std::string t = path.substr(k + 1); if (t == "log") { base = path; return 0; } if (t.empty() || t.find_first_not_of("0123456789") != std::string::npos) return -1; base = path.substr(0, k); if (base.size() < 4 || base.compare(base.size() - 4, 4, ".log")) return -1; return atoi(t.c_str()); };
        auto roll_of = [&](int ch, int dev) { const DevM* d = devm(ch, dev, DT_FILE); long r = d ? d->f[F_ROLL] : 0; long lim = p.k("roll_limit", 0); (void)lim; for (auto& f : tl) if (std::get<1>(f.first) == ch && std::get<2>(f.first) == dk(dev, DT_FILE) && std::get<3>(f.first) == F_ROLL) for (auto& c : f.second.c) r = std::max(r, c.val); return r; };
        std::map<int, u32> size_at;
        bool limited = false;   // is there any size limit
        for (auto& c : cfg) for (auto& h : c.ch) for (auto& d : h.dev) if (d.f[F_LIMIT]) limited = true;
        for (auto& l : p.lives) for (auto& t : l.threads) for (auto& o : t.ops) if ((o.kind == OP_SETDEV && o.a[2] == F_LIMIT) || (o.kind == OP_BATCHDEV && o.a[1] == F_LIMIT)) limited = true;
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i];
            if (e.type == EV_OPEN && e.c) { ns[e.s] = (int)e.b; }
            else if (e.type == EV_WRITE) size_at[(int)e.b] = (u32)(e.c + e.d);
            else if (e.type == EV_RENAME || (e.type == EV_UNLINK && e.a != 1))
            {
                std::string from = e.s, to; if (e.type == EV_RENAME) { size_t k = from.find('\n'); to = from.substr(k + 1); from = from.substr(0, k); }
                std::string base; int lvl = backup(from, base);
                int gone = -1; std::string gone_name;
                if (e.type == EV_UNLINK) { gone = (int)e.b; gone_name = from; } else if (e.c >= 0) { gone = (int)e.c; gone_name = to; }
                int ch = -1, dev = path_dev(base.c_str(), ch);
                if (lvl < 0 || dev < 0) { if (e.type == EV_RENAME || true) v("rotation", e.life, e.step, "unexpected change of file names: %s", e.s); }
                else
                {
                    long roll = std::max(1L, roll_of(ch, dev));
                    if (gone >= 0 && size_at.count(gone) && size_at[gone] > 0)
                    {
                        // must be the oldest of the chain and the number of backups must be exhausted
                        int backups = 0; bool older_kept = false; std::string ob;
                        u64 gmax = 0; for (auto& w : wsegs[gone]) if (w.step <= e.step) gmax = std::max(gmax, w.step);
                        for (auto& n : ns)
                        {
                            int l2 = backup(n.first, ob); if (l2 < 0 || ob != base) continue;
                            if (l2 > 0) backups++;
                            if (n.second == gone || !size_at.count(n.second) || size_at[n.second] == 0) continue;
                            u64 fmin = INF; for (auto& w : wsegs[n.second]) fmin = std::min(fmin, w.step);
                            if (fmin < gmax && wsegs[n.second].front().step < wsegs[gone].front().step) older_kept = true;
                        }
                        const DevM* dd = devm(ch, dev, DT_FILE);
                        if (dd && !limited && starts.size() == 1 && ((!dd->file.empty() && (dd->file + dd->path).find_first_of("$%") == std::string::npos) || (dd->file + dd->path).find("$YEAR") != std::string::npos))
                            v("discarded", e.life, e.step, "%s is discarded with its records although no size limit is set", gone_name.c_str());
                        if (older_kept) v("rotation", e.life, e.step, "rotation discards %s although an older backup is kept", gone_name.c_str());
                        if (backups < roll) v("rotation", e.life, e.step, "rotation discards %s with only %d of %ld backups in use", gone_name.c_str(), backups, roll);
                    }
                    std::string tb; int tl2 = e.type == EV_RENAME ? backup(to, tb) : 0;
                    if (e.type == EV_RENAME && (tl2 < 0 || tb != base)) v("rotation", e.life, e.step, "rotation renames %s to %s", from.c_str(), to.c_str());
                    if (e.type == EV_RENAME && tl2 > roll) v("rotation", e.life, e.step, "rotation creates %s beyond the configured %ld backups", to.c_str(), roll);
                }
                if (e.type == EV_RENAME) { ns.erase(from); ns[to] = (int)e.b; } else ns.erase(from);
            }
            else if (e.type == EV_UNLINK && e.a == 1) v("truncate", e.life, e.step, "an existing log file was truncated (%s)", e.s);
        }
        // final state: chain base.N .. base.1, base must be in order and contiguous
        std::map<std::string, std::map<int,int>> chain; std::string base;
        for (auto& n : ns) { int l = backup(n.first, base); if (l >= 0) chain[base][-l] = n.second; }
        for (auto& c : chain)
        {
            int ch = -1, dev = -1; { const char* b = strrchr(c.first.c_str(), '/'); b = b ? b + 1 : c.first.c_str(); if (sscanf(b, "c%dd%d", &ch, &dev) != 2) continue; }
            auto sk = sinks.find(std::make_tuple(ch, dev, (int)DT_FILE)); if (sk == sinks.end()) continue;
            const DevM* d = devm(ch, dev, DT_FILE); if (!d || d->file.empty() || (d->file + d->path).find_first_of("$%") != std::string::npos) continue;
            // sequence of occurrences in the chain
            std::vector<const Occ*> kept; std::map<int, std::vector<const Occ*>> per;
            for (auto& o : sk->second.occ) if (o.item >= 0) per[o.inode].push_back(&o);
            for (auto& q : c.second) for (auto* o : per[q.second]) kept.push_back(o);
            // must equal the tail of the complete sequence
            std::vector<const Occ*> allv; for (auto& o : sk->second.occ) if (o.item >= 0) allv.push_back(&o);
            if (kept.size() > allv.size()) continue;
            size_t off = allv.size() - kept.size();
            for (size_t i = 0; i < kept.size(); i++) if (allv[off + i] != kept[i])
            { v("rotation", kept[i]->life, kept[i]->step, "%s: the file and its backups do not hold an uninterrupted in-order run of the newest records (at %s)", sname(sk->second).c_str(), iname(items[(size_t)kept[i]->item]).c_str()); break; }
        }
        // size limit
        for (auto& sk : sinks)
        {
            Sink& s = sk.second; if (s.type != DT_FILE || s.in) continue;
            std::map<int, std::vector<u64>> opens; std::map<int, std::set<u64>> dummy;
            for (u32 i = 0; i < A->nev; i++) if (A->ev[i].type == EV_OPEN && A->ev[i].c) opens[(int)A->ev[i].b].push_back(A->ev[i].step);
            std::map<int, u64> prev;
            for (auto& o : s.occ)
            {
                u64 pv = prev.count(o.inode) ? prev[o.inode] : 0; prev[o.inode] = o.step;
                if (o.item < 0 || o.off == 0) continue;
                bool first = false; for (u64 op : opens[o.inode]) if (op > pv && op < o.step) first = true;
                // reopened: one record may be appended before the limit is looked at - after a start, or when the period changed
                if (first)
                {
                    bool again = true; long z = 0; std::vector<long> dy, hr;
                    if (pv) { const Occ* po = nullptr; for (auto& q : s.occ) if (q.inode == o.inode && q.step == pv) po = &q;
                        if (po && po->life == o.life && po->item >= 0)
                        {
                            again = false; for (auto& so : starts) if (so.life == o.life && so.x->begun && so.x->ret > pv && so.x->inv < o.step) again = true;
                            for (auto& f : fev) if (f.life == o.life && f.kind != FK_STALLIO && f.kind != FK_STALL && f.kind != FK_OVERSLEEP) again = true;
                            possible(o.life, s.ch, dk(s.dev, s.type), F_DAILY, 0, o.step, dy); possible(o.life, s.ch, dk(s.dev, s.type), F_HOURLY, 0, o.step, hr);
                            for (long x : dy) z |= x;
                            for (long x : hr) z |= x;
                            if (z) { const Item& a = items[(size_t)po->item]; const Item& b = items[(size_t)o.item]; std::set<i64> per; for (i64 w : { a.inv_w, a.ret_w, b.inv_w, b.ret_w }) { i64 sec = w / 1000000; per.insert((sec + utcoff(sec)) / 3600); } if (per.size() > 1 || !a.done || !b.done || a.xmit || b.xmit) again = true; }
                        } }
                    if (again) continue;
                }
                std::vector<long> lim, roll; const Item& it = items[(size_t)o.item];
                possible(o.life, s.ch, dk(s.dev, s.type), F_LIMIT, it.life == o.life ? it.inv : o.step, o.step, lim); possible(o.life, s.ch, dk(s.dev, s.type), F_ROLL, it.life == o.life ? it.inv : o.step, o.step, roll);
                bool viol = !lim.empty() && !roll.empty(); for (long x : lim) if (x <= 0 || (long)o.end <= x) viol = false; for (long x : roll) if (x <= 0) viol = false;
                for (auto& f : fev) if (f.kind == FK_RENAME || f.kind == FK_UNLINK) viol = false;   // a file that cannot be rotated away keeps growing
                if (viol) { v("size_limit", o.life, o.step, "%s: file %s grows to %u bytes, limit %ld", sname(s).c_str(), A->ino[o.inode].birth_path, o.end, lim[0]); break; }
            }
        }
    }
    // ------------------------------------------------------------ time
    static i64 civil(const std::string& ts, bool& ok)
    {
        int Y, M, D, h, m, s, ms; ok = sscanf(ts.c_str(), "[%4d%2d%2d %2d:%2d:%2d.%3d]", &Y, &M, &D, &h, &m, &s, &ms) == 7; if (!ok) return 0;
        struct tm t; memset(&t, 0, sizeof t); t.tm_year = Y - 1900; t.tm_mon = M - 1; t.tm_mday = D; t.tm_hour = h; t.tm_min = m; t.tm_sec = s; return (i64)timegm(&t) * 1000 + ms;
    }
    static long utcoff(i64 sec) { time_t t = (time_t)sec; struct tm x; localtime_r(&t, &x); return x.tm_gmtoff; }
    // the stretches of wall clock time (ms) that passed while the statement ran; empty when it never returned
    typedef std::vector<std::pair<i64,i64>> Wins;
    Wins wall_windows(const Item& it)
    {
        Wins w; if (!it.done) return w;
        i64 from = it.inv_w / 1000;
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i]; if (e.type != EV_CLOCKSTEP || e.life != it.life || e.step <= (it.xmit ? it.began : it.inv) || e.step >= it.ret) continue;
            w.push_back({ from, e.wall / 1000 - e.d }); from = e.wall / 1000;
        }
        w.push_back({ from, it.ret_w / 1000 });
        return w;
    }
    // the instants within the statement that local calendar time x can mean
    static void instants(const Wins& w, i64 x, std::vector<i64>& res)
    {
        for (auto& k : w) for (i64 b : { k.first, k.second, (k.first + k.second) / 2 })
        {
            i64 q = x - utcoff(b / 1000) * 1000LL;
            if (q >= k.first && q <= k.second && utcoff(q / 1000) == utcoff(b / 1000)) res.push_back(q);
        }
    }
    void timestamps()
    {
        for (auto& sk : sinks) for (auto& o : sk.second.occ)
        {
            if (o.item < 0 || o.recovered) continue;
            const Item& it = items[(size_t)o.item]; if (it.dgram || !(mask_of(it) & 1)) continue;
            Wins w = wall_windows(it); if (w.empty()) continue;
            bool ok; i64 x = civil(o.prefix, ok); if (!ok) continue;
            std::vector<i64> good; instants(w, x, good);
            if (good.empty())
            {
                i64 lo = w.front().first, hi = w.back().second;
                char a[40], b[40]; time_t t1 = (time_t)(lo / 1000), t2 = (time_t)(hi / 1000); struct tm m1, m2; localtime_r(&t1, &m1); localtime_r(&t2, &m2); strftime(a, sizeof a, "%Y%m%d %H:%M:%S", &m1); strftime(b, sizeof b, "%Y%m%d %H:%M:%S", &m2);
                v("timestamp", it.life, o.step, "%s: %s carries %s but its statement ran between %s.%03d and %s.%03d local time", sname(sk.second).c_str(), iname(it).c_str(), o.prefix.substr(0, 23).c_str(), a, (int)(lo % 1000), b, (int)(hi % 1000));
                return;
            }
        }
    }
    void periods()
    {
        for (auto& sk : sinks)
        {
            Sink& s = sk.second; if (s.type != DT_FILE || s.in) continue;
            const DevM* d = devm(s.ch, s.dev, DT_FILE); if (!d) continue;
            bool has_hour = (d->file + d->path).find("$HOUR") != std::string::npos;
            if (!d->file.empty() && (d->file + d->path).find_first_of("$%") == std::string::npos) continue;
            std::vector<long> daily, hourly;
            for (auto& o : s.occ)
            {
                if (o.item < 0 || o.recovered) continue;
                const Item& it = items[(size_t)o.item];
                possible(o.life, s.ch, dk(s.dev, s.type), F_DAILY, it.inv, o.step, daily); possible(o.life, s.ch, dk(s.dev, s.type), F_HOURLY, it.inv, o.step, hourly);
                bool d0 = false, d1 = false, h0 = hourly.empty(); for (long x : daily) (x ? d1 : d0) = true; for (long x : hourly) if (!x) h0 = true;
                if (has_hour ? d1 || h0 : daily.empty() || (d0 && h0)) continue;   // by the hour only without daily rolling, which goes first
                Wins w = wall_windows(it); if (w.empty()) continue;
                struct tm m; std::set<std::string> exp; time_t t;
                bool ok; i64 x = civil(o.prefix, ok);
                // the record's own timestamp when it is consistent with the statement, otherwise the statement's window
                std::vector<i64> cand;
                if (ok && (mask_of(it) & 1)) instants(w, x, cand);
                if (cand.empty()) for (auto& k : w) { cand.push_back(k.first); cand.push_back(k.second); }
                for (i64 q : cand) { t = (time_t)(q / 1000); localtime_r(&t, &m); exp.insert(full_path(*d, s.ch, s.dev, m, o.life)); }
                std::string got = A->ino[o.inode].birth_path;
                if (!exp.count(got)) { v("period", it.life, o.step, "%s: %s is in %s, its period's file is %s", sname(s).c_str(), iname(it).c_str(), got.c_str(), exp.begin()->c_str()); return; }
            }
        }
    }
    // ------------------------------------------------------------ destination of datagrams
    void destinations()
    {
        std::vector<long> a;
        for (auto& sk : sinks) if (sk.second.type == DT_UDP && !sk.second.in)
            for (auto& o : sk.second.occ)
            {
                if (o.item < 0) continue;
                const Item& it = items[(size_t)o.item]; possible(o.life, it.ch, dk(sk.second.dev, DT_UDP), F_PORT, it.inv, o.step, a);
                if (!a.empty() && std::find(a.begin(), a.end(), o.port) == a.end()) { v("udp_addr", o.life, o.step, "%s: %s was sent to port %ld, configured is %ld", sname(sk.second).c_str(), iname(it).c_str(), o.port, a.back()); return; }
            }
    }
    // ------------------------------------------------------------ counters
    void counters()
    {
        std::map<std::pair<int,u64>, int> done;
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i]; if (e.type != EV_COUNTER) continue;
            u64 at = e.step; int ch = (int)e.a;
            if (shm) continue;
            const StartOp* last = nullptr;   // the configuration that the query was answered under
            for (auto& so : starts) if (so.ok && so.life == e.life && so.x->ret < at && (!last || so.x->ret > last->x->ret)) last = &so;
            if (last && last->cfg >= 0 && (size_t)ch >= cfg[(size_t)last->cfg].ch.size()) continue;
            bool in_progress = false, fuzzy = false; i64 acc = 0, bytes = 0, pb[8] = { 0 }; bool bytes_known = true;
            for (auto& it : items) if (it.life == e.life && it.ch == ch && !it.dgram && it.inv < at)
            {
                if (it.ret > at) in_progress = true;
                int a = accept(it); if (a == 1) fuzzy = true; if (a == 2) { acc++; size_t n = line_len(it); if (!n) bytes_known = false; bytes += (i64)n; if (it.pri >= 0 && it.pri < 7) pb[it.pri] += (i64)n; }
            }
            if (in_progress || fuzzy) continue;
            if (e.b < 0)
            {
                if (e.c == 0 && e.d != acc) v("counter", e.life, at, "channel %d: published count %lld, accepted %lld", ch, (long long)e.d, (long long)acc);
                if (e.c == 1 && e.d != acc) v("counter", e.life, at, "channel %d: processed count %lld, accepted %lld", ch, (long long)e.d, (long long)acc);
                if (e.c == 2 && bytes_known && e.d != bytes) v("counter", e.life, at, "channel %d: processed bytes %lld, accepted records have %lld", ch, (long long)e.d, (long long)bytes);
                if (e.c == 4 && e.d != acc) v("counter", e.life, at, "channel %d: %lld slots taken for %lld accepted records", ch, (long long)e.d, (long long)acc);
                if (e.c >= 10 && bytes_known && e.d != pb[e.c - 10]) v("counter", e.life, at, "channel %d: bytes of priority %d %lld, accepted records have %lld", ch, (int)e.c - 10, (long long)e.d, (long long)pb[e.c - 10]);
                continue;
            }
            for (auto& sk : sinks)
            {
                Sink& s = sk.second; if (s.ch != ch || s.dev != e.b) continue;
                if (last && last->cfg >= 0) { auto& dv = cfg[(size_t)last->cfg].ch[(size_t)ch].dev; if ((size_t)s.dev >= dv.size() || dv[(size_t)s.dev].type != s.type) continue; }
                bool multi_type = false; for (auto& q : sinks) if (&q.second != &s && q.second.ch == ch && q.second.dev == s.dev) multi_type = true;
                if (multi_type) continue;
                i64 lines = 0, by = 0, dp[8] = { 0 }; bool known = true, pri_known = !s.in && s.type != DT_EMPTY;
                if (s.in) { for (u32 j = 0; j < i; j++) if (A->ev[j].type == EV_RECV && A->ev[j].life == e.life && A->ev[j].c == 9000 + ch * 32 + s.dev) { lines++; by += A->ev[j].d; if (A->ev[j].d >= LOG - 2 || A->ev[j].d == 0) known = false; } }
                else if (s.type == DT_VIRTUAL) { for (u32 j = 0; j < i; j++) if (A->ev[j].type == EV_HOOK && A->ev[j].life == e.life && A->ev[j].a == ch) { lines++; by += A->ev[j].d; if (A->ev[j].b >= 0 && A->ev[j].b < 7) dp[A->ev[j].b] += A->ev[j].d; } }
                else if (s.type == DT_EMPTY)
                {
                    for (auto& it : items) if (it.life == e.life && it.ch == ch && !it.dgram && it.inv < at && accept(it) == 2) { int f = filter(it.life, ch, dk(s.dev, s.type), it, it.inv, at); if (f == 1) fuzzy = true; if (f == 2) { lines++; size_t n = line_len(it); if (!n) known = false; by += (i64)n; } }
                    known = true; by = -1;
                }
                else for (auto& o : s.occ) if (o.life == e.life && o.step < at) { lines++; by += o.n; if (o.item < 0 || o.recovered || items[(size_t)o.item].dgram) pri_known = false; else if (items[(size_t)o.item].pri < 7) dp[items[(size_t)o.item].pri] += o.n; }
                if (fuzzy) continue;
                if (e.c == 0 && e.d != lines && s.type != DT_EMPTY) v("counter", e.life, at, "%s: line counter %lld, delivered %lld", sname(s).c_str(), (long long)e.d, (long long)lines);
                if (e.c == 1 && known && by >= 0 && e.d != by) v("counter", e.life, at, "%s: byte counter %lld, delivered %lld", sname(s).c_str(), (long long)e.d, (long long)by);
                if (e.c >= 10 && known && pri_known && e.d != dp[e.c - 10]) v("counter", e.life, at, "%s: bytes of priority %d %lld, delivered %lld", sname(s).c_str(), (int)e.c - 10, (long long)e.d, (long long)dp[e.c - 10]);
                if (e.c == 2 && s.type == DT_UDP && !s.in && p.k("udp_lost", 0))
                {
                    i64 must = 0; for (auto& it : items) if (it.life == e.life && it.ch == ch && !it.dgram && it.inv < at && accept(it) == 2 && filter(it.life, ch, dk(s.dev, s.type), it, it.inv, at) == 2) must++;
                    if (e.d != must - lines) v("udp_lost", e.life, at, "%s: %lld records accepted, %lld datagrams sent, but %lld counted as lost", sname(s).c_str(), (long long)must, (long long)lines, (long long)e.d);
                }
            }
        }
    }
    size_t line_len(const Item& it)
    {
        for (auto& sk : sinks) if (sk.second.ch == it.ch && !sk.second.in) for (auto& o : sk.second.occ) if (o.item >= 0 && &items[(size_t)o.item] == &it && !o.recovered) return o.n;
        if (mask_of(it) == 0 && it.op->a[5] < 100 && it.len <= LOG - 2) return (size_t)it.len + 1;
        return 0;
    }
    // ------------------------------------------------------------ hook
    void hooks()
    {
        struct HK { const Ev* e; };
        std::map<int, std::vector<const Ev*>> calls;
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i]; if (e.type != EV_HOOK) continue;
            const char* at = (const char*)memchr(e.s, '@', e.sn); int L, T, S; long n;
            std::string str(e.s, e.sn);
            if (!at || sscanf(at, "@%d.%d.%d.%ld:", &L, &T, &S, &n) != 4 || !by_key.count(key(L, T, S))) { v("hook", e.life, e.step, "the hook was called with text that is no record: '%s'", shown(e.s, e.sn).c_str()); continue; }
            int idx = -1; for (int q : by_key[key(L, T, S)]) if (items[(size_t)q].ch == (int)e.a && !items[(size_t)q].dgram) idx = q;
            if (idx < 0) { v("hook", e.life, e.step, "the hook was called for channel %d with a record of another channel", (int)e.a); continue; }
            const Item& it = items[(size_t)idx];
            calls[idx].push_back(&e);
            if (it.xmit) { v("hook", e.life, e.step, "the hook was called for a transmitted copy"); continue; }
            if (e.tid != it.tid) v("hook", e.life, e.step, "the hook for %s ran on thread %d", iname(it).c_str(), e.tid);
            if (e.b != it.pri || e.c != it.cat || e.e != it.id) v("hook", e.life, e.step, "the hook for %s saw other attributes", iname(it).c_str());
            Occ o; std::string why; int k = classify(e.s, e.sn, true, (int)e.a, o, why, 0);
            if (k != LN_OK) v("hook", e.life, e.step, "the hook for %s saw an incomplete text (%s)", iname(it).c_str(), why.c_str());
            for (auto& sk : sinks) if (sk.second.ch == it.ch) for (auto& oc : sk.second.occ) if (oc.item == idx && oc.step < e.step) { v("hook", e.life, e.step, "the hook for %s ran after the record had been written", iname(it).c_str()); break; }
        }
        // whether a hook is installed, over time; it is process state and starts out as none in every life
        struct HS { u64 inv, ret; bool on; };
        std::map<int, std::vector<HS>> set;
        for (size_t l = 0; l < p.lives.size(); l++) { set[(int)l].push_back({ 0, 0, false }); for (size_t t = 0; t < p.lives[l].threads.size(); t++) for (auto& o : p.lives[l].threads[t].ops) if (o.kind == OP_HOOK) { const OpX& x = ox[l][t][(size_t)o.a[9]]; if (x.begun) set[(int)l].push_back({ x.inv, x.done ? x.ret : ~0ULL, o.a[0] != 0 }); } }
        auto hook_set = [&](const Item& it) { bool on = false, off = false; auto& h = set[it.life]; for (auto& x : h) { if (x.inv > it.ret) continue; bool over = false; for (auto& y : h) if (&y != &x && y.inv > x.ret && y.ret < it.inv) over = true; if (!over) (x.on ? on : off) = true; } return on ? (off ? 1 : 2) : 0; };
        for (size_t i = 0; i < items.size(); i++)
        {
            const Item& it = items[i]; if (it.dgram) continue;
            size_t n = calls.count((int)i) ? calls[(int)i].size() : 0;
            if (it.xmit) continue;
            int must = 0; int acc = accept(it);
            for (auto& sk : sinks) if (sk.second.ch == it.ch && sk.second.type == DT_VIRTUAL && acc)
            {
                int f = filter(it.life, it.ch, dk(sk.second.dev, DT_VIRTUAL), it, it.inv, it.ret);
                must = f == 0 ? 0 : (f == 2 && acc == 2) ? 2 : 1;
            }
            must = std::min(must, hook_set(it));
            if (n > 1) v("hook", it.life, calls[(int)i][1]->step, "the hook was called %zu times for %s", n, iname(it).c_str());
            else if (n == 1 && must == 0) v("hook", it.life, calls[(int)i][0]->step, "the hook was called for %s which no enabled virtual output selects", iname(it).c_str());
            else if (n == 0 && must == 2) v("hook", it.life, it.ret, "the hook was not called for %s", iname(it).c_str());
        }
    }
    // ------------------------------------------------------------ udp input
    void udp_in()
    {
        for (auto& sk : sinks)
        {
            Sink& s = sk.second; if (!s.in) continue;
            u32 port = 9000 + (u32)s.ch * 32 + (u32)s.dev;
            std::string exp, got; i64 pushed = 0, rcv = 0; std::vector<std::pair<u64,u64>> marks;
            std::map<size_t, size_t> lng;            // datagrams that do not fit into a record
            for (u32 i = 0; i < A->nev; i++)
            {
                const Ev& e = A->ev[i];
                if (e.type == EV_DGRAM && e.a == port) { if (!e.b) pushed++; }
                else if (e.type == EV_RECV && e.c == (i64)port) { rcv++; exp.append(e.s, e.sn); if (e.d > LOG - 2) lng[exp.size() - e.sn] = e.sn; }
                else if (e.type == EV_SEND && s.type == DT_UDP && e.c == 8000 + s.ch * 32 + s.dev) got.append(e.s, e.sn);
            }
            if (s.type == DT_FILE)
            {
                std::vector<std::pair<u64, std::pair<int, WSeg>>> segs;
                for (auto& w : wsegs) { int ch; int d = inode_sink_dev(A->ino[w.first], ch); if (d == s.dev && ch == s.ch) for (auto& q : w.second) segs.push_back({ q.step, { w.first, q } }); }
                std::sort(segs.begin(), segs.end(), [](const std::pair<u64, std::pair<int, WSeg>>& a, const std::pair<u64, std::pair<int, WSeg>>& b) { return a.first < b.first; });
                for (auto& q : segs) got.append(A->ino[q.second.first].data.p + q.second.second.off, q.second.second.end - q.second.second.off);
            }
            else if (s.type == DT_SCREEN)
            {
                std::string u; int life = -1; bool esc = false;
                auto lines = [&]()
                {
                    for (size_t pos = 0; pos < u.size();)
                    {
                        size_t e = u.find('\n', pos); if (e == std::string::npos) e = u.size(); else e++;
                        std::string ln = u.substr(pos, e - pos); pos = e;
                        int L, T, S; long n; size_t at = ln.find('@');
                        if (at != std::string::npos && sscanf(ln.c_str() + at, "@%d.%d.%d.%ld:", &L, &T, &S, &n) == 4)
                        { auto f = by_key.find(key(L, T, S)); if (f != by_key.end() && items[(size_t)f->second[0]].dgram && items[(size_t)f->second[0]].ch == s.ch && items[(size_t)f->second[0]].op->a[1] == s.dev) got += ln; }
                        else if (ln.find('~') != std::string::npos) got += ln;
                    }
                    u.clear(); esc = false;
                };
                for (u32 i = 0; i < A->nev; i++) if (A->ev[i].type == EV_SCREEN)
                {
                    if (A->ev[i].life != life) { lines(); life = A->ev[i].life; }
                    const char* t = A->screen.p + A->ev[i].c;
                    for (i64 k = 0; k < A->ev[i].d; k++) { if (esc) { if (t[k] == 'm') esc = false; } else if (t[k] == '\033') esc = true; else u += t[k]; }
                }
                lines();
            }
            else continue;
            if (fev.empty() && any_kill) continue;
            // such a datagram is cut to one record that ends with a line feed: what was written for it stands in for it
            for (auto l = lng.begin(); l != lng.end() && got != exp; ++l)
            {
                const size_t at = l->first; if (at >= got.size() || got.compare(0, at, exp, 0, at) != 0) break;
                size_t c = 0; while (c < l->second && at + c < got.size() && got[at + c] == exp[at + c]) c++;
                if (c == l->second) continue;
                if (at + c < got.size() && got[at + c] == '\n' && (long)c <= LOG - 1 && (long)c >= LOG - 16) got = got.substr(0, at) + exp.substr(at, l->second) + got.substr(at + c + 1);
                else break;
            }
            if (got != exp && !file_fault_on(s.ch))
            {
                size_t k = 0; while (k < got.size() && k < exp.size() && got[k] == exp[k]) k++;
                v("udp_in", 0, 0, "%s with UDP input: output differs from the %lld received datagrams at byte %zu (%zu of %zu bytes): '%s'", sname(s).c_str(), (long long)rcv, k, got.size(), exp.size(), shown(got.data() + k, got.size() - k).c_str());
            }
            for (auto& q : quies) if (q.check && (q.ch < 0 || q.ch == s.ch))
            {
                i64 a = 0, b = 0; for (u32 i = 0; i < A->nev; i++) { const Ev& e = A->ev[i]; if (e.life != q.life) continue; if (e.type == EV_DGRAM && e.a == port && !e.b && e.step < q.inv) a++; if (e.type == EV_RECV && e.c == (i64)port && e.step < q.ret) b++; }
                // only while the input has been enabled all along
                std::vector<long> ab; possible(q.life, s.ch, dk(s.dev, s.type), F_ABLE, 0, q.ret, ab);
                if (b < a && run_must(q.life, q.inv, q.ret) && ab.size() == 1 && ab[0]) { v("udp_stall", q.life, q.ret, "UDP input %d.%d: %lld of %lld datagrams received after a quiet period", s.ch, s.dev, (long long)b, (long long)a); break; }
            }
            // an enabled input is bound within seconds of the start and of the last failure
            for (u32 i = 0; i < A->nev; i++)
            {
                const Ev& e = A->ev[i]; if (e.type != EV_DGRAM || e.a != port || !e.b) continue;
                u64 from = 0; bool excused = e.mono < 5500000000LL;
                for (u32 k = i; k-- > 0 && A->ev[k].life == e.life && !excused;) { from = A->ev[k].step; if (A->ev[k].mono + 5500000000LL <= e.mono) break; }
                if (A->ev[0].life == e.life && from <= A->ev[0].step) excused = true;
                for (auto& f : fev) if (f.life == e.life && (f.kind == FK_BIND || f.kind == FK_SOCKET || f.kind == FK_FCNTL) && f.step <= e.step && f.mono + 5500000000LL > e.mono) excused = true;
                std::vector<long> ab; if (!excused) possible(e.life, s.ch, dk(s.dev, s.type), F_ABLE, from, e.step, ab);
                if (!excused && run_must(e.life, from, e.step) && ab.size() == 1 && ab[0]) { v("udp_stall", e.life, e.step, "UDP input %d.%d: nobody is bound to port %u although it has been enabled without a failure for five seconds", s.ch, s.dev, port); break; }
            }
        }
    }
    // ------------------------------------------------------------ shared memory
    void shmem()
    {
        bool named = false; for (auto& t : p.cfg) if (t.find("shm_key") != std::string::npos) named = true;
        for (u32 i = 0; i < A->nev && !named; i++) if (A->ev[i].type == EV_SHM && (A->ev[i].a == 0 || A->ev[i].a == 4)) { v("shm_foreign", A->ev[i].life, A->ev[i].step, "shared memory is used although no configuration names a key"); break; }
        if (!shm) return;
        for (auto& sk : sinks) for (auto& o : sk.second.occ) if (o.recovered)
        {
            A->probe[PR_RECOVERED]++;
            // the piece must be the beginning of what the interrupted statement had written; at most one per interrupted statement
            if (o.item < 0)
            {
                // nothing but (part of) a prefix: check it is the head of some possible prefix of an interrupted statement
                bool ok = o.prefix.empty();
                for (auto& it : items) if (!it.done && !ok) { std::string pp = o.prefix; size_t at = pp.find('@'); std::string hd = at == std::string::npos ? pp : pp.substr(0, at); int m = match_prefix(hd, mask_of(it), it, nullptr); if (m && (at == std::string::npos || (m == 1 && record_text(it.tid, it.seq, it.life, it.len).compare(0, pp.size() - at, pp.substr(at)) == 0))) ok = true; }
                if (!ok) v("recovered_text", o.life, o.step, "%s: recovered line '%s' is not the beginning of an interrupted statement", sname(sk.second).c_str(), shown(o.prefix.data(), o.prefix.size()).c_str());
            }
        }
        // not more recovered lines than interrupted statements
        for (auto& sk : sinks)
        {
            if (sk.second.in) continue;
            for (size_t l = 0; l + 1 < ox.size(); l++) if (life_how[l] == 2)
            {
                size_t open = 0, rec = 0; for (auto& it : items) if (it.life == (int)l && it.ch == sk.second.ch && !it.done) open++;
                for (size_t m = 0; m <= l; m++) if (life_how[m] == 2 && m != l) for (auto& it : items) if (it.life == (int)m && it.ch == sk.second.ch && !it.done) open++;
                for (auto& o : sk.second.occ) if (o.recovered && o.life == (int)l + 1) rec++;
                if (rec > open) v("recovered_extra", (int)l + 1, life_end[l], "%s: %zu recovered lines for %zu interrupted statements", sname(sk.second).c_str(), rec, open);
            }
        }
        // segment removed at normal exit of the last life (a foreign one left alone)
        size_t last = ox.size() - 1;
        bool foreign = p.k("foreign_seg", 0) != 0;
        bool started = false; for (auto& s : starts) if (s.ok && s.life == (int)last) started = true;
        if (!foreign && life_how[last] == 1 && started)
            for (int i = 0; i < A->nshm; i++) if (A->shm[i].used) { v("shm_left", (int)last, life_end[last], "the shared memory segment still exists after a normal exit"); break; }
        if (foreign)
        {
            if (!A->shm[0].used || A->shm[0].removed) v("shm_foreign", 0, 0, "a foreign shared memory segment was removed");
            else if (!rt_foreign_intact()) v("shm_foreign", 0, 0, "a foreign shared memory segment was modified");
        }
    }
    void hot()
    {
        if (!p.k("check_hot", 0)) return;
        for (u32 i = 0; i < A->nev; i++)
        {
            const Ev& e = A->ev[i]; (void)e;
        }
    }
    void races() { for (u32 i = 0; i < A->nev; i++) if (A->ev[i].type == EV_RACE) { v("race", A->ev[i].life, A->ev[i].step, "%s", A->ev[i].s); break; } }
    void run()
    {
        setenv("TZ", TZS[(size_t)p.k("tz", 0) % NTZ], 1); tzset();
        load();
        if (A->ev_lost) { v("fatal:harness", 0, 0, "event log overflow"); return; }
        timeline();
        parse_outputs();
        handles();
        if (A->fatal_class)
        {
            std::string c = std::string("fatal:") + FC_NAMES[A->fatal_class];
            v(c.c_str(), A->life, A->gstep, "%s: %s", FC_NAMES[A->fatal_class], A->fatal_msg);
        }
        lifecycle(); deliveries(); order(); sync_writes(); durations();
        rotation(); timestamps(); destinations(); periods(); counters(); hooks(); udp_in(); shmem(); hot(); races();
    }
};
}
std::vector<Viol> oracle(const Plan& p, bool) { Oracle o(p); o.run(); return o.out; }
