#include "model.h"
#include <sstream>
#include <cstdlib>
static const char* PRI[] = { "trace","debug","info","warn","error","alarm","fatal" };
// A mask can be written in four ways (number or list, allowed or blocked); which one is used depends on its value only.
static std::string bit_list(unsigned long m, bool ranges)
{
    std::string r; char b[40];
    for (int i = 0; i < 64; i++) if (m >> i & 1)
    {
        int j = i; while (ranges && j < 63 && (m >> (j + 1) & 1)) j++;
        if (!r.empty()) r += ranges ? "," : ", ";
        if (j > i + 1) { snprintf(b, sizeof b, "%d-%d", i, j); i = j; } else snprintf(b, sizeof b, "%d", i);
        r += b;
    }
    return r;
}
static void mask(std::ostringstream& o, const char* in, const char* what, unsigned long m)
{
    unsigned long h = (m ^ (m >> 31)) * 0x9E3779B97F4A7C15UL; bool ranges = h >> 50 & 1;
    o << in << what;
    switch (~m == 0 ? 0 : h >> 60 & 3)
    {
    case 0: o << "_wmask: " << m << "\n"; break;
    case 1: o << "_bmask: " << ~m << "\n"; break;
    case 2: o << "_wlist: " << bit_list(m, ranges) << "\n"; break;
    default: o << "_blist: " << bit_list(~m, ranges) << "\n"; break;
    }
}
static unsigned long parse_list(const std::string& v)
{
    unsigned long m = 0; std::istringstream in(v); std::string w;
    while (std::getline(in, w, ',')) { int a = atoi(w.c_str()), b = a; size_t q = w.find('-'); if (q != std::string::npos) b = atoi(w.c_str() + q + 1); for (int i = a; i <= b && i < 64; i++) m |= 1UL << i; }
    return m;
}
static void filters(std::ostringstream& o, const long* f, const char* in)
{
    if (f[F_PRI]) o << in << "priority: " << PRI[f[F_PRI] % 7] << "\n";
    if (f[F_CATX]) { o << in << "category: " << f[F_CAT] << "\n" << in << "category_extend: " << f[F_CATX] << "\n"; }
    if (f[F_CATM]) mask(o, in, "category", (unsigned long)f[F_CATM]);
    if (f[F_IDX]) { o << in << "identify: " << f[F_ID] << "\n" << in << "identify_extend: " << f[F_IDX] << "\n"; }
    if (f[F_IDM]) mask(o, in, "identify", (unsigned long)f[F_IDM]);
}
std::string cfg_yaml(const CfgM& c)
{
    std::ostringstream o;
    if (c.hot) o << "hot_update: true\n";
    if (c.shm_key) { char b[40]; snprintf(b, sizeof b, "shm_key: 0x%lx\n", (unsigned long)c.shm_key); o << b; }
    if (!c.name.empty()) o << "logger_name: " << c.name << "\n";
    if (!c.desc.empty()) o << "logger_desc: " << c.desc << "\n";
    for (size_t i = 0; i < c.ch.size(); i++)
    {
        const ChM& h = c.ch[i];
        o << " - channel: " << i << "\n    sync: " << (h.sync ? "sync" : "async") << "\n";
        filters(o, h.f, "    ");
        for (size_t d = 0; d < h.dev.size(); d++)
        {
            const DevM& v = h.dev[d];
            const char* in = "        ";
            static const char* OT[] = { "null","screen","file","udp","virtual","empty" };
            o << "    -device: " << d << "\n" << in << "disable: " << (v.f[F_ABLE] ? "false" : "true") << "\n";
            if (v.in) o << in << "in_type: udp\n";
            o << in << "out_type: " << OT[v.type] << "\n";
            filters(o, v.f, in);
            if (!v.path.empty()) o << in << "path: \"" << v.path << "\"\n";
            if (!v.file.empty()) o << in << "file: \"" << v.file << "\"\n";
            if (v.f[F_ROLL]) o << in << "rollback: " << v.f[F_ROLL] << "\n";
            if (v.f[F_LIMIT]) o << in << "limit_size: " << v.f[F_LIMIT] / 1000000 << "\n";
            if (v.f[F_DAILY]) o << in << "rolldaily: true\n";
            if (v.f[F_HOURLY]) o << in << "rollhourly: true\n";
            if (v.f[F_STUFF]) o << in << "stuff_up: true\n";
            if (v.f[F_PORT]) o << in << "udp_addr: 127.0.0.1:" << v.f[F_PORT] << "\n";
        }
    }
    return o.str();
}
bool cfg_parse(const std::string& text, CfgM& c)
{
    c = CfgM();
    std::istringstream in(text); std::string line;
    while (std::getline(in, line))
    {
        size_t a = line.find_first_not_of(" \t-"); if (a == std::string::npos) continue;
        size_t q = line.find(':', a); if (q == std::string::npos) continue;
        std::string k = line.substr(a, q - a), v = line.substr(q + 1);
        size_t s = v.find_first_not_of(" \""); v = s == std::string::npos ? "" : v.substr(s);
        while (!v.empty() && (v.back() == '"' || v.back() == ' ' || v.back() == '\r')) v.pop_back();
        ChM* h = c.ch.empty() ? nullptr : &c.ch.back();
        DevM* d = h && !h->dev.empty() ? &h->dev.back() : nullptr;
        long* f = d ? d->f : h ? h->f : nullptr;
        if (k == "hot_update") c.hot = v == "true";
        else if (k == "shm_key") c.shm_key = strtol(v.c_str(), nullptr, 0);
        else if (k == "logger_name") c.name = v;
        else if (k == "logger_desc") c.desc = v;
        else if (k == "channel") c.ch.push_back(ChM());
        else if (!h) continue;
        else if (k == "sync") h->sync = v == "sync";
        else if (k == "device") h->dev.push_back(DevM());
        else if (k == "priority") { for (int i = 0; i < 7; i++) if (v == PRI[i]) f[F_PRI] = i; }
        else if (k == "category") f[F_CAT] = atol(v.c_str());
        else if (k == "category_extend") f[F_CATX] = atol(v.c_str());
        else if (k == "category_wmask") f[F_CATM] = (long)strtoul(v.c_str(), nullptr, 10);
        else if (k == "category_bmask") f[F_CATM] = (long)~strtoul(v.c_str(), nullptr, 10);
        else if (k == "category_wlist") f[F_CATM] = (long)parse_list(v);
        else if (k == "category_blist") f[F_CATM] = (long)~parse_list(v);
        else if (k == "identify") f[F_ID] = atol(v.c_str());
        else if (k == "identify_extend") f[F_IDX] = atol(v.c_str());
        else if (k == "identify_wmask") f[F_IDM] = (long)strtoul(v.c_str(), nullptr, 10);
        else if (k == "identify_bmask") f[F_IDM] = (long)~strtoul(v.c_str(), nullptr, 10);
        else if (k == "identify_wlist") f[F_IDM] = (long)parse_list(v);
        else if (k == "identify_blist") f[F_IDM] = (long)~parse_list(v);
        else if (!d) continue;
        else if (k == "disable") f[F_ABLE] = v != "true";
        else if (k == "in_type") d->in = v == "udp";
        else if (k == "out_type") d->type = v == "screen" ? DT_SCREEN : v == "file" ? DT_FILE : v == "udp" ? DT_UDP : v == "virtual" ? DT_VIRTUAL : DT_EMPTY;
        else if (k == "path") d->path = v;
        else if (k == "file") d->file = v;
        else if (k == "rollback") f[F_ROLL] = atol(v.c_str());
        else if (k == "limit_size") f[F_LIMIT] = atol(v.c_str()) * 1000000;
        else if (k == "rolldaily") f[F_DAILY] = v == "true";
        else if (k == "rollhourly") f[F_HOURLY] = v == "true";
        else if (k == "stuff_up") f[F_STUFF] = v == "true";
        else if (k == "udp_addr") { size_t p = v.find(':'); f[F_PORT] = atoi(v.substr(p + 1).c_str()); }
    }
    return !c.ch.empty();
}
