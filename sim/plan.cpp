// Plan text format (also the replay file format).
#include "common.h"
#include <sstream>
#include <cstdio>

std::string plan_to_text(const Plan& p)
{
    std::ostringstream o;
    o << "fnlog-sim-plan 1\nprop " << p.prop << "\nvariant " << p.variant << "\nprofile " << (p.profile.empty() ? "-" : p.profile) << "\nseed " << p.seed << "\n";
    for (auto& k : p.knob) o << "knob " << k.first << " " << k.second << "\n";
    for (auto& c : p.cfg)
    {
        size_t n = 0; for (char ch : c) if (ch == '\n') n++;
        bool nl = !c.empty() && c.back() == '\n';
        o << "cfg " << (nl ? n : n + 1) << " " << (nl ? 1 : 0) << "\n" << c; if (!nl) o << "\n";
    }
    for (auto& l : p.lives)
    {
        o << "life\n";
        for (auto& t : l.threads)
        {
            o << "thread\n";
            for (auto& op : t.ops) { o << "op " << OP_NAMES[op.kind]; for (int i = 0; i < 10; i++) o << " " << op.a[i]; o << "\n"; }
        }
    }
    for (auto& f : p.faults) o << "fault " << FK_NAMES[f.kind] << " " << f.life << " " << f.nth << " " << f.p1 << " " << f.p2 << " " << f.ch << "\n";
    if (p.explicit_sched) { o << "explicit 1\n"; for (auto& s : p.sw) o << "sw " << s.life << " " << s.tid << " " << s.epoch << " " << s.pt << " " << s.to << "\n"; }
    o << "end\n";
    return o.str();
}
bool plan_from_text(const std::string& text, Plan& p, std::string& err)
{
    std::istringstream in(text); std::string line;
    p = Plan(); bool ended = false;
    if (!std::getline(in, line) || line != "fnlog-sim-plan 1") { err = "not a plan file"; return false; }
    while (std::getline(in, line))
    {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream w(line); std::string k; w >> k;
        if (k == "prop") w >> p.prop;
        else if (k == "variant") w >> p.variant;
        else if (k == "profile") w >> p.profile;
        else if (k == "seed") w >> p.seed;
        else if (k == "knob") { std::string n; long v; w >> n >> v; p.knob[n] = v; }
        else if (k == "cfg")
        {
            size_t n; int nl; w >> n >> nl; std::string c, l;
            for (size_t i = 0; i < n; i++) { if (!std::getline(in, l)) { err = "truncated cfg"; return false; } c += l; if (i + 1 < n || nl) c += "\n"; }
            p.cfg.push_back(c);
        }
        else if (k == "life") p.lives.push_back(LifePlan());
        else if (k == "thread") { if (p.lives.empty()) { err = "thread outside life"; return false; } p.lives.back().threads.push_back(ThreadPlan()); }
        else if (k == "op")
        {
            std::string n; w >> n; Op o; o.kind = -1;
            for (int i = 0; i < OP_MAX; i++) if (n == OP_NAMES[i]) o.kind = i;
            if (o.kind < 0 || p.lives.empty() || p.lives.back().threads.empty()) { err = "bad op " + n; return false; }
            for (int i = 0; i < 10; i++) w >> o.a[i];
            p.lives.back().threads.back().ops.push_back(o);
        }
        else if (k == "fault")
        {
            std::string n; w >> n; Fault f; f.kind = -1;
            for (int i = 0; i < FK_MAX; i++) if (n == FK_NAMES[i]) f.kind = i;
            if (f.kind < 0) { err = "bad fault " + n; return false; }
            w >> f.life >> f.nth >> f.p1 >> f.p2 >> f.ch; p.faults.push_back(f);
        }
        else if (k == "explicit") { int v; w >> v; p.explicit_sched = v; }
        else if (k == "sw") { Switch s; w >> s.life >> s.tid >> s.epoch >> s.pt >> s.to; p.sw.push_back(s); }
        else if (k == "end") { ended = true; break; }
        else { err = "unknown line: " + line; return false; }
    }
    if (!ended) { err = "truncated plan"; return false; }
    return true;
}
