// Reference model of a logger configuration and of the filters.
#pragma once
#include "common.h"
enum { DT_SCREEN = 1, DT_FILE = 2, DT_UDP = 3, DT_VIRTUAL = 4, DT_EMPTY = 5 };
// filter fields of a channel: 0 pri 1 cat 2 cat count 3 cat mask 4 id 5 id count 6 id mask
// of a device additionally: 7 able 8 limit bytes 9 rollback 10 daily 11 hourly 12 stuff_up 13 destination port
enum { F_PRI, F_CAT, F_CATX, F_CATM, F_ID, F_IDX, F_IDM, F_ABLE, F_LIMIT, F_ROLL, F_DAILY, F_HOURLY, F_STUFF, F_PORT, F_N };
struct DevM { int type = DT_FILE; bool in = false; long f[F_N] = {0,0,0,0,0,0,0,1,0,0,0,0,0,0}; std::string path, file; };
struct ChM { bool sync = false; long f[7] = {0,0,0,0,0,0,0}; std::vector<DevM> dev; };
struct CfgM { bool hot = false; long shm_key = 0; std::string name, desc; std::vector<ChM> ch; };
std::string cfg_yaml(const CfgM& c);
bool cfg_parse(const std::string& text, CfgM& c);
Plan gen_plan(const std::string& prop, const std::string& variant, u64 seed, bool thorough);
struct Viol { std::string cls, msg; int life = -1; u64 step = 0; };
std::vector<Viol> oracle(const Plan& p, bool want_detail);
bool class_matters(const std::string& prop, const std::string& cls);
