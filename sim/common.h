// Shared declarations of the deterministic simulator for fn-log.
// Driver/runtime side only: this header never includes anything of /repo.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>

typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- plan ----
// A plan is everything one simulated execution depends on.  A *search* plan
// carries a scheduler seed; a *replay* plan carries the explicit list of
// scheduling decisions instead and contains no randomness at all.

enum OpKind {
    OP_NOP = 0,
    OP_LOG,        // ch pri cat id prefix style len  pieces pause_ms
    OP_SLEEP,      // ms
    OP_START,      // mode(0 text,1 file) cfg
    OP_STOP,
    OP_SETCH,      // ch field val
    OP_SETDEV,     // ch dev field val
    OP_BATCHCH,    // field val
    OP_BATCHDEV,   // outtype field val
    OP_WRITECFG,   // cfg mtime_delta_s mode(0 atomic replace,1 in place,2 delete,3 unreadable)  partial_bytes
    OP_CLOCK,      // delta_ms (wall clock step)
    OP_SPAWN,      // tid
    OP_JOIN,       // tid
    OP_HOOK,       // mode 0 off 1 observe 2 transmit->ch
    OP_COUNTERS,   // snapshot of every counter
    OP_DGRAM,      // ch dev(port = 9000+ch*32+dev) len  count
    OP_FAULTWIN,   // kind ms chfilter : opens a fault window now
    OP_FAULTEND,   // kind : closes fault windows of the kind
    OP_QUIESCE,    // ms  marks: everything before is expected delivered after that sleep
    OP_WAITSEQ,    // wait (sim sleep) until thread a has finished b ops
    OP_EXITLIFE,   // how: 0 exit() 1 _exit
    OP_AGE,        // records: between sessions, the queues continue as after that many records
    OP_FLOOD,      // ch dev ms us: for that long every read of the UDP input finds a datagram (one per us)
    OP_MAX
};
extern const char* OP_NAMES[];

enum FaultKind {
    FK_NONE = 0,
    // environment failures (window or once)
    FK_OPEN, FK_FSTAT, FK_WRITE, FK_SHORTW, FK_ENOSPC, FK_FSYNC, FK_RENAME, FK_MKDIR, FK_OPENDIR, FK_UNLINK, FK_READ,
    FK_CLOSE,
    FK_SOCKET, FK_FCNTL, FK_BIND, FK_SENDTO, FK_RECV,
    FK_SHMGET, FK_SHMAT,
    FK_THREAD,      // pthread_create fails EAGAIN
    // delays
    FK_SLOWTHREAD,  // new thread comes up p1 ms late
    FK_STALLIO,     // I/O call takes p1 ms
    FK_STALL,       // thread p2 pauses p1 ms at its nth sync point
    FK_OVERSLEEP,   // sleep takes p1 ms longer
    // crash: p1 = what is counted (0 any point,1 sync point,2 fs/shm call)
    FK_CRASH,
    FK_CLOCKSTEP,   // wall clock jumps by p1 ms at nth clock read
    FK_MAX
};
extern const char* FK_NAMES[];

struct Op {
    int kind = 0;
    long a[10] = {0,0,0,0,0,0,0,0,0,0};
};
struct ThreadPlan { std::vector<Op> ops; };
struct LifePlan { std::vector<ThreadPlan> threads; };
struct Fault {
    int kind = 0; int life = 0; long nth = 0; long p1 = 0, p2 = 0; long ch = -1; // ch: channel filter
};
struct Switch { int life; int tid; int epoch; long pt; int to; };

struct Plan {
    std::string prop, variant, profile;
    u64 seed = 0;
    std::map<std::string,long> knob;
    std::vector<std::string> cfg;
    std::vector<LifePlan> lives;
    std::vector<Fault> faults;
    bool explicit_sched = false;
    std::vector<Switch> sw;
    long k(const char* n, long d) const { auto it = knob.find(n); return it == knob.end() ? d : it->second; }
};
std::string plan_to_text(const Plan& p);
bool plan_from_text(const std::string& text, Plan& p, std::string& err);

// ---------------------------------------------------------------- arena ---
// "Kernel" state: survives the death of a simulated process.
struct Buf { char* p; u32 n, cap; };

enum EvType {
    EV_NONE = 0,
    EV_LIFE,        // a=life  b: 0 begin 1 exit 2 killed
    EV_INV,         // tid a=op index
    EV_RET,         // tid a=op index b=result
    EV_FAULT,       // a=kind b=param
    EV_FATAL,       // a=class  str
    EV_OPEN,        // a=fd b=inode c=write? str=path
    EV_CLOSE,       // a=fd b=inode
    EV_WRITE,       // a=fd b=inode c=off d=len
    EV_FSYNC,
    EV_RENAME,      // b=inode c=replaced inode  str=old\nnew
    EV_UNLINK,      // b=inode str=path
    EV_MKDIR,
    EV_SCREEN,      // c=off d=len
    EV_SOCK,        // a=fd  (socket created)
    EV_SOCKCLOSE,
    EV_SEND,        // a=fd b=ip c=port d=len str=bytes, e=ok
    EV_RECV,        // a=fd d=len str=bytes c=port
    EV_HOOK,        // tid a=ch b=pri c=cat d=len str=content  e=id
    EV_COUNTER,     // a=ch b=dev(-1) c=which d=value
    EV_CLOCKSTEP,   // d=delta ms
    EV_SHM,         // a=what(0 get 1 at 2 dt 3 rm 4 create) b=id c=err
    EV_THREAD,      // a=new tid b: 0 create 1 exit
    EV_BADUSE,      // use after close etc. str
    EV_RACE,        // str
    EV_PROBE,       // a=id
    EV_CFGFILE,     // config file changed: a=cfg b=mode c=mtime  (visible state)
    EV_XMIT,        // hook transmitted: a=ch  str=content
    EV_DGRAM,       // a=port b=refused d=len str=bytes : datagram entered a bound socket's queue (b=1: nobody is bound to the port)
    EV_FWRITE,      // b=inode d=len str=first bytes : handed to the stream of a file output (knob fw)
    EV_TYPES
};
struct Ev {
    u32 type; int16_t tid; int16_t life;
    u64 step; i64 mono, wall;   // ns mono, us wall
    i64 a, b, c, d, e;
    char* s; u32 sn;
};

struct Inode {
    Buf data; int used, isdir, links, id; i64 mtime; int birth_life; u64 birth_step;
    char birth_path[280];
    char cur_path[280];      // "" when unlinked
    int bad;                 // unreadable
};
struct ShmSeg { int used, removed, id; i64 key; u64 size, off; int nattach, cpid, lpid; };
struct SockQ { int used; u32 ip; u32 port; int head, tail; struct { char* p; u32 n; } q[256]; long long flood_until; long flood_us; char* flood_p; u32 flood_n; };

struct Arena {
    // geometry
    char* bump; char* bump_end;
    // execution
    u64 gstep;               // global event order over all lives
    i64 mono, wall_off;      // ns, us
    int life;
    // events
    Ev* ev; u32 nev, cap_ev; u32 ev_lost;
    // fs
    Inode* ino; int nino;
    Buf screen;
    i64 disk_free;           // <0 unlimited
    // shm
    ShmSeg shm[8]; int nshm; u64 shm_used;
    // net
    SockQ port[64];
    // decisions made
    struct Sw { int life, tid, epoch; long pt; int to; }* sw; u32 nsw, cap_sw;
    u64 hash;                // schedule hash
    u64 points, syncpoints, switches, preempts;
    u64 fault_fired[FK_MAX];
    u64 probe[64];
    i64 sim_ns;              // simulated time covered
    int life_end;            // 0 none 1 exit 2 killed 3 fatal
    int fatal_class;
    char fatal_msg[400];
    int nthreads_seen;
    int max_threads;
    u64 life_points[8];
    u64 foreign_hash;
};
extern Arena* A;

enum FatalClass { FC_NONE, FC_SEGV, FC_DEADLOCK, FC_HANG, FC_LIVELOCK, FC_USEAFTERCLOSE, FC_ABORT, FC_TIMEOUT, FC_HARNESS, FC_DIVERGE };
extern const char* FC_NAMES[];

// probes ("this rare condition was hit")
enum Probe { PR_QUEUE_FULL_WAIT, PR_WRAP, PR_ROTATE, PR_CRASH_INOP, PR_RECOVERED, PR_HOTAPPLY, PR_MUTEX_CONTENDED, PR_STOP_WITH_BACKLOG,
             PR_CONCURRENT_START, PR_TRUNCATED, PR_REOPEN, PR_LATE_LOG, PR_DST_CROSS, PR_MIDNIGHT_CROSS, PR_OOO_TIMESTAMP, PR_DISCARD, PR_AGED, PR_N };
extern const char* PR_NAMES[];

void* arena_alloc(size_t n);
void buf_append(Buf& b, const char* p, size_t n);

// ---------------------------------------------------------------- runtime -
// child side
[[noreturn]] void run_life(const Plan& p, int life);
void rt_parent_init();
void rt_new_pool();
bool rt_foreign_intact();
extern const char* const TZS[];
static const int NTZ = 6;
// driver callbacks used by the SUT unit
extern "C" {
void drv_pause(void);
void drv_hook(const char* content, int len, int ch, int pri, int cat, long long id);
int drv_hook_target(void);
int drv_hook_cat(int cat);
long long drv_hook_id(long long id);
void drv_ring_region(void* base, size_t len, size_t slot_off, size_t slot_stride, size_t nslots, size_t mark_off, size_t mark_len);
}
void drv_transmitted(int ch, const char* content, int len, int cat, long long id);

// SUT API (sut.cpp)
extern "C" {
int sut_start_text(const char* cfg);
int sut_start_file(const char* path);
int sut_stop(void);
void sut_log(int ch, int pri, int cat, long long id, unsigned prefix, int style, const char* text, int len, int pieces);
void sut_setch(int ch, int field, long long v);
void sut_setdev(int ch, int dev, int field, long long v);
void sut_batchch(int field, long long v);
void sut_batchdev(int type, int field, long long v);
void sut_hook(int on);
long long sut_chlog(int ch, int which);
long long sut_devlog(int ch, int dev, int which);
int sut_log_size(void);
int sut_queue_size(void);
int sut_max_channels(void);
int sut_hot_interval(void);
int sut_async_sleep_ms(void);
void sut_touch(void);
void sut_foreign_segment(void* mem, unsigned long size, int id, int kind);
unsigned long sut_shm_size(void);
int sut_age(int ch, long n);
int sut_ring_info(int ch, void** base, unsigned long* stride, unsigned long* n, unsigned long* mark_off, unsigned long* mark_len);
}
std::string record_text(int tid, int seq, int life, long len);
extern int g_text_bin;   // 1: texts with format characters and bytes beyond ASCII, 2: zero bytes too
inline u64 mix64(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return uni() < p; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
#include "vals.h"
