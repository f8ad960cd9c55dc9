// The system under test: fn-log compiled from /repo/src/include with every
// memory access and atomic operation instrumented (-fsanitize=thread), driven
// only through its public API (default logger + logging macros).
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <list>
#include <array>
#include <memory>
#include <mutex>
#include <thread>
#include <atomic>
#include <functional>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <fstream>
#include <chrono>
#include <random>
#include <cmath>
#if defined(__GNUC__) && !defined(__clang__)
// gcc leaves these calls alone, clang makes them visible itself
extern "C" { void* __tsan_memcpy(void*, const void*, size_t); void* __tsan_memmove(void*, const void*, size_t); void* __tsan_memset(void*, int, size_t); }
namespace std { using ::__tsan_memcpy; using ::__tsan_memmove; using ::__tsan_memset; }
#define memcpy(...) __tsan_memcpy(__VA_ARGS__)
#define memmove(...) __tsan_memmove(__VA_ARGS__)
#define memset(...) __tsan_memset(__VA_ARGS__)
#endif
#include "fn_log.h"
#include "vals.h"

extern "C" {
void drv_pause(void);
void drv_hook(const char* content, int len, int ch, int pri, int cat, long long id);
int drv_hook_target(void);
int drv_hook_cat(int cat);
long long drv_hook_id(long long id);
}
void drv_transmitted(int ch, const char* content, int len, int cat, long long id);

namespace {
// a user-defined streamable value: composing the statement takes time
struct Piece { const char* p; int n; bool pause; };
inline FNLog::LogStream& operator<<(FNLog::LogStream& ls, const Piece& x)
{
    if (x.pause) drv_pause();
    return ls << std::string(x.p, (size_t)x.n);
}
const FNLog::ChannelConfigEnum kCh[] = {
    FNLog::CHANNEL_CFG_PRIORITY, FNLog::CHANNEL_CFG_CATEGORY, FNLog::CHANNEL_CFG_CATEGORY_EXTEND, FNLog::CHANNEL_CFG_CATEGORY_MASK,
    FNLog::CHANNEL_CFG_IDENTIFY, FNLog::CHANNEL_CFG_IDENTIFY_EXTEND, FNLog::CHANNEL_CFG_IDENTIFY_MASK };
const FNLog::DeviceConfigEnum kDev[] = {
    FNLog::DEVICE_CFG_PRIORITY, FNLog::DEVICE_CFG_CATEGORY, FNLog::DEVICE_CFG_CATEGORY_EXTEND, FNLog::DEVICE_CFG_CATEGORY_MASK,
    FNLog::DEVICE_CFG_IDENTIFY, FNLog::DEVICE_CFG_IDENTIFY_EXTEND, FNLog::DEVICE_CFG_IDENTIFY_MASK, FNLog::DEVICE_CFG_ABLE,
    FNLog::DEVICE_CFG_FILE_LIMIT_SIZE, FNLog::DEVICE_CFG_FILE_ROLLBACK, FNLog::DEVICE_CFG_FILE_ROLLDAILY, FNLog::DEVICE_CFG_FILE_ROLLHOURLY, FNLog::DEVICE_CFG_FILE_STUFF_UP, FNLog::DEVICE_CFG_UDP_PORT };

// stream style: the text, then values of every supported kind, each followed by a separator
void log_values(int ch, int pri, int cat, long long id, unsigned prefix, int style, const char* text, int len, int pieces)
{
    SVal v[SV_COUNT]; int n = stream_vals(style, v, SV_COUNT);
    FNLog::LogStream ls(LOG_STREAM_ORIGIN(FNLog::GetDefaultLogger(), ch, pri, cat, id, prefix));
    ls << std::string(text, (size_t)len);
    for (int i = 0; i < n; i++)
    {
        unsigned long long x = v[i].x;
        if (pieces > 1 && i == n / 2) drv_pause();
        switch (v[i].k)
        {
        case SV_LL: ls << (long long)x; break;
        case SV_ULL: ls << x; break;
        case SV_INT: ls << (int)x; break;
        case SV_SHORT: ls << (short)x; break;
        case SV_UCHAR: ls << (unsigned char)x; break;
        case SV_BOOL: ls << ((x & 1) != 0); break;
        case SV_CHAR: ls << (char)('a' + x % 26); break;
        case SV_DBL: ls << (double)((long long)(x % 8000000) - 4000000) / 4.0; break;
        case SV_FLT: ls << (float)((long long)(x % 80000) - 40000) / 4.0f; break;
        case SV_PTR: ls << (const void*)(x >> 4); break;
        case SV_STR: ls << std::string((size_t)(x % 40), (char)('A' + x % 26)); break;
        case SV_VEC: { std::vector<int> q; for (unsigned long long j = 0; j < x % 8; j++) q.push_back((int)(x >> j)); ls << q; } break;
        case SV_LIST: { std::list<std::string> q; for (unsigned long long j = 0; j < x % 8; j++) q.push_back(std::string((size_t)((x >> j) % 5), 'q')); ls << q; } break;
        case SV_MAP: { std::map<int, double> q; for (unsigned long long j = 0; j < x % 8; j++) q[(int)j] = (double)((x >> j) % 1000) / 4.0; ls << q; } break;
        case SV_PAIR: ls << std::make_pair((int)(x & 0xffff), (unsigned long long)x); break;
        case SV_PCT: ls << FNLog::LogPercent((double)(x % 9) / 8.0); break;
        case SV_TIME: ls << FNLog::LogTimestamp((long long)(x % 2000000000ull), (int)(x % 1000)); break;
        case SV_NULLSTR: ls << (const char*)nullptr; break;
        case SV_NULLPTR: ls << nullptr; break;
        case SV_SPECIAL: ls << special_value(x); break;
        case SV_BIN:
        {   // a dump contains line breaks; they are replaced before the record is submitted to keep one line per record
            char q[64]; int k = binary_value(x, q); if (!ls.log_data_) break;
            int at = ls.log_data_->content_len_; ls.write_binary(q, k);
            for (int j = at; j < ls.log_data_->content_len_; j++) 
            {
                char* z = ls.log_data_->content_ + j;
                if (*z == '\n') *z = '|';
                if (*z == 'x' && j > at && z[-1] == '0') for (int m = j + 1; m < ls.log_data_->content_len_ && ((z[m - j] >= '0' && z[m - j] <= '9') || (z[m - j] >= 'A' && z[m - j] <= 'F')); m++) z[m - j] = 'F';   // the same address in every run
            }
            break;
        }
        case SV_ALIGN: if (x & 1) ls << FNLog::LogBlankAlign<120>(); else ls << FNLog::LogBlankAlign<400>(); break;
        }
        ls << ";";
    }
}
void the_hook(const FNLog::LogData& log)
{
    drv_hook(log.content_, log.content_len_, log.channel_id_, log.priority_, log.category_, log.identify_);
    int to = drv_hook_target();
    if (to >= 0 && log.channel_id_ != to)
    {
        int cat = drv_hook_cat(log.category_); long long id = drv_hook_id(log.identify_);
        drv_transmitted(to, log.content_, log.content_len_, cat, id);
        FNLog::TransmitChannel(FNLog::GetDefaultLogger(), to, cat, id, log);
    }
}
}

extern "C" {
void sut_touch(void) { (void)FNLog::GetDefaultLogger(); }
int sut_start_text(const char* cfg) { return FNLog::FastStartDefaultLogger(std::string(cfg)); }
int sut_start_file(const char* path) { return FNLog::LoadAndStartDefaultLogger(std::string(path)); }
int sut_stop(void) { return FNLog::StopLogger(FNLog::GetDefaultLogger()); }

void sut_log(int ch, int pri, int cat, long long id, unsigned prefix, int style, const char* text, int len, int pieces)
{
    if (style >= 100) { log_values(ch, pri, cat, id, prefix, style, text, len, pieces); return; }
    if (style >= 10)   // the category is changed on the stream: the statement's one decides the acceptance, the record's one the outputs
    {
        LOG_STREAM_DEFAULT_LOGGER(ch, pri, cat + style - 54, id, prefix).set_category(cat) << Piece{ text, len / 2, pieces > 1 } << Piece{ text + len / 2, len - len / 2, false };
        return;
    }
    const bool zeros = (int)strlen(text) != len;     // only what takes a length can carry them
    if (zeros && style == 1) style = 0;
    switch (style)
    {
    case 4: // a stream handed on: the record belongs to the new one
    {
        FNLog::LogStream a(LOG_STREAM_ORIGIN(FNLog::GetDefaultLogger(), ch, pri, cat, id, prefix));
        a << Piece{ text, len / 3, false };
        {
            FNLog::LogStream b(std::move(a));
            if (pieces > 1) drv_pause();
            b << Piece{ text + len / 3, len - len / 3, false };
            if (!(len & 1)) return;
        }
        a << "none" << 1;
        return;
    }
    case 1: // C style
        LOG_FORMAT(ch, pri, cat, id, prefix, "%s", (pieces > 1 ? drv_pause() : (void)0, text));
        return;
    case 2: // C++ template style
        LogTemplatePack(LOG_STREAM_DEFAULT_LOGGER(ch, pri, cat, id, prefix), Piece{ text, len / 2, pieces > 1 }, Piece{ text + len / 2, len - len / 2, false });
        return;
    case 3: // macro stream style
        switch (pri)
        {
        case 0: LOG_TRACE(ch, cat, id, (Piece{ text, len, pieces > 1 })); return;
        case 1: LOG_DEBUG(ch, cat, id, (Piece{ text, len, pieces > 1 })); return;
        case 2: LOG_INFO(ch, cat, id, (Piece{ text, len, pieces > 1 })); return;
        case 3: LOG_WARN(ch, cat, id, (Piece{ text, len, pieces > 1 })); return;
        case 4: LOG_ERROR(ch, cat, id, (Piece{ text, len, pieces > 1 })); return;
        case 5: LOG_ALARM(ch, cat, id, (Piece{ text, len, pieces > 1 })); return;
        default: LOG_FATAL(ch, cat, id, (Piece{ text, len, pieces > 1 })); return;
        }
    default: // stream style
        if (pieces <= 1 && zeros)
        {
            if (len & 1) LOG_STREAM_DEFAULT_LOGGER(ch, pri, cat, id, prefix) << std::string(text, (size_t)len);
            else LOG_STREAM_DEFAULT_LOGGER(ch, pri, cat, id, prefix).write_buffer(text, len);
        }
        else if (pieces <= 1)
        {
            LOG_STREAM_DEFAULT_LOGGER(ch, pri, cat, id, prefix) << text;
        }
        else if (pieces == 2)
        {
            LOG_STREAM_DEFAULT_LOGGER(ch, pri, cat, id, prefix) << Piece{ text, len / 3, false } << Piece{ text + len / 3, len - len / 3, true };
        }
        else
        {
            int a = len / 4, b = len / 4;
            LOG_STREAM_DEFAULT_LOGGER(ch, pri, cat, id, prefix) << Piece{ text, a, true } << Piece{ text + a, b, true } << Piece{ text + a + b, len - a - b, true };
        }
    }
}

void sut_setch(int ch, int f, long long v) { FNLog::SetChannelConfig(FNLog::GetDefaultLogger(), ch, kCh[f], v); }
void sut_setdev(int ch, int dev, int f, long long v) { if (f == 13) v = htons((unsigned short)v); FNLog::SetDeviceConfig(FNLog::GetDefaultLogger(), ch, dev, kDev[f], v); }
void sut_batchch(int f, long long v) { FNLog::BatchSetChannelConfig(FNLog::GetDefaultLogger(), kCh[f], v); }
void sut_batchdev(int type, int f, long long v)
{
    FNLog::DeviceOutType t = type == 1 ? FNLog::DEVICE_OUT_SCREEN : type == 2 ? FNLog::DEVICE_OUT_FILE : type == 3 ? FNLog::DEVICE_OUT_UDP : FNLog::DEVICE_OUT_NULL;
    FNLog::BatchSetDeviceConfig(FNLog::GetDefaultLogger(), t, kDev[f], v);
}
void sut_hook(int on) { FNLog::SetVirtualDevice(on ? &the_hook : nullptr); }
// which: 0 published 1 processed 2 processed bytes 3 hot update applied  4 sum of published bytes by priority
long long sut_chlog(int ch, int which)
{
    FNLog::Logger& lg = FNLog::GetDefaultLogger();
    switch (which)
    {
    case 0: return FNLog::GetChannelLog(lg, ch, FNLog::CHANNEL_LOG_PUSH);
    case 1: return FNLog::GetChannelLog(lg, ch, FNLog::CHANNEL_LOG_PROCESSED);
    case 2: return FNLog::GetChannelLog(lg, ch, FNLog::CHANNEL_LOG_PROCESSED_BYTES);
    case 3: return FNLog::GetChannelLog(lg, ch, FNLog::CHANNEL_LOG_HOTUPDATE_CHANGE);
    case 4: return FNLog::GetChannelLog(lg, ch, FNLog::CHANNEL_LOG_HOLD);
    case 5: return FNLog::GetChannelLog(lg, ch, FNLog::CHANNEL_LOG_WAIT_COUNT);
    default: return which >= 10 && which < 10 + FNLog::PRIORITY_MAX ? FNLog::GetChannelLog(lg, ch, (FNLog::ChannelLogEnum)(FNLog::CHANNEL_LOG_PRIORITY + which - 10)) : 0;
    }
}
// which: 0 lines 1 bytes 2 lost
long long sut_devlog(int ch, int dev, int which)
{
    FNLog::Logger& lg = FNLog::GetDefaultLogger();
    switch (which)
    {
    case 0: return FNLog::GetDeviceLog(lg, ch, dev, FNLog::DEVICE_LOG_TOTAL_WRITE_LINE);
    case 1: return FNLog::GetDeviceLog(lg, ch, dev, FNLog::DEVICE_LOG_TOTAL_WRITE_BYTE);
    case 2: return FNLog::GetDeviceLog(lg, ch, dev, FNLog::DEVICE_LOG_TOTAL_LOSE_LINE);
    default: return which >= 10 && which < 10 + FNLog::PRIORITY_MAX ? FNLog::GetDeviceLog(lg, ch, dev, (FNLog::DeviceLogEnum)(FNLog::DEVICE_LOG_PRIORITY + which - 10)) : 0;
    }
}
int sut_log_size(void) { return FN_LOG_MAX_LOG_SIZE; }
int sut_queue_size(void) { return FN_LOG_MAX_LOG_QUEUE_SIZE; }
int sut_max_channels(void) { return FN_LOG_MAX_CHANNEL_SIZE; }
int sut_hot_interval(void) { return FN_LOG_HOTUPDATE_INTERVEL; }
int sut_async_sleep_ms(void) { return FN_LOG_MAX_ASYNC_SLEEP_MS; }
// The three functions below look at the layout. They are optional: when the code
// under test no longer has these names the build leaves them out.
#ifdef SUT_NO_SEG
unsigned long sut_shm_size(void) { return 0; }
void sut_foreign_segment(void* mem, unsigned long size, int, int kind) { memset(mem, kind == 1 ? 0x5a : 0x11, size); }
#else
unsigned long sut_shm_size(void) { return sizeof(FNLog::SHMLogger); }
#endif
// Continue the queue of a channel as after n records. Only between sessions, only
// when the queue is empty and its indexes are plain counts of the records so far.
#ifdef SUT_NO_RING
int sut_age(int, long) { return 0; }
#else
int sut_age(int ch, long n)
{
    FNLog::Logger& lg = FNLog::GetDefaultLogger();
    if (lg.shm_ == nullptr || ch >= lg.shm_->channel_size_ || lg.logger_state_ != FNLog::LOGGER_STATE_UNINIT) return 0;
    FNLog::RingBuffer& rb = lg.shm_->ring_buffers_[ch];
    long long w = rb.write_idx_, h = rb.hold_idx_, r = rb.read_idx_, p = rb.proc_idx_;
    if (w != h || w != r || w != p || w <= 3 * FNLog::RingBuffer::BUFFER_LEN || w != FNLog::GetChannelLog(lg, ch, FNLog::CHANNEL_LOG_PUSH)) return 0;
    if (sizeof(rb.write_idx_) < 8 && n > 2147483000L) n = 2147483647L - n % 64;
    rb.write_idx_ = n; rb.hold_idx_ = n; rb.read_idx_ = n; rb.proc_idx_ = n;
    return 1;
}
#endif
// memory of the queued records of a channel, for the happens-before monitor
#ifdef SUT_NO_RING
int sut_ring_info(int, void**, unsigned long*, unsigned long*, unsigned long*, unsigned long*) { return -1; }
#else
int sut_ring_info(int ch, void** base, unsigned long* stride, unsigned long* n, unsigned long* mark_off, unsigned long* mark_len)
{
    FNLog::Logger& lg = FNLog::GetDefaultLogger();
    if (lg.shm_ == nullptr || ch >= lg.shm_->channel_size_) return -1;
    FNLog::RingBuffer& rb = lg.shm_->ring_buffers_[ch];
    *base = (void*)&rb.buffer_[0];
    *stride = sizeof(rb.buffer_[0]);
    *n = FNLog::RingBuffer::BUFFER_LEN;
    *mark_off = (unsigned long)((char*)&rb.buffer_[0].data_mark_ - (char*)&rb.buffer_[0]);
    *mark_len = sizeof(rb.buffer_[0].data_mark_);
    return 0;
}
#endif
#ifndef SUT_NO_SEG
// a segment that a program with another layout left behind
void sut_foreign_segment(void* mem, unsigned long size, int id, int kind)
{
    FNLog::SHMLogger* s = (FNLog::SHMLogger*)mem;
    memset(mem, kind == 1 ? 0x5a : 0, size);
    if (kind == 2)
    {
        s->shm_id_ = id;
        s->shm_size_ = (int)sizeof(FNLog::SHMLogger) + 4096;
        s->channel_size_ = 1;
    }
}
#endif
}
