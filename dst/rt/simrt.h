#pragma once
#include <stddef.h>
#include <stdint.h>
#define SIM_MAXCHOICES 65536
#define SIM_MONO_BASE 1000000000000ll
enum { SIM_NONE = 0, SIM_RANDOM = 1, SIM_PCT = 2 };
enum { SIM_K_SWITCH = 1, SIM_K_NEXT = 2, SIM_K_WAKE = 3, SIM_K_SPURIOUS = 4, SIM_K_SPAWNFAIL = 5, SIM_K_PICK = 6 };
enum { SIM_F_DEADLOCK = 1, SIM_F_STEPS = 2, SIM_F_INTERNAL = 3 };
enum { SIM_ROLE_ROOT = 1, SIM_ROLE_UNKNOWN = 2, SIM_ROLE_BACKGROUND = 3, SIM_ROLE_CLIENT = 4 };
enum { SIM_C_PREEMPT, SIM_C_BLOCK, SIM_C_TIMESKIP, SIM_C_SPURIOUS, SIM_C_SPAWNFAIL, SIM_C_SLEEP, SIM_C_CLOCKREAD, SIM_C_RANDOM,
       SIM_C_IOERR, SIM_C_SHORTWRITE, SIM_C_SHORTREAD, SIM_C_EINTR, SIM_C_WALLJUMP, SIM_C_THREADS, SIM_NCNT = 32 };
typedef struct { int32_t tid, kind; uint64_t step; int64_t val; uint64_t site; } sim_choice;
typedef struct {
  uint64_t seed, max_steps, max_funcs, step_ns, fair_steps, pct_len;
  int64_t wall_base;
  int32_t replay, strategy, starve_role;
  uint32_t pct_depth, preempt_ppm, hot_ppm, timeskip_ppm, spurious_ppm, spawnfail_ppm;
} sim_cfg;
typedef struct {
  uint64_t seed, latency_ns, eintr_every;
  int64_t fail_after_bytes, read_fail_after;
  int32_t open_err, open_read_err, write_err, close_err, rename_err, short_writes, fsync_err, power;
  uint64_t crash_at;
} sim_disk_cfg;
typedef void (*sim_fatal_fn)(int kind, const char *msg);
