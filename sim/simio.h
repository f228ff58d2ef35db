/* Shared-memory protocol between the driver and the simulated process. */
#ifndef SIMIO_H
#define SIMIO_H
#include <stdint.h>

#define SIM_MAGIC 0x53494d31u
#define SIM_MAXCHAN 192
#define SIM_MAXFAULT 32
#define SIM_MAXEV 16384
#define SIM_BLOB (1 << 16)
#define SIM_PATHLEN 120

/* operation kinds */
enum { K_OPEN = 0, K_READ, K_WRITE, K_CLOSE, K_FSYNC, K_RENAME, K_UNLINK, K_MKDIR, K_TRUNC, K_CLOCK, K_SLEEP, K_RANDOM, K_ESCAPE, K_NKIND };

/* fault actions */
enum { A_NONE = 0, A_SHORT, A_ERR, A_STICKY, A_CRASH_BEFORE, A_CRASH_PARTIAL, A_STALL, A_CLOCKJUMP };

/* reported reasons a run ended, besides the wait status */
enum { END_NONE = 0, END_CRASH = 1, END_STALL = 2, END_STEPCAP = 3 };

typedef struct {
  uint32_t chan;    /* channel index or 0xffffffff = any */
  uint32_t kind;
  uint32_t ordinal; /* n-th operation (0-based) of this kind on this channel */
  uint32_t action;
  int64_t arg;      /* bytes for SHORT/CRASH_PARTIAL, errno for ERR/STICKY, ns for CLOCKJUMP */
  uint32_t fired;   /* out */
  uint32_t pad;
} sim_fault;

typedef struct {
  char path[SIM_PATHLEN];
  uint32_t used;
  uint32_t rd_policy, rd_max;   /* 0 none, 1 fixed max, 2 random 1..max, 3 mixture */
  uint32_t wr_policy, wr_max;
  uint32_t rd_eintr, wr_eintr;  /* per 1024 */
  uint32_t tty;
  uint32_t counts[K_NKIND];     /* out: operations seen, all incarnations */
  uint32_t last_err;            /* out */
  uint32_t werr;                /* out: failed writes delivered (not EINTR) */
  uint32_t rerr;                /* out: failed reads delivered (not EINTR) */
  uint64_t wbytes;              /* out: accepted bytes */
  uint64_t rbytes;
  int64_t wbudget;              /* bytes accepted before wbudget_err; <0 unlimited */
  int32_t wbudget_err;
  uint32_t sticky[K_NKIND];     /* out: errno made sticky */
  uint32_t eintr_fired, short_fired, budget_fired;
  uint32_t stall_eof;
  uint32_t pipe;                /* capacity, if this is a pipe to another simulated process */
  uint32_t gone;                /* out: the reader of the pipe has gone */
  uint32_t fifo;                /* no regular file: has no size and no positions, is read once */
  uint32_t fifo_seen;           /* out: times that was noticed */
} sim_chan;

typedef struct {
  uint8_t kind, action;
  uint16_t chan;
  int32_t req;
  int32_t ret;
  int32_t err;
  uint64_t hash;  /* of the data moved */
} sim_ev;

typedef struct {
  uint32_t magic;
  uint32_t stackpad, heappad;
  uint64_t seed;
  int64_t real_ns, mono_ns, tick_ns;   /* virtual clock */
  uint32_t clock_mode;                 /* 0 steady, 1 jumpy, 2 frozen */
  uint32_t step_cap;
  int64_t disk_budget;                 /* bytes accepted over all file channels; <0 unlimited */
  uint32_t nfault;
  uint32_t argc, envc, argoff, envoff;
  uint32_t end_reason;                 /* out */
  uint32_t end_chan;
  uint32_t steps;                      /* out */
  uint32_t nev;                        /* out, may exceed SIM_MAXEV */
  uint32_t nclock, nrandom, nsleep;    /* out */
  uint32_t escapes;                    /* out: denied writes outside the run directory */
  uint32_t disk_full_fired;
  uint32_t nchan;
  uint32_t clock_jumps;
  int64_t virt_elapsed;                /* out */
  uint32_t nthreads, pid;
  /* several processes on one machine: whose turn it is */
  uint32_t gate;                       /* operations wait for their turn */
  uint32_t gstate;                     /* out: 0 running, 1 waiting, 2 gone */
  uint32_t gturn;
  uint32_t gblocked;                   /* out: waits for a pipe; 2 after it moved some bytes */
  /* the heap: allocations that would take it beyond the limit fail */
  uint32_t heap_on;
  uint32_t heap_denied;                /* out */
  int64_t heap_limit;
  int64_t heap_cur, heap_peak;         /* out */
  char root[256];
  char stdin_path[256], stdout_path[256], stderr_path[256], tap_path[256];
  char escape_path[256];               /* out: first denied path */
  sim_fault faults[SIM_MAXFAULT];
  sim_chan chans[SIM_MAXCHAN];
  char blob[SIM_BLOB];
  sim_ev ev[SIM_MAXEV];
} sim_shm;

#define SIM_FD_TAP 889
#define SIM_FD_SHM 890
#define SIM_FD_CMD 891
#define SIM_FD_RSP 892
#endif
