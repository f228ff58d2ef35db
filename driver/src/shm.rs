//! Mirror of sim/simio.h.

pub const MAGIC: u32 = 0x5349_4d31;
pub const MAXCHAN: usize = 192;
pub const MAXFAULT: usize = 32;
pub const MAXEV: usize = 16384;
pub const BLOB: usize = 1 << 16;
pub const PATHLEN: usize = 120;
pub const NKIND: usize = 13;

pub const K_OPEN: u32 = 0;
pub const K_READ: u32 = 1;
pub const K_WRITE: u32 = 2;
pub const K_CLOSE: u32 = 3;
pub const K_FSYNC: u32 = 4;
pub const K_RENAME: u32 = 5;
pub const K_UNLINK: u32 = 6;
pub const K_MKDIR: u32 = 7;
pub const K_TRUNC: u32 = 8;
pub const K_CLOCK: u32 = 9;
pub const KIND_NAMES: [&str; NKIND] = [
    "open", "read", "write", "close", "fsync", "rename", "unlink",
    "mkdir", "truncate", "clock", "sleep", "random", "escape",
];

pub const A_SHORT: u32 = 1;
pub const A_ERR: u32 = 2;
pub const A_STICKY: u32 = 3;
pub const A_CRASH_BEFORE: u32 = 4;
pub const A_CRASH_PARTIAL: u32 = 5;
pub const A_STALL: u32 = 6;
pub const A_CLOCKJUMP: u32 = 7;
pub const ACTION_NAMES: [&str; 8] = [
    "none", "short", "error", "sticky-error", "crash-before",
    "crash-partial", "stall", "clock-jump",
];

pub const END_CRASH: u32 = 1;
pub const END_STALL: u32 = 2;
pub const END_STEPCAP: u32 = 3;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CFault {
    pub chan: u32,
    pub kind: u32,
    pub ordinal: u32,
    pub action: u32,
    pub arg: i64,
    pub fired: u32,
    pub pad: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CChan {
    pub path: [u8; PATHLEN],
    pub used: u32,
    pub rd_policy: u32,
    pub rd_max: u32,
    pub wr_policy: u32,
    pub wr_max: u32,
    pub rd_eintr: u32,
    pub wr_eintr: u32,
    pub tty: u32,
    pub counts: [u32; NKIND],
    pub last_err: u32,
    pub werr: u32,
    pub rerr: u32,
    pub wbytes: u64,
    pub rbytes: u64,
    pub wbudget: i64,
    pub wbudget_err: i32,
    pub sticky: [u32; NKIND],
    pub eintr_fired: u32,
    pub short_fired: u32,
    pub budget_fired: u32,
    pub stall_eof: u32,
    pub pipe: u32,
    pub gone: u32,
    pub fifo: u32,
    pub fifo_seen: u32,
}

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct CEv {
    pub kind: u8,
    pub action: u8,
    pub chan: u16,
    pub req: i32,
    pub ret: i32,
    pub err: i32,
    pub hash: u64,
}

#[repr(C)]
pub struct Shm {
    pub magic: u32,
    pub stackpad: u32,
    pub heappad: u32,
    pub seed: u64,
    pub real_ns: i64,
    pub mono_ns: i64,
    pub tick_ns: i64,
    pub clock_mode: u32,
    pub step_cap: u32,
    pub disk_budget: i64,
    pub nfault: u32,
    pub argc: u32,
    pub envc: u32,
    pub argoff: u32,
    pub envoff: u32,
    pub end_reason: u32,
    pub end_chan: u32,
    pub steps: u32,
    pub nev: u32,
    pub nclock: u32,
    pub nrandom: u32,
    pub nsleep: u32,
    pub escapes: u32,
    pub disk_full_fired: u32,
    pub nchan: u32,
    pub clock_jumps: u32,
    pub virt_elapsed: i64,
    pub nthreads: u32,
    pub pid: u32,
    pub gate: u32,
    pub gstate: u32,
    pub gturn: u32,
    pub gblocked: u32,
    pub heap_on: u32,
    pub heap_denied: u32,
    pub heap_limit: i64,
    pub heap_cur: i64,
    pub heap_peak: i64,
    pub root: [u8; 256],
    pub stdin_path: [u8; 256],
    pub stdout_path: [u8; 256],
    pub stderr_path: [u8; 256],
    pub tap_path: [u8; 256],
    pub escape_path: [u8; 256],
    pub faults: [CFault; MAXFAULT],
    pub chans: [CChan; MAXCHAN],
    pub blob: [u8; BLOB],
    pub ev: [CEv; MAXEV],
}
