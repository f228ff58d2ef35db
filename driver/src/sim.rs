//! The simulated machine: one fork server per worker, one fork per run.

use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::RwLock;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

use serde::{Deserialize, Serialize};

use crate::bytes::B;
use crate::rng::{hash_bytes, mix};
use crate::shm::*;

pub const STDIN: &str = "<stdin>";
pub const STDOUT: &str = "<stdout>";
pub const STDERR: &str = "<stderr>";
pub const ANY: &str = "*";
/// the directory with what is behind symbolic links
const BEHIND: &str = ".l";

pub type Files = BTreeMap<String, B>;

/// How a channel delivers and accepts bytes when no explicit fault applies.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(default)]
pub struct Policy {
    /// 0 everything at once, 1 fixed size, 2 random up to max, 3 mixture
    pub mode: u32,
    pub max: u32,
    /// chance of EINTR per 1024 calls
    pub eintr: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fault {
    pub path: String,
    pub kind: u32,
    pub ord: u32,
    pub action: u32,
    pub arg: i64,
}

impl Fault {
    pub fn describe(&self) -> String {
        format!(
            "{} #{} on {}: {} {}",
            KIND_NAMES[self.kind as usize],
            self.ord,
            self.path,
            ACTION_NAMES[self.action as usize],
            self.arg
        )
    }
}

/// Everything about one simulated execution that is not a file.
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct World {
    pub seed: u64,
    #[serde(default)]
    pub stackpad: u32,
    #[serde(default)]
    pub heappad: u32,
    /// 0 steady, 1 jumpy, 2 frozen
    #[serde(default)]
    pub clock: u32,
    #[serde(default)]
    pub rd: Policy,
    #[serde(default)]
    pub wr: Policy,
    #[serde(default)]
    pub tty: bool,
    /// of the standard streams, those (as bits) that are no terminal after all
    #[serde(default)]
    pub notty: u32,
    /// what is no regular file but a named pipe, or a pipe for standard input
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub fifo: Vec<String>,
    /// what is reached through a symbolic link
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub links: Vec<String>,
    /// stdin never reaches end of file: reads past the data block for ever
    #[serde(default)]
    pub stdin_stall: bool,
    /// when the process is gone the power is, too: what was written and not
    /// synchronised is lost, in part or altogether
    #[serde(default)]
    pub power: bool,
    /// variables of the environment that are none of the command's business
    #[serde(default)]
    pub env: Vec<String>,
    /// the most memory the process may hold: beyond it allocations fail
    #[serde(default)]
    pub heap: Option<i64>,
    #[serde(default)]
    pub disk_budget: Option<i64>,
    /// stdout accepts this many bytes, then fails with the errno
    #[serde(default)]
    pub stdout_budget: Option<(i64, i32)>,
    #[serde(default)]
    pub faults: Vec<Fault>,
}

#[derive(Clone, Debug, Default)]
pub struct Proc {
    pub argv: Vec<B>,
    pub stdin: B,
    pub world: World,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Crash,
    Stall,
    StepCap,
    Hang,
}

#[derive(Clone, Debug)]
pub struct Chan {
    pub path: String,
    pub counts: [u32; NKIND],
    pub werr: u32,
    pub rerr: u32,
    pub last_err: u32,
    pub wbytes: u64,
    pub rbytes: u64,
    pub eintr: u32,
    pub short: u32,
    pub budget_fired: u32,
    /// the process that read from the pipe has ended
    pub gone: bool,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub files: Files,
    pub dirs: Vec<String>,
    pub chans: Vec<Chan>,
    pub events: Vec<CEv>,
    pub evhash: u64,
    pub steps: u32,
    pub fired: Vec<u32>,
    /// files that lost data with the power
    pub lost: u32,
    pub disk_full: u32,
    pub escapes: u32,
    pub escape_path: String,
    pub virt_ns: i64,
    pub clock_jumps: u32,
    pub threads: u32,
    /// the most memory held, if that was to be counted
    pub heap: i64,
    /// allocations that failed
    pub denied: u32,
    /// links that are none any more, and what else appeared behind them
    pub relinked: Vec<String>,
}

impl Outcome {
    pub fn chan(&self, path: &str) -> Option<&Chan> {
        self.chans.iter().find(|c| c.path == path)
    }

    pub fn count(&self, path: &str, kind: u32) -> u32 {
        self.chan(path).map(|c| c.counts[kind as usize]).unwrap_or(0)
    }

    pub fn ok(&self) -> bool {
        self.end == End::Exit(0)
    }

    pub fn err_text(&self) -> String {
        String::from_utf8_lossy(&self.stderr).to_string()
    }

    pub fn panicked(&self) -> bool {
        self.end == End::Exit(101)
            || self.end == End::Signal(libc::SIGABRT)
            || find(&self.stderr, b"panicked at").is_some()
    }

    /// hash of everything a user could observe
    pub fn observable(&self) -> u64 {
        let mut h = hash_bytes(&self.stdout);
        h = mix(h ^ hash_bytes(&self.stderr));
        h = mix(h ^ hash_bytes(format!("{:?}", self.end).as_bytes()));
        for (k, v) in &self.files {
            h = mix(h ^ hash_bytes(k.as_bytes()) ^ hash_bytes(&v.0));
        }
        h
    }
}

pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

/// the channels with data on the disk that were never synchronised
fn unsynced(ev: &[CEv]) -> Vec<usize> {
    let mut v: Vec<usize> = Vec::new();
    for e in ev {
        let c = e.chan as usize;
        let done = e.ret >= 0 && e.action as u32 != A_CRASH_BEFORE;
        match e.kind as u32 {
            K_WRITE if e.ret > 0 && c > 3 && !v.contains(&c) => v.push(c),
            K_FSYNC | K_UNLINK if done => v.retain(|x| *x != c),
            K_RENAME if done => {
                let from = e.req as usize;
                let dirty = v.contains(&from);
                v.retain(|x| *x != c && *x != from);
                if dirty {
                    v.push(c);
                }
            }
            _ => {}
        }
    }
    v
}

/// no command needs as many system calls for what the cases give it
pub const STEP_CAP: u32 = 4_000_000;

static SPAWN: RwLock<()> = RwLock::new(());

/// what the standard streams of a process lead to, if not to files
#[derive(Default)]
struct Ends {
    gated: bool,
    /// which of several processes
    nth: u32,
    stdin: Option<(PathBuf, u32)>,
    stdout: Option<(PathBuf, u32)>,
}

#[derive(Clone, Debug)]
pub struct Pipe {
    pub from: usize,
    pub to: usize,
    pub cap: u32,
}

/// several processes that ran together
pub struct Many {
    pub outs: Vec<Outcome>,
    /// whose turn it was
    pub order: Vec<u8>,
    /// nobody could go on
    pub deadlock: bool,
    /// what `watch` said
    pub seen: Option<String>,
}

fn many(
    ws: &mut [&mut Worker],
    procs: &[Proc],
    pipes: &[Pipe],
    sched: &[u8],
    watch: &mut dyn FnMut(&Path) -> Option<String>,
) -> HResult<Many> {
    let root = ws[0].root();
    let base = ws[0].base.clone();
    // a process that another worker starts just now would hold a copy of these
    // ends until it executes pica, and no reader would see the end of its input
    let guard = SPAWN.read();
    let mut held = Vec::new();
    for (k, _) in pipes.iter().enumerate() {
        let f = base.join(format!("pipe{k}"));
        let _ = fs::remove_file(&f);
        let name = std::ffi::CString::new(f.to_str().unwrap()).unwrap();
        if unsafe { libc::mkfifo(name.as_ptr(), 0o600) } != 0 {
            return herr("mkfifo");
        }
        held.push(
            fs::OpenOptions::new().read(true).write(true).open(&f)?,
        );
    }
    let at = |k: usize| (base.join(format!("pipe{k}")), pipes[k].cap);
    let mut live = Vec::new();
    for (i, p) in procs.iter().enumerate() {
        let ends = Ends {
            gated: true,
            nth: i as u32,
            stdin: pipes.iter().position(|x| x.to == i).map(at),
            stdout: pipes.iter().position(|x| x.from == i).map(at),
        };
        ws[i].launch(p, &ends)?;
        live.push(ws[i].settled()?);
    }
    drop(held);
    drop(guard);
    let mut order: Vec<u8> = Vec::new();
    let mut deadlock = false;
    let mut seen = None;
    // the turn at which each was last found waiting for a pipe
    let mut stuck = vec![usize::MAX; procs.len()];
    let mut moves = 0;
    while live.iter().any(|l| *l) {
        let able: Vec<usize> =
            (0..procs.len()).filter(|i| live[*i] && stuck[*i] != moves).collect();
        if able.is_empty() || order.len() > STEP_CAP as usize {
            deadlock = true;
            for (i, w) in ws.iter_mut().enumerate() {
                while live[i] {
                    w.kill_child();
                    live[i] = w.settled()?;
                }
            }
            break;
        }
        let k = match sched.get(order.len()) {
            Some(x) => able[*x as usize % able.len()],
            None => able[0],
        };
        order.push(k as u8);
        ws[k].grant();
        live[k] = ws[k].settled()?;
        let blocked = match live[k] {
            true => unsafe { (*ws[k].shm).gblocked },
            false => 0,
        };
        moves += (blocked != 1) as usize;
        if blocked != 0 {
            stuck[k] = moves;
        }
        if seen.is_none() {
            seen = watch(&root);
        }
    }
    let mut outs = Vec::new();
    for (w, p) in ws.iter_mut().zip(procs) {
        outs.push(w.collect(p)?);
    }
    Ok(Many { outs, order, deadlock, seen })
}

pub struct Worker {
    /// where its control files lie below `base`
    name: String,
    pica: PathBuf,
    lib: PathBuf,
    peers: Vec<Worker>,
    /// turns taken by processes that ran together
    pub turns: u64,
    /// distinct sequences of turns
    pub orders: std::collections::HashSet<u64>,
    links: Vec<String>,
    child: Child,
    shm: *mut Shm,
    cmd: fs::File,
    rsp: fs::File,
    base: PathBuf,
    pub runs: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub virt_ns: i128,
    pub fault_counts: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    pub tracing: bool,
    /// everything observed since the last `begin`
    pub sig: u64,
    /// distinct histories and distinct shapes of histories
    pub hists: std::collections::HashSet<u64>,
    pub shapes: std::collections::HashSet<u64>,
}

unsafe impl Send for Worker {}

#[derive(Debug)]
pub struct HarnessError(pub String);

impl<E: std::fmt::Display> From<E> for HarnessError {
    fn from(e: E) -> Self {
        HarnessError(e.to_string())
    }
}

pub type HResult<T> = Result<T, HarnessError>;

pub fn herr<T>(s: impl Into<String>) -> HResult<T> {
    Err(HarnessError(s.into()))
}

/// where all simulated machines live; removed on drop
pub struct Arena(pub PathBuf);

impl Arena {
    pub fn new() -> HResult<Arena> {
        for parent in ["/dev/shm", "/tmp"] {
            let p = PathBuf::from(parent)
                .join(format!("psim{:08}", std::process::id()));
            if fs::create_dir(&p).is_ok() {
                return Ok(Arena(p));
            }
        }
        herr("no scratch directory")
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// messages may name the scratch directory, which differs between workers
fn unplaced(b: Vec<u8>, root: &Path) -> Vec<u8> {
    let r = root.to_str().unwrap().as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(r) {
            out.extend_from_slice(b"/ROOT");
            i += r.len();
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn put(dst: &mut [u8], s: &[u8]) {
    dst.fill(0);
    let n = s.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&s[..n]);
}

fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).to_string()
}

impl Worker {
    pub fn new(
        arena: &Arena,
        id: usize,
        pica: &Path,
        lib: &Path,
    ) -> HResult<Worker> {
        let base = arena.0.join(format!("w{id:02}"));
        Worker::start(base, "ctl".into(), pica, lib)
    }

    /// one more process on the same machine
    fn peer(&self, n: usize) -> HResult<Worker> {
        Worker::start(self.base.clone(), format!("ctl{n}"), &self.pica, &self.lib)
    }

    fn start(
        base: PathBuf,
        name: String,
        pica: &Path,
        lib: &Path,
    ) -> HResult<Worker> {
        fs::create_dir_all(base.join("run"))?;
        fs::create_dir_all(base.join(&name))?;
        let size = std::mem::size_of::<Shm>();
        let raw = unsafe { libc::memfd_create(c"sim".as_ptr(), libc::MFD_CLOEXEC) };
        if raw < 0 {
            return herr("memfd_create");
        }
        let memfd = unsafe { OwnedFd::from_raw_fd(raw) };
        if unsafe { libc::ftruncate(raw, size as i64) } != 0 {
            return herr("ftruncate");
        }
        let shm = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                size,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                raw,
                0,
            )
        } as *mut Shm;
        if shm as isize == -1 {
            return herr("mmap");
        }
        unsafe { (*shm).magic = MAGIC ^ size as u32 };
        let pipe = || -> HResult<(OwnedFd, OwnedFd)> {
            let mut p = [0i32; 2];
            if unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
                return herr("pipe");
            }
            Ok(unsafe {
                (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1]))
            })
        };
        let (cmd_r, cmd_w) = pipe()?;
        let (rsp_r, rsp_w) = pipe()?;
        let (a, b, c) =
            (memfd.as_raw_fd(), cmd_r.as_raw_fd(), rsp_w.as_raw_fd());
        let mut command = Command::new(pica);
        command
            .env_clear()
            .env("LD_PRELOAD", lib)
            .env("LD_BIND_NOW", "1")
            .current_dir("/")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        unsafe {
            command.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::personality(0x0040000);
                let rl = libc::rlimit { rlim_cur: 1024, rlim_max: 4096 };
                libc::setrlimit(libc::RLIMIT_NOFILE, &rl);
                let rl = libc::rlimit {
                    rlim_cur: 8 << 20,
                    rlim_max: libc::RLIM_INFINITY,
                };
                libc::setrlimit(libc::RLIMIT_STACK, &rl);
                for (from, to) in [(a, 890), (b, 891), (c, 892)] {
                    if libc::dup2(from, to) < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                Ok(())
            });
        }
        let guard = SPAWN.write();
        let child = command.spawn()?;
        drop(guard);
        drop((memfd, cmd_r, rsp_w));
        Ok(Worker {
            child,
            shm,
            cmd: fs::File::from(cmd_w),
            rsp: fs::File::from(rsp_r),
            base,
            name,
            pica: pica.into(),
            lib: lib.into(),
            peers: Vec::new(),
            turns: 0,
            orders: Default::default(),
            links: Vec::new(),
            runs: 0,
            steps: 0,
            max_steps: 0,
            virt_ns: 0,
            fault_counts: BTreeMap::new(),
            trace: Vec::new(),
            tracing: false,
            sig: 0,
            hists: Default::default(),
            shapes: Default::default(),
        })
    }

    fn root(&self) -> PathBuf {
        self.base.join("run")
    }

    /// replaces the whole file system of the simulated machine
    pub fn reset(&mut self, files: &Files) -> HResult<()> {
        let root = self.root();
        wipe(&root)?;
        self.links.clear();
        for (k, v) in files {
            self.put_file(k, &v.0)?;
        }
        Ok(())
    }

    pub fn put_file(&mut self, k: &str, v: &[u8]) -> HResult<()> {
        let p = self.root().join(k);
        if k.ends_with('/') {
            fs::create_dir_all(p)?;
            return Ok(());
        }
        if let Some(d) = p.parent() {
            fs::create_dir_all(d)?;
        }
        fs::write(p, v)?;
        Ok(())
    }

    pub fn remove_file(&mut self, k: &str) -> HResult<()> {
        fs::remove_file(self.root().join(k))?;
        self.links.retain(|x| x != k);
        Ok(())
    }

    /// what is behind a link
    fn behind(&self, k: &str) -> PathBuf {
        self.root().join(BEHIND).join(format!("{:016x}", crate::rng::hash_str(k)))
    }

    /// puts files, or their places, behind symbolic links
    fn link(&mut self, w: &World) -> HResult<()> {
        for k in &w.links {
            let (p, t) = (self.root().join(k), self.behind(k));
            if self.links.contains(k) || p.is_dir() || !p.parent().is_some_and(|d| d.is_dir()) {
                continue;
            }
            fs::create_dir_all(t.parent().unwrap())?;
            if p.exists() {
                fs::rename(&p, &t)?;
            } else if k.ends_with(".toml") {
                // a new configuration may take the place of such a link
                continue;
            }
            std::os::unix::fs::symlink(&t, &p)?;
            self.links.push(k.clone());
        }
        Ok(())
    }

    fn relinked(&self) -> HResult<Vec<String>> {
        let root = self.root();
        let mut out: Vec<String> = self
            .links
            .iter()
            .filter(|k| !root.join(k).is_symlink())
            .cloned()
            .collect();
        if !self.links.is_empty() {
            let known: Vec<PathBuf> = self.links.iter().map(|k| self.behind(k)).collect();
            for e in fs::read_dir(root.join(BEHIND))? {
                let p = e?.path();
                if !known.contains(&p) {
                    out.push(p.file_name().unwrap().to_string_lossy().to_string());
                }
            }
        }
        Ok(out)
    }

    pub fn snapshot(&self) -> HResult<Files> {
        let mut out = Files::new();
        let root = self.root();
        walk(&root, &root, &mut out)?;
        out.retain(|k, _| !k.starts_with(BEHIND));
        // what became of the link itself does not count
        for k in &self.links {
            match fs::read(self.behind(k)) {
                Ok(v) => out.insert(k.clone(), B(v)),
                Err(_) => out.remove(k),
            };
        }
        Ok(out)
    }

    /// all directories
    pub fn dirs(&self) -> HResult<Vec<String>> {
        let root = self.root();
        let mut out = Vec::new();
        let mut todo = vec![root.clone()];
        while let Some(d) = todo.pop() {
            for e in fs::read_dir(&d)? {
                let e = e?;
                if e.file_type()?.is_dir() {
                    let p = e.path();
                    out.push(p.strip_prefix(&root)?.to_string_lossy().to_string());
                    todo.push(p);
                }
            }
        }
        out.retain(|k| k != BEHIND);
        out.sort();
        Ok(out)
    }

    /// fresh machine, one process
    pub fn run_on(&mut self, files: &Files, p: &Proc) -> HResult<Outcome> {
        self.reset(files)?;
        self.run(p)
    }

    /// one process on the machine as it is
    pub fn run(&mut self, p: &Proc) -> HResult<Outcome> {
        self.link(&p.world)?;
        self.launch(p, &Ends::default())?;
        let out = self.collect(p)?;
        self.account(p, &out);
        Ok(out)
    }

    fn ctl(&self) -> PathBuf {
        self.base.join(&self.name)
    }

    /// starts the process; gated, it stops at its first operation
    fn launch(&mut self, p: &Proc, ends: &Ends) -> HResult<()> {
        let ctl = self.ctl();
        fs::write(ctl.join("stdin"), &p.stdin.0)?;
        fs::write(ctl.join("stdout"), b"")?;
        fs::write(ctl.join("stderr"), b"")?;
        let root = self.root();
        let w = &p.world;
        let s = unsafe { &mut *self.shm };
        s.stackpad = w.stackpad;
        s.heappad = w.heappad;
        s.seed = w.seed;
        s.real_ns = 1_750_000_000_000_000_000
            + (mix(w.seed ^ 7) % 100_000_000_000_000) as i64;
        s.mono_ns = 1_000_000_000_000;
        s.tick_ns = 1_000;
        s.clock_mode = w.clock;
        s.step_cap = STEP_CAP;
        s.disk_budget = w.disk_budget.unwrap_or(-1);
        s.end_reason = 0;
        s.end_chan = 0;
        s.steps = 0;
        s.nev = 0;
        s.nclock = 0;
        s.nrandom = 0;
        s.nsleep = 0;
        s.escapes = 0;
        s.disk_full_fired = 0;
        s.clock_jumps = 0;
        s.virt_elapsed = 0;
        s.nthreads = 0;
        s.pid = 1000 + (mix(w.seed ^ 5) % 3000) as u32 * 8 + ends.nth;
        put(&mut s.root, root.to_str().unwrap().as_bytes());
        put(&mut s.stdin_path, ctl.join("stdin").to_str().unwrap().as_bytes());
        put(&mut s.stdout_path, ctl.join("stdout").to_str().unwrap().as_bytes());
        put(&mut s.stderr_path, ctl.join("stderr").to_str().unwrap().as_bytes());
        put(&mut s.tap_path, ctl.join("stdout").to_str().unwrap().as_bytes());
        if let Some((f, _)) = &ends.stdin {
            put(&mut s.stdin_path, f.to_str().unwrap().as_bytes());
        }
        if let Some((f, _)) = &ends.stdout {
            put(&mut s.stdout_path, f.to_str().unwrap().as_bytes());
        }
        s.gate = ends.gated as u32;
        s.gstate = 0;
        s.gturn = 0;
        s.gblocked = 0;
        s.heap_on = w.heap.is_some() as u32;
        s.heap_denied = 0;
        s.heap_limit = w.heap.unwrap_or(0);
        s.heap_cur = 0;
        s.heap_peak = 0;
        s.escape_path.fill(0);
        // channels: the standard streams, the default, the ones faults name
        let mut names: Vec<String> = vec![
            STDIN.into(),
            STDOUT.into(),
            STDERR.into(),
            ANY.into(),
        ];
        for f in &w.faults {
            if !names.contains(&f.path) {
                names.push(f.path.clone());
            }
        }
        for f in &w.fifo {
            if !names.contains(f) {
                names.push(f.clone());
            }
        }
        if names.len() > MAXCHAN - 8 || w.faults.len() > MAXFAULT {
            return herr("plan too large");
        }
        for (i, n) in names.iter().enumerate() {
            let c = &mut s.chans[i];
            *c = unsafe { std::mem::zeroed() };
            put(&mut c.path, n.as_bytes());
            c.wbudget = -1;
            c.fifo = w.fifo.contains(n) as u32;
            if i != 2 {
                c.rd_policy = w.rd.mode;
                c.rd_max = w.rd.max;
                c.rd_eintr = w.rd.eintr;
                c.wr_policy = w.wr.mode;
                c.wr_max = w.wr.max;
                c.wr_eintr = w.wr.eintr;
            }
        }
        s.nchan = names.len() as u32;
        s.chans[0].stall_eof = w.stdin_stall as u32;
        s.chans[0].pipe = ends.stdin.as_ref().map_or(0, |x| x.1);
        s.chans[1].pipe = ends.stdout.as_ref().map_or(0, |x| x.1);
        for i in 0..3 {
            s.chans[i].tty =
                (w.tty && w.notty >> i & 1 == 0 && s.chans[i].pipe == 0) as u32;
        }
        if let Some((n, e)) = w.stdout_budget {
            s.chans[1].wbudget = n;
            s.chans[1].wbudget_err = e;
        }
        s.nfault = w.faults.len() as u32;
        for (i, f) in w.faults.iter().enumerate() {
            s.faults[i] = CFault {
                chan: names.iter().position(|n| *n == f.path).unwrap() as u32,
                kind: f.kind,
                ordinal: f.ord,
                action: f.action,
                arg: f.arg,
                fired: 0,
                pad: 0,
            };
        }
        // argv and environment
        let home = root.join("home");
        let mut env = vec![
            format!("HOME={}", home.to_str().unwrap()),
            "PATH=/usr/bin:/bin".to_string(),
            "TZ=UTC".to_string(),
            "TERM=xterm".to_string(),
            "LANG=C.UTF-8".to_string(),
            "POLARS_MAX_THREADS=1".to_string(),
            "RAYON_NUM_THREADS=1".to_string(),
            "RUST_BACKTRACE=0".to_string(),
        ];
        for e in &w.env {
            let key = &e[..=e.find('=').unwrap_or(e.len() - 1)];
            env.retain(|x| !x.starts_with(key));
            env.push(e.clone());
        }
        let mut o = 0usize;
        s.argoff = 0;
        s.argc = p.argv.len() as u32 + 1;
        let mut args: Vec<&[u8]> = vec![b"pica"];
        args.extend(p.argv.iter().map(|a| a.0.as_slice()));
        if args.len() > 500 {
            return herr("too many arguments");
        }
        for a in args {
            if o + a.len() + 4096 >= BLOB {
                return herr("argument list too long");
            }
            s.blob[o..o + a.len()].copy_from_slice(a);
            s.blob[o + a.len()] = 0;
            o += a.len() + 1;
        }
        s.envoff = o as u32;
        s.envc = env.len() as u32;
        for e in &env {
            s.blob[o..o + e.len()].copy_from_slice(e.as_bytes());
            s.blob[o + e.len()] = 0;
            o += e.len() + 1;
        }

        self.cmd.write_all(b"r")?;
        Ok(())
    }

    /// waits for the end of the process
    fn collect(&mut self, p: &Proc) -> HResult<Outcome> {
        let ctl = self.ctl();
        let root = self.root();
        let w = &p.world;
        let mut st = [0u8; 8];
        if let Err(e) = self.rsp.read_exact(&mut st) {
            return herr(format!("simulated process server died: {e}"));
        }
        let status = i32::from_ne_bytes(st[..4].try_into().unwrap());
        let hung = i32::from_ne_bytes(st[4..].try_into().unwrap()) != 0;
        let s = unsafe { &*self.shm };
        let end = match s.end_reason {
            END_CRASH => End::Crash,
            END_STALL => End::Stall,
            END_STEPCAP => End::StepCap,
            _ if hung => End::Hang,
            _ if libc::WIFEXITED(status) => {
                match libc::WEXITSTATUS(status) {
                    c @ (96..=98) => return herr(format!("fork server exit {c}")),
                    c => End::Exit(c),
                }
            }
            _ => match libc::WTERMSIG(status) {
                libc::SIGXCPU => End::Hang,
                // RLIMIT_CPU hard limit, or somebody ran out of memory
                libc::SIGKILL => End::Hang,
                x => End::Signal(x),
            },
        };
        let nev = (s.nev as usize).min(MAXEV);
        let events = s.ev[..nev].to_vec();
        let mut evhash = 0u64;
        for e in &events {
            evhash = mix(
                evhash
                    // what the streams received is part of `observable`
                    ^ if e.chan == 1 || e.chan == 2 { 0 } else { e.hash }
                    ^ ((e.kind as u64) << 56)
                    ^ ((e.chan as u64) << 40)
                    ^ ((e.ret as u32 as u64) << 8)
                    ^ e.err as u32 as u64,
            );
        }
        let chans: Vec<Chan> = s.chans[..(s.nchan as usize).min(MAXCHAN)]
            .iter()
            .map(|c| Chan {
                path: cstr(&c.path),
                counts: c.counts,
                werr: c.werr,
                rerr: c.rerr,
                last_err: c.last_err,
                wbytes: c.wbytes,
                rbytes: c.rbytes,
                eintr: c.eintr_fired,
                short: c.short_fired,
                budget_fired: c.budget_fired,
                gone: c.gone != 0,
            })
            .collect();
        let mut lost = 0;
        if w.power {
            for k in unsynced(&events) {
                let f = root.join(&chans[k].path);
                let Ok(m) = fs::metadata(&f) else { continue };
                let r = mix(w.seed ^ 0x90 ^ k as u64);
                let keep = if r & 1 == 0 { 0 } else { (r >> 8) % m.len().max(1) };
                fs::OpenOptions::new().write(true).open(&f)?.set_len(keep)?;
                lost += 1;
            }
        }
        let out = Outcome {
            lost,
            end,
            stdout: fs::read(ctl.join("stdout"))?,
            stderr: unplaced(fs::read(ctl.join("stderr"))?, &root),
            files: self.snapshot()?,
            dirs: self.dirs()?,
            chans,
            events,
            evhash,
            steps: s.steps,
            fired: (0..w.faults.len()).map(|i| s.faults[i].fired).collect(),
            disk_full: s.disk_full_fired,
            escapes: s.escapes,
            escape_path: cstr(&s.escape_path),
            virt_ns: s.virt_elapsed,
            clock_jumps: s.clock_jumps,
            threads: s.nthreads,
            heap: s.heap_peak,
            denied: s.heap_denied,
            relinked: self.relinked()?,
        };
        Ok(out)
    }

    /// Waits until the process has reached its next operation (true) or is
    /// gone (false).
    fn settled(&mut self) -> HResult<bool> {
        let s = unsafe { &*self.shm };
        let state = unsafe { AtomicU32::from_ptr(&raw const s.gstate as *mut u32) };
        for _ in 0..70 {
            match state.load(SeqCst) {
                1 => return Ok(true),
                2 => return Ok(false),
                _ => unsafe {
                    let t = libc::timespec { tv_sec: 1, tv_nsec: 0 };
                    libc::syscall(
                        libc::SYS_futex,
                        state.as_ptr(),
                        libc::FUTEX_WAIT,
                        0,
                        &t,
                    );
                },
            }
        }
        herr("a simulated process neither moves nor ends")
    }

    fn grant(&mut self) {
        let s = unsafe { &*self.shm };
        unsafe {
            let state = AtomicU32::from_ptr(&raw const s.gstate as *mut u32);
            let turn = AtomicU32::from_ptr(&raw const s.gturn as *mut u32);
            state.store(0, SeqCst);
            turn.store(1, SeqCst);
            libc::syscall(libc::SYS_futex, turn.as_ptr(), libc::FUTEX_WAKE, 1);
        }
    }

    fn kill_child(&mut self) {
        // the run is given up: let it run into its bound
        let s = unsafe { &mut *self.shm };
        s.step_cap = 0;
        self.grant();
    }

    /// Several processes on the machine as it is, one operation at a time.
    /// `sched` says whose turn it is; once it is used up the first that can
    /// go on does. Pipes lead from one process to another. `watch` looks at
    /// the machine after every turn.
    pub fn run_many(
        &mut self,
        procs: &[Proc],
        pipes: &[Pipe],
        sched: &[u8],
        watch: &mut dyn FnMut(&Path) -> Option<String>,
    ) -> HResult<Many> {
        while self.peers.len() + 1 < procs.len() {
            let n = self.peers.len();
            let p = self.peer(n)?;
            self.peers.push(p);
        }
        let mut peers = std::mem::take(&mut self.peers);
        let r = {
            let mut ws: Vec<&mut Worker> = std::iter::once(&mut *self)
                .chain(peers.iter_mut())
                .take(procs.len())
                .collect();
            many(&mut ws, procs, pipes, sched, watch)
        };
        self.peers = peers;
        let r = r?;
        for (p, o) in procs.iter().zip(&r.outs) {
            self.account(p, o);
        }
        self.sig = mix(self.sig ^ hash_bytes(&r.order));
        self.orders.insert(hash_bytes(&r.order));
        if self.tracing {
            let o: Vec<String> =
                r.order.iter().take(4000).map(|k| (k + 1).to_string()).collect();
            self.trace.push(format!("turns {}", o.concat()));
        }
        self.turns += r.order.len() as u64;
        Ok(r)
    }

    fn bump(&mut self, k: String, n: u64) {
        if n > 0 {
            *self.fault_counts.entry(k).or_default() += n;
        }
    }

    fn account(&mut self, p: &Proc, o: &Outcome) {
        self.runs += 1;
        self.steps += o.steps as u64;
        self.max_steps = self.max_steps.max(o.steps as u64);
        self.virt_ns += o.virt_ns as i128;
        self.sig = mix(self.sig ^ o.evhash ^ o.observable().rotate_left(7));
        if self.hists.len() < 2_000_000 {
            self.hists.insert(mix(o.evhash ^ o.observable()));
        }
        self.shapes.insert(shape(o));
        for (i, f) in p.world.faults.iter().enumerate() {
            let mut k = format!(
                "{}:{}",
                KIND_NAMES[f.kind as usize], ACTION_NAMES[f.action as usize]
            );
            if f.action == A_ERR || f.action == A_STICKY {
                k.push_str(&format!(":{}", errno_name(f.arg as i32)));
            }
            self.bump(k, o.fired[i] as u64);
        }
        for c in &o.chans {
            self.bump("policy:eintr".into(), c.eintr as u64);
            self.bump("policy:short-transfer".into(), c.short as u64);
            if c.budget_fired > 0 {
                let e = p.world.stdout_budget.map(|b| b.1).unwrap_or(0);
                self.bump(format!("stdout-closed:{}", errno_name(e)), 1);
            }
        }
        self.bump("links".into(), p.world.links.len() as u64);
        self.bump("inputs-are-pipes".into(), !p.world.fifo.is_empty() as u64);
        self.bump("foreign-environment".into(), !p.world.env.is_empty() as u64);
        let tight = p.world.heap.is_some_and(|h| h < 1 << 40);
        self.bump("memory-limit".into(), tight as u64);
        self.bump("memory-limit:allocation-failed".into(), o.denied as u64);
        self.bump("power-loss".into(), p.world.power as u64);
        self.bump("power-loss:data-lost".into(), o.lost as u64);
        if o.disk_full > 0 {
            self.bump("disk-full".into(), 1);
        }
        self.bump("clock-jump".into(), o.clock_jumps as u64);
        if o.end == End::Stall {
            self.bump("stall".into(), 1);
        }
        if self.tracing {
            self.trace.push(format!(
                "run {:?} -> {:?} steps={} evhash={:016x} obs={:016x}",
                p.argv.iter().map(|a| crate::bytes::show(&a.0)).collect::<Vec<_>>(),
                o.end,
                o.steps,
                o.evhash,
                o.observable()
            ));
        }
    }
}

/// the order of operations and how they went, without their sizes
fn shape(o: &Outcome) -> u64 {
    let mut h = hash_bytes(format!("{:?}", o.end).as_bytes());
    let mut last = 0;
    for e in &o.events {
        let how = match e.ret {
            _ if e.err != 0 => 100 + e.err as u64,
            0 => 1,
            r if r < e.req => 2,
            _ => 3,
        };
        let x = how | (e.kind as u64) << 16 | (e.chan as u64) << 24;
        if x != last {
            h = mix(h ^ x);
            last = x;
        }
    }
    h
}

pub fn errno_name(e: i32) -> String {
    match e {
        libc::EIO => "EIO".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EINTR => "EINTR".into(),
        libc::EPIPE => "EPIPE".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::EACCES => "EACCES".into(),
        libc::EDQUOT => "EDQUOT".into(),
        libc::EROFS => "EROFS".into(),
        libc::ESTALE => "ESTALE".into(),
        libc::EFBIG => "EFBIG".into(),
        libc::ECONNRESET => "ECONNRESET".into(),
        libc::ETIMEDOUT => "ETIMEDOUT".into(),
        libc::EAGAIN => "EAGAIN".into(),
        e => format!("errno{e}"),
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn wipe(d: &Path) -> HResult<()> {
    for e in fs::read_dir(d)? {
        let e = e?;
        if e.file_type()?.is_dir() {
            fs::remove_dir_all(e.path())?;
        } else {
            fs::remove_file(e.path())?;
        }
    }
    Ok(())
}

fn walk(root: &Path, d: &Path, out: &mut Files) -> HResult<()> {
    for e in fs::read_dir(d)? {
        let e = e?;
        let p = e.path();
        if e.file_type()?.is_dir() {
            walk(root, &p, out)?;
        } else {
            let rel = p.strip_prefix(root)?;
            let name = rel.to_string_lossy().to_string();
            out.insert(name, B(fs::read(&p).unwrap_or_default()));
        }
    }
    Ok(())
}
