//! Executes ripcalc and observes it at its boundary.

use std::ffi::OsString;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[repr(C)]
struct PollFd { fd: i32, events: i16, revents: i16 }
#[repr(C)]
struct RLimit { cur: u64, max: u64 }
extern "C" {
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    fn setrlimit(what: i32, lim: *const RLimit) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize;
    fn umask(mask: u32) -> u32;
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, buf: *mut std::ffi::c_char, n: usize) -> i32;
    fn tcgetattr(fd: i32, t: *mut u32) -> i32;
    fn tcsetattr(fd: i32, how: i32, t: *const u32) -> i32;
    fn cfmakeraw(t: *mut u32);
    fn ioctl(fd: i32, what: u64, ...) -> i32;
    fn fcntl(fd: i32, what: i32, ...) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}
const RLIMIT_NOFILE: i32 = 7;
const O_RDWR: i32 = 2;
const O_NOCTTY: i32 = 0x100;
const O_CLOEXEC: i32 = 0x80000;
const TIOCSWINSZ: u64 = 0x5414;
const F_SETPIPE_SZ: i32 = 1031;
const F_SETFL: i32 = 4;
const O_NONBLOCK: i32 = 0o4000;

/// Makes writes to the pipe fail instead of wait when it is full, and the pipe small.
pub fn impatient(f: &File) { unsafe { fcntl(f.as_raw_fd(), F_SETFL, O_NONBLOCK | 1); fcntl(f.as_raw_fd(), F_SETPIPE_SZ, 4096); } }
const SIGCONT: i32 = 18;
const SIGSTOP: i32 = 19;

/// A new terminal that passes bytes through unchanged: the side to read, and the side for the program.
pub fn terminal(rows: u16, columns: u16) -> Option<(File, File)> {
    unsafe {
        let fd = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
        if fd < 0 { return None; }
        let master = File::from(OwnedFd::from_raw_fd(fd));
        let mut name = [0 as std::ffi::c_char; 128];
        if grantpt(fd) != 0 || unlockpt(fd) != 0 || ptsname_r(fd, name.as_mut_ptr(), name.len()) != 0 { return None; }
        let path = std::ffi::CStr::from_ptr(name.as_ptr()).to_str().ok()?.to_owned();
        use std::os::unix::fs::OpenOptionsExt;
        let slave = std::fs::OpenOptions::new().read(true).write(true).custom_flags(O_NOCTTY).open(path).ok()?;
        let mut t = [0u32; 64];
        if tcgetattr(slave.as_raw_fd(), t.as_mut_ptr()) != 0 { return None; }
        cfmakeraw(t.as_mut_ptr());
        if tcsetattr(slave.as_raw_fd(), 0, t.as_ptr()) != 0 { return None; }
        let size = [rows, columns, 0, 0];
        ioctl(fd, TIOCSWINSZ, size.as_ptr());
        Some((master, slave))
    }
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;

pub const OUTPUT_LIMIT: usize = 64 << 20;
pub const CPU_LIMIT_S: u64 = 10;
pub const AS_LIMIT: u64 = 2 << 30;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Code {
    Exit(i32),
    Signal(i32),
    /// Used up its CPU time limit.
    CpuLimit,
    /// Wrote more than `OUTPUT_LIMIT` and was stopped.
    OutputLimit,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out { pub code: Code, pub out: Vec<u8>, pub err: Vec<u8> }

impl Out {
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.out).into_owned() }
    pub fn err_text(&self) -> String { String::from_utf8_lossy(&self.err).into_owned() }
}

#[derive(Clone, Debug)]
pub enum Fail {
    /// The property is violated.
    Bad(String),
    /// No verdict (harness trouble, wall-clock timeout, checker out of fuel).
    Unsure(String),
}
pub fn bad<T, S: Into<String>>(s: S) -> Result<T, Fail> { Err(Fail::Bad(s.into())) }

pub struct Paths {
    pub plain: String, pub batch: Option<String>, pub api: Option<String>, pub release: Option<String>,
    /// Builds with fewer features, by their names.
    pub reduced: Vec<(String, String)>,
    /// A library that the program can be started with (see shim/shim.c).
    pub shim: Option<String>,
    /// Builds with fewer features that the compiler refuses, and what it says.
    pub unbuilt: Vec<(String, String)>,
    /// The documentation of the tree under test.
    pub readme: String,
    /// A build with AddressSanitizer, one with MemorySanitizer, one for Miri, and what runs the latter.
    pub asan: Option<String>, pub msan: Option<String>, pub miri: Option<String>, pub runner: String,
    /// Builds for other platforms, interpreted by Miri.
    pub platforms: Vec<Platform>,
}

pub struct Platform { pub name: String, pub path: String, pub sysroot: String, pub api: bool }

pub fn limits(fsize: Option<u64>, address_space: u64, cpu: u64) -> impl FnMut() -> std::io::Result<()> + Send + Sync + 'static {
    move || {
        unsafe {
            let set = |what, v| { let l = RLimit { cur: v, max: v }; setrlimit(what, &l); };
            set(RLIMIT_CORE, 0);
            set(RLIMIT_AS, address_space);
            if cpu > 0 { let l = RLimit { cur: cpu, max: cpu + 1 }; setrlimit(RLIMIT_CPU, &l); }
            if let Some(n) = fsize {
                signal(SIGXFSZ, SIG_IGN);
                set(RLIMIT_FSIZE, n);
            }
        }
        Ok(())
    }
}

/// Waits until one of the descriptors is readable (or at its end). Returns which, or none on timeout.
fn wait_readable(fds: &[RawFd], timeout_ms: i32) -> Vec<RawFd> {
    let mut p: Vec<PollFd> = fds.iter().map(|fd| PollFd { fd: *fd, events: 1, revents: 0 }).collect();
    let n = unsafe { poll(p.as_mut_ptr(), p.len() as u64, timeout_ms) };
    if n <= 0 { return Vec::new(); }
    p.iter().filter(|x| x.revents != 0).map(|x| x.fd).collect()
}

fn read_some(fd: RawFd, into: &mut Vec<u8>) -> usize {
    let mut buf = [0u8; 65536];
    let n = unsafe { read(fd, buf.as_mut_ptr().cast(), buf.len()) };
    if n <= 0 { return 0; }
    into.extend_from_slice(&buf[..n as usize]);
    n as usize
}

/// How to start the program for a single execution.
pub struct Spawn<'a> {
    pub path: &'a str,
    pub args: Vec<OsString>,
    pub env: Vec<(String, OsString)>,
    pub cwd: Option<&'a str>,
    pub fsize: Option<u64>,
    pub stdout: Option<File>,
    /// Where to read what the program writes to `stdout` (the other side of a terminal).
    pub reader: Option<File>,
    pub stdin: Option<File>,
    /// Standard error is not observed if it goes somewhere else.
    pub stderr: Option<File>,
    pub arg0: Option<OsString>,
    pub umask: Option<u32>,
    pub nofile: Option<u64>,
    pub address_space: u64,
    pub cpu: u64,
    /// Stop after this many bytes of standard output.
    pub stop_after: usize,
    /// Records the resident memory of the program (in KiB) after each further MiB of standard output.
    pub resident: Option<std::sync::Arc<std::sync::Mutex<Vec<u64>>>>,
    /// How often to stop and continue the program while it waits for a full pipe.
    pub stops: u32,
}

/// Resident memory of a process that this program started, in KiB.
fn resident_kib(pid: u32) -> Option<u64> {
    let t = std::fs::read_to_string(format!("/proc/{}/statm", pid)).ok()?;
    Some(t.split(' ').nth(1)?.parse::<u64>().ok()? * 4)
}

impl<'a> Spawn<'a> {
    pub fn new(path: &'a str, args: &[String]) -> Spawn<'a> {
        Spawn {
            path, args: args.iter().map(|a| a.into()).collect(), env: Vec::new(), cwd: None, fsize: None,
            stdout: None, reader: None, stdin: None, stderr: None, arg0: None, umask: None, nofile: None, address_space: AS_LIMIT, cpu: CPU_LIMIT_S, stop_after: OUTPUT_LIMIT, resident: None, stops: 0,
        }
    }

    /// Starts the program with the library, if there is one.
    pub fn with_shim(&mut self, shim: &Option<String>, vars: &[(&str, String)]) -> bool {
        let lib = match shim { Some(l) => l, None => return false };
        self.env.push(("LD_PRELOAD".to_owned(), lib.into()));
        for (k, v) in vars { self.env.push((k.to_string(), v.into())); }
        true
    }

    pub fn run(self) -> Result<Out, Fail> {
        let mut cmd = Command::new(self.path);
        cmd.args(&self.args).env_clear();
        match self.stdin { Some(f) => { cmd.stdin(f); }, None => { cmd.stdin(Stdio::null()); } }
        match self.stderr { Some(f) => { cmd.stderr(f); }, None => { cmd.stderr(Stdio::piped()); } }
        if let Some(a) = &self.arg0 { cmd.arg0(a); }
        let (mask, files) = (self.umask, self.nofile);
        unsafe { cmd.pre_exec(move || {
            if let Some(m) = mask { umask(m); }
            if let Some(n) = files { let l = RLimit { cur: n, max: n }; setrlimit(RLIMIT_NOFILE, &l); }
            Ok(())
        }); }
        for (k, v) in &self.env { cmd.env(k, v); }
        if let Some(d) = self.cwd { cmd.current_dir(d); }
        match self.stdout { Some(f) => { cmd.stdout(f); }, None => { cmd.stdout(Stdio::piped()); } }
        unsafe { cmd.pre_exec(limits(self.fsize, self.address_space, self.cpu)); }
        let mut child = cmd.spawn().map_err(|e| Fail::Unsure(format!("cannot start {}: {}", self.path, e)))?;
        drop(cmd);
        let start = Instant::now();
        let mut out = Vec::new();
        let mut err = Vec::new();
        let mut o: Option<File> = match self.reader { Some(f) => Some(f), None => child.stdout.take().map(|p| File::from(OwnedFd::from(p))) };
        let mut e: Option<File> = child.stderr.take().map(|p| File::from(OwnedFd::from(p)));
        let mut stopped = false;
        if let (true, Some(p)) = (self.stops > 0, &o) {
            unsafe { fcntl(p.as_raw_fd(), F_SETPIPE_SZ, 4096); }
            for k in 0..self.stops {
                std::thread::sleep(Duration::from_millis(if k == 0 { 10 } else { 2 }));
                // (the child is not waited for before all of its output is there, so the number is still its own)
                unsafe { kill(child.id() as i32, SIGSTOP); }
                std::thread::sleep(Duration::from_micros(500));
                unsafe { kill(child.id() as i32, SIGCONT); }
                if read_some(p.as_raw_fd(), &mut out) == 0 { break; }
            }
        }
        while o.is_some() || e.is_some() {
            let ofd = o.as_ref().map(|x| x.as_raw_fd());
            let efd = e.as_ref().map(|x| x.as_raw_fd());
            let fds: Vec<RawFd> = ofd.iter().chain(efd.iter()).copied().collect();
            let ready = wait_readable(&fds, 1000);
            if start.elapsed() > Duration::from_secs(240) {
                let _ = child.kill();
                let _ = child.wait();
                return Err(Fail::Unsure("wall-clock watchdog".to_owned()));
            }
            for fd in ready {
                if Some(fd) == ofd {
                    let before = out.len() >> 20;
                    if read_some(fd, &mut out) == 0 { o = None; }
                    if let (Some(m), true) = (&self.resident, out.len() >> 20 > before) {
                        if let Some(k) = resident_kib(child.id()) { m.lock().unwrap().push(k); }
                    }
                    if out.len() > self.stop_after { stopped = true; o = None; let _ = child.kill(); }
                } else if read_some(fd, &mut err) == 0 { e = None; }
            }
        }
        let st = child.wait().map_err(|e| Fail::Unsure(e.to_string()))?;
        let code = match (st.code(), st.signal()) {
            _ if stopped => Code::OutputLimit,
            (Some(c), _) => Code::Exit(c),
            (_, Some(24)) => Code::CpuLimit, // SIGXCPU
            (_, Some(9)) => return Err(Fail::Unsure("killed from outside".to_owned())),
            (_, s) => Code::Signal(s.unwrap_or(-1)),
        };
        Ok(Out { code, out, err })
    }
}

/// A process of the hooked binary that serves many command lines.
struct Server { child: Child, patience: u64 }

enum Served { Done(Out), Broken }

/// A build that is observed while it runs.
#[derive(Clone, Copy, PartialEq)]
pub enum Observer { Asan, Msan, Miri, Platform(usize) }

impl Observer {
    fn env(self, paths: &Paths) -> Vec<(String, OsString)> {
        let mut v: Vec<(String, OsString)> = Vec::new();
        let mut put = |k: &str, x: OsString| v.push((k.to_owned(), x));
        match self {
            Observer::Asan => put("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:symbolize=0:hard_rss_limit_mb=3000".into()),
            Observer::Msan => put("MSAN_OPTIONS", "abort_on_error=0:exitcode=98:allocator_may_return_null=0:symbolize=0:hard_rss_limit_mb=3000".into()),
            Observer::Miri => {
                for k in ["PATH", "HOME", "RUSTUP_HOME", "CARGO_HOME"] { if let Some(x) = std::env::var_os(k) { put(k, x); } }
                let home = std::env::var_os("HOME").unwrap_or("/root".into());
                let mut sysroot = std::env::var_os("XDG_CACHE_HOME").unwrap_or_else(|| { let mut h = home; h.push("/.cache"); h });
                sysroot.push("/miri");
                put("MIRI_SYSROOT", sysroot);
                put("MIRIFLAGS", "-Zmiri-disable-isolation".into());
            },
            Observer::Platform(k) => {
                for k in ["PATH", "HOME", "RUSTUP_HOME", "CARGO_HOME"] { if let Some(x) = std::env::var_os(k) { put(k, x); } }
                put("MIRI_SYSROOT", paths.platforms[k].sysroot.as_str().into());
                // undefined behaviour is looked for elsewhere (P37)
                put("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-data-race-detector -Zmiri-disable-weak-memory-emulation".into());
            },
        }
        v
    }
}

impl Server {
    fn start_observed(o: Observer, paths: &Paths, color: bool) -> Option<Server> {
        let mut cmd = match o {
            Observer::Asan => Command::new(paths.asan.as_ref()?),
            Observer::Msan => Command::new(paths.msan.as_ref()?),
            Observer::Miri => { let mut c = Command::new(&paths.runner); c.arg("runner").arg(paths.miri.as_ref()?); c },
            Observer::Platform(k) => { let mut c = Command::new(&paths.runner); c.arg("runner").arg(&paths.platforms.get(k)?.path); c },
        };
        cmd.env_clear().envs(o.env(paths)).env("RIPCALC_VERIF_SERVE", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        if color { cmd.env("CLICOLOR_FORCE", "1"); }
        cmd.spawn().ok().map(|child| Server { child, patience: if matches!(o, Observer::Miri | Observer::Platform(_)) { 120 } else { 30 } })
    }

    fn start(path: &str, color: bool) -> Option<Server> {
        let mut cmd = Command::new(path);
        cmd.env_clear().env("RIPCALC_VERIF_SERVE", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        if color { cmd.env("CLICOLOR_FORCE", "1"); }
        unsafe { cmd.pre_exec(limits(None, AS_LIMIT, 0)); }
        cmd.spawn().ok().map(|child| Server { child, patience: 15 })
    }

    fn serve(&mut self, args: &[String]) -> Served {
        let mut req = Vec::with_capacity(64);
        let mut put = |b: &[u8]| { req.extend_from_slice(&(b.len() as u32).to_le_bytes()); req.extend_from_slice(b); };
        put(b"ripcalc");
        for a in args { put(a.as_bytes()); }
        let mut msg = ((args.len() + 1) as u32).to_le_bytes().to_vec();
        msg.extend_from_slice(&req);
        if self.child.stdin.as_mut().unwrap().write_all(&msg).is_err() { return Served::Broken; }

        let ofd = self.child.stdout.as_ref().unwrap().as_raw_fd();
        let efd = self.child.stderr.as_ref().unwrap().as_raw_fd();
        let (mut out, mut err) = (Vec::new(), Vec::new());
        let (mut oc, mut ec): (Option<i32>, Option<i32>) = (None, None);
        let start = Instant::now();
        while oc.is_none() || ec.is_none() {
            let mut fds = Vec::with_capacity(2);
            if oc.is_none() { fds.push(ofd); }
            if ec.is_none() { fds.push(efd); }
            let ready = wait_readable(&fds, 1000);
            if start.elapsed() > Duration::from_secs(self.patience) || out.len() > OUTPUT_LIMIT { return Served::Broken; }
            for fd in ready {
                let (buf, code) = if fd == ofd { (&mut out, &mut oc) } else { (&mut err, &mut ec) };
                if read_some(fd, buf) == 0 { return Served::Broken; }
                *code = marker(buf);
            }
        }
        if oc != ec { return Served::Broken; }
        Served::Done(Out { code: Code::Exit(oc.unwrap()), out, err })
    }
}

impl Server {
    /// Processor time used so far, in hundredths of a second.
    fn ticks(&self) -> Option<u64> {
        let stat = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).ok()?;
        Some(stat.rsplit(')').next()?.split_whitespace().skip(11).take(2).filter_map(|n| n.parse::<u64>().ok()).sum())
    }

    /// Whether a server that does not answer has crashed, or keeps computing.
    fn fault(&mut self) -> Option<String> {
        let since = Instant::now();
        while since.elapsed() < Duration::from_secs(2) {
            match self.child.try_wait() {
                Ok(Some(st)) => return st.signal().filter(|n| [4, 6, 7, 8, 11].contains(n)).map(|n| format!("killed by signal {}", n)),
                Ok(None) => std::thread::sleep(Duration::from_millis(20)),
                Err(_) => return None,
            }
        }
        let (first, start) = (self.ticks()?, Instant::now());
        while start.elapsed() < Duration::from_secs(60) {
            std::thread::sleep(Duration::from_millis(200));
            if self.ticks()? > first + 500 { return Some("keeps computing".to_owned()); }
        }
        None
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Recognizes and removes the end marker.
fn marker(buf: &mut Vec<u8>) -> Option<i32> {
    if buf.last() != Some(&b'\n') { return None; }
    let from = buf.len().saturating_sub(16);
    let nul = from + buf[from..].iter().rposition(|b| *b == 0)?;
    let code = std::str::from_utf8(&buf[nul + 1..buf.len() - 1]).ok()?.parse().ok()?;
    buf.truncate(nul);
    Some(code)
}

pub struct Exec<'p> {
    pub paths: &'p Paths,
    /// Whether to use serving processes; otherwise each execution is a fresh process of the plain binary.
    pub batch: bool,
    servers: [Option<Server>; 3],
    observed: Vec<Option<Server>>,
    /// The platform whose build performs the calls through the API hook.
    pub platform: Option<usize>,
    /// CPU seconds that a fresh process may use.
    pub cpu: u64,
    pub runs_plain: u64,
    pub runs_batch: u64,
    pub broken: u64,
    pub log: Option<Vec<(Vec<String>, bool, Option<Out>)>>,
}

impl<'p> Exec<'p> {
    pub fn new(paths: &'p Paths, batch: bool) -> Exec<'p> {
        Exec { paths, batch: batch && paths.batch.is_some(), servers: [None, None, None], observed: (0..6 + 2 * paths.platforms.len()).map(|_| None).collect(), platform: None, cpu: CPU_LIMIT_S, runs_plain: 0, runs_batch: 0, broken: 0, log: None }
    }

    fn run_inner(&mut self, args: &[String], color: bool) -> Result<Out, Fail> {
        if self.batch && args.iter().map(|a| a.len()).sum::<usize>() < 1_000_000 {
            let slot = color as usize;
            if self.servers[slot].is_none() { self.servers[slot] = Server::start(self.paths.batch.as_ref().unwrap(), color); }
            if let Some(s) = self.servers[slot].as_mut() {
                match s.serve(args) {
                    Served::Done(o) => { self.runs_batch += 1; return Ok(o); },
                    Served::Broken => { self.servers[slot] = None; self.broken += 1; },
                }
            }
        }
        self.runs_plain += 1;
        let mut s = Spawn::new(&self.paths.plain, args);
        s.cpu = self.cpu;
        if color { s.env.push(("CLICOLOR_FORCE".to_owned(), "1".into())); }
        s.run()
    }

    pub fn run(&mut self, args: &[String], color: bool) -> Result<Out, Fail> {
        if let Some(l) = self.log.as_mut() { l.push((args.to_vec(), color, None)); }
        let r = self.run_inner(args, color);
        if let (Some(l), Ok(o)) = (self.log.as_mut(), &r) { l.last_mut().unwrap().2 = Some(o.clone()); }
        r
    }

    /// Runs a command line in a build that is observed. `None` if there is none.
    pub fn run_observed(&mut self, args: &[String], color: bool, by: Observer) -> Result<Option<Out>, Fail> {
        let slot = match by { Observer::Asan => color as usize, Observer::Miri => 2 + color as usize, Observer::Msan => 4 + color as usize, Observer::Platform(k) => 6 + 2 * k + color as usize };
        if match by { Observer::Asan => self.paths.asan.is_none(), Observer::Msan => self.paths.msan.is_none(), Observer::Miri => self.paths.miri.is_none(), Observer::Platform(k) => k >= self.paths.platforms.len() } { return Ok(None); }
        if self.batch {
            if self.observed[slot].is_none() { self.observed[slot] = Server::start_observed(by, self.paths, color); }
            if let Some(s) = self.observed[slot].as_mut() {
                match s.serve(args) {
                    Served::Done(o) => { self.runs_batch += 1; return Ok(Some(o)); },
                    Served::Broken => { self.observed[slot] = None; self.broken += 1; },
                }
            }
        }
        // what the observer has to say is in the output of a fresh process
        self.runs_plain += 1;
        let none = String::new();
        let mut s = Spawn::new(match by { Observer::Asan => self.paths.asan.as_ref().unwrap_or(&none), Observer::Msan => self.paths.msan.as_ref().unwrap_or(&none), Observer::Miri | Observer::Platform(_) => &self.paths.runner }, args);
        if let Some(program) = match by { Observer::Miri => self.paths.miri.as_ref(), Observer::Platform(k) => Some(&self.paths.platforms[k].path), _ => None } {
            let mut a: Vec<OsString> = vec!["runner".into(), program.into()];
            a.append(&mut s.args);
            s.args = a;
        }
        s.env = by.env(self.paths);
        if color { s.env.push(("CLICOLOR_FORCE".to_owned(), "1".into())); }
        s.address_space = u64::MAX;
        s.cpu = 200;
        s.run().map(Some)
    }

    /// Performs calls through the API hook; the result has one line per call. `None` if unavailable.
    pub fn api(&mut self, calls: &[String]) -> Result<Option<Vec<String>>, Fail> {
        if let Some(k) = self.platform {
            if !self.paths.platforms.get(k).map_or(false, |p| p.api) { return Ok(None); }
            let slot = 6 + 2 * k;
            if self.observed[slot].is_none() { self.observed[slot] = Server::start_observed(Observer::Platform(k), self.paths, false); }
            let mut args = vec!["@api".to_owned()];
            args.extend_from_slice(calls);
            if let Some(s) = self.observed[slot].as_mut() {
                if let Served::Done(o) = s.serve(&args) {
                    self.runs_batch += 1;
                    let lines: Vec<String> = o.text().lines().map(|l| l.to_owned()).collect();
                    if let Some(l) = self.log.as_mut() { l.push((args, false, Some(o))); }
                    return Ok(Some(lines));
                }
            }
            self.observed[slot] = None;
            self.broken += 1;
            return Err(Fail::Unsure("the interpreted API server does not answer".to_owned()));
        }
        let path = match self.paths.api.as_ref() { Some(p) => p, None => return Ok(None) };
        let mut ends = Vec::new();
        for _ in 0..2 {
            if self.servers[2].is_none() { self.servers[2] = Server::start(path, false); }
            let mut args = vec!["@api".to_owned()];
            args.extend_from_slice(calls);
            if let Some(s) = self.servers[2].as_mut() {
                match s.serve(&args) {
                    Served::Done(o) => {
                        self.runs_batch += 1;
                        let lines: Vec<String> = o.text().lines().map(|l| l.to_owned()).collect();
                        if let Some(l) = self.log.as_mut() { l.push((args, false, Some(o))); }
                        return Ok(Some(lines));
                    },
                    Served::Broken => {
                        ends.extend(s.fault());
                        self.servers[2] = None;
                        self.broken += 1;
                    },
                }
            }
        }
        if ends.len() == 2 { return bad(format!("the calls do not come back: {}\n{}", ends[1], calls.join(" "))); }
        Err(Fail::Unsure("the API server does not answer".to_owned()))
    }
}

/// The names of environment variables that the program was seen to look up.
static LOOKED_UP: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

/// Adds the names in a record of look-ups.
pub fn learn_lookups(record: &str) {
    let mut l = LOOKED_UP.lock().unwrap();
    for n in String::from_utf8_lossy(&read_file(record)).lines() {
        if !n.is_empty() && !n.contains('=') && l.len() < 200 && !l.iter().any(|x| x == n) { l.push(n.to_owned()); }
    }
    let _ = std::fs::remove_file(record);
}
pub fn lookups() -> Vec<String> { LOOKED_UP.lock().unwrap().clone() }

pub fn read_file(p: &str) -> Vec<u8> {
    let mut v = Vec::new();
    if let Ok(mut f) = File::open(p) { let _ = f.read_to_end(&mut v); }
    v
}
