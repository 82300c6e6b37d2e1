//! Small helpers: random numbers, JSON, child processes, threads.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability p percent
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts {
        for b in p.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x0000_0100_0000_01B3);
        }
        h ^= h >> 29;
    }
    h
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Debug, Clone)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timed_out: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0) && !self.timed_out
    }
    pub fn out_text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err_text(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    pub fn describe(&self) -> String {
        if self.timed_out {
            "killed after its time limit".to_string()
        } else if let Some(s) = self.signal {
            format!("ended by signal {}", s)
        } else {
            format!("exit status {:?}", self.code)
        }
    }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn setpgid(pid: i32, pgid: i32) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// Processor time of the thread a clock belongs to.
pub fn thread_clock() -> i32 {
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    }
    let mut c = 0;
    unsafe {
        pthread_getcpuclockid(pthread_self(), &mut c);
    }
    c
}

pub fn clock_time(c: i32) -> Option<Duration> {
    extern "C" {
        fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    if unsafe { clock_gettime(c, &mut t) } != 0 {
        return None;
    }
    Some(Duration::new(t[0] as u64, t[1] as u32))
}

pub const RLIMIT_CPU: i32 = 0;
pub const RLIMIT_FSIZE: i32 = 1;
pub const RLIMIT_CORE: i32 = 4;
pub const RLIMIT_AS: i32 = 9;

pub fn set_limit(resource: i32, value: u64) {
    unsafe {
        setrlimit(resource, &[value, value]);
    }
}

pub struct Run<'a> {
    pub cmd: Command,
    pub stdin: Option<&'a [u8]>,
    pub timeout: Duration,
    pub mem_limit: Option<u64>,
    pub fsize_limit: Option<u64>,
    /// the limit is one of wall time, and processor time is not limited
    pub wall: bool,
}

impl<'a> Run<'a> {
    pub fn new(program: impl AsRef<std::ffi::OsStr>) -> Self {
        Run {
            cmd: Command::new(program),
            stdin: None,
            timeout: Duration::from_secs(120),
            mem_limit: None,
            fsize_limit: None,
            wall: false,
        }
    }
    pub fn arg(mut self, a: impl AsRef<std::ffi::OsStr>) -> Self {
        self.cmd.arg(a);
        self
    }
    pub fn args<I, S>(mut self, a: I) -> Self
    where
        I: IntoIterator<Item = S>,
        S: AsRef<std::ffi::OsStr>,
    {
        self.cmd.args(a);
        self
    }
    pub fn env(mut self, k: &str, v: &str) -> Self {
        self.cmd.env(k, v);
        self
    }
    pub fn dir(mut self, d: &Path) -> Self {
        self.cmd.current_dir(d);
        self
    }
    pub fn stdin(mut self, b: &'a [u8]) -> Self {
        self.stdin = Some(b);
        self
    }
    pub fn timeout(mut self, secs: u64) -> Self {
        self.timeout = Duration::from_secs(secs);
        self
    }
    pub fn wall(mut self) -> Self {
        self.wall = true;
        self
    }
    pub fn mem(mut self, bytes: u64) -> Self {
        self.mem_limit = Some(bytes);
        self
    }
    pub fn fsize(mut self, bytes: u64) -> Self {
        self.fsize_limit = Some(bytes);
        self
    }
    pub fn run(mut self) -> std::io::Result<Out> {
        let mem = self.mem_limit;
        let fsz = self.fsize_limit;
        // the limit is one of processor time, so that a busy machine makes nothing look endless
        let cpu = if self.wall { None } else { Some(self.timeout.as_secs().max(1)) };
        unsafe {
            self.cmd.pre_exec(move || {
                setpgid(0, 0);
                prctl(1, 9, 0, 0, 0); // die with the parent
                set_limit(RLIMIT_CORE, 0);
                if let Some(c) = cpu {
                    set_limit(RLIMIT_CPU, c);
                }
                if let Some(m) = mem {
                    set_limit(RLIMIT_AS, m);
                }
                if let Some(f) = fsz {
                    signal(25, 1); // SIGXFSZ ignored: write returns EFBIG
                    set_limit(RLIMIT_FSIZE, f);
                }
                Ok(())
            });
        }
        self.cmd.stdin(if self.stdin.is_some() { Stdio::piped() } else { Stdio::null() });
        self.cmd.stdout(Stdio::piped());
        self.cmd.stderr(Stdio::piped());
        let mut child = self.cmd.spawn()?;
        let pid = child.id() as i32;
        let mut so = child.stdout.take().unwrap();
        let mut se = child.stderr.take().unwrap();
        let si = child.stdin.take();
        let timeout = self.timeout;
        let stdin = self.stdin;
        std::thread::scope(|s| {
            let ho = s.spawn(move || {
                let mut v = Vec::new();
                let _ = so.read_to_end(&mut v);
                v
            });
            let he = s.spawn(move || {
                let mut v = Vec::new();
                let mut buf = [0u8; 8192];
                while let Ok(n) = se.read(&mut buf) {
                    if n == 0 {
                        break;
                    }
                    if v.len() < 1 << 20 {
                        v.extend_from_slice(&buf[..n]);
                    }
                }
                v
            });
            if let (Some(mut w), Some(data)) = (si, stdin) {
                s.spawn(move || {
                    let _ = w.write_all(data);
                });
            }
            let start = Instant::now();
            let wall = if cpu.is_none() { timeout } else { timeout.max((timeout * 4).min(Duration::from_secs(500))) };
            let mut timed_out = false;
            let mut nap = 1;
            let status = loop {
                if let Some(st) = child.try_wait()? {
                    break st;
                }
                if start.elapsed() > wall {
                    timed_out = true;
                    unsafe {
                        kill(-pid, 9);
                    }
                    let _ = child.kill();
                    break child.wait()?;
                }
                std::thread::sleep(Duration::from_millis(nap));
                nap = (nap * 2).min(20);
            };
            unsafe {
                kill(-pid, 9); // whatever it left running
            }
            let stdout = ho.join().unwrap_or_default();
            let stderr = he.join().unwrap_or_default();
            // ended by the processor time limit: SIGKILL, since both limits are the same
            if status.signal() == Some(24) || (status.signal() == Some(9) && start.elapsed() >= timeout && mem.is_none()) {
                timed_out = true;
            }
            Ok(Out { code: status.code(), signal: status.signal(), timed_out, stdout, stderr })
        })
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

/// Run `f` for 0..n on all cores; results in index order.
pub fn par_map<R: Send, F: Fn(usize) -> R + Sync>(n: usize, f: F) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Vec<std::sync::Mutex<Option<R>>> = (0..n).map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..threads().min(n.max(1)) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    let r = f(i);
                    *out[i].lock().unwrap() = Some(r);
                })
                .unwrap();
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}

/// Every file below `dir` with its contents (symbolic links are not followed).
pub fn read_tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(base: &Path, dir: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        if let Ok(rd) = std::fs::read_dir(dir) {
            for e in rd.flatten() {
                let p = e.path();
                let ft = match e.file_type() {
                    Ok(t) => t,
                    Err(_) => continue,
                };
                let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
                if ft.is_dir() {
                    out.insert(format!("{}/", rel), Vec::new());
                    walk(base, &p, out);
                } else if ft.is_symlink() {
                    out.insert(rel, b"<symlink>".to_vec());
                } else {
                    out.insert(rel, std::fs::read(&p).unwrap_or_default());
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(dir, dir, &mut m);
    m
}

pub fn strip_ansi(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}
