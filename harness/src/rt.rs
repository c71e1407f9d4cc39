//! Runtime, logical time, deterministic randomness, scheduling perturbation and the
//! process-wide panic monitor.
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// splitmix64: every random choice of the harness comes from one of these, seeded from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn derive(seed: u64, a: u64, b: u64) -> Self {
        let mut r = Rng::new(seed);
        r.0 ^= a.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        r.next();
        r.0 ^= b.wrapping_mul(0x94D0_49BB_1331_11EB);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        (self.next() >> 11) as f64 / ((1u64 << 53) as f64) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub fn hash64(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

// ---------------------------------------------------------------- logical time

static TICKS: AtomicU64 = AtomicU64::new(0);
pub const TICK_MS: u64 = 10;

pub fn ticks() -> u64 {
    TICKS.load(Relaxed)
}

/// Waits for `secs` of logical time: 10 ms ticks of a task on this runtime, so that a
/// starved runtime stretches every deadline instead of making it fire.
pub async fn lsleep(secs: f64) {
    let n = (secs * 1000.0 / TICK_MS as f64).ceil() as u64;
    let end = ticks() + n;
    loop {
        let now = ticks();
        if now >= end {
            return;
        }
        let left = (end - now).min(100);
        tokio::time::sleep(Duration::from_millis(left * TICK_MS)).await;
    }
}

/// Polls the future a few times at least, then gives it up.
pub async fn brief<T>(f: impl std::future::Future<Output = T>, yields: u64) -> Option<T> {
    tokio::select! {
        biased;
        x = f => Some(x),
        _ = async {
            for _ in 0..yields {
                tokio::task::yield_now().await;
            }
        } => None,
    }
}

/// Runs `f` for at most `secs` of logical time.
pub async fn within<T>(secs: f64, f: impl Future<Output = T>) -> Option<T> {
    tokio::pin!(f);
    tokio::select! {
        biased;
        r = &mut f => Some(r),
        _ = lsleep(secs) => None,
    }
}

/// Polls `cond` until it holds or `secs` of logical time pass.
pub async fn wait_until(secs: f64, mut cond: impl FnMut() -> bool) -> bool {
    let end = ticks() + (secs * 1000.0 / TICK_MS as f64).ceil() as u64;
    loop {
        if cond() {
            return true;
        }
        if ticks() >= end {
            return cond();
        }
        tokio::time::sleep(Duration::from_millis(4)).await;
    }
}

static START: Mutex<Option<Instant>> = Mutex::new(None);
pub fn now_ms() -> f64 {
    let s = START.lock().unwrap().unwrap();
    s.elapsed().as_secs_f64() * 1000.0
}

// ---------------------------------------------------------------- scheduling perturbation

static CHAOS_P: AtomicU32 = AtomicU32::new(0); // per 65536 polls
static CHAOS_US: AtomicU32 = AtomicU32::new(0);
static CHAOS_SEED: AtomicU64 = AtomicU64::new(1);
pub static CHAOS_HITS: AtomicU64 = AtomicU64::new(0);
pub static POLLS: AtomicU64 = AtomicU64::new(0);

/// From now on each task poll is preceded, with probability `p`, by a pause of up to `max_us`.
pub fn set_chaos(p: f64, max_us: u32) {
    CHAOS_US.store(max_us, Relaxed);
    CHAOS_P.store((p * 65536.0) as u32, Relaxed);
}

fn chaos_point() {
    thread_local!(static R: std::cell::RefCell<Option<Rng>> = const { std::cell::RefCell::new(None) });
    POLLS.fetch_add(1, Relaxed);
    let p = CHAOS_P.load(Relaxed);
    if p == 0 {
        return;
    }
    let us = R.with(|r| {
        let mut r = r.borrow_mut();
        let r = r.get_or_insert_with(|| Rng::new(CHAOS_SEED.fetch_add(0x5851_F42D, Relaxed)));
        if (r.next() & 0xffff) < p as u64 {
            r.below(CHAOS_US.load(Relaxed) as u64 + 1)
        } else {
            0
        }
    });
    if us > 0 {
        CHAOS_HITS.fetch_add(1, Relaxed);
        std::thread::sleep(Duration::from_micros(us));
    }
}

/// Threads that keep taking the processors away, so that a task can be interrupted at any
/// instruction and not only between two polls; for as long as the guard lives.
pub struct Preempt(std::sync::Arc<AtomicBool>);
impl Preempt {
    pub fn new(threads: u64, seed: u64) -> Preempt {
        let on = std::sync::Arc::new(AtomicBool::new(true));
        for i in 0..threads {
            let on = on.clone();
            let mut r = Rng::derive(seed, 0x20b, i);
            std::thread::spawn(move || {
                while on.load(Relaxed) {
                    let t = Instant::now();
                    let us = r.range(20, 2000) as u128;
                    while t.elapsed().as_micros() < us {
                        std::hint::spin_loop();
                    }
                    std::thread::sleep(Duration::from_micros(r.range(20, 600)));
                }
            });
        }
        Preempt(on)
    }
}
impl Drop for Preempt {
    fn drop(&mut self) {
        self.0.store(false, Relaxed);
    }
}

pub fn runtime(workers: usize, seed: u64) -> tokio::runtime::Runtime {
    *START.lock().unwrap() = Some(Instant::now());
    CHAOS_SEED.store(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) | 1, Relaxed);
    let mut b = tokio::runtime::Builder::new_multi_thread();
    b.worker_threads(workers).enable_all().on_before_task_poll(|_| chaos_point());
    b.build().expect("runtime")
}

pub fn start_ticker() {
    tokio::spawn(async {
        loop {
            tokio::time::sleep(Duration::from_millis(TICK_MS)).await;
            TICKS.fetch_add(1, Relaxed);
        }
    });
}

// ---------------------------------------------------------------- panic monitor

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub library: bool,
    pub at: String,
    pub msg: String,
    pub trace: Vec<String>,
}
static PANICS: Mutex<Vec<PanicRec>> = Mutex::new(Vec::new());
static LIB_PANICS: AtomicU64 = AtomicU64::new(0);
pub static HARNESS_PANIC: AtomicBool = AtomicBool::new(false);

pub fn install_panic_monitor() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        // after many panics stop paying for backtraces
        let many = PANICS.lock().map(|p| p.len() > 40).unwrap_or(true);
        let (library, trace) = if at.contains("harness/src") || at.starts_with("src/") && !at.contains("repo") {
            (false, vec![])
        } else if many {
            (true, vec![])
        } else {
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            classify(&bt, &at)
        };
        if library {
            LIB_PANICS.fetch_add(1, SeqCst);
        } else {
            HARNESS_PANIC.store(true, SeqCst);
        }
        eprintln!("[panic] library={library} at {at}: {msg}");
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 200 {
                p.push(PanicRec { library, at, msg, trace });
            }
        }
    }));
}

/// The frame of ours (library or harness) nearest to the panic decides whose it is.
fn classify(bt: &str, at: &str) -> (bool, Vec<String>) {
    let mut frames = vec![];
    let mut verdict = None;
    let mut name = "";
    for l in bt.lines() {
        let t = l.trim();
        if let Some(path) = t.strip_prefix("at ") {
            let lib = path.contains("repo/src/");
            let ours = path.contains("harness/src/") || path.starts_with("./src/") || path.starts_with("src/");
            let hook = path.contains("src/rt.rs");
            if (lib || ours && !hook) && verdict.is_none() {
                verdict = Some(lib);
            }
            if lib || ours && !hook {
                frames.push(format!("{name} at {path}"));
            }
        } else if let Some((n, x)) = t.split_once(": ") {
            if n.parse::<u32>().is_ok() {
                name = x;
            }
        }
    }
    frames.truncate(12);
    (verdict.unwrap_or(at.contains("repo/src")), frames)
}

pub fn lib_panics() -> u64 {
    LIB_PANICS.load(SeqCst)
}
pub fn lib_panic_records() -> Vec<PanicRec> {
    PANICS.lock().unwrap().iter().filter(|p| p.library).cloned().collect()
}
pub fn harness_panics() -> Vec<PanicRec> {
    PANICS.lock().unwrap().iter().filter(|p| !p.library).cloned().collect()
}

static PHASES: Mutex<Option<std::collections::BTreeMap<&'static str, u64>>> = Mutex::new(None);
/// Counts how often a step was reached; unequal counts of the two sides of a call show a hang.
pub fn phase(name: &'static str) {
    *PHASES.lock().unwrap().get_or_insert_with(Default::default).entry(name).or_insert(0) += 1;
}
pub fn phases() -> Vec<(&'static str, u64)> {
    PHASES.lock().unwrap().iter().flatten().map(|(k, v)| (*k, *v)).collect()
}

// ---------------------------------------------------------------- the wall clock

static CLOCK_OFFSET_MS: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

/// Sets the wall clock of this process: real time plus `ms`.
pub fn set_clock_offset(ms: i64) {
    CLOCK_OFFSET_MS.store(ms, SeqCst);
}
pub fn clock_offset() -> i64 {
    CLOCK_OFFSET_MS.load(SeqCst)
}
/// How often the wall clock was read.
pub fn clock_reads() -> u64 {
    CLOCK_READS.load(Relaxed)
}

/// Takes the place of the C library's function in this process, so that the wall clock the
/// library under test reads can be stepped; the monotonic clocks are untouched.
///
/// # Safety
/// `ts` is valid for writing, as for the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int;
    if r == 0 && (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE) {
        CLOCK_READS.fetch_add(1, Relaxed);
        let off = CLOCK_OFFSET_MS.load(Relaxed);
        if off != 0 {
            let n = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128 + off as i128 * 1_000_000;
            (*ts).tv_sec = n.div_euclid(1_000_000_000) as libc::time_t;
            (*ts).tv_nsec = n.rem_euclid(1_000_000_000) as _;
        }
    }
    r
}

// ---------------------------------------------------------------- faults of the network calls

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    Send,
    Recv,
    Socket,
}
/// Which calls fail: those of sockets bound to `port` (any if 0) that go to `to` (any if 0).
#[derive(Clone, Debug)]
pub struct Fault {
    pub call: Call,
    pub port: u16,
    pub to: u16,
    pub p: f64,
    pub errno: i32,
}
static FAULTS: Mutex<Vec<(u64, Fault)>> = Mutex::new(vec![]);
static FAULTS_ON: AtomicBool = AtomicBool::new(false);
static FAULT_IDS: AtomicU64 = AtomicU64::new(1);
pub static FAULTS_HIT: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];

/// The fault is injected for as long as the guard lives.
pub struct Faulty(u64);
impl Faulty {
    pub fn new(f: Fault) -> Faulty {
        let id = FAULT_IDS.fetch_add(1, SeqCst);
        FAULTS.lock().unwrap().push((id, f));
        FAULTS_ON.store(true, SeqCst);
        Faulty(id)
    }
}
impl Drop for Faulty {
    fn drop(&mut self) {
        let mut v = FAULTS.lock().unwrap();
        v.retain(|x| x.0 != self.0);
        FAULTS_ON.store(!v.is_empty(), SeqCst);
    }
}

unsafe fn port_of(a: *const libc::sockaddr) -> u16 {
    match (*a).sa_family as i32 {
        libc::AF_INET => u16::from_be((*(a as *const libc::sockaddr_in)).sin_port),
        libc::AF_INET6 => u16::from_be((*(a as *const libc::sockaddr_in6)).sin6_port),
        _ => 0,
    }
}
unsafe fn local_port(fd: libc::c_int) -> u16 {
    let mut a: libc::sockaddr_storage = std::mem::zeroed();
    let mut n = std::mem::size_of_val(&a) as libc::socklen_t;
    if libc::getsockname(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut n) != 0 {
        return 0;
    }
    port_of(&a as *const _ as *const libc::sockaddr)
}
unsafe fn injected(call: Call, fd: libc::c_int, to: *const libc::sockaddr) -> bool {
    thread_local!(static R: std::cell::RefCell<Option<Rng>> = const { std::cell::RefCell::new(None) });
    let mut errno = 0;
    {
        let v = FAULTS.lock().unwrap();
        let mut port = None;
        for (_, f) in v.iter().filter(|x| x.1.call == call) {
            if call != Call::Socket && f.port != 0 && *port.get_or_insert_with(|| local_port(fd)) != f.port {
                continue;
            }
            if f.to != 0 && (to.is_null() || port_of(to) != f.to) {
                continue;
            }
            let x = R.with(|r| r.borrow_mut().get_or_insert_with(|| Rng::new(CHAOS_SEED.fetch_add(0x5851_F42D, Relaxed))).chance(f.p));
            if x {
                errno = f.errno;
                break;
            }
        }
    }
    if errno != 0 {
        FAULTS_HIT[call as usize].fetch_add(1, Relaxed);
        *libc::__errno_location() = errno;
    }
    errno != 0
}

/// Take the place of the C library's functions in this process, so that calls of chosen sockets
/// can be made to fail.
///
/// # Safety
/// As for the C functions.
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: libc::c_int, b: *const libc::c_void, n: libc::size_t, flags: libc::c_int, to: *const libc::sockaddr, len: libc::socklen_t) -> libc::ssize_t {
    if FAULTS_ON.load(Relaxed) && injected(Call::Send, fd, to) {
        return -1;
    }
    libc::syscall(libc::SYS_sendto, fd, b, n, flags, to, len) as libc::ssize_t
}
/// # Safety
/// As for the C function.
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: libc::c_int, b: *mut libc::c_void, n: libc::size_t, flags: libc::c_int, from: *mut libc::sockaddr, len: *mut libc::socklen_t) -> libc::ssize_t {
    if FAULTS_ON.load(Relaxed) && injected(Call::Recv, fd, std::ptr::null()) {
        return -1;
    }
    libc::syscall(libc::SYS_recvfrom, fd, b, n, flags, from, len) as libc::ssize_t
}
/// # Safety
/// As for the C function.
#[no_mangle]
pub unsafe extern "C" fn socket(domain: libc::c_int, ty: libc::c_int, proto: libc::c_int) -> libc::c_int {
    if FAULTS_ON.load(Relaxed) && domain != libc::AF_UNIX && injected(Call::Socket, -1, std::ptr::null()) {
        return -1;
    }
    libc::syscall(libc::SYS_socket, domain, ty, proto) as libc::c_int
}

// ---------------------------------------------------------------- the heap

struct Counting;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;
/// Bytes of the heap in use by this process.
pub fn heap() -> i64 {
    LIVE.load(Relaxed)
}
pub fn allocations() -> u64 {
    ALLOCS.load(Relaxed)
}
