//! Two operations at once: one of them is stopped after its n-th machine instruction, the other one then runs on
//! another thread, and the first goes on when that is done (or waits for a lock which the first one holds).
//! The thread single-steps itself with the trap flag (x86-64); elsewhere the operations run one after the other.
use crate::{panic_message, Ctx, CUT_LOG, J};
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst};

static INSTRS: AtomicI64 = AtomicI64::new(0);
static LOCKED: AtomicI64 = AtomicI64::new(0);
static TARGET: AtomicI64 = AtomicI64::new(0);
static AFTER: AtomicBool = AtomicBool::new(false);
static GO: AtomicU32 = AtomicU32::new(0);
static DONE: AtomicBool = AtomicBool::new(false);
static BLOCKED: AtomicBool = AtomicBool::new(false);
static TID: AtomicU32 = AtomicU32::new(0);
static CUTS: AtomicU64 = AtomicU64::new(0);
static MET: AtomicU64 = AtomicU64::new(0);

/// Where the first operation is stopped.
#[derive(Clone, Copy, Debug)]
pub enum At {
    /// after this many instructions
    Instr(i64),
    /// before (false) or after (true) its n-th read-modify-write of memory that other processors see as one
    Locked(i64, bool),
}
impl At {
    /// one number: positive for instructions, negative for the others
    pub fn of(n: i64) -> At {
        if n >= 0 { At::Instr(n) } else { At::Locked((1 - n) / 2, n % 2 == 0) }
    }
}
/// The longest first operation so far: instructions and locked instructions.
static LONGEST: AtomicI64 = AtomicI64::new(0);
static MOST_LOCKED: AtomicI64 = AtomicI64::new(0);
/// A place to stop: often at one of the locked instructions.
pub fn pick(r: &mut crate::Rng) -> i64 {
    let (n, k) = (LONGEST.load(SeqCst).max(300), MOST_LOCKED.load(SeqCst));
    if k > 0 && r.chance(1, 3) {
        -r.range(1, 2 * k)
    } else {
        // short operations, too
        let n = if r.chance(1, 2) { n } else { r.range(100, n) };
        r.range(1, n + n / 20)
    }
}
/// How many operations were stopped, and in how many of these the other one had to wait.
pub fn counts() -> (u64, u64) {
    (CUTS.load(SeqCst), MET.load(SeqCst))
}

/// The concurrent part of an operation, which gives back the rest of it.
pub type Rest<S> = Box<dyn FnOnce(&mut S) -> J + Send>;
pub type Part<S> = Box<dyn FnOnce() -> Rest<S> + Send>;

/// Runs two operations, the first one stopped at `n`; gives back what they returned and what the second one logged
/// (the first one's is in the context).
pub fn both<S>(s: &mut S, ctx: &Ctx, n: i64, a: Part<S>, b: Part<S>) -> (J, J, Vec<J>) {
    let safe = |p: Part<S>| -> Rest<S> {
        match catch_unwind(AssertUnwindSafe(p)) {
            Ok(r) => r,
            Err(_) => {
                let m = panic_message();
                if m.contains("harness:") {
                    eprintln!("HARNESS-ERROR {}", m);
                    std::process::exit(2);
                }
                Box::new(move |_| json!(["PANIC", m]))
            }
        }
    };
    let (ra, (rb, logb)) = threads(
        At::of(n),
        || safe(a),
        || {
            CUT_LOG.with(|l| *l.borrow_mut() = Some(vec![]));
            let r = safe(b);
            (r, CUT_LOG.with(|l| l.borrow_mut().take()).unwrap())
        },
    );
    let ra = ra(s);
    let loga = ctx.take_log();
    for e in logb {
        ctx.log(e);
    }
    let rb = rb(s);
    let logb = ctx.take_log();
    for e in loga {
        ctx.log(e);
    }
    (ra, rb, logb)
}

fn threads<A, B: Send>(at: At, a: impl FnOnce() -> A, b: impl FnOnce() -> B + Send) -> (A, B) {
    GO.store(0, SeqCst);
    for x in [&DONE, &BLOCKED] {
        x.store(false, SeqCst);
    }
    TID.store(0, SeqCst);
    INSTRS.store(0, SeqCst);
    LOCKED.store(0, SeqCst);
    let (t, after) = match at {
        At::Instr(n) => (n, false),
        At::Locked(n, after) => (-n, after),
    };
    TARGET.store(t, SeqCst);
    AFTER.store(after, SeqCst);
    std::thread::scope(|sc| {
        let t = sc.spawn(move || {
            TID.store(sys::tid(), SeqCst);
            while GO.load(SeqCst) == 0 {
                sys::wait(&GO);
            }
            let r = b();
            DONE.store(true, SeqCst);
            r
        });
        while TID.load(SeqCst) == 0 {
            sys::yield_now();
        }
        sys::step(true);
        let ra = a();
        sys::step(false);
        LONGEST.fetch_max(INSTRS.load(SeqCst), SeqCst);
        MOST_LOCKED.fetch_max(LOCKED.load(SeqCst), SeqCst);
        if GO.swap(1, SeqCst) == 1 {
            CUTS.fetch_add(1, SeqCst);
        } else {
            sys::wake(&GO);
        }
        if BLOCKED.load(SeqCst) {
            MET.fetch_add(1, SeqCst);
        }
        (ra, t.join().expect("harness: cut"))
    })
}

/// The first operation stands still: the other one runs, until it ends or waits.
#[allow(dead_code)]
fn stop() {
    GO.store(1, SeqCst);
    sys::wake(&GO);
    let (mut n, mut asleep) = (0u64, 0);
    while !DONE.load(SeqCst) {
        n += 1;
        sys::yield_now();
        if n % 20 == 0 {
            asleep = if sys::asleep(TID.load(SeqCst)) { asleep + 1 } else { 0 };
            // (or it spins)
            if asleep >= 3 || n > 2_000_000 {
                BLOCKED.store(true, SeqCst);
                return;
            }
        }
    }
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod sys {
    use super::*;
    use std::sync::Once;

    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
        fn open(p: *const u8, flags: i32, ...) -> i32;
        fn read(fd: i32, b: *mut u8, n: usize) -> isize;
        fn close(fd: i32) -> i32;
        fn sched_yield() -> i32;
        fn gettid() -> i32;
        fn syscall(n: i64, ...) -> i64;
    }
    pub fn tid() -> u32 {
        unsafe { gettid() as u32 }
    }
    pub fn yield_now() {
        unsafe {
            sched_yield();
        }
    }
    /// sleep while it is 0
    pub fn wait(x: &AtomicU32) {
        unsafe {
            syscall(202, x, 0x80, 0, 0usize);
        }
    }
    pub fn wake(x: &AtomicU32) {
        unsafe {
            syscall(202, x, 0x81, 1);
        }
    }
    /// Does this thread of the process sleep?  (called in the signal handler: nothing may be allocated)
    pub fn asleep(tid: u32) -> bool {
        let mut p = [0u8; 64];
        let mut i = 0;
        let mut put = |s: &[u8]| {
            for c in s {
                p[i] = *c;
                i += 1;
            }
        };
        put(b"/proc/self/task/");
        let mut div = 1_000_000_000;
        while div > 1 && tid / div == 0 {
            div /= 10;
        }
        while div > 0 {
            put(&[b'0' + (tid / div % 10) as u8]);
            div /= 10;
        }
        put(b"/stat");
        let mut b = [0u8; 256];
        let k = unsafe {
            let fd = open(p.as_ptr(), 0);
            if fd < 0 {
                return false;
            }
            let k = read(fd, b.as_mut_ptr(), 256);
            close(fd);
            k
        };
        let mut j = 0;
        while j + 2 < k.max(0) as usize {
            if b[j] == b')' {
                return b[j + 2] == b'S';
            }
            j += 1;
        }
        false
    }
    /// Is the instruction at `p` a locked one?
    unsafe fn locked(p: *const u8) -> bool {
        let mut p = p;
        loop {
            match *p {
                0xf0 => return true,
                0x66 | 0xf2 | 0xf3 | 0x40..=0x4f => p = p.add(1),
                // xchg with memory
                0x86 | 0x87 => return *p.add(1) < 0xc0,
                _ => return false,
            }
        }
    }
    extern "C" fn on_trap(_: i32, _: *mut u8, u: *mut u8) {
        // the general registers of the ucontext: 16 is the instruction pointer, 17 the flags
        let reg = |i: usize| unsafe { u.add(40 + i * 8) as *mut u64 };
        let n = INSTRS.fetch_add(1, SeqCst) + 1;
        let t = TARGET.load(SeqCst);
        let k = LOCKED.load(SeqCst);
        let next = unsafe { locked(*reg(16) as *const u8) };
        if next {
            LOCKED.store(k + 1, SeqCst);
        }
        let hit = if t >= 0 {
            n == t
        } else if AFTER.load(SeqCst) {
            k == -t
        } else {
            next && k + 1 == -t
        };
        if hit {
            unsafe { *reg(17) &= !0x100 };
            stop();
        }
    }
    static SET: Once = Once::new();
    pub fn step(on: bool) {
        SET.call_once(|| {
            let act = SigAction { handler: on_trap as extern "C" fn(i32, *mut u8, *mut u8) as usize, mask: [0; 16], flags: 4, restorer: 0 };
            unsafe { sigaction(5, &act, std::ptr::null_mut()) };
        });
        unsafe {
            if on {
                std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            } else {
                std::arch::asm!("pushfq", "and qword ptr [rsp], ~0x100", "popfq");
            }
        }
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod sys {
    pub fn tid() -> u32 {
        1
    }
    pub fn yield_now() {
        std::thread::yield_now();
    }
    pub fn asleep(_: u32) -> bool {
        false
    }
    pub fn wait(_: &AtomicU32) {
        std::thread::yield_now();
    }
    pub fn wake(_: &AtomicU32) {}
    pub fn step(_: bool) {}
}
