//! Binding of the TLA+ specifications to the real tower code.
//!
//! * `mbt`   - walks the labelled transition system that TLC enumerated from a
//!             specification, executing every operation on the real code and
//!             comparing what is observed with what the specification predicts.
//! * `drive` - drives the real code with a random environment and records a
//!             trace that TLC validates against the specification.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

pub mod feed;
pub mod mid;
pub mod mock;

pub type J = Value;

// ------------------------------------------------------------------ rng
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> Option<&'a T> {
        if v.is_empty() { None } else { Some(&v[self.below(v.len() as u64) as usize]) }
    }
}

// ------------------------------------------------------------------ ops
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub op: String,
    pub a: Vec<J>,
}
impl Op {
    pub fn new(op: &str, a: Vec<J>) -> Op {
        Op { op: op.to_string(), a }
    }
    pub fn i(&self, k: usize) -> i64 {
        self.a[k].as_i64().unwrap_or_else(|| panic!("harness: arg {} of {:?} not an int", k, self))
    }
    pub fn u(&self, k: usize) -> usize {
        self.i(k) as usize
    }
    pub fn s(&self, k: usize) -> &str {
        self.a[k].as_str().unwrap_or_else(|| panic!("harness: arg {} of {:?} not a string", k, self))
    }
    pub fn key(&self) -> String {
        format!("{}{}", self.op, J::Array(self.a.clone()))
    }
}

pub fn op(name: &str, a: Vec<J>) -> Op {
    Op::new(name, a)
}

// ------------------------------------------------------------------ observation context
#[derive(Default)]
struct CtxInner {
    log: Vec<J>,
    flags: BTreeMap<String, Arc<Flag>>,
    /// the tasks polled or forgotten during this step
    polled: Vec<String>,
}
pub struct Flag {
    woken: AtomicBool,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        pause();
    }
}

// ------------------------------------------------------------------ two threads
pub mod cut;
/// What a thread that runs one operation in pieces needs to stop between them.
struct Pauses {
    at: std::sync::mpsc::Sender<u64>,
    go: std::sync::mpsc::Receiver<u64>,
    seq: u64,
    log: Vec<J>,
}
thread_local! {
    /// what this thread logs, if it is not to go to the context
    pub(crate) static CUT_LOG: RefCell<Option<Vec<J>>> = const { RefCell::new(None) };
    static PAUSES: RefCell<Option<Pauses>> = const { RefCell::new(None) };
}
/// A point at which other threads may act: inner services and wakers call it.  On a thread started by
/// `race` it waits for them, but not for long: they may need a lock which this thread holds.
pub fn pause() {
    if let Some(mut p) = PAUSES.with(|p| p.borrow_mut().take()) {
        p.seq += 1;
        if p.at.send(p.seq).is_ok() {
            let end = Instant::now() + Duration::from_millis(20);
            while let Ok(n) = p.go.recv_timeout(end.saturating_duration_since(Instant::now())) {
                if n == p.seq {
                    break;
                }
            }
        }
        PAUSES.with(|x| *x.borrow_mut() = Some(p));
    }
}
/// Runs `work` on another thread and `others` on this one whenever it pauses; gives back what `work`
/// returned or its panic message, and what its thread logged.
pub fn race<R: Send>(work: impl FnOnce() -> R + Send, mut others: impl FnMut()) -> (Result<R, String>, Vec<J>) {
    let (at, at_rx) = std::sync::mpsc::channel();
    let (go_tx, go) = std::sync::mpsc::channel();
    std::thread::scope(|sc| {
        let t = sc.spawn(move || {
            PAUSES.with(|p| *p.borrow_mut() = Some(Pauses { at, go, seq: 0, log: vec![] }));
            let r = catch_unwind(AssertUnwindSafe(work));
            let log = PAUSES.with(|p| p.borrow_mut().take()).map(|p| p.log).unwrap_or_default();
            (r.map_err(|_| PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_default()), log)
        });
        while let Ok(n) = at_rx.recv() {
            others();
            let _ = go_tx.send(n);
        }
        t.join().expect("harness: race")
    })
}
/// What the harness observes of one run: inner-service events and wake-ups.
#[derive(Clone, Default)]
pub struct Ctx(Arc<Mutex<CtxInner>>);
impl Ctx {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn log(&self, e: J) {
        let e = CUT_LOG.with(|l| match l.borrow_mut().as_mut() {
            Some(l) => {
                l.push(e);
                None
            }
            None => Some(e),
        });
        let Some(e) = e else { return };
        let e = PAUSES.with(|p| match p.borrow_mut().as_mut() {
            Some(p) => {
                p.log.push(e);
                None
            }
            None => Some(e),
        });
        if let Some(e) = e {
            self.0.lock().unwrap().log.push(e);
        }
    }
    pub fn take_log(&self) -> Vec<J> {
        std::mem::take(&mut self.0.lock().unwrap().log)
    }
    /// A waker for task `t`; its flag is cleared, as a task is when it is polled.
    pub fn waker(&self, t: &str) -> Waker {
        let f = Arc::new(Flag { woken: AtomicBool::new(false) });
        // Every poll gets a fresh waker, so a component that keeps an old waker loses the wake-up.
        let mut c = self.0.lock().unwrap();
        c.flags.insert(t.to_string(), f.clone());
        c.polled.push(t.to_string());
        drop(c);
        Waker::from(f)
    }
    pub fn poll<T>(&self, t: &str, f: impl FnOnce(&mut Context<'_>) -> T) -> T {
        let w = self.waker(t);
        let mut cx = Context::from_waker(&w);
        f(&mut cx)
    }
    pub fn take_polled(&self) -> Vec<String> {
        std::mem::take(&mut self.0.lock().unwrap().polled)
    }
    /// Forget a task (it finished or was dropped).
    pub fn forget(&self, t: &str) {
        let mut c = self.0.lock().unwrap();
        c.flags.remove(t);
        c.polled.push(t.to_string());
    }
    pub fn woken(&self) -> Vec<String> {
        self.0
            .lock()
            .unwrap()
            .flags
            .iter()
            .filter(|(_, f)| f.woken.load(Ordering::SeqCst))
            .map(|(k, _)| k.clone())
            .collect()
    }
    pub fn is_woken(&self, t: &str) -> bool {
        self.0.lock().unwrap().flags.get(t).map_or(false, |f| f.woken.load(Ordering::SeqCst))
    }
}

// ------------------------------------------------------------------ system under test
pub trait Sut {
    /// Executes one operation on the real code and returns its result.
    fn apply(&mut self, op: &Op) -> J;
    /// Picks the next operation of a random environment (None: this run is over).
    fn choose(&mut self, _rng: &mut Rng) -> Option<Op> {
        None
    }
    fn ctx(&self) -> Ctx;
    /// Operations that other threads executed during the last one: op, arguments, result, log.
    fn inside(&mut self) -> Vec<(Op, J, Vec<J>)> {
        vec![]
    }
}
/// A component: builds a fresh system for a configuration.
pub struct Component {
    pub name: &'static str,
    /// args of the `boot` operation
    pub boot: Box<dyn Fn(&J) -> Box<dyn Sut>>,
    /// random configuration for `drive`
    pub random_cfg: Box<dyn Fn(&mut Rng, &J) -> J>,
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub r: J,
    pub log: Vec<J>,
    pub wake: Vec<String>,
    pub polled: Vec<String>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn panic_message() -> String {
    PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_default()
}
fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info).replace('\n', " ");
        if msg.contains("harness:") {
            eprintln!("{}", msg);
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(msg));
    }));
}

/// The step being executed, for the watchdog and for replay files.
struct Current {
    ops: Vec<J>,
    since: Option<Instant>,
}
static CURRENT: Mutex<Option<Current>> = Mutex::new(None);
static OUT: Mutex<String> = Mutex::new(String::new());
static NAME: Mutex<String> = Mutex::new(String::new());
static STEPS: AtomicU64 = AtomicU64::new(0);

fn begin_run() {
    *CURRENT.lock().unwrap() = Some(Current { ops: vec![], since: None });
}

fn do_step(comp: &Component, sut: &mut Option<Box<dyn Sut>>, op: &Op) -> Obs {
    {
        let mut c = CURRENT.lock().unwrap();
        let c = c.as_mut().unwrap();
        c.ops.push(json!({"op": op.op, "a": op.a}));
        c.since = Some(Instant::now());
    }
    STEPS.fetch_add(1, Ordering::Relaxed);
    let res = catch_unwind(AssertUnwindSafe(|| {
        if op.op == "boot" {
            *sut = None;
            *sut = Some((comp.boot)(&op.a[0]));
            json!(["ok"])
        } else {
            sut.as_mut().expect("harness: not booted").apply(op)
        }
    }));
    let r = match res {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_default();
            if m.contains("harness:") {
                eprintln!("HARNESS-ERROR {}", m);
                std::process::exit(2);
            }
            json!(["PANIC", m])
        }
    };
    let mut polled = vec![];
    let (log, wake) = match sut.as_ref() {
        Some(s) => {
            let c = s.ctx();
            polled = c.take_polled();
            (c.take_log(), c.woken())
        }
        None => (vec![], vec![]),
    };
    let o = Obs { r, log, wake, polled };
    {
        let mut c = CURRENT.lock().unwrap();
        let c = c.as_mut().unwrap();
        c.since = None;
        let last = c.ops.last_mut().unwrap();
        last["r"] = o.r.clone();
        last["log"] = json!(o.log);
        last["wake"] = json!(o.wake);
    }
    o
}

fn write_replay(kind: &str, expected: J) -> String {
    let c = CURRENT.lock().unwrap();
    let ops = c.as_ref().map(|c| c.ops.clone()).unwrap_or_default();
    let doc = json!({
        "component": *NAME.lock().unwrap(),
        "kind": kind,
        "operations": ops,
        "specification_allows": expected,
    });
    let path = OUT.lock().unwrap().clone();
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
    path
}

fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let stuck = CURRENT
            .lock()
            .unwrap()
            .as_ref()
            .map_or(false, |c| c.since.map_or(false, |s| s.elapsed() > Duration::from_secs(20)));
        if stuck {
            let p = write_replay("the last operation did not return within 20 s (endless loop or deadlock)", json!([]));
            println!("MISMATCH hang {}", p);
            std::process::exit(1);
        }
    });
}

// ------------------------------------------------------------------ LTS
struct Edge {
    post: usize,
    r: J,
    log: J,
    wake: Vec<String>,
    covered: bool,
}
#[derive(Default)]
struct Node {
    out: HashMap<String, OutOp>,
    keys: Vec<String>,
}
struct OutOp {
    op: Op,
    edges: Vec<Edge>,
    tries: u32,
}
impl OutOp {
    fn uncovered(&self) -> bool {
        let n = self.edges.len() as u32;
        if self.tries == 0 {
            return true;
        }
        self.edges.iter().any(|e| !e.covered) && self.tries < 2 + 2 * n
    }
}
struct Lts {
    nodes: Vec<Node>,
    n_edges: usize,
    init: usize,
}

/// Undo TLC's printing of a string value.
fn unquote(s: &str) -> String {
    let s = s.trim();
    let s = s.strip_prefix('"').unwrap_or(s);
    let s = s.strip_suffix('"').unwrap_or(s);
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some(o) => out.push(o),
                None => {}
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn load_lts(path: &str) -> Lts {
    let f = std::io::BufReader::new(std::fs::File::open(path).expect("harness: lts"));
    let mut ids: HashMap<String, usize> = HashMap::new();
    let mut nodes: Vec<Node> = vec![];
    let mut init = None;
    let mut n_edges = 0;
    let mut seen: HashSet<(usize, String, usize)> = HashSet::new();
    for line in f.lines() {
        let line = line.unwrap();
        if !line.starts_with("\"EDGE~~") {
            continue;
        }
        let text = unquote(&line);
        let parts: Vec<&str> = text.split("~~").collect();
        if parts.len() != 4 {
            panic!("harness: bad edge line {}", line);
        }
        let mut id = |s: &str| -> usize {
            if let Some(i) = ids.get(s) {
                return *i;
            }
            let i = nodes.len();
            nodes.push(Node::default());
            ids.insert(s.to_string(), i);
            i
        };
        let pre = id(parts[1]);
        let post = id(parts[3]);
        if !seen.insert((pre, parts[2].to_string(), post)) {
            continue;
        }
        let ev: J = serde_json::from_str(parts[2]).unwrap_or_else(|e| panic!("harness: bad ev {} {}", e, parts[2]));
        let o = Op { op: ev["op"].as_str().expect("harness: op").to_string(), a: ev["a"].as_array().cloned().unwrap_or_default() };
        if o.op == "boot" && init.is_none() {
            init = Some(pre);
        }
        let key = o.key();
        let mut wake: Vec<String> = ev["wake"].as_array().cloned().unwrap_or_default().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        wake.sort();
        let node = &mut nodes[pre];
        if !node.out.contains_key(&key) {
            node.keys.push(key.clone());
        }
        node.out
            .entry(key)
            .or_insert_with(|| OutOp { op: o, edges: vec![], tries: 0 })
            .edges
            .push(Edge { post, r: ev["r"].clone(), log: ev["log"].clone(), wake, covered: false });
        n_edges += 1;
    }
    for n in nodes.iter_mut() {
        n.keys.sort();
    }
    Lts { nodes, n_edges, init: init.expect("harness: no boot edge in the LTS") }
}

fn matches(e: &Edge, o: &Obs) -> bool {
    e.r == o.r
        && e.log.as_array().map_or(o.log.is_empty(), |l| *l == o.log)
        && e.wake.iter().all(|w| o.wake.contains(w))
}

pub struct Report {
    pub walks: u64,
    pub steps: u64,
    pub covered: usize,
    pub total: usize,
    pub tried: usize,
    pub ops_total: usize,
    pub sample: J,
    pub complete: bool,
}

fn mbt(comp: &Component, lts_path: &str, seed: u64, max_secs: u64, max_walk: usize) -> Result<Report, String> {
    let mut g = load_lts(lts_path);
    let mut rng = Rng::new(seed);
    let t0 = Instant::now();
    // BFS tree from init
    let n = g.nodes.len();
    let mut parent: Vec<Option<(usize, String)>> = vec![None; n];
    let mut order = vec![];
    let mut seen = vec![false; n];
    let mut q = VecDeque::from([g.init]);
    seen[g.init] = true;
    while let Some(s) = q.pop_front() {
        order.push(s);
        for k in &g.nodes[s].keys {
            for e in &g.nodes[s].out[k].edges {
                if !seen[e.post] {
                    seen[e.post] = true;
                    parent[e.post] = Some((s, k.clone()));
                    q.push_back(e.post);
                }
            }
        }
    }
    let mut pending: Vec<usize> = order.clone(); // states with possibly uncovered ops; taken from the deepest
    let mut walks = 0u64;
    let mut sample = json!([]);
    let mut sample_best = 0usize;
    let mut complete = false;
    let mut visits: HashMap<usize, u32> = HashMap::new();
    'walks: loop {
        if t0.elapsed().as_secs() >= max_secs {
            break;
        }
        // next target
        let target = loop {
            match pending.last() {
                None => {
                    complete = true;
                    break 'walks;
                }
                Some(&s) => {
                    let v = visits.entry(s).or_insert(0);
                    if *v > 64 || !g.nodes[s].out.values().any(|o| o.uncovered()) {
                        pending.pop();
                        continue;
                    }
                    *v += 1;
                    break s;
                }
            }
        };
        let mut path: VecDeque<String> = VecDeque::new();
        let mut at = target;
        while let Some((p, k)) = &parent[at] {
            path.push_front(k.clone());
            at = *p;
        }
        // walk
        walks += 1;
        begin_run();
        let mut sut: Option<Box<dyn Sut>> = None;
        let mut cur = vec![g.init];
        let mut len = 0;
        while len < max_walk {
            // candidates: operations enabled in every possible state
            let s0 = cur[0];
            let common: Vec<String> = g.nodes[s0]
                .keys
                .iter()
                .filter(|k| cur.iter().all(|s| g.nodes[*s].out.contains_key(*k)))
                .cloned()
                .collect();
            if common.is_empty() {
                break;
            }
            let mut key = None;
            if let Some(k) = path.pop_front() {
                if common.contains(&k) {
                    key = Some(k);
                } else {
                    path.clear();
                }
            }
            if key.is_none() {
                let unc: Vec<&String> =
                    common.iter().filter(|k| cur.iter().any(|s| g.nodes[*s].out[*k].uncovered())).collect();
                if !unc.is_empty() {
                    key = Some(unc[rng.below(unc.len() as u64) as usize].clone());
                } else if cur.len() == 1 {
                    // bounded BFS to a nearby state with something uncovered
                    let mut par: HashMap<usize, (usize, String)> = HashMap::new();
                    let mut bq = VecDeque::from([s0]);
                    let mut found = None;
                    let mut expanded = 0;
                    'bfs: while let Some(s) = bq.pop_front() {
                        expanded += 1;
                        if expanded > 300 {
                            break;
                        }
                        for k in &g.nodes[s].keys {
                            for e in &g.nodes[s].out[k].edges {
                                if e.post != s0 && !par.contains_key(&e.post) {
                                    par.insert(e.post, (s, k.clone()));
                                    if g.nodes[e.post].out.values().any(|o| o.uncovered()) {
                                        found = Some(e.post);
                                        break 'bfs;
                                    }
                                    bq.push_back(e.post);
                                }
                            }
                        }
                    }
                    if let Some(mut f) = found {
                        while f != s0 {
                            let (p, k) = par[&f].clone();
                            path.push_front(k);
                            f = p;
                        }
                        key = path.pop_front();
                    }
                }
            }
            let key = match key {
                Some(k) => k,
                None => break,
            };
            let o = g.nodes[s0].out[&key].op.clone();
            let obs = do_step(comp, &mut sut, &o);
            len += 1;
            let mut next = vec![];
            for s in &cur {
                let out = g.nodes[*s].out.get_mut(&key).unwrap();
                out.tries += 1;
                for e in out.edges.iter_mut() {
                    if matches(e, &obs) {
                        e.covered = true;
                        if !next.contains(&e.post) {
                            next.push(e.post);
                        }
                    }
                }
            }
            if next.is_empty() {
                let mut exp = vec![];
                for s in &cur {
                    for e in &g.nodes[*s].out[&key].edges {
                        exp.push(json!({"r": e.r, "log": e.log, "wake": e.wake}));
                    }
                }
                let p = write_replay(
                    "the last operation's observation is not one the specification allows",
                    json!(exp),
                );
                return Err(p);
            }
            cur = next;
        }
        if len > sample_best && len <= 40 {
            sample_best = len;
            sample = json!(CURRENT.lock().unwrap().as_ref().unwrap().ops);
        }
        drop_sut(sut);
    }
    let covered = g.nodes.iter().flat_map(|n| n.out.values()).flat_map(|o| &o.edges).filter(|e| e.covered).count();
    let tried = g.nodes.iter().flat_map(|n| n.out.values()).filter(|o| o.tries > 0).count();
    let ops_total = g.nodes.iter().flat_map(|n| n.out.values()).count();
    Ok(Report { walks, steps: STEPS.load(Ordering::Relaxed), covered, total: g.n_edges, tried, ops_total, sample, complete })
}

fn drop_sut(sut: Option<Box<dyn Sut>>) {
    let _ = catch_unwind(AssertUnwindSafe(move || drop(sut)));
}

fn drive(comp: &Component, params: &J, seed: u64, runs: u64, steps: usize, out: &str) -> J {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("harness: out"));
    let mut total = 0u64;
    let mut stop = false;
    let mut first = json!([]);
    for run in 0..runs {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(run));
        let cfg = (comp.random_cfg)(&mut rng, params);
        begin_run();
        let mut sut: Option<Box<dyn Sut>> = None;
        let boot = op("boot", vec![cfg]);
        let mut next = Some(boot);
        let mut n = 0;
        while let Some(o) = next.take() {
            let obs = do_step(comp, &mut sut, &o);
            total += 1;
            n += 1;
            for (o, r, log) in sut.as_mut().map(|s| s.inside()).unwrap_or_default() {
                total += 1;
                writeln!(f, "{}", json!({"op": o.op, "a": o.a, "r": r, "log": log, "wake": [], "inside": true})).unwrap();
            }
            if obs.r[0] == json!("pair") {
                // two operations at once, in either order
                total += 1;
                let both = [(0, &obs.r[1], json!(obs.log)), (1, &obs.r[2], obs.r[3].clone())];
                for (i, r, log) in both {
                    let l = json!({"op": o.a[2 * i], "a": o.a[2 * i + 1], "r": r, "log": log, "wake": obs.wake, "pair": i + 1, "skip": obs.polled, "n": o.a[4]});
                    writeln!(f, "{}", l).unwrap();
                    stop |= r[0] == json!("PANIC");
                }
                if stop {
                    break;
                }
            } else {
                writeln!(f, "{}", json!({"op": o.op, "a": o.a, "r": obs.r, "log": obs.log, "wake": obs.wake})).unwrap();
            }
            if obs.r[0] == json!("PANIC") {
                // the specification never predicts a panic: the validation stops here
                stop = true;
                break;
            }
            if n >= steps {
                break;
            }
            next = sut.as_mut().unwrap().choose(&mut rng);
        }
        if run == 0 {
            let ops = CURRENT.lock().unwrap().as_ref().unwrap().ops.clone();
            first = json!(ops.into_iter().take(12).collect::<Vec<_>>());
        }
        drop_sut(sut);
        if stop {
            break;
        }
    }
    f.flush().unwrap();
    let (cuts, met) = cut::counts();
    json!({"runs": runs, "steps": total, "sample": first, "cuts": cuts, "waited": met})
}

pub fn main(comps: Vec<Component>) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: BIN COMPONENT mbt LTS SEED SECS MAXWALK OUT | drive PARAMS SEED RUNS STEPS TRACE OUT";
    let comp = comps.into_iter().find(|c| c.name == args[1]).unwrap_or_else(|| panic!("harness: no component {}", args[1]));
    *NAME.lock().unwrap() = comp.name.to_string();
    watchdog();
    match args[2].as_str() {
        "mbt" => {
            *OUT.lock().unwrap() = args[7].clone();
            match mbt(&comp, &args[3], args[4].parse().unwrap(), args[5].parse().unwrap(), args[6].parse().unwrap()) {
                Ok(r) => {
                    println!(
                        "RESULT {}",
                        json!({"walks": r.walks, "steps": r.steps, "edges_covered": r.covered, "edges": r.total,
                               "ops_tried": r.tried, "ops": r.ops_total, "complete": r.complete, "sample": r.sample})
                    );
                }
                Err(p) => {
                    println!("MISMATCH observation {}", p);
                    std::process::exit(1);
                }
            }
        }
        "drive" => {
            *OUT.lock().unwrap() = args[8].clone();
            let params: J = serde_json::from_str(&args[3]).expect("harness: params");
            let r = drive(&comp, &params, args[4].parse().unwrap(), args[5].parse().unwrap(), args[6].parse().unwrap(), &args[7]);
            println!("RESULT {}", r);
        }
        "replay" => {
            let doc: J = serde_json::from_str(&std::fs::read_to_string(&args[3]).unwrap()).unwrap();
            begin_run();
            let mut sut = None;
            for o in doc["operations"].as_array().unwrap() {
                let o = Op { op: o["op"].as_str().unwrap().to_string(), a: o["a"].as_array().unwrap().clone() };
                let obs = do_step(&comp, &mut sut, &o);
                println!("{}{:?} -> {} log={} wake={:?}", o.op, o.a, obs.r, json!(obs.log), obs.wake);
            }
            println!("specification allows: {}", doc["specification_allows"]);
        }
        _ => panic!("harness: {}", usage),
    }
}

// ------------------------------------------------------------------ paused-time runtime
/// A current-thread runtime with paused time; futures are polled by the
/// harness under `enter`, time moves only through `advance`.
pub struct Clock {
    pub rt: tokio::runtime::Runtime,
}
impl Default for Clock {
    fn default() -> Self {
        Self::new()
    }
}
impl Clock {
    pub fn new() -> Self {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        Clock { rt }
    }
    pub fn advance(&self, ms: u64) {
        self.advance_by(Duration::from_millis(ms))
    }
    pub fn advance_by(&self, d: Duration) {
        self.rt.block_on(async {
            tokio::time::advance(d).await;
            // let spawned tasks and timers settle without auto-advancing the clock
            for _ in 0..8 {
                tokio::task::yield_now().await;
            }
        });
    }
    pub fn settle(&self) {
        self.rt.block_on(async {
            for _ in 0..16 {
                tokio::task::yield_now().await;
            }
        });
    }
    pub fn enter(&self) -> tokio::runtime::EnterGuard<'_> {
        self.rt.enter()
    }
}

pub fn poll_j<T, E>(p: Poll<Result<T, E>>, ok: impl FnOnce(T) -> J, err: impl FnOnce(E) -> J) -> J {
    match p {
        Poll::Pending => json!(["pending"]),
        Poll::Ready(Ok(t)) => ok(t),
        Poll::Ready(Err(e)) => err(e),
    }
}

/// a load as printed: Count(3), Cost(1.5)
pub fn number<M: std::fmt::Debug>(m: M) -> f64 {
    // there is no other way to see the number of a load: the last number of its Debug output
    let t = format!("{:?}", m);
    t.rsplit(|c: char| !c.is_ascii_alphanumeric() && !".+-".contains(c)).find_map(|x| x.parse().ok()).unwrap_or_else(|| panic!("harness: load {}", t))
}
