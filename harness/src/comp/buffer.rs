//! tower::buffer::Buffer with its worker polled by the harness
use serde_json::json;
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::Poll;
use tower::buffer::{error::{Closed, ServiceError}, future::ResponseFuture, Buffer};
use tower_service::Service;
use vharness::mock::{Ctl, Mock, MockFut, Mode};
use vharness::*;

type Fut = Pin<Box<ResponseFuture<MockFut>>>;
type Worker = Pin<Box<dyn Future<Output = ()> + Send>>;

struct Req {
    fut: Option<Fut>,
    call: Option<i64>, // number of the inner call
    fin: bool,
}
struct Sys {
    ctx: Ctx,
    ctl: Ctl,
    h: BTreeMap<usize, Buffer<i64, MockFut>>,
    armed: BTreeMap<usize, bool>,
    req: BTreeMap<usize, Req>,
    worker: Option<Worker>,
    calls: i64,
    panic: bool,
    nh: usize,
    nk: usize,
    faults: u64,
    /// the worker's polls are run on another thread
    race: bool,
    /// two operations at once
    cut: bool,
    inside: Vec<(Op, J, Vec<J>)>,
}

pub fn err(e: tower::BoxError) -> J {
    if let Some(s) = e.downcast_ref::<ServiceError>() {
        let src = std::error::Error::source(s).map(|x| x.to_string()).unwrap_or_default();
        json!(["err", "service", src])
    } else if e.downcast_ref::<Closed>().is_some() {
        json!(["err", "closed"])
    } else {
        json!(["err", e.to_string()])
    }
}

fn boot(c: &J) -> Box<dyn Sut> {
    let ctx = Ctx::new();
    let ctl = Ctl::new(&ctx, 0);
    let (b, w) = Buffer::pair(ctl.service(), c["bound"].as_u64().unwrap() as usize);
    Box::new(Sys {
        ctx,
        ctl,
        h: BTreeMap::from([(1, b)]),
        armed: BTreeMap::new(),
        req: BTreeMap::new(),
        worker: Some(Box::pin(w)),
        calls: 0,
        panic: false,
        nh: c["nh"].as_u64().unwrap_or(3) as usize,
        nk: c["nk"].as_u64().unwrap_or(3) as usize,
        faults: c["faults"].as_u64().unwrap_or(1),
        race: c["race"].as_bool().unwrap_or(false),
        cut: c["cut"] == json!(true),
        inside: vec![],
    })
}

impl Sys {
    fn kill(&mut self) {
        self.worker = None;
        self.ctx.forget("w");
    }
}

impl Sut for Sys {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        let ctx = self.ctx.clone();
        match o.op.as_str() {
            "poll" => {
                let h = o.u(0);
                let b = self.h.get_mut(&h).expect("harness: handle");
                let p = ctx.poll(&format!("h{}", h), |cx| b.poll_ready(cx));
                if p.is_ready() {
                    self.armed.insert(h, matches!(p, Poll::Ready(Ok(_))));
                }
                poll_j(p, |_| json!(["ok"]), err)
            }
            "call" => {
                let (h, k) = (o.u(0), o.u(1));
                let f = self.h.get_mut(&h).expect("harness: handle").call(k as i64);
                self.armed.insert(h, false);
                self.req.insert(k, Req { fut: Some(Box::pin(f)), call: None, fin: false });
                json!(["ok"])
            }
            "worker" => {
                let w = self.worker.as_mut().expect("harness: worker");
                let r = catch_unwind(AssertUnwindSafe(|| ctx.poll("w", |cx| w.as_mut().poll(cx))));
                // remember which inner call belongs to which request
                let log = ctx.take_log();
                for e in &log {
                    if e[0] == "call" {
                        self.calls += 1;
                        let n = self.calls;
                        if r.is_err() && self.panic {
                            continue;
                        }
                        if let Some(r) = self.req.get_mut(&(e[1].as_u64().unwrap() as usize)) {
                            r.call = Some(n);
                        }
                    }
                }
                for e in log {
                    ctx.log(e);
                }
                match r {
                    Ok(Poll::Pending) => json!(["pending"]),
                    Ok(Poll::Ready(())) => {
                        self.kill();
                        json!(["done"])
                    }
                    Err(_) if self.panic => {
                        self.kill();
                        json!(["panic"])
                    }
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
            // the worker is polled while this thread does something else
            "wend" if o.a.len() > 1 => {
                let x = op(o.s(0), o.a[1].as_array().unwrap().clone());
                let (w, px) = (self.part(&op("wend", vec![])), self.part(&x));
                let (r, rx, log, logx) = if o.s(3) == "worker" {
                    let (r, rx, logx) = cut::both(self, &ctx, o.i(2), w, px);
                    (r, rx, ctx.take_log(), logx)
                } else {
                    let (rx, r, log) = cut::both(self, &ctx, o.i(2), px, w);
                    (r, rx, log, ctx.take_log())
                };
                self.inside = vec![(op("wbegin", vec![]), json!(["ok"]), vec![]), (x, rx, logx)];
                for e in log {
                    ctx.log(e);
                }
                r
            }
            // the worker is polled on another thread, while this one uses the handles
            "wend" => {
                let mut w = self.worker.take().expect("harness: worker");
                let mut rng = Rng::new(o.i(0) as u64);
                let wk = ctx.waker("w");
                self.inside = vec![(op("wbegin", vec![]), json!(["ok"]), vec![])];
                let (r, log) = race(
                    || {
                        // as an executor does: the panic is caught, then the worker dropped
                        let p = catch_unwind(AssertUnwindSafe(|| w.as_mut().poll(&mut std::task::Context::from_waker(&wk))));
                        (w, p.map_err(|_| panic_message()))
                    },
                    || {
                        while rng.chance(3, 5) {
                            let Some(o) = self.choose_of(&mut rng, &["poll", "call", "resp", "cancel", "clone", "drop"]) else { break };
                            let r = match catch_unwind(AssertUnwindSafe(|| self.apply(&o))) {
                                Ok(r) => r,
                                Err(_) => json!(["PANIC"]),
                            };
                            let log = ctx.take_log();
                            self.inside.push((o, r, log));
                        }
                    },
                );
                let (w, r) = r.expect("harness: race");
                for e in log {
                    ctx.log(e);
                }
                self.polled(Some(w), r)
            }
            "pair" => {
                let (a, b) = (op(o.s(0), o.a[1].as_array().unwrap().clone()), op(o.s(2), o.a[3].as_array().unwrap().clone()));
                let (pa, pb) = (self.part(&a), self.part(&b));
                let (ra, rb, logb) = cut::both(self, &ctx, o.i(4), pa, pb);
                json!(["pair", ra, rb, logb])
            }
            "kill" => {
                self.kill();
                json!(["ok"])
            }
            "finish" => {
                let k = o.u(0);
                let r = self.req.get_mut(&k).expect("harness: req");
                r.fin = true;
                self.ctl.complete(r.call.unwrap(), if o.s(1) == "ok" { Ok(1000 + k as i64) } else { Err(7) });
                json!(["ok"])
            }
            "resp" => {
                let k = o.u(0);
                let t = format!("c{}", k);
                let f = self.req.get_mut(&k).expect("harness: req").fut.as_mut().expect("harness: fut");
                let p = ctx.poll(&t, |cx| f.as_mut().poll(cx));
                if p.is_ready() {
                    self.req.remove(&k);
                    ctx.forget(&t);
                }
                poll_j(p, |v| json!(["ok", v]), err)
            }
            "cancel" => {
                let k = o.u(0);
                self.req.get_mut(&k).expect("harness: req").fut = None;
                ctx.forget(&format!("c{}", k));
                json!(["ok"])
            }
            "clone" => {
                let c = self.h[&o.u(0)].clone();
                self.h.insert(o.u(1), c);
                self.armed.remove(&o.u(1));
                json!(["ok"])
            }
            "drop" => {
                self.h.remove(&o.u(0));
                self.armed.remove(&o.u(0));
                ctx.forget(&format!("h{}", o.u(0)));
                json!(["ok"])
            }
            "mode" => {
                self.panic = o.s(0) == "panic";
                self.ctl.panic_on_call(self.panic);
                self.ctl.set_mode(if self.panic { Mode::Ready } else { Mode::parse(o.s(0)) });
                if o.s(0) != "pending" {
                    self.ctl.wake_all();
                }
                json!(["ok"])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn inside(&mut self) -> Vec<(Op, J, Vec<J>)> {
        std::mem::take(&mut self.inside)
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        if self.cut && r.chance(1, 4) {
            if let Some(o) = self.choose_cut(r) {
                return Some(o);
            }
        }
        self.choose_of(r, &[])
    }
}
impl Sys {
    /// what the worker's poll left behind
    fn polled(&mut self, w: Option<Worker>, r: Result<Poll<()>, String>) -> J {
        let ctx = self.ctx.clone();
        let log = ctx.take_log();
        for e in &log {
            if e[0] == "call" {
                self.calls += 1;
                let n = self.calls;
                if r.is_err() {
                    continue;
                }
                // (its `call` may not have returned yet)
                self.req.entry(e[1].as_u64().unwrap() as usize).or_insert(Req { fut: None, call: None, fin: false }).call = Some(n);
            }
        }
        for e in log {
            ctx.log(e);
        }
        match r {
            Ok(Poll::Pending) => {
                self.worker = w;
                json!(["pending"])
            }
            Ok(Poll::Ready(())) => {
                drop(w);
                self.kill();
                json!(["done"])
            }
            Err(_) if self.panic => {
                drop(w);
                self.kill();
                json!(["panic"])
            }
            Err(m) => json!(["PANIC", m]),
        }
    }
    /// the operation in two parts: what another thread may see half done, and the rest
    fn part(&mut self, o: &Op) -> cut::Part<Sys> {
        let ctx = self.ctx.clone();
        match o.op.as_str() {
            "poll" => {
                let h = o.u(0);
                let mut b = self.h.remove(&h).expect("harness: handle");
                let wk = ctx.waker(&format!("h{}", h));
                Box::new(move || {
                    let p = b.poll_ready(&mut std::task::Context::from_waker(&wk));
                    Box::new(move |s| {
                        s.h.insert(h, b);
                        if p.is_ready() {
                            s.armed.insert(h, matches!(p, Poll::Ready(Ok(_))));
                        }
                        poll_j(p, |_| json!(["ok"]), err)
                    })
                })
            }
            "call" => {
                let (h, k) = (o.u(0), o.u(1));
                let mut b = self.h.remove(&h).expect("harness: handle");
                Box::new(move || {
                    let f = b.call(k as i64);
                    Box::new(move |s| {
                        s.h.insert(h, b);
                        s.armed.insert(h, false);
                        // (the worker may have called the inner service meanwhile)
                        s.req.entry(k).or_insert(Req { fut: None, call: None, fin: false }).fut = Some(Box::pin(f));
                        json!(["ok"])
                    })
                })
            }
            "resp" => {
                let k = o.u(0);
                let mut f = self.req.get_mut(&k).expect("harness: req").fut.take().expect("harness: fut");
                let wk = ctx.waker(&format!("c{}", k));
                Box::new(move || {
                    let p = f.as_mut().poll(&mut std::task::Context::from_waker(&wk));
                    Box::new(move |s| {
                        if p.is_ready() {
                            drop(f);
                            s.req.remove(&k);
                            s.ctx.forget(&format!("c{}", k));
                        } else {
                            s.req.get_mut(&k).unwrap().fut = Some(f);
                        }
                        poll_j(p, |v| json!(["ok", v]), err)
                    })
                })
            }
            "cancel" => {
                let k = o.u(0);
                let f = self.req.get_mut(&k).expect("harness: req").fut.take();
                Box::new(move || {
                    drop(f);
                    Box::new(move |s| {
                        s.ctx.forget(&format!("c{}", k));
                        json!(["ok"])
                    })
                })
            }
            "clone" => {
                let (h, h2) = (o.u(0), o.u(1));
                let b = self.h.remove(&h).expect("harness: handle");
                Box::new(move || {
                    let c = b.clone();
                    Box::new(move |s| {
                        s.h.insert(h, b);
                        s.h.insert(h2, c);
                        s.armed.remove(&h2);
                        json!(["ok"])
                    })
                })
            }
            "drop" => {
                let h = o.u(0);
                let b = self.h.remove(&h).expect("harness: handle");
                Box::new(move || {
                    drop(b);
                    Box::new(move |s| {
                        s.armed.remove(&h);
                        s.ctx.forget(&format!("h{}", h));
                        json!(["ok"])
                    })
                })
            }
            "wend" => {
                let mut w = self.worker.take().expect("harness: worker");
                let wk = ctx.waker("w");
                Box::new(move || {
                    let p = catch_unwind(AssertUnwindSafe(|| w.as_mut().poll(&mut std::task::Context::from_waker(&wk))));
                    let r = p.map_err(|_| panic_message());
                    // as an executor does: a worker that ended or panicked is dropped
                    let w = if matches!(r, Ok(Poll::Pending)) { Some(w) } else { drop(w); None };
                    Box::new(move |s| s.polled(w, r))
                })
            }
            "kill" => {
                let w = self.worker.take();
                Box::new(move || {
                    drop(w);
                    Box::new(|s| {
                        s.kill();
                        json!(["ok"])
                    })
                })
            }
            x => panic!("harness: part {}", x),
        }
    }
    /// two operations at once, or the worker's poll and another one
    fn choose_cut(&mut self, r: &mut Rng) -> Option<Op> {
        const KINDS: [&str; 6] = ["poll", "call", "resp", "cancel", "clone", "drop"];
        let uses = |o: &Op| -> Vec<String> {
            let (x, y) = (o.u(0), if o.a.len() > 1 { o.u(1) } else { 0 });
            match o.op.as_str() {
                "call" => vec![format!("h{}", x), format!("k{}", y)],
                "clone" => vec![format!("h{}", x), format!("h{}", y)],
                "poll" | "drop" => vec![format!("h{}", x)],
                _ => vec![format!("k{}", x)],
            }
        };
        let a = self.choose_of(r, &KINDS)?;
        if self.worker.is_some() && r.chance(2, 3) {
            let first = *r.pick(&["worker", "op"]).unwrap();
            return Some(op("wend", vec![json!(a.op), json!(a.a), json!(cut::pick(r)), json!(first)]));
        }
        if self.worker.is_some() && self.faults > 1 && r.chance(1, 4) {
            let mut ops = [(json!(a.op), json!(a.a)), (json!("kill"), json!([]))];
            ops.rotate_left(r.below(2) as usize);
            let [(a, aa), (b, ba)] = ops;
            return Some(op("pair", vec![a, aa, b, ba, json!(cut::pick(r))]));
        }
        for _ in 0..20 {
            let b = self.choose_of(r, &KINDS)?;
            let ua = uses(&a);
            if !uses(&b).iter().any(|x| ua.contains(x)) {
                return Some(op("pair", vec![json!(a.op), json!(a.a), json!(b.op), json!(b.a), json!(cut::pick(r))]));
            }
        }
        None
    }
    /// one of the operations of the given kinds (none: any)
    fn choose_of(&mut self, r: &mut Rng, kinds: &[&str]) -> Option<Op> {
        let hs: Vec<usize> = self.h.keys().copied().collect();
        let free_h = (1..=self.nh).find(|i| !self.h.contains_key(i));
        let live: Vec<usize> = self.req.iter().filter(|(_, r)| r.fut.is_some()).map(|(k, _)| *k).collect();
        // request numbers are used once per run: a cancelled request may still sit in the queue
        let free_k = (1..=self.nk).find(|i| !self.req.contains_key(i));
        let armed: Vec<usize> = hs.iter().copied().filter(|h| self.armed.get(h) == Some(&true)).collect();
        let bursty = self.faults % 2 == 1;
        for _ in 0..60 {
            let o = match r.below(100) {
                0..=24 => match r.pick(&hs) {
                    Some(h) => op("poll", vec![json!(h)]),
                    None => continue,
                },
                25..=49 => match (r.pick(&armed), free_k) {
                    (Some(h), Some(k)) => op("call", vec![json!(h), json!(k)]),
                    _ => continue,
                },
                50..=62 if self.worker.is_some() => {
                    // a real executor polls the worker when it was woken; sometimes spuriously
                    if !self.ctx.is_woken("w") && r.chance(3, 4) && self.calls > 0 {
                        continue;
                    }
                    if bursty && r.chance(2, 3) {
                        continue;
                    }
                    if self.race { op("wend", vec![json!(r.below(1 << 30))]) } else { op("worker", vec![]) }
                }
                63..=70 => {
                    let f: Vec<usize> = self.req.iter().filter(|(_, r)| r.fut.is_some() && r.call.is_some() && !r.fin).map(|(k, _)| *k).collect();
                    match r.pick(&f) {
                        Some(k) => op("finish", vec![json!(k), json!(if r.chance(1, 4) { "err" } else { "ok" })]),
                        None => continue,
                    }
                }
                71..=82 => match r.pick(&live) {
                    Some(k) => op("resp", vec![json!(k)]),
                    None => continue,
                },
                83..=86 => match r.pick(&live) {
                    Some(k) => op("cancel", vec![json!(k)]),
                    None => continue,
                },
                87..=91 => match (r.pick(&hs), free_h) {
                    (Some(h), Some(h2)) => op("clone", vec![json!(h), json!(h2)]),
                    _ => continue,
                },
                92..=93 if hs.len() > 1 || r.chance(1, 12) => match r.pick(&hs) {
                    Some(h) => op("drop", vec![json!(h)]),
                    None => continue,
                },
                94..=97 => {
                    let cur = if self.panic { "panic" } else { match self.ctl.mode() { Mode::Ready => "ready", Mode::Pending | Mode::Lost => "pending", Mode::Err(_) => "err1" } };
                    let m = match r.below(20) {
                        0 if self.faults > 1 => "err1",
                        1 if self.faults > 1 => "panic",
                        2..=7 => "pending",
                        _ => "ready",
                    };
                    if m == cur {
                        continue;
                    }
                    op("mode", vec![json!(m)])
                }
                98 if self.worker.is_some() && self.faults > 1 && r.chance(1, 6) => op("kill", vec![]),
                _ => continue,
            };
            if !kinds.is_empty() && !kinds.contains(&o.op.as_str()) {
                continue;
            }
            return Some(o);
        }
        None
    }
}

pub fn component() -> Component {
    Component {
        name: "Buffer",
        boot: Box::new(boot),
        random_cfg: Box::new(|r, p| {
            let nh = p["nh"].as_i64().unwrap();
            let nk = p["nk"].as_i64().unwrap();
            let hi = p["hi"].as_i64().unwrap_or(if r.chance(1, 2) { 4 } else { 40 });
            json!({"bound": r.range(1, hi), "nh": r.range(1, nh), "nk": nk, "race": p["race"].as_bool().unwrap_or(false), "cut": p["cut"] == json!(true), "faults": p["faults"].as_u64().unwrap_or_else(|| r.below(4))})
        }),
    }
}
