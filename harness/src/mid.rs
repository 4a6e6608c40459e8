//! A generic harness for any middleware over scriptable inner services.
use crate::mock::{Ctl, Mode};
use crate::*;
use std::future::Future;
use std::pin::Pin;
use tower_service::Service;

pub type DynFut = Pin<Box<dyn Future<Output = Result<J, J>>>>;
pub trait DynSvc {
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), J>>;
    fn call(&mut self, req: i64) -> DynFut;
    fn dup(&self) -> Box<dyn DynSvc>;
    fn any(&mut self) -> &mut dyn std::any::Any;
}

pub struct Wrap<S, E> {
    pub s: S,
    pub err: fn(E) -> J,
    pub dup: fn(&S) -> S,
}
impl<S, E, R> DynSvc for Wrap<S, E>
where
    S: Service<i64, Error = E, Response = R> + 'static,
    R: Into<J> + 'static,
    S::Future: 'static,
    E: 'static,
{
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), J>> {
        let e = self.err;
        self.s.poll_ready(cx).map_err(e)
    }
    fn call(&mut self, req: i64) -> DynFut {
        let e = self.err;
        let f = self.s.call(req);
        // the inner future is polled and dropped exactly as the wrapper is
        Box::pin(MapFut { f: Box::pin(f), e })
    }
    fn dup(&self) -> Box<dyn DynSvc> {
        Box::new(Wrap { s: (self.dup)(&self.s), err: self.err, dup: self.dup })
    }
    fn any(&mut self) -> &mut dyn std::any::Any {
        &mut self.s
    }
}
struct MapFut<F, E> {
    f: Pin<Box<F>>,
    e: fn(E) -> J,
}
impl<F, E, R> Future for MapFut<F, E>
where
    F: Future<Output = Result<R, E>>,
    R: Into<J>,
{
    type Output = Result<J, J>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let e = self.e;
        self.f.as_mut().poll(cx).map_ok(Into::into).map_err(e)
    }
}
pub fn no_dup<S>(_: &S) -> S {
    panic!("harness: this service is not Clone")
}
pub fn wrap<S, E, R>(s: S, err: fn(E) -> J) -> Box<dyn DynSvc>
where
    S: Service<i64, Error = E, Response = R> + 'static,
    R: Into<J> + 'static,
    S::Future: 'static,
    E: 'static,
{
    Box::new(Wrap { s, err, dup: no_dup::<S> })
}
pub fn wrap_clone<S, E, R>(s: S, err: fn(E) -> J) -> Box<dyn DynSvc>
where
    S: Service<i64, Error = E, Response = R> + Clone + 'static,
    R: Into<J> + 'static,
    S::Future: 'static,
    E: 'static,
{
    Box::new(Wrap { s, err, dup: |s: &S| s.clone() })
}
pub fn mock_err(e: mock::MockErr) -> J {
    json!(["err", e.0])
}

/// None if an inner service or its future panicked
pub fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Some(x),
        Err(_) if panic_message().contains("mock:") => None,
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// One or more handles of a middleware, its inner services, its response futures.
pub struct Mid {
    pub ctx: Ctx,
    pub clock: Clock,
    pub ctl: Vec<Ctl>,
    pub h: BTreeMap<usize, Box<dyn DynSvc>>,
    pub armed: BTreeMap<usize, bool>,
    pub dead: BTreeMap<usize, bool>,
    pub fut: BTreeMap<usize, DynFut>,
    /// requests which the inner service has answered
    pub done: std::collections::HashSet<usize>,
    /// the response is polled within the call operation
    pub instant: bool,
    pub settle: bool,
    /// a handle whose poll_ready failed is not used again
    pub err_final: bool,
    /// operations specific to the middleware
    pub extra: Option<Box<dyn FnMut(&Op, &Ctx, &mut BTreeMap<usize, Box<dyn DynSvc>>) -> J>>,
    // random environment
    pub w: Weights,
    pub nh: usize,
    pub nk: usize,
    pub next_k: usize,
    pub modes: Vec<&'static str>,
    pub rs: Vec<&'static str>,
    pub advs: Vec<u64>,
    /// microseconds in a unit of time
    pub unit: u64,
    pub more: Option<Box<dyn FnMut(&mut Rng) -> Option<Op>>>,
    /// called before every operation
    pub pre: Option<Box<dyn FnMut(&Op)>>,
    /// a response slot that may not be used again yet
    pub busy: Option<Box<dyn Fn(usize) -> bool>>,
    /// completes the arguments of an operation the random environment chose
    pub amend: Option<Box<dyn FnMut(&mut Rng, &mut Op)>>,
    pub steps: usize,
    /// inner services and their futures also panic
    pub panics: bool,
    /// requests also come without a readiness check
    pub eager: bool,
    /// the last readiness check failed
    pub bad: std::collections::HashSet<usize>,
    /// only the first inner service changes its readiness
    pub mode0: bool,
    /// operations of these kinds are also carried out two at a time
    pub cut: Vec<&'static str>,
    /// those of them that may end a request
    pub cut_ends: Vec<&'static str>,
    /// two operations which may not be carried out at once
    pub apart: Option<Box<dyn Fn(&Op, &Op) -> bool>>,
    /// the same as `extra`, for one handle
    pub extra_part: Option<ExtraPart>,
}
pub type ExtraPart = Box<dyn Fn(&Op, &mut Box<dyn DynSvc>) -> J>;
/// what another thread may use while this one stands still
struct Other<T>(T);
unsafe impl<T> Send for Other<T> {}
impl<T> Other<T> {
    fn get(self) -> T {
        self.0
    }
}
#[derive(Clone)]
pub struct Weights {
    pub poll: u64,
    pub call: u64,
    pub resp: u64,
    pub finish: u64,
    pub cancel: u64,
    pub clone: u64,
    pub drop: u64,
    pub mode: u64,
    pub adv: u64,
    pub more: u64,
}
impl Default for Weights {
    fn default() -> Self {
        Weights { poll: 25, call: 25, resp: 15, finish: 12, cancel: 4, clone: 0, drop: 0, mode: 6, adv: 0, more: 0 }
    }
}

impl Mid {
    pub fn new(ctx: Ctx, clock: Clock, ctl: Vec<Ctl>, svc: Box<dyn DynSvc>) -> Mid {
        Mid {
            ctx,
            clock,
            ctl,
            h: BTreeMap::from([(1, svc)]),
            armed: BTreeMap::new(),
            dead: BTreeMap::new(),
            fut: BTreeMap::new(),
            done: Default::default(),
            instant: false,
            settle: false,
            err_final: false,
            extra: None,
            w: Weights::default(),
            nh: 1,
            nk: 4,
            next_k: 0,
            modes: vec!["ready", "pending", "err1"],
            rs: vec!["ok", "ok", "err"],
            advs: vec![],
            unit: 1000,
            more: None,
            pre: None,
            amend: None,
            busy: None,
            steps: 0,
            panics: false,
            eager: false,
            bad: Default::default(),
            mode0: false,
            cut: vec![],
            cut_ends: vec!["resp", "cancel"],
            apart: None,
            extra_part: None,
        }
    }
    /// an operation in two parts: what another thread may see half done, and the rest
    fn part(&mut self, o: &Op) -> cut::Part<Mid> {
        let ctx = self.ctx.clone();
        let rt = self.clock.rt.handle().clone();
        let task = |t: String| ctx.waker(&t);
        match o.op.as_str() {
            "poll" => {
                let h = o.u(0);
                let x = Other((self.h.remove(&h).expect("harness: handle"), task(format!("h{}", h))));
                Box::new(move || {
                    let _g = rt.enter();
                    let (mut svc, wk) = x.get();
                    let p = svc.poll_ready(&mut Context::from_waker(&wk));
                    let x = Other((svc, p));
                    Box::new(move |s| {
                        let (svc, p) = x.get();
                        s.h.insert(h, svc);
                        s.polled(h, p)
                    })
                })
            }
            "call" => {
                let (h, k) = (o.u(0), o.u(1));
                let req = o.a.get(2).and_then(|x| x.as_i64()).unwrap_or(k as i64);
                let x = Other(self.h.remove(&h).expect("harness: handle"));
                Box::new(move || {
                    let _g = rt.enter();
                    let mut svc = x.get();
                    let f = svc.call(req);
                    let x = Other((svc, f));
                    Box::new(move |s| {
                        let (svc, f) = x.get();
                        s.h.insert(h, svc);
                        s.armed.insert(h, false);
                        s.next_k = s.next_k.max(k);
                        s.done.remove(&k);
                        s.fut.insert(k, f);
                        json!(["ok"])
                    })
                })
            }
            "resp" | "cancel" => {
                let (k, end) = (o.u(0), o.op == "cancel");
                let x = Other((self.fut.remove(&k).expect("harness: fut"), if end { None } else { Some(task(format!("c{}", k))) }));
                Box::new(move || {
                    let _g = rt.enter();
                    let (mut f, wk) = x.get();
                    let p = match wk {
                        Some(wk) => f.as_mut().poll(&mut Context::from_waker(&wk)),
                        None => Poll::Ready(Ok(json!(0))),
                    };
                    // (a future that is ready is dropped at once)
                    let x = Other((if p.is_ready() { drop(f); None } else { Some(f) }, p));
                    Box::new(move |s| {
                        let (f, p) = x.get();
                        match f {
                            Some(f) => drop(s.fut.insert(k, f)),
                            None => s.ctx.forget(&format!("c{}", k)),
                        }
                        if end { json!(["ok"]) } else { poll_j(p, |v| json!(["ok", v]), |e| e) }
                    })
                })
            }
            "clone" => {
                let (h, h2) = (o.u(0), o.u(1));
                let x = Other(self.h.remove(&h).expect("harness: handle"));
                Box::new(move || {
                    let svc = x.get();
                    let x = Other((svc.dup(), svc));
                    Box::new(move |s| {
                        let (c, svc) = x.get();
                        s.h.insert(h, svc);
                        s.h.insert(h2, c);
                        s.bad.remove(&h2);
                        s.armed.remove(&h2);
                        s.dead.remove(&h2);
                        json!(["ok"])
                    })
                })
            }
            "drop" => {
                let h = o.u(0);
                let x = Other(self.h.remove(&h).expect("harness: handle"));
                Box::new(move || {
                    let _g = rt.enter();
                    drop(x.get());
                    Box::new(move |s| {
                        s.armed.remove(&h);
                        s.dead.remove(&h);
                        s.ctx.forget(&format!("h{}", h));
                        json!(["ok"])
                    })
                })
            }
            _ => {
                let h = o.u(0);
                let x = Other((self.h.remove(&h).expect("harness: handle"), self.extra_part.take().expect("harness: part")));
                let o = o.clone();
                Box::new(move || {
                    let _g = rt.enter();
                    let (mut svc, f) = x.get();
                    let r = f(&o, &mut svc);
                    let x = Other((svc, f));
                    Box::new(move |s| {
                        let (svc, f) = x.get();
                        s.h.insert(h, svc);
                        s.extra_part = Some(f);
                        r
                    })
                })
            }
        }
    }
    fn polled(&mut self, h: usize, p: Poll<Result<(), J>>) -> J {
        self.armed.insert(h, matches!(p, Poll::Ready(Ok(_))));
        self.bad.remove(&h);
        if p.is_ready() {
            if !matches!(p, Poll::Ready(Ok(_))) {
                self.bad.insert(h);
            }
            if self.err_final && !matches!(p, Poll::Ready(Ok(_))) {
                self.dead.insert(h, true);
            }
        }
        poll_j(p, |_| json!(["ok"]), |e| e)
    }
    /// handles and responses an operation uses
    fn uses(o: &Op) -> Vec<String> {
        let x = o.u(0);
        match o.op.as_str() {
            "call" => vec![format!("h{}", x), format!("c{}", o.u(1))],
            "clone" => vec![format!("h{}", x), format!("h{}", o.u(1))],
            "resp" | "cancel" => vec![format!("c{}", x)],
            "poll" | "drop" => vec![format!("h{}", x)],
            // (one at a time)
            _ => vec![format!("h{}", x), "extra".into()],
        }
    }
    fn choose_cut(&mut self, r: &mut Rng) -> Option<Op> {
        // often both are ends of requests
        let ends = r.chance(1, 2);
        let mut one = |s: &mut Mid, not: Option<&Op>| {
            (0..60).find_map(|_| {
                let o = s.choose_one(r)?;
                let kinds = if ends { &s.cut_ends } else { &s.cut };
                let ok = kinds.contains(&o.op.as_str()) && (!ends || o.op != "resp" || s.done.contains(&o.u(0))) && not.map_or(true, |n| !Mid::uses(n).iter().any(|x| Mid::uses(&o).contains(x)));
                if ok { Some(o) } else { None }
            })
        };
        let a = one(self, None)?;
        let b = one(self, Some(&a))?;
        if self.apart.as_ref().map_or(false, |f| f(&a, &b) || f(&b, &a)) {
            return None;
        }
        Some(op("pair", vec![json!(a.op), json!(a.a), json!(b.op), json!(b.a), json!(cut::pick(r))]))
    }
    fn ctl_of(&self, id: i64) -> &Ctl {
        self.ctl.iter().find(|c| c.id == id).unwrap_or_else(|| panic!("harness: no inner service {}", id))
    }
}

impl Drop for Mid {
    fn drop(&mut self) {
        let _g = self.clock.rt.enter();
        self.fut.clear();
        self.h.clear();
        self.extra = None;
        self.more = None;
        self.busy = None;
    }
}

impl Sut for Mid {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        let ctx = self.ctx.clone();
        if o.op == "pair" {
            let (a, b) = (op(o.s(0), o.a[1].as_array().unwrap().clone()), op(o.s(2), o.a[3].as_array().unwrap().clone()));
            for o in [&a, &b] {
                if let Some(f) = self.pre.as_mut() {
                    f(o);
                }
            }
            let (pa, pb) = (self.part(&a), self.part(&b));
            let (ra, rb, logb) = cut::both(self, &ctx, o.i(4), pa, pb);
            return json!(["pair", ra, rb, logb]);
        }
        if let Some(f) = self.pre.as_mut() {
            f(o);
        }
        let r = {
            let _g = self.clock.rt.enter();
            match o.op.as_str() {
                "poll" => {
                    let h = o.u(0);
                    let svc = self.h.get_mut(&h).expect("harness: handle");
                    let p = ctx.poll(&format!("h{}", h), |cx| svc.poll_ready(cx));
                    self.polled(h, p)
                }
                // call(handle, response slot, request)
                "call" => {
                    let (h, k) = (o.u(0), o.u(1));
                    let req = o.a.get(2).and_then(|x| x.as_i64()).unwrap_or(k as i64);
                    let mut f = self.h.get_mut(&h).expect("harness: handle").call(req);
                    self.armed.insert(h, false);
                    self.next_k = self.next_k.max(k);
                    self.done.remove(&k);
                    if self.instant {
                        let p = ctx.poll("instant", |cx| f.as_mut().poll(cx));
                        ctx.forget("instant");
                        poll_j(p, |v| json!(["ok", v]), |e| e)
                    } else {
                        self.fut.insert(k, f);
                        json!(["ok"])
                    }
                }
                // boom(handle): the inner services panic when they are called
                "boom" => {
                    let h = o.u(0);
                    self.ctl.iter().for_each(|c| c.panic_on_call(true));
                    let svc = self.h.get_mut(&h).expect("harness: handle");
                    let r = caught(|| drop(svc.call(0)));
                    self.ctl.iter().for_each(|c| c.panic_on_call(false));
                    self.armed.insert(h, false);
                    json!([if r.is_none() { "panic" } else { "ok" }])
                }
                // finish(inner service, request, result): the oldest open call for the request ends
                "finish" => {
                    let (id, req) = (o.i(0), o.i(1));
                    let c = self.ctl_of(id);
                    let n = o.a.get(3).and_then(|x| x.as_u64()).unwrap_or(1) as usize;
                    let calls = c.open_calls(req);
                    if calls.len() < n {
                        json!(["no such call"])
                    } else {
                        let res = match o.s(2) {
                            "ok" => Ok(1000 + req),
                            "panic" => Err(mock::PANICS),
                            _ if c.has_errors() => Err(300_000 + req),
                            r => Err(r.trim_start_matches("err").parse().unwrap_or(7)),
                        };
                        c.complete(calls[n - 1], res);
                        self.done.insert(req as usize);
                        json!(["ok"])
                    }
                }
                "resp" => {
                    let k = o.u(0);
                    let t = format!("c{}", k);
                    let f = self.fut.get_mut(&k).expect("harness: fut");
                    // as an executor does: a future that panics is dropped
                    let p = caught(|| ctx.poll(&t, |cx| f.as_mut().poll(cx)));
                    if !matches!(p, Some(Poll::Pending)) {
                        self.fut.remove(&k);
                        ctx.forget(&t);
                    }
                    match p {
                        Some(p) => poll_j(p, |v| json!(["ok", v]), |e| e),
                        None => json!(["panic"]),
                    }
                }
                "cancel" => {
                    let k = o.u(0);
                    self.fut.remove(&k);
                    ctx.forget(&format!("c{}", k));
                    json!(["ok"])
                }
                "clone" => {
                    let c = self.h[&o.u(0)].dup();
                    self.h.insert(o.u(1), c);
                    self.bad.remove(&o.u(1));
                    self.armed.remove(&o.u(1));
                    self.dead.remove(&o.u(1));
                    json!(["ok"])
                }
                "drop" => {
                    self.h.remove(&o.u(0));
                    self.armed.remove(&o.u(0));
                    self.dead.remove(&o.u(0));
                    ctx.forget(&format!("h{}", o.u(0)));
                    json!(["ok"])
                }
                // mode(inner service, mode)
                "mode" => {
                    self.ctl_of(o.i(0)).set_mode(Mode::parse(o.s(1)));
                    json!(["ok"])
                }
                "adv" => json!(["ok"]),
                "settle" => json!(["ok"]),
                _ => {
                    let f = self.extra.as_mut().unwrap_or_else(|| panic!("harness: op {}", o.op));
                    f(o, &ctx, &mut self.h)
                }
            }
        };
        if o.op == "adv" {
            self.clock.advance_by(std::time::Duration::from_micros(o.u(0) as u64 * self.unit));
        } else if o.op == "settle" || self.settle {
            self.clock.settle();
        }
        r
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        if self.steps == 0 && r.chance(1, 2) {
            // each run has its own mix of operations
            let w = &mut self.w;
            for x in [&mut w.poll, &mut w.call, &mut w.resp, &mut w.finish, &mut w.cancel, &mut w.clone, &mut w.drop, &mut w.mode, &mut w.adv, &mut w.more] {
                *x = match r.below(4) {
                    0 => (*x + 3) / 4,
                    1 => *x * 4,
                    _ => *x,
                }
            }
            self.steps += 1;
        }
        if !self.cut.is_empty() && r.chance(1, 2) {
            if let Some(o) = self.choose_cut(r) {
                return Some(o);
            }
        }
        self.choose_one(r)
    }
}
impl Mid {
    fn choose_one(&mut self, r: &mut Rng) -> Option<Op> {
        let w = self.w.clone();
        let total = w.poll + w.call + w.resp + w.finish + w.cancel + w.clone + w.drop + w.mode + w.adv + w.more;
        for _ in 0..80 {
            let mut x = r.below(total);
            let mut take = |n: u64| {
                if x < n {
                    true
                } else {
                    x -= n;
                    false
                }
            };
            let hs: Vec<usize> = self.h.keys().copied().filter(|h| !self.dead.get(h).copied().unwrap_or(false)).collect();
            let all: Vec<usize> = self.h.keys().copied().collect();
            let ks: Vec<usize> = self.fut.keys().copied().collect();
            let a: Vec<usize> = hs.iter().copied().filter(|h| self.armed.get(h) == Some(&true)).collect();
            let o = if !a.is_empty() && self.panics && r.chance(1, 60) {
                r.pick(&a).map(|h| op("boom", vec![json!(h)]))
            } else if take(w.poll) {
                r.pick(&hs).map(|h| op("poll", vec![json!(h)]))
            } else if take(w.call) {
                let a: Vec<usize> = hs.iter().copied().filter(|h| self.armed.get(h) == Some(&true) || (self.eager && !self.bad.contains(h) && r.chance(1, 8))).collect();
                let free = if self.instant { self.next_k + 1 } else { (1..=self.nk).find(|k| !self.fut.contains_key(k) && !self.busy.as_ref().map_or(false, |b| b(*k))).unwrap_or(0) };
                if free == 0 { None } else { r.pick(&a).map(|h| op("call", vec![json!(h), json!(free)])) }
            } else if take(w.resp) {
                r.pick(&ks).map(|k| op("resp", vec![json!(k)]))
            } else if take(w.finish) {
                let open: Vec<(i64, i64)> =
                    self.ctl.iter().flat_map(|c| c.open_reqs().into_iter().map(move |q| (c.id, q))).collect();
                let res = if self.panics && r.chance(1, 12) { "panic" } else { *r.pick(&self.rs).unwrap() };
                r.pick(&open).map(|(id, q)| op("finish", vec![json!(id), json!(q), json!(res)]))
            } else if take(w.cancel) {
                r.pick(&ks).map(|k| op("cancel", vec![json!(k)]))
            } else if take(w.clone) {
                let free = (1..=self.nh).find(|h| !self.h.contains_key(h));
                match (r.pick(&all), free) {
                    (Some(h), Some(f)) => Some(op("clone", vec![json!(h), json!(f)])),
                    _ => None,
                }
            } else if take(w.drop) {
                if all.len() > 1 { r.pick(&all).map(|h| op("drop", vec![json!(h)])) } else { None }
            } else if take(w.mode) {
                let c = if self.mode0 { 0 } else { r.below(self.ctl.len() as u64) as usize };
                let m = *r.pick(&self.modes).unwrap();
                if self.ctl[c].mode() == Mode::parse(m) { None } else { Some(op("mode", vec![json!(self.ctl[c].id), json!(m)])) }
            } else if take(w.adv) {
                r.pick(&self.advs).map(|d| op("adv", vec![json!(d)]))
            } else {
                match self.more.as_mut() {
                    Some(f) => f(r),
                    None => None,
                }
            };
            if let Some(mut o) = o {
                self.steps += 1;
                if let Some(f) = self.amend.as_mut() {
                    f(r, &mut o);
                }
                return Some(o);
            }
        }
        None
    }
}
