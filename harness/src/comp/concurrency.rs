//! tower::limit::ConcurrencyLimit
use std::collections::BTreeMap;
use std::pin::Pin;
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll};
use tower::limit::concurrency::{ConcurrencyLimit, ConcurrencyLimitLayer, GlobalConcurrencyLimitLayer};
use tower_layer::Layer;
use tower_service::Service;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use vharness::mock::{Ctl, Mock, MockErr, Mode, PANICS};
use vharness::*;
use serde_json::json;

type Svc = ConcurrencyLimit<Mock>;
type Fut = Pin<Box<<Svc as Service<i64>>::Future>>;

enum Lay {
    None,
    Own(ConcurrencyLimitLayer),
    Global(GlobalConcurrencyLimitLayer),
}

struct Sys {
    ctx: Ctx,
    ctl: Ctl,
    lay: Lay,
    h: BTreeMap<usize, Svc>,
    armed: BTreeMap<usize, bool>,
    fut: BTreeMap<usize, (Fut, bool)>, // future, finished by the inner service
    /// also two operations at once
    cut: bool,
    relayered: bool,
    nh: usize,
    nc: usize,
    bias: u64,
}

fn boot(c: &J) -> Box<dyn Sut> {
    let ctx = Ctx::new();
    let ctl = Ctl::new(&ctx, 0);
    let max = c["max"].as_u64().unwrap() as usize;
    let (svc, lay) = match c["kind"].as_str().unwrap() {
        "svc" => (ConcurrencyLimit::new(ctl.service(), max), Lay::None),
        "sem" => (ConcurrencyLimit::with_semaphore(ctl.service(), Arc::new(tokio::sync::Semaphore::new(max))), Lay::None),
        "layer" => {
            let l = ConcurrencyLimitLayer::new(max);
            (l.clone().layer(ctl.service()), Lay::Own(l))
        }
        "builder" => (tower::ServiceBuilder::new().concurrency_limit(max).service(ctl.service()), Lay::None),
        "global" => {
            let l = GlobalConcurrencyLimitLayer::new(max);
            (l.clone().layer(ctl.service()), Lay::Global(l))
        }
        "globalsem" => {
            let l = GlobalConcurrencyLimitLayer::with_semaphore(Arc::new(tokio::sync::Semaphore::new(max)));
            (l.layer(ctl.service()), Lay::Global(l.clone()))
        }
        k => panic!("harness: kind {}", k),
    };
    Box::new(Sys {
        ctx,
        ctl,
        lay,
        h: BTreeMap::from([(1, svc)]),
        armed: BTreeMap::new(),
        fut: BTreeMap::new(),
        cut: c["cut"] == true,
        relayered: false,
        nh: c["nh"].as_u64().unwrap_or(3) as usize,
        nc: c["nc"].as_u64().unwrap_or(3) as usize,
        bias: c["bias"].as_u64().unwrap_or(0),
    })
}

/// what another thread may use while this one stands still
struct Other<T>(T);
unsafe impl<T> Send for Other<T> {}
impl<T> Other<T> {
    fn get(self) -> T {
        self.0
    }
}

impl Sys {
    fn polled(&mut self, h: usize, p: Poll<Result<(), MockErr>>) -> J {
        if p.is_ready() {
            self.armed.insert(h, matches!(p, Poll::Ready(Ok(_))));
        }
        poll_j(p, |_| json!(["ok"]), |e| json!(["err", e.0]))
    }
    /// an operation in two parts: what another thread may see half done, and the rest
    fn part(&mut self, o: &Op) -> cut::Part<Sys> {
        let ctx = self.ctx.clone();
        let (x, y) = (o.u(0), o.a.get(1).and_then(|y| y.as_u64()).unwrap_or(0) as usize);
        match o.op.as_str() {
            "poll" => {
                let c = Other((self.h.remove(&x).expect("harness: handle"), ctx.waker(&format!("h{}", x))));
                Box::new(move || {
                    let (mut svc, wk) = c.get();
                    let p = svc.poll_ready(&mut Context::from_waker(&wk));
                    let c = Other((svc, p));
                    Box::new(move |s| {
                        let (svc, p) = c.get();
                        s.h.insert(x, svc);
                        s.polled(x, p)
                    })
                })
            }
            "call" => {
                let c = Other(self.h.remove(&x).expect("harness: handle"));
                Box::new(move || {
                    let mut svc = c.get();
                    let f = svc.call(y as i64);
                    let c = Other((svc, f));
                    Box::new(move |s| {
                        let (svc, f) = c.get();
                        s.h.insert(x, svc);
                        s.armed.insert(x, false);
                        s.fut.insert(y, (Box::pin(f), false));
                        json!(["ok"])
                    })
                })
            }
            "resp" => {
                let c = Other((self.fut.remove(&x).expect("harness: fut"), ctx.waker(&format!("c{}", x))));
                Box::new(move || {
                    let (mut f, wk) = c.get();
                    let p = f.0.as_mut().poll(&mut Context::from_waker(&wk));
                    let f = if p.is_ready() { None } else { Some(f) };
                    let c = Other((f, p));
                    Box::new(move |s| {
                        let (f, p) = c.get();
                        match f {
                            Some(f) => drop(s.fut.insert(x, f)),
                            None => s.ctx.forget(&format!("c{}", x)),
                        }
                        poll_j(p, |v| json!(["ok", v]), |e| json!(["err", e.0]))
                    })
                })
            }
            "cancel" | "drop" => {
                let end = o.op == "cancel";
                let c = Other(if end { (self.fut.remove(&x), None) } else { (None, self.h.remove(&x)) });
                self.armed.remove(if end { &0 } else { &x });
                Box::new(move || {
                    drop(c.get());
                    Box::new(move |s| {
                        s.ctx.forget(&format!("{}{}", if end { "c" } else { "h" }, x));
                        json!(["ok"])
                    })
                })
            }
            "clone" => {
                let c = Other(self.h.remove(&x).expect("harness: handle"));
                Box::new(move || {
                    let svc = c.get();
                    let c = Other((svc.clone(), svc));
                    Box::new(move |s| {
                        let (new, svc) = c.get();
                        s.h.insert(x, svc);
                        s.h.insert(y, new);
                        s.armed.remove(&y);
                        json!(["ok"])
                    })
                })
            }
            x => panic!("harness: part {}", x),
        }
    }
    fn uses(o: &Op) -> Vec<String> {
        match o.op.as_str() {
            "call" => vec![format!("h{}", o.u(0)), format!("c{}", o.u(1))],
            "clone" => vec![format!("h{}", o.u(0)), format!("h{}", o.u(1))],
            "poll" | "drop" => vec![format!("h{}", o.u(0))],
            "resp" | "cancel" => vec![format!("c{}", o.u(0))],
            x => vec![x.to_string()],
        }
    }
    fn choose_cut(&mut self, r: &mut Rng) -> Option<Op> {
        let mut one = |s: &mut Sys, not: Option<&Op>| {
            (0..20).find_map(|_| {
                let o = s.choose_one(r)?;
                let ok = !["finish", "relayer", "mode", "boom"].contains(&o.op.as_str())
                    && not.map_or(true, |n| !Sys::uses(n).iter().any(|x| Sys::uses(&o).contains(x)));
                if ok { Some(o) } else { None }
            })
        };
        let a = one(self, None)?;
        let b = one(self, Some(&a))?;
        Some(op("pair", vec![json!(a.op), json!(a.a), json!(b.op), json!(b.a), json!(cut::pick(r))]))
    }
}

impl Sut for Sys {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        let ctx = self.ctx.clone();
        match o.op.as_str() {
            "pair" => {
                let a = op(o.s(0), o.a[1].as_array().unwrap().clone());
                let b = op(o.s(2), o.a[3].as_array().unwrap().clone());
                let (pa, pb) = (self.part(&a), self.part(&b));
                let (ra, rb, logb) = cut::both(self, &ctx, o.i(4), pa, pb);
                json!(["pair", ra, rb, logb])
            }
            "poll" => {
                let h = o.u(0);
                let svc = self.h.get_mut(&h).expect("harness: handle");
                let p = ctx.poll(&format!("h{}", h), |cx| svc.poll_ready(cx));
                self.polled(h, p)
            }
            "call" => {
                let (h, k) = (o.u(0), o.u(1));
                let f = self.h.get_mut(&h).expect("harness: handle").call(k as i64);
                self.armed.insert(h, false);
                self.fut.insert(k, (Box::pin(f), false));
                json!(["ok"])
            }
            "boom" => {
                self.ctl.panic_on_call(true);
                let svc = self.h.get_mut(&o.u(0)).expect("harness: handle");
                let r = catch_unwind(AssertUnwindSafe(|| drop(svc.call(0))));
                self.ctl.panic_on_call(false);
                self.armed.insert(o.u(0), false);
                match r {
                    Err(_) if panic_message().contains("mock:") => json!(["panic"]),
                    Err(p) => resume_unwind(p),
                    Ok(()) => json!(["ok"]),
                }
            }
            "finish" => {
                let k = o.u(0);
                let e = self.fut.get_mut(&k).expect("harness: fut");
                e.1 = true;
                let n = self.ctl.open_calls(k as i64)[0];
                self.ctl.complete(n, match o.s(1) { "ok" => Ok(1000 + k as i64), "panic" => Err(PANICS), _ => Err(7) });
                json!(["ok"])
            }
            "resp" => {
                let k = o.u(0);
                let t = format!("c{}", k);
                let f = &mut self.fut.get_mut(&k).expect("harness: fut").0;
                // as an executor does: a future that panics is dropped
                let p = match catch_unwind(AssertUnwindSafe(|| ctx.poll(&t, |cx| f.as_mut().poll(cx)))) {
                    Ok(p) => p,
                    Err(_) if panic_message().contains("mock:") => {
                        self.fut.remove(&k);
                        ctx.forget(&t);
                        return json!(["panic"]);
                    }
                    Err(p) => resume_unwind(p),
                };
                if p.is_ready() {
                    self.fut.remove(&k);
                    ctx.forget(&t);
                }
                poll_j(p, |v| json!(["ok", v]), |e| json!(["err", e.0]))
            }
            "cancel" => {
                let k = o.u(0);
                self.fut.remove(&k);
                ctx.forget(&format!("c{}", k));
                json!(["ok"])
            }
            "clone" => {
                let c = self.h[&o.u(0)].clone();
                self.h.insert(o.u(1), c);
                self.armed.remove(&o.u(1));
                json!(["ok"])
            }
            "relayer" => {
                let svc = match &self.lay {
                    Lay::Own(l) => l.layer(self.ctl.service()),
                    Lay::Global(l) => l.layer(self.ctl.service()),
                    Lay::None => panic!("harness: relayer"),
                };
                self.relayered = true;
                self.h.insert(o.u(0), svc);
                self.armed.remove(&o.u(0));
                json!(["ok"])
            }
            "drop" => {
                self.h.remove(&o.u(0));
                self.armed.remove(&o.u(0));
                ctx.forget(&format!("h{}", o.u(0)));
                json!(["ok"])
            }
            "mode" => {
                self.ctl.set_mode(Mode::parse(o.s(0)));
                json!(["ok"])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        if self.cut && r.chance(1, 2) {
            if let Some(o) = self.choose_cut(r) {
                return Some(o);
            }
        }
        self.choose_one(r)
    }
}
impl Sys {
    fn choose_one(&mut self, r: &mut Rng) -> Option<Op> {
        let hs: Vec<usize> = self.h.keys().copied().collect();
        let free_h = (1..=self.nh).find(|i| !self.h.contains_key(i));
        let free_c = (1..=self.nc).find(|i| !self.fut.contains_key(i));
        let fs: Vec<usize> = self.fut.keys().copied().collect();
        let armed: Vec<usize> = hs.iter().copied().filter(|h| self.armed.get(h) == Some(&true)).collect();
        for _ in 0..50 {
            let w = r.below(100);
            let o = match w {
                0..=29 => op("poll", vec![json!(r.pick(&hs).copied().unwrap_or(0))]),
                30..=54 => match (r.pick(&armed), free_c) {
                    (Some(h), _) if r.chance(1, 25) => op("boom", vec![json!(h)]),
                    (Some(h), Some(c)) => op("call", vec![json!(h), json!(c)]),
                    _ => continue,
                },
                55..=64 => {
                    let open: Vec<usize> = fs.iter().copied().filter(|k| !self.fut[k].1).collect();
                    match r.pick(&open) {
                        Some(k) => op("finish", vec![json!(k), json!(if r.chance(1, 4) { "err" } else if !self.cut && r.chance(1, 10) { "panic" } else { "ok" })]),
                        None => continue,
                    }
                }
                65..=79 => match r.pick(&fs) {
                    Some(k) => op("resp", vec![json!(k)]),
                    None => continue,
                },
                80..=83 => match r.pick(&fs) {
                    Some(k) if self.bias != 1 => op("cancel", vec![json!(k)]),
                    _ => continue,
                },
                84..=89 => match (r.pick(&hs), free_h) {
                    (Some(h), Some(h2)) => op("clone", vec![json!(h), json!(h2)]),
                    _ => continue,
                },
                90..=91 => match (&self.lay, free_h) {
                    (Lay::None, _) | (_, None) => continue,
                    _ if self.relayered => continue,
                    (_, Some(h2)) => op("relayer", vec![json!(h2)]),
                },
                92..=94 if hs.len() > 1 => op("drop", vec![json!(r.pick(&hs).unwrap())]),
                95..=97 => {
                    let m = ["ready", "ready", "pending", "err1"][r.below(4) as usize];
                    if Mode::parse(m) == self.ctl.mode() {
                        continue;
                    }
                    op("mode", vec![json!(m)])
                }
                _ => continue,
            };
            if o.op == "poll" && hs.is_empty() {
                continue;
            }
            return Some(o);
        }
        None
    }
}

pub fn component() -> Component {
    Component {
        name: "ConcurrencyLimit",
        boot: Box::new(boot),
        random_cfg: Box::new(|r, p| {
            let nh = p["nh"].as_i64().unwrap();
            let nc = p["nc"].as_i64().unwrap();
            let hi = if r.chance(1, 2) { 4 } else { nc };
            let max = if r.chance(1, 12) { 0 } else { r.range(1, hi) };
            json!({"max": max, "kind": (["svc", "sem", "layer", "global", "globalsem", "builder"][r.below(6) as usize]),
                   "nh": r.range(2, nh), "nc": nc, "bias": r.below(2), "cut": p["cut"] == true})
        }),
    }
}
