//! Filter, AsyncFilter, Hedge
use serde_json::json;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tower::filter::{AsyncFilter, AsyncFilterLayer, AsyncPredicate, Filter, FilterLayer, Predicate};
use tower::hedge::{Hedge, Policy};
use tower::BoxError;
use tower_layer::Layer;
use vharness::mid::*;
use vharness::mock::{Ctl, Mock};
use vharness::*;

fn nat(c: &J, k: &str, d: u64) -> usize {
    c[k].as_u64().unwrap_or(d) as usize
}
fn box_err(e: BoxError) -> J {
    json!(["err", e.to_string()])
}

#[derive(Default)]
struct Gate {
    verdict: Option<String>,
    waker: Option<Waker>,
}
struct CheckFut {
    g: Arc<Mutex<Gate>>,
    req: i64,
}
fn verdict(v: &str, req: i64) -> Result<i64, BoxError> {
    match v {
        "reject" => Err("rejected".into()),
        "mut" => Ok(req + 100),
        _ => Ok(req),
    }
}
/// asks the filter itself, without a request on its way
type Ask = Box<dyn FnMut(&mut dyn std::any::Any, i64, &Ctx) -> J>;
fn ask_sync<P: Predicate<i64, Request = i64> + 'static>(_: &Filter<Mock, P>) -> Ask {
    Box::new(|s, q, _| match s.downcast_mut::<Filter<Mock, P>>().unwrap().check(q) {
        Ok(v) => json!(["ok", v]),
        Err(e) => box_err(e),
    })
}
fn ask_async<P: AsyncPredicate<i64, Request = i64> + 'static>(_: &AsyncFilter<Mock, P>) -> Ask {
    Box::new(|s, q, cx| {
        let s = s.downcast_mut::<AsyncFilter<Mock, P>>().unwrap();
        let mut f = Box::pin(s.check(q));
        let p = cx.poll("ask", |cx| f.as_mut().poll(cx));
        cx.forget("ask");
        poll_j(p, |v| json!(["ok", v]), box_err)
    })
}
impl Future for CheckFut {
    type Output = Result<i64, BoxError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = self.g.lock().unwrap();
        match &g.verdict {
            Some(v) => Poll::Ready(verdict(v, self.req)),
            None => {
                g.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub fn filter() -> Component {
    Component {
        name: "Filter",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let ctl = Ctl::new(&ctx, 0);
            let is_async = c["async"].as_bool().unwrap();
            let now: Arc<Mutex<String>> = Default::default();
            let gates: Arc<Mutex<HashMap<i64, Arc<Mutex<Gate>>>>> = Default::default();
            let (svc, mut ask) = if is_async {
                let (cx, gs, n) = (ctx.clone(), gates.clone(), now.clone());
                let pred = move |req: i64| {
                    cx.log(json!(["check", req]));
                    let g: Arc<Mutex<Gate>> = Default::default();
                    let now = n.lock().unwrap().clone();
                    if now != "later" {
                        g.lock().unwrap().verdict = Some(now);
                    } else {
                        gs.lock().unwrap().insert(req, g.clone());
                    }
                    CheckFut { g, req }
                };
                let s: AsyncFilter<Mock, _> = match c["kind"].as_str() {
                    Some("layer") => AsyncFilterLayer::new(pred).layer(ctl.service()),
                    Some("flayer") => AsyncFilter::<Mock, _>::layer(pred).layer(ctl.service()),
                    Some("builder") => tower::ServiceBuilder::new().filter_async(pred).service(ctl.service()),
                    Some("ext") => tower::ServiceExt::<i64>::filter_async(ctl.service(), pred),
                    _ => AsyncFilter::new(ctl.service(), pred),
                };
                let a = ask_async(&s);
                (wrap_clone(s, box_err), a)
            } else {
                let (cx, n) = (ctx.clone(), now.clone());
                let pred = move |req: i64| {
                    cx.log(json!(["check", req]));
                    verdict(&n.lock().unwrap(), req)
                };
                let s: Filter<Mock, _> = match c["kind"].as_str() {
                    Some("layer") => FilterLayer::new(pred).layer(ctl.service()),
                    Some("builder") => tower::ServiceBuilder::new().filter(pred).service(ctl.service()),
                    Some("ext") => tower::ServiceExt::<i64>::filter(ctl.service(), pred),
                    Some("flayer") => Filter::<Mock, _>::layer(pred).layer(ctl.service()),
                    _ => Filter::new(ctl.service(), pred),
                };
                let a = ask_sync(&s);
                (wrap_clone(s, box_err), a)
            };
            let mut m = Mid::new(ctx, clock, vec![ctl], svc);
            m.nh = nat(c, "nh", 2);
            m.nk = nat(c, "nk", 4);
            m.w = Weights { poll: 25, call: 25, resp: 18, finish: 10, cancel: 3, mode: 6, clone: 1, more: if is_async { 14 } else { 2 }, ..Weights::default() };
            let n1 = now;
            m.pre = Some(Box::new(move |o| {
                match o.op.as_str() {
                    "call" => *n1.lock().unwrap() = o.s(2).to_string(),
                    "ask" => *n1.lock().unwrap() = o.s(1).to_string(),
                    _ => (),
                }
            }));
            m.amend = Some(Box::new(move |r, o| {
                if o.op == "call" {
                    let v = if is_async { "later" } else { *r.pick(&["pass", "reject", "mut"]).unwrap() };
                    o.a.push(json!(v));
                }
            }));
            let g1 = gates.clone();
            m.extra = Some(Box::new(move |o, cx, hs| match o.op.as_str() {
                "ask" => ask(hs.get_mut(&o.u(0)).expect("harness: handle").any(), 9, cx),
                "check" => {
                    let g = match g1.lock().unwrap().get(&o.i(0)) {
                        Some(g) => g.clone(),
                        None => return json!(["no such check"]),
                    };
                    let w = {
                        let mut g = g.lock().unwrap();
                        g.verdict = Some(o.s(1).to_string());
                        g.waker.take()
                    };
                    if let Some(w) = w {
                        w.wake();
                    }
                    json!(["ok"])
                }
                x => panic!("harness: op {}", x),
            }));
            m.more = Some(Box::new(move |r| {
                let gs = gates.lock().unwrap();
                let mut open: Vec<i64> = gs
                    .iter()
                    .filter(|(_, g)| Arc::strong_count(g) > 1 && g.lock().unwrap().verdict.is_none())
                    .map(|(k, _)| *k)
                    .collect();
                open.sort();
                let v = *r.pick(&["pass", "reject", "mut"]).unwrap();
                if r.chance(1, 4) {
                    return Some(op("ask", vec![json!(1), json!(v)]));
                }
                r.pick(&open).map(|k| op("check", vec![json!(k), json!(v)]))
            }));
            Box::new(m)
        }),
        random_cfg: Box::new(|r, p| {
            let a = r.chance(1, 2);
            let kind = ["new", "layer", "flayer", "builder", "ext"][r.below(5) as usize];
            json!({"async": a, "kind": kind, "nh": r.range(1, p["nh"].as_i64().unwrap()), "nk": p["nk"]})
        }),
    }
}

#[derive(Clone)]
struct HPol {
    ctx: Ctx,
    sh: Arc<Mutex<(bool, bool)>>,
}
impl Policy<i64> for HPol {
    fn clone_request(&self, req: &i64) -> Option<i64> {
        self.sh.lock().unwrap().0.then_some(*req)
    }
    fn can_retry(&self, req: &i64) -> bool {
        self.ctx.log(json!(["hretry", *req]));
        self.sh.lock().unwrap().1
    }
}

pub fn hedge() -> Component {
    Component {
        name: "Hedge",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let ctl = Ctl::new(&ctx, 0);
            let sh: Arc<Mutex<(bool, bool)>> = Default::default();
            let pol = HPol { ctx: ctx.clone(), sh: sh.clone() };
            let lat: Vec<u64> = c["lat"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let (min, pct, per) = (c["min"].as_u64().unwrap(), c["pct"].as_u64().unwrap() as f32 / 100.0, Duration::from_millis(c["per"].as_u64().unwrap()));
            let svc: Hedge<Mock, HPol> = {
                let _g = clock.enter();
                if lat.is_empty() {
                    Hedge::new::<i64>(ctl.service(), pol, min, pct, per)
                } else {
                    Hedge::new_with_mock_latencies::<i64>(ctl.service(), pol, min, pct, per, &lat)
                }
            };
            let mut m = Mid::new(ctx, clock, vec![ctl.clone()], wrap(svc, box_err));
            m.nk = nat(c, "nk", 4);
            m.unit = 1000 / nat(c, "u", 1) as u64;
            m.w = Weights { poll: 22, call: 22, resp: 30, finish: 14, cancel: 2, mode: 4, adv: 18, ..Weights::default() };
            m.modes = vec!["ready", "ready", "ready", "pending", "err1"];
            if c["cut"] == true {
                m.cut = vec!["call", "resp", "cancel"];
                m.w = Weights { poll: 22, call: 26, resp: 12, finish: 20, cancel: 1, mode: 1, adv: 12, ..Weights::default() };
                m.rs = vec!["ok"];
                // (what the policy answers is one setting for all)
                m.apart = Some(Box::new(|a, b| a.op == "resp" && b.op == "resp" && a.a[1] != b.a[1]));
            }
            m.advs = c["advs"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
            m.pre = Some(Box::new(move |o| match o.op.as_str() {
                "call" => sh.lock().unwrap().0 = o.a[2].as_bool().unwrap(),
                "resp" => sh.lock().unwrap().1 = o.a[1].as_bool().unwrap(),
                _ => {}
            }));
            m.amend = Some(Box::new(move |r, o| match o.op.as_str() {
                "call" => o.a.push(json!(!r.chance(1, 5))),
                "resp" => o.a.push(json!(!r.chance(1, 5))),
                "finish" => {
                    let n = ctl.open_calls(o.i(1)).len() as i64;
                    let w = r.range(1, n.max(1));
                    o.a.push(json!(w));
                }
                _ => {}
            }));
            Box::new(m)
        }),
        random_cfg: Box::new(|r, p| {
            let per = *r.pick(&[20, 100, 1000, 5000, 60_000]).unwrap();
            let top = *r.pick(&[3, 60, 60, 3000, 100_000]).unwrap();
            let n = if r.chance(1, 4) { 120 } else { 12 };
            let lat: Vec<i64> = if r.chance(1, 2) { vec![] } else { (0..r.range(1, n)).map(|_| r.range(0, top)).collect() };
            let pct = *r.pick(&[0, 25, 50, 75, 90, 95, 100]).unwrap();
            let min = if r.chance(1, 6) { r.range(0, 40) } else { r.range(0, 4) };
            let u = *r.pick(&[1, 1, 4]).unwrap();
            if p["near"] == true {
                // one recorded latency: time stops right around the moment at which it makes the second attempt due
                let v = *r.pick(&[1, 2, 255, 257, 300, 513, 1001, 1025, 2047, 2048, 2049, 2051, 3001, 5001, 5003, 40_961, 100_001]).unwrap();
                let mut g = 1;
                while v / g >= 2048 {
                    g *= 2;
                }
                let top = v / g * g + g - 1;
                let lat = vec![v; r.range(1, 3) as usize];
                let pct = *r.pick(&[0, 50, 100]).unwrap();
                return json!({"u": 1, "lat": lat, "min": 1, "pct": pct, "per": 3_600_000, "nk": p["nk"], "advs": [1, (v / 2).max(1), (v - 1).max(1), v, (top - 1).max(1), top]});
            }
            if p["cut"] == true && r.chance(2, 3) {
                // soon every latency matters
                let pct = *r.pick(&[0, 50, 100, 100]).unwrap();
                return json!({"u": 1, "lat": vec![5; r.range(0, 1) as usize], "min": r.range(1, 4), "pct": pct, "per": 20, "nk": p["nk"], "advs": [1, 2, 5, 10, 10], "cut": true});
            }
            // time also stops right around some of the latencies
            let mut near = vec![];
            for _ in 0..3 {
                if let Some(&v) = r.pick(&lat) {
                    let mut g = 1;
                    while v / g >= 2048 {
                        g *= 2;
                    }
                    let top = v / g * g + g - 1;
                    near.extend([u * v, u * (top - 1).max(1), u * top]);
                }
            }
            let advs = [vec![1, 2, 3, 7, 10, u * top, u * per / 2, u * per, u * per - 1, 2 * u * per], near].concat();
            json!({"u": u, "lat": lat, "min": min, "pct": pct, "per": per, "nk": p["nk"],
                   "advs": advs, "cut": p["cut"] == true})
        }),
    }
}
