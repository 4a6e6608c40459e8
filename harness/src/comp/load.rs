//! load measures
use futures_core::Stream;
use serde_json::json;
use std::any::Any;
use std::collections::{HashMap, VecDeque};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tower::discover::Change;
use tower::load::peak_ewma::PeakEwmaDiscover;
use tower::load::pending_requests::PendingRequestsDiscover;
use tower::load::{CompleteOnResponse, Constant, Load, PeakEwma, PendingRequests, TrackCompletion};
use vharness::mid::*;
use vharness::mock::{Ctl, Mock, MockErr};
use vharness::*;

fn nat(c: &J, k: &str, d: u64) -> usize {
    c[k].as_u64().unwrap_or(d) as usize
}
/// keeps the handle of a response until it is released
#[derive(Clone, Default)]
struct Hold(Arc<Mutex<HashMap<i64, Box<dyn Any>>>>);
impl<H: 'static> TrackCompletion<H, i64> for Hold {
    type Output = i64;
    fn track_completion(&self, handle: H, v: i64) -> i64 {
        self.0.lock().unwrap().insert(v - 1000, Box::new(handle));
        v
    }
}
/// a stream that offers new services and says a few other things
struct Some2(VecDeque<Option<Result<Change<i64, Mock>, MockErr>>>);
impl Stream for Some2 {
    type Item = Result<Change<i64, Mock>, MockErr>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match self.0.pop_front() {
            Some(Some(s)) => Poll::Ready(Some(s)),
            Some(None) => Poll::Pending,
            None => Poll::Ready(None),
        }
    }
}
fn script(mocks: Vec<Mock>) -> Some2 {
    let mut q = VecDeque::new();
    for (i, m) in mocks.into_iter().enumerate() {
        q.push_back(Some(Ok(Change::Insert(7 + i as i64, m))));
        q.push_back(None);
        q.push_back(Some(Ok(Change::Remove(7 + i as i64))));
        q.push_back(Some(Err(MockErr("broken".into()))));
    }
    Some2(q)
}
/// the services that come through a discovery wrapper; everything else has to come through unchanged
fn through<D, S>(ctx: &Ctx, mut d: D, n: usize) -> Vec<S>
where
    D: Stream<Item = Result<Change<i64, S>, MockErr>> + Unpin,
{
    let mut out = vec![];
    let mut poll = || {
        let p = ctx.poll("disc", |cx| Pin::new(&mut d).poll_next(cx));
        ctx.forget("disc");
        p
    };
    for i in 0..n {
        match poll() {
            Poll::Ready(Some(Ok(Change::Insert(k, s)))) if k == 7 + i as i64 => out.push(s),
            _ => panic!("the new service did not come through the discovery wrapper"),
        }
        assert!(poll().is_pending(), "something was made up by the discovery wrapper");
        assert!(matches!(poll(), Poll::Ready(Some(Ok(Change::Remove(k)))) if k == 7 + i as i64), "a removal did not come through the discovery wrapper");
        assert!(matches!(poll(), Poll::Ready(Some(Err(e))) if e.0 == "broken"), "an error did not come through the discovery wrapper");
    }
    assert!(matches!(poll(), Poll::Ready(None)), "the end did not come through the discovery wrapper");
    out
}
type Reader = Box<dyn Fn(&mut Box<dyn DynSvc>) -> f64>;
/// maybe inside limits that nobody notices: their load is that of what is inside
fn put<S>(kind: &str, s: S, read: fn(<S as Load>::Metric) -> f64) -> (Box<dyn DynSvc>, Reader)
where
    S: tower_service::Service<i64, Response = i64, Error = MockErr> + Load + 'static,
    S::Future: 'static,
{
    fn go<W>(w: W, read: fn(<W as Load>::Metric) -> f64) -> (Box<dyn DynSvc>, Reader)
    where
        W: tower_service::Service<i64, Response = i64, Error = MockErr> + Load + 'static,
        W::Future: 'static,
    {
        (wrap(w, mock_err), Box::new(move |h| read(h.any().downcast_ref::<W>().unwrap().load())))
    }
    let rate = |n| tower::limit::rate::Rate::new(n, Duration::from_secs(1));
    match kind {
        "climit" => go(tower::limit::ConcurrencyLimit::new(s, 1000), read),
        "rate" => go(tower::limit::RateLimit::new(s, rate(1_000_000)), read),
        "limits" => go(tower::limit::RateLimit::new(tower::limit::ConcurrencyLimit::new(s, 1000), rate(1_000_000)), read),
        _ => go(s, read),
    }
}

pub fn load() -> Component {
    Component {
        name: "Load",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let kind = c["kind"].as_str().unwrap();
            let disc = kind == "disc";
            let ns = nat(c, "ns", 1);
            let ctl: Vec<Ctl> = (1..=ns).map(|i| Ctl::new(&ctx, i as i64)).collect();
            let hold = Hold::default();
            let held = c["track"] == "hold";
            let ewma = c["what"] == "ewma";
            // times are counted in units of so many microseconds
            let unit = nat(c, "unit", 1000) as u64;
            let ns_per_unit = unit as f64 * 1e3;
            let rtt = Duration::from_micros(nat(c, "rtt", 1024) as u64 * unit);
            let decay = 1024.0 * ns_per_unit / std::f64::consts::LN_2;
            let all = || script(ctl.iter().map(|c| c.service()).collect());
            let whole = Duration::from_nanos(decay as u64);
            let mut svcs: Vec<(Box<dyn DynSvc>, Reader)> = {
                let _g = clock.enter();
                let response = CompleteOnResponse::default;
                macro_rules! made {
                    ($through:expr, $direct:expr, $read:expr) => {
                        if disc {
                            through(&ctx, $through, ns).into_iter().map(|s| put(kind, s, $read)).collect()
                        } else {
                            ctl.iter().map(|c| put(kind, $direct(c.service()), $read)).collect()
                        }
                    };
                }
                match (c["what"].as_str().unwrap(), held) {
                    ("const", _) => made!(Constant::new(all(), 42i64), |s| Constant::new(s, 42i64), |m| m as f64),
                    ("pending", false) => made!(PendingRequestsDiscover::new::<i64>(all(), response()), |s| PendingRequests::new(s, response()), number),
                    ("pending", true) => made!(PendingRequestsDiscover::new::<i64>(all(), hold.clone()), |s| PendingRequests::new(s, hold.clone()), number),
                    ("ewma", false) => made!(
                        PeakEwmaDiscover::new::<i64>(all(), rtt, whole, response()),
                        |s| PeakEwma::new(s, rtt, decay, response()),
                        |m| number(m)
                    ),
                    _ => made!(
                        PeakEwmaDiscover::new::<i64>(all(), rtt, whole, hold.clone()),
                        |s| PeakEwma::new(s, rtt, decay, hold.clone()),
                        |m| number(m)
                    ),
                }
            };
            let mut reads: Vec<Reader> = vec![];
            let mut hs = vec![];
            for (s, r) in svcs.drain(..) {
                hs.push(s);
                reads.push(r);
            }
            let mut hs = hs.into_iter();
            let mut m = Mid::new(ctx, clock, ctl, hs.next().unwrap());
            m.h.extend(hs.enumerate().map(|(i, s)| (i + 2, s)));
            m.nk = nat(c, "nk", 3);
            m.unit = unit;
            m.panics = c["cut"] != true;
            m.w = Weights { poll: 25, call: 25, resp: 15, finish: 15, cancel: 3, mode: 3, adv: 10, more: 22, ..Weights::default() };
            m.advs = vec![1024, 2048, 3072];
            m.modes = vec!["ready", "ready", "pending", "err1"];
            let h2 = hold.clone();
            let read = Rc::new(move |o: &Op, h: &mut Box<dyn DynSvc>| {
                let x = reads[o.u(0) - 1](h);
                json!(["ok", (if ewma { x / ns_per_unit } else { x }).floor() as i64])
            });
            if c["cut"] == true {
                // `Load::load` takes a shared reference: it runs beside whatever happens to the responses
                m.cut = vec!["call", "resp", "cancel", "load", "poll"];
                let rd = read.clone();
                m.extra_part = Some(Box::new(move |o, h| rd(o, h)));
                // (a reading consists of two: the number of requests and the estimate)
                m.apart = Some(Box::new(move |a, b| ewma && a.op == "load" && ["resp", "cancel"].contains(&b.op.as_str())));
            }
            m.extra = Some(Box::new(move |o, _, h| match o.op.as_str() {
                "load" => read(o, h.get_mut(&o.u(0)).unwrap()),
                "release" => {
                    let x = h2.0.lock().unwrap().remove(&o.i(0));
                    json!([if x.is_some() { "ok" } else { "there is no handle" }])
                }
                x => panic!("harness: op {}", x),
            }));
            // a slot is in use until its handle is released
            m.busy = Some(Box::new({
                let h = hold.clone();
                move |k| h.0.lock().unwrap().contains_key(&(k as i64))
            }));
            m.more = Some(Box::new(move |r| {
                let mut ks: Vec<i64> = hold.0.lock().unwrap().keys().copied().collect();
                ks.sort();
                match r.pick(&ks) {
                    Some(k) if r.chance(1, 3) => Some(op("release", vec![json!(k)])),
                    _ => Some(op("load", vec![json!(r.range(1, ns as i64))])),
                }
            }));
            Box::new(m)
        }),
        random_cfg: Box::new(|r, p| {
            let kind = *r.pick(&["new", "disc", "disc", "climit", "rate", "limits"]).unwrap();
            let ns = if kind == "disc" { r.range(1, p["ns"].as_i64().unwrap()) } else { 1 };
            json!({"ns": ns, "what": r.pick(&["pending", "ewma", "ewma", "const"]), "track": r.pick(&["resp", "hold"]), "kind": kind,
                   "rtt": r.pick(&[1, 100, 1024, 5000]), "unit": r.pick(&[1, 10, 1000, 1000, 30000]), "nk": p["nk"], "cut": p["cut"] == true})
        }),
    }
}
