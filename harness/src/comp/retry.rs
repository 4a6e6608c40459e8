//! tower::retry::Retry with a scriptable policy
use serde_json::json;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower::retry::{Policy, Retry, RetryLayer};
use tower_layer::Layer;
use vharness::mid::*;
use vharness::mock::{Ctl, Mock, MockErr};
use vharness::*;

struct Shared {
    dec: String,
    cl: bool,
    late: bool,
    /// (request value at the decision, future state)
    waits: Vec<(i64, Arc<Mutex<WaitState>>)>,
}
#[derive(Default)]
struct WaitState {
    done: bool,
    waker: Option<Waker>,
}
struct Pol {
    sh: Arc<Mutex<Shared>>,
    ctx: Ctx,
    att: i64,
    n: i64,
}
impl Clone for Pol {
    fn clone(&self) -> Pol {
        Pol { sh: self.sh.clone(), ctx: self.ctx.clone(), att: self.att, n: self.n }
    }
}
struct Wait(Arc<Mutex<WaitState>>);
impl Future for Wait {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut w = self.0.lock().unwrap();
        if w.done {
            return Poll::Ready(());
        }
        w.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl Policy<i64, i64, MockErr> for Pol {
    type Future = Wait;
    fn retry(&mut self, req: &mut i64, result: &mut Result<i64, MockErr>) -> Option<Wait> {
        self.att += 1;
        let mut sh = self.sh.lock().unwrap();
        self.ctx.log(json!(["pretry", *req, self.att.min(3), if result.is_ok() { "ok" } else { "err" }]));
        match sh.dec.as_str() {
            "none" => {
                self.ctx.log(json!(["policy asked during a call"]));
                None
            }
            "stop" => None,
            "swap" => {
                *result = Ok(5000);
                None
            }
            d => {
                if d == "mut" && *req < 100 {
                    *req += 100;
                }
                let w = Arc::new(Mutex::new(WaitState { done: !sh.late, waker: None }));
                let q = *req;
                sh.waits.push((q % 100, w.clone()));
                Some(Wait(w))
            }
        }
    }
    fn clone_request(&mut self, req: &i64) -> Option<i64> {
        self.n += 1;
        self.ctx.log(json!(["pclone", *req, self.n.min(3)]));
        if self.sh.lock().unwrap().cl { Some(*req) } else { None }
    }
}

pub fn component() -> Component {
    Component {
        name: "Retry",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let ctl = Ctl::new(&ctx, 0);
            let sh = Arc::new(Mutex::new(Shared { dec: "stop".into(), cl: true, late: false, waits: vec![] }));
            let pol = Pol { sh: sh.clone(), ctx: ctx.clone(), att: 0, n: 0 };
            let svc: Retry<Pol, Mock> = if c["kind"] == "builder" {
                tower::ServiceBuilder::new().retry(pol).service(ctl.service())
            } else if c["kind"] == "layer" {
                RetryLayer::new(pol).layer(ctl.service())
            } else {
                Retry::new(pol, ctl.service())
            };
            let mut m = Mid::new(ctx, clock, vec![ctl], wrap_clone(svc, mock_err));
            m.nh = c["nh"].as_u64().unwrap_or(2) as usize;
            m.nk = c["nk"].as_u64().unwrap_or(4) as usize;
            m.w = Weights { poll: 20, call: 20, resp: 30, finish: 20, cancel: 2, mode: 5, clone: 1, more: 16, ..Weights::default() };
            let sh1 = sh.clone();
            let set = move |sh: &Arc<Mutex<Shared>>, d: Option<&str>, cl: &J, late: Option<&J>| {
                let mut s = sh.lock().unwrap();
                s.dec = d.unwrap_or("none").to_string();
                s.cl = cl.as_bool().unwrap();
                s.late = late.map_or(false, |l| l.as_bool().unwrap());
            };
            let sh0 = sh.clone();
            m.pre = Some(Box::new(move |o| match o.op.as_str() {
                "call" => set(&sh0, None, &o.a[2], None),
                "resp" => set(&sh0, Some(o.s(1)), &o.a[2], Some(&o.a[3])),
                _ => {}
            }));
            // some runs retry for ever
            let mut keep = None;
            m.amend = Some(Box::new(move |r, o| {
                let keep = *keep.get_or_insert_with(|| r.chance(1, 4));
                let mut d = ["stop", "retry", "retry", "mut", "swap"][r.below(5) as usize];
                let (mut cl, late) = (!r.chance(1, 5), r.chance(1, 3));
                if keep && !r.chance(1, 50) {
                    (d, cl) = ("retry", true);
                }
                match o.op.as_str() {
                    "call" => o.a.push(json!(cl)),
                    "resp" => o.a.extend([json!(d), json!(cl), json!(late)]),
                    _ => {}
                }
            }));
            let sh1 = sh.clone();
            m.extra = Some(Box::new(move |o, _, _| match o.op.as_str() {
                "pdone" => {
                    let w = {
                        let s = sh1.lock().unwrap();
                        let found = s.waits.iter().rev().find(|(q, _)| *q == o.i(0)).map(|(_, w)| w.clone());
                        found
                    };
                    match w {
                        None => json!(["no such wait"]),
                        Some(w) => {
                            let waker = {
                                let mut w = w.lock().unwrap();
                                w.done = true;
                                w.waker.take()
                            };
                            if let Some(k) = waker {
                                k.wake();
                            }
                            json!(["ok"])
                        }
                    }
                }
                x => panic!("harness: op {}", x),
            }));
            m.more = Some(Box::new(move |r| {
                let s = sh.lock().unwrap();
                // a wait that is still alive belongs to a request that is still waiting
                let open: Vec<i64> =
                    s.waits.iter().filter(|(_, w)| Arc::strong_count(w) > 1 && !w.lock().unwrap().done).map(|(q, _)| *q).collect();
                r.pick(&open).map(|k| op("pdone", vec![json!(k)]))
            }));
            Box::new(m)
        }),
        random_cfg: Box::new(|r, p| {
            json!({"kind": (["new", "layer", "builder"][r.below(3) as usize]), "nh": r.range(1, p["nh"].as_i64().unwrap()), "nk": p["nk"]})
        }),
    }
}
