//! Steer, Reconnect, SpawnReady
use serde_json::json;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tower::reconnect::Reconnect;
use tower::spawn_ready::{SpawnReady, SpawnReadyLayer};
use tower::steer::Steer;
use tower_layer::Layer;
use tower_service::Service;
use vharness::mid::*;
use vharness::mock::{Ctl, Mock, MockErr};
use vharness::*;

fn nat(c: &J, k: &str, d: u64) -> usize {
    c[k].as_u64().unwrap_or(d) as usize
}
fn box_err(e: tower::BoxError) -> J {
    json!(["err", e.to_string()])
}

pub fn steer() -> Component {
    Component {
        name: "Steer",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let ns = nat(c, "ns", 2);
            let ctls: Vec<Ctl> = (1..=ns).map(|i| Ctl::new(&ctx, i as i64)).collect();
            let cx = ctx.clone();
            let picker = move |req: &i64, svcs: &[Mock]| -> usize {
                cx.log(json!(["pick", *req, svcs.len()]));
                (*req / 100 - 1) as usize
            };
            let svc = Steer::new(ctls.iter().map(|c| c.service()).collect::<Vec<_>>(), picker);
            let mut m = Mid::new(ctx, clock, ctls, wrap_clone(svc, mock_err));
            m.nh = nat(c, "nh", 2);
            m.nk = nat(c, "nk", 4);
            m.w = Weights { poll: 30, call: 20, resp: 10, finish: 10, cancel: 2, clone: 4, drop: 2, mode: 16, ..Weights::default() };
            m.modes = vec!["ready", "ready", "ready", "pending", "pending", "err1"];
            m.amend = Some(Box::new(move |r, o| {
                if o.op == "call" {
                    let k = o.i(1);
                    o.a.push(json!(100 * r.range(1, ns as i64) + k));
                }
            }));
            Box::new(m)
        }),
        random_cfg: Box::new(|r, p| json!({"ns": p["ns"], "nh": r.range(1, p["nh"].as_i64().unwrap()), "nk": p["nk"]})),
    }
}

struct Maker {
    mk: Mock,
    conns: Vec<Ctl>,
    next: Arc<Mutex<usize>>,
}
impl Service<i64> for Maker {
    type Response = Mock;
    type Error = MockErr;
    type Future = Pin<Box<dyn Future<Output = Result<Mock, MockErr>>>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MockErr>> {
        self.mk.poll_ready(cx)
    }
    fn call(&mut self, t: i64) -> Self::Future {
        let f = self.mk.call(t);
        let (conns, next) = (self.conns.clone(), self.next.clone());
        Box::pin(async move {
            f.await?;
            let mut n = next.lock().unwrap();
            let c = conns[*n].service();
            *n = (*n + 1) % conns.len();
            Ok(c)
        })
    }
}

pub fn reconnect() -> Component {
    Component {
        name: "Reconnect",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let conns: Vec<Ctl> = (1..=3).map(|i| Ctl::new(&ctx, i)).collect();
            let mk = Ctl::new(&ctx, 8).tagged("make");
            let with = c["kind"] == "with";
            let maker = Maker { mk: mk.service(), conns: conns.clone(), next: Arc::new(Mutex::new(if with { 1 } else { 0 })) };
            let svc: Reconnect<Maker, i64> =
                if with { Reconnect::with_connection(conns[0].service(), maker, 5) } else { Reconnect::new(maker, 5) };
            let mut ctls = conns;
            ctls.push(mk);
            let mut m = Mid::new(ctx, clock, ctls, wrap(svc, box_err));
            m.nk = nat(c, "nk", 4);
            m.w = Weights { poll: 30, call: 18, resp: 10, finish: 16, cancel: 2, mode: 12, ..Weights::default() };
            m.modes = vec!["ready", "ready", "ready", "pending", "err1"];
            Box::new(m)
        }),
        random_cfg: Box::new(|r, p| json!({"kind": (["new", "with"][r.below(2) as usize]), "nk": p["nk"]})),
    }
}

pub fn spawn_ready() -> Component {
    Component {
        name: "SpawnReady",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let ctl = Ctl::new(&ctx, 0);
            let svc: SpawnReady<Mock> = match c["kind"].as_str() {
                Some("layer") => SpawnReadyLayer::new().layer(ctl.service()),
                Some("slayer") => SpawnReady::<Mock>::layer().layer(ctl.service()),
                _ => SpawnReady::new(ctl.service()),
            };
            let mut m = Mid::new(ctx, clock, vec![ctl.clone()], wrap(svc, box_err));
            m.settle = true;
            m.err_final = true;
            m.nk = nat(c, "nk", 3);
            m.w = Weights { poll: 30, call: 18, resp: 10, finish: 10, cancel: 2, mode: 16, more: 3, ..Weights::default() };
            m.modes = vec!["ready", "ready", "ready", "pending", "pending", "pending", "err1"];
            m.extra = Some(Box::new(move |o, _, _| match o.op.as_str() {
                "live" => json!(["ok", ctl.live()]),
                x => panic!("harness: op {}", x),
            }));
            let mut gone = false;
            m.more = Some(Box::new(move |r| {
                Some(if !gone && r.chance(1, 12) {
                    gone = true;
                    op("drop", vec![json!(1)])
                } else {
                    op("live", vec![])
                })
            }));
            Box::new(m)
        }),
        random_cfg: Box::new(|r, p| json!({"kind": (["new", "layer", "slayer"][r.below(3) as usize]), "nk": p["nk"]})),
    }
}
