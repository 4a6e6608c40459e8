//! RateLimit, LoadShed, Timeout
use serde_json::json;
use std::time::Duration;
use tower::limit::rate::{Rate, RateLimit, RateLimitLayer};
use tower::load_shed::{error::Overloaded, LoadShed, LoadShedLayer};
use tower::timeout::{error::Elapsed, Timeout, TimeoutLayer};
use tower_layer::Layer;
use vharness::mid::*;
use vharness::mock::{Ctl, Mock};
use vharness::*;

fn unit(c: &J) -> u64 {
    1000 / c["u"].as_u64().unwrap()
}
fn ms(c: &J, k: &str) -> Duration {
    match c[k].as_u64().unwrap() {
        // the specification's longest time
        n if n >= 1 << 30 => Duration::MAX,
        n => Duration::from_micros(n * unit(c)),
    }
}
fn box_err(e: tower::BoxError) -> J {
    if e.downcast_ref::<Overloaded>().is_some() {
        json!(["err", "overloaded"])
    } else if e.downcast_ref::<Elapsed>().is_some() {
        json!(["err", "elapsed"])
    } else {
        json!(["err", e.to_string()])
    }
}
fn kind(c: &J) -> &str {
    c["kind"].as_str().unwrap_or("new")
}
fn nat(c: &J, k: &str, d: u64) -> usize {
    c[k].as_u64().unwrap_or(d) as usize
}
fn advs(c: &J) -> Vec<u64> {
    c["advs"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default()
}

pub fn rate() -> Component {
    Component {
        name: "RateLimit",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let ctl = Ctl::new(&ctx, 0).auto();
            let num = match c["num"].as_u64().unwrap() {
                // numbers that a run never uses up
                n if n >= 1 << 29 => [u64::MAX, (1 << 32) + 1, 1 << 32, 1 << 31, (1 << 63) + 1][(n - (1 << 29)) as usize],
                n => n,
            };
            let svc: RateLimit<Mock> = {
                let _g = clock.enter();
                if kind(c) == "builder" {
                    tower::ServiceBuilder::new().rate_limit(num, ms(c, "per")).service(ctl.service())
                } else if kind(c) == "layer" {
                    RateLimitLayer::new(num, ms(c, "per")).layer(ctl.service())
                } else {
                    RateLimit::new(ctl.service(), Rate::new(num, ms(c, "per")))
                }
            };
            let mut m = Mid::new(ctx, clock, vec![ctl], wrap(svc, mock_err));
            m.instant = true;
            m.w = Weights { poll: 30, call: 40, resp: 0, finish: 0, cancel: 0, mode: 3, adv: 12, ..Weights::default() };
            m.advs = advs(c);
            m.unit = unit(c);
            Box::new(m)
        }),
        random_cfg: Box::new(|r, _| {
            let per = if r.chance(1, 2) { r.range(1, 6) } else if r.chance(1, 6) { r.range(1, 300_000_000) } else { r.range(1, 100_000) };
            let num = if r.chance(1, 2) { r.range(1, 4) } else if r.chance(1, 8) { (1 << 29) + r.range(0, 4) } else if r.chance(1, 8) { *r.pick(&[256, 257, 65536, 65537]).unwrap() } else { r.range(1, 30) };
            let mut a = vec![1, per, (per / 2).max(1), (per - 1).max(1), per + 1, per * 2 + 1];
            a.push(r.range(1, per));
            json!({"u": r.pick(&[1, 4]), "num": num, "per": per, "kind": (["new", "layer", "builder"][r.below(3) as usize]), "advs": a})
        }),
    }
}

pub fn shed() -> Component {
    Component {
        name: "LoadShed",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let ctl = Ctl::new(&ctx, 0);
            let svc: LoadShed<Mock> =
                if kind(c) == "builder" { tower::ServiceBuilder::new().load_shed().service(ctl.service()) } else if kind(c) == "layer" { LoadShedLayer::new().layer(ctl.service()) } else { LoadShed::new(ctl.service()) };
            let mut m = Mid::new(ctx, clock, vec![ctl], wrap_clone(svc, box_err));
            m.nh = nat(c, "nh", 2);
            m.nk = nat(c, "nk", 6);
            m.eager = true;
            m.w = Weights { poll: 25, call: 25, mode: 14, clone: 2, ..Weights::default() };
            Box::new(m)
        }),
        random_cfg: Box::new(|r, p| {
            json!({"kind": (["new", "layer", "builder"][r.below(3) as usize]), "nh": r.range(1, p["nh"].as_i64().unwrap()), "nk": p["nk"]})
        }),
    }
}

pub fn timeout() -> Component {
    Component {
        name: "Timeout",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let ctl = Ctl::new(&ctx, 0);
            let svc: Timeout<Mock> =
                if kind(c) == "builder" { tower::ServiceBuilder::new().timeout(ms(c, "t")).service(ctl.service()) } else if kind(c) == "layer" { TimeoutLayer::new(ms(c, "t")).layer(ctl.service()) } else { Timeout::new(ctl.service(), ms(c, "t")) };
            let mut m = Mid::new(ctx, clock, vec![ctl], wrap_clone(svc, box_err));
            m.nh = nat(c, "nh", 2);
            m.nk = nat(c, "nk", 6);
            m.w = Weights { poll: 25, call: 25, mode: 4, clone: 2, adv: 20, ..Weights::default() };
            m.advs = advs(c);
            m.unit = unit(c);
            Box::new(m)
        }),
        random_cfg: Box::new(|r, p| {
            let t = match r.below(4) {
                0 => r.range(0, 3),
                1 => r.range(1, 30),
                2 if r.chance(1, 3) => 1 << 30,
                2 if r.chance(1, 2) => r.range(1, 300_000_000),
                _ => r.range(1, 100_000),
            };
            let (t0, t) = (t, if t < 1 << 30 { t } else { 200_000 });
            let a = vec![1, t.max(1), (t / 2).max(1), (t - 1).max(1), t + 1, r.range(1, t.max(1)), (t / 3).max(1)];
            json!({"u": r.pick(&[1, 4]), "t": t0, "kind": (["new", "layer", "builder"][r.below(3) as usize]), "nh": r.range(1, p["nh"].as_i64().unwrap()), "nk": p["nk"], "advs": a})
        }),
    }
}
