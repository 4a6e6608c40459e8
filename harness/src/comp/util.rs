//! CallAll, Oneshot and Ready, FutureService
use futures_core::Stream;
use serde_json::json;
use std::pin::Pin;
use std::task::Poll;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Context, Waker};
use tower::util::{future_service, CallAll, CallAllUnordered, FutureService, Oneshot, Ready, ReadyOneshot};
use tower::{Service, ServiceExt};
use vharness::feed::Feed;
use vharness::mid::*;
use vharness::mock::{Ctl, Mock, Mode};
use vharness::*;

fn nat(c: &J, k: &str, d: u64) -> usize {
    c[k].as_u64().unwrap_or(d) as usize
}

enum Either {
    O(Pin<Box<CallAll<Mock, Feed<i64>>>>),
    U(Pin<Box<CallAllUnordered<Mock, Feed<i64>>>>),
}
struct All {
    ctx: Ctx,
    a: Option<Either>,
    feed: Feed<i64>,
    ctl: Ctl,
    n: i64,
    nk: i64,
    busy: std::collections::BTreeSet<i64>,
    end: bool,
    taken: Option<Mock>,
}
impl Sut for All {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        match o.op.as_str() {
            "poll" => {
                let a = self.a.as_mut().unwrap();
                let p = self.ctx.poll("h1", |cx| match a {
                    Either::O(a) => a.as_mut().poll_next(cx),
                    Either::U(a) => a.as_mut().poll_next(cx),
                });
                match p {
                    Poll::Pending => json!(["pending"]),
                    Poll::Ready(None) => json!(["end"]),
                    Poll::Ready(Some(Ok(v))) => {
                        self.busy.remove(&(v - 1000));
                        json!(["ok", v])
                    }
                    Poll::Ready(Some(Err(e))) => mock_err(e),
                }
            }
            "feed" => {
                self.n = o.i(0);
                self.busy.insert(self.n);
                self.feed.feed(Some(self.n));
                json!(["ok"])
            }
            "end" => {
                self.end = true;
                self.feed.feed(None);
                json!(["ok"])
            }
            "finish" => match self.ctl.open_calls(o.i(0)).as_slice() {
                [n] => {
                    self.ctl.complete(*n, if o.s(1) == "ok" { Ok(1000 + o.i(0)) } else { Err(7) });
                    json!(["ok"])
                }
                x => json!(["open calls for this request", x.len()]),
            },
            "mode" => {
                self.ctl.set_mode(Mode::parse(o.s(1)));
                json!(["ok"])
            }
            "into" => {
                // either way to get the service back
                let m = match self.a.take().unwrap() {
                    Either::O(mut a) if self.n % 2 == 1 => a.as_mut().take_service(),
                    Either::U(mut a) if self.n % 2 == 1 => a.as_mut().take_service(),
                    Either::O(a) => Pin::into_inner(a).into_inner(),
                    Either::U(a) => Pin::into_inner(a).into_inner(),
                };
                self.taken = Some(m);
                self.ctx.take_log();
                self.ctx.forget("h1");
                json!(["ok", self.ctl.live(), self.ctl.outstanding().len()])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        self.a.as_ref()?;
        for _ in 0..50 {
            return Some(match r.below(100) {
                0..=34 => op("poll", vec![]),
                35..=54 if !self.end && !self.busy.iter().any(|k| (k - 1) % self.nk == self.n % self.nk) => op("feed", vec![json!(self.n + 1)]),
                55 if !self.end && r.chance(1, 8) => op("end", vec![]),
                56..=79 => match r.pick(&self.ctl.open_reqs()) {
                    Some(k) => {
                        if r.chance(1, 4) {
                            // its slot stays in use, as nobody can tell when the error was given out
                            op("finish", vec![json!(k), json!("err")])
                        } else {
                            op("finish", vec![json!(k), json!("ok")])
                        }
                    }
                    None => continue,
                },
                80..=98 => {
                    let m = *r.pick(&["ready", "ready", "ready", "pending", "pending", "err1"]).unwrap();
                    if self.ctl.mode() == Mode::parse(m) || m == "err1" && r.chance(3, 4) {
                        continue;
                    }
                    op("mode", vec![json!(0), json!(m)])
                }
                99 if r.chance(1, 5) => op("into", vec![]),
                _ => continue,
            });
        }
        None
    }
}
pub fn call_all() -> Component {
    Component {
        name: "CallAll",
        boot: Box::new(|c| {
            let ctx = Ctx::new();
            let ctl = Ctl::new(&ctx, 0);
            let feed = Feed::new(&ctx);
            let (s, f) = (ctl.service(), feed.clone());
            let a = match c["kind"].as_str().unwrap() {
                "all" => Either::O(Box::pin(s.call_all(f))),
                "new" => Either::O(Box::pin(CallAll::new(s, f))),
                "unord" => Either::U(Box::pin(CallAllUnordered::new(s, f))),
                "conv" => Either::U(Box::pin(s.call_all(f).unordered())),
                k => panic!("harness: kind {}", k),
            };
            Box::new(All { ctx, a: Some(a), feed, ctl, n: 0, nk: nat(c, "nk", 4) as i64, busy: Default::default(), end: false, taken: None })
        }),
        random_cfg: Box::new(|r, p| json!({"kind": r.pick(&["all", "new", "unord", "conv"]), "nk": p["nk"]})),
    }
}

// ------------------------------------------------------------------ oneshot, ready
enum Waiting {
    Shot(Pin<Box<Oneshot<Mock, i64>>>),
    Owned(Box<ReadyOneshot<Mock, i64>>),
    /// the future borrows the service: it is dropped first
    Borrowed(Box<Ready<'static, Mock, i64>>),
    Service,
    Called(Pin<Box<vharness::mock::MockFut>>),
}
struct Slot {
    w: Option<Waiting>,
    svc: Option<Box<Mock>>,
}
impl Drop for Slot {
    fn drop(&mut self) {
        self.w = None;
        self.svc = None;
    }
}
struct Shots {
    ctx: Ctx,
    ctl: Ctl,
    f: BTreeMap<usize, Slot>,
    nk: usize,
}
use std::collections::BTreeMap;
impl Sut for Shots {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        let t = |k: usize| format!("c{}", k);
        match o.op.as_str() {
            "start" => {
                let k = o.u(0);
                let svc = self.ctl.service();
                self.f.remove(&k);
                let slot = match o.s(1) {
                    "oneshot" => Slot { w: Some(Waiting::Shot(Box::pin(svc.oneshot(k as i64)))), svc: None },
                    "new" => Slot { w: Some(Waiting::Shot(Box::pin(Oneshot::new(svc, k as i64)))), svc: None },
                    "owned" => Slot { w: Some(Waiting::Owned(Box::new(svc.ready_oneshot()))), svc: None },
                    "ownednew" => Slot { w: Some(Waiting::Owned(Box::new(ReadyOneshot::new(svc)))), svc: None },
                    b => {
                        let mut s = Box::new(svc);
                        let p: &'static mut Mock = unsafe { &mut *(&mut *s as *mut Mock) };
                        let r = if b == "ready" { p.ready() } else { Ready::new(p) };
                        Slot { w: Some(Waiting::Borrowed(Box::new(r))), svc: Some(s) }
                    }
                };
                self.f.insert(k, slot);
                json!(["ok"])
            }
            "resp" => {
                let k = o.u(0);
                let ctx = self.ctx.clone();
                let slot = self.f.get_mut(&k).unwrap();
                let r = ctx.poll(&t(k), |cx| match slot.w.as_mut().unwrap() {
                    Waiting::Shot(f) => poll_j(f.as_mut().poll(cx), |v| json!(["ok", v]), mock_err),
                    Waiting::Called(f) => poll_j(f.as_mut().poll(cx), |v| json!(["ok", v]), mock_err),
                    Waiting::Owned(f) => match Pin::new(f).poll(cx) {
                        Poll::Pending => json!(["pending"]),
                        Poll::Ready(Err(e)) => mock_err(e),
                        Poll::Ready(Ok(s)) => {
                            slot.svc = Some(Box::new(s));
                            json!(["service"])
                        }
                    },
                    Waiting::Borrowed(f) => match Pin::new(f).poll(cx) {
                        Poll::Pending => json!(["pending"]),
                        Poll::Ready(Err(e)) => mock_err(e),
                        Poll::Ready(Ok(_)) => json!(["service"]),
                    },
                    Waiting::Service => panic!("harness: nothing to poll"),
                });
                match r[0].as_str().unwrap() {
                    "pending" => {}
                    "service" => {
                        slot.w = Some(Waiting::Service);
                        ctx.forget(&t(k));
                    }
                    _ => {
                        self.f.remove(&k);
                        ctx.forget(&t(k));
                    }
                }
                r
            }
            "use" => {
                let k = o.u(0);
                let slot = self.f.get_mut(&k).unwrap();
                let f = slot.svc.as_mut().unwrap().call(k as i64);
                slot.w = Some(Waiting::Called(Box::pin(f)));
                json!(["ok"])
            }
            "finish" => match self.ctl.open_calls(o.i(1)).as_slice() {
                [n] => {
                    self.ctl.complete(*n, if o.s(2) == "ok" { Ok(1000 + o.i(1)) } else { Err(7) });
                    json!(["ok"])
                }
                x => json!(["open calls for this request", x.len()]),
            },
            "cancel" => {
                self.f.remove(&o.u(0));
                self.ctx.forget(&t(o.u(0)));
                json!(["ok"])
            }
            "live" => json!(["ok", self.ctl.live()]),
            "mode" => {
                self.ctl.set_mode(Mode::parse(o.s(1)));
                json!(["ok"])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        let used: Vec<usize> = self.f.keys().copied().collect();
        for _ in 0..50 {
            return Some(match r.below(100) {
                0..=24 => match (1..=self.nk).find(|k| !self.f.contains_key(k)) {
                    Some(k) => op("start", vec![json!(k), json!(r.pick(&["oneshot", "new", "owned", "ownednew", "ready", "readynew"]).unwrap())]),
                    None => continue,
                },
                25..=59 => match r.pick(&used) {
                    Some(k) if matches!(self.f[k].w, Some(Waiting::Service)) => op("use", vec![json!(k)]),
                    Some(k) => op("resp", vec![json!(k)]),
                    None => continue,
                },
                60..=79 => match r.pick(&self.ctl.open_reqs()) {
                    Some(k) => op("finish", vec![json!(0), json!(k), json!(r.pick(&["ok", "ok", "err"]).unwrap())]),
                    None => continue,
                },
                80..=84 => match r.pick(&used) {
                    Some(k) => op("cancel", vec![json!(k)]),
                    None => continue,
                },
                85..=88 => op("live", vec![]),
                _ => {
                    let m = *r.pick(&["ready", "ready", "pending", "pending", "err1"]).unwrap();
                    if self.ctl.mode() == Mode::parse(m) {
                        continue;
                    }
                    op("mode", vec![json!(0), json!(m)])
                }
            });
        }
        None
    }
}
pub fn oneshot() -> Component {
    Component {
        name: "Oneshot",
        boot: Box::new(|c| {
            let ctx = Ctx::new();
            let ctl = Ctl::new(&ctx, 0);
            Box::new(Shots { ctx, ctl, f: BTreeMap::new(), nk: nat(c, "nk", 4) })
        }),
        random_cfg: Box::new(|_, p| json!({"nk": p["nk"]})),
    }
}

// ------------------------------------------------------------------ FutureService
#[derive(Clone, Default)]
struct Made(Arc<Mutex<(Option<bool>, Vec<Waker>)>>);
struct MadeFut {
    m: Made,
    ctl: Ctl,
    done: bool,
}
impl Clone for MadeFut {
    fn clone(&self) -> Self {
        MadeFut { m: self.m.clone(), ctl: self.ctl.clone(), done: false }
    }
}
impl Future for MadeFut {
    type Output = Result<Mock, vharness::mock::MockErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.done {
            self.ctl.ctx.log(json!(["CONTRACT-VIOLATION: future polled after completion"]));
        }
        let r = {
            let mut m = self.m.0.lock().unwrap();
            match m.0 {
                None => {
                    m.1.push(cx.waker().clone());
                    return Poll::Pending;
                }
                Some(r) => r,
            }
        };
        self.done = true;
        Poll::Ready(if r { Ok(self.ctl.service()) } else { Err(vharness::mock::MockErr("r7".into())) })
    }
}
pub fn future() -> Component {
    Component {
        name: "FutureService",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let ctl = Ctl::new(&ctx, 0);
            let made = Made::default();
            let f = MadeFut { m: made.clone(), ctl: ctl.clone(), done: false };
            let svc: FutureService<MadeFut, Mock> =
                if c["kind"] == "new" { FutureService::new(f) } else { future_service::<_, Mock, i64, vharness::mock::MockErr>(f) };
            let mut m = Mid::new(ctx, clock, vec![ctl], wrap_clone(svc, mock_err));
            m.nh = nat(c, "nh", 2);
            m.nk = nat(c, "nk", 4);
            m.err_final = false;
            let made2 = made.clone();
            m.extra = Some(Box::new(move |o, _, _| {
                let ws = {
                    let mut x = made.0.lock().unwrap();
                    x.0 = Some(o.s(0) == "ok");
                    std::mem::take(&mut x.1)
                };
                for w in ws {
                    w.wake();
                }
                json!(["ok"])
            }));
            m.w = Weights { clone: 3, more: 3, ..Weights::default() };
            m.modes = vec!["ready", "pending"];
            if r_err(c) {
                // after an error the future is over and the service must not be used
                m.err_final = true;
            } else {
                m.modes.push("err1");
            }
            let fails = r_err(c);
            m.more = Some(Box::new(move |_| {
                if made2.0.lock().unwrap().0.is_some() {
                    return None;
                }
                Some(op("made", vec![json!(if fails { "err" } else { "ok" })]))
            }));
            Box::new(m)
        }),
        random_cfg: Box::new(|r, p| json!({"kind": r.pick(&["new", "fn"]), "nh": p["nh"], "nk": p["nk"], "fails": r.chance(1, 4)})),
    }
}
fn r_err(c: &J) -> bool {
    c["fails"].as_bool().unwrap_or(false)
}
