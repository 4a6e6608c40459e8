//! tower_test::mock and discovery sources
use futures_util::FutureExt;
use serde_json::json;
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tower::discover::{Change, Discover, ServiceList};
use tower::Service;
use tower_test::mock::{self, future::ResponseFuture, Handle, SendResponse, Spawn};
use tower_test::assert_request_eq;
use vharness::feed::Feed;
use vharness::mock::{Ctl, Mock, MockErr};
use vharness::*;

type TMock = mock::Mock<i64, i64>;
enum Sv {
    Plain(TMock),
    Spawned(Spawn<TMock>, Waker),
}
struct Test {
    ctx: Ctx,
    h: BTreeMap<usize, Sv>,
    can: BTreeMap<usize, bool>,
    handle: Option<Handle<i64, i64>>,
    queued: Vec<i64>,
    taken: BTreeMap<i64, SendResponse<i64>>,
    fut: BTreeMap<i64, Pin<Box<ResponseFuture<i64>>>>,
    nh: usize,
    nk: i64,
    over: bool,
    /// two operations at once
    cut: bool,
    open: bool,
}
fn err(e: Box<dyn std::error::Error + Send + Sync>) -> J {
    if e.downcast_ref::<mock::error::Closed>().is_some() {
        json!(["err", "closed"])
    } else {
        json!(["err", e.to_string()])
    }
}
impl Test {
    fn sync(&self) {
        for s in self.h.values() {
            if let Sv::Spawned(s, w) = s {
                if s.is_woken() {
                    w.wake_by_ref();
                }
            }
        }
    }
}
impl Test {
    /// an operation in two parts: what another thread may see half done, and the rest
    fn part(&mut self, o: &Op) -> cut::Part<Test> {
        let h = o.a.first().and_then(|x| x.as_u64()).unwrap_or(0) as usize;
        let k = h as i64;
        let plain = |s: &mut Test| match s.h.remove(&h) {
            Some(Sv::Plain(m)) => m,
            _ => panic!("harness: mock"),
        };
        match o.op.as_str() {
            "poll" => {
                let (mut m, w) = (plain(self), self.ctx.waker(&format!("h{}", h)));
                Box::new(move || {
                    let p = m.poll_ready(&mut Context::from_waker(&w));
                    Box::new(move |s| {
                        s.h.insert(h, Sv::Plain(m));
                        if matches!(p, Poll::Ready(Ok(()))) {
                            s.can.insert(h, true);
                        }
                        poll_j(p, |_| json!(["ok"]), err)
                    })
                })
            }
            "call" => {
                let (mut m, k) = (plain(self), o.i(1));
                Box::new(move || {
                    let f = m.call(k);
                    Box::new(move |s| {
                        s.h.insert(h, Sv::Plain(m));
                        s.can.insert(h, false);
                        if s.open && !s.taken.contains_key(&k) {
                            s.queued.push(k);
                        }
                        s.fut.insert(k, Box::pin(f));
                        json!(["ok"])
                    })
                })
            }
            "clone" => {
                let (m, h2) = (plain(self), o.u(1));
                Box::new(move || {
                    let c = m.clone();
                    Box::new(move |s| {
                        s.h.insert(h, Sv::Plain(m));
                        s.h.insert(h2, Sv::Plain(c));
                        s.can.remove(&h2);
                        json!(["ok"])
                    })
                })
            }
            "drop" => {
                let m = plain(self);
                Box::new(move || {
                    drop(m);
                    Box::new(move |s| {
                        s.can.remove(&h);
                        s.ctx.forget(&format!("h{}", h));
                        json!(["ok"])
                    })
                })
            }
            "resp" | "cancel" => {
                let (mut f, w) = (self.fut.remove(&k).unwrap(), self.ctx.waker(&format!("c{}", k)));
                let end = o.op == "cancel";
                Box::new(move || {
                    let p = if end { Poll::Ready(Ok(0)) } else { f.as_mut().poll(&mut Context::from_waker(&w)) };
                    let f = if p.is_ready() {
                        drop(f);
                        None
                    } else {
                        Some(f)
                    };
                    Box::new(move |s| {
                        match f {
                            Some(f) => drop(s.fut.insert(k, f)),
                            None => s.ctx.forget(&format!("c{}", k)),
                        }
                        if end { json!(["ok"]) } else { poll_j(p, |v| json!(["ok", v]), err) }
                    })
                })
            }
            "respond" => {
                let (x, how) = (self.taken.remove(&k).unwrap(), o.s(1).to_string());
                Box::new(move || {
                    match how.as_str() {
                        "ok" => x.send_response(1000 + k),
                        "err" => x.send_error(MockErr("r7".into())),
                        _ => drop(x),
                    }
                    Box::new(|_| json!(["ok"]))
                })
            }
            "close" => {
                let x = self.handle.take();
                self.open = false;
                Box::new(move || {
                    drop(x);
                    Box::new(|s| {
                        s.queued.clear();
                        json!(["ok"])
                    })
                })
            }
            "next" => {
                let mut x = self.handle.take().unwrap();
                Box::new(move || {
                    let p = x.poll_request();
                    Box::new(move |s| {
                        s.handle = Some(x);
                        match p {
                            Poll::Pending => json!(["pending"]),
                            Poll::Ready(None) => json!(["end"]),
                            Poll::Ready(Some((k, r))) => {
                                s.queued.retain(|x| *x != k);
                                s.taken.insert(k, r);
                                json!(["req", k])
                            }
                        }
                    })
                })
            }
            _ => {
                let (mut x, o) = (self.handle.take().unwrap(), o.clone());
                Box::new(move || {
                    match o.op.as_str() {
                        "allow" => x.allow(o.u(0) as u64),
                        "fail" => x.send_error(MockErr("sent".into())),
                        p => panic!("harness: part {}", p),
                    }
                    Box::new(move |s| {
                        s.handle = Some(x);
                        json!(["ok"])
                    })
                })
            }
        }
    }
    fn uses(o: &Op) -> Vec<String> {
        match o.op.as_str() {
            "call" => vec![format!("h{}", o.u(0)), format!("c{}", o.u(1))],
            "clone" => vec![format!("h{}", o.u(0)), format!("h{}", o.u(1))],
            "poll" | "drop" => vec![format!("h{}", o.u(0))],
            "resp" | "cancel" => vec![format!("c{}", o.u(0))],
            "respond" => vec![format!("t{}", o.u(0))],
            "misuse" => vec![],
            _ => vec!["handle".into()],
        }
    }
    fn choose_cut(&mut self, r: &mut Rng) -> Option<Op> {
        let a = self.choose_one(r)?;
        let a = Some(a).filter(|a| !Test::uses(a).is_empty())?;
        let b = (0..40).find_map(|_| {
            let b = self.choose_one(r)?;
            let (x, y) = (Test::uses(&a), Test::uses(&b));
            Some(b).filter(|_| !y.is_empty() && !y.iter().any(|u| x.contains(u)))
        })?;
        Some(op("pair", vec![json!(a.op), json!(a.a), json!(b.op), json!(b.a), json!(cut::pick(r))]))
    }
}
impl Sut for Test {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        let ctx = self.ctx.clone();
        if o.op == "pair" {
            let (a, b) = (op(o.s(0), o.a[1].as_array().unwrap().clone()), op(o.s(2), o.a[3].as_array().unwrap().clone()));
            let (pa, pb) = (self.part(&a), self.part(&b));
            let (ra, rb, logb) = cut::both(self, &ctx, o.i(4), pa, pb);
            return json!(["pair", ra, rb, logb]);
        }
        let r = match o.op.as_str() {
            "poll" => {
                let t = format!("h{}", o.u(0));
                let p = match self.h.get_mut(&o.u(0)).unwrap() {
                    Sv::Plain(m) => ctx.poll(&t, |cx| m.poll_ready(cx)),
                    Sv::Spawned(m, w) => {
                        *w = ctx.waker(&t);
                        m.poll_ready::<i64>()
                    }
                };
                match p {
                    Poll::Ready(Ok(())) => {
                        self.can.insert(o.u(0), true);
                    }
                    _ => {}
                }
                poll_j(p, |_| json!(["ok"]), err)
            }
            "call" => {
                let (h, k) = (o.u(0), o.i(1));
                let f = match self.h.get_mut(&h).unwrap() {
                    Sv::Plain(m) => m.call(k),
                    Sv::Spawned(m, _) => m.call(k),
                };
                self.can.insert(h, false);
                if self.handle.is_some() {
                    self.queued.push(k);
                }
                self.fut.insert(k, Box::pin(f));
                json!(["ok"])
            }
            "misuse" => {
                let m = self.h.get_mut(&o.u(0)).unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| match m {
                    Sv::Plain(m) => drop(m.call(0)),
                    Sv::Spawned(m, _) => drop(m.call(0)),
                }));
                // the panic poisoned the mock's lock: nothing of it can be dropped any more
                std::mem::forget(std::mem::take(&mut self.h));
                std::mem::forget(self.handle.take());
                std::mem::forget(std::mem::take(&mut self.taken));
                std::mem::forget(std::mem::take(&mut self.fut));
                self.over = true;
                self.ctx = Ctx::new();
                json!([if r.is_err() { "panic" } else { "no panic" }])
            }
            "next" => {
                let h = self.handle.as_mut().unwrap();
                let p = if o.s(0) == "poll" {
                    h.poll_request()
                } else if let Some(k) = self.queued.first().copied() {
                    // the macro panics if the request is not the expected one
                    match (async { assert_request_eq!(h, k) }).now_or_never() {
                        Some(s) => Poll::Ready(Some((k, s))),
                        None => Poll::Pending,
                    }
                } else {
                    match h.next_request().now_or_never() {
                        Some(r) => Poll::Ready(r),
                        None => Poll::Pending,
                    }
                };
                match p {
                    Poll::Pending => json!(["pending"]),
                    Poll::Ready(None) => json!(["end"]),
                    Poll::Ready(Some((k, s))) => {
                        self.queued.retain(|x| *x != k);
                        self.taken.insert(k, s);
                        json!(["req", k])
                    }
                }
            }
            "respond" => {
                let s = self.taken.remove(&o.i(0)).unwrap();
                match o.s(1) {
                    "ok" => s.send_response(1000 + o.i(0)),
                    "err" => s.send_error(MockErr("r7".into())),
                    _ => drop(s),
                }
                json!(["ok"])
            }
            "resp" => {
                let k = o.i(0);
                let t = format!("c{}", k);
                let f = self.fut.get_mut(&k).unwrap();
                let p = ctx.poll(&t, |cx| f.as_mut().poll(cx));
                if p.is_ready() {
                    self.fut.remove(&k);
                    ctx.forget(&t);
                }
                poll_j(p, |v| json!(["ok", v]), err)
            }
            "cancel" => {
                self.fut.remove(&o.i(0));
                ctx.forget(&format!("c{}", o.i(0)));
                json!(["ok"])
            }
            "allow" => {
                self.handle.as_mut().unwrap().allow(o.u(0) as u64);
                json!(["ok"])
            }
            "fail" => {
                self.handle.as_mut().unwrap().send_error(MockErr("sent".into()));
                json!(["ok"])
            }
            "close" => {
                self.handle = None;
                self.open = false;
                self.queued.clear();
                json!(["ok"])
            }
            "clone" => {
                let c = match &self.h[&o.u(0)] {
                    Sv::Plain(m) => Sv::Plain(m.clone()),
                    Sv::Spawned(m, _) => Sv::Spawned(m.clone(), Waker::noop().clone()),
                };
                self.h.insert(o.u(1), c);
                self.can.remove(&o.u(1));
                json!(["ok"])
            }
            "drop" => {
                self.h.remove(&o.u(0));
                self.can.remove(&o.u(0));
                ctx.forget(&format!("h{}", o.u(0)));
                json!(["ok"])
            }
            x => panic!("harness: op {}", x),
        };
        self.sync();
        r
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        if self.over {
            return None;
        }
        if self.cut && r.chance(1, 2) {
            if let Some(o) = self.choose_cut(r) {
                return Some(o);
            }
        }
        self.choose_one(r)
    }
}
impl Test {
    fn choose_one(&mut self, r: &mut Rng) -> Option<Op> {
        let hs: Vec<usize> = self.h.keys().copied().collect();
        let open = self.handle.is_some();
        for _ in 0..80 {
            let free = (1..=self.nk).find(|k| !self.fut.contains_key(k) && !self.queued.contains(k) && !self.taken.contains_key(k));
            let h = r.pick(&hs).copied();
            let can = h.map_or(false, |h| self.can.get(&h) == Some(&true));
            return Some(match r.below(200) {
                0..=49 if h.is_some() => op("poll", vec![json!(h)]),
                50..=89 if can || h.is_some() && !open => match free {
                    Some(k) => op("call", vec![json!(h), json!(k)]),
                    None => continue,
                },
                90 if open && !can && h.is_some() && r.chance(1, 20) => op("misuse", vec![json!(h)]),
                91..=114 if open => op("next", vec![json!(if self.cut { "poll" } else { *r.pick(&["poll", "await"]).unwrap() })]),
                115..=139 => match r.pick(&self.taken.keys().copied().collect::<Vec<_>>()) {
                    Some(k) => op("respond", vec![json!(k), json!(r.pick(&["ok", "ok", "ok", "err", "drop"]).unwrap())]),
                    None => continue,
                },
                140..=169 => match r.pick(&self.fut.keys().copied().collect::<Vec<_>>()) {
                    Some(k) => op("resp", vec![json!(k)]),
                    None => continue,
                },
                170..=174 => match r.pick(&self.fut.keys().copied().collect::<Vec<_>>()) {
                    Some(k) => op("cancel", vec![json!(k)]),
                    None => continue,
                },
                175..=185 if open => op("allow", vec![json!(r.below(4))]),
                186..=188 if open => op("fail", vec![]),
                189 if open && r.chance(1, 6) => op("close", vec![]),
                190..=193 if h.is_some() => match (1..=self.nh).find(|x| !self.h.contains_key(x)) {
                    Some(x) => op("clone", vec![json!(h), json!(x)]),
                    None => continue,
                },
                194..=195 if hs.len() > 1 || h.is_some() && r.chance(1, 10) => op("drop", vec![json!(h)]),
                _ => continue,
            });
        }
        None
    }
}
pub fn test_mock() -> Component {
    Component {
        name: "TestMock",
        boot: Box::new(|c| {
            let ctx = Ctx::new();
            let noop = Waker::noop().clone();
            let (s, handle) = match c["kind"].as_str().unwrap() {
                "pair" => {
                    let (m, h) = mock::pair();
                    (Sv::Plain(m), h)
                }
                "spawn" => {
                    let (m, h) = mock::spawn();
                    (Sv::Spawned(m, noop), h)
                }
                "spawn_layer" => {
                    let (m, h) = mock::spawn_layer(tower_layer::Identity::new());
                    (Sv::Spawned(m, noop), h)
                }
                "spawn_with" => {
                    let (m, h) = mock::spawn_with(|m| m);
                    (Sv::Spawned(m, noop), h)
                }
                k => panic!("harness: kind {}", k),
            };
            Box::new(Test {
                ctx,
                h: BTreeMap::from([(1, s)]),
                can: BTreeMap::new(),
                handle: Some(handle),
                queued: vec![],
                taken: BTreeMap::new(),
                fut: BTreeMap::new(),
                nh: c["nh"].as_u64().unwrap() as usize,
                nk: c["nk"].as_i64().unwrap(),
                over: false,
                cut: c["cut"] == true,
                open: true,
            })
        }),
        random_cfg: Box::new(|r, p| {
            let cut = p["cut"] == true;
            json!({"kind": if cut { "pair" } else { *r.pick(&["pair", "spawn", "spawn_layer", "spawn_with"]).unwrap() }, "nh": p["nh"], "nk": p["nk"], "cut": cut})
        }),
    }
}

// ------------------------------------------------------------------ discovery sources
type Ch = Result<Change<i64, i64>, MockErr>;
enum Src {
    List(Pin<Box<ServiceList<Vec<Mock>>>>),
    Stream(Pin<Box<Feed<Ch>>>),
}
struct Disc {
    ctx: Ctx,
    s: Src,
    feed: Feed<Ch>,
    fed: u64,
    over: bool,
    ended: bool,
}
fn disc<D: Discover>(d: Pin<&mut D>, cx: &mut Context<'_>) -> Poll<Option<Result<Change<D::Key, D::Service>, D::Error>>> {
    d.poll_discover(cx)
}
impl Sut for Disc {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        match o.op.as_str() {
            "poll" => {
                let ctx = self.ctx.clone();
                let r = ctx.poll("h1", |cx| match &mut self.s {
                    Src::List(l) => match disc(l.as_mut(), cx) {
                        Poll::Pending => json!(["pending"]),
                        Poll::Ready(None) => json!(["end"]),
                        Poll::Ready(Some(Ok(Change::Insert(k, s)))) => json!(["insert", k, s.inst]),
                        Poll::Ready(Some(Ok(Change::Remove(k)))) => json!(["remove", k]),
                        Poll::Ready(Some(Err(e))) => match e {},
                    },
                    Src::Stream(f) => match disc(f.as_mut(), cx) {
                        Poll::Pending => json!(["pending"]),
                        Poll::Ready(None) => json!(["end"]),
                        Poll::Ready(Some(Ok(Change::Insert(k, s)))) => json!(["insert", k, s]),
                        Poll::Ready(Some(Ok(Change::Remove(k)))) => json!(["remove", k]),
                        Poll::Ready(Some(Err(e))) => json!(["err", e.0]),
                    },
                });
                self.over |= r[0] == "end";
                r
            }
            "feed" => {
                let x = &o.a[0];
                self.fed += 1;
                match x[0].as_str().unwrap() {
                    "insert" => self.feed.feed(Some(Ok(Change::Insert(x[1].as_i64().unwrap(), x[2].as_i64().unwrap())))),
                    "remove" => self.feed.feed(Some(Ok(Change::Remove(x[1].as_i64().unwrap())))),
                    "err" => self.feed.feed(Some(Err(MockErr(x[1].as_str().unwrap().into())))),
                    _ => {
                        self.ended = true;
                        self.feed.feed(None)
                    }
                }
                json!(["ok"])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        if self.over {
            return None;
        }
        if r.chance(1, 2) && matches!(self.s, Src::Stream(_)) && !self.ended {
            return Some(op(
                "feed",
                vec![match r.below(20) {
                    0..=10 => json!(["insert", r.below(9), r.below(100)]),
                    11..=16 => json!(["remove", r.below(9)]),
                    17..=18 => json!(["err", "e1"]),
                    _ => json!(["end"]),
                }],
            ));
        }
        Some(op("poll", vec![]))
    }
}
pub fn discover() -> Component {
    Component {
        name: "Discover",
        boot: Box::new(|c| {
            let ctx = Ctx::new();
            let feed = Feed::new(&ctx);
            let s = if c["kind"] == "list" {
                let ctl = Ctl::new(&ctx, 0);
                Src::List(Box::pin(ServiceList::new::<i64>((0..c["n"].as_u64().unwrap()).map(|_| ctl.service()).collect::<Vec<_>>())))
            } else {
                Src::Stream(Box::pin(feed.clone()))
            };
            Box::new(Disc { ctx, s, feed, fed: 0, over: false, ended: false })
        }),
        random_cfg: Box::new(|r, _| json!({"kind": r.pick(&["list", "stream"]), "n": r.below(20)})),
    }
}
