//! ReadyCache, p2c::Balance
use serde_json::json;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::Duration;
use tower::balance::error::Discover as DiscoverErr;
use tower::balance::p2c::{Balance, MakeBalance, MakeBalanceLayer};
use tower::discover::{Change, Discover};
use tower::load::peak_ewma::PeakEwmaDiscover;
use tower::load::pending_requests::PendingRequestsDiscover;
use tower::load::{CompleteOnResponse, Constant, Load};
use tower::ready_cache::{error::Failed, ReadyCache};
use tower_layer::Layer;
use tower_service::Service;
use vharness::feed::Feed;
use vharness::mid::*;
use vharness::mock::{Ctl, Mock, MockErr, Mode};
use vharness::*;

fn nat(c: &J, k: &str, d: u64) -> usize {
    c[k].as_u64().unwrap_or(d) as usize
}

struct Cache {
    ctx: Ctx,
    c: ReadyCache<i64, Mock, i64>,
    ctl: Vec<Ctl>,
    nkey: usize,
    by_index: bool,
}
fn failed(f: Failed<i64>) -> J {
    let inner = std::error::Error::source(&f).map(|e| e.to_string());
    if inner != Some(f.1.to_string()) {
        return json!(["the error does not lead to what it came from", inner]);
    }
    json!(["err", f.0, f.1.to_string()])
}
impl Sut for Cache {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        let ctx = self.ctx.clone();
        let c = &mut self.c;
        match o.op.as_str() {
            "push" => {
                c.push(o.i(0), self.ctl[o.u(1) - 1].service());
                json!(["ok"])
            }
            "pend" => poll_j(ctx.poll("h1", |cx| c.poll_pending(cx)), |_| json!(["ok"]), failed),
            "check" => {
                let (k, by) = (o.i(0), self.by_index);
                let r = ctx.poll("h2", |cx| match c.get_ready(&k).map(|x| x.0) {
                    Some(i) if by => c.check_ready_index(cx, i),
                    // there is nobody at that place
                    None if by => c.check_ready_index(cx, c.ready_len()),
                    _ => c.check_ready(cx, &k),
                });
                match r {
                    Ok(b) => json!(["ok", b]),
                    Err(f) => failed(f),
                }
            }
            "call" => {
                let (k, q) = (o.i(0), o.i(1));
                let mut f = match c.get_ready(&k).map(|x| x.0) {
                    None => return json!(["nobody is ready"]),
                    Some(i) if self.by_index => c.call_ready_index(i, q),
                    _ => c.call_ready(&k, q),
                };
                let p = ctx.poll("instant", |cx| Pin::new(&mut f).poll(cx));
                ctx.forget("instant");
                poll_j(p, |v| json!(["ok", v]), mock_err)
            }
            "evict" => json!(["ok", c.evict(&o.i(0))]),
            "look" => {
                let mut ready = vec![0i64; self.nkey];
                for (k, s) in c.iter_ready() {
                    ready[*k as usize - 1] = s.id();
                }
                // the other ways to look must agree
                for k in 1..=self.nkey as i64 {
                    let a = c.get_ready(&k).map(|(i, k, s)| (i, *k, s.id()));
                    let b = a.and_then(|(i, _, _)| c.get_ready_index(i).map(|(k, s)| (i, *k, s.id())));
                    if a != b || a.map(|x| x.2).unwrap_or(0) != ready[k as usize - 1] {
                        return json!(["the views of the ready set disagree"]);
                    }
                }
                for k in 1..=self.nkey as i64 {
                    let a = c.get_ready(&k).map(|(i, k, s)| (i, *k, s.id()));
                    let b = c.get_ready_mut(&k).map(|(i, k, s)| (i, *k, s.id()));
                    let d = a.and_then(|(i, _, _)| c.get_ready_index_mut(i).map(|(k, s)| (i, *k, s.id())));
                    if a != b || a != d {
                        return json!(["the views of the ready set disagree"]);
                    }
                }
                let one: Vec<(i64, i64)> = c.iter_ready().map(|(k, s)| (*k, s.id())).collect();
                let two: Vec<(i64, i64)> = c.iter_ready_mut().map(|(k, s)| (*k, s.id())).collect();
                let n = c.ready_len();
                let none = c.get_ready_index(n).is_none() && c.get_ready_index_mut(n).is_none() && c.get_ready(&-1).is_none() && !c.pending_contains(&-1);
                if one != two || one.len() != n || !none {
                    return json!(["the views of the ready set disagree"]);
                }
                let pend: Vec<bool> = (1..=self.nkey as i64).map(|k| c.pending_contains(&k)).collect();
                let live: Vec<bool> = self.ctl.iter().map(|c| c.live() > 0).collect();
                json!(["ok", ready, pend, c.ready_len(), c.pending_len(), c.len(), c.is_empty(), live])
            }
            "mode" => {
                self.ctl[o.u(0) - 1].set_mode(Mode::parse(o.s(1)));
                json!(["ok"])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        for _ in 0..50 {
            let k = json!(r.range(1, self.nkey as i64));
            let i = r.below(self.ctl.len() as u64) as usize;
            return Some(match r.below(100) {
                0..=17 if self.ctl[i].live() == 0 => op("push", vec![k, json!(i + 1)]),
                18..=42 => op("pend", vec![]),
                43..=53 => op("check", vec![k]),
                54..=68 => {
                    let ks: Vec<i64> = self.c.iter_ready().map(|x| *x.0).collect();
                    match r.pick(&ks) {
                        Some(k) => op("call", vec![json!(k), json!(r.range(1, 99))]),
                        None => continue,
                    }
                }
                69..=71 => op("evict", vec![k]),
                72..=77 => op("look", vec![]),
                78..=99 => {
                    let m = *r.pick(&["ready", "ready", "ready", "pending", "lost", "err1"]).unwrap();
                    if self.ctl[i].mode() == Mode::parse(m) {
                        continue;
                    }
                    op("mode", vec![json!(i + 1), json!(m)])
                }
                _ => continue,
            });
        }
        None
    }
}
pub fn cache() -> Component {
    Component {
        name: "ReadyCache",
        boot: Box::new(|c| {
            let ctx = Ctx::new();
            let ctl = (1..=nat(c, "nsvc", 3)).map(|i| Ctl::new(&ctx, i as i64).auto()).collect();
            Box::new(Cache { ctx, c: ReadyCache::default(), ctl, nkey: nat(c, "nkey", 2), by_index: c["idx"].as_bool().unwrap() })
        }),
        random_cfg: Box::new(|r, p| json!({"idx": r.chance(1, 2), "nkey": p["nkey"], "nsvc": p["nsvc"]})),
    }
}

// ------------------------------------------------------------------ p2c::Balance
type Disc = Feed<Result<Change<i64, Mock>, MockErr>>;
/// makes the one discovery stream there is
struct MakeDisc<D>(Option<D>);
impl<D> Service<()> for MakeDisc<D> {
    type Response = D;
    type Error = MockErr;
    type Future = std::future::Ready<Result<D, MockErr>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), MockErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: ()) -> Self::Future {
        std::future::ready(Ok(self.0.take().expect("harness: made twice")))
    }
}
enum Gen {
    Seeded(Rng),
    /// the same extreme word nearly always
    Const(u64, Rng, u64),
}
impl tower::util::rng::Rng for Gen {
    fn next_u64(&mut self) -> u64 {
        match self {
            Gen::Seeded(r) => r.next(),
            Gen::Const(n, r, i) => {
                *i += 1;
                if *i % 13 == 0 {
                    r.next()
                } else {
                    *n
                }
            }
        }
    }
}
type BalFut = Pin<Box<dyn Future<Output = Result<i64, tower::BoxError>>>>;
/// a balancer over any kind of endpoint
trait AnyBal {
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), tower::BoxError>>;
    fn send(&mut self, q: i64) -> BalFut;
    fn count(&self) -> usize;
    fn none(&self) -> bool;
}
impl<D> AnyBal for Balance<D, i64>
where
    D: Discover<Key = i64, Error = MockErr> + Unpin,
    D::Service: Service<i64, Response = i64, Error = MockErr> + Load,
    <D::Service as Service<i64>>::Future: 'static,
    <D::Service as Load>::Metric: std::fmt::Debug,
{
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), tower::BoxError>> {
        Service::poll_ready(self, cx)
    }
    fn send(&mut self, q: i64) -> BalFut {
        Box::pin(Service::call(self, q))
    }
    fn count(&self) -> usize {
        Balance::len(self)
    }
    fn none(&self) -> bool {
        Balance::is_empty(self)
    }
}
struct Bal {
    ctx: Ctx,
    clock: Rc<Clock>,
    b: Box<dyn AnyBal>,
    d: Disc,
    ctl: Vec<Ctl>,
    calls: Vec<Option<(BalFut, usize, i64)>>, // future, endpoint, call number there
    nkey: usize,
    keys: std::collections::HashMap<usize, i64>, // endpoint -> key
    ready: bool,
    ended: bool,
    consts: bool,
    loads: bool,
    measured: bool, // the load depends on the requests outstanding
    load: String,
    wide: bool, // many endpoints, all ready and under the same load
    reqs: Vec<i64>,
}
fn berr(e: tower::BoxError) -> J {
    json!(["err", e.to_string()])
}
impl Bal {
    fn poll(&mut self) -> Poll<Result<(), tower::BoxError>> {
        let (b, ctx) = (&mut self.b, &self.ctx);
        let p = ctx.poll("h1", |cx| b.ready(cx));
        self.ready = matches!(p, Poll::Ready(Ok(())));
        p
    }
    /// which endpoint got request q
    fn who(&mut self, q: i64) -> Option<(usize, i64)> {
        let mut found = vec![];
        for (i, c) in self.ctl.iter().enumerate() {
            for n in c.open_calls(q) {
                if !self.calls.iter().flatten().any(|x| x.1 == i && x.2 == n) {
                    found.push((i, n));
                }
            }
        }
        if found.len() == 1 { Some(found[0]) } else { None }
    }
}
impl Sut for Bal {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        let clock = self.clock.clone();
        let _g = clock.enter();
        match o.op.as_str() {
            "ins" => {
                let i = o.u(1) - 1;
                self.keys.insert(i, o.i(0));
                self.d.feed(Some(Ok(Change::Insert(o.i(0), self.ctl[i].service()))));
                json!(["ok"])
            }
            "rem" => {
                self.d.feed(Some(Ok(Change::Remove(o.i(0)))));
                json!(["ok"])
            }
            "derr" => {
                self.d.feed(Some(Err(MockErr("d1".into()))));
                json!(["ok"])
            }
            "dend" => {
                self.ended = true;
                self.d.feed(None);
                json!(["ok"])
            }
            "poll" => poll_j(
                self.poll(),
                |_| json!(["ok"]),
                |e| match e.downcast_ref::<DiscoverErr>().and_then(|e| std::error::Error::source(e)).and_then(|e| e.downcast_ref::<MockErr>()) {
                    Some(x) => json!(["err", "discover", x.to_string()]),
                    None => json!(["err of another type", e.to_string()]),
                },
            ),
            "call" => {
                let (c, q) = (o.u(0) - 1, o.i(1));
                let f = self.b.send(q);
                self.ready = false;
                let w = self.who(q);
                match w {
                    Some((i, n)) => {
                        self.calls[c] = Some((f, i, n));
                        self.reqs[c] = q;
                        json!(["ok"])
                    }
                    None => json!(["the request is not with exactly one endpoint"]),
                }
            }
            "resp" => {
                let c = o.u(0) - 1;
                let t = format!("c{}", c + 1);
                let (ctx, x) = (self.ctx.clone(), self.calls[c].as_mut().unwrap());
                let p = ctx.poll(&t, |cx| Pin::new(&mut x.0).poll(cx));
                if p.is_ready() {
                    self.calls[c] = None;
                    ctx.forget(&t);
                }
                poll_j(p, |v| json!(["ok", v]), |e| if e.downcast_ref::<MockErr>().is_some() { berr(e) } else { json!(["err of another type", e.to_string()]) })
            }
            "finish" => {
                let c = o.u(0) - 1;
                let (_, i, n) = self.calls[c].as_ref().unwrap();
                let q = self.reqs[c];
                let ok = self.ctl[*i].complete(*n, if o.s(1) == "ok" { Ok(1000 + q) } else { Err(q) });
                json!([if ok { "ok" } else { "the call is gone" }])
            }
            "cancel" => {
                let c = o.u(0) - 1;
                self.calls[c] = None;
                self.ctx.forget(&format!("c{}", c + 1));
                json!(["ok"])
            }
            "look" => {
                let live: Vec<bool> = self.ctl.iter().map(|c| c.live() > 0).collect();
                json!(["ok", self.b.count(), self.b.none(), live])
            }
            "mode" => {
                self.ctl[o.u(0) - 1].set_mode(Mode::parse(o.s(1)));
                json!(["ok"])
            }
            "load" => {
                self.ctl[o.u(0) - 1].set_load(o.i(1));
                json!(["ok"])
            }
            "spread" => {
                let n = o.i(0);
                let mut count = vec![0i64; self.nkey];
                for x in 0..n {
                    if !matches!(self.poll(), Poll::Ready(Ok(()))) {
                        return json!(["not ready", x]);
                    }
                    let q = 5000 + x;
                    let mut f = self.b.send(q);
                    self.ready = false;
                    let Some((i, m)) = self.who(q) else { return json!(["the request is not with exactly one endpoint"]) };
                    count[self.keys[&i] as usize - 1] += 1;
                    self.ctl[i].complete(m, Ok(1000 + q));
                    let ctx = self.ctx.clone();
                    let p = ctx.poll("instant", |cx| Pin::new(&mut f).poll(cx));
                    ctx.forget("instant");
                    match p {
                        Poll::Ready(Ok(v)) if v == 1000 + q => {}
                        p => return json!(["wrong answer", format!("{:?}", p)]),
                    }
                }
                // the inner calls are accounted for; anything else stays in the log
                for e in self.ctx.take_log() {
                    if e[0] != json!("call") {
                        self.ctx.log(e);
                    }
                }
                let live: Vec<usize> = (0..self.ctl.len()).filter(|i| self.ctl[*i].live() > 0).collect();
                let equal = match self.load.as_str() {
                    "own" => live.iter().all(|i| self.ctl[*i].load_now() == self.ctl[live[0]].load_now()),
                    "const" => true,
                    _ => self.calls.iter().all(|c| c.is_none()),
                };
                let even = !equal || live.iter().all(|i| count[self.keys[i] as usize - 1] * 3 * live.len() as i64 > n);
                json!(["ok", count.iter().map(|c| *c > 0).collect::<Vec<_>>(), even])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        for _ in 0..80 {
            let k = json!(r.range(1, self.nkey as i64));
            let i = r.below(self.ctl.len() as u64) as usize;
            let c = r.below(self.calls.len() as u64) as usize;
            let free = self.calls[c].is_none();
            let what = if self.wide {
                *r.pick(&[0, 0, 0, 0, 0, 0, 15, 30, 30, 60, 86, 119]).unwrap()
            } else if self.loads && r.chance(1, 3) {
                r.range(110, 119)
            } else {
                r.below(120) as i64
            };
            return Some(match what {
                0..=14 if self.ctl[i].live() == 0 && !self.ended && !(self.measured && self.calls.iter().flatten().any(|x| x.1 == i)) => op("ins", vec![k, json!(i + 1)]),
                15..=18 if !self.ended => op("rem", vec![k]),
                19 if !self.ended && r.chance(1, 2) => op("derr", vec![]),
                20 if !self.ended && r.chance(1, 4) => op("dend", vec![]),
                21..=50 => op("poll", vec![]),
                51..=69 if self.ready && free => op("call", vec![json!(c + 1), json!(r.range(1, 99))]),
                70..=76 if !free => op("resp", vec![json!(c + 1)]),
                77..=83 if !free && self.ctl[self.calls[c].as_ref().unwrap().1].outstanding().contains(&self.calls[c].as_ref().unwrap().2) => {
                    op("finish", vec![json!(c + 1), json!(if r.chance(3, 4) { "ok" } else { "err" })])
                }
                84..=85 if !free => op("cancel", vec![json!(c + 1)]),
                86..=90 => op("look", vec![]),
                91..=109 => {
                    let m = if self.loads && r.chance(3, 4) { "ready" } else { *r.pick(&["ready", "ready", "ready", "pending", "lost", "err1"]).unwrap() };
                    if self.ctl[i].mode() == Mode::parse(m) {
                        continue;
                    }
                    op("mode", vec![json!(i + 1), json!(m)])
                }
                110..=118 => {
                    let n = r.range(1, 4);
                    if self.ctl[i].load_now() == n {
                        continue;
                    }
                    op("load", vec![json!(i + 1), json!(n)])
                }
                119 if !self.ready && !self.consts && self.d.is_empty() => {
                    let live: Vec<&Ctl> = self.ctl.iter().filter(|c| c.live() > 0).collect();
                    if live.is_empty() || live.iter().any(|c| c.mode() != Mode::Ready) {
                        continue;
                    }
                    op("spread", vec![json!(if self.wide { 2500 } else { 400 })])
                }
                _ => continue,
            });
        }
        None
    }
}
fn balancer<D>(ctx: &Ctx, kind: &str, seed: u64, d: D) -> Box<dyn AnyBal>
where
    D: Discover<Key = i64, Error = MockErr> + Unpin + 'static,
    D::Service: Service<i64, Response = i64, Error = MockErr> + Load + 'static,
    <D::Service as Service<i64>>::Future: 'static,
    <D::Service as Load>::Metric: std::fmt::Debug,
{
    fn made<D>(ctx: &Ctx, mut m: MakeBalance<MakeDisc<D>, i64>) -> Balance<D, i64>
    where
        D: Discover<Key = i64> + Unpin,
        D::Service: Service<i64>,
        <D::Service as Service<i64>>::Error: Into<tower::BoxError>,
    {
        let mut f = {
            let _ = ctx.poll("make", |cx| m.poll_ready(cx));
            m.call(())
        };
        let p = ctx.poll("make", |cx| Pin::new(&mut f).poll(cx));
        ctx.forget("make");
        match p {
            Poll::Ready(Ok(b)) => b,
            _ => panic!("MakeBalance did not make a balancer"),
        }
    }
    Box::new(match kind {
        "new" => Balance::new(d),
        "make" => made(ctx, MakeBalance::new(MakeDisc(Some(d)))),
        "layer" => made(ctx, MakeBalanceLayer::<MakeDisc<D>, i64>::default().clone().layer(MakeDisc(Some(d)))),
        "seed" => Balance::from_rng(d, Gen::Seeded(Rng::new(seed))),
        "zero" => Balance::from_rng(d, Gen::Const(0, Rng::new(seed), 0)),
        "max" => Balance::from_rng(d, Gen::Const(u64::MAX, Rng::new(seed), 0)),
        k => panic!("harness: kind {}", k),
    })
}
pub fn balance() -> Component {
    Component {
        name: "Balance",
        boot: Box::new(|c| {
            let ctx = Ctx::new();
            let ctl: Vec<Ctl> = (1..=nat(c, "nsvc", 3)).map(|i| Ctl::new(&ctx, i as i64)).collect();
            ctl.iter().for_each(|c| c.set_load(1));
            let d = Disc::new(&ctx);
            let kind = c["kind"].as_str().unwrap();
            let seed = c["seed"].as_u64().unwrap_or(1);
            let clock = Rc::new(Clock::new());
            let b: Box<dyn AnyBal> = {
                let _g = clock.enter();
                let one = CompleteOnResponse::default;
                match c["load"].as_str().unwrap() {
                    "own" => balancer(&ctx, kind, seed, d.clone()),
                    "pending" => balancer(&ctx, kind, seed, PendingRequestsDiscover::new::<i64>(d.clone(), one())),
                    "ewma" => balancer(&ctx, kind, seed, PeakEwmaDiscover::new::<i64>(d.clone(), Duration::from_millis(500), Duration::from_secs(10), one())),
                    "const" => balancer(&ctx, kind, seed, Constant::new(d.clone(), 3i64)),
                    k => panic!("harness: load {}", k),
                }
            };
            let nk = nat(c, "nk", 1);
            Box::new(Bal {
                ctx: ctx.clone(),
                clock,
                b,
                d,
                calls: (0..nk).map(|_| None).collect(),
                reqs: vec![0; nk],
                nkey: nat(c, "nkey", 2),
                keys: Default::default(),
                ready: false,
                ended: false,
                loads: c["loads"].as_bool().unwrap_or(false),
                load: c["load"].as_str().unwrap().into(),
                measured: c["load"] == "pending" || c["load"] == "ewma",
                wide: c["wide"].as_bool().unwrap_or(false),
                consts: kind == "zero" || kind == "max",
                ctl,
            })
        }),
        random_cfg: Box::new(|r, p| {
            json!({"kind": r.pick(&["new", "make", "layer", "seed", "seed", "seed", "zero", "max"]), "seed": r.below(1000000),
                   "nkey": p["nkey"], "nsvc": p["nsvc"], "nk": p["nk"], "load": r.pick(if p["measured"].as_bool().unwrap_or(false) { &["pending", "pending", "ewma", "const"] } else { &["own"] }), "loads": p["loads"].as_bool().unwrap_or(false), "wide": p["wide"].as_bool().unwrap_or(false)})
        }),
    }
}

// ------------------------------------------------------------------ the shares of p2c's choices
struct Choice {
    ctx: Ctx,
    kind: String,
    seed: u64,
    maxn: usize,
}
impl Choice {
    fn one(&mut self, d: &Disc) -> Balance<Disc, i64> {
        match self.kind.as_str() {
            "new" => Balance::new(d.clone()),
            "make" => {
                let mut m = MakeBalance::new(MakeDisc(Some(d.clone())));
                let mut f = m.call(());
                match self.ctx.poll("instant", |cx| Pin::new(&mut f).poll(cx)) {
                    Poll::Ready(Ok(b)) => b,
                    _ => panic!("MakeBalance did not make a balancer"),
                }
            }
            _ => {
                self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                Balance::from_rng(d.clone(), Gen::Seeded(Rng::new(self.seed >> 11)))
            }
        }
    }
    fn pick(&mut self, loads: &[i64], gone: usize) -> J {
        let left = if gone == 0 { loads.len() } else { loads.len() - 1 };
        let unit = if left == 1 { 1 } else { (left * (left - 1)) as i64 };
        let total = 40 * unit * unit;
        match self.counts(loads, gone, total) {
            // shares in units of 1/unit, rounded; 40 unit^2 choices put the rounding at six standard deviations
            Ok(count) => json!(["ok", count.iter().map(|c| (c * unit + total / 2) / total).collect::<Vec<_>>()]),
            Err(e) => e,
        }
    }
    fn many(&mut self, n: i64, t: i64, el: i64, eh: i64) -> J {
        // the light ones are spread over the whole set
        let loads: Vec<i64> = (0..n).map(|k| if (k * t) / n != ((k + 1) * t) / n { 1 } else { 2 }).collect();
        let least = if t == n || eh == 0 { el } else { eh };
        let total = 200 * n * (n - 1) / least;
        match self.counts(&loads, 0, total) {
            // at least 200 are expected: half of that is seven standard deviations away
            Ok(count) => json!(["ok", count.iter().zip(&loads).all(|(c, l)| {
                let e = (if *l == 1 { el } else { eh }) * total;
                2 * c * n * (n - 1) >= e && 2 * c * n * (n - 1) <= 3 * e
            })]),
            Err(e) => e,
        }
    }
    fn counts(&mut self, loads: &[i64], gone: usize, total: i64) -> Result<Vec<i64>, J> {
        let ctx = self.ctx.clone();
        let n = loads.len();
        let ctl: Vec<Ctl> = (1..=n).map(|i| Ctl::new(&ctx, i as i64).auto()).collect();
        ctl.iter().zip(loads).for_each(|(c, l)| c.set_load(*l));
        let mut count = vec![0i64; n];
        let mut b = None;
        for q in 0..total {
            if b.is_none() || self.kind != "kept" {
                let d = Disc::new(&ctx);
                let mut x = self.one(&d);
                for (i, c) in ctl.iter().enumerate() {
                    d.feed(Some(Ok(Change::Insert(i as i64, c.service()))));
                }
                if gone > 0 {
                    if !matches!(ctx.poll("instant", |cx| x.poll_ready(cx)), Poll::Ready(Ok(()))) {
                        return Err(json!(["not ready"]));
                    }
                    d.feed(Some(Ok(Change::Remove(gone as i64 - 1))));
                }
                b = Some(x);
            }
            let x = b.as_mut().unwrap();
            if !matches!(ctx.poll("instant", |cx| x.poll_ready(cx)), Poll::Ready(Ok(()))) {
                return Err(json!(["not ready"]));
            }
            let mut f = x.call(q);
            let p = ctx.poll("instant", |cx| Pin::new(&mut f).poll(cx));
            if !matches!(p, Poll::Ready(Ok(_))) {
                return Err(json!(["no answer"]));
            }
            let log = ctx.take_log();
            match log.as_slice() {
                [e] if e[0] == json!("call") => count[e[1].as_u64().unwrap() as usize - 1] += 1,
                l => return Err(json!(["the request is not with exactly one endpoint", l])),
            }
        }
        ctx.forget("instant");
        drop(b);
        Ok(count)
    }
}
impl Sut for Choice {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        if o.op == "many" {
            return self.many(o.i(0), o.i(1), o.i(2), o.i(3));
        }
        let loads: Vec<i64> = o.a[0].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        self.pick(&loads, o.u(1))
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        if self.maxn > 5 {
            let n = r.range(6, self.maxn as i64);
            let t = *r.pick(&[n, n, n / 2, n - 1]).unwrap();
            return Some(op("many", vec![json!(n), json!(t), json!(2 * (n - t) + t - 1), json!((n - t - 1).max(0))]));
        }
        let n = r.range(1, self.maxn as i64);
        let top = r.range(1, 4);
        let loads: Vec<i64> = (0..n).map(|_| r.range(1, top)).collect();
        let gone = if n > 1 && r.chance(1, 2) { r.range(1, n) } else { 0 };
        Some(op("pick", vec![json!(loads), json!(gone)]))
    }
}
pub fn choice() -> Component {
    Component {
        name: "Choice",
        boot: Box::new(|c| {
            Box::new(Choice { ctx: Ctx::new(), kind: c["kind"].as_str().unwrap().into(), seed: c["seed"].as_u64().unwrap_or(1), maxn: nat(c, "maxn", 4) })
        }),
        random_cfg: Box::new(|r, p| json!({"kind": r.pick(&["new", "make", "seed", "kept"]), "seed": r.below(1000000), "maxn": p["maxn"]})),
    }
}

// ------------------------------------------------------------------ random numbers
use tower::util::rng::{HasherRng, Rng as TowerRng};
struct Words(u64, u64);
impl TowerRng for Words {
    fn next_u64(&mut self) -> u64 {
        let w = self.0;
        self.0 = w.wrapping_add(self.1);
        w
    }
}
struct Numbers {
    ctx: Ctx,
    g: Box<dyn TowerRng>,
}
impl Numbers {
    /// the shares of n classes in units of 1/n, rounded
    fn shares(&mut self, n: u64, mut class: impl FnMut(&mut dyn TowerRng) -> Option<u64>) -> J {
        let total = 200 * n * n;
        let mut count = vec![0u64; n as usize];
        for _ in 0..total {
            match class(&mut self.g) {
                Some(x) if x < n => count[x as usize] += 1,
                _ => return json!(["out of range"]),
            }
        }
        json!(["ok", count.iter().map(|c| (c * n + total / 2) / total).collect::<Vec<_>>()])
    }
}
impl Sut for Numbers {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        match o.op.as_str() {
            "range" => {
                let n = o.i(0) as u64;
                let mut lo = 0u64;
                self.shares(n, |mut g| {
                    lo = (lo + 1) % 1000;
                    g.next_range(lo..lo + n).checked_sub(lo)
                })
            }
            "unit" => {
                let n = o.i(0) as u64;
                self.shares(n, |g| {
                    let x = g.next_f64();
                    if (0.0..1.0).contains(&x) { Some((x * n as f64) as u64) } else { None }
                })
            }
            "word" => {
                let (w, n) = (o.i(0), o.i(1) as u64);
                let word = match w {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 1 << 63,
                    3 => u64::MAX >> 1,
                    4 => u64::MAX << 11,
                    5 => u64::MAX >> 11,
                    6 => 1,
                    w => (w as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15),
                };
                let (mut a, mut b) = (true, true);
                for step in [0, 1, u64::MAX, 1 << 11, 0x9e37_79b9_7f4a_7c15] {
                    for (lo, hi) in [(0, n), (n, n + 1), (u64::MAX - n, u64::MAX), (0, u64::MAX), (1 << 63, (1 << 63) + n), (n, u64::MAX)] {
                        let mut g = Words(word, step);
                        a &= (0..16).all(|_| (lo..hi).contains(&g.next_range(lo..hi)));
                        let mut g: Box<dyn TowerRng> = Box::new(Words(word, step));
                        a &= (0..16).all(|_| (lo..hi).contains(&g.next_range(lo..hi)));
                    }
                    let mut g = Words(word, step);
                    b &= (0..16).all(|_| (0.0..1.0).contains(&g.next_f64()));
                }
                json!(["ok", a, b])
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        Some(match r.below(8) {
            0 => op("range", vec![json!(r.range(1, 40))]),
            1 => op("unit", vec![json!(r.range(1, 40))]),
            _ => op("word", vec![json!(r.below(10_000)), json!(r.range(1, 1_000_000))]),
        })
    }
}
pub fn rng() -> Component {
    Component {
        name: "Rng",
        boot: Box::new(|c| {
            let g: Box<dyn TowerRng> = match c["kind"].as_str().unwrap() {
                "new" => Box::new(HasherRng::new()),
                "default" => Box::new(HasherRng::default()),
                "fixed" => Box::new(HasherRng::with_hasher(std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default())),
                "box" => Box::new(Box::new(HasherRng::new()) as Box<dyn TowerRng>),
                _ => Box::new(Gen::Seeded(Rng::new(c["seed"].as_u64().unwrap_or(1)))),
            };
            Box::new(Numbers { ctx: Ctx::new(), g })
        }),
        random_cfg: Box::new(|r, _| json!({"kind": r.pick(&["new", "default", "fixed", "own", "box"]), "seed": r.below(1000)})),
    }
}
