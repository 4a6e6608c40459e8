//! Large numbers: many steps of one caller in each operation (spec Bulk)
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower::buffer::Buffer;
use tower::limit::{concurrency::ConcurrencyLimit, ConcurrencyLimitLayer, GlobalConcurrencyLimitLayer, RateLimitLayer};
use tower::ready_cache::ReadyCache;
use tower::balance::p2c::Balance;
use tower::discover::Change;
use tower::hedge;
use tower::load::{CompleteOnResponse, Constant, Load, PeakEwma, PendingRequests};
use tower::retry::{Policy, Retry};
use tower::steer::Steer;
use tower::util::{CallAll, CallAllUnordered};
use tower_layer::Layer;
use tower_service::Service;
use vharness::feed::Feed;
use vharness::*;

/// an inner service: readiness by allowance, answers when told
#[derive(Default)]
struct St {
    broken: bool,
    allow: i64, // requests it still takes; negative: any number
    waker: Option<Waker>,
    open: BTreeMap<i64, Option<Waker>>,
    done: BTreeSet<i64>,
    got: Vec<i64>,
    instant: bool,
}
#[derive(Clone)]
struct Many {
    id: i64,
    st: Arc<Mutex<St>>,
}
#[derive(Debug)]
struct Never;
impl std::fmt::Display for Never {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("failed")
    }
}
impl std::error::Error for Never {}
struct Answer(i64, Arc<Mutex<St>>);
impl Future for Answer {
    type Output = Result<i64, Never>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut st = self.1.lock().unwrap();
        if st.done.remove(&self.0) || st.instant {
            st.open.remove(&self.0);
            return Poll::Ready(Ok(self.0));
        }
        let q = self.0;
        st.open.insert(q, Some(cx.waker().clone()));
        Poll::Pending
    }
}
impl Many {
    fn new(id: i64, allow: i64, instant: bool) -> Many {
        Many { id, st: Arc::new(Mutex::new(St { allow, instant, ..St::default() })) }
    }
    fn allow(&self, n: i64) {
        let w = {
            let mut st = self.st.lock().unwrap();
            // (the caller's tasks are woken outside of the lock)
            st.allow = n;
            if n != 0 { st.waker.take() } else { None }
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    fn fail(&self) {
        let w = {
            let mut st = self.st.lock().unwrap();
            st.broken = true;
            st.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    fn finish(&self, q: i64) {
        let w = {
            let mut st = self.st.lock().unwrap();
            st.done.insert(q);
            st.open.get_mut(&q).and_then(|w| w.take())
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    fn got(&self) -> Vec<i64> {
        std::mem::take(&mut self.st.lock().unwrap().got)
    }
}
impl Service<i64> for Many {
    type Response = i64;
    type Error = Never;
    type Future = Answer;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Never>> {
        let mut st = self.st.lock().unwrap();
        if st.broken {
            return Poll::Ready(Err(Never));
        }
        if st.allow != 0 {
            return Poll::Ready(Ok(()));
        }
        st.waker = Some(cx.waker().clone());
        Poll::Pending
    }
    fn call(&mut self, q: i64) -> Answer {
        let mut st = self.st.lock().unwrap();
        if st.allow > 0 {
            st.allow -= 1;
        }
        st.got.push(q);
        st.open.insert(q, None);
        Answer(q, self.st.clone())
    }
}

type BoxSvc = Box<dyn Service<i64, Response = i64, Error = tower::BoxError, Future = Fut>>;
type Fut = Pin<Box<dyn Future<Output = Result<i64, tower::BoxError>>>>;
struct Boxed<S>(S);
impl<S> Service<i64> for Boxed<S>
where
    S: Service<i64, Response = i64> + 'static,
    S::Error: Into<tower::BoxError>,
    S::Future: 'static,
{
    type Response = i64;
    type Error = tower::BoxError;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), tower::BoxError>> {
        self.0.poll_ready(cx).map_err(Into::into)
    }
    fn call(&mut self, q: i64) -> Fut {
        let f = self.0.call(q);
        Box::pin(async move { f.await.map_err(Into::into) })
    }
}

struct Again(i64);
impl Clone for Again {
    fn clone(&self) -> Again {
        Again(self.0)
    }
}
impl Policy<i64, i64, Never> for Again {
    type Future = std::future::Ready<()>;
    fn retry(&mut self, req: &mut i64, _: &mut Result<i64, Never>) -> Option<Self::Future> {
        // the request says how often
        if self.0 < *req {
            self.0 += 1;
            Some(std::future::ready(()))
        } else {
            None
        }
    }
    fn clone_request(&mut self, req: &i64) -> Option<i64> {
        Some(*req)
    }
}

enum Part {
    Svc(BoxSvc),
    Steer(Box<dyn Service<i64, Response = i64, Error = Never, Future = Answer>>),
    Cache(ReadyCache<i64, Many, i64>),
    Ord(Pin<Box<CallAll<Many, Feed<i64>>>>),
    Unord(Pin<Box<CallAllUnordered<Many, Feed<i64>>>>),
    Retry(Retry<Again, Many>),
    Balance(Balance<Feed<Found>, i64>),
    Load(Box<dyn Busy>, f64),
    Hedge(hedge::Hedge<Many, Always>),
}
/// always copies, always agrees
#[derive(Clone)]
struct Always;
impl hedge::Policy<i64> for Always {
    fn clone_request(&self, q: &i64) -> Option<i64> {
        Some(*q)
    }
    fn can_retry(&self, _: &i64) -> bool {
        true
    }
}
type Found = Result<Change<i64, Constant<Many, f64>>, Never>;
/// a service that reports a load
trait Busy: Service<i64, Response = i64, Error = Never, Future = Fut2> {
    fn busy(&self) -> f64;
}
type Fut2 = Pin<Box<dyn Future<Output = Result<i64, Never>>>>;
struct Loaded<S>(S);
impl<S: Service<i64, Response = i64, Error = Never>> Service<i64> for Loaded<S>
where
    S::Future: 'static,
{
    type Response = i64;
    type Error = Never;
    type Future = Fut2;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Never>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, q: i64) -> Fut2 {
        Box::pin(self.0.call(q))
    }
}
impl<S: Service<i64, Response = i64, Error = Never> + Load> Busy for Loaded<S>
where
    S::Future: 'static,
    S::Metric: std::fmt::Debug,
{
    fn busy(&self) -> f64 {
        number(self.0.load())
    }
}
struct Bulk {
    ctx: Ctx,
    part: Part,
    name: String,
    n: i64,
    inner: Vec<Many>,
    worker: Option<Pin<Box<dyn Future<Output = ()> + Send>>>,
    mock: Option<tower_test::mock::Handle<i64, i64>>,
    feed: Option<Feed<i64>>,
    disc: Option<Feed<Found>>,
    // the endpoints that are there: ready, not ready, broken
    ready: Vec<usize>,
    sick: Vec<usize>,
    lots: BTreeMap<i64, Fut2>,
    next: i64,
    futs: BTreeMap<i64, Fut>,
    down: BTreeSet<usize>,
    // what the random environment knows
    used: i64,
    sure: bool,
    new: bool,
    fresh: bool,
    slow: bool,
    up: i64,
    clock: Clock,
}
impl Drop for Bulk {
    fn drop(&mut self) {
        let _g = self.clock.rt.enter();
        self.futs.clear();
        self.lots.clear();
        self.part = Part::Cache(ReadyCache::default());
    }
}
impl Bulk {
    fn fill(&mut self, m: i64) -> J {
        let ctx = self.ctx.clone();
        let Part::Svc(svc) = &mut self.part else { panic!("harness: fill") };
        let mut g = 0;
        while g < m {
            match ctx.poll("h1", |cx| svc.poll_ready(cx)) {
                Poll::Pending => break,
                Poll::Ready(Err(e)) => return json!(["err", e.to_string()]),
                Poll::Ready(Ok(())) => {
                    self.next += 1;
                    let f = svc.call(self.next);
                    self.futs.insert(self.next, f);
                    g += 1;
                }
            }
        }
        self.used += g;
        if self.name == "rate" {
            self.futs.clear();
        }
        json!(["ok", g])
    }
    /// the answers to these requests are there
    fn answered(&mut self, qs: &[i64]) -> bool {
        let ctx = self.ctx.clone();
        let all = qs.iter().all(|q| match self.futs.remove(q) {
            None => false,
            Some(mut f) => matches!(ctx.poll("instant", |cx| f.as_mut().poll(cx)), Poll::Ready(Ok(v)) if v == *q),
        });
        ctx.forget("instant");
        all
    }
    /// how many requests there are, by the load
    fn outstanding(&self) -> J {
        let Part::Load(s, one) = &self.part else { panic!("harness: part") };
        // (the time stands still and so does the estimate)
        let n = if *one == 0.0 { s.busy() } else { s.busy() / one - 1.0 };
        if (n - n.round()).abs() > 1e-6 * n.max(1.0) {
            return json!(["the load is no multiple", n]);
        }
        json!(["ok", n.round() as i64])
    }
    fn look(&self) -> J {
        let Part::Cache(c) = &self.part else { panic!("harness: look") };
        if c.ready_len() + c.pending_len() != c.len() || c.iter_ready().count() != c.ready_len() {
            return json!(["the views of the set disagree"]);
        }
        json!(["ok", c.ready_len(), c.pending_len()])
    }
}
impl Sut for Bulk {
    fn ctx(&self) -> Ctx {
        self.ctx.clone()
    }
    fn apply(&mut self, o: &Op) -> J {
        let ctx = self.ctx.clone();
        if o.op == "hturn" {
            self.used = 0;
            self.clock.advance(1_000_000);
            return json!(["ok"]);
        }
        if o.op == "turn" {
            self.used = 0;
            self.clock.advance(1000);
            return json!(["ok"]);
        }
        let rt = self.clock.rt.handle().clone();
        let _g = rt.enter();
        match o.op.as_str() {
            "fill" => self.fill(o.i(0)),
            "free" => {
                // from both ends
                let ks: Vec<i64> = self.futs.keys().copied().collect();
                let (m, n) = (o.u(0), ks.len());
                self.used -= m as i64;
                let ks: Vec<i64> = (0..m).map(|i| if i % 2 == 0 { ks[i / 2] } else { ks[n - 1 - i / 2] }).collect();
                let (fin, drop): (Vec<i64>, Vec<i64>) = ks.iter().partition(|k| *k % 3 > 0);
                fin.iter().for_each(|k| self.inner[0].finish(*k));
                let ok = self.answered(&fin);
                drop.iter().for_each(|k| {
                    self.futs.remove(k);
                });
                json!([if ok { "ok" } else { "an answer is missing" }])
            }
            "work" => {
                self.inner[0].allow(o.i(0));
                let w = self.worker.as_mut().unwrap();
                if ctx.poll("w", |cx| w.as_mut().poll(cx)).is_ready() {
                    return json!(["the worker ended"]);
                }
                ctx.forget("w");
                self.inner[0].allow(0);
                let got = self.inner[0].got();
                // the oldest ones in order
                let ks: Vec<i64> = self.futs.keys().take(got.len()).copied().collect();
                let ok = ks == got && self.answered(&got);
                self.used -= got.len() as i64;
                json!(["ok", got.len(), ok])
            }
            "allow" => {
                self.mock.as_mut().unwrap().allow(o.i(0) as u64);
                self.used = 0;
                json!(["ok"])
            }
            "stall" => {
                self.slow = true;
                self.inner[o.u(0) - 1].allow(0);
                json!(["ok"])
            }
            "goon" => {
                self.slow = false;
                self.inner.iter().for_each(|m| {
                    if m.st.lock().unwrap().allow == 0 {
                        m.allow(-1)
                    }
                });
                json!(["ok"])
            }
            "spoll" => {
                let Part::Steer(s) = &mut self.part else { panic!("harness: part") };
                let p = ctx.poll("h1", |cx| s.poll_ready(cx));
                self.new = false;
                self.sure = p.is_ready();
                self.fresh = p.is_ready();
                poll_j(p, |_| json!(["ok"]), |e| json!(["err", e.to_string()]))
            }
            "route" => {
                let Part::Steer(s) = &mut self.part else { panic!("harness: part") };
                self.fresh = false;
                let q = o.i(0) - 1;
                let mut f = s.call(q);
                let p = ctx.poll("instant", |cx| Pin::new(&mut f).poll(cx));
                ctx.forget("instant");
                let who: Vec<i64> = self.inner.iter().filter(|m| m.got() == [q]).map(|m| m.id).collect();
                match (who.as_slice(), p) {
                    ([i], Poll::Ready(Ok(v))) if v == q => json!(["ok", i]),
                    (w, _) => json!(["the request is with", w]),
                }
            }
            "push" => {
                let Part::Cache(c) = &mut self.part else { panic!("harness: part") };
                for _ in 0..o.i(0) {
                    let i = self.used as usize;
                    c.push(i as i64, self.inner[i].clone());
                    self.down.insert(i);
                    self.used += 1;
                }
                json!(["ok"])
            }
            "rise" => {
                let ks: Vec<usize> = self.down.iter().copied().collect();
                for i in 0..o.u(0) {
                    let k = if i % 2 == 0 { ks[i / 2] } else { ks[ks.len() - 1 - i / 2] };
                    self.down.remove(&k);
                    self.inner[k].allow(-1);
                }
                json!(["ok"])
            }
            "pend" => {
                let Part::Cache(c) = &mut self.part else { panic!("harness: part") };
                let p = ctx.poll("h1", |cx| c.poll_pending(cx));
                self.up = c.ready_len() as i64;
                poll_j(p, |_| json!(["ok"]), |e| json!(["err", e.0]))
            }
            "use" => {
                let Part::Cache(c) = &mut self.part else { panic!("harness: part") };
                for _ in 0..o.i(0) {
                    let n = c.ready_len();
                    let k = *c.get_ready_index(n / 2).unwrap().0;
                    let mut f = c.call_ready(&k, k);
                    let p = ctx.poll("instant", |cx| Pin::new(&mut f).poll(cx));
                    if !matches!(p, Poll::Ready(Ok(v)) if v == k) || self.inner[k as usize].got() != [k] {
                        return json!(["the request went elsewhere"]);
                    }
                }
                ctx.forget("instant");
                self.up -= o.i(0);
                json!(["ok"])
            }
            "look" => self.look(),
            "feed" => {
                for _ in 0..o.i(0) {
                    self.next += 1;
                    self.used += 1;
                    self.feed.as_ref().unwrap().feed(Some(self.next));
                }
                let p = loop {
                    let p = match &mut self.part {
                        Part::Ord(a) => ctx.poll("instant", |cx| futures_core::Stream::poll_next(a.as_mut(), cx)),
                        Part::Unord(a) => ctx.poll("instant", |cx| futures_core::Stream::poll_next(a.as_mut(), cx)),
                        _ => panic!("harness: part"),
                    };
                    if p.is_ready() || !ctx.is_woken("instant") {
                        break p;
                    }
                };
                ctx.forget("instant");
                let got = self.inner[0].got();
                let (lo, hi) = (self.next - o.i(0) + 1, self.next);
                if p.is_ready() || !got.iter().copied().eq(lo..=hi) {
                    return json!(["the requests did not come in turn", got.len()]);
                }
                let open = self.inner[0].st.lock().unwrap().open.len();
                json!(["ok", open])
            }
            "yield" => {
                let m = o.u(0);
                let ks: Vec<i64> = self.inner[0].st.lock().unwrap().open.keys().copied().collect();
                let ord = matches!(self.part, Part::Ord(_));
                let ks: Vec<i64> = if ord { ks[..m].to_vec() } else { ks[ks.len() - m..].to_vec() };
                // told in the opposite order
                ks.iter().rev().for_each(|k| self.inner[0].finish(*k));
                let mut out = vec![];
                loop {
                    let p = match &mut self.part {
                        Part::Ord(a) => ctx.poll("instant", |cx| futures_core::Stream::poll_next(a.as_mut(), cx)),
                        Part::Unord(a) => ctx.poll("instant", |cx| futures_core::Stream::poll_next(a.as_mut(), cx)),
                        _ => panic!("harness: part"),
                    };
                    match p {
                        Poll::Ready(Some(Ok(v))) => out.push(v),
                        // taking a break is fine as long as it goes on by itself
                        Poll::Pending if ctx.is_woken("instant") => continue,
                        Poll::Pending => break,
                        _ => return json!(["an error or the end"]),
                    }
                }
                ctx.forget("instant");
                self.used -= out.len() as i64;
                if !ord {
                    out.sort();
                }
                json!(["ok", out.len(), out == ks])
            }
            "ask" => {
                let Part::Retry(r) = &mut self.part else { panic!("harness: part") };
                if !matches!(ctx.poll("instant", |cx| r.poll_ready(cx)), Poll::Ready(Ok(()))) {
                    return json!(["not ready"]);
                }
                let mut f = Box::pin(r.call(o.i(0)));
                loop {
                    match ctx.poll("instant", |cx| f.as_mut().poll(cx)) {
                        Poll::Ready(Ok(v)) if v == o.i(0) => break,
                        Poll::Pending if ctx.is_woken("instant") => continue,
                        _ => return json!(["no answer"]),
                    }
                }
                ctx.forget("instant");
                json!(["ok", self.inner[0].got().len()])
            }
            "join" => {
                for _ in 0..o.i(0) {
                    self.next += 1;
                    let i = self.inner.len();
                    self.inner.push(Many::new(self.next, 0, true));
                    self.disc.as_ref().unwrap().feed(Some(Ok(Change::Insert(self.next, Constant::new(self.inner[i].clone(), (self.next % 7) as f64)))));
                    self.down.insert(i);
                }
                self.used += o.i(0);
                json!(["ok"])
            }
            "part" => {
                for k in 0..o.u(0) {
                    let i = if o.i(1) == 1 {
                        self.ready.remove(if k % 2 == 0 { 0 } else { self.ready.len() - 1 })
                    } else {
                        let i = if k % 2 == 0 { *self.down.first().unwrap() } else { *self.down.last().unwrap() };
                        self.down.remove(&i);
                        i
                    };
                    self.disc.as_ref().unwrap().feed(Some(Ok(Change::Remove(self.inner[i].id))));
                }
                self.used -= o.i(0);
                self.sure = false;
                json!(["ok"])
            }
            "grow" | "break" => {
                for k in 0..o.u(0) {
                    let i = if k % 2 == 0 { *self.down.last().unwrap() } else { *self.down.first().unwrap() };
                    self.down.remove(&i);
                    if o.op == "grow" {
                        self.ready.push(i);
                        self.inner[i].allow(-1);
                    } else {
                        self.sick.push(i);
                        self.inner[i].fail();
                    }
                }
                self.sure = false;
                json!(["ok"])
            }
            "bpoll" => {
                let Part::Balance(b) = &mut self.part else { panic!("harness: part") };
                let p = loop {
                    let p = ctx.poll("h1", |cx| b.poll_ready(cx));
                    if p.is_ready() || !ctx.is_woken("h1") {
                        break p;
                    }
                };
                self.sure = p.is_ready();
                self.used -= self.sick.len() as i64;
                self.sick.clear();
                match p {
                    Poll::Ready(Ok(())) => json!(["ok", b.len()]),
                    Poll::Pending => json!(["pending", b.len()]),
                    Poll::Ready(Err(e)) => json!(["err", e.to_string()]),
                }
            }
            "send" => {
                let Part::Balance(b) = &mut self.part else { panic!("harness: part") };
                let mut n = 0;
                for q in 0..o.i(0) {
                    if !matches!(ctx.poll("h1", |cx| b.poll_ready(cx)), Poll::Ready(Ok(()))) {
                        return json!(["not ready", n]);
                    }
                    let mut f = b.call(q);
                    let p = ctx.poll("instant", |cx| Pin::new(&mut f).poll(cx));
                    let who: Vec<usize> = (0..self.inner.len()).filter(|i| self.inner[*i].got() == [q]).collect();
                    if matches!(p, Poll::Ready(Ok(v)) if v == q) && who.len() == 1 && self.ready.contains(&who[0]) {
                        n += 1;
                    }
                }
                ctx.forget("instant");
                self.sure = false;
                json!(["ok", n])
            }
            "more" => {
                let Part::Load(s, _) = &mut self.part else { panic!("harness: part") };
                for _ in 0..o.i(0) {
                    if !matches!(ctx.poll("h1", |cx| s.poll_ready(cx)), Poll::Ready(Ok(()))) {
                        return json!(["not ready"]);
                    }
                    self.next += 1;
                    self.lots.insert(self.next, s.call(self.next));
                }
                self.used += o.i(0);
                self.outstanding()
            }
            "less" => {
                for k in 0..o.i(0) {
                    let (q, mut f) = if k % 2 == 0 { self.lots.pop_first().unwrap() } else { self.lots.pop_last().unwrap() };
                    if q % 3 > 0 {
                        self.inner[0].finish(q);
                        if !matches!(ctx.poll("instant", |cx| f.as_mut().poll(cx)), Poll::Ready(Ok(v)) if v == q) {
                            return json!(["an answer is missing"]);
                        }
                    }
                }
                ctx.forget("instant");
                self.used -= o.i(0);
                self.outstanding()
            }
            "learn" | "hask" => {
                let Part::Hedge(h) = &mut self.part else { panic!("harness: part") };
                // of a request that is not answered in time: how often it was sent
                let (ask, fast) = (o.op == "hask", o.op == "learn" && o.i(1) == 1);
                self.inner[0].st.lock().unwrap().instant = fast;
                let mut open = vec![];
                for _ in 0..if ask { 1 } else { o.i(0) } {
                    if !matches!(ctx.poll("instant", |cx| h.poll_ready(cx)), Poll::Ready(Ok(()))) {
                        return json!(["not ready"]);
                    }
                    self.next += 1;
                    let mut f = Box::pin(h.call(self.next));
                    match ctx.poll("instant", |cx| f.as_mut().poll(cx)) {
                        Poll::Pending if !fast => open.push((self.next, f)),
                        Poll::Ready(Ok(v)) if fast && v == self.next => {}
                        _ => return json!(["a wrong answer"]),
                    }
                }
                let mut sent = 0;
                if !fast {
                    self.clock.advance(if ask { 10 } else { 50 });
                    self.inner[0].st.lock().unwrap().instant = !ask;
                    for (q, f) in open.iter_mut() {
                        let p = ctx.poll("instant", |cx| f.as_mut().poll(cx));
                        if !(ask && p.is_pending() || matches!(p, Poll::Ready(Ok(v)) if !ask && v == *q)) {
                            return json!(["a wrong answer"]);
                        }
                    }
                    sent = self.inner[0].got().len();
                }
                drop(open);
                ctx.forget("instant");
                self.inner[0].got();
                self.inner[0].st.lock().unwrap().open.clear();
                if fast {
                    self.used += o.i(0);
                }
                json!(if ask { json!(["ok", sent]) } else { json!(["ok"]) })
            }
            x => panic!("harness: op {}", x),
        }
    }
    fn choose(&mut self, r: &mut Rng) -> Option<Op> {
        let n = self.n;
        let some = |r: &mut Rng, top: i64| -> i64 {
            let m = match r.below(5) {
                0 => top,
                1 => top + 1,
                2 => top - 1,
                3 => r.range(1, 3),
                _ => r.range(1, top.max(1)),
            };
            m.clamp(1, top.max(1) + 1)
        };
        for _ in 0..80 {
            let left = n - self.used;
            return Some(match (self.name.as_str(), r.below(10)) {
                ("buffer" | "climit" | "rate" | "allow", 0..=4) => {
                    let t = *r.pick(&[left, n]).unwrap();
                    op("fill", vec![json!(some(r, t))])
                }
                ("buffer", _) => op("work", vec![json!(some(r, self.used))]),
                ("climit", _) if self.used > 0 => op("free", vec![json!(some(r, self.used).min(self.used))]),
                ("rate", 5..=6) => op("turn", vec![]),
                ("allow", _) => op("allow", vec![json!(if r.chance(1, 4) { 0 } else { some(r, n) })]),
                ("steer", 0..=5) if self.new && !self.slow => op("stall", vec![json!(if r.chance(1, 2) { n } else { r.range(1, n) })]),
                ("steer", 0..=4) => op("spoll", vec![]),
                ("steer", 5..=6) if self.fresh => op("route", vec![json!(if r.chance(1, 3) { n } else { r.range(1, n) })]),
                ("steer", 7) if (self.sure || self.new) && !self.slow => op("stall", vec![json!(r.range(1, n))]),
                ("steer", 8..=9) if self.slow => op("goon", vec![]),
                ("cache", 0..=1) if left > 0 => op("push", vec![json!(some(r, left).min(left))]),
                ("cache", 2..=4) => op("pend", vec![]),
                ("cache", 5..=6) if !self.down.is_empty() => {
                    let d = self.down.len() as i64;
                    op("rise", vec![json!(some(r, d).min(d))])
                }
                ("cache", 7..=8) if self.up > 0 => op("use", vec![json!(some(r, self.up).min(self.up))]),
                ("cache", 9) => op("look", vec![]),
                ("all", 0..=4) if left > 0 => op("feed", vec![json!(some(r, left).min(left))]),
                ("all", _) if self.used > 0 => op("yield", vec![json!(some(r, self.used).min(self.used))]),
                ("balance", 0..=1) if left > 0 => op("join", vec![json!(some(r, left).min(left))]),
                ("balance", 2) if !self.ready.is_empty() => {
                    let d = self.ready.len() as i64;
                    op("part", vec![json!(some(r, d).min(d)), json!(1)])
                }
                ("balance", 2..=4) if !self.down.is_empty() => {
                    let d = self.down.len() as i64;
                    let m = json!(some(r, d).min(d));
                    match r.below(5) {
                        0 => op("part", vec![m, json!(0)]),
                        1..=2 => op("break", vec![m]),
                        _ => op("grow", vec![m]),
                    }
                }
                ("balance", 5..=8) => op("bpoll", vec![]),
                ("balance", 9) if self.sure => op("send", vec![json!(r.range(1, 20))]),
                ("load", 0..=4) if left > 0 => op("more", vec![json!(some(r, left).min(left))]),
                ("load", _) if self.used > 0 => op("less", vec![json!(some(r, self.used).min(self.used))]),
                ("hedge", 0..=2) if self.used < 3 * n => op("learn", vec![json!(some(r, n)), json!(1)]),
                ("hedge", 3) if self.used > 0 => op("learn", vec![json!(some(r, self.used)), json!(0)]),
                ("hedge", 4..=5) => op("hturn", vec![]),
                ("hedge", 6..=8) => op("hask", vec![]),
                ("retry", _) => op("ask", vec![json!(some(r, n) - 1)]),
                _ => continue,
            });
        }
        None
    }
}

pub fn component() -> Component {
    Component {
        name: "Bulk",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let n = c["n"].as_i64().unwrap();
            let how = c["how"].as_u64().unwrap();
            let name = c["part"].as_str().unwrap().to_string();
            let (mut inner, mut worker, mut mock, mut feed, mut disc) = (vec![Many::new(1, -1, false)], None, None, None, None);
            let part = {
                let _g = clock.rt.enter();
                match name.as_str() {
                    "buffer" => {
                        inner = vec![Many::new(1, 0, true)];
                        let (b, w) = Buffer::pair(inner[0].clone(), n as usize);
                        worker = Some(Box::pin(w) as Pin<Box<dyn Future<Output = ()> + Send>>);
                        Part::Svc(Box::new(Boxed(b)))
                    }
                    "climit" => {
                        let m = inner[0].clone();
                        Part::Svc(match how {
                            0 => Box::new(Boxed(ConcurrencyLimit::new(m, n as usize))),
                            1 => Box::new(Boxed(ConcurrencyLimitLayer::new(n as usize).layer(m))),
                            2 => Box::new(Boxed(GlobalConcurrencyLimitLayer::new(n as usize).layer(m))),
                            _ => Box::new(Boxed(tower::ServiceBuilder::new().concurrency_limit(n as usize).service(m))),
                        })
                    }
                    "rate" => {
                        let m = inner[0].clone();
                        let per = std::time::Duration::from_secs(1);
                        Part::Svc(match how {
                            0 | 1 => Box::new(Boxed(RateLimitLayer::new(n as u64, per).layer(m))),
                            _ => Box::new(Boxed(tower::ServiceBuilder::new().rate_limit(n as u64, per).service(m))),
                        })
                    }
                    "allow" => {
                        let (m, mut h) = tower_test::mock::pair::<i64, i64>();
                        h.allow(0);
                        mock = Some(h);
                        Part::Svc(Box::new(Boxed(m)))
                    }
                    "steer" => {
                        inner = (1..=n).map(|i| Many::new(i, -1, true)).collect();
                        Part::Steer(Box::new(Steer::new(inner.clone(), |q: &i64, s: &[Many]| if s.len() > *q as usize { *q as usize } else { 0 })))
                    }
                    "cache" => {
                        inner = (0..n).map(|i| Many::new(i, 0, true)).collect();
                        Part::Cache(ReadyCache::default())
                    }
                    "all" => {
                        let f = Feed::new(&ctx);
                        feed = Some(f.clone());
                        if how % 2 == 0 {
                            Part::Ord(Box::pin(CallAll::new(inner[0].clone(), f)))
                        } else {
                            Part::Unord(Box::pin(CallAll::new(inner[0].clone(), f).unordered()))
                        }
                    }
                    "balance" => {
                        inner = vec![];
                        let f = Feed::new(&ctx);
                        disc = Some(f.clone());
                        Part::Balance(Balance::new(f))
                    }
                    "load" => {
                        let (m, rtt, c) = (inner[0].clone(), std::time::Duration::from_millis(500), CompleteOnResponse::default());
                        if how % 2 == 0 {
                            Part::Load(Box::new(Loaded(PendingRequests::new(m, c))), 0.0)
                        } else {
                            let s = Loaded(PeakEwma::new(m, rtt, 1e9, c));
                            let one = s.busy();
                            Part::Load(Box::new(s), one)
                        }
                    }
                    "retry" => {
                        inner = vec![Many::new(1, -1, true)];
                        Part::Retry(Retry::new(Again(0), inner[0].clone()))
                    }
                    "hedge" => {
                        let (m, per) = (inner[0].clone(), std::time::Duration::from_secs(1000));
                        Part::Hedge(if how < 3 {
                            hedge::Hedge::new(m, Always, n as u64, 0.5, per)
                        } else {
                            hedge::Hedge::new_with_mock_latencies(m, Always, n as u64, 0.5, per, &vec![0; n as usize])
                        })
                    }
                    x => panic!("harness: part {}", x),
                }
            };
            Box::new(Bulk { ctx, part, name, n, inner, worker, mock, feed, next: 0, futs: BTreeMap::new(), down: BTreeSet::new(), used: 0, sure: false, new: true, disc, ready: vec![], sick: vec![], lots: BTreeMap::new(), fresh: false, slow: false, up: 0, clock })
        }),
        random_cfg: Box::new(|r, p| {
            let ns: Vec<i64> = p["ns"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
            let n = *r.pick(&ns).unwrap();
            json!({"part": p["part"], "n": n, "how": r.below(4)})
        }),
    }
}
