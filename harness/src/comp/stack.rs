//! Limits stacked at run time, and requests followed through all of them
use serde_json::json;
use std::cell::RefCell;
use std::future::{ready, Future, Ready};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::Duration;
use tower::buffer::error::{Closed, ServiceError};
use tower::buffer::{Buffer, BufferLayer};
use tower::limit::{rate::Rate, ConcurrencyLimit, ConcurrencyLimitLayer, RateLimit, RateLimitLayer};
use tower::load_shed::{error::Overloaded, LoadShed, LoadShedLayer};
use tower::retry::{Policy, Retry, RetryLayer};
use tower::timeout::{error::Elapsed, Timeout, TimeoutLayer};
use tower::{BoxError, Layer, Service, ServiceBuilder};
use vharness::mid::*;
use vharness::mock::{Ctl, MockErr};
use vharness::*;

/// everything here runs on one thread
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
type BFut = Pin<Box<dyn Future<Output = Result<i64, BoxError>> + Send>>;
struct FFut<T>(Pin<Box<T>>);
unsafe impl<T> Send for FFut<T> {}
impl<T, E: Into<BoxError>> Future for FFut<T>
where
    T: Future<Output = Result<i64, E>>,
{
    type Output = Result<i64, BoxError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.0.as_mut().poll(cx).map_err(Into::into)
    }
}
trait BSvc: Send + Sync {
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>>;
    fn go(&mut self, req: i64) -> BFut;
    fn dup(&self) -> Box<dyn BSvc>;
}
struct Erased<S> {
    s: Force<S>,
    dup: fn(&S) -> S,
}
impl<S> BSvc for Erased<S>
where
    S: Service<i64, Response = i64> + 'static,
    S::Error: Into<BoxError> + 'static,
    S::Future: 'static,
{
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.s.0.poll_ready(cx).map_err(Into::into)
    }
    fn go(&mut self, req: i64) -> BFut {
        Box::pin(FFut(Box::pin(self.s.0.call(req))))
    }
    fn dup(&self) -> Box<dyn BSvc> {
        Box::new(Erased { s: Force((self.dup)(&self.s.0)), dup: self.dup })
    }
}
struct Any(Box<dyn BSvc>);
impl Clone for Any {
    fn clone(&self) -> Any {
        Any(self.0.dup())
    }
}
impl Service<i64> for Any {
    type Response = i64;
    type Error = BoxError;
    type Future = BFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.0.ready(cx)
    }
    fn call(&mut self, req: i64) -> BFut {
        self.0.go(req)
    }
}
fn any<S>(s: S) -> Any
where
    S: Service<i64, Response = i64> + Clone + 'static,
    S::Error: Into<BoxError> + 'static,
    S::Future: 'static,
{
    Any(Box::new(Erased { s: Force(s), dup: |s: &S| s.clone() }))
}
fn any1<S>(s: S) -> Any
where
    S: Service<i64, Response = i64> + 'static,
    S::Error: Into<BoxError> + 'static,
    S::Future: 'static,
{
    Any(Box::new(Erased { s: Force(s), dup: no_dup::<S> }))
}

#[derive(Clone)]
struct Times {
    left: u64,
    ctx: Ctx,
}
impl Policy<i64, i64, BoxError> for Times {
    type Future = Ready<()>;
    fn retry(&mut self, req: &mut i64, r: &mut Result<i64, BoxError>) -> Option<Ready<()>> {
        if r.is_ok() || self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.ctx.log(json!(["again", *req]));
        Some(ready(()))
    }
    fn clone_request(&mut self, req: &i64) -> Option<i64> {
        Some(*req)
    }
}

pub fn err(e: BoxError) -> J {
    if let Some(s) = e.downcast_ref::<ServiceError>() {
        json!(["err", "service", std::error::Error::source(s).map(|x| x.to_string()).unwrap_or_default()])
    } else if e.is::<Closed>() {
        json!(["err", "closed"])
    } else if e.is::<Overloaded>() {
        json!(["err", "overloaded"])
    } else if e.is::<Elapsed>() {
        json!(["err", "elapsed"])
    } else if let Some(m) = e.downcast_ref::<MockErr>() {
        json!(["err", m.0])
    } else {
        json!(["err", "unknown", e.to_string()])
    }
}

type Worker = Rc<RefCell<Option<Pin<Box<dyn Future<Output = ()>>>>>>;

fn boot(c: &J) -> Box<dyn Sut> {
    let (ctx, clock) = (Ctx::new(), Clock::new());
    let ctl = Ctl::new(&ctx, 0);
    let auto = c["auto"].as_bool().unwrap();
    let worker: Worker = Rc::new(RefCell::new(None));
    let g = clock.enter();
    let mut s = any(ctl.service());
    for (j, l) in c["ls"].as_array().unwrap().iter().enumerate().rev() {
        let (a, b) = (l["a"].as_u64().unwrap(), Duration::from_millis(l["b"].as_u64().unwrap()));
        // the layers take turns in how they are built
        let via = (j as u64 + c["via"].as_u64().unwrap_or(0)) % 3;
        let (bld, new) = (via == 0, via == 2);
        s = match l["t"].as_str().unwrap() {
            "climit" if bld => any(ServiceBuilder::new().concurrency_limit(a as usize).service(s)),
            "climit" if new => any(ConcurrencyLimit::new(s, a as usize)),
            "climit" => any(ConcurrencyLimitLayer::new(a as usize).layer(s)),
            "rate" if bld => any1(ServiceBuilder::new().rate_limit(a, b).service(s)),
            "rate" if new => any1(RateLimit::new(s, Rate::new(a, b))),
            "rate" => any1(RateLimitLayer::new(a, b).layer(s)),
            "shed" if bld => any(ServiceBuilder::new().load_shed().service(s)),
            "shed" if new => any(LoadShed::new(s)),
            "shed" => any(LoadShedLayer::new().layer(s)),
            "timeout" if bld => any(ServiceBuilder::new().timeout(Duration::from_millis(a)).service(s)),
            "timeout" if new => any(Timeout::new(s, Duration::from_millis(a))),
            "timeout" => any(TimeoutLayer::new(Duration::from_millis(a)).layer(s)),
            "retry" if bld => any(ServiceBuilder::new().retry(Times { left: a, ctx: ctx.clone() }).service(s)),
            "retry" if new => any(Retry::new(Times { left: a, ctx: ctx.clone() }, s)),
            "retry" => any(RetryLayer::new(Times { left: a, ctx: ctx.clone() }).layer(s)),
            "buffer" if auto && bld => any(ServiceBuilder::new().buffer(a as usize).service(s)),
            "buffer" if auto && new => any(Buffer::new(s, a as usize)),
            "buffer" if auto => any(BufferLayer::<i64>::new(a as usize).clone().layer(s)),
            "buffer" => {
                let (b, w) = Buffer::pair(s, a as usize);
                *worker.borrow_mut() = Some(Box::pin(w));
                any(b)
            }
            t => panic!("harness: layer {}", t),
        };
    }
    drop(g);
    clock.settle();
    let mut m = Mid::new(ctx, clock, vec![ctl], wrap_clone(s, err));
    m.settle = auto;
    m.rs = vec!["ok", "ok", "ok", "err", "err", "err", "panic"];
    m.nk = c["nk"].as_u64().unwrap() as usize;
    m.nh = c["nh"].as_u64().unwrap() as usize;
    let has = |t: &str| c["ls"].as_array().unwrap().iter().position(|l| l["t"] == t);
    let clonable = match (has("rate"), has("buffer")) {
        (None, _) => true,
        (Some(r), Some(b)) => b < r,
        _ => false,
    };
    m.w = Weights { clone: if clonable { 4 } else { 0 }, drop: 2, adv: 8, finish: 14, more: if auto || has("buffer").is_none() { 0 } else { 20 }, ..Weights::default() };
    m.advs = vec![1, 10, 100, 250, 1000];
    let w = worker.clone();
    m.more = Some(Box::new(move |_| w.borrow().as_ref().map(|_| op("worker", vec![]))));
    m.extra = Some(Box::new(move |o, ctx, _| match o.op.as_str() {
        "worker" => {
            let mut w = worker.borrow_mut();
            let f = w.as_mut().expect("harness: worker");
            match ctx.poll("w", |cx| f.as_mut().poll(cx)) {
                Poll::Pending => json!(["pending"]),
                Poll::Ready(()) => {
                    *w = None;
                    ctx.forget("w");
                    json!(["done"])
                }
            }
        }
        x => panic!("harness: op {}", x),
    }));
    Box::new(m)
}

pub fn component() -> Component {
    Component {
        name: "Stack",
        boot: Box::new(boot),
        random_cfg: Box::new(|r, p| {
            let max = p["max"].as_u64().unwrap_or(5);
            let mut ls: Vec<J> = vec![];
            let (mut buf, mut ret) = (false, false);
            for _ in 0..r.range(1, max as i64) {
                let (t, a, b) = match r.below(6) {
                    0 => ("climit", r.range(1, 3), 0),
                    1 => ("rate", r.range(1, 3), *r.pick(&[50, 250, 1000]).unwrap()),
                    2 => ("shed", 0, 0),
                    3 => ("timeout", *r.pick(&[1, 100, 350]).unwrap(), 0),
                    4 => ("retry", r.range(0, 2), 0),
                    _ => ("buffer", r.range(1, 3), 0),
                };
                match t {
                    "buffer" if buf => continue,
                    "buffer" => buf = true,
                    "retry" if ret => continue,
                    "retry" => ret = true,
                    _ => {}
                }
                ls.push(json!({"t": t, "a": a, "b": b}));
            }
            let pos = |ls: &Vec<J>, t: &str| ls.iter().position(|l| l["t"] == t);
            // a retry layer clones what is below it, which a rate limit does not allow
            if let Some(x) = pos(&ls, "retry") {
                let b = pos(&ls, "buffer").filter(|b| *b > x).unwrap_or(usize::MAX);
                let mut n = 0;
                ls.retain(|l| {
                    n += 1;
                    !(l["t"] == "rate" && n - 1 > x && n - 1 < b)
                });
            }
            json!({"via": r.below(3), "auto": r.chance(1, 2), "ls": ls, "nh": p["nh"], "nk": p["nk"]})
        }),
    }
}
