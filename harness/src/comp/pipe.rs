//! Layers, ServiceBuilder and the combinators, composed at run time.
use serde_json::json;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tower::builder::ServiceBuilder;
use tower::util::*;
use tower::{BoxError, Service, ServiceExt};
use tower_layer::{layer_fn, Identity, Layer, Stack};
use vharness::mid::*;
use vharness::mock::{Ctl, Mock, MockErr};
use vharness::*;

const P: i64 = 100_003;
fn f(i: i64, v: i64) -> i64 {
    (v * 17 + i) % P
}
fn g(i: i64, e: i64) -> i64 {
    200_000 + (e * 17 + i) % P
}

/// Errors are numbers.
#[derive(Debug, Clone, PartialEq)]
pub struct PErr(pub i64);
impl std::fmt::Display for PErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for PErr {}
impl From<MockErr> for PErr {
    fn from(e: MockErr) -> PErr {
        PErr(e.0[1..].parse().unwrap())
    }
}
pub trait ToErr {
    fn to(self) -> PErr;
}
impl ToErr for PErr {
    fn to(self) -> PErr {
        self
    }
}
impl ToErr for MockErr {
    fn to(self) -> PErr {
        self.into()
    }
}
impl ToErr for BoxError {
    fn to(self) -> PErr {
        match self.downcast::<PErr>() {
            Ok(e) => *e,
            Err(e) => match e.downcast::<MockErr>() {
                Ok(e) => (*e).into(),
                Err(e) if e.downcast_ref::<tower::util::error::optional::None>().is_some() => PErr(500_000),
                Err(e) => panic!("error of another kind: {}", e),
            },
        }
    }
}

/// everything here runs on one thread
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

pub type PFut = Pin<Box<dyn Future<Output = Result<i64, PErr>> + Send + Sync>>;
trait PSvc: Send + Sync {
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>>;
    fn go(&mut self, req: i64) -> PFut;
    fn dup(&self) -> Box<dyn PSvc>;
}
struct Erased<S> {
    s: Force<S>,
    dup: fn(&S) -> S,
}
struct FFut<T>(Pin<Box<T>>);
unsafe impl<T> Send for FFut<T> {}
unsafe impl<T> Sync for FFut<T> {}
impl<T, E: ToErr> Future for FFut<T>
where
    T: Future<Output = Result<i64, E>>,
{
    type Output = Result<i64, PErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.0.as_mut().poll(cx).map_err(ToErr::to)
    }
}
impl<S> PSvc for Erased<S>
where
    S: Service<i64, Response = i64> + 'static,
    S::Error: ToErr + 'static,
    S::Future: 'static,
{
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.s.0.poll_ready(cx).map_err(ToErr::to)
    }
    fn go(&mut self, req: i64) -> PFut {
        Box::pin(FFut(Box::pin(self.s.0.call(req))))
    }
    fn dup(&self) -> Box<dyn PSvc> {
        Box::new(Erased { s: Force((self.dup)(&self.s.0)), dup: self.dup })
    }
}
pub struct Dyn(Box<dyn PSvc>);
impl Clone for Dyn {
    fn clone(&self) -> Dyn {
        Dyn(self.0.dup())
    }
}
impl Service<i64> for Dyn {
    type Response = i64;
    type Error = PErr;
    type Future = PFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.0.ready(cx)
    }
    fn call(&mut self, req: i64) -> PFut {
        self.0.go(req)
    }
}
/// erases a service that is Clone
fn d<S>(s: S) -> Dyn
where
    S: Service<i64, Response = i64> + Clone + 'static,
    S::Error: ToErr + 'static,
    S::Future: 'static,
{
    Dyn(Box::new(Erased { s: Force(s), dup: |s: &S| s.clone() }))
}
/// erases one that is not
fn d1<S>(s: S) -> Dyn
where
    S: Service<i64, Response = i64> + 'static,
    S::Error: ToErr + 'static,
    S::Future: 'static,
{
    Dyn(Box::new(Erased { s: Force(s), dup: no_dup::<S> }))
}

#[derive(Clone)]
pub struct DynLayer(Arc<dyn Fn(Dyn) -> Dyn + Send + Sync>);
impl Layer<Dyn> for DynLayer {
    type Service = Dyn;
    fn layer(&self, s: Dyn) -> Dyn {
        (self.0)(s)
    }
}
/// the same layer for services of any type that are Clone / that are not
#[derive(Clone)]
struct Cl(DynLayer);
impl<S> Layer<S> for Cl
where
    S: Service<i64, Response = i64> + Clone + 'static,
    S::Error: ToErr + 'static,
    S::Future: 'static,
{
    type Service = Dyn;
    fn layer(&self, s: S) -> Dyn {
        self.0.layer(d(s))
    }
}
#[derive(Clone)]
struct Un(DynLayer);
impl<S> Layer<S> for Un
where
    S: Service<i64, Response = i64> + 'static,
    S::Error: ToErr + 'static,
    S::Future: 'static,
{
    type Service = Dyn;
    fn layer(&self, s: S) -> Dyn {
        self.0.layer(d1(s))
    }
}
fn dl<L>(l: L, e: fn(L::Service) -> Dyn) -> DynLayer
where
    L: Layer<Dyn> + 'static,
{
    let l = Force(l);
    DynLayer(Arc::new(move |s| {
        let l = &l;
        e(l.0.layer(s))
    }))
}

/// one stage: adds itself in one of the ways its API offers
struct Stage {
    name: String,
    i: i64,
    how: String,
    ctx: Ctx,
    /// the asynchronous function's control
    ctl: Option<Ctl>,
}
macro_rules! combinator {
    ($self:ident, $acc:ident, $func:expr, $method:ident, $Svc:ident, $Layer:ident) => {{
        let func = $func;
        match $self.how.as_str() {
            "ext" => {
                let l = DynLayer(Arc::new(move |s: Dyn| d(ServiceExt::<i64>::$method(s, func.clone()))));
                add($acc, l)
            }
            "new" => {
                let l = DynLayer(Arc::new(move |s: Dyn| d($Svc::new(s, func.clone()))));
                add($acc, l)
            }
            "assoc" => add($acc, dl($Svc::<Dyn, _>::layer(func), |s| d(s))),
            "layer" => add($acc, dl($Layer::new(func), |s| d(s))),
            "option" => dl(ServiceBuilder::new().layer(Cl($acc)).option_layer(Some($Layer::new(func))), |s| s),
            "builder" => dl(ServiceBuilder::new().layer(Cl($acc)).$method(func), |s| s),
            h => panic!("harness: how {}", h),
        }
    }};
}
/// acc(l(svc))
fn add(acc: DynLayer, l: DynLayer) -> DynLayer {
    DynLayer(Arc::new(move |s| acc.layer(l.layer(s))))
}
fn id() -> DynLayer {
    DynLayer(Arc::new(|s| s))
}
impl Stage {
    fn alone(&self) -> DynLayer {
        self.onto(id())
    }
    /// adds this stage inside of `acc`
    fn onto(&self, acc: DynLayer) -> DynLayer {
        let (i, ctx) = (self.i, self.ctx.clone());
        let b = self.how == "builder";
        match self.name.as_str() {
            "req" => combinator!(
                self,
                acc,
                move |v: i64| {
                    ctx.log(json!(["req", i, v]));
                    f(i, v)
                },
                map_request,
                MapRequest,
                MapRequestLayer
            ),
            "resp" => combinator!(
                self,
                acc,
                move |v: i64| {
                    ctx.log(json!(["resp", i, v]));
                    f(i, v)
                },
                map_response,
                MapResponse,
                MapResponseLayer
            ),
            "err" => combinator!(
                self,
                acc,
                move |e: PErr| {
                    ctx.log(json!(["err", i, e.0]));
                    PErr(g(i, e.0))
                },
                map_err,
                MapErr,
                MapErrLayer
            ),
            "result" => combinator!(
                self,
                acc,
                move |r: Result<i64, PErr>| match r {
                    Ok(v) => {
                        ctx.log(json!(["result", i, "ok", v]));
                        if v % 2 == 0 { Ok::<i64, PErr>(f(i, v)) } else { Err(PErr(g(i, v))) }
                    }
                    Err(e) => {
                        ctx.log(json!(["result", i, "err", e.0]));
                        Ok(f(i, e.0))
                    }
                },
                map_result,
                MapResult,
                MapResultLayer
            ),
            "then" => {
                let ctl = self.ctl.clone().unwrap();
                combinator!(
                    self,
                    acc,
                    move |r: Result<i64, PErr>| {
                        let fut = ctl.start(match r {
                            Ok(v) => v,
                            Err(e) => e.0,
                        });
                        async move { fut.await.map_err(PErr::from) }
                    },
                    then,
                    Then,
                    ThenLayer
                )
            }
            "andthen" => {
                let ctl = self.ctl.clone().unwrap();
                combinator!(
                    self,
                    acc,
                    move |v: i64| {
                        let fut = ctl.start(v);
                        async move { fut.await.map_err(PErr::from) }
                    },
                    and_then,
                    AndThen,
                    AndThenLayer
                )
            }
            "future" => combinator!(
                self,
                acc,
                move |fut: PFut| {
                    ctx.log(json!(["fut", i]));
                    let ctx = ctx.clone();
                    async move {
                        let v = fut.await?;
                        ctx.log(json!(["futok", i, v]));
                        Ok::<i64, PErr>(f(i, v))
                    }
                },
                map_future,
                MapFuture,
                MapFutureLayer
            ),
            "filter" => {
                let pred = move |v: i64| {
                    ctx.log(json!(["filter", i, v]));
                    if v % 3 == 0 { Err(BoxError::from(PErr(400_000 + v))) } else { Ok(v) }
                };
                match self.how.as_str() {
                    "ext" => add(acc, DynLayer(Arc::new(move |s: Dyn| d(ServiceExt::<i64>::filter(s, pred.clone()))))),
                    "builder" => dl(ServiceBuilder::new().layer(Cl(acc)).filter(pred), |s| s),
                    _ => add(acc, dl(tower::filter::FilterLayer::new(pred), |s| d(s))),
                }
            }
            // ---------------------------------------------- transparent stages
            "id" if b => dl(ServiceBuilder::default().layer(Cl(acc)).check_clone().check_service_clone::<Dyn>().check_service::<Dyn, i64, i64, PErr>(), |s| s),
            "id" if self.how == "new" => add(acc, dl((), |s| s)),
            "id" => add(acc, dl(Identity::new(), |s| s)),
            "absent" if b => dl(ServiceBuilder::new().layer(Cl(acc)).option_layer(None::<MapRequestLayer<fn(i64) -> i64>>), |s| s),
            "absent" => add(acc, dl(option_layer(None::<MapRequestLayer<fn(i64) -> i64>>), |s| d(s))),
            "left" => add(acc, DynLayer(Arc::new(|s| d(Either::<Dyn, Dyn>::Left(s))))),
            "right" => add(acc, DynLayer(Arc::new(|s| d(Either::<Dyn, Dyn>::Right(s))))),
            "box" if b => dl(ServiceBuilder::new().layer(Un(acc)).boxed::<Dyn, i64>(), |s| s),
            "box" if self.how == "ext" => add(acc, DynLayer(Arc::new(|s| d1(ServiceExt::<i64>::boxed(s))))),
            "box" if self.how == "new" => add(acc, DynLayer(Arc::new(|s| d1(BoxService::new(s))))),
            "box" => add(acc, dl(BoxService::<i64, i64, PErr>::layer::<Dyn>(), |s| d1(s))),
            "boxclone" if b => dl(ServiceBuilder::new().layer(Cl(acc)).boxed_clone::<Dyn, i64>(), |s| s),
            "boxclone" if self.how == "ext" => add(acc, DynLayer(Arc::new(|s| d(ServiceExt::<i64>::boxed_clone(s))))),
            "boxclone" if self.how == "new" => add(acc, DynLayer(Arc::new(|s| d(BoxCloneService::new(s))))),
            "boxclone" => add(acc, dl(BoxCloneService::<i64, i64, PErr>::layer::<Dyn>(), |s| d(s))),
            "boxsync" if b => dl(ServiceBuilder::new().layer(Cl(acc)).boxed_clone_sync::<Dyn, i64>(), |s| d(s)),
            "boxsync" if self.how == "new" => add(acc, DynLayer(Arc::new(|s| d(BoxCloneSyncService::new(s))))),
            "boxsync" => add(acc, dl(BoxCloneSyncService::<i64, i64, PErr>::layer::<Dyn>(), |s| d(s))),
            "unsync" if self.how == "new" => add(acc, DynLayer(Arc::new(|s| d1(UnsyncBoxService::new(s))))),
            "unsync" => add(acc, dl(UnsyncBoxService::<i64, i64, PErr>::layer::<Dyn>(), |s| d1(s))),
            "boxlayer" => add(acc, dl(BoxLayer::<Dyn, i64, i64, PErr>::new(id()).clone(), |s| d1(s))),
            "boxclonelayer" => add(acc, dl(BoxCloneServiceLayer::<Dyn, i64, i64, PErr>::new(id()).clone(), |s| d(s))),
            "boxsynclayer" => add(acc, dl(BoxCloneSyncServiceLayer::<Dyn, i64, i64, PErr>::new(id()).clone(), |s| d(s))),
            "timeout" if b => dl(ServiceBuilder::new().layer(Cl(acc)).timeout(Duration::from_secs(1_000_000)), |s| s),
            "timeout" => add(acc, dl(tower::timeout::TimeoutLayer::new(Duration::from_secs(1_000_000)), |s| d(s))),
            "climit" if b => dl(ServiceBuilder::new().layer(Cl(acc)).concurrency_limit(100_000), |s| s),
            "climit" => add(acc, dl(tower::limit::GlobalConcurrencyLimitLayer::new(100_000), |s| d(s))),
            "rate" if b => dl(ServiceBuilder::new().layer(Un(acc)).rate_limit(1_000_000, Duration::from_secs(1)), |s| s),
            "rate" => add(acc, dl(tower::limit::RateLimitLayer::new(1_000_000, Duration::from_secs(1)), |s| d1(s))),
            "discover" => add(acc, id()),
            n => panic!("harness: stage {}", n),
        }
    }
}

macro_rules! tuples {
    ($ls:ident, $($n:literal: $($k:literal)+;)*) => {
        match $ls.len() {
            0 => dl((), |s| s),
            $($n => dl(($($ls[$k].clone(),)+), |s| s),)*
            n => panic!("harness: {} layers", n),
        }
    };
}
macro_rules! sb {
    ($ls:ident, $($n:literal: $($k:literal)*;)*) => {
        match $ls.len() {
            $($n => dl(ServiceBuilder::new()$(.layer($ls[$k].clone()))*, |s| s),)*
            n => panic!("harness: {} layers", n),
        }
    };
}
macro_rules! sbs {
    ($ls:ident, $svc:ident, $($n:literal: $($k:literal)*;)*) => {
        match $ls.len() {
            $($n => { let b = ServiceBuilder::new()$(.layer_fn({ let l = $ls[$k].clone(); move |s: Dyn| l.layer(s) }))*; b.clone().service($svc) })*
            n => panic!("harness: {} layers", n),
        }
    };
}
macro_rules! stackl {
    ($ls:ident, $($n:literal: $($k:literal)*;)*) => {
        match $ls.len() {
            // Stack(Stack(c, b), a)
            $($n => { let st = Identity::new(); $(let st = Stack::new($ls[$k].clone(), st);)* dl(st, |s| s) })*
            n => panic!("harness: {} layers", n),
        }
    };
}
macro_rules! stackr {
    ($ls:ident, $($n:literal: $($k:literal)*;)*) => {
        match $ls.len() {
            // Stack(c, Stack(b, a)), built from the inside
            $($n => { let st = Identity::new(); $(let st = Stack::new(st, $ls[$n - 1 - $k].clone());)* dl(st, |s| s) })*
            n => panic!("harness: {} layers", n),
        }
    };
}

fn build(ctx: &Ctx, stages: Vec<Stage>, via: &str, svc: Dyn, leaf_fn: Option<Ctl>) -> Dyn {
    let ls: Vec<DynLayer> = stages.iter().map(|s| s.alone()).collect();
    let _ = ctx;
    match via {
        // each stage with its own method of the builder (or as its `how` says), in one chain
        "chain" => stages.iter().fold(id(), |acc, s| s.onto(acc)).layer(svc),
        "nest" => ls.iter().rev().fold(svc, |s, l| l.layer(s)),
        "ref" => ls.iter().rev().fold(svc, |s, l| Layer::layer(&l, s)),
        "fn" => ls.into_iter().rev().fold(svc, |s, l| layer_fn(move |x: Dyn| l.layer(x)).layer(s)),
        "either" => ls.into_iter().enumerate().rev().fold(svc, |s, (i, l)| {
            let e: Either<DynLayer, DynLayer> = if i % 2 == 0 { Either::Left(l) } else { Either::Right(l) };
            d(e.layer(s))
        }),
        "boxlayer" => ls.into_iter().rev().fold(svc, |s, l| d1(BoxLayer::<Dyn, i64, i64, PErr>::new(l).layer(s))),
        "boxclonelayer" => ls.into_iter().rev().fold(svc, |s, l| d(BoxCloneServiceLayer::<Dyn, i64, i64, PErr>::new(l).layer(s))),
        "boxsynclayer" => ls.into_iter().rev().fold(svc, |s, l| d(BoxCloneSyncServiceLayer::<Dyn, i64, i64, PErr>::new(l).layer(s))),
        "tuple" => tuples!(ls, 1: 0; 2: 0 1; 3: 0 1 2; 4: 0 1 2 3; 5: 0 1 2 3 4; 6: 0 1 2 3 4 5; 7: 0 1 2 3 4 5 6; 8: 0 1 2 3 4 5 6 7; 9: 0 1 2 3 4 5 6 7 8; 10: 0 1 2 3 4 5 6 7 8 9; 11: 0 1 2 3 4 5 6 7 8 9 10; 12: 0 1 2 3 4 5 6 7 8 9 10 11; 13: 0 1 2 3 4 5 6 7 8 9 10 11 12; 14: 0 1 2 3 4 5 6 7 8 9 10 11 12 13; 15: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14; 16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15;).layer(svc),
        "builder" => sb!(ls, 0:; 1: 0; 2: 0 1; 3: 0 1 2; 4: 0 1 2 3; 5: 0 1 2 3 4; 6: 0 1 2 3 4 5; 7: 0 1 2 3 4 5 6; 8: 0 1 2 3 4 5 6 7; 9: 0 1 2 3 4 5 6 7 8; 10: 0 1 2 3 4 5 6 7 8 9; 11: 0 1 2 3 4 5 6 7 8 9 10; 12: 0 1 2 3 4 5 6 7 8 9 10 11; 13: 0 1 2 3 4 5 6 7 8 9 10 11 12; 14: 0 1 2 3 4 5 6 7 8 9 10 11 12 13; 15: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14; 16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15;).layer(svc),
        "service" => match leaf_fn {
            None => sbs!(ls, svc, 0:; 1: 0; 2: 0 1; 3: 0 1 2; 4: 0 1 2 3; 5: 0 1 2 3 4; 6: 0 1 2 3 4 5; 7: 0 1 2 3 4 5 6; 8: 0 1 2 3 4 5 6 7; 9: 0 1 2 3 4 5 6 7 8; 10: 0 1 2 3 4 5 6 7 8 9; 11: 0 1 2 3 4 5 6 7 8 9 10; 12: 0 1 2 3 4 5 6 7 8 9 10 11; 13: 0 1 2 3 4 5 6 7 8 9 10 11 12; 14: 0 1 2 3 4 5 6 7 8 9 10 11 12 13; 15: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14; 16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15;),
            Some(c) => {
                let l = sb!(ls, 0:; 1: 0; 2: 0 1; 3: 0 1 2; 4: 0 1 2 3; 5: 0 1 2 3 4; 6: 0 1 2 3 4 5; 7: 0 1 2 3 4 5 6; 8: 0 1 2 3 4 5 6 7; 9: 0 1 2 3 4 5 6 7 8; 10: 0 1 2 3 4 5 6 7 8 9; 11: 0 1 2 3 4 5 6 7 8 9 10; 12: 0 1 2 3 4 5 6 7 8 9 10 11; 13: 0 1 2 3 4 5 6 7 8 9 10 11 12; 14: 0 1 2 3 4 5 6 7 8 9 10 11 12 13; 15: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14; 16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15;);
                ServiceBuilder::new().layer(Cl(l)).service_fn(move |q: i64| {
                    let fut = c.start(q);
                    async move { fut.await.map_err(PErr::from) }
                })
            }
        },
        "into" => sb!(ls, 0:; 1: 0; 2: 0 1; 3: 0 1 2; 4: 0 1 2 3; 5: 0 1 2 3 4; 6: 0 1 2 3 4 5; 7: 0 1 2 3 4 5 6; 8: 0 1 2 3 4 5 6 7; 9: 0 1 2 3 4 5 6 7 8; 10: 0 1 2 3 4 5 6 7 8 9; 11: 0 1 2 3 4 5 6 7 8 9 10; 12: 0 1 2 3 4 5 6 7 8 9 10 11; 13: 0 1 2 3 4 5 6 7 8 9 10 11 12; 14: 0 1 2 3 4 5 6 7 8 9 10 11 12 13; 15: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14; 16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15;).layer(svc),
        "stackl" => stackl!(ls, 0:; 1: 0; 2: 0 1; 3: 0 1 2; 4: 0 1 2 3; 5: 0 1 2 3 4; 6: 0 1 2 3 4 5; 7: 0 1 2 3 4 5 6; 8: 0 1 2 3 4 5 6 7; 9: 0 1 2 3 4 5 6 7 8; 10: 0 1 2 3 4 5 6 7 8 9; 11: 0 1 2 3 4 5 6 7 8 9 10; 12: 0 1 2 3 4 5 6 7 8 9 10 11; 13: 0 1 2 3 4 5 6 7 8 9 10 11 12; 14: 0 1 2 3 4 5 6 7 8 9 10 11 12 13; 15: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14; 16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15;).layer(svc),
        "stackr" => stackr!(ls, 0:; 1: 0; 2: 0 1; 3: 0 1 2; 4: 0 1 2 3; 5: 0 1 2 3 4; 6: 0 1 2 3 4 5; 7: 0 1 2 3 4 5 6; 8: 0 1 2 3 4 5 6 7; 9: 0 1 2 3 4 5 6 7 8; 10: 0 1 2 3 4 5 6 7 8 9; 11: 0 1 2 3 4 5 6 7 8 9 10; 12: 0 1 2 3 4 5 6 7 8 9 10 11; 13: 0 1 2 3 4 5 6 7 8 9 10 11 12; 14: 0 1 2 3 4 5 6 7 8 9 10 11 12 13; 15: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14; 16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15;).layer(svc),
        v => panic!("harness: via {}", v),
    }
}

const EFFECT: [&str; 8] = ["req", "resp", "err", "result", "then", "andthen", "future", "filter"];
const PLAIN: [&str; 15] = [
    "id", "absent", "left", "right", "box", "boxclone", "boxsync", "unsync", "boxlayer", "boxclonelayer", "boxsynclayer", "timeout", "climit", "rate", "id",
];
const VIAS: [&str; 13] =
    ["chain", "chain", "nest", "ref", "fn", "either", "boxlayer", "boxclonelayer", "boxsynclayer", "tuple", "builder", "service", "stackl"];
const HOWS: [&str; 6] = ["ext", "new", "assoc", "layer", "option", "builder"];

pub fn pipe() -> Component {
    Component {
        name: "Pipe",
        boot: Box::new(|c| {
            let (ctx, clock) = (Ctx::new(), Clock::new());
            let ctl = Ctl::new(&ctx, 0).errors();
            let mut ctls = vec![ctl.clone()];
            let via = c["via"].as_str().unwrap();
            let leaf = c["leaf"].as_str().unwrap();
            let mut once = via == "boxlayer";
            let stages: Vec<Stage> = c["pipe"]
                .as_array()
                .unwrap()
                .iter()
                .enumerate()
                .map(|(k, n)| {
                    let n = n.as_str().unwrap();
                    let i = k as i64 + 1;
                    let tag = if n == "then" { Some("then") } else if n == "andthen" { Some("andthen") } else { None };
                    let sc = tag.map(|t| Ctl::new(&ctx, i).tagged(t).errors());
                    ctls.extend(sc.clone());
                    once |= ["box", "unsync", "boxlayer", "rate"].contains(&n);
                    Stage { name: n.into(), i, how: c["how"].as_str().unwrap().into(), ctx: ctx.clone(), ctl: sc }
                })
                .collect();
            let svc = {
                let _g = clock.enter();
                let c0 = ctl.clone();
                let leaf_svc = match leaf {
                    "mock" => d(ctl.service()),
                    "fn" => d(service_fn(move |q: i64| c0.start(q))),
                    "some" => {
                        once = true;
                        d1(Optional::new(Some(ctl.service())))
                    }
                    "none" => {
                        once = true;
                        d1(Optional::new(None::<Mock>))
                    }
                    l => maker(l, &ctl),
                };
                build(&ctx, stages, via, leaf_svc, if leaf == "fn" { Some(ctl.clone()) } else { None })
            };
            let e: fn(PErr) -> J = |e| json!(["err", e.0]);
            let svc = if once { wrap(svc, e) } else { wrap_clone(svc, e) };
            let mut m = Mid::new(ctx, clock, ctls, svc);
            m.nh = if once { 1 } else { nat(c, "nh", 1) };
            m.nk = nat(c, "nk", 4);
            m.w = Weights { poll: 25, call: 25, resp: 25, finish: 20, mode: if ["fn", "none", "shared"].contains(&leaf) { 0 } else { 5 }, clone: 2, ..Weights::default() };
            m.mode0 = true;
            Box::new(m)
        }),
        random_cfg: Box::new(|r, p| {
            let n = if r.chance(1, 4) { r.below(17) } else { r.below(6) };
            let pipe: Vec<&str> = (0..n).map(|_| if r.chance(3, 4) { *r.pick(&EFFECT).unwrap() } else { *r.pick(&PLAIN).unwrap() }).collect();
            let mut vias = VIAS.to_vec();
            vias.extend(["stackr", "into"]);
            json!({"pipe": pipe, "via": r.pick(&vias), "how": r.pick(&HOWS), "leaf": r.pick(&["mock", "mock", "mock", "mock", "fn", "some", "none", "shared", "mkblanket", "mkinto", "mkas", "mkconn", "mkbalance", "mkbalancelayer"]), "nh": p["nh"], "nk": p["nk"]})
        }),
    }
}
fn nat(c: &J, k: &str, d: u64) -> usize {
    c[k].as_u64().unwrap_or(d) as usize
}

// ------------------------------------------------------------------ makers
use tower::balance::p2c::{Balance, MakeBalance, MakeBalanceLayer};
use tower::discover::ServiceList;
use tower::make::{AsService, IntoService, MakeConnection, MakeService, Shared};

/// the service that was made; it answers with its own number
#[derive(Clone, Debug)]
struct Made(i64);
impl Service<i64> for Made {
    type Response = i64;
    type Error = PErr;
    type Future = std::future::Ready<Result<i64, PErr>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: i64) -> Self::Future {
        std::future::ready(Ok(self.0))
    }
}
impl tower::load::Load for Made {
    type Metric = i64;
    fn load(&self) -> i64 {
        0
    }
}
impl tokio::io::AsyncRead for Made {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        Poll::Pending
    }
}
impl tokio::io::AsyncWrite for Made {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Pending
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Pending
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Pending
    }
}
#[derive(Clone)]
struct Maker(Mock);
type MakerFut<T> = Pin<Box<dyn Future<Output = Result<T, PErr>> + Send + Sync>>;
impl Service<i64> for Maker {
    type Response = Made;
    type Error = PErr;
    type Future = MakerFut<Made>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.0.poll_ready(cx).map_err(PErr::from)
    }
    fn call(&mut self, t: i64) -> Self::Future {
        let f = self.0.call(t);
        Box::pin(async move { Ok(Made(f.await?)) })
    }
}
#[derive(Clone)]
struct ListMaker(Mock);
impl Service<i64> for ListMaker {
    type Response = ServiceList<Vec<Made>>;
    type Error = PErr;
    type Future = MakerFut<ServiceList<Vec<Made>>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        self.0.poll_ready(cx).map_err(PErr::from)
    }
    fn call(&mut self, t: i64) -> Self::Future {
        let f = self.0.call(t);
        Box::pin(async move { Ok(ServiceList::new::<i64>(vec![Made(f.await?)])) })
    }
}
/// asks the service that was made
fn ask<S>(s: &mut S) -> i64
where
    S: Service<i64, Response = i64>,
{
    let mut cx = Context::from_waker(futures_util::task::noop_waker_ref());
    match s.poll_ready(&mut cx) {
        Poll::Ready(Ok(())) => {}
        _ => return -1,
    }
    match Box::pin(s.call(0)).as_mut().poll(&mut cx) {
        Poll::Ready(Ok(v)) => v,
        _ => -2,
    }
}
/// a maker used in one of its ways; its response is the number of what it made
struct Via<M, A> {
    m: M,
    poll: fn(&mut M, &mut Context<'_>) -> Poll<Result<(), PErr>>,
    make: fn(&mut M, i64) -> MakerFut<A>,
    ask: fn(A) -> i64,
}
impl<M: Clone, A> Clone for Via<M, A> {
    fn clone(&self) -> Self {
        Via { m: self.m.clone(), poll: self.poll, make: self.make, ask: self.ask }
    }
}
impl<M, A: 'static> Service<i64> for Via<M, A> {
    type Response = i64;
    type Error = PErr;
    type Future = Pin<Box<dyn Future<Output = Result<i64, PErr>>>>;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), PErr>> {
        (self.poll)(&mut self.m, cx)
    }
    fn call(&mut self, t: i64) -> Self::Future {
        let f = (self.make)(&mut self.m, t);
        let ask = self.ask;
        Box::pin(async move { Ok(ask(f.await?)) })
    }
}
type MadeBalance = Balance<ServiceList<Vec<Made>>, i64>;
fn maker(kind: &str, ctl: &Ctl) -> Dyn {
    let one = |mut x: Made| ask(&mut x);
    match kind {
        "mkblanket" => d(Via { m: Maker(ctl.service()), poll: |m, cx| MakeService::<i64, i64>::poll_ready(m, cx), make: |m, t| MakeService::<i64, i64>::make_service(m, t), ask: one }),
        "mkinto" => d(Via {
            m: MakeService::<i64, i64>::into_service(Maker(ctl.service())),
            poll: |m: &mut IntoService<Maker, i64>, cx| Service::<i64>::poll_ready(m, cx),
            make: |m, t| m.call(t),
            ask: one,
        }),
        "mkas" => d(Via {
            m: Maker(ctl.service()),
            poll: |m, cx| {
                let mut a: AsService<'_, Maker, i64> = MakeService::<i64, i64>::as_service(m);
                Service::<i64>::poll_ready(&mut a, cx)
            },
            make: |m, t| MakeService::<i64, i64>::as_service(m).call(t),
            ask: one,
        }),
        "mkconn" => d(Via { m: Maker(ctl.service()), poll: |m, cx| MakeConnection::poll_ready(m, cx), make: |m, t| m.make_connection(t), ask: one }),
        "mkbalance" | "mkbalancelayer" => d(Via {
            m: if kind == "mkbalance" { MakeBalance::<ListMaker, i64>::new(ListMaker(ctl.service())) } else { MakeBalanceLayer::<ListMaker, i64>::new().layer(ListMaker(ctl.service())) },
            poll: |m: &mut MakeBalance<ListMaker, i64>, cx| Service::<i64>::poll_ready(m, cx),
            make: |m, t| {
                let f = FMade(Box::pin(m.call(t)));
                Box::pin(f)
            },
            ask: |mut b: MadeBalance| {
                let v = ask(&mut b);
                if b.len() == 1 { v } else { -3 }
            },
        }),
        "shared" => d(Via {
            m: Shared::new(Made(7)),
            poll: |m, cx| Service::<i64>::poll_ready(m, cx).map_err(|e| match e {}),
            make: |m, t| {
                let f = Service::<i64>::call(m, t);
                Box::pin(async move { Ok(f.await.unwrap()) })
            },
            ask: one,
        }),
        l => panic!("harness: leaf {}", l),
    }
}
struct FMade<F>(Pin<Box<F>>);
unsafe impl<F> Send for FMade<F> {}
unsafe impl<F> Sync for FMade<F> {}
impl<F: Future> Future for FMade<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.0.as_mut().poll(cx)
    }
}
