// Helpers of the demonstrations: a scriptable service and a waker that counts.
#![allow(dead_code)]
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tower_service::Service;

pub type Res = Result<i64, tower::BoxError>;

#[derive(Default)]
pub struct Count(pub AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
/// a waker and the number of times it was woken
#[derive(Clone, Default)]
pub struct W(pub Arc<Count>);
impl W {
    pub fn new() -> W {
        W::default()
    }
    pub fn woken(&self) -> usize {
        self.0 .0.load(Ordering::SeqCst)
    }
    pub fn run<R>(&self, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
        let w: Waker = self.0.clone().into();
        f(&mut Context::from_waker(&w))
    }
}
pub fn ready<S: Service<i64>>(s: &mut S, w: &W) -> Poll<Result<(), S::Error>> {
    w.run(|cx| s.poll_ready(cx))
}
pub fn is_ready<S: Service<i64>>(s: &mut S) -> bool {
    matches!(ready(s, &W::new()), Poll::Ready(Ok(())))
}
pub fn poll<F: Future + ?Sized>(f: &mut Pin<Box<F>>, w: &W) -> Poll<F::Output> {
    w.run(|cx| f.as_mut().poll(cx))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum M {
    Ready,
    Pending,
    Err,
}
#[derive(Default)]
pub struct In {
    pub mode: Option<M>,
    pub wakers: Vec<Waker>,
    pub calls: Vec<i64>,
    pub open: Vec<(i64, Option<Waker>, Option<Result<i64, String>>)>,
    pub dropped: usize,
    pub unready_calls: usize,
}
/// The control side of a family of services.
#[derive(Clone, Default)]
pub struct Ctl(pub Arc<Mutex<In>>);
impl Ctl {
    pub fn new() -> Ctl {
        Ctl::default()
    }
    pub fn svc(&self) -> Svc {
        Svc { c: self.clone(), armed: Cell::new(false) }
    }
    pub fn set(&self, m: M) {
        let ws = {
            let mut i = self.0.lock().unwrap();
            i.mode = Some(m);
            if m == M::Pending { vec![] } else { std::mem::take(&mut i.wakers) }
        };
        ws.into_iter().for_each(|w| w.wake());
    }
    pub fn calls(&self) -> Vec<i64> {
        self.0.lock().unwrap().calls.clone()
    }
    pub fn unready(&self) -> usize {
        self.0.lock().unwrap().unready_calls
    }
    pub fn dropped(&self) -> usize {
        self.0.lock().unwrap().dropped
    }
    /// completes the n-th call (counted from 0)
    pub fn finish(&self, n: usize, r: Result<i64, &str>) {
        let w = {
            let mut i = self.0.lock().unwrap();
            i.open[n].2 = Some(r.map_err(String::from));
            i.open[n].1.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
pub struct Svc {
    c: Ctl,
    armed: Cell<bool>,
}
impl Svc {
    /// takes back the readiness given before
    pub fn disarm(&mut self) {
        self.armed.set(false);
    }
}
impl Clone for Svc {
    fn clone(&self) -> Svc {
        self.c.svc()
    }
}
impl std::fmt::Debug for Svc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Svc")
    }
}
impl Service<i64> for Svc {
    type Response = i64;
    type Error = tower::BoxError;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), tower::BoxError>> {
        let mut i = self.c.0.lock().unwrap();
        match i.mode.unwrap_or(M::Ready) {
            M::Ready => {
                self.armed.set(true);
                Poll::Ready(Ok(()))
            }
            M::Pending if self.armed.get() => Poll::Ready(Ok(())),
            M::Pending => {
                i.wakers.push(cx.waker().clone());
                Poll::Pending
            }
            M::Err => Poll::Ready(Err("not ready".into())),
        }
    }
    fn call(&mut self, q: i64) -> Fut {
        let mut i = self.c.0.lock().unwrap();
        if !self.armed.replace(false) {
            i.unready_calls += 1;
        }
        i.calls.push(q);
        i.open.push((q, None, None));
        Fut { c: self.c.clone(), n: i.open.len() - 1, done: false }
    }
}
#[derive(Debug)]
pub struct Fut {
    c: Ctl,
    n: usize,
    done: bool,
}
impl std::fmt::Debug for Ctl {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Ctl")
    }
}
impl Future for Fut {
    type Output = Res;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        let c = self.c.clone();
        let mut i = c.0.lock().unwrap();
        let o = &mut i.open[self.n];
        match o.2.take() {
            Some(r) => {
                self.done = true;
                Poll::Ready(r.map_err(Into::into))
            }
            None => {
                o.1 = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl Drop for Fut {
    fn drop(&mut self) {
        if !self.done {
            self.c.0.lock().unwrap().dropped += 1;
        }
    }
}
/// a paused clock
pub fn clock() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}
pub fn advance(rt: &tokio::runtime::Runtime, ms: u64) {
    rt.block_on(async move { tokio::time::advance(std::time::Duration::from_millis(ms)).await });
}
pub fn settle(rt: &tokio::runtime::Runtime) {
    rt.block_on(async {
        for _ in 0..30 {
            tokio::task::yield_now().await;
        }
    });
}
