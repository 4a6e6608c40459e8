//! A scriptable inner service that monitors the readiness contract.
use crate::{Ctx, J};
use serde_json::json;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower_service::Service;

/// Readiness of an inner service.
#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Ready,
    Pending,
    /// not ready, even if it had said it was
    Lost,
    Err(i64),
}
impl Mode {
    pub fn parse(s: &str) -> Mode {
        match s {
            "ready" => Mode::Ready,
            "pending" => Mode::Pending,
            "lost" => Mode::Lost,
            _ => Mode::Err(s.trim_start_matches("err").parse().unwrap_or(0)),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct MockErr(pub String);
impl std::fmt::Display for MockErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for MockErr {}

/// the answer of a future that panics when it is polled
pub const PANICS: i64 = i64::MIN;

enum Slot {
    Open(Option<Waker>),
    Done(Result<i64, i64>),
}
struct Resp {
    req: i64,
    slot: Slot,
}

struct Inner {
    mode: Mode,
    wakers: Vec<Waker>,
    /// outstanding response futures by call number
    resps: BTreeMap<i64, Resp>,
    next: i64,
    /// readiness monitor
    log_ready: bool,
    /// answer calls immediately (Some(f): response = f(request))
    auto: bool,
    next_inst: i64,
    live: i64,
    panic_on_call: bool,
    load: Option<i64>,
    errors: bool,
}

/// Control handle of a family of inner-service clones.
#[derive(Clone)]
pub struct Ctl {
    s: Arc<Mutex<Inner>>,
    pub ctx: Ctx,
    pub tag: &'static str,
    pub id: i64,
}

/// The inner service: requests are i64; the response of request q is 1000+q.
pub struct Mock {
    ctl: Ctl,
    armed: bool,
    pub inst: i64,
}
impl std::fmt::Debug for Mock {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Mock{}", self.inst)
    }
}

impl Ctl {
    pub fn new(ctx: &Ctx, id: i64) -> Ctl {
        Ctl {
            s: Arc::new(Mutex::new(Inner {
                mode: Mode::Ready,
                wakers: vec![],
                resps: BTreeMap::new(),
                next: 1,
                log_ready: false,
                auto: false,
                next_inst: 1,
                live: 0,
                panic_on_call: false,
                load: None,
                errors: false,
            })),
            ctx: ctx.clone(),
            tag: "call",
            id,
        }
    }
    pub fn auto(self) -> Ctl {
        self.s.lock().unwrap().auto = true;
        self
    }
    pub fn tagged(mut self, tag: &'static str) -> Ctl {
        self.tag = tag;
        self
    }
    pub fn service(&self) -> Mock {
        let mut s = self.s.lock().unwrap();
        let inst = s.next_inst;
        s.next_inst += 1;
        s.live += 1;
        Mock { ctl: self.clone(), armed: false, inst }
    }
    pub fn live(&self) -> i64 {
        self.s.lock().unwrap().live
    }
    pub fn set_mode(&self, m: Mode) {
        let ws = {
            let mut s = self.s.lock().unwrap();
            let change = s.mode != m;
            s.mode = m.clone();
            if change && m != Mode::Pending && m != Mode::Lost { std::mem::take(&mut s.wakers) } else { vec![] }
        };
        for w in ws {
            w.wake();
        }
    }
    pub fn set_load(&self, n: i64) {
        self.s.lock().unwrap().load = Some(n);
    }
    pub fn load_now(&self) -> i64 {
        self.s.lock().unwrap().load.unwrap_or(self.id)
    }
    pub fn panic_on_call(&self, on: bool) {
        self.s.lock().unwrap().panic_on_call = on;
    }
    /// a failed response carries the request: error 300000 + request
    pub fn errors(self) -> Ctl {
        self.s.lock().unwrap().errors = true;
        self
    }
    pub fn has_errors(&self) -> bool {
        self.s.lock().unwrap().errors
    }
    /// a call without a service
    pub fn start(&self, req: i64) -> MockFut {
        let mut m = self.service();
        m.armed = true;
        m.call(req)
    }
    pub fn wake_all(&self) {
        let ws = std::mem::take(&mut self.s.lock().unwrap().wakers);
        for w in ws {
            w.wake();
        }
    }
    pub fn mode(&self) -> Mode {
        self.s.lock().unwrap().mode.clone()
    }
    /// Completes the response future of call `n`.
    pub fn complete(&self, n: i64, r: Result<i64, i64>) -> bool {
        let w = {
            let mut s = self.s.lock().unwrap();
            match s.resps.get_mut(&n) {
                Some(resp) => {
                    let w = match &mut resp.slot {
                        Slot::Open(w) => w.take(),
                        _ => None,
                    };
                    resp.slot = Slot::Done(r);
                    w
                }
                None => return false,
            }
        };
        if let Some(w) = w {
            w.wake();
        }
        true
    }
    pub fn outstanding(&self) -> Vec<i64> {
        let s = self.s.lock().unwrap();
        s.resps.iter().filter(|(_, r)| matches!(r.slot, Slot::Open(_))).map(|(k, _)| *k).collect()
    }
    /// open calls for request `req`, oldest first
    pub fn open_calls(&self, req: i64) -> Vec<i64> {
        let s = self.s.lock().unwrap();
        s.resps.iter().filter(|(_, r)| r.req == req && matches!(r.slot, Slot::Open(_))).map(|(k, _)| *k).collect()
    }
    /// requests with an open call
    pub fn open_reqs(&self) -> Vec<i64> {
        let s = self.s.lock().unwrap();
        s.resps.values().filter(|r| matches!(r.slot, Slot::Open(_))).map(|r| r.req).collect()
    }
    pub fn log_ready(&self, on: bool) {
        self.s.lock().unwrap().log_ready = on;
    }
}

impl Mock {
    pub fn id(&self) -> i64 {
        self.ctl.id
    }
}
impl Clone for Mock {
    fn clone(&self) -> Mock {
        // a clone of a ready service is not itself ready
        self.ctl.service()
    }
}
impl Drop for Mock {
    fn drop(&mut self) {
        if let Ok(mut s) = self.ctl.s.lock() {
            s.live -= 1;
        }
    }
}

impl tower::load::Load for Mock {
    type Metric = i64;
    fn load(&self) -> i64 {
        self.ctl.s.lock().unwrap().load.unwrap_or(self.ctl.id)
    }
}

impl Service<i64> for Mock {
    type Response = i64;
    type Error = MockErr;
    type Future = MockFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), MockErr>> {
        crate::pause();
        let mut s = self.ctl.s.lock().unwrap();
        match s.mode.clone() {
            Mode::Ready => {
                self.armed = true;
                if s.log_ready {
                    self.ctl.ctx.log(json!(["ready", self.ctl.id]));
                }
                Poll::Ready(Ok(()))
            }
            Mode::Pending => {
                if self.armed {
                    // already promised: readiness is sticky until the call
                    return Poll::Ready(Ok(()));
                }
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
            Mode::Lost => {
                self.armed = false;
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
            Mode::Err(e) => {
                self.armed = false;
                Poll::Ready(Err(MockErr(format!("e{}", e))))
            }
        }
    }
    fn call(&mut self, req: i64) -> MockFut {
        if !self.armed {
            self.ctl.ctx.log(json!(["CONTRACT-VIOLATION: called without being ready", req]));
        }
        self.armed = false;
        let n = {
            let mut s = self.ctl.s.lock().unwrap();
            let n = s.next;
            s.next += 1;
            let slot = if s.auto { Slot::Done(Ok(1000 + req)) } else { Slot::Open(None) };
            s.resps.insert(n, Resp { req, slot });
            n
        };
        if self.ctl.id == 0 {
            self.ctl.ctx.log(json!([self.ctl.tag, req]));
        } else {
            self.ctl.ctx.log(json!([self.ctl.tag, self.ctl.id, req]));
        }
        crate::pause();
        let boom = self.ctl.s.lock().unwrap().panic_on_call;
        if boom {
            self.ctl.s.lock().unwrap().resps.remove(&n);
            panic!("mock: inner service panics on call");
        }
        MockFut { ctl: self.ctl.clone(), n, done: false, req }
    }
}

pub struct MockFut {
    ctl: Ctl,
    n: i64,
    done: bool,
    req: i64,
}
impl std::fmt::Debug for MockFut {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "MockFut{}", self.n)
    }
}
impl Future for MockFut {
    type Output = Result<i64, MockErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.done {
            self.ctl.ctx.log(json!(["CONTRACT-VIOLATION: future polled after completion", self.req]));
            return Poll::Pending;
        }
        let r = {
            let mut s = self.ctl.s.lock().unwrap();
            match s.resps.get_mut(&self.n) {
                Some(Resp { slot: Slot::Done(r), .. }) => {
                    let r = r.clone();
                    s.resps.remove(&self.n);
                    r
                }
                Some(resp) => {
                    resp.slot = Slot::Open(Some(cx.waker().clone()));
                    return Poll::Pending;
                }
                None => return Poll::Pending,
            }
        };
        self.done = true;
        if r == Err(PANICS) {
            panic!("mock: inner future panics");
        }
        Poll::Ready(r.map_err(|e| MockErr(format!("r{}", e))))
    }
}
impl Drop for MockFut {
    fn drop(&mut self) {
        if !self.done {
            if let Ok(mut s) = self.ctl.s.lock() {
                s.resps.remove(&self.n);
            }
            if self.ctl.id == 0 {
                self.ctl.ctx.log(json!(["drop", self.req]));
            } else {
                self.ctl.ctx.log(json!(["drop", self.ctl.id, self.req]));
            }
        }
    }
}
pub fn err_j(e: &(dyn std::error::Error + 'static)) -> J {
    json!(e.to_string())
}
