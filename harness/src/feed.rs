//! A stream fed by the harness; polling it after its end is reported.
use crate::Ctx;
use futures_core::Stream;
use serde_json::json;
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

struct Inner<T> {
    q: VecDeque<T>,
    end: bool,
    ended: bool,
    waker: Option<Waker>,
}
pub struct Feed<T>(Arc<Mutex<Inner<T>>>, Ctx);
impl<T> Clone for Feed<T> {
    fn clone(&self) -> Self {
        Feed(self.0.clone(), self.1.clone())
    }
}
impl<T> Feed<T> {
    pub fn new(ctx: &Ctx) -> Self {
        Feed(Arc::new(Mutex::new(Inner { q: VecDeque::new(), end: false, ended: false, waker: None })), ctx.clone())
    }
    /// the next item, or the end
    pub fn feed(&self, e: Option<T>) {
        let w = {
            let mut d = self.0.lock().unwrap();
            match e {
                Some(e) => d.q.push_back(e),
                None => d.end = true,
            }
            d.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn is_empty(&self) -> bool {
        self.0.lock().unwrap().q.is_empty()
    }
}
impl<T> Stream for Feed<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let mut d = self.0.lock().unwrap();
        if d.ended {
            self.1.log(json!(["CONTRACT-VIOLATION: stream polled after its end"]));
            return Poll::Ready(None);
        }
        match d.q.pop_front() {
            Some(e) => Poll::Ready(Some(e)),
            None if d.end => {
                d.ended = true;
                Poll::Ready(None)
            }
            None => {
                d.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
