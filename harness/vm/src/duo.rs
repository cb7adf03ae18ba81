//! Two parties in one thread.
use super::util::*;
use serde_json::Value;
use std::{
    future::Future,
    pin::Pin,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicUsize, Ordering},
    },
    task::{Context, Poll, Wake},
};

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
/// Polls both until they are done or neither can go on.
pub fn both<A, B>(a: impl Future<Output = A>, b: impl Future<Output = B>) -> (Option<A>, Option<B>) {
    let (mut a, mut b): (Pin<Box<dyn Future<Output = A>>>, Pin<Box<dyn Future<Output = B>>>) = (Box::pin(a), Box::pin(b));
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let w = flag.clone().into();
    let mut cx = Context::from_waker(&w);
    let (mut ra, mut rb) = (None, None);
    while (ra.is_none() || rb.is_none()) && flag.0.swap(false, Ordering::SeqCst) {
        if ra.is_none() {
            if let Poll::Ready(x) = a.as_mut().poll(&mut cx) {
                ra = Some(x);
                flag.0.store(true, Ordering::SeqCst);
            }
        }
        if rb.is_none() {
            if let Poll::Ready(x) = b.as_mut().poll(&mut cx) {
                rb = Some(x);
                flag.0.store(true, Ordering::SeqCst);
            }
        }
    }
    (ra, rb)
}

/// Runs the scenarios and as many random ones, on all cores; writes them in order.
pub fn all(a: &[String], random: impl Fn(&mut Rng) -> Vec<Value>, run: impl Fn(&[Value]) -> Vec<Value> + Sync) {
    let mut out = Out::new(&a[3]);
    let mut scn: Vec<Vec<Value>> = read_scenarios(&a[0]).into_iter().map(|s| s.as_array().unwrap().clone()).collect();
    let mut r = Rng::new(a[1].parse().unwrap());
    for _ in 0..a[2].parse().unwrap() {
        scn.push(random(&mut r));
    }
    let n = scn.len().div_ceil(8).clamp(1, 200);
    let chunks: Vec<_> = scn.chunks(n).collect();
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<(usize, Vec<Vec<Value>>)>> = Default::default();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                let Some(c) = chunks.get(i) else { break };
                let x: Vec<_> = c.iter().map(|x| run(x)).collect();
                done.lock().unwrap().push((i, x));
            });
        }
    });
    let mut done = done.into_inner().unwrap();
    done.sort_by_key(|x| x.0);
    for x in done.iter().flat_map(|x| &x.1) {
        out.run(x);
    }
}
