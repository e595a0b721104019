//! Deterministic execution: a single-threaded tokio runtime on a paused clock. When nothing is
//! runnable the clock jumps to the next timer, so a virtual deadline turns "never completes" into an
//! ordinary, reproducible observation, and no wall-clock value is ever read.

use std::{cell::Cell, future::Future, time::Duration};

thread_local! {
    /// How many milliseconds of the clock one generated millisecond stands for in the running case: cases
    /// run at several scales, so that limits built into the code under test are exceeded in some of them.
    static SCALE: Cell<u64> = const { Cell::new(1) };
    /// the scale of the case this thread is about to run
    pub(crate) static CASE_SCALE: Cell<u64> = const { Cell::new(1) };
}

pub fn scale() -> u64 {
    SCALE.with(Cell::get)
}

/// `n` generated milliseconds.
pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n * scale())
}

/// Virtual horizon: far beyond every delay a generator produces.
pub const HORIZON: Duration = Duration::from_secs(10_000_000);

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap()
}

/// Runs `f` to completion; `None` if it is still pending when everything has come to rest.
pub fn run<F: Future>(f: F) -> Option<F::Output> {
    let rt = rt();
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            SCALE.with(|s| s.set(1));
        }
    }
    let _reset = Reset;
    SCALE.with(|s| s.set(CASE_SCALE.with(Cell::get)));
    let r = rt.block_on(async { tokio::time::timeout(HORIZON, f).await.ok() });
    drop(rt);
    r
}

/// Waits until nothing else is runnable (one tick of virtual time passes only at quiescence).
pub async fn settle() {
    tokio::time::sleep(ms(1)).await;
}

/// Completes with `Some` if `f` finishes before everything comes to rest.
pub async fn settled<F: Future>(f: F) -> Option<F::Output> {
    tokio::time::timeout(Duration::from_secs(1_000_000), f).await.ok()
}

pub async fn yields(n: u8) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

pub async fn sleep_ms(ms: u64) {
    if ms > 0 {
        tokio::time::sleep(self::ms(ms)).await;
    }
}
