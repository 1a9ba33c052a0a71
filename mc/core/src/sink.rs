//! A receiver of log records that formats every one of them completely, so that
//! whatever a record shows is really looked at.

use std::cell::RefCell;
#[allow(unused)]
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static RECORDS: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static BUF: RefCell<String> = const { RefCell::new(String::new()) };
}

#[allow(unused)]
fn take(f: impl FnOnce(&mut String)) {
    BUF.with(|b| {
        // a record made while another one is formatted has a buffer of its own
        let mut other = String::new();
        match b.try_borrow_mut() {
            Ok(mut b) => {
                b.clear();
                f(&mut b);
                BYTES.fetch_add(b.len() as u64, Relaxed);
            }
            Err(_) => f(&mut other),
        }
    });
    RECORDS.fetch_add(1, Relaxed);
}

#[cfg(feature = "log")]
struct Sink;

#[cfg(feature = "log")]
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        take(|b| {
            let _ = write!(b, "{} {} {}", r.level(), r.target(), r.args());
        })
    }
    fn flush(&self) {}
}

#[cfg(all(feature = "log", not(feature = "tracing")))]
pub fn install() {
    static S: Sink = Sink;
    let _ = log::set_logger(&S);
    log::set_max_level(log::LevelFilter::Trace);
}

#[cfg(feature = "tracing")]
struct Sub;

#[cfg(feature = "tracing")]
impl tracing::Subscriber for Sub {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        struct V<'b>(&'b mut String);
        impl tracing::field::Visit for V<'_> {
            fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                let _ = write!(self.0, "{}={v:?} ", f.name());
            }
        }
        take(|b| e.record(&mut V(b)))
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

#[cfg(feature = "tracing")]
pub fn install() {
    let _ = tracing::subscriber::set_global_default(Sub);
}

#[cfg(not(any(feature = "log", feature = "tracing")))]
pub fn install() {}
