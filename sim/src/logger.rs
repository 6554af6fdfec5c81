//! Log records of the library are scheduling points and part of the event log.
use crate::kernel::{armed, k, EnterKernel};
use log::{Log, LogLevelFilter, LogMetadata, LogRecord};

struct L;
impl Log for L {
    fn enabled(&self, _: &LogMetadata) -> bool {
        true
    }
    fn log(&self, r: &LogRecord) {
        if !armed() {
            return;
        }
        let s = format!("log {} {}", r.level(), r.args());
        crate::sched::yield_point();
        let _g = EnterKernel::new();
        k().count("log_records");
        k().event(&s);
    }
}

pub fn install() {
    let _ = log::set_logger(|max| {
        max.set(LogLevelFilter::Trace);
        Box::new(L)
    });
}
