//! Readers, writers and a logger with controllable behaviour.
use log::LevelFilter;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

/// Error identity carried through an io::Error
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Token(pub u64);

impl fmt::Display for Token {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}
impl std::error::Error for Token {}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Sizes of consecutive reads/writes, repeated; empty: as much as possible
    pub sizes: Vec<usize>,
    /// Interruptions before consecutive operations, repeated
    pub intr: Vec<bool>,
    /// Failure once this many bytes have been transferred
    pub fail: Option<(usize, ErrorKind, u64)>,
    /// Fail only once (reader)
    pub once: bool,
}

/// A reader over a slice
pub struct Feed<'a> {
    data: &'a [u8],
    pub pos: usize,
    plan: Plan,
    n: usize,
    n_intr: usize,
    pub eof_reads: usize,
    pub faults: usize,
}

impl<'a> Feed<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Self::with_plan(data, Plan::default())
    }
    pub fn with_plan(data: &'a [u8], plan: Plan) -> Self {
        Feed { data, pos: 0, plan, n: 0, n_intr: 0, eof_reads: 0, faults: 0 }
    }
}

/// Reads at end of file after which a caller is taken to be looping
pub const EOF_READS: usize = 20_000;

impl Read for Feed<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if !self.plan.intr.is_empty() {
            let i = self.plan.intr[self.n_intr % self.plan.intr.len()];
            self.n_intr += 1;
            if i {
                return Err(ErrorKind::Interrupted.into());
            }
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some((at, kind, tok)) = self.plan.fail {
            if self.pos >= at && self.plan.once && self.faults > 0 {
                self.plan.fail = None;
            } else if self.pos >= at {
                self.faults += 1;
                if self.faults > EOF_READS {
                    panic!("reader polled endlessly after an I/O error");
                }
                return Err(io::Error::new(kind, Token(tok)));
            }
            if self.plan.fail.is_some() {
                n = n.min(at - self.pos);
            }
        }
        if n == 0 {
            self.eof_reads += 1;
            if self.eof_reads > EOF_READS {
                panic!("reader polled endlessly after the end of the file");
            }
            return Ok(0);
        }
        if !self.plan.sizes.is_empty() {
            n = n.min(self.plan.sizes[self.n % self.plan.sizes.len()].max(1));
            self.n += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Default)]
pub struct SinkState {
    pub out: Vec<u8>,
    pub faults: usize,
    /// Writes attempted after the first fault
    pub calls: usize,
    n: usize,
    n_intr: usize,
}

/// A writer into a shared buffer
#[derive(Clone)]
pub struct Sink {
    pub st: Rc<RefCell<SinkState>>,
    plan: Rc<Plan>,
    /// Fail by accepting no bytes
    zero: bool,
}

impl Sink {
    pub fn new(plan: Plan, zero: bool) -> Self {
        Sink { st: Rc::default(), plan: Rc::new(plan), zero }
    }
    pub fn plain() -> Self {
        Self::new(Plan::default(), false)
    }
    pub fn len(&self) -> usize {
        self.st.borrow().out.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.st.borrow().out.clone()
    }
    pub fn faults(&self) -> usize {
        self.st.borrow().faults
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut st = self.st.borrow_mut();
        let st = &mut *st;
        st.calls += 1;
        if !self.plan.intr.is_empty() {
            let i = self.plan.intr[st.n_intr % self.plan.intr.len()];
            st.n_intr += 1;
            if i {
                return Err(ErrorKind::Interrupted.into());
            }
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if !self.plan.sizes.is_empty() {
            n = n.min(self.plan.sizes[st.n % self.plan.sizes.len()].max(1));
            st.n += 1;
        }
        if let Some((at, kind, tok)) = self.plan.fail {
            if st.out.len() >= at {
                st.faults += 1;
                if self.zero {
                    return Ok(0);
                }
                return Err(io::Error::new(kind, Token(tok)));
            }
            n = n.min(at - st.out.len());
        }
        st.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// --------------------------------------------------------------- logger

thread_local! {
    static LOG: Cell<LevelFilter> = const { Cell::new(LevelFilter::Off) };
}

struct Logger;

impl log::Log for Logger {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() <= LOG.with(|l| l.get())
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            let s = format!("{}", r.args());
            std::hint::black_box(s);
        }
    }
    fn flush(&self) {}
}

static LOGGER: Logger = Logger;

pub fn install_logger() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(LevelFilter::Trace);
}

/// Run with log messages up to a level being formatted
pub fn logging_at<T>(level: LevelFilter, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LOG.with(|l| l.set(LevelFilter::Off));
        }
    }
    let _off = Off;
    LOG.with(|l| l.set(level));
    f()
}

/// Run with all log messages being formatted, or none
pub fn logging<T>(on: bool, f: impl FnOnce() -> T) -> T {
    logging_at(if on { LevelFilter::Trace } else { LevelFilter::Off }, f)
}
