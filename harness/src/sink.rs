//! Sinks: they record what arrives and inject the faults a plan asks for.
use crate::model::{of_fast, S};
use std::cell::RefCell;
use std::fmt;
use std::io;
use std::rc::Rc;
use stylish::Style;

/// A sink that is called this often for one of our workloads is in a loop.
pub const LIMIT: usize = 3_000_000;

/// Shared so it can be looked at while a writer owns the sink.
#[derive(Clone, Default)]
pub struct FmtSink(pub Rc<RefCell<FmtState>>);
#[derive(Default)]
pub struct FmtState {
    pub buf: String,
    pub calls: usize,
    /// fail this call and, unless transient, all after it
    pub fail_at: Option<usize>,
    pub transient: bool,
    /// fail any call whose text contains this character while armed
    pub fail_on: Option<char>,
    /// panic instead where the text contains this character, or at the failing call
    pub panic_on: Option<char>,
    pub panics: bool,
    pub failures: usize,
    pub calls_after_failure: usize,
}
impl FmtSink {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn failing_at(n: usize) -> Self {
        let s = Self::default();
        s.0.borrow_mut().fail_at = Some(n);
        s
    }
    pub fn text(&self) -> String {
        self.0.borrow().buf.clone()
    }
}
impl fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        crate::doc::note_write(s.len());
        let mut st = self.0.borrow_mut();
        let n = st.calls;
        st.calls += 1;
        assert!(n < LIMIT, "no progress: sink called {n} times");
        if st.failures > 0 {
            st.calls_after_failure += 1;
        }
        let fail = match st.fail_at {
            Some(k) => n == k || (n > k && !st.transient),
            None => false,
        } || st.fail_on.is_some_and(|c| s.contains(c));
        if st.panic_on.is_some_and(|c| s.contains(c)) || (fail && st.panics) {
            st.failures += 1;
            drop(st);
            crate::doc::boom();
        }
        if fail {
            st.failures += 1;
            crate::doc::note_failure();
            return Err(fmt::Error);
        }
        st.buf.push_str(s);
        Ok(())
    }
}

#[derive(Debug)]
pub struct Tag(pub u64);
impl fmt::Display for Tag {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected error {}", self.0)
    }
}
impl std::error::Error for Tag {}

/// Ways for an error to have an identity
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E {
    Custom(io::ErrorKind, u64),
    Os(i32),
    Simple(io::ErrorKind),
}
impl E {
    pub fn make(self) -> io::Error {
        match self {
            E::Custom(k, n) => io::Error::new(k, Tag(n)),
            E::Os(n) => io::Error::from_raw_os_error(n),
            E::Simple(k) => io::Error::from(k),
        }
    }
    pub fn is(self, e: &io::Error) -> bool {
        match self {
            E::Custom(k, n) => {
                e.kind() == k
                    && e.get_ref().and_then(|e| e.downcast_ref::<Tag>()).is_some_and(|t| t.0 == n)
            }
            E::Os(n) => e.raw_os_error() == Some(n),
            E::Simple(k) => e.kind() == k && e.get_ref().is_none() && e.raw_os_error().is_none(),
        }
    }
    /// for calls that know no error to try again after
    pub fn any_or_interrupted(r: &mut crate::rng::Rng) -> E {
        match r.below(9) {
            0 => E::Os(4), // EINTR
            1 => E::Simple(io::ErrorKind::Interrupted),
            2 => E::Custom(io::ErrorKind::Interrupted, r.u64()),
            _ => E::any(r),
        }
    }
    pub fn any(r: &mut crate::rng::Rng) -> E {
        use io::ErrorKind::*;
        let k = *r.pick(&[
            BrokenPipe, WouldBlock, Other, InvalidData, UnexpectedEof, WriteZero, TimedOut, PermissionDenied,
            NotConnected, StorageFull, OutOfMemory, ConnectionReset, AddrInUse, NotFound, InvalidInput,
            AlreadyExists, Unsupported, ConnectionRefused, ConnectionAborted, AddrNotAvailable, HostUnreachable,
            NetworkUnreachable, NetworkDown, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem,
            StaleNetworkFileHandle, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy,
            Deadlock, TooManyLinks, ArgumentListTooLong,
        ]);
        match r.below(4) {
            0 => E::Os(*r.pick(&[5, 9, 11, 12, 22, 27, 28, 32, 104, 110, 113, 5000])), // EIO EAGAIN ENOSPC EPIPE ECONNRESET
            1 => E::Simple(k),
            _ => E::Custom(k, r.u64()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    All,
    /// accept at most this many bytes (at least 1)
    Short(usize),
    Interrupted,
    Fail(E),
    /// accept nothing: Ok(0)
    Zero,
    Panic,
}

pub struct IoState {
    pub buf: Vec<u8>,
    /// those with something to write
    pub calls: usize,
    empty_calls: usize,
    /// length of each call's buffer and what became of it, if wanted
    pub log: Option<Vec<(Vec<u8>, Act)>>,
    pub plan: Box<dyn FnMut(usize, &[u8]) -> Act>,
    pub faults: usize,
    pub hard: usize,
    pub calls_after_hard: usize,
    /// whoever holds this is to let go of it and panic
    booming: bool,
    pub flushes: usize,
    pub flush_error: Option<E>,
}
#[derive(Clone)]
pub struct IoSink(pub Rc<RefCell<IoState>>);
impl IoSink {
    pub fn new() -> Self {
        Self::with(|_, _| Act::All)
    }
    pub fn with(plan: impl FnMut(usize, &[u8]) -> Act + 'static) -> Self {
        IoSink(Rc::new(RefCell::new(IoState {
            buf: Vec::new(),
            calls: 0,
            empty_calls: 0,
            log: None,
            plan: Box::new(plan),
            faults: 0,
            hard: 0,
            calls_after_hard: 0,
            booming: false,
            flushes: 0,
            flush_error: None,
        })))
    }
    pub fn logged(self) -> Self {
        self.0.borrow_mut().log = Some(Vec::new());
        self
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().buf.clone()
    }
}
impl IoState {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        crate::doc::note_write(b.len());
        let n = self.calls;
        if b.is_empty() {
            self.empty_calls += 1;
        } else {
            self.calls += 1;
        }
        // a sink may take a byte only every fiftieth time
        assert!(n + self.empty_calls < LIMIT + 60 * self.buf.len(), "no progress: sink called {n} times");
        assert!(self.buf.len() < 1 << 28, "no end: {} bytes", self.buf.len());
        if self.hard > 0 {
            self.calls_after_hard += 1;
        }
        let act = if b.is_empty() { Act::All } else { (self.plan)(n, b) };
        if let Some(l) = &mut self.log {
            l.push((b.to_vec(), act));
        }
        if act != Act::All {
            self.faults += 1;
        }
        match act {
            Act::All => {
                self.buf.extend_from_slice(b);
                Ok(b.len())
            }
            Act::Short(k) => {
                let k = k.clamp(1, b.len());
                self.buf.extend_from_slice(&b[..k]);
                Ok(k)
            }
            // in all the forms it comes in
            Act::Interrupted => Err(match n % 4 {
                0 => E::Os(4).make(),
                1 => E::Simple(io::ErrorKind::Interrupted).make(),
                _ => io::Error::new(io::ErrorKind::Interrupted, "injected"),
            }),
            Act::Zero => {
                self.hard += 1;
                crate::doc::note_failure();
                Ok(0)
            }
            Act::Panic => {
                self.hard += 1;
                self.booming = true;
                Ok(0)
            }
            Act::Fail(e) => {
                self.hard += 1;
                crate::doc::note_failure();
                Err(e.make())
            }
        }
    }
}
impl io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut st = self.0.borrow_mut();
        let r = st.write(b);
        if std::mem::take(&mut st.booming) {
            drop(st);
            crate::doc::boom();
        }
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut st = self.0.borrow_mut();
        st.flushes += 1;
        match st.flush_error {
            None => Ok(()),
            Some(e) => Err(e.make()),
        }
    }
}

/// A user-defined `stylish::Write`: the events the formatter produces.
#[derive(Default)]
pub struct Styled {
    pub events: Vec<(String, S)>,
    pub fail_at: Option<usize>,
    pub calls: usize,
}
impl Styled {
    pub fn new() -> Self {
        Self::default()
    }
}
impl stylish::Write for Styled {
    fn write_str(&mut self, s: &str, style: Style) -> stylish::Result {
        self.calls += 1;
        assert!(self.calls < LIMIT, "no progress: writer called {} times", self.calls);
        if self.fail_at.is_some_and(|n| self.calls > n) {
            crate::doc::note_failure();
            return Err(stylish::Error);
        }
        self.events.push((s.to_string(), of_fast(style)));
        Ok(())
    }
}

/// A user-defined `stylish::io::Write` that has faults of its own and relies on
/// the provided methods.
pub struct StyledIo(pub Rc<RefCell<StyledIoState>>);
pub struct StyledIoState {
    pub io: IoState,
    /// every non-empty acceptance
    pub events: Vec<(Vec<u8>, S)>,
    /// every call
    pub log: Vec<(usize, S)>,
}
impl StyledIo {
    pub fn with(plan: impl FnMut(usize, &[u8]) -> Act + 'static) -> Self {
        let s = IoSink::with(plan);
        let io = match Rc::try_unwrap(s.0) {
            Ok(c) => c.into_inner(),
            Err(_) => unreachable!(),
        };
        StyledIo(Rc::new(RefCell::new(StyledIoState { io, events: vec![], log: vec![] })))
    }
    pub fn handle(&self) -> Rc<RefCell<StyledIoState>> {
        self.0.clone()
    }
}
impl stylish::io::Write for StyledIo {
    fn write(&mut self, b: &[u8], style: Style) -> io::Result<usize> {
        let mut st = self.0.borrow_mut();
        st.log.push((b.len(), of_fast(style)));
        let n = st.io.write(b);
        if std::mem::take(&mut st.io.booming) {
            drop(st);
            crate::doc::boom();
        }
        let n = n?;
        if n > 0 {
            let ev = (b[..n].to_vec(), of_fast(style));
            st.events.push(ev);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut st = self.0.borrow_mut();
        st.io.flushes += 1;
        match st.io.flush_error {
            None => Ok(()),
            Some(e) => Err(e.make()),
        }
    }
}
