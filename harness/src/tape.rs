//! A tape over memory that delivers, interrupts, and fails as told.

use crate::json::{s, J};
use std::cell::RefCell;
use std::fmt;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

pub const KINDS: [ErrorKind; 37] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::NotFound,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::WriteZero,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::CrossesDevices,
    ErrorKind::TooManyLinks,
    ErrorKind::InvalidFilename,
    ErrorKind::ArgumentListTooLong,
];

/// The kinds of errors and, in the last place, errors of the system.
pub const WAYS: usize = KINDS.len() + 1;

/// The numbers of the errors of the system begin here.
const SYSTEM: i32 = 100000;

fn injected(way: usize, operation: i64) -> Error {
    match KINDS.get(way % WAYS) {
        Some(kind) => Error::new(*kind, Injected(operation)),
        _ => Error::from_raw_os_error(SYSTEM + operation as i32),
    }
}

/// The operation an error was made by, if any, and the way of making it or the kind of error otherwise.
pub fn recognized(error: &Error) -> (i64, i64) {
    if let Some(number) = error.raw_os_error() {
        if number >= SYSTEM {
            return ((number - SYSTEM) as i64, KINDS.len() as i64);
        }
    }
    let injected = error
        .get_ref()
        .and_then(|error| error.downcast_ref::<Injected>())
        .map(|injected| injected.0);
    let kind = KINDS.iter().position(|kind| *kind == error.kind());
    (injected.unwrap_or(-1), kind.map(|kind| kind as i64).unwrap_or(-1))
}

/// The payload of an injected failure: the number of the operation that failed.
#[derive(Debug)]
pub struct Injected(pub i64);

impl fmt::Display for Injected {
    fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
        write!(formatter, "injected")
    }
}

impl std::error::Error for Injected {}

/// Something done while the tape is in use.
pub type Job = Box<dyn FnOnce() -> (i64, J)>;

thread_local! {
    static JOBS: RefCell<Vec<Job>> = RefCell::new(vec![]);
    static DONE: RefCell<Vec<(i64, J)>> = RefCell::new(vec![]);
}

/// Do the jobs while the next tape of this thread is read from, one per operation.
pub fn nest(mut jobs: Vec<Job>) {
    jobs.reverse();
    JOBS.with(|cell| *cell.borrow_mut() = jobs);
}

/// What the jobs came to that have been done.
pub fn nested() -> Vec<(i64, J)> {
    JOBS.with(|cell| cell.borrow_mut().clear());
    DONE.with(|cell| std::mem::take(&mut *cell.borrow_mut()))
}

fn work() {
    let mut jobs = JOBS.with(|cell| std::mem::take(&mut *cell.borrow_mut()));
    if let Some(job) = jobs.pop() {
        let result = job();
        DONE.with(|cell| cell.borrow_mut().push(result));
        JOBS.with(|cell| *cell.borrow_mut() = jobs);
    }
}

#[derive(Default)]
pub struct Tape {
    data: Vec<u8>,
    /// Where the data begin; there are zeros before.
    base: u64,
    place: u64,
    chunk: usize,
    interrupt: i64,
    fail: i64,
    once: bool,
    error: usize,
    script: Vec<i64>,
    logging: bool,
    interrupted: bool,
    pub operations: i64,
    pub failures: Vec<i64>,
    pub log: Vec<J>,
}

impl Tape {
    pub fn new(data: Vec<u8>) -> Self {
        Tape {
            data,
            fail: -1,
            ..Default::default()
        }
    }

    /// The tape as a case describes it.
    pub fn of(case: &J) -> Self {
        Tape::planned(case.at("b").bytes(), case.get("tape"))
    }

    /// A tape over data that follows a plan.
    pub fn planned(data: Vec<u8>, plan: Option<&J>) -> Self {
        let mut tape = Tape::new(data);
        if let Some(plan) = plan {
            let int = |key: &str, default: i64| plan.get(key).map(|value| value.int()).unwrap_or(default);
            tape.base = int("base", 0) as u64;
            tape.chunk = int("chunk", 0) as usize;
            tape.interrupt = int("intr", 0);
            tape.fail = int("fail", -1);
            tape.once = int("once", 1) == 1;
            tape.error = int("error", 0) as usize;
            tape.logging = int("log", 0) == 1;
            if let Some(script) = plan.get("script") {
                tape.script = script.arr().iter().map(|value| value.int()).collect();
            }
        }
        tape
    }

    /// Begin counting (and failing) anew, at a place of the data.
    pub fn rewind(&mut self, place: u64) {
        self.place = self.base + place;
        self.operations = 0;
    }

    /// The place in the data.
    pub fn place(&self) -> u64 {
        self.place.wrapping_sub(self.base)
    }

    fn begin(&mut self) -> Result<i64> {
        work();
        let i = self.operations;
        self.operations += 1;
        let script = self.script.get(i as usize).copied().unwrap_or(i64::MAX);
        if script == -1 || i == self.fail || (self.fail >= 0 && i > self.fail && !self.once) {
            self.failures.push(i);
            if self.logging {
                self.log.push(J::A(vec![s("f"), J::I(i)]));
            }
            return Err(injected(self.error, i));
        }
        Ok(script)
    }
}

impl Read for Tape {
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        let script = self.begin()?;
        let due = self.interrupt > 0 && self.operations % self.interrupt == 0 && !self.interrupted;
        if script == 0 || due {
            self.interrupted = true;
            if self.logging {
                self.log.push(J::A(vec![s("i")]));
            }
            return Err(ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        let before = self.base.saturating_sub(self.place);
        let place = (self.place.saturating_sub(self.base).min(self.data.len() as u64)) as usize;
        let mut count = match before {
            0 => buffer.len().min(self.data.len() - place),
            _ => buffer.len().min(before.min(1 << 20) as usize),
        };
        if self.chunk > 0 {
            count = count.min(self.chunk);
        }
        if script != i64::MAX {
            count = count.min(script as usize);
        }
        match before {
            0 => buffer[..count].copy_from_slice(&self.data[place..place + count]),
            _ => buffer[..count].fill(0),
        }
        self.place += count as u64;
        if self.logging {
            self.log.push(J::A(vec![s("r"), J::I(buffer.len() as i64), J::I(count as i64)]));
        }
        Ok(count)
    }
}

impl Seek for Tape {
    fn seek(&mut self, from: SeekFrom) -> Result<u64> {
        self.begin()?;
        let (base, offset) = match from {
            SeekFrom::Start(offset) => {
                self.place = offset;
                if self.logging {
                    self.log.push(J::A(vec![s("s"), J::I(self.place as i64)]));
                }
                return Ok(offset);
            }
            SeekFrom::End(offset) => (self.base + self.data.len() as u64, offset),
            SeekFrom::Current(offset) => (self.place, offset),
        };
        match base.checked_add_signed(offset) {
            Some(place) => {
                self.place = place;
                if self.logging {
                    self.log.push(J::A(vec![s("s"), J::I(self.place as i64)]));
                }
                Ok(place)
            }
            None => Err(ErrorKind::InvalidInput.into()),
        }
    }
}
