//! Faults of the underlying reader.

use std::io::{Cursor, Error, ErrorKind, Read, Seek, SeekFrom};

use postscript::compact1::FontSet;

use crate::font::simple;
use crate::sx::{assume, bytes, choose, observe};
use crate::view::{equal, take};
use crate::{check, harnesses, reach};

/// A reader that fails at a certain call.
struct Faulty<'l> {
    inner: Cursor<&'l [u8]>,
    calls: usize,
    failing: usize,
    kind: ErrorKind,
    failed: bool,
}

/// Kinds of failures, except for those that mean something else: an end and an interruption.
const KINDS: [ErrorKind; 16] = [
    ErrorKind::PermissionDenied,
    ErrorKind::Other,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::WriteZero,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::AlreadyExists,
    ErrorKind::AddrInUse,
];

impl<'l> Faulty<'l> {
    fn new(data: &'l [u8], failing: usize, kind: ErrorKind) -> Self {
        Faulty { inner: Cursor::new(data), calls: 0, failing, kind, failed: false }
    }

    fn step(&mut self) -> std::io::Result<()> {
        let now = self.calls;
        self.calls += 1;
        if now == self.failing {
            self.failed = true;
            return Err(Error::from(self.kind));
        }
        Ok(())
    }
}

impl<'l> Read for Faulty<'l> {
    fn read(&mut self, buffer: &mut [u8]) -> std::io::Result<usize> {
        self.step()?;
        self.inner.read(buffer)
    }
}

impl<'l> Seek for Faulty<'l> {
    fn seek(&mut self, position: SeekFrom) -> std::io::Result<u64> {
        self.step()?;
        self.inner.seek(position)
    }
}

/// A reader that gives as little as it can and gets interrupted.
struct Slow<'l> {
    inner: Cursor<&'l [u8]>,
    chunk: usize,
    period: usize,
    calls: usize,
}

impl<'l> Read for Slow<'l> {
    fn read(&mut self, buffer: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.period > 0 && self.calls % self.period == 0 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let n = buffer.len().min(self.chunk);
        self.inner.read(&mut buffer[..n])
    }
}

impl<'l> Seek for Slow<'l> {
    fn seek(&mut self, position: SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(position)
    }
}

/// Something well-formed of a certain kind, with symbolic contents where they can be.
pub fn data(kind: usize, b: &[u8; 6]) -> Vec<u8> {
    match kind {
        0 => b[..4].to_vec(),
        1 | 8 => vec![0, 2, 1, 1, 2, 4, b[0], b[1], b[2]],
        2 => match choose(3) {
            0 => vec![28, b[0], b[1]],
            1 => vec![29, b[0], b[1], b[2], b[3]],
            _ => vec![0x1e, 0x1a, 0x2f],
        },
        3 => vec![28, b[0], b[1], 28, b[2], b[3], 18, 139, 12, 7],
        4 => b[..3].to_vec(),
        5 => match choose(2) {
            0 => vec![0, 2, b[0], b[1]],
            _ => vec![1, 1, b[0], b[1]],
        },
        6 => match choose(3) {
            0 => vec![0, b[0], b[1], b[2], b[3]],
            1 => vec![1, b[0], b[1], 1],
            _ => vec![2, b[0], b[1], 0, 1],
        },
        7 => match choose(2) {
            0 => vec![0, b[0], b[1]],
            _ => vec![3, 0, 1, b[0], b[1], b[2], b[3], b[4]],
        },
        // everything that there can be
        9 => simple(false, None, None),
        _ => simple(true, None, None),
    }
}

harnesses! {
    fn h_fault("C28", Both, ["failed", "unaffected"],
        "each kind of table with symbolic contents and whole font sets of both kinds, with a failure of any one of the first 60 (for font sets, 600) reads or seeks in any of 16 (for font sets, 3) ways")
    {
        let kind = choose(11);
        let data = data(kind, &bytes::<6>());
        let limit = if kind >= 9 { 600 } else { 60 };
        let failure = KINDS[choose(if kind >= 9 { 3 } else { KINDS.len() })];
        let mut tape = Faulty::new(&data, choose(limit), failure);
        let result = take(&mut tape, kind);
        if tape.failed {
            reach!("failed");
            match result {
                Ok(_) => check!(false, "C28 a failure of the reader is not taken for success"),
                Err(error) => check!(
                    error.kind() == failure,
                    "C28 a failure of the reader is reported as it is"
                ),
            }
        } else {
            reach!("unaffected");
            observe(tape.calls as u64);
            check!(result.is_ok(), "C28 without failures, well-formed data are accepted");
        }
    }

    fn h_fault_count("C28", Both, ["failed", "unaffected"],
        "counting fonts with a failure of any one of the first 30 reads or seeks in any of 16 ways")
    {
        let b = bytes::<2>();
        let data = [1, 0, 4, 1, b[0], b[1]];
        let mut tape = Faulty::new(&data, choose(30), KINDS[choose(KINDS.len())]);
        let result = FontSet::count(&mut tape);
        if tape.failed {
            reach!("failed");
            check!(result.is_err(), "C28 a failure of the reader is not taken for success");
        } else {
            reach!("unaffected");
            check!(
                matches!(result, Ok(count) if count == (b[0] as usize) << 8 | b[1] as usize),
                "C28 without failures, well-formed data are accepted"
            );
        }
    }

    fn h_fault_slow("C28", Both, ["same"],
        "each kind of table with symbolic contents and whole font sets of both kinds, read 1 to 3 bytes at a time, with every second, third, or no read being interrupted")
    {
        let kind = choose(11);
        let data = data(kind, &bytes::<6>());
        let mut slow = Slow { inner: Cursor::new(&data), chunk: 1 + choose(3), period: [0, 2, 3][choose(3)], calls: 0 };
        let one = take(&mut slow, kind);
        let other = take(&mut Cursor::new(&data[..]), kind);
        reach!("same");
        match (one, other) {
            (Ok(one), Ok(other)) => {
                for value in &one {
                    observe(*value);
                }
                check!(equal(&one, &other), "C28 the result does not depend on the sizes of reads");
            }
            _ => check!(false, "C28 short and interrupted reads are continued"),
        }
    }

    fn h_fault_slow_any("C28", Both, ["same"],
        "each kind of table of any 5 bytes (dictionaries: starting with a 16-bit or 32-bit integer), read 1 byte at a time, against reading all at once")
    {
        let kind = choose(9);
        let b = bytes::<5>();
        if kind == 1 || kind == 8 {
            assume((b[0] == 0) & (b[1] <= 1));
        }
        if kind == 2 || kind == 3 {
            // real numbers are costly
            for i in 0..5 {
                assume(b[i] != 0x1e);
            }
        }
        if kind == 3 {
            // as are dictionaries of many operations
            assume((b[0] == 28) | (b[0] == 29));
        }
        let mut slow = Slow { inner: Cursor::new(&b), chunk: 1, period: 0, calls: 0 };
        let one = take(&mut slow, kind);
        let other = take(&mut Cursor::new(&b[..]), kind);
        reach!("same");
        match (one, other) {
            (Ok(one), Ok(other)) => check!(equal(&one, &other), "C28 the result does not depend on the sizes of reads"),
            (Err(_), Err(_)) => {}
            _ => check!(false, "C28 the result does not depend on the sizes of reads"),
        }
    }
}
