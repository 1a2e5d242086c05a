//! Instrumented transports: fragmenting, interrupting and failing readers and writers.
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

/// Raised (as a panic payload) when the code polls a finished reader or writer without end.
pub struct Hang(pub &'static str);

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::NotFound,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AlreadyExists,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
];

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// plain end of input / writer accepts everything
    None,
    /// error of this kind at this offset, every time
    Err(usize, ErrorKind),
    /// error of this kind at this offset, once
    ErrOnce(usize, ErrorKind),
    /// writers only: Ok(0) at this offset
    Zero(usize),
}

#[derive(Clone, Debug, Default)]
pub struct Frag {
    /// sizes of successive pieces (cycled); 0 means an interruption; empty: everything at once
    pub plan: Vec<u16>,
}

pub struct RState {
    pub data: Vec<u8>,
    pub pos: usize,
    pub frag: Frag,
    step: usize,
    stop: Stop,
    idle: u32,
    /// number of reads that reached the end or the failure
    pub at_end: u32,
    pub interrupts: u32,
    pub reads: u64,
    /// overwrite the rest of the caller's buffer with junk, as a reader may
    pub scribble: bool,
}

#[derive(Clone)]
pub struct Rd(pub Rc<RefCell<RState>>);

impl Rd {
    pub fn new(data: &[u8]) -> Rd {
        Rd::with(data, Frag::default(), Stop::None)
    }
    pub fn with(data: &[u8], frag: Frag, stop: Stop) -> Rd {
        Rd(Rc::new(RefCell::new(RState {
            data: data.to_vec(),
            pos: 0,
            frag,
            step: 0,
            stop,
            idle: 0,
            at_end: 0,
            interrupts: 0,
            reads: 0,
            scribble: true,
        })))
    }
    pub fn pos(&self) -> usize {
        self.0.borrow().pos
    }
    pub fn rest(&self) -> usize {
        let s = self.0.borrow();
        s.data.len() - s.pos
    }
    pub fn interrupts(&self) -> u32 {
        self.0.borrow().interrupts
    }
    pub fn at_end(&self) -> u32 {
        self.0.borrow().at_end
    }
}

impl Read for Rd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        crate::hook::tick_io()?;
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        s.reads += 1;
        let mut want = buf.len();
        if !s.frag.plan.is_empty() {
            let k = s.step % s.frag.plan.len();
            s.step += 1;
            let p = s.frag.plan[k] as usize;
            if p == 0 {
                s.interrupts += 1;
                s.idle += 1;
                if s.idle > 100_000 {
                    drop(s);
                    std::panic::panic_any(Hang("reader interrupted without progress"));
                }
                return Err(ErrorKind::Interrupted.into());
            }
            want = want.min(p);
        }
        let end = match s.stop {
            Stop::Err(at, _) | Stop::ErrOnce(at, _) => at.min(s.data.len()),
            _ => s.data.len(),
        };
        let n = want.min(end - s.pos.min(end));
        if n == 0 {
            s.at_end += 1;
            s.idle += 1;
            if s.idle > 100_000 {
                drop(s);
                std::panic::panic_any(Hang("reader polled without end after it was exhausted"));
            }
            return match s.stop {
                Stop::Err(_, k) => Err(k.into()),
                Stop::ErrOnce(_, k) => {
                    s.stop = Stop::None;
                    Err(k.into())
                }
                _ => Ok(0),
            };
        }
        let p = s.pos;
        buf[..n].copy_from_slice(&s.data[p..p + n]);
        if s.scribble {
            let hi = buf.len().min(n + 64);
            for b in &mut buf[n..hi] {
                *b = 0xA5;
            }
        }
        s.pos += n;
        s.idle = 0;
        Ok(n)
    }
}

pub struct WState {
    pub out: Vec<u8>,
    pub frag: Frag,
    step: usize,
    pub stop: Stop,
    idle: u32,
    pub failed: u32,
    pub interrupts: u32,
    pub flushes: u32,
    pub after_fail: usize,
}

#[derive(Clone)]
pub struct Wr(pub Rc<RefCell<WState>>);

impl Wr {
    pub fn new() -> Wr {
        Wr::with(Frag::default(), Stop::None)
    }
    pub fn with(frag: Frag, stop: Stop) -> Wr {
        Wr(Rc::new(RefCell::new(WState {
            out: Vec::new(),
            frag,
            step: 0,
            stop,
            idle: 0,
            failed: 0,
            interrupts: 0,
            flushes: 0,
            after_fail: 0,
        })))
    }
    pub fn len(&self) -> usize {
        self.0.borrow().out.len()
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().out.clone()
    }
}

impl Write for Wr {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        crate::hook::tick_io()?;
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        let mut want = buf.len();
        if !s.frag.plan.is_empty() {
            let k = s.step % s.frag.plan.len();
            s.step += 1;
            let p = s.frag.plan[k] as usize;
            if p == 0 {
                s.interrupts += 1;
                s.idle += 1;
                if s.idle > 100_000 {
                    drop(s);
                    std::panic::panic_any(Hang("writer interrupted without progress"));
                }
                return Err(ErrorKind::Interrupted.into());
            }
            want = want.min(p);
        }
        let limit = match s.stop {
            Stop::None => usize::MAX,
            Stop::Err(a, _) | Stop::ErrOnce(a, _) | Stop::Zero(a) => a,
        };
        let n = want.min(limit.saturating_sub(s.out.len()));
        if n == 0 {
            s.failed += 1;
            s.idle += 1;
            if s.idle > 100_000 {
                drop(s);
                std::panic::panic_any(Hang("failed writer polled without end"));
            }
            return match s.stop {
                Stop::Err(_, k) => Err(k.into()),
                Stop::ErrOnce(_, k) => {
                    s.stop = Stop::None;
                    Err(k.into())
                }
                _ => Ok(0),
            };
        }
        s.idle = 0;
        if s.failed > 0 {
            s.after_fail += n;
        }
        s.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().flushes += 1;
        Ok(())
    }
}

pub fn gen_frag(s: &mut crate::tape::Src) -> Frag {
    match s.below(5) {
        0 => Frag { plan: vec![] },
        1 => Frag { plan: vec![1] },
        2 => Frag { plan: vec![0, 1] },
        _ => {
            let n = 1 + s.usize(8);
            let mut plan: Vec<u16> = (0..n)
                .map(|_| match s.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => 2,
                    3 => 1 + s.below(16) as u16,
                    4 => 100 + s.below(60) as u16,
                    _ => 1 + s.below(5000) as u16,
                })
                .collect();
            if plan.iter().all(|p| *p == 0) {
                plan.push(1);
            }
            Frag { plan }
        }
    }
}

/// A reader or writer whose every call is a turn of the user's code.
pub struct Turns<T>(pub T);
impl<T: Read> Read for Turns<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        crate::hook::tick_io()?;
        self.0.read(buf)
    }
}
impl<T: Write> Write for Turns<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        crate::hook::tick_io()?;
        self.0.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
