//! Simulated input and output streams and the simulated disk.

use crate::ctx::Cx;
use crate::interpose;
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};

use crate::choice::Prng;

/// Decides the size of each transfer. The first transfers use explicit decisions (so that a failing run can be
/// minimised one by one), later ones a PRNG expanded from a chosen seed.
pub struct Frag {
    style: u64,
    explicit_left: u32,
    tail: Prng,
    eintr: bool,
}

impl Frag {
    pub fn none() -> Frag {
        Frag {
            style: 0,
            explicit_left: 0,
            tail: Prng::new(0),
            eintr: false,
        }
    }
    /// Choose a fragmentation style; 0 transfers everything asked for.
    pub fn choose(cx: &Cx) -> Frag {
        let style = cx.weighted(&[3, 2, 3, 3, 2]) as u64;
        let eintr = cx.chance(1, 3);
        Frag::styled(cx, style, eintr)
    }
    pub fn styled(cx: &Cx, style: u64, eintr: bool) -> Frag {
        let (explicit, seed) = if style != 0 || eintr {
            (24, cx.seed())
        } else {
            (0, 0)
        };
        cx.sig(style * 2 + eintr as u64);
        Frag {
            style,
            explicit_left: explicit,
            tail: Prng::new(seed),
            eintr,
        }
    }
    fn draw(&mut self, cx: &Cx, n: u64) -> u64 {
        if self.explicit_left > 0 {
            self.explicit_left -= 1;
            cx.below(n)
        } else {
            self.tail.below(n)
        }
    }
    /// Returns None for an interruption, or the number of bytes (1..=want) to transfer.
    fn next(&mut self, cx: &Cx, want: usize) -> Option<usize> {
        if self.eintr && self.draw(cx, 8) == 7 {
            return None;
        }
        if want <= 1 {
            return Some(want);
        }
        let n = match self.style {
            0 => want,
            1 => 1,
            // mostly full, sometimes one byte short or a tiny piece
            2 => match self.draw(cx, 6) {
                0..=3 => want,
                4 => want - 1,
                _ => 1,
            },
            // uniform
            3 => 1 + self.draw(cx, want.min(1 << 16) as u64) as usize,
            // powers of two capped
            _ => {
                let k = self.draw(cx, 13);
                want.min(1usize << k)
            }
        };
        Some(n.max(1).min(want))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum InFault {
    None,
    /// error of the given kind once `at` bytes were delivered (persistent)
    ErrorAt(usize, io::ErrorKind),
    /// end of input once `at` bytes were delivered
    EofAt(usize),
    /// error once, then the stream would continue
    ErrorOnceAt(usize, io::ErrorKind),
}

pub struct SimReader {
    pub cx: Cx,
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    pub frag: Frag,
    pub fault: InFault,
    pub stats: Arc<Mutex<InStats>>,
}
#[derive(Default, Debug, Clone)]
pub struct InStats {
    pub reads: u64,
    pub eintr: u64,
    pub short: u64,
    pub faulted: bool,
    pub at_eof_reads: u64,
    pub reads_after_fault: u64,
}

impl SimReader {
    pub fn new(cx: &Cx, data: Arc<Vec<u8>>, frag: Frag, fault: InFault) -> SimReader {
        SimReader {
            cx: cx.clone(),
            data,
            pos: 0,
            frag,
            fault,
            stats: Arc::new(Mutex::new(InStats::default())),
        }
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        interpose::yield_point(1);
        let _g = interpose::harness();
        let mut st = self.stats.lock().unwrap();
        st.reads += 1;
        if st.faulted {
            st.reads_after_fault += 1;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut limit = self.data.len();
        match self.fault {
            InFault::ErrorAt(at, kind) => {
                if self.pos >= at {
                    st.faulted = true;
                    self.cx.count("fault.read_error");
                    self.cx.evn("read error at", self.pos as u64, 0);
                    return Err(io::Error::new(kind, "simulated input error"));
                }
                limit = limit.min(at);
            }
            InFault::ErrorOnceAt(at, kind) => {
                if self.pos >= at {
                    if !st.faulted {
                        st.faulted = true;
                        self.cx.count("fault.read_error_once");
                        self.cx.evn("read error once at", self.pos as u64, 0);
                        return Err(io::Error::new(kind, "simulated transient input error"));
                    }
                } else {
                    limit = limit.min(at);
                }
            }
            InFault::EofAt(at) => {
                if self.pos >= at {
                    st.faulted = true;
                    self.cx.count("fault.read_early_eof");
                    self.cx.evn("early eof at", self.pos as u64, 0);
                    return Ok(0);
                }
                limit = limit.min(at);
            }
            InFault::None => {}
        }
        let avail = limit - self.pos;
        let want = avail.min(buf.len());
        if want == 0 {
            st.at_eof_reads += 1;
            return Ok(0);
        }
        match self.frag.next(&self.cx, want) {
            None => {
                st.eintr += 1;
                self.cx.count("fault.read_interrupted");
                self.cx.evn("read interrupted at", self.pos as u64, 0);
                Err(io::Error::new(
                    io::ErrorKind::Interrupted,
                    "simulated interruption",
                ))
            }
            Some(n) => {
                if n < buf.len() && n < avail {
                    st.short += 1;
                    self.cx.count("fault.read_short");
                }
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.cx.evn("read at/len", self.pos as u64, n as u64);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OutFault {
    None,
    /// error once `at` bytes were accepted (persistent)
    ErrorAt(usize, io::ErrorKind),
    /// one error at `at`, later calls work again
    ErrorOnceAt(usize, io::ErrorKind),
    /// write returns Ok(0) from `at` on
    ZeroAt(usize),
    /// every flush fails
    FlushError(io::ErrorKind),
    /// the output buffers; buffered bytes reach the medium only on a successful flush, which fails
    BufferedFlushError(io::ErrorKind),
    /// the output buffers and works; without a flush nothing reaches the medium
    Buffered,
}

#[derive(Default, Debug)]
pub struct OutState {
    /// bytes accepted by write
    pub accepted: Vec<u8>,
    /// bytes that reached the medium
    pub durable: usize,
    pub writes: u64,
    pub flushes: u64,
    pub last_flush_at: Option<usize>,
    pub errors: u64,
    pub eintr: u64,
    pub short: u64,
    pub writes_after_error: u64,
    /// end offset of every accepted write, in order
    pub ops: Vec<usize>,
}

pub struct SimSink {
    pub cx: Cx,
    pub frag: Frag,
    pub fault: OutFault,
    pub st: Arc<Mutex<OutState>>,
}

impl SimSink {
    pub fn new(cx: &Cx, frag: Frag, fault: OutFault) -> (SimSink, Arc<Mutex<OutState>>) {
        let st = Arc::new(Mutex::new(OutState::default()));
        (
            SimSink {
                cx: cx.clone(),
                frag,
                fault,
                st: st.clone(),
            },
            st,
        )
    }
}

impl Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        interpose::yield_point(2);
        let _g = interpose::harness();
        let mut st = self.st.lock().unwrap();
        st.writes += 1;
        if st.errors > 0 {
            st.writes_after_error += 1;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let have = st.accepted.len();
        let mut want = buf.len();
        match self.fault {
            OutFault::ErrorAt(at, kind) => {
                if have >= at {
                    st.errors += 1;
                    self.cx.count("fault.write_error");
                    self.cx.evn("write error at", have as u64, 0);
                    return Err(io::Error::new(kind, "simulated output error"));
                }
                want = want.min(at - have);
            }
            OutFault::ErrorOnceAt(at, kind) => {
                if have >= at {
                    if st.errors == 0 {
                        st.errors += 1;
                        self.cx.count("fault.write_error_once");
                        self.cx.evn("write error once at", have as u64, 0);
                        return Err(io::Error::new(kind, "simulated transient output error"));
                    }
                } else {
                    want = want.min(at - have);
                }
            }
            OutFault::ZeroAt(at) => {
                if have >= at {
                    st.errors += 1;
                    self.cx.count("fault.write_zero");
                    self.cx.evn("write zero at", have as u64, 0);
                    return Ok(0);
                }
                want = want.min(at - have);
            }
            _ => {}
        }
        match self.frag.next(&self.cx, want) {
            None => {
                st.eintr += 1;
                self.cx.count("fault.write_interrupted");
                self.cx.evn("write interrupted at", have as u64, 0);
                Err(io::Error::new(
                    io::ErrorKind::Interrupted,
                    "simulated interruption",
                ))
            }
            Some(n) => {
                if n < buf.len() {
                    st.short += 1;
                    self.cx.count("fault.write_short");
                }
                st.accepted.extend_from_slice(&buf[..n]);
                st.ops.push(have + n);
                if !matches!(
                    self.fault,
                    OutFault::Buffered | OutFault::BufferedFlushError(_)
                ) {
                    st.durable = st.accepted.len();
                }
                self.cx.evn("write at/len", have as u64, n as u64);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        interpose::yield_point(2);
        let _g = interpose::harness();
        let mut st = self.st.lock().unwrap();
        st.flushes += 1;
        self.cx.evn("flush at", st.accepted.len() as u64, 0);
        match self.fault {
            OutFault::FlushError(k) | OutFault::BufferedFlushError(k) => {
                st.errors += 1;
                self.cx.count("fault.flush_error");
                Err(io::Error::new(k, "simulated flush error"))
            }
            _ => {
                st.durable = st.accepted.len();
                st.last_flush_at = Some(st.durable);
                Ok(())
            }
        }
    }
}

pub const ERR_KINDS: [io::ErrorKind; 16] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::Unsupported,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::NotFound,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::StaleNetworkFileHandle,
];
pub const OUT_ERR_KINDS: [io::ErrorKind; 17] = [
    io::ErrorKind::Other,
    io::ErrorKind::WriteZero,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::StorageFull,
    io::ErrorKind::QuotaExceeded,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::Unsupported,
    io::ErrorKind::InvalidData,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::NotConnected,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::ReadOnlyFilesystem,
];
