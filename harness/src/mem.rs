//! An in-memory transport with scripted readiness and faults. Everything lives in thread-local hubs, one scenario per thread.
use crate::rng::Rng;
use crate::wire;
use async_trait::async_trait;
use bromine::prelude::{IPCError, IPCResult};
use bromine::protocol::*;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::future::poll_fn;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Default)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    /// the writer is gone
    pub closed: bool,
    /// the reader is gone
    pub dropped: bool,
    pub waker: Option<Waker>,
}

pub type PipeRef = Arc<Mutex<Pipe>>;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Write(usize),
    WriteErr,
    Flush,
    FlushErr,
    Shutdown,
}

/// how the transport behaves towards bromine
pub struct Ctl {
    pub rng: Rng,
    /// most bytes moved by one operation, 0: no limit
    pub chunk: usize,
    /// how often an operation is not ready at first
    pub pend: u32,
    /// a write error once this many bytes were written
    pub fail_at: Option<usize>,
    /// writes wait once this many bytes were written
    pub block_at: Option<usize>,
    pub fail_flush: bool,
    /// failed operations stop failing after this many
    pub fails_left: usize,
    pub written: usize,
    pub ops: Vec<Op>,
    pub wwaker: Option<Waker>,
    read_pended: bool,
    write_pended: bool,
    flush_pended: bool,
    shut_pended: bool,
}

impl Ctl {
    pub fn new(rng: Rng) -> Self {
        Ctl {
            rng, chunk: 0, pend: 0, fail_at: None, block_at: None, fail_flush: false, fails_left: usize::MAX, written: 0, ops: vec![], wwaker: None,
            read_pended: false, write_pended: false, flush_pended: false, shut_pended: false,
        }
    }
}

/// what a transport fails with: any kind of error
fn error_kind(r: &mut Rng) -> io::ErrorKind {
    use io::ErrorKind::*;
    const KINDS: [io::ErrorKind; 10] =
        [BrokenPipe, WouldBlock, Interrupted, ConnectionReset, ConnectionAborted, TimedOut, Other, UnexpectedEof, WriteZero, InvalidData];
    KINDS[r.below(KINDS.len())]
}

pub struct Rd {
    pipe: PipeRef,
    ctl: Arc<Mutex<Ctl>>,
}

pub struct Wr {
    pipe: PipeRef,
    ctl: Arc<Mutex<Ctl>>,
}

impl Drop for Rd {
    fn drop(&mut self) {
        self.pipe.lock().unwrap().dropped = true;
    }
}

impl Drop for Wr {
    fn drop(&mut self) {
        let mut p = self.pipe.lock().unwrap();
        p.closed = true;
        if let Some(w) = p.waker.take() {
            w.wake()
        }
    }
}

impl AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut c = self.ctl.lock().unwrap();
        let mut p = self.pipe.lock().unwrap();
        if b.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        let pend = c.pend;
        if !c.read_pended && c.rng.chance(pend) {
            c.read_pended = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        c.read_pended = false;
        if p.buf.is_empty() {
            if p.closed {
                return Poll::Ready(Ok(()));
            }
            p.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = p.buf.len().min(b.remaining());
        if c.chunk > 0 {
            let k = c.chunk;
            n = n.min(1 + c.rng.below(k));
        }
        let d: Vec<u8> = p.buf.drain(..n).collect();
        b.put_slice(&d);
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Wr {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut c = self.ctl.lock().unwrap();
        let pend = c.pend;
        if !c.write_pended && c.rng.chance(pend) {
            c.write_pended = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        c.write_pended = false;
        let mut n = b.len();
        if c.chunk > 0 && n > 0 {
            let k = c.chunk;
            n = n.min(1 + c.rng.below(k));
        }
        if let Some(l) = c.fail_at {
            if c.written >= l && c.fails_left > 0 {
                c.fails_left -= 1;
                c.ops.push(Op::WriteErr);
                return Poll::Ready(Err(io::Error::new(error_kind(&mut c.rng), "scripted")));
            }
            if c.fails_left > 0 {
                n = n.min(l - c.written);
            }
        }
        if let Some(l) = c.block_at {
            if c.written >= l {
                c.wwaker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            n = n.min(l - c.written);
        }
        c.written += n;
        c.ops.push(Op::Write(n));
        let mut p = self.pipe.lock().unwrap();
        p.buf.extend(&b[..n]);
        if let Some(w) = p.waker.take() {
            w.wake()
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut c = self.ctl.lock().unwrap();
        let pend = c.pend;
        if !c.flush_pended && c.rng.chance(pend) {
            c.flush_pended = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        c.flush_pended = false;
        if c.fail_flush && c.fails_left > 0 {
            c.fails_left -= 1;
            c.ops.push(Op::FlushErr);
            return Poll::Ready(Err(io::Error::new(error_kind(&mut c.rng), "scripted flush")));
        }
        c.ops.push(Op::Flush);
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut c = self.ctl.lock().unwrap();
        let pend = c.pend;
        if !c.shut_pended && c.rng.chance(pend) {
            c.shut_pended = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        c.shut_pended = false;
        c.ops.push(Op::Shutdown);
        Poll::Ready(Ok(()))
    }
}

pub struct MemStream {
    rd: Rd,
    wr: Wr,
}

impl AsyncRead for MemStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.rd).poll_read(cx, b)
    }
}

impl AsyncWrite for MemStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.wr).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.wr).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.wr).poll_shutdown(cx)
    }
}

impl AsyncProtocolStreamSplit for MemStream {
    type OwnedSplitReadHalf = Rd;
    type OwnedSplitWriteHalf = Wr;
    fn protocol_into_split(self) -> (Rd, Wr) {
        (self.rd, self.wr)
    }
}

/// the other end of a transport
pub struct Peer {
    pub tx: PipeRef,
    pub rx: PipeRef,
    pub ctl: Arc<Mutex<Ctl>>,
    pub pending: Vec<u8>,
    pub opts: u32,
}

pub fn pair(rng: &mut Rng) -> (MemStream, Peer) {
    let a = PipeRef::default();
    let b = PipeRef::default();
    let ctl = Arc::new(Mutex::new(Ctl::new(Rng(rng.next()))));
    (
        MemStream { rd: Rd { pipe: a.clone(), ctl: ctl.clone() }, wr: Wr { pipe: b.clone(), ctl: ctl.clone() } },
        Peer { tx: a, rx: b, ctl, pending: vec![], opts: 0 },
    )
}

impl Peer {
    pub fn send(&self, b: &[u8]) {
        let mut p = self.tx.lock().unwrap();
        p.buf.extend(b);
        if let Some(w) = p.waker.take() {
            w.wake()
        }
    }

    pub fn close(&self) {
        let mut p = self.tx.lock().unwrap();
        p.closed = true;
        if let Some(w) = p.waker.take() {
            w.wake()
        }
    }

    /// bromine dropped its read half
    pub fn reader_gone(&self) -> bool {
        self.tx.lock().unwrap().dropped
    }

    /// some more bytes, or false at the end of the stream
    pub async fn more(&mut self) -> bool {
        let d: Option<Vec<u8>> = poll_fn(|cx| {
            let mut p = self.rx.lock().unwrap();
            if !p.buf.is_empty() {
                return Poll::Ready(Some(p.buf.drain(..).collect()));
            }
            if p.closed {
                return Poll::Ready(None);
            }
            p.waker = Some(cx.waker().clone());
            Poll::Pending
        })
        .await;
        match d {
            Some(d) => {
                self.pending.extend(d);
                true
            }
            None => false,
        }
    }

    /// everything that has been written so far
    pub fn now(&mut self) -> Vec<u8> {
        let d: Vec<u8> = self.rx.lock().unwrap().buf.drain(..).collect();
        self.pending.extend(d);
        std::mem::take(&mut self.pending)
    }

    pub async fn frame(&mut self) -> Result<wire::Frame, String> {
        loop {
            if let Some((f, n)) = wire::parse(&self.pending)? {
                self.pending.drain(..n);
                return Ok(f);
            }
            if !self.more().await {
                return Err("the connection ended".into());
            }
        }
    }

    /// the next frame, or None if there is none for a while
    pub async fn frame_soon(&mut self) -> Result<Option<wire::Frame>, String> {
        match tokio::time::timeout(std::time::Duration::from_millis(50), self.frame()).await {
            Ok(r) => r.map(Some),
            Err(_) => Ok(None),
        }
    }

    pub async fn exact(&mut self, n: usize) -> Option<Vec<u8>> {
        while self.pending.len() < n {
            if !self.more().await {
                return None;
            }
        }
        Some(self.pending.drain(..n).collect())
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Opt(pub u32);

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct LOpt(pub u32);

pub enum Item {
    Conn(MemStream, u32),
    Fail,
}

#[derive(Default)]
pub struct Hub {
    pub peers: VecDeque<Peer>,
    pub connects: usize,
    pub opts: Vec<Opt>,
    pub binds: Vec<LOpt>,
    pub queue: VecDeque<Item>,
    pub waker: Option<Waker>,
    pub refuse_from: Option<usize>,
    pub seed: u64,
    pub chunk: usize,
    pub pend: u32,
}

thread_local! {
    static HUBS: RefCell<HashMap<u64, Arc<Mutex<Hub>>>> = RefCell::new(HashMap::new());
}

pub fn hub(a: u64) -> Arc<Mutex<Hub>> {
    HUBS.with(|h| h.borrow_mut().entry(a).or_default().clone())
}

pub fn clear() {
    HUBS.with(|h| h.borrow_mut().clear());
}

impl Hub {
    pub fn offer(&mut self, i: Item) {
        self.queue.push_back(i);
        if let Some(w) = self.waker.take() {
            w.wake()
        }
    }
}

#[async_trait]
impl AsyncProtocolStream for MemStream {
    type AddressType = u64;
    type StreamOptions = Opt;
    async fn protocol_connect(address: u64, options: Opt) -> IPCResult<Self> {
        let h = hub(address);
        let mut h = h.lock().unwrap();
        let n = h.connects;
        h.connects += 1;
        h.opts.push(options);
        if h.refuse_from.map_or(false, |k| n >= k) {
            return Err(IPCError::IoError(io::Error::from(io::ErrorKind::ConnectionRefused)));
        }
        h.seed = h.seed.wrapping_add(77);
        let (s, p) = pair(&mut Rng(h.seed));
        {
            let mut c = p.ctl.lock().unwrap();
            c.chunk = h.chunk;
            c.pend = h.pend;
        }
        h.peers.push_back(p);
        Ok(s)
    }
}

pub struct MemListener(Arc<Mutex<Hub>>);

#[async_trait]
impl AsyncStreamProtocolListener for MemListener {
    type AddressType = u64;
    type RemoteAddressType = u32;
    type Stream = MemStream;
    type ListenerOptions = LOpt;

    async fn protocol_bind(address: u64, options: LOpt) -> IPCResult<Self> {
        let h = hub(address);
        h.lock().unwrap().binds.push(options);
        Ok(MemListener(h))
    }

    async fn protocol_accept(&self) -> IPCResult<(MemStream, u32)> {
        poll_fn(|cx| {
            let mut h = self.0.lock().unwrap();
            match h.queue.pop_front() {
                Some(Item::Conn(s, a)) => Poll::Ready(Ok((s, a))),
                Some(Item::Fail) => Poll::Ready(Err(IPCError::IoError(io::Error::new(io::ErrorKind::Other, "accept")))),
                None => {
                    h.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await
    }
}
