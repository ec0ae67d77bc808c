//! Transports that follow a script, and a driver that polls deterministically.
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use bytes::BytesMut;
use vortex_serde::io::VortexReadAt;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    None,
    /// this read reports an error
    Error(usize),
    /// this read returns fewer bytes than asked for
    Short(usize),
    /// this read reports the end of the file
    Eof(usize),
}

#[derive(Default)]
pub struct ReadLog {
    pub reads: Vec<(u64, usize)>,
    pub done: usize,
}

/// A file whose reads take a scripted number of polls.
pub struct ScriptFile {
    pub bytes: Arc<Vec<u8>>,
    /// polls each read stays pending, cyclic
    pub delays: Vec<usize>,
    pub fault: Fault,
    pub log: Arc<Mutex<ReadLog>>,
}
impl ScriptFile {
    pub fn new(bytes: Arc<Vec<u8>>, delays: Vec<usize>, fault: Fault) -> ScriptFile {
        ScriptFile { bytes, delays, fault, log: Default::default() }
    }
}

struct Delay(usize);
impl Future for Delay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

impl VortexReadAt for ScriptFile {
    fn read_at_into(&self, pos: u64, mut buffer: BytesMut) -> impl Future<Output = io::Result<BytesMut>> + Send {
        let i = {
            let mut l = self.log.lock().unwrap();
            l.reads.push((pos, buffer.len()));
            l.reads.len() - 1
        };
        let d = if self.delays.is_empty() { 0 } else { self.delays[i % self.delays.len()] };
        let bytes = self.bytes.clone();
        let fault = self.fault;
        let log = self.log.clone();
        async move {
            Delay(d).await;
            log.lock().unwrap().done += 1;
            match fault {
                Fault::Error(k) if k == i => return Err(io::Error::new(io::ErrorKind::Other, "scripted failure")),
                Fault::Eof(k) if k == i => return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "scripted end")),
                _ => {}
            }
            let (p, n) = (pos as usize, buffer.len());
            if p + n > bytes.len() {
                return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "read past the end"));
            }
            buffer.copy_from_slice(&bytes[p..p + n]);
            if let Fault::Short(k) = fault {
                if k == i {
                    buffer.truncate(n - n.min(1) - n.saturating_sub(1) / 3);
                }
            }
            Ok(buffer)
        }
    }
    async fn size(&self) -> u64 {
        self.bytes.len() as u64
    }
}

struct CountWake(AtomicUsize);
impl Wake for CountWake {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// Poll to completion. `eager`: also poll without having been woken. None: it never answers.
pub struct Driver {
    wakes: Arc<CountWake>,
    pub eager: bool,
    pub polls: usize,
}
pub const MAX_POLLS: usize = 200_000;
impl Driver {
    pub fn new(eager: bool) -> Driver {
        Driver { wakes: Arc::new(CountWake(AtomicUsize::new(0))), eager, polls: 0 }
    }
    pub fn run<T>(&mut self, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Option<T> {
        let w: Waker = self.wakes.clone().into();
        let mut cx = Context::from_waker(&w);
        let mut idle = 0;
        for _ in 0..MAX_POLLS {
            self.polls += 1;
            let before = self.wakes.0.load(Ordering::SeqCst);
            if let Poll::Ready(x) = f(&mut cx) {
                return Some(x);
            }
            if self.wakes.0.load(Ordering::SeqCst) == before {
                // nobody will ever wake us up
                idle += 1;
                if !self.eager || idle > 50 {
                    return None;
                }
            } else {
                idle = 0;
            }
        }
        None
    }
    pub fn future<F: Future>(&mut self, f: F) -> Option<F::Output> {
        let mut f = Box::pin(f);
        self.run(|cx| f.as_mut().poll(cx))
    }
}

/// A byte stream delivered in scripted pieces; after `limit` bytes it ends or fails.
pub struct PieceStream {
    pub bytes: Arc<Vec<u8>>,
    pub pos: usize,
    pub pieces: Vec<usize>,
    pub next: usize,
    pub pend: bool,
    pub pending_now: bool,
    pub limit: usize,
    pub fail: bool,
}
impl PieceStream {
    pub fn new(bytes: Arc<Vec<u8>>, pieces: Vec<usize>, pend: bool, limit: usize, fail: bool) -> Self {
        PieceStream { bytes, pos: 0, pieces, next: 0, pend, pending_now: pend, limit, fail }
    }
    fn step(&mut self, cx: &mut Context<'_>, want: usize) -> Poll<io::Result<usize>> {
        if self.pend {
            self.pending_now = !self.pending_now;
            if !self.pending_now {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        let left = self.limit.min(self.bytes.len()) - self.pos;
        if left == 0 {
            return Poll::Ready(if self.fail && self.limit < self.bytes.len() {
                Err(io::Error::new(io::ErrorKind::ConnectionReset, "scripted failure"))
            } else {
                Ok(0)
            });
        }
        let p = if self.pieces.is_empty() { usize::MAX } else { self.pieces[self.next % self.pieces.len()].max(1) };
        self.next += 1;
        Poll::Ready(Ok(p.min(left).min(want)))
    }
}
impl futures::io::AsyncRead for PieceStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self.step(cx, buf.len()) {
            Poll::Ready(Ok(n)) => {
                let p = self.pos;
                buf[..n].copy_from_slice(&self.bytes[p..p + n]);
                self.pos += n;
                Poll::Ready(Ok(n))
            }
            x => x,
        }
    }
}
impl tokio::io::AsyncRead for PieceStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        match self.step(cx, buf.remaining()) {
            Poll::Ready(Ok(n)) => {
                let p = self.pos;
                buf.put_slice(&self.bytes[p..p + n]);
                self.pos += n;
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
