//! Buffers, buffered I/O, whole-item helpers and monolithic codecs over scripted streams.
use crate::ck;
use crate::util::*;
use bytecodec::io::*;
use bytecodec::monolithic::*;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind};
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Take(usize), Fail(io::ErrorKind), Pend }
/// what a call of the stream returned
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Got { N(usize), Fail(io::ErrorKind), Pend }
/// a stream that follows a script; when the script is over it takes as much as it can
#[derive(Clone, Debug)]
pub struct Script { data: Vec<u8>, pos: usize, rops: Vec<Op>, ri: usize, rlog: Vec<Got>, sink: Vec<u8>, room: usize, wops: Vec<Op>, wi: usize, wlog: Vec<Got>, order: Vec<bool> }
impl Script {
    fn new(data: Vec<u8>, rops: Vec<Op>, room: usize, wops: Vec<Op>) -> Script { Script { data, pos: 0, rops, ri: 0, rlog: vec![], sink: vec![], room, wops, wi: 0, wlog: vec![], order: vec![] } }
    fn rd(&mut self, buf: &mut [u8]) -> Got {
        assert!(self.rlog.len() < 100_000, "endless reading");
        self.order.push(false);
        let op = self.rops.get(self.ri).copied().unwrap_or(Op::Take(1 << 20));
        self.ri += 1;
        let g = match op {
            Op::Fail(k) => Got::Fail(k),
            Op::Pend => Got::Pend,
            Op::Take(n) => {
                let n = n.max(1).min(buf.len()).min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Got::N(n)
            }
        };
        self.rlog.push(g);
        g
    }
    fn wr(&mut self, buf: &[u8]) -> Got {
        assert!(self.wlog.len() < 100_000, "endless writing");
        self.order.push(true);
        let op = self.wops.get(self.wi).copied().unwrap_or(Op::Take(1 << 20));
        self.wi += 1;
        let g = match op {
            Op::Fail(k) => Got::Fail(k),
            Op::Pend => Got::Pend,
            Op::Take(n) => {
                let n = n.max(1).min(buf.len()).min(self.room - self.sink.len());
                self.sink.extend_from_slice(&buf[..n]);
                Got::N(n)
            }
        };
        self.wlog.push(g);
        g
    }
    fn marks(&self) -> (usize, usize) { (self.rlog.len(), self.wlog.len()) }
}
impl Read for Script {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { match self.rd(buf) { Got::N(n) => Ok(n), Got::Fail(k) => Err(io::Error::new(k, "script")), Got::Pend => Err(io::ErrorKind::WouldBlock.into()) } }
}
impl Write for Script {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { match self.wr(buf) { Got::N(n) => Ok(n), Got::Fail(k) => Err(io::Error::new(k, "script")), Got::Pend => Err(io::ErrorKind::WouldBlock.into()) } }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl AsyncRead for Script {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut b = vec![0; buf.remaining()];
        match self.rd(&mut b) { Got::N(n) => { buf.put_slice(&b[..n]); Poll::Ready(Ok(())) } Got::Fail(k) => Poll::Ready(Err(io::Error::new(k, "script"))), Got::Pend => { cx.waker().wake_by_ref(); Poll::Pending } }
    }
}
impl AsyncWrite for Script {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.wr(buf) { Got::N(n) => Poll::Ready(Ok(n)), Got::Fail(k) => Poll::Ready(Err(io::Error::new(k, "script"))), Got::Pend => { cx.waker().wake_by_ref(); Poll::Pending } }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
const KINDS: [io::ErrorKind; 5] = [io::ErrorKind::WouldBlock, io::ErrorKind::Interrupted, io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof, io::ErrorKind::InvalidData];
fn ops(r: &mut Rng, fails: bool, pend: bool) -> Vec<Op> {
    let n = r.below(12);
    let style = r.below(3);
    (0..n).map(|_| if fails && r.chance(1, 4) { Op::Fail(KINDS[r.below(5)]) } else if pend && r.chance(1, 3) { Op::Pend } else { Op::Take(match style { 0 => 1, 1 => 64, _ => r.range(1, 5) }) }).collect()
}
fn scaled(v: Vec<Op>, k: usize) -> Vec<Op> { v.into_iter().map(|o| match o { Op::Take(n) => Op::Take(n * k), o => o }).collect() }
/// the error kind that an I/O error turns into, by the documented conversion (checked on its own by C21)
fn kind_of(k: io::ErrorKind) -> ErrorKind { *Error::from(io::Error::new(k, "x")).kind() }
fn blocked(g: Got) -> bool { g == Got::Pend || g == Got::Fail(io::ErrorKind::WouldBlock) }

/// takes at most `step` bytes a call, remembers everything it was shown
struct Rec { want: usize, step: usize, seen: Vec<u8>, shown: Vec<Vec<u8>>, ends: Vec<Eos>, fail: Option<ErrorKind> }
impl Decode for Rec {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.shown.push(buf.to_vec()); self.ends.push(eos);
        if let Some(k) = self.fail { return Err(k.into()) }
        let n = buf.len().min(self.step).min(self.want - self.seen.len());
        self.seen.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> { Ok(std::mem::take(&mut self.seen)) }
    fn requiring_bytes(&self) -> ByteCount { ByteCount::Finite((self.want - self.seen.len()) as u64) }
    fn is_idle(&self) -> bool { self.seen.len() == self.want }
}
struct RecE { data: Vec<u8>, pos: usize, step: usize, rooms: Vec<usize>, ends: Vec<Eos>, fail: Option<ErrorKind> }
impl Encode for RecE {
    type Item = Vec<u8>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.rooms.push(buf.len()); self.ends.push(eos);
        if let Some(k) = self.fail { return Err(k.into()) }
        let n = buf.len().min(self.step).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
    fn start_encoding(&mut self, item: Vec<u8>) -> bytecodec::Result<()> { self.data = item; self.pos = 0; Ok(()) }
    fn requiring_bytes(&self) -> ByteCount { ByteCount::Finite((self.data.len() - self.pos) as u64) }
    fn is_idle(&self) -> bool { self.pos == self.data.len() }
}

fn state_after(b0: StreamState, log: &[Got], full: bool, was_full: bool, err: bool, who: &str, tag: &'static str, s: StreamState) -> Ck {
    let want = match log.last() {
        None => { ck!(was_full, [tag], "{} made no call though there was work", who); b0 }
        Some(g) if blocked(*g) => StreamState::WouldBlock,
        Some(Got::Fail(_)) => StreamState::Error,
        Some(Got::N(0)) => StreamState::Eos,
        _ => { ck!(full, [tag], "{} stopped early after {:?}", who, log); StreamState::Normal }
    };
    ck!(s == want, [tag], "{}: state {:?} after {:?}, expected {:?}", who, s, log, want);
    for g in &log[..log.len().saturating_sub(1)] { ck!(matches!(g, Got::N(n) if *n > 0), [tag], "{} went on after {:?}", who, g); }
    ck!(err == matches!(log.last(), Some(Got::Fail(k)) if *k != io::ErrorKind::WouldBlock), [tag], "{} {} after {:?}", who, if err { "failed" } else { "succeeded" }, log);
    Ok(())
}
fn moved(log: &[Got]) -> usize { log.iter().map(|g| match g { Got::N(n) => *n, _ => 0 }).sum() }
fn err_is(e: &Error, log: &[Got], tag: &'static str) -> Ck {
    if let Some(Got::Fail(k)) = log.last() { ck!(*e.kind() == kind_of(*k), [tag, "C21"], "{:?} was reported as {:?}", k, e.kind()); }
    Ok(())
}

struct Wk(AtomicUsize);
impl std::task::Wake for Wk { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::Relaxed); } fn wake_by_ref(self: &Arc<Self>) { self.0.fetch_add(1, Ordering::Relaxed); } }

fn see_r<B: AsRef<[u8]> + AsMut<[u8]>>(b: &ReadBuf<B>, m: &[u8], cap: usize, tag: &'static str) -> Ck {
    ck!(b.len() == m.len(), [tag], "len {} with {} bytes buffered", b.len(), m.len());
    ck!(b.capacity() == cap, [tag], "capacity {} of {}", b.capacity(), cap);
    ck!(b.is_empty() == m.is_empty(), [tag], "is_empty {} with {} bytes buffered", b.is_empty(), m.len());
    ck!(b.room() + m.len() <= cap, [tag], "room {} with {} of {} bytes buffered", b.room(), m.len(), cap);
    ck!(!m.is_empty() || b.room() == cap, [tag], "room {} of {} in an empty buffer", b.room(), cap);
    ck!(b.is_full() == (b.room() == 0), [tag], "is_full {} with room {}", b.is_full(), b.room());
    ck!(b.inner_ref().as_ref().len() == cap, [tag], "inner changed its length");
    Ok(())
}
fn see_w<B: AsRef<[u8]> + AsMut<[u8]>>(b: &WriteBuf<B>, m: &[u8], cap: usize, tag: &'static str) -> Ck {
    ck!(b.len() == m.len(), [tag], "len {} with {} bytes buffered", b.len(), m.len());
    ck!(b.capacity() == cap, [tag], "capacity {} of {}", b.capacity(), cap);
    ck!(b.is_empty() == m.is_empty(), [tag], "is_empty {} with {} bytes buffered", b.is_empty(), m.len());
    ck!(b.room() + m.len() <= cap, [tag], "room {} with {} of {} bytes buffered", b.room(), m.len(), cap);
    ck!(!m.is_empty() || b.room() == cap, [tag], "room {} of {} in an empty buffer", b.room(), cap);
    ck!(b.is_full() == (b.room() == 0), [tag], "is_full {} with room {}", b.is_full(), b.room());
    ck!(b.inner_ref().as_ref().len() == cap, [tag], "inner changed its length");
    Ok(())
}

#[derive(Clone, Debug)]
enum Act { Fill, Poll, Read(usize), Decode(usize, usize), DecodeErr, Poke(StreamState) }
fn read_buf<B: AsRef<[u8]> + AsMut<[u8]>>(inner: B, t: &mut Script, acts: &[Act], tag: &'static str) -> Ck {
    let cap = inner.as_ref().len();
    let mut b = ReadBuf::new(inner);
    let mut m: Vec<u8> = vec![]; // what must be buffered
    ck!(b.stream_state() == StreamState::Normal, [tag], "a new buffer is {:?}", b.stream_state());
    see_r(&b, &m, cap, tag)?;
    let wk = Arc::new(Wk(AtomicUsize::new(0)));
    let waker = std::task::Waker::from(wk.clone());
    for a in acts {
        let st = b.stream_state();
        let room = b.room();
        match a {
            Act::Fill | Act::Poll => {
                let (l0, p0) = (t.rlog.len(), t.pos);
                let p1 = wk.0.load(Ordering::Relaxed);
                let (res, pending) = if let Act::Fill = a { (b.fill(&mut *t), false) } else {
                    match b.poll_fill(Pin::new(&mut *t), &mut Context::from_waker(&waker)) { Poll::Pending => (Ok(()), true), Poll::Ready(r) => (r, false) }
                };
                ck!(!pending || wk.0.load(Ordering::Relaxed) > p1, [tag], "poll_fill is pending and nobody will wake the task");
                let log = t.rlog[l0..].to_vec();
                m.extend_from_slice(&t.data[p0..t.pos]);
                ck!(t.pos - p0 == moved(&log), [tag], "engine");
                // an asynchronous reader that fails with WouldBlock fails; a pending one blocks
                if let Act::Poll = a {
                    ck!(pending == (log.last() == Some(&Got::Pend)), [tag], "poll_fill is {} after {:?}", if pending { "pending" } else { "ready" }, log);
                    if log.last() == Some(&Got::Fail(io::ErrorKind::WouldBlock)) { ck!(res.is_err() && b.stream_state() == StreamState::Error, [tag], "an error was not reported"); }
                    else { state_after(st, &log, b.is_full(), room == 0, res.is_err(), "poll_fill", tag, b.stream_state())?; }
                } else { state_after(st, &log, b.is_full(), room == 0, res.is_err(), "fill", tag, b.stream_state())?; }
                if let Err(e) = &res { err_is(e, &log, tag)?; }
                ck!(b.len() == m.len(), [tag], "{:?}: {} bytes buffered of {} read", a, b.len(), m.len());
            }
            Act::Read(n) => {
                let mut o = vec![0xEE; *n];
                let k = match b.read(&mut o) { Ok(k) => k, Err(e) => return Err(fail(&[tag], format!("read failed: {}", e))) };
                ck!(k == m.len().min(*n), [tag], "read gave {} bytes of {} into {}", k, m.len(), n);
                ck!(o[..k] == m[..k] && o[k..].iter().all(|x| *x == 0xEE), [tag], "read gave {:?} of {:?}", o, m);
                m.drain(..k);
                ck!(b.stream_state() == st, [tag], "read changed the state");
            }
            Act::Decode(want, step) => {
                let mut d = Rec { want: *want, step: *step, seen: vec![], shown: vec![], ends: vec![], fail: None };
                if let Err(e) = d.decode_from_read_buf(&mut b) { return Err(fail(&[tag], format!("decode_from_read_buf failed: {:?}", e.kind()))) }
                ck!(d.shown == vec![m.clone()], [tag], "the decoder was shown {:?} of {:?}", d.shown, m);
                let eos = Eos::new(st == StreamState::Eos);
                ck!(d.ends == vec![eos], [tag], "the decoder was told {:?} in state {:?}", d.ends, st);
                let k = d.seen.len();
                ck!(d.seen == m[..k], [tag], "engine");
                m.drain(..k);
                ck!(b.stream_state() == st, [tag], "decoding changed the state");
            }
            Act::DecodeErr => {
                let mut d = Rec { want: 9, step: 9, seen: vec![], shown: vec![], ends: vec![], fail: Some(ErrorKind::InvalidInput) };
                match d.decode_from_read_buf(&mut b) { Err(e) => ck!(*e.kind() == ErrorKind::InvalidInput, [tag, "C21"], "the decoder's error became {:?}", e.kind()), Ok(()) => return Err(fail(&[tag], "the decoder's error was lost".into())) }
            }
            Act::Poke(s) => { *b.stream_state_mut() = *s; ck!(b.stream_state() == *s, [tag], "stream_state_mut"); }
        }
        see_r(&b, &m, cap, tag)?;
    }
    // what is left comes out as it went in
    let mut o = vec![0; cap + 1];
    let k = b.read(&mut o).unwrap_or(0);
    ck!(o[..k] == m[..], [tag], "{:?} came out instead of {:?}", &o[..k], m);
    Ok(())
}
#[derive(Clone, Debug)]
enum WAct { Flush, Poll, Write(usize), Encode(usize, usize), EncodeAsync(usize, usize), EncodeErr(bool), Poke(StreamState), IoFlush }
fn write_buf<B: AsRef<[u8]> + AsMut<[u8]>>(inner: B, t: &mut Script, acts: &[WAct], fresh: &mut Rng, tag: &'static str) -> Ck {
    let cap = inner.as_ref().len();
    let mut b = WriteBuf::new(inner);
    let mut m: Vec<u8> = vec![];
    ck!(b.stream_state() == StreamState::Normal, [tag], "a new buffer is {:?}", b.stream_state());
    see_w(&b, &m, cap, tag)?;
    let wk = Arc::new(Wk(AtomicUsize::new(0)));
    let waker = std::task::Waker::from(wk.clone());
    let mut registered: Option<Arc<Wk>> = None; // who waits for room
    for a in acts {
        let st = b.stream_state();
        let room = b.room();
        match a {
            WAct::Flush | WAct::Poll => {
                let (l0, p0) = (t.wlog.len(), t.sink.len());
                let empty = m.is_empty();
                let w0 = registered.as_ref().map_or(0, |k| k.0.load(Ordering::Relaxed));
                let p1 = wk.0.load(Ordering::Relaxed);
                let (res, pending) = if let WAct::Flush = a { (b.flush(&mut *t), false) } else {
                    match b.poll_flush(Pin::new(&mut *t), &mut Context::from_waker(&waker)) { Poll::Pending => (Ok(()), true), Poll::Ready(r) => (r, false) }
                };
                let log = t.wlog[l0..].to_vec();
                let out = t.sink[p0..].to_vec();
                ck!(out.len() <= m.len() && out == m[..out.len()], [tag], "{:?} was written out of {:?}", out, m);
                m.drain(..out.len());
                let woken = registered.as_ref().map_or(true, |k| k.0.load(Ordering::Relaxed) > w0);
                if let WAct::Poll = a {
                    ck!(!pending || wk.0.load(Ordering::Relaxed) > p1, [tag], "poll_flush is pending and nobody will wake the task");
                    if res.is_ok() && !empty && m.is_empty() { ck!(woken, [tag, "C19"], "poll_flush made room and did not wake the task that waits for it"); }
                    ck!(pending == (log.last() == Some(&Got::Pend)), [tag], "poll_flush is {} after {:?}", if pending { "pending" } else { "ready" }, log);
                    if log.last() == Some(&Got::Fail(io::ErrorKind::WouldBlock)) { ck!(res.is_err() && b.stream_state() == StreamState::Error, [tag], "an error was not reported"); }
                    else { state_after(st, &log, m.is_empty(), empty, res.is_err(), "poll_flush", tag, b.stream_state())?; }
                } else {
                    state_after(st, &log, m.is_empty(), empty, res.is_err(), "flush", tag, b.stream_state())?;
                    // whoever waits for room is woken once there is some
                    if res.is_ok() && !b.is_full() { ck!(woken, [tag, "C19"], "flush made room and did not wake the task that waits for it"); }
                }
                if let Err(e) = &res { err_is(e, &log, tag)?; }
            }
            WAct::Write(n) => {
                let x: Vec<u8> = (0..*n).map(|_| fresh.byte()).collect();
                let k = match b.write(&x) { Ok(k) => k, Err(e) => return Err(fail(&[tag], format!("write failed: {}", e))) };
                ck!(k == room.min(*n), [tag], "write took {} of {} bytes with room for {}", k, n, room);
                m.extend_from_slice(&x[..k]);
                ck!(b.stream_state() == st, [tag], "write changed the state");
            }
            WAct::IoFlush => { ck!(Write::flush(&mut b).is_ok() && b.stream_state() == st, [tag], "Write::flush of the buffer did something"); }
            WAct::Encode(n, step) | WAct::EncodeAsync(n, step) => {
                let x: Vec<u8> = (0..*n).map(|_| fresh.byte()).collect();
                let mut e = RecE { data: x, pos: 0, step: *step, rooms: vec![], ends: vec![], fail: None };
                let r = if let WAct::Encode(..) = a { e.encode_to_write_buf(&mut b) } else { let k = if fresh.chance(1, 4) { wk.clone() } else { Arc::new(Wk(AtomicUsize::new(0))) }; let w = std::task::Waker::from(k.clone()); registered = Some(k); e.encode_to_write_buf_async(&mut b, &mut Context::from_waker(&w)) };
                if let Err(e) = r { return Err(fail(&[tag], format!("encode_to_write_buf failed: {:?}", e.kind()))) }
                ck!(e.rooms == vec![room], [tag], "the encoder was given {:?} bytes; room {}", e.rooms, room);
                let eos = Eos::new(st == StreamState::Eos);
                ck!(e.ends == vec![eos], [tag], "the encoder was told {:?} in state {:?}", e.ends, st);
                m.extend_from_slice(&e.data[..e.pos]);
                ck!(b.stream_state() == st, [tag], "encoding changed the state");
            }
            WAct::EncodeErr(asy) => {
                let mut e = RecE { data: vec![1], pos: 0, step: 1, rooms: vec![], ends: vec![], fail: Some(ErrorKind::InvalidInput) };
                if *asy { registered = None; }
                match if *asy { e.encode_to_write_buf_async(&mut b, &mut Context::from_waker(&waker)) } else { e.encode_to_write_buf(&mut b) } {
                    Err(e) => ck!(*e.kind() == ErrorKind::InvalidInput, [tag, "C21"], "the encoder's error became {:?}", e.kind()), Ok(()) => return Err(fail(&[tag], "the encoder's error was lost".into())) }
            }
            WAct::Poke(s) => { *b.stream_state_mut() = *s; ck!(b.stream_state() == *s, [tag], "stream_state_mut"); }
        }
        see_w(&b, &m, cap, tag)?;
    }
    // what is left comes out as it went in
    let mut o = Script::new(vec![], vec![], 1 << 20, vec![]);
    ck!(b.flush(&mut o).is_ok() && o.sink == m, [tag], "{:?} came out instead of {:?}", o.sink, m);
    Ok(())
}
fn st(r: &mut Rng) -> StreamState { [StreamState::Normal, StreamState::Eos, StreamState::WouldBlock, StreamState::Error][r.below(4)] }
pub fn buffers(c: &mut crate::Ctx, n: usize, asy: bool) {
    let mut r = Rng::new(c.seed ^ if asy { 0xC19 } else { 0xC14 });
    let tag = if asy { "C19" } else { "C14" };
    for _ in 0..n * 4 {
        if c.full() { return }
        let k = if r.chance(1, 50) { [70usize, 600, 2500][r.below(3)] } else { 1 };
        let cap = if r.chance(1, 8) { r.range(20, 60) } else { r.range(0, 8) } * k;
        let dn = r.below(24) * k; let data: Vec<u8> = (0..dn).map(|_| r.byte()).collect();
        let rops = scaled(ops(&mut r, true, asy), k);
        let wops = scaled(ops(&mut r, true, asy), k);
        let room = if r.chance(1, 2) { 1 << 20 } else { r.below(16) * k };
        let acts: Vec<Act> = (0..r.range(1, 14)).map(|_| match r.below(9) { 0..=3 => if asy && r.chance(3, 4) { Act::Poll } else { Act::Fill }, 4 | 5 => Act::Read(r.below(6) * k), 6 => Act::Decode(r.below(7) * k, r.range(1, 4) * k), 7 => if r.chance(1, 3) { Act::DecodeErr } else { Act::Decode(99, 99) }, _ => Act::Poke(st(&mut r)) }).collect();
        let t = Script::new(data, rops, 0, vec![]);
        c.case("read buffer", &[], &|| format!("cap {} stream {:?} {:?} acts {:?}", cap, t.data, t.rops, acts), &mut || match cap { 5 => read_buf([7u8; 5], &mut t.clone(), &acts, tag), _ => read_buf(vec![7u8; cap], &mut t.clone(), &acts, tag) });
        if c.full() { return }
        let wacts: Vec<WAct> = (0..r.range(1, 14)).map(|_| match r.below(10) { 0..=2 => if asy && r.chance(3, 4) { WAct::Poll } else { WAct::Flush }, 3..=5 => WAct::Write(r.below(6) * k), 6 | 7 => if r.chance(if asy { 2 } else { 1 }, 3) { WAct::EncodeAsync(r.below(7) * k, r.range(1, 4) * k) } else { WAct::Encode(r.below(9) * k, r.range(1, 9) * k) }, 8 => if r.chance(1, 2) { WAct::EncodeErr(r.chance(1, 2)) } else { WAct::IoFlush }, _ => WAct::Poke(st(&mut r)) }).collect();
        let t = Script::new(vec![], vec![], room, wops);
        let sd = r.next();
        c.case("write buffer", &[], &|| format!("cap {} sink {} {:?} acts {:?}", cap, room, t.wops, wacts), &mut || match cap { 5 => write_buf([7u8; 5], &mut t.clone(), &wacts, &mut Rng::new(sd), tag), _ => write_buf(vec![7u8; cap], &mut t.clone(), &wacts, &mut Rng::new(sd), tag) });
    }
}

/// rounds of execute_io / execute_io_poll over one stream
fn rounds(t: Script, rc: usize, wc: usize, acts: &[(bool, usize, usize)], fresh: &mut Rng, asy: bool) -> Ck {
    let tag = if asy { "C19" } else { "C15" };
    let mut io = BufferedIo::new(t, rc, wc);
    ck!(io.read_buf_ref().capacity() == rc && io.write_buf_ref().capacity() == wc, [tag], "buffer sizes {} {}", io.read_buf_ref().capacity(), io.write_buf_ref().capacity());
    ck!(!io.is_eos() && !io.would_block(), [tag], "a new BufferedIo is ended or blocked");
    let (mut rin, mut win): (Vec<u8>, Vec<u8>) = (vec![], vec![]); // what was read off / written in by the user
    let wk = Arc::new(Wk(AtomicUsize::new(0)));
    let waker = std::task::Waker::from(wk.clone());
    for &(go, rd, wr) in acts {
        let x: Vec<u8> = (0..wr).map(|_| fresh.byte()).collect();
        let k = io.write_buf_mut().write(&x).unwrap_or(0);
        win.extend_from_slice(&x[..k]);
        let mut o = vec![0; rd];
        let k = io.read_buf_mut().read(&mut o).unwrap_or(0);
        rin.extend_from_slice(&o[..k]);
        if !go { continue }
        let (r0, w0) = io.stream_ref().marks();
        let o0 = io.stream_ref().order.len();
        let (rs, ws) = (io.read_buf_ref().stream_state(), io.write_buf_ref().stream_state());
        let (rfull, wempty) = (io.read_buf_ref().is_full(), io.write_buf_ref().is_empty());
        let p1 = wk.0.load(Ordering::Relaxed);
        let (res, pending) = if asy { match Pin::new(&mut io).execute_io_poll(&mut Context::from_waker(&waker)) { Poll::Pending => (Ok(()), true), Poll::Ready(r) => (r, false) } } else { (io.execute_io(), false) };
        ck!(!pending || wk.0.load(Ordering::Relaxed) >= p1 + 2, [tag], "the round is pending and the task is not registered with both directions");
        let (rlog, wlog) = { let s = io.stream_ref(); (s.rlog[r0..].to_vec(), s.wlog[w0..].to_vec()) };
        let ord = io.stream_ref().order[o0..].to_vec();
        ck!(ord.windows(2).all(|w| w[0] <= w[1]), [tag], "reading and writing were mixed: {:?}", ord);
        let hard = |l: &[Got]| matches!(l.last(), Some(Got::Fail(k)) if asy || *k != io::ErrorKind::WouldBlock);
        let rerr = hard(&rlog); let werr = hard(&wlog);
        let chk = |log: &[Got], s0, full, was, who: &str, s: StreamState| -> Ck {
            if asy && log.last() == Some(&Got::Fail(io::ErrorKind::WouldBlock)) { ck!(s == StreamState::Error, [tag], "{}: state {:?} after an error", who, s); return Ok(()) }
            state_after(s0, log, full, was, hard(log), who, tag, s)
        };
        chk(&rlog, rs, io.read_buf_ref().is_full(), rfull, "reading", io.read_buf_ref().stream_state())?;
        // a failing read may end the round before anything is written
        if !(rerr && wlog.is_empty() && !asy) { chk(&wlog, ws, io.write_buf_ref().is_empty(), wempty, "writing", io.write_buf_ref().stream_state())?; }
        ck!(res.is_err() == (rerr || werr), [tag], "the round {} after {:?} {:?}", if res.is_err() { "failed" } else { "succeeded" }, rlog, wlog);
        if let Err(e) = &res {
            let want = if let Some(Got::Fail(k)) = if rerr { rlog.last() } else { wlog.last() } { kind_of(*k) } else { ErrorKind::Other };
            ck!(*e.kind() == want, [tag, "C21"], "the stream's error was reported as {:?}, expected {:?}", e.kind(), want);
        }
        if asy { ck!(pending == (rlog.last() == Some(&Got::Pend) && wlog.last() == Some(&Got::Pend)), [tag], "the round is {} after {:?} {:?}", if pending { "pending" } else { "ready" }, rlog, wlog); }
        let (rs, ws) = (io.read_buf_ref().stream_state(), io.write_buf_ref().stream_state());
        ck!(io.is_eos() == (rs == StreamState::Eos || ws == StreamState::Eos), [tag, "C15"], "is_eos {} in {:?} {:?}", io.is_eos(), rs, ws);
        let wb = rs == StreamState::WouldBlock && (io.write_buf_ref().is_empty() || ws == StreamState::WouldBlock);
        ck!(io.would_block() == wb, [tag, "C15"], "would_block {} in {:?} {:?} with {} bytes to write", io.would_block(), rs, ws, io.write_buf_ref().len());
    }
    // nothing lost, repeated or reordered in either direction
    let mut o = vec![0; rc];
    let k = io.read_buf_mut().read(&mut o).unwrap_or(0);
    rin.extend_from_slice(&o[..k]);
    let left = { let mut s = Script::new(vec![], vec![], 1 << 20, vec![]); let _ = io.write_buf_mut().flush(&mut s); s.sink };
    io.stream_mut().order.clear();
    let s = io.into_stream();
    ck!(rin == s.data[..s.pos], [tag], "{:?} was read of {:?}", rin, &s.data[..s.pos]);
    let mut out = s.sink.clone();
    out.extend(left);
    ck!(out == win, [tag], "{:?} was written for {:?}", out, win);
    Ok(())
}
pub fn both(c: &mut crate::Ctx, n: usize, asy: bool) {
    let mut r = Rng::new(c.seed ^ if asy { 0xC190 } else { 0xC15 });
    for _ in 0..n * 4 {
        if c.full() { return }
        let k = if r.chance(1, 50) { [70usize, 600, 2500][r.below(3)] } else { 1 };
        let dn = r.below(24) * k; let data: Vec<u8> = (0..dn).map(|_| r.byte()).collect();
        let rops = scaled(ops(&mut r, true, asy), k); let wops = scaled(ops(&mut r, true, asy), k);
        let room = if r.chance(1, 2) { 1 << 20 } else { r.below(16) * k };
        let t = Script::new(data, rops, room, wops);
        let (rc, wc) = (r.below(8) * k, r.below(8) * k);
        let acts: Vec<(bool, usize, usize)> = (0..r.range(1, 10)).map(|_| (r.chance(3, 4), if r.chance(1, 2) { 0 } else { r.below(6) * k }, if r.chance(1, 2) { 0 } else { r.below(6) * k })).collect();
        let sd = r.next();
        c.case(if asy { "async rounds" } else { "buffered rounds" }, &[], &|| format!("buffers {} {} stream {:?} {:?} sink {} {:?} acts (round, read, write) {:?}", rc, wc, t.data, t.rops, room, t.wops, acts), &mut || rounds(t.clone(), rc, wc, &acts, &mut Rng::new(sd), asy));
    }
}

/// a decoder of `want` bytes that takes all it is offered and asks for them as it is told
struct Picky { seen: Vec<u8>, want: usize, asks: Vec<u8>, step: usize, now: std::rc::Rc<std::cell::Cell<ByteCount>> }
impl Picky {
    fn ask(&self) -> ByteCount {
        let left = self.want - self.seen.len();
        match self.asks[self.step % self.asks.len()] { 0 => ByteCount::Unknown, 1 => ByteCount::Finite(0), 2 => ByteCount::Finite(left.min(1) as u64), 3 => ByteCount::Finite((left / 2) as u64), _ => ByteCount::Finite(left as u64) }
    }
}
impl Decode for Picky {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = buf.len().min(self.want - self.seen.len());
        self.seen.extend_from_slice(&buf[..n]);
        self.step += 1;
        self.now.set(if self.is_idle() { ByteCount::Finite(0) } else { self.ask() });
        if eos.is_reached() && !self.is_idle() { return Err(ErrorKind::UnexpectedEos.into()) }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> { Ok(std::mem::take(&mut self.seen)) }
    fn requiring_bytes(&self) -> ByteCount { self.now.get() }
    fn is_idle(&self) -> bool { self.seen.len() == self.want }
}
/// an encoder that writes `step` bytes a call and says how many are left as it is told
struct PickyE { data: Vec<u8>, pos: usize, step: usize, asks: Vec<u8>, calls: usize }
impl Encode for PickyE {
    type Item = Vec<u8>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = buf.len().min(self.step).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.calls += 1;
        if eos.is_reached() && !self.is_idle() { return Err(ErrorKind::UnexpectedEos.into()) }
        Ok(n)
    }
    fn start_encoding(&mut self, item: Vec<u8>) -> bytecodec::Result<()> { self.data = item; self.pos = 0; Ok(()) }
    fn requiring_bytes(&self) -> ByteCount {
        let left = (self.data.len() - self.pos) as u64;
        match self.asks[self.calls % self.asks.len()] { _ if left == 0 => ByteCount::Finite(0), 0 => ByteCount::Unknown, 1 => ByteCount::Finite(1), 2 => ByteCount::Finite(left.min(1024)), _ => ByteCount::Finite(left) }
    }
    fn is_idle(&self) -> bool { self.pos == self.data.len() }
}
/// decode_exact asks its reader for no more than the item requires
fn asked(want: usize, asks: &[u8], gives: &[usize]) -> Ck {
    struct Rd { pos: usize, len: usize, calls: usize, gives: Vec<usize>, now: std::rc::Rc<std::cell::Cell<ByteCount>>, over: Option<(usize, ByteCount)> }
    impl Read for Rd {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let bad = match self.now.get() { ByteCount::Finite(n) => buf.len() as u64 > n.max(1), ByteCount::Unknown => buf.len() > 1, ByteCount::Infinite => false };
            if bad { self.over = Some((buf.len(), self.now.get())) }
            let n = buf.len().min(self.gives[self.calls % self.gives.len()]).min(self.len - self.pos);
            for (i, x) in buf[..n].iter_mut().enumerate() { *x = (self.pos + i) as u8 }
            self.calls += 1;
            self.pos += n;
            Ok(n)
        }
    }
    let now = std::rc::Rc::new(std::cell::Cell::new(ByteCount::Unknown));
    let mut d = Picky { seen: vec![], want, asks: asks.to_vec(), step: 0, now: now.clone() };
    now.set(if want == 0 { ByteCount::Finite(0) } else { d.ask() });
    let mut t = Rd { pos: 0, len: want + 5, calls: 0, gives: gives.to_vec(), now, over: None };
    let x = d.decode_exact(&mut t);
    if let Some((n, q)) = t.over { return Err(fail(&["C16"], format!("decode_exact asked for {} bytes where the item requires {:?}", n, q))) }
    let data: Vec<u8> = (0..want).map(|i| i as u8).collect();
    ck!(matches!(&x, Ok(x) if *x == data) && t.pos == want, ["C16"], "decode_exact gave {:?} having taken {} of {} bytes", x, t.pos, want);
    Ok(())
}
/// decode_exact and decode_from_bytes of a grammar decoder
fn exact(g: &crate::dec::G, s: &[u8], rops: &[Op], twice: bool, quota: Option<u64>) -> Ck {
    use crate::dec::{den, has, G, Out};
    let maxed = has(g, &|x| matches!(x, G::Max(..)));
    let mut d = crate::dec::build(g).slice();
    d.set_consumable_bytes(quota.unwrap_or(1 << 40));
    let mut plain = crate::dec::build(g);
    let mut t = Script::new(s.to_vec(), rops.to_vec(), 0, vec![]);
    let mut p = 0;
    for i in 0..if twice { 2 } else { 1 } {
        let l0 = t.rlog.len();
        let r = if quota.is_some() { d.decode_exact(&mut t) } else { plain.decode_exact(&mut t) };
        let log = &t.rlog[l0..];
        let outs = den(g, s, p);
        match r {
            Ok(x) => {
                ck!(outs.contains(&Out::Ok(t.pos, x.clone())), ["C16"], "item {}: decode_exact gave {:?} having taken {} bytes; expected {:?}", i, x, t.pos, outs);
                p = t.pos;
            }
            Err(e) => {
                let k = *e.kind();
                let stream = matches!(log.last(), Some(Got::Fail(x)) if kind_of(*x) == k);
                let item = maxed || outs.iter().any(|o| matches!(o, Out::Err(x) | Out::Late(_, x) if *x == k));
                let over = k == ErrorKind::InconsistentState && outs.iter().any(|o| matches!(o, Out::Ok(q, _) | Out::Late(q, _) if *q + 1 == t.pos || (quota.is_some() || has(g, &|x| matches!(x, G::Collect(_) | G::MaybeEos(_) | G::Length(..) | G::Utf8Fix(_)))) && *q < t.pos));
                // the slice stops before the item is complete
                let short = quota.map_or(false, |q| t.pos as u64 >= q) && (k == ErrorKind::InconsistentState || k == ErrorKind::UnexpectedEos);
                ck!(stream || item || over || short, ["C16"], "item {}: decode_exact failed with {:?} after {:?} at {}; expected {:?}", i, k, log, t.pos, outs);
                return Ok(());
            }
        }
    }
    Ok(())
}
fn whole(g: &crate::dec::G, s: &[u8]) -> Ck {
    use crate::dec::{den, has, G, Out};
    let maxed = has(g, &|x| matches!(x, G::Max(..)));
    let mut d = crate::dec::build(g);
    let outs = den(g, s, 0);
    match d.decode_from_bytes(s) {
        Ok(x) => ck!(outs.iter().any(|o| matches!(o, Out::Ok(q, v) if *q == s.len() && *v == x)), ["C16"], "decode_from_bytes gave {:?}; expected {:?} using all {} bytes", x, outs, s.len()),
        Err(e) => {
            let k = *e.kind();
            let item = maxed || outs.iter().any(|o| matches!(o, Out::Err(x) | Out::Late(_, x) if *x == k));
            let rest = k == ErrorKind::InvalidInput && outs.iter().any(|o| matches!(o, Out::Ok(q, _) | Out::Late(q, _) if *q < s.len()));
            ck!(item || rest, ["C16"], "decode_from_bytes failed with {:?}; expected {:?} of {} bytes", k, outs, s.len());
        }
    }
    Ok(())
}
fn write_all(h: &crate::enc::H, v: &Val, w: &[Op], room: usize) -> Ck {
    use crate::enc::{build, den};
    let mut e = build(h);
    let want = den(h, v, 1 << 20);
    let mut t = Script::new(vec![], vec![], room, w.to_vec());
    if let Err(x) = e.start_encoding(v.clone()) {
        ck!(matches!(&want, Err(ks) if ks.iter().any(|k| k.0 == *x.kind() && k.1)), ["C16", "C06"], "start_encoding failed with {:?}; expected {:?}", x.kind(), want);
        return Ok(())
    }
    let r = e.encode_all(&mut t);
    match (&r, &want) {
        (Ok(()), Ok(b)) => { ck!(t.sink == *b, ["C16"], "encode_all wrote {:?}; expected {:?}", t.sink, b); ck!(e.is_idle(), ["C16"], "encode_all left the encoder busy"); }
        (Ok(()), Err(ks)) => return Err(fail(&["C16"], format!("encode_all succeeded with {:?}; expected an error {:?}", t.sink, ks))),
        (Err(x), _) => {
            let k = *x.kind();
            let stream = matches!(t.wlog.last(), Some(Got::Fail(x)) if *x != io::ErrorKind::Interrupted && kind_of(*x) == k);
            let full = t.wlog.last() == Some(&Got::N(0)) && k == kind_of(io::ErrorKind::WriteZero);
            let item = matches!(&want, Err(ks) if ks.iter().any(|y| y.0 == k));
            ck!(stream || full || item, ["C16"], "encode_all failed with {:?} after {:?}; expected {:?}", k, t.wlog, want);
            if let Ok(b) = &want { ck!(t.sink.len() <= b.len() && t.sink == b[..t.sink.len()], ["C16"], "encode_all wrote {:?}; expected {:?}", t.sink, b); }
        }
    }
    Ok(())
}
fn into_bytes(h: &crate::enc::H, v: &Val) -> Ck {
    use crate::enc::{build, den};
    let mut e = build(h);
    let want = den(h, v, 1 << 20);
    match (e.encode_into_bytes(v.clone()), &want) {
        (Ok(x), Ok(b)) => ck!(x == *b, ["C16"], "encode_into_bytes gave {:?}; expected {:?}", x, b),
        (Ok(x), Err(ks)) => return Err(fail(&["C16"], format!("encode_into_bytes gave {:?}; expected an error {:?}", x, ks))),
        (Err(x), w) => ck!(matches!(w, Err(ks) if ks.iter().any(|y| y.0 == *x.kind())), ["C16"], "encode_into_bytes failed with {:?}; expected {:?}", x.kind(), w),
    }
    Ok(())
}
pub fn helpers(c: &mut crate::Ctx, n: usize) {
    let mut r = Rng::new(c.seed ^ 0xC16);
    for _ in 0..n {
        if c.full() { return }
        let depth = r.range(0, 2);
        let g = crate::dec::gen(&mut r, depth, None);
        // a decoder that does not come to rest by itself never returns from decode_exact without an end; these are covered by their streams ending
        for _ in 0..4 {
            let sn = r.below(12); let s = stream(&mut r, sn);
            let fails = r.chance(1, 4);
            let rops = ops(&mut r, fails, false);
            let twice = r.chance(1, 2);
            c.case("decode_exact", &[], &|| format!("decode_exact {:?} of {:?} read as {:?} twice {}", g, s, rops, twice), &mut || exact(&g, &s, &rops, twice, None));
            if c.full() { return }
            if r.chance(1, 3) && !crate::dec::has(&g, &|x| matches!(x, crate::dec::G::Max(..))) {
                let q = r.below(9) as u64;
                c.case("decode_exact of a slice", &[], &|| format!("decode_exact {:?} of {:?} read as {:?} twice {} with {} bytes consumable", g, s, rops, twice, q), &mut || exact(&g, &s, &rops, twice, Some(q)));
            }
            if c.full() { return }
            c.case("decode_from_bytes", &[], &|| format!("decode_from_bytes {:?} of {:?}", g, s), &mut || whole(&g, &s));
            if c.full() { return }
        }
        let h = crate::enc::gen(&mut r, depth, None);
        if crate::enc::infinite(&h) { continue }
        for _ in 0..4 {
            let v = crate::enc::item(&h, &mut r);
            let fails = r.chance(1, 3);
            let wops = ops(&mut r, fails, false);
            let room = if r.chance(1, 4) { r.below(10) } else { 1 << 20 };
            c.case("encode_all", &[], &|| format!("encode_all {:?} of {:?} written as {:?} room {}", h, v, wops, room), &mut || write_all(&h, &v, &wops, room));
            if c.full() { return }
            c.case("encode_into_bytes", &[], &|| format!("encode_into_bytes {:?} of {:?}", h, v), &mut || into_bytes(&h, &v));
            if c.full() { return }
        }
        {
            let want = if r.chance(1, 8) { 1 + r.below(5000) } else { r.below(12) };
            let asks: Vec<u8> = (0..r.range(1, 6)).map(|_| r.below(5) as u8).collect();
            let gives: Vec<usize> = (0..r.range(1, 4)).map(|_| r.range(1, if want > 12 { 2000 } else { 5 })).collect();
            c.case("decode_exact requests", &[], &|| format!("an item of {} bytes asked for as {:?} (0: Unknown, 1: Finite(0), 2: one byte, 3: half, 4: all), read by at most {:?} bytes a call", want, asks, gives), &mut || asked(want, &asks, &gives));
            if c.full() { return }
        }
        // items around the size of the helpers' own buffers
        if r.chance(1, 4) {
            let len = [1023usize, 1024, 1025, 2047, 2048, 2500][r.below(6)];
            let data: Vec<u8> = (0..len).map(|_| r.byte()).collect();
            let wops = ops(&mut r, false, false);
            let step = [1usize, 100, 1024, 5000][r.below(4)];
            let asks: Vec<u8> = (0..r.range(1, 4)).map(|_| r.below(4) as u8).collect();
            c.case("long items", &[], &|| format!("{} bytes, {} a call, {:?}", len, step, wops), &mut || {
                use bytecodec::bytes::*;
                let mut e = BytesEncoder::with_item(data.clone()).map_err(|e| fail(&["C16"], format!("{:?}", e.kind())))?;
                let mut t = Script::new(vec![], vec![], 1 << 20, wops.clone());
                ck!(e.encode_all(&mut t).is_ok() && t.sink == data, ["C16"], "encode_all wrote {} of {} bytes", t.sink.len(), len);
                let b = BytesEncoder::new().encode_into_bytes(data.clone());
                ck!(matches!(&b, Ok(b) if *b == data), ["C16"], "encode_into_bytes of {} bytes", len);
                let mut e = RecE { data: data.clone(), pos: 0, step, rooms: vec![], ends: vec![], fail: None };
                let mut t = Script::new(vec![], vec![], 1 << 20, wops.clone());
                ck!(e.encode_all(&mut t).is_ok() && t.sink == data, ["C16"], "encode_all wrote {} of {} bytes", t.sink.len(), len);
                let mut e = PickyE { data: data.clone(), pos: 0, step, asks: asks.clone(), calls: 0 };
                let mut t = Script::new(vec![], vec![], 1 << 20, wops.clone());
                let x = e.encode_all(&mut t).map_err(|e| *e.kind());
                ck!(x.is_ok() && t.sink == data, ["C16"], "encode_all wrote {} of {} bytes ({:?})", t.sink.len(), len, x);
                let mut s = data.clone(); s.extend_from_slice(b"tail");
                let mut t = Script::new(s, wops.clone(), 0, vec![]);
                let x = RemainingBytesDecoder::new().length(len as u64).decode_exact(&mut t);
                ck!(matches!(&x, Ok(x) if *x == data) && t.pos == len, ["C16"], "decode_exact took {} of {} bytes", t.pos, len);
                // unknown byte counts, more bytes than any buffer on the way
                if len % 2 == 1 {
                    let big: Vec<u8> = data.iter().cycle().take(70000 + len).cloned().collect();
                    let x = bytecodec::fixnum::U8Encoder::new().repeat::<std::vec::IntoIter<u8>>().encode_into_bytes(big.clone().into_iter());
                    ck!(matches!(&x, Ok(b) if *b == big), ["C16"], "encode_into_bytes of {} numbers gave {:?}", big.len(), x.map(|b| b.len()).map_err(|e| *e.kind()));
                    let mut e = PickyE { data: big.clone(), pos: 0, step: 1 << 20, asks: vec![0], calls: 0 };
                    let mut out = vec![];
                    let x = e.encode_all(&mut out).map_err(|e| *e.kind());
                    ck!(x.is_ok() && out == big, ["C16"], "encode_all wrote {} of {} bytes ({:?})", out.len(), big.len(), x);
                }
                // making an encoder from an item that is no item fails
                let x = bytecodec::fixnum::U24beEncoder::with_item((1 << 24) + len as u32).map(|_| ()).map_err(|e| *e.kind());
                ck!(x == Err(ErrorKind::InvalidInput), ["C16", "C03"], "with_item of a number that does not fit gave {:?}", x);
                // an item without an end cannot be turned into bytes
                let x = bytecodec::padding::PaddingEncoder::new().encode_into_bytes(len as u8).map(|b| b.len()).map_err(|e| *e.kind());
                ck!(x == Err(ErrorKind::InvalidInput), ["C16", "C21"], "encode_into_bytes of endless padding gave {:?}", x);
                Ok(())
            });
        }
    }
}

/// a monolithic decoder that takes `n` bytes (or all) in pieces of `step`, and fails if told so
struct Mono { n: Option<usize>, step: usize, fail: Option<ErrorKind>, calls: std::cell::RefCell<Vec<Vec<u8>>> }
impl MonolithicDecode for Mono {
    type Item = Vec<u8>;
    fn monolithic_decode<R: Read>(&self, mut reader: R) -> bytecodec::Result<Vec<u8>> {
        let mut v = vec![];
        let mut b = vec![0; self.step];
        loop {
            let m = match self.n { Some(n) => (n - v.len()).min(self.step), None => self.step };
            if m == 0 { break }
            let k = reader.read(&mut b[..m]).map_err(Error::from)?;
            if k == 0 { break }
            v.extend_from_slice(&b[..k]);
        }
        self.calls.borrow_mut().push(v.clone());
        match self.fail { Some(k) => Err(k.into()), None => Ok(v) }
    }
}
fn mono_dec(items: &[Vec<u8>], n: Option<usize>, step: usize, cut: &[usize], fail_at: Option<usize>) -> Ck {
    let mut d = MonolithicDecoder::new(Mono { n, step, fail: None, calls: Default::default() });
    let mut ci = 0;
    for (i, s) in items.iter().enumerate() {
        let mut p = 0;
        ck!(!d.is_idle() && d.requiring_bytes() == ByteCount::Unknown, ["C18", "C05"], "item {}: not fresh", i);
        match d.finish_decoding() { Err(e) => ck!(*e.kind() == ErrorKind::IncompleteDecoding, ["C18", "C06"], "finish without an item: {:?}", e.kind()), Ok(_) => return Err(fail(&["C18", "C06"], "an item without an end of stream".into())) }
        let fails = fail_at == Some(i);
        d.inner_mut().fail = if fails { Some(ErrorKind::InvalidInput) } else { None };
        loop {
            let c = cut[ci % cut.len()].min(s.len() - p);
            ci += 1;
            // the end may come with the last bytes or after them
            let end = p + c == s.len() && (cut[ci % cut.len()] % 2 == 0 || c == 0);
            let kept = p;
            match d.decode(&s[p..p + c], Eos::new(end)) {
                Ok(k) => {
                    if !end {
                        ck!(k == c, ["C18", "C01"], "took {} of {} bytes before the end", k, c);
                        ck!(!d.is_idle(), ["C18"], "an item before the end of the stream");
                        p += k;
                        continue;
                    }
                    ck!(!fails, ["C18"], "the wrapped decoder's error was lost");
                    ck!(d.is_idle() && d.requiring_bytes() == ByteCount::Finite(0), ["C18", "C05"], "no item at the end");
                    let taken = n.unwrap_or(usize::MAX).min(s.len());
                    ck!(kept + k >= taken && k <= c && k <= taken.saturating_sub(kept), ["C18", "C01"], "reported {} bytes of the last {}, {} kept; the item uses {}", k, c, kept, taken);
                    ck!(d.inner_ref().calls.borrow().last().map(|v| v[..] == s[..taken]) == Some(true), ["C18"], "item {}: the wrapped decoder saw {:?} of {:?}", i, d.inner_ref().calls.borrow().last(), s);
                    ck!(matches!(d.decode(b"zz", Eos::new(true)), Ok(0)), ["C18", "C05"], "an idle decoder took bytes");
                    let x = d.finish_decoding();
                    ck!(matches!(&x, Ok(v) if v[..] == s[..taken]), ["C18"], "item {}: {:?}, expected {:?}", i, x.map_err(|e| *e.kind()), &s[..taken]);
                    ck!(d.inner_ref().calls.borrow().len() == 1, ["C18"], "the wrapped decoder was called {} times", d.inner_ref().calls.borrow().len());
                    d.inner_mut().calls.borrow_mut().clear();
                    break;
                }
                Err(e) => {
                    ck!(fails && end, ["C18"], "decode failed with {:?}", e.kind());
                    ck!(*e.kind() == ErrorKind::InvalidInput, ["C18", "C21"], "the wrapped error became {:?}", e.kind());
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}
struct MonoE { step: usize, fail: Option<ErrorKind>, calls: std::cell::Cell<usize>, flush: bool }
impl MonolithicEncode for MonoE {
    type Item = Vec<u8>;
    fn monolithic_encode<W: Write>(&self, item: &Vec<u8>, mut writer: W) -> bytecodec::Result<()> {
        self.calls.set(self.calls.get() + 1);
        for c in item.chunks(self.step) { writer.write_all(c).map_err(Error::from)?; if self.flush { writer.flush().map_err(Error::from)?; } }
        match self.fail { Some(k) => Err(k.into()), None => Ok(()) }
    }
}
fn mono_enc(items: &[Vec<u8>], step: usize, flush: bool, cut: &[usize], room: usize, fail_at: Option<usize>) -> Ck {
    let mut e = MonolithicEncoder::new(MonoE { step, fail: None, calls: Default::default(), flush });
    let mut ci = 0;
    let mut left = room;
    for (i, s) in items.iter().enumerate() {
        ck!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0), ["C18", "C05"], "item {}: busy before it was started", i);
        e.inner_mut().calls.set(0);
        let fails = fail_at == Some(i);
        e.inner_mut().fail = if fails { Some(ErrorKind::InvalidInput) } else { None };
        ck!(e.start_encoding(s.clone()).is_ok() && !e.is_idle(), ["C18", "C06"], "start_encoding");
        ck!(matches!(e.start_encoding(s.clone()), Err(x) if *x.kind() == ErrorKind::EncoderFull), ["C18", "C06"], "start_encoding while busy");
        let mut out = vec![];
        let mut n = 0;
        loop {
            n += 1;
            ck!(n < 4 * s.len() + 40, ["C18"], "no progress");
            let c = if n > 2 * s.len() + 20 { 16 } else { cut[ci % cut.len()] }.min(left - out.len());
            ci += 1;
            let end = left - out.len() == c;
            let mut b = vec![0xA5; c];
            if let ByteCount::Finite(q) = e.requiring_bytes() { ck!(q as usize == s.len() - out.len(), ["C05", "C18"], "requiring {} with {} bytes left", q, s.len() - out.len()); }
            match e.encode(&mut b, Eos::new(end)) {
                Ok(k) => {
                    ck!(!fails, ["C18"], "the wrapped encoder's error was lost");
                    ck!(k <= c && b[k..].iter().all(|x| *x == 0xA5), ["C01", "C18"], "bytes beyond the reported ones were changed");
                    out.extend_from_slice(&b[..k]);
                    ck!(out.len() <= s.len() && out == s[..out.len()], ["C18", "C02"], "item {}: wrote {:?} of {:?}", i, out, s);
                    if e.is_idle() { break }
                    ck!(matches!(e.start_encoding(vec![0x77]), Err(x) if *x.kind() == ErrorKind::EncoderFull), ["C18", "C06"], "item {}: start_encoding accepted after {} of {} bytes", i, out.len(), s.len());
                    ck!(k == c, ["C01", "C18"], "{} of {} bytes written, unfinished", k, c);
                    ck!(!end, ["C18", "C06"], "the stream ended after {} of {} bytes without an error", out.len(), s.len());
                }
                Err(x) => {
                    let k = *x.kind();
                    if fails { ck!(k == ErrorKind::InvalidInput, ["C18", "C21"], "the wrapped error became {:?}", k); }
                    else { ck!(end && k == ErrorKind::UnexpectedEos && s.len() > left, ["C18"], "item {}: encode failed with {:?} after {} of {} bytes, room {}", i, k, out.len(), s.len(), left); }
                    return Ok(());
                }
            }
        }
        ck!(out == *s, ["C18", "C02"], "item {}: wrote {:?}, expected {:?}", i, out, s);
        ck!(e.inner_ref().calls.get() == 1, ["C18"], "the wrapped encoder was called {} times", e.inner_ref().calls.get());
        left -= out.len();
    }
    Ok(())
}
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
struct Rich { a: u32, b: String, c: Vec<Option<i16>>, d: (bool, u8), e: std::collections::BTreeMap<String, u64> }
fn rich(r: &mut Rng) -> Rich {
    let n = r.below(6); let b = String::from_utf8(utf8(r, n)).unwrap();
    Rich { a: r.next() as u32, b, c: (0..r.below(4)).map(|_| if r.chance(1, 2) { None } else { Some(r.next() as i16) }).collect(), d: (r.chance(1, 2), r.byte()), e: (0..r.below(3)).map(|i| (format!("k{}", i), r.next() >> 20)).collect() }
}
fn serial<D: Decode<Item = Rich>, E: Encode<Item = Rich>>(mut d: D, mut e: E, x: &[Rich], plain: &dyn Fn(&Rich) -> Vec<u8>, cut: &[usize], spoil: Option<usize>, what: &str) -> Ck {
    for v in x {
        let want = plain(v);
        if let Err(er) = e.start_encoding(v.clone()) { return Err(fail(&["C18"], format!("{}: start {:?}", what, er.kind()))) }
        let out = match crate::leafs::drain(&mut e, cut, 0, 1 << 20) { Ok(o) => o, Err(er) => return Err(fail(&["C18"], format!("{}: encode {:?}", what, er.kind()))) };
        ck!(out == want, ["C18"], "{}: wrote {:?}, expected {:?}", what, out, want);
        let mut s = out;
        if let Some(k) = spoil { let n = k % (s.len() + 1); s.truncate(n); }
        let mut p = 0; let mut ci = 0; let mut res = Ok(0);
        loop {
            let c = cut[ci % cut.len()].min(s.len() - p);
            ci += 1;
            let end = p + c == s.len();
            res = d.decode(&s[p..p + c], Eos::new(end)); p += c;
            if end || res.is_err() { break }
        }
        if s == want {
            ck!(res.is_ok() && d.is_idle(), ["C18"], "{}: decode {:?}", what, res.map_err(|e| *e.kind()));
            let y = d.finish_decoding();
            ck!(matches!(&y, Ok(y) if y == v), ["C18"], "{}: {:?} came back as {:?}", what, v, y.map_err(|e| *e.kind()));
            // bytes after the item: binary items leave them, a text is one document
            if cut[0] % 2 == 0 {
                let (n, tail) = (s.len(), [" ", "\n\t ", " 1", "x", "}", ","][ci % 6]);
                s.extend_from_slice(tail.as_bytes());
                let r = d.decode(&s, Eos::new(true)).map_err(|e| *e.kind());
                if what == "bincode" || ci % 6 < 2 {
                    ck!(r == Ok(if what == "json" { s.len() } else { n }), ["C18"], "{}: the item and {:?} in one call: {:?}", what, tail, r);
                    let y = d.finish_decoding();
                    ck!(matches!(&y, Ok(y) if y == v), ["C18"], "{}: {:?} came back as {:?}", what, v, y.map_err(|e| *e.kind()));
                } else {
                    ck!(r == Err(ErrorKind::InvalidInput), ["C18", "C21"], "{}: the item and {:?} in one call: {:?}", what, tail, r);
                    return Ok(());
                }
            }
        } else {
            ck!(matches!(&res, Err(e) if *e.kind() == ErrorKind::InvalidInput), ["C18", "C21"], "{}: {:?} of {:?} was decoded: {:?}", what, s, want, res.map_err(|e| *e.kind()));
            return Ok(());
        }
    }
    Ok(())
}
pub fn mono(c: &mut crate::Ctx, n: usize) {
    let mut r = Rng::new(c.seed ^ 0xC18);
    for _ in 0..n * 2 {
        if c.full() { return }
        let long = r.chance(1, 40);
        let items: Vec<Vec<u8>> = (0..r.range(1, 3)).map(|_| { let n = match r.below(8) { 0 => 0, 1 if long => crate::long::size(&mut r), 5..=7 if long => r.range(500, 5000), 1 => r.range(30, 200), _ => r.below(10) }; stream(&mut r, n) }).collect();
        let style = r.below(3);
        let cut: Vec<usize> = (0..9).map(|_| match style { 0 => 1, 1 => r.below(4), _ => r.below(if long { 5000 } else { 40 }) }).chain(if long { [4096, 4095] } else { [1, 2] }).collect();
        let step = [1usize, 2, 7, 64][r.below(4)];
        let take = if r.chance(1, 3) { Some(r.below(8)) } else { None };
        let fail_at = if r.chance(1, 4) { Some(r.below(items.len())) } else { None };
        c.case("monolithic decode", &["C18"], &|| format!("{:?} cuts {:?}, the wrapped decoder takes {:?} in pieces of {}, fails at {:?}", items, cut, take, step, fail_at), &mut || mono_dec(&items, take, step, &cut, fail_at));
        if c.full() { return }
        let room = if r.chance(1, 3) { r.below(if long { 9000 } else { 30 }) } else { 1 << 20 };
        let fl = r.chance(1, 2);
        c.case("monolithic encode", &["C18"], &|| format!("{:?} cuts {:?} room {}, the wrapped encoder writes pieces of {}, fails at {:?}", items, cut, room, step, fail_at), &mut || mono_enc(&items, step, fl, &cut, room, fail_at));
        if c.full() { return }
        let x: Vec<Rich> = (0..r.range(1, 2)).map(|_| rich(&mut r)).collect();
        let spoil = if r.chance(1, 3) { Some(r.below(1000)) } else { None };
        c.case("bincode", &["C18"], &|| format!("{:?} cuts {:?} cut short {:?}", x, cut, spoil), &mut || serial(bytecodec::bincode_codec::BincodeDecoder::new(), bytecodec::bincode_codec::BincodeEncoder::new(), &x, &|v| bincode::serialize(v).unwrap(), &cut, spoil, "bincode"));
        if c.full() { return }
        c.case("json", &["C18"], &|| format!("{:?} cuts {:?} cut short {:?}", x, cut, spoil), &mut || serial(bytecodec::json_codec::JsonDecoder::new(), bytecodec::json_codec::JsonEncoder::new(), &x, &|v| serde_json::to_vec(v).unwrap(), &cut, spoil, "json"));
    }
}
