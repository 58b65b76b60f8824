//! Items and streams longer than any buffer size in the code under test, against closed forms.
use crate::ck;
use crate::util::*;
use bytecodec::bytes::*;
use bytecodec::fixnum::*;
use bytecodec::padding::*;
use bytecodec::tuple::*;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};

pub fn size(r: &mut Rng) -> usize {
    let b = [255usize, 511, 1023, 2047, 4095, 8191, 16383, 32767, 65535, 70000][if r.chance(1, 6) { r.below(10) } else { r.below(6) }];
    b + r.below(3)
}
fn piece(r: &mut Rng, n: usize) -> usize { match r.below(6) { 0 => r.below(4), 1 => 512 + r.below(2), 2 => 1024, 3 => 4096 + r.below(3), 4 => n, _ => r.below(n + 1) } }
fn data(r: &mut Rng, n: usize) -> Vec<u8> { let a = r.byte(); let b = r.byte() | 1; (0..n).map(|i| a.wrapping_add(b.wrapping_mul((i ^ (i >> 8)) as u8))).collect() }
fn text(r: &mut Rng, n: usize) -> Vec<u8> { utf8(r, n) }

/// feeds s (and, if `ends`, its end); bytes taken until the decoder is idle
fn feed<D: Decode>(d: &mut D, s: &[u8], ends: bool, r: &mut Rng) -> Result<usize, ErrorKind> {
    let mut pos = 0;
    let mut calls = 0;
    let told = r.chance(1, 2);
    while !d.is_idle() {
        calls += 1;
        assert!(calls < 200_000, "no progress");
        let c = piece(r, s.len()).min(s.len() - pos) + if calls > 1000 { (s.len() - pos).min(4096) } else { 0 };
        let c = c.min(s.len() - pos);
        let after = s.len() - pos - c;
        let eos = if ends && told { Eos::with_remaining_bytes(ByteCount::Finite(after as u64)) } else { Eos::new(ends && after == 0) };
        let n = d.decode(&s[pos..pos + c], eos).map_err(|e| *e.kind())?;
        assert!(n <= c, "consumed {} of {}", n, c);
        if !d.is_idle() { assert!(n == c, "consumed {} of {} and is not idle", n, c) }
        pos += n;
        if pos == s.len() && !ends { break }
    }
    Ok(pos)
}
/// all that an encoder writes when the stream has `room`
fn drain<E: Encode>(e: &mut E, room: usize, ends: bool, r: &mut Rng) -> Result<Vec<u8>, ErrorKind> {
    let mut out = vec![];
    let mut calls = 0;
    while !e.is_idle() {
        calls += 1;
        assert!(calls < 200_000, "no progress");
        let c = (piece(r, room) + if calls > 1000 { 4096 } else { 0 }).min(room - out.len());
        let mut b = vec![0xEE; c];
        let n = e.encode(&mut b, Eos::new(ends && c == room - out.len())).map_err(|e| *e.kind())?;
        assert!(n <= c, "wrote {} of {}", n, c);
        if !e.is_idle() { assert!(n == c, "wrote {} of {} and is not idle", n, c) }
        out.extend_from_slice(&b[..n]);
        if out.len() == room && !ends { break }
    }
    Ok(out)
}
fn same(tag: &'static str, got: &[u8], want: &[u8], what: &str) -> Ck {
    ck!(got == want, [tag, "C02"], "{}: {} bytes, expected {}; first difference at {:?}", what, got.len(), want.len(), got.iter().zip(want).position(|(a, b)| a != b));
    Ok(())
}
fn bad<T>(tag: &'static str, what: &str, x: Result<T, ErrorKind>) -> Ck { Err(fail(&[tag, "C02"], format!("{}: {:?}", what, x.map(|_| ())))) }

fn padding(n: usize, r: &mut Rng) -> Ck {
    let fill = r.byte();
    let at = if r.chance(1, 2) { Some(r.below(n)) } else { None };
    let mut s = vec![fill; n];
    if let Some(i) = at { s[i] ^= 1 << r.below(8) }
    let mut d = PaddingDecoder::new(Some(fill));
    for _ in 0..2 {
        match (feed(&mut d, &s, true, r), at) {
            (Ok(k), None) => { ck!(k == n && d.finish_decoding().is_ok(), ["C20"], "took {} of {} bytes of padding", k, n); }
            (Ok(_), Some(i)) => return Err(fail(&["C20"], format!("a different byte at {} of {} was accepted", i, n))),
            (Err(ErrorKind::InvalidInput), Some(_)) => break,
            (Err(k), _) => return bad("C20", "padding", Err::<(), _>(k)),
        }
    }
    let mut e = PaddingEncoder::new();
    for i in 0..2u8 {
        ck!(e.start_encoding(fill ^ i).is_ok(), ["C20"], "start_encoding");
        match drain(&mut e, n, true, r) { Ok(b) => same("C20", &b, &vec![fill ^ i; n], "padding")?, x => return bad("C20", "padding", x) }
    }
    Ok(())
}
/// expected byte and reading of a padding decoder, changed at any time
fn padding_history(_: usize, r: &mut Rng) -> Ck {
    let mut want = if r.chance(1, 3) { None } else { Some(r.below(3) as u8) };
    let mut done = false;
    let mut d = PaddingDecoder::new(want);
    for _ in 0..r.range(1, 14) {
        match r.below(4) {
            0 => { want = if r.chance(1, 3) { None } else { Some(r.below(3) as u8) }; d.set_expected_byte(want); }
            1 => {
                let x = d.finish_decoding().map_err(|e| *e.kind());
                ck!(x == if done { Ok(()) } else { Err(ErrorKind::IncompleteDecoding) }, ["C20", "C06"], "finish_decoding gave {:?} (ended: {})", x, done);
                done = false;
            }
            _ => {
                let b = vec![want.unwrap_or(r.below(3) as u8) ^ r.chance(1, 10) as u8; r.below(4)];
                let end = r.chance(1, 3);
                let x = d.decode(&b, Eos::new(end)).map_err(|e| *e.kind());
                if done { ck!(x == Ok(0), ["C20", "C05"], "an idle decoder gave {:?}", x); }
                else if want.map_or(false, |w| b.iter().any(|y| *y != w)) { ck!(x == Err(ErrorKind::InvalidInput), ["C20"], "{:?} with {:?} expected gave {:?}", b, want, x); return Ok(()) }
                else { ck!(x == Ok(b.len()), ["C20", "C01"], "{:?} with {:?} expected gave {:?}", b, want, x); done = end; }
            }
        }
        ck!(d.expected_byte() == want, ["C20"], "expected_byte {:?}, was set to {:?}", d.expected_byte(), want);
        ck!(d.is_idle() == done && d.requiring_bytes() == if done { ByteCount::Finite(0) } else { ByteCount::Infinite }, ["C20", "C05"], "is_idle {} (ended: {})", d.is_idle(), done);
    }
    Ok(())
}
fn bytes(n: usize, r: &mut Rng) -> Ck {
    let s = data(r, n);
    let s2 = data(r, 3);
    let mut e = BytesEncoder::new();
    for x in [&s, &s2, &s] {
        ck!(e.start_encoding(x.clone()).is_ok() && e.exact_requiring_bytes() == x.len() as u64, ["C04", "C05"], "start_encoding");
        let (room, ends) = (x.len() + r.below(5), r.chance(1, 2));
        match drain(&mut e, room, ends, r) { Ok(b) => same("C04", &b, x, "bytes")?, y => return bad("C04", "bytes", y) }
    }
    if n > 0 { let _ = e.start_encoding(s.clone()); let room = r.below(n); match drain(&mut e, room, true, r) { Err(ErrorKind::UnexpectedEos) => {} y => return bad("C06", "a stream that ends early", y) } }
    let mut d = BytesDecoder::new(vec![1; n]);
    let mut t = s.clone(); t.extend_from_slice(&s2);
    match feed(&mut d, &t, r.chance(1, 2), r) { Ok(k) if k == n => same("C04", &d.finish_decoding().unwrap(), &s, "bytes")?, y => return bad("C04", "bytes", y) }
    let mut d = RemainingBytesDecoder::new();
    for x in [&s, &s2, &s] {
        match feed(&mut d, x, true, r) { Ok(k) if k == x.len() => same("C04", &d.finish_decoding().unwrap(), x, "remaining bytes")?, y => return bad("C04", "remaining bytes", y) }
    }
    let mut u = text(r, n);
    let mut e = Utf8Encoder::<String>::new();
    ck!(e.start_encoding(String::from_utf8(u.clone()).unwrap()).is_ok(), ["C04"], "start_encoding");
    match drain(&mut e, u.len(), true, r) { Ok(b) => same("C04", &b, &u, "string")?, y => return bad("C04", "string", y) }
    if r.chance(1, 2) && !u.is_empty() { let i = r.below(u.len()); u[i] = 0x80 | r.byte() }
    let mut d = Utf8Decoder::new();
    for _ in 0..2 {
        match feed(&mut d, &u, true, r) { Ok(k) if k == u.len() => {}, y => return bad("C04", "string", y) }
        let x = d.finish_decoding().map_err(|e| *e.kind());
        match String::from_utf8(u.clone()) { Ok(w) => ck!(x == Ok(w), ["C04"], "a string of {} bytes", u.len()), Err(_) => ck!(x.is_err() && x.clone().err() == Some(ErrorKind::InvalidInput), ["C04"], "{} bytes that are no UTF-8 gave {:?}", u.len(), x.map(|y| y.len())) }
    }
    Ok(())
}
fn collects(n: usize, r: &mut Rng) -> Ck {
    let s = data(r, n & !1);
    let want: Vec<u16> = s.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
    let mut d = U16beDecoder::new().collect::<Vec<u16>>();
    for _ in 0..2 { match feed(&mut d, &s, true, r) { Ok(k) if k == s.len() => { let x = d.finish_decoding().map_err(|e| *e.kind()); ck!(x.as_ref() == Ok(&want), ["C10", "C02"], "{} items of {}", x.map_or(0, |v| v.len()), want.len()); } y => return bad("C10", "collect", y) } }
    let mut d = U16beDecoder::new().collectn::<Vec<u16>>(want.len());
    let mut t = s.clone(); t.extend_from_slice(b"tail");
    match feed(&mut d, &t, false, r) { Ok(k) if k == s.len() => { let x = d.finish_decoding().map_err(|e| *e.kind()); ck!(x.as_ref() == Ok(&want), ["C10", "C02"], "{} items of {}", x.map_or(0, |v| v.len()), want.len()); } y => return bad("C10", "collectn", y) }
    d.set_remaining_items(want.len() + 1);
    match feed(&mut d, &s, true, r) { Err(ErrorKind::UnexpectedEos) => Ok(()), y => bad("C10", "a missing item", y) }
}
fn repeats(n: usize, r: &mut Rng) -> Ck {
    let s = data(r, n & !1);
    let items: Vec<u16> = s.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
    let mut e = U16beEncoder::new().repeat::<std::vec::IntoIter<u16>>();
    for _ in 0..2 {
        ck!(e.start_encoding(items.clone().into_iter()).is_ok(), ["C12"], "start_encoding");
        let (room, ends) = (s.len() + 1 + r.below(3), r.chance(1, 2));
        match drain(&mut e, room, ends, r) { Ok(b) => same("C12", &b, &s, "repeat")?, y => return bad("C12", "repeat", y) }
    }
    Ok(())
}
fn limits(n: usize, r: &mut Rng) -> Ck {
    let s = data(r, n);
    let mut t = s.clone(); t.extend_from_slice(b"tail");
    let mut d = RemainingBytesDecoder::new().length(n as u64);
    for _ in 0..2 { match feed(&mut d, &t, r.chance(1, 2), r) { Ok(k) if k == n => same("C07", &d.finish_decoding().unwrap(), &s, "length")?, y => return bad("C07", "length", y) } }
    let mut e = BytesEncoder::new().length(n as u64);
    for _ in 0..2 {
        ck!(e.start_encoding(s.clone()).is_ok() && e.exact_requiring_bytes() == n as u64, ["C07", "C05"], "start_encoding");
        let (room, ends) = (n + r.below(3), r.chance(1, 2));
        match drain(&mut e, room, ends, r) { Ok(b) => same("C07", &b, &s, "length")?, y => return bad("C07", "length", y) }
    }
    let less = 1 + r.below(n);
    let mut e = BytesEncoder::new().length((n - less) as u64);
    let _ = e.start_encoding(s.clone());
    match drain(&mut e, n, false, r) { Err(ErrorKind::InvalidInput) | Err(ErrorKind::UnexpectedEos) => {} y => return bad("C07", "an item that is too long", y) }
    let mut d = BytesDecoder::new(vec![0; n]).max_bytes(n as u64);
    match feed(&mut d, &s, r.chance(1, 2), r) { Ok(k) if k == n => same("C08", &d.finish_decoding().unwrap(), &s, "max_bytes")?, y => return bad("C08", "max_bytes", y) }
    let mut d = RemainingBytesDecoder::new().max_bytes((n - less) as u64);
    match feed(&mut d, &s, true, r) { Err(ErrorKind::InvalidInput) => {} y => return bad("C08", "an item that is too long", y) }
    let mut e = BytesEncoder::new().max_bytes(n as u64);
    for _ in 0..2 {
        ck!(e.start_encoding(s.clone()).is_ok(), ["C08"], "start_encoding");
        match drain(&mut e, n, r.chance(1, 2), r) { Ok(b) => same("C08", &b, &s, "max_bytes")?, y => return bad("C08", "max_bytes", y) }
    }
    let mut e = BytesEncoder::new().max_bytes((n - less) as u64);
    let _ = e.start_encoding(s.clone());
    match drain(&mut e, n, false, r) { Err(ErrorKind::InvalidInput) => Ok(()), y => bad("C08", "an item that is too long", y) }
}
fn slices(n: usize, r: &mut Rng) -> Ck {
    let s = data(r, n);
    let mut d = BytesDecoder::new(vec![0; n]).slice();
    let mut e = BytesEncoder::with_item(s.clone()).map_err(|x| fail(&["C09"], format!("{:?}", x.kind())))?.slice();
    let mut pos = 0;
    let mut out = vec![];
    let mut calls = 0;
    while !d.is_idle() {
        calls += 1;
        ck!(calls < 10_000, ["C09"], "no progress");
        let q = if calls > 5000 { 4096 } else { let m = [3, 600, 5000, 70000][r.below(4)]; r.range(0, m) };
        d.set_consumable_bytes(q as u64);
        e.set_consumable_bytes(q as u64);
        ck!(d.is_suspended() == (q == 0), ["C09"], "is_suspended {} with a quota of {}", d.is_suspended(), q);
        let c = piece(r, n).min(n - pos);
        let k = c.min(q);
        let x = d.decode(&s[pos..pos + c], Eos::new(false)).map_err(|e| *e.kind());
        ck!(x == Ok(k) && d.consumable_bytes() == (q - k) as u64, ["C09", "C01"], "decode of {} bytes with a quota of {} gave {:?}, {} left", c, q, x, d.consumable_bytes());
        let mut b = vec![0xEE; c];
        let x = e.encode(&mut b, Eos::new(false)).map_err(|e| *e.kind());
        ck!(x == Ok(k) && e.consumable_bytes() == (q - k) as u64 && b[k..].iter().all(|y| *y == 0xEE), ["C09", "C01"], "encode into {} bytes with a quota of {} gave {:?}, {} left", c, q, x, e.consumable_bytes());
        out.extend_from_slice(&b[..k]);
        pos += k;
    }
    ck!(e.is_idle() && pos == n, ["C09"], "{} of {} bytes", pos, n);
    same("C09", &out, &s, "slice")?;
    same("C09", &d.finish_decoding().unwrap(), &s, "slice")
}
fn tuples(n: usize, r: &mut Rng) -> Ck {
    let (a, b, c) = (data(r, n), data(r, 300), data(r, 5));
    let mut d = TupleDecoder::new((RemainingBytesDecoder::new().length(n as u64), RemainingBytesDecoder::new().length(300), RemainingBytesDecoder::new()));
    let mut e = TupleEncoder::new((BytesEncoder::new(), BytesEncoder::new(), BytesEncoder::new()));
    for _ in 0..2 {
        let mut s = a.clone(); s.extend_from_slice(&b); s.extend_from_slice(&c);
        ck!(e.start_encoding((a.clone(), b.clone(), c.clone())).is_ok() && e.exact_requiring_bytes() == s.len() as u64, ["C11", "C05"], "start_encoding");
        match drain(&mut e, s.len(), r.chance(1, 2), r) { Ok(o) => same("C11", &o, &s, "tuple")?, y => return bad("C11", "tuple", y) }
        match feed(&mut d, &s, true, r) {
            Ok(k) if k == s.len() => { let (x, y, z) = match d.finish_decoding() { Ok(x) => x, Err(e) => return bad("C11", "tuple", Err::<(), _>(*e.kind())) }; same("C11", &x, &a, "component 0")?; same("C11", &y, &b, "component 1")?; same("C11", &z, &c, "component 2")?; }
            y => return bad("C11", "tuple", y),
        }
    }
    Ok(())
}
fn transforms(n: usize, r: &mut Rng) -> Ck {
    let s = data(r, n);
    let mut t = s.clone(); t.extend_from_slice(b"tail");
    let fixed = |n: usize| RemainingBytesDecoder::new().length(n as u64);
    let mut d = fixed(n).peekable();
    for _ in 0..2 { match feed(&mut d, &t, false, r) { Ok(k) if k == n => { ck!(d.peek().map(|x| x[..] == s[..]) == Some(true), ["C13"], "peek"); same("C13", &d.finish_decoding().unwrap(), &s, "peekable")?; } y => return bad("C13", "peekable", y) } }
    let mut d = fixed(n).maybe_eos();
    for _ in 0..2 { match feed(&mut d, &t, false, r) { Ok(k) if k == n => { same("C13", &d.finish_decoding().unwrap(), &s, "maybe_eos")?; } y => return bad("C13", "maybe_eos", y) } }
    ck!(matches!(d.decode(&[], Eos::new(true)), Ok(0)), ["C13"], "an end between items");
    let mut d = fixed(n).and_then(|x| RemainingBytesDecoder::new().length(x.len() as u64)).map(|x| x.len());
    let mut u = s.clone(); u.extend_from_slice(&t);
    for _ in 0..2 { match feed(&mut d, &u, false, r) { Ok(k) if k == 2 * n => { ck!(d.finish_decoding().ok() == Some(n), ["C13"], "and_then"); } y => return bad("C13", "and_then", y) } }
    let mut e = BytesEncoder::new().pre_encode();
    for _ in 0..2 {
        ck!(e.start_encoding(s.clone()).is_ok() && e.exact_requiring_bytes() == n as u64, ["C13", "C05"], "start_encoding");
        match drain(&mut e, n, r.chance(1, 2), r) { Ok(o) => same("C13", &o, &s, "pre_encode")?, y => return bad("C13", "pre_encode", y) }
    }
    let mut e = BytesEncoder::new().map_from(|x: u8| vec![x; 70000]).optional();
    let x = r.byte();
    ck!(e.start_encoding(Some(x)).is_ok(), ["C13"], "start_encoding");
    match drain(&mut e, 70000, r.chance(1, 2), r) { Ok(o) => same("C13", &o, &vec![x; 70000], "map_from, optional"), y => bad("C13", "map_from, optional", y) }
}

/// what a component says about itself
struct Say { req: ByteCount, idle: bool, exact: u64 }
impl Decode for Say {
    type Item = ();
    fn decode(&mut self, _: &[u8], _: Eos) -> bytecodec::Result<usize> { Ok(0) }
    fn finish_decoding(&mut self) -> bytecodec::Result<()> { Ok(()) }
    fn requiring_bytes(&self) -> ByteCount { self.req }
    fn is_idle(&self) -> bool { self.idle }
}
impl Encode for Say {
    type Item = ();
    fn encode(&mut self, _: &mut [u8], _: Eos) -> bytecodec::Result<usize> { Ok(0) }
    fn start_encoding(&mut self, _: ()) -> bytecodec::Result<()> { Ok(()) }
    fn requiring_bytes(&self) -> ByteCount { self.req }
    fn is_idle(&self) -> bool { self.idle }
}
impl SizedEncode for Say { fn exact_requiring_bytes(&self) -> u64 { self.exact } }
/// is_idle, requiring_bytes and exact_requiring_bytes of tuples follow from those of the components
fn sums(_: usize, r: &mut Rng) -> Ck {
    let n = r.range(2, 8);
    let num = |r: &mut Rng| match r.below(4) { 0 => 0, 1 => r.below(9) as u64, 2 => u64::MAX - r.below(9) as u64, _ => r.next() >> r.below(60) };
    let parts: Vec<(ByteCount, bool, u64)> = (0..n).map(|_| { let idle = r.chance(1, 2); let x = num(r); if idle { (ByteCount::Finite(0), true, 0) } else { (match r.below(5) { 0 => ByteCount::Unknown, 1 => ByteCount::Infinite, _ => ByteCount::Finite(x) }, false, x) } }).collect();
    let exact = parts.iter().fold(0u128, |a, p| a + p.2 as u128).min(u64::MAX as u128) as u64;
    let inf = parts.iter().any(|p| p.0 == ByteCount::Infinite);
    let unk = parts.iter().any(|p| p.0 == ByteCount::Unknown);
    let fin = parts.iter().fold(0u128, |a, p| a + p.0.to_u64().unwrap_or(0) as u128).min(u64::MAX as u128) as u64;
    let dec = if inf { ByteCount::Infinite } else if unk && fin == 0 { ByteCount::Unknown } else { ByteCount::Finite(fin) };
    let enc = if inf { ByteCount::Infinite } else if unk { ByteCount::Unknown } else { ByteCount::Finite(fin) };
    let idle = parts.iter().all(|p| p.1);
    let mut i = 0;
    let mut say = || { let p = parts[i]; i = (i + 1) % n; Say { req: p.0, idle: p.1, exact: p.2 } };
    macro_rules! t { ($($x:ident)*) => {{
        let d = TupleDecoder::new(($({ stringify!($x); say() },)*));
        let e = TupleEncoder::new(($({ stringify!($x); say() },)*));
        ck!(Decode::requiring_bytes(&d) == dec && Decode::is_idle(&d) == idle, ["C11", "C05"], "decoders {:?}: requires {:?} idle {}; expected {:?} {}", parts, Decode::requiring_bytes(&d), Decode::is_idle(&d), dec, idle);
        ck!(Encode::requiring_bytes(&e) == enc && Encode::is_idle(&e) == idle && e.exact_requiring_bytes() == exact, ["C11", "C05"], "encoders {:?}: requires {:?} idle {} exactly {}; expected {:?} {} {}", parts, Encode::requiring_bytes(&e), Encode::is_idle(&e), e.exact_requiring_bytes(), enc, idle, exact);
    }} }
    match n { 2 => t!(a b), 3 => t!(a b c), 4 => t!(a b c d), 5 => t!(a b c d e), 6 => t!(a b c d e f), 7 => t!(a b c d e f g), _ => t!(a b c d e f g h) }
    Ok(())
}

pub fn all(c: &mut crate::Ctx, p: &str, n: usize) {
    type F = fn(usize, &mut Rng) -> Ck;
    let l: [(&str, &[&str], usize, F); 10] = [
        ("padding history", &["C20", "C05", "C06"], 6, padding_history), ("tuple sums", &["C11", "C05"], 6, sums),
        ("long padding", &["C20"], 1, padding), ("long bytes", &["C04", "C01", "C02"], 1, bytes), ("long collections", &["C10"], 1, collects), ("long repetitions", &["C12"], 1, repeats),
        ("long limited items", &["C07", "C08"], 1, limits), ("long slices", &["C09"], 1, slices), ("long tuples", &["C11"], 1, tuples), ("long transformed items", &["C13"], 1, transforms),
    ];
    for (name, ps, w, f) in l {
        if !(p == "all" || ps.contains(&p)) { continue }
        let mut r = Rng::new(c.seed ^ name.bytes().fold(7u64, |a: u64, b| a.wrapping_mul(131).wrapping_add(b as u64)));
        for _ in 0..(n * w).div_ceil(12) {
            if c.full() { return }
            let (k, s) = (size(&mut r), r.next());
            c.case(name, &[], &|| format!("{} of {} bytes, case {}", name, k, s), &mut || f(k, &mut Rng::new(s)));
        }
    }
}
