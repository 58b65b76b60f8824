//! Leaf families: fixed-width numbers, byte and string codecs, padding, byte counts, errors.
use crate::ck;
use crate::util::*;
use bytecodec::bytes::*;
use bytecodec::fixnum::*;
use bytecodec::padding::*;
use bytecodec::slice::OwnedSlice;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind, SizedEncode};

/// end-of-stream marks of the chosen style for a call after which `after` bytes are still to come
pub fn mark(style: usize, after: usize) -> Eos {
    match style % 4 {
        0 => Eos::new(after == 0),
        1 => Eos::with_remaining_bytes(ByteCount::Finite(after as u64)),
        2 => Eos::new(false),
        _ => Eos::with_remaining_bytes(ByteCount::Unknown),
    }
}
/// feeds the whole of s in pieces; more: bytes of the stream that follow s
pub fn feed<D: Decode>(d: &mut D, s: &[u8], cuts: &[usize], style: usize, more: usize) -> Result<usize, Error> {
    let mut pos = 0;
    let mut i = 0;
    loop {
        let c = if i > 200 { s.len() - pos } else { cuts[i % cuts.len()].min(s.len() - pos) };
        i += 1;
        if i > 2000 { return Ok(pos) }
        let n = d.decode(&s[pos..pos + c], mark(style, s.len() - pos - c + more))?;
        assert!(n <= c, "decode consumed {} of {}", n, c);
        pos += n;
        if d.is_idle() || (pos == s.len() && i > 1) { return Ok(pos) }
    }
}
/// collects the output in pieces; room: bytes of the stream that are left in total
pub fn drain<E: Encode>(e: &mut E, cuts: &[usize], style: usize, room: usize) -> Result<Vec<u8>, Error> {
    let mut out = vec![];
    let mut i = 0;
    while !e.is_idle() {
        let c = cuts[i % cuts.len()].min(room - out.len());
        i += 1;
        if i > 5000 { break }
        let mut b = vec![0xEEu8; c];
        let n = e.encode(&mut b, mark(style, room - out.len() - c))?;
        assert!(n <= c, "encode wrote {} of {}", n, c);
        assert!(b[n..].iter().all(|x| *x == 0xEE), "encode changed bytes beyond those it reports");
        out.extend_from_slice(&b[..n]);
        if room == out.len() && c == 0 { break }
    }
    Ok(out)
}
pub fn cuts(r: &mut Rng) -> Vec<usize> { let s = r.below(3); (0..12).map(|_| match s { 0 => 1, 1 => r.below(4), _ => 64 }).collect::<Vec<_>>().into_iter().chain([1]).collect() }

const T3: [&str; 2] = ["C03", "C02"];
/// one fixed-width pair: value x is laid out as `want` (None: out of range)
fn number<D: Decode, E: SizedEncode<Item = D::Item>>(d: &mut D, e: &mut E, name: &str, x: D::Item, want: Option<Vec<u8>>, w: usize, bits: &dyn Fn(&D::Item) -> u64, x2: Option<D::Item>, c: &[usize], style: usize) -> Ck {
    let xb = bits(&x);
    beat(&|| format!("{} {:#x}", name, xb));
    match want {
        None => {
            match e.start_encoding(x) {
                Ok(()) => return Err(fail(&["C03"], format!("{}: {:#x} does not fit but was accepted", name, xb))),
                Err(k) => ck!(*k.kind() == ErrorKind::InvalidInput, ["C03"], "{}: {:#x} rejected with {:?}", name, xb, k.kind()),
            }
            ck!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0) && e.exact_requiring_bytes() == 0, ["C03"], "{}: a rejected value {:#x} left the encoder busy", name, xb);
            let mut b = [7u8; 10];
            ck!(matches!(e.encode(&mut b, Eos::new(true)), Ok(0)) && b == [7; 10], ["C03"], "{}: a rejected value {:#x} was written", name, xb);
            if let Some(y) = x2 { ck!(e.start_encoding(y).is_ok() && e.exact_requiring_bytes() == w as u64, ["C03"], "{}: encoder unusable after a rejected value", name); let _ = drain(e, &[64], 2, 100); }
        }
        Some(want) => {
            if let Err(k) = e.start_encoding(x) { return Err(fail(&["C03"], format!("{}: {:#x} was rejected with {:?}", name, xb, k.kind()))) }
            ck!(e.exact_requiring_bytes() == w as u64 && e.requiring_bytes() == ByteCount::Finite(w as u64) && !e.is_idle(), ["C05", "C03"], "{}: requires {:?} bytes", name, e.requiring_bytes());
            match drain(e, c, style, w + if style % 4 == 0 { 0 } else { 3 }) {
                Ok(out) => ck!(out == want, T3, "{}: {:#x} encoded as {:?}, expected {:?}", name, xb, out, want),
                Err(k) => return Err(fail(&T3, format!("{}: encoding {:#x} failed with {:?}", name, xb, k.kind()))),
            }
            ck!(d.requiring_bytes() == ByteCount::Finite(w as u64), ["C05", "C03"], "{}: decoder requires {:?}", name, d.requiring_bytes());
            let mut s = want.clone();
            s.extend([0xAB, 0xCD, 0xEF]);
            match feed(d, &s, c, style, 0) {
                Ok(n) => ck!(n == w && d.is_idle(), T3, "{}: decoder consumed {} of {:?}", name, n, s),
                Err(k) => return Err(fail(&T3, format!("{}: decoding {:?} failed with {:?}", name, s, k.kind()))),
            }
            match d.finish_decoding() {
                Ok(y) => ck!(bits(&y) == xb, T3, "{}: {:?} decoded as {:#x}, expected {:#x}", name, want, bits(&y), xb),
                Err(k) => return Err(fail(&T3, format!("{}: finish_decoding failed with {:?}", name, k.kind()))),
            }
            ck!(!d.is_idle(), ["C05", "C02"], "{}: decoder still idle after finish_decoding", name);
        }
    }
    Ok(())
}
fn lay(x: u64, w: usize, be: bool) -> Vec<u8> { let mut v: Vec<u8> = (0..w).map(|i| (x >> (8 * i)) as u8).collect(); if be { v.reverse() } v }
fn vals(bits: u32, r: &mut Rng, n: usize) -> Vec<u64> {
    let mut v = vec![0, 1, 0x7f, 0x80, 0xff, 0x0102030405060708, u64::MAX, 0x0123456789abcdef];
    for b in 0..64 { v.push(1u64 << b); v.push((1u64 << b) - 1); v.push(u64::MAX << b); }
    for _ in 0..n { v.push(r.next() >> r.below(64)); v.push(r.next()); v.push((0..8).fold(0, |a, i| a | (r.byte() as u64) << (8 * i))) }
    if bits <= 16 { v.extend(0..(1u64 << bits)) }
    v
}
pub fn fixnum(c: &mut crate::Ctx, n: usize) {
    let mut r = Rng::new(c.seed ^ 0xF1);
    macro_rules! t {
        ($d:ident, $e:ident, $ty:ty, $w:expr, $be:expr) => {{
            let mask = if $w == 8 { u64::MAX } else { (1u64 << ($w * 8)) - 1 };
            let tymask = if std::mem::size_of::<$ty>() == 8 { u64::MAX } else { (1u64 << (8 * std::mem::size_of::<$ty>())) - 1 };
            let mut d = $d::new(); let mut e = $e::new();
            for x in vals(if c.cases < 400000 { $w * 8 } else { 64 }, &mut r, n) {
                if c.full() { return }
                let x = x & tymask;
                let want = if x <= mask { Some(lay(x, $w, $be)) } else { None };
                let (cu, st) = (cuts(&mut r), r.below(4));
                let ok = c.case("fixed-width numbers", &["C03"], &|| format!("{}/{} value {:#x} cuts {:?} marks {}", stringify!($e), stringify!($d), x, cu, st), &mut || number(&mut d, &mut e, stringify!($e), x as $ty, want.clone(), $w, &|y| (*y as u64) & tymask, Some(5u8 as $ty), &cu, st));
                if !ok { break }
            }
        }};
    }
    macro_rules! f { ($d:ident, $e:ident, $ty:ident, $u:ty, $w:expr, $be:expr) => {{
        let mut d = $d::new(); let mut e = $e::new();
        let mut v = vals(64, &mut r, n);
        for y in [0.0, -0.0, 1.5, -2.25, 1e30, $ty::NAN, $ty::INFINITY, $ty::NEG_INFINITY, $ty::MIN_POSITIVE, $ty::EPSILON] { v.push(y.to_bits() as u64) }
        for x in v {
            if c.full() { return }
            let x = x as $u;
            let (cu, st) = (cuts(&mut r), r.below(4));
            let ok = c.case("fixed-width numbers", &["C03"], &|| format!("{}/{} bits {:#x} cuts {:?} marks {}", stringify!($e), stringify!($d), x, cu, st), &mut || number(&mut d, &mut e, stringify!($e), $ty::from_bits(x), Some(lay(x as u64, $w, $be)), $w, &|y| y.to_bits() as u64, None, &cu, st));
            if !ok { break }
        }
    }} }
    t!(U8Decoder, U8Encoder, u8, 1, true); t!(I8Decoder, I8Encoder, i8, 1, true);
    t!(U16beDecoder, U16beEncoder, u16, 2, true); t!(U16leDecoder, U16leEncoder, u16, 2, false);
    t!(I16beDecoder, I16beEncoder, i16, 2, true); t!(I16leDecoder, I16leEncoder, i16, 2, false);
    t!(U24beDecoder, U24beEncoder, u32, 3, true); t!(U24leDecoder, U24leEncoder, u32, 3, false);
    t!(U32beDecoder, U32beEncoder, u32, 4, true); t!(U32leDecoder, U32leEncoder, u32, 4, false);
    t!(I32beDecoder, I32beEncoder, i32, 4, true); t!(I32leDecoder, I32leEncoder, i32, 4, false);
    t!(U40beDecoder, U40beEncoder, u64, 5, true); t!(U40leDecoder, U40leEncoder, u64, 5, false);
    t!(U48beDecoder, U48beEncoder, u64, 6, true); t!(U48leDecoder, U48leEncoder, u64, 6, false);
    t!(U56beDecoder, U56beEncoder, u64, 7, true); t!(U56leDecoder, U56leEncoder, u64, 7, false);
    t!(U64beDecoder, U64beEncoder, u64, 8, true); t!(U64leDecoder, U64leEncoder, u64, 8, false);
    t!(I64beDecoder, I64beEncoder, i64, 8, true); t!(I64leDecoder, I64leEncoder, i64, 8, false);
    f!(F32beDecoder, F32beEncoder, f32, u32, 4, true); f!(F32leDecoder, F32leEncoder, f32, u32, 4, false);
    f!(F64beDecoder, F64beEncoder, f64, u64, 8, true); f!(F64leDecoder, F64leEncoder, f64, u64, 8, false);
}

// ---------------------------------------------------------------- bytes and strings
fn content(r: &mut Rng) -> Vec<u8> { let n = match r.below(6) { 0 => 0, 1 => r.range(9, 70), 2 => r.range(500, 1500), _ => r.below(9) }; stream(r, n) }
fn bytes_out<B: AsRef<[u8]>, N: SizedEncode<Item = B>>(e: &mut N, b: B, busy: B, room: Option<usize>, cu: &[usize], st: usize) -> Ck {
    let want = b.as_ref().to_vec();
    if let Err(k) = e.start_encoding(b) { return Err(fail(&["C04"], format!("start_encoding failed with {:?}", k.kind()))) }
    ck!(!e.is_idle() && e.exact_requiring_bytes() == want.len() as u64 && e.requiring_bytes() == ByteCount::Finite(want.len() as u64), ["C05", "C04"], "{} bytes to write but requiring {:?}, idle {}", want.len(), e.requiring_bytes(), e.is_idle());
    match e.start_encoding(busy) { Err(k) if *k.kind() == ErrorKind::EncoderFull => {} o => return Err(fail(&["C06"], format!("busy start_encoding gave {:?}", o.map_err(|k| *k.kind())))) }
    let room = room.unwrap_or(want.len() + 9);
    match drain(e, cu, st, room) {
        Ok(out) => if want.len() <= room { ck!(out == want && e.is_idle(), ["C04", "C02"], "wrote {:?}, expected {:?}", out, want) } else { return if st % 4 < 2 { Err(fail(&["C06", "C04"], format!("{} bytes do not fit into {} but no error was reported", want.len(), room))) } else { Ok(()) } },
        Err(k) => { ck!(want.len() > room && *k.kind() == ErrorKind::UnexpectedEos, ["C04", "C06"], "writing {} bytes into {} failed with {:?}", want.len(), room, k.kind()); return Ok(()) }
    }
    ck!(e.exact_requiring_bytes() == 0, ["C05"], "idle but requiring {:?}", e.requiring_bytes());
    Ok(())
}
fn fixed<const N: usize>(s: &[u8], cu: &[usize], st: usize) -> Ck {
    let mut d = CopyableBytesDecoder::new([0x11u8; N]);
    let mut pos = 0;
    for item in 0..3 {
        ck!(d.requiring_bytes() == ByteCount::Finite(N as u64) && d.is_idle() == (N == 0), ["C05", "C04"], "item {}: requires {:?}", item, d.requiring_bytes());
        if N > 0 { ck!(matches!(d.finish_decoding(), Err(ref k) if *k.kind() == ErrorKind::IncompleteDecoding), ["C06"], "finish_decoding of nothing") }
        match feed(&mut d, &s[pos..], cu, st, 0) {
            Err(k) => { ck!(s.len() - pos < N && *k.kind() == ErrorKind::UnexpectedEos, ["C04", "C06"], "decoding {} of {} bytes failed with {:?}", N, s.len() - pos, k.kind()); return Ok(()) }
            Ok(n) => {
                if s.len() - pos < N { ck!(st % 4 >= 2 && !d.is_idle(), ["C06"], "stream ended inside the item, no error"); return Ok(()) }
                ck!(n == N && d.is_idle(), ["C04", "C02"], "consumed {} of {} bytes", n, N);
                let v = d.finish_decoding();
                ck!(matches!(&v, Ok(b) if b[..] == s[pos..pos + N]), ["C04", "C02"], "item {}: got {:?}, expected {:?}", item, v.map_err(|k| *k.kind()), &s[pos..pos + N]);
                pos += N;
            }
        }
    }
    Ok(())
}
fn oneshot(s: &[u8], n: usize, cu: &[usize], st: usize) -> Ck {
    let mut d: BytesDecoder<Vec<u8>> = if n % 2 == 0 { BytesDecoder::new(vec![9; n]) } else { let mut d = BytesDecoder::default(); d.set_bytes(vec![9; n]); d };
    let mut pos = 0;
    for item in 0..2 {
        ck!(d.requiring_bytes() == ByteCount::Finite(n as u64) && d.is_idle() == (n == 0), ["C05", "C04"], "requires {:?}", d.requiring_bytes());
        if n > 0 { ck!(matches!(d.finish_decoding(), Err(ref k) if *k.kind() == ErrorKind::IncompleteDecoding), ["C06"], "finish_decoding of nothing") }
        match feed(&mut d, &s[pos..], cu, st, 0) {
            Err(k) => { ck!(s.len() - pos < n && *k.kind() == ErrorKind::UnexpectedEos, ["C04", "C06"], "decoding {} of {} bytes failed with {:?}", n, s.len() - pos, k.kind()); return Ok(()) }
            Ok(m) => {
                if s.len() - pos < n { ck!(st % 4 >= 2 && !d.is_idle(), ["C06"], "stream ended inside the item, no error"); return Ok(()) }
                ck!(m == n && d.is_idle(), ["C04", "C02"], "consumed {} of {} bytes", m, n);
                let v = d.finish_decoding();
                ck!(matches!(&v, Ok(b) if b[..] == s[pos..pos + n]), ["C04", "C02"], "item {}: got {:?}, expected {:?}", item, v.map_err(|k| *k.kind()), &s[pos..pos + n]);
                pos += n;
            }
        }
        // used up until new bytes are set
        ck!(matches!(d.decode(b"xyz", Eos::new(false)), Err(ref k) if *k.kind() == ErrorKind::DecoderTerminated), ["C04", "C06"], "decode without a buffer");
        ck!(matches!(d.finish_decoding(), Err(ref k) if *k.kind() == ErrorKind::DecoderTerminated), ["C04", "C06"], "finish_decoding without a buffer");
        d.set_bytes(vec![3; n]);
    }
    Ok(())
}
fn rest(s: &[u8], cu: &[usize], st: usize, twice: bool) -> Ck {
    let mut d = RemainingBytesDecoder::new();
    let mut u = Utf8Decoder::new();
    let valid = std::str::from_utf8(s).is_ok();
    for item in 0..1 + twice as usize {
        let mut pos = 0;
        let mut i = 0;
        loop {
            ck!(!d.is_idle() && d.requiring_bytes() == ByteCount::Infinite && !u.is_idle() && u.requiring_bytes() == ByteCount::Infinite, ["C05", "C04"], "before the end of the stream: idle {} requires {:?}", d.is_idle(), d.requiring_bytes());
            ck!(matches!(d.finish_decoding(), Err(ref k) if *k.kind() == ErrorKind::IncompleteDecoding), ["C06"], "finish_decoding before the end of the stream");
            let c = cu[i % cu.len()].min(s.len() - pos);
            i += 1;
            let after = s.len() - pos - c;
            let e = if st % 4 >= 2 { if after == 0 && c == 0 { Eos::new(true) } else { Eos::new(false) } } else { mark(st, after) };
            for x in [d.decode(&s[pos..pos + c], e), u.decode(&s[pos..pos + c], e)] { ck!(matches!(x, Ok(n) if n == c), ["C04", "C01"], "decode of {} bytes gave {:?}", c, x.map_err(|k| *k.kind())) }
            pos += c;
            ck!(d.is_idle() == e.is_reached() && u.is_idle() == e.is_reached(), ["C04", "C05"], "idle {} at {} of {} (eos {:?})", d.is_idle(), pos, s.len(), e);
            if e.is_reached() { break }
        }
        ck!(matches!(d.decode(b"more", Eos::new(true)), Ok(0)) && d.requiring_bytes() == ByteCount::Finite(0), ["C05"], "idle decoder consumed bytes");
        let v = d.finish_decoding();
        ck!(matches!(&v, Ok(b) if b[..] == *s), ["C04", "C02"], "item {}: got {:?}, expected {:?}", item, v.map_err(|k| *k.kind()), s);
        match u.finish_decoding() {
            Ok(t) => ck!(valid && t.as_bytes() == s, ["C04"], "item {}: {:?} decoded as {:?}", item, s, t),
            Err(k) => ck!(!valid && *k.kind() == ErrorKind::InvalidInput, ["C04"], "item {}: {:?} rejected with {:?}", item, s, k.kind()),
        }
    }
    Ok(())
}
fn owned(v: &[u8], a: usize, b: usize) -> Ck {
    let mut o = OwnedSlice::new(v.to_vec(), a, b);
    ck!(o.start() == a && o.end() == b && o.inner_ref()[..] == *v, ["C04"], "accessors of OwnedSlice");
    ck!(o.as_ref() as &[u8] == &v[a..b], ["C04"], "as_ref of [{}..{}]", a, b);
    for x in o.as_mut() { *x = x.wrapping_add(1) }
    let mut w = v.to_vec();
    for x in &mut w[a..b] { *x = x.wrapping_add(1) }
    ck!(o.inner_mut()[..] == w[..] && o.into_inner() == w, ["C04"], "as_mut of [{}..{}]", a, b);
    // decoding into the window of an owned buffer
    let mut d = BytesDecoder::new(OwnedSlice::new(v.to_vec(), a, b));
    let src: Vec<u8> = (0..b - a).map(|i| i as u8 ^ 0x5c).collect();
    ck!(matches!(d.decode(&src, Eos::new(true)), Ok(n) if n == b - a), ["C04"], "decode into a window");
    let got = match d.finish_decoding() { Ok(o) => o.into_inner(), Err(k) => return Err(fail(&["C04"], format!("{:?}", k.kind()))) };
    ck!(got[..a] == v[..a] && got[a..b] == src[..] && got[b..] == v[b..], ["C04"], "decoded into [{}..{}] of {:?}: {:?}", a, b, v, got);
    let mut e = BytesEncoder::new();
    bytes_out(&mut e, OwnedSlice::new(v.to_vec(), a, b), OwnedSlice::new(vec![], 0, 0), None, &[2], 0)
}
pub fn bytes(c: &mut crate::Ctx, n: usize) {
    let mut r = Rng::new(c.seed ^ 0xB7);
    for _ in 0..n {
        if c.full() { return }
        let s = content(&mut r);
        let (cu, st) = (cuts(&mut r), r.below(4));
        let room = if r.chance(1, 3) { Some(r.below(s.len() + 3)) } else { None };
        let (a, b) = { let x = r.below(s.len() + 1); let y = r.below(s.len() + 1); (x.min(y), x.max(y)) };
        let kk = r.below(7);
        let d = || format!("case {} content {:?} cuts {:?} marks {} room {:?} window {}..{}", kk, s, cu, st, room, a, b);
        let mut f = || -> Ck {
            beat(&d);
            match kk {
                0 => { let mut e = BytesEncoder::new(); bytes_out(&mut e, s.clone(), vec![1], room, &cu, st)?; if room.is_none() { let mut t = s.clone(); t.reverse(); bytes_out(&mut e, t, vec![], None, &cu, st)? }
                       // the same through a box, a reference and a trait object
                       match (a + b) % 3 {
                           0 => { let mut e = Box::new(BytesEncoder::new()); bytes_out(&mut e, s.clone(), vec![1], room, &cu, st) }
                           1 => { let mut e: Box<dyn SizedEncode<Item = Vec<u8>>> = Box::new(BytesEncoder::new()); bytes_out(&mut e, s.clone(), vec![1], room, &cu, st) }
                           _ => { let mut e = BytesEncoder::new(); bytes_out(&mut &mut e, s.clone(), vec![1], room, &cu, st) }
                       } }
                1 => { let mut e = BytesEncoder::new(); let l: &'static [u8] = b"static bytes"; bytes_out(&mut e, l, l, room, &cu, st) }
                2 => { let mut e = BytesEncoder::new(); let mut x = [0u8; 5]; for (i, y) in x.iter_mut().enumerate() { *y = s.get(i).copied().unwrap_or(i as u8) } bytes_out(&mut e, x, [1u8; 5], room, &cu, st)?; bytes_out(&mut BytesEncoder::new(), [0u8; 0], [], None, &cu, st) }
                3 => { fixed::<0>(&s, &cu, st)?; fixed::<1>(&s, &cu, st)?; fixed::<2>(&s, &cu, st)?; fixed::<3>(&s, &cu, st)?; fixed::<8>(&s, &cu, st)?; fixed::<17>(&s, &cu, st) }
                4 => { for k in [0, 1, 2, 3, 5, 9, 33] { oneshot(&s, k, &cu, st)? } Ok(()) }
                5 => rest(&s, &cu, st, a % 2 == 0),
                _ => owned(&s, a, b),
            }
        };
        c.case("byte and string codecs", &["C04"], &d, &mut f);
        // strings
        let t = { let k = if r.chance(1, 8) { 300 } else { r.below(14) }; String::from_utf8(utf8(&mut r, k)).unwrap() };
        let cu = cuts(&mut r);
        c.case("string codecs", &["C04"], &|| format!("string {:?} cuts {:?} marks {}", t, cu, st), &mut || {
            let mut e = Utf8Encoder::<String>::new();
            let mut e2 = Utf8Encoder::<&str>::default();
            for _ in 0..2 {
                for (k, o) in [(0, { ck!(e.start_encoding(t.clone()).is_ok() && e.exact_requiring_bytes() == t.len() as u64 && !e.is_idle(), ["C04", "C05"], "requires {:?}", e.requiring_bytes()); drain(&mut e, &cu, st, t.len() + 4) }),
                               (1, { ck!(e2.start_encoding(&t[..]).is_ok() && e2.requiring_bytes() == ByteCount::Finite(t.len() as u64), ["C04", "C05"], "requires {:?}", e2.requiring_bytes()); drain(&mut e2, &cu, st, t.len()) })] {
                    ck!(matches!(&o, Ok(b) if b[..] == *t.as_bytes()), ["C04", "C02"], "encoder {} wrote {:?}", k, o.map_err(|k| *k.kind()));
                }
            }
            Ok(())
        });
        // strings of every short byte sequence class, valid or not
        let raw = { let k = r.below(7); if r.chance(1, 2) { utf8(&mut r, k) } else { let lead = [0x00, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff]; (0..k).map(|_| if r.chance(2, 3) { lead[r.below(lead.len())] } else { 0x80 + r.below(0x40) as u8 }).collect() } };
        let cu = cuts(&mut r);
        c.case("string codecs", &["C04"], &|| format!("string bytes {:?} cuts {:?} marks {}", raw, cu, st), &mut || rest(&raw, &cu, st, false));
    }
}

// ---------------------------------------------------------------- padding
pub fn padding(c: &mut crate::Ctx, n: usize) {
    let mut r = Rng::new(c.seed ^ 0xAD);
    for _ in 0..n {
        if c.full() { return }
        let expected = if r.chance(1, 4) { None } else { Some([0u8, 1, 0xff, 0x20][r.below(4)]) };
        let fill = expected.unwrap_or(7);
        let items: Vec<Vec<u8>> = (0..r.range(1, 3)).map(|_| { let k = if r.chance(1, 6) { 300 } else { r.below(9) }; let mut v = vec![fill; k]; if k > 0 && r.chance(1, 2) { let i = r.below(k); v[i] = r.byte() } v }).collect();
        let (cu, st, late) = (cuts(&mut r), r.below(2), r.chance(1, 2));
        let set = r.chance(1, 2);
        c.case("padding decoder", &["C20"], &|| format!("expected {:?} (set later: {}) items {:?} cuts {:?} marks {} late {}", expected, set, items, cu, st, late), &mut || {
            let mut d = if set { let mut d = PaddingDecoder::new(Some(99)); d.set_expected_byte(expected); d } else { PaddingDecoder::new(expected) };
            ck!(d.expected_byte() == expected, ["C20"], "expected_byte is {:?}", d.expected_byte());
            for s in &items {
                let mut pos = 0;
                let mut i = 0;
                loop {
                    ck!(!d.is_idle() && d.requiring_bytes() == ByteCount::Infinite, ["C20", "C05"], "before the end: idle {} requires {:?}", d.is_idle(), d.requiring_bytes());
                    ck!(matches!(d.finish_decoding(), Err(ref k) if *k.kind() == ErrorKind::IncompleteDecoding), ["C20", "C06"], "finish_decoding before the end");
                    let k = cu[i % cu.len()].min(s.len() - pos);
                    i += 1;
                    let after = s.len() - pos - k + (late && k > 0) as usize;
                    let e = if late && st == 1 && after == 1 && k > 0 { Eos::new(false) } else { mark(st, after) };
                    let bad = expected.map_or(false, |b| s[pos..pos + k].iter().any(|x| *x != b));
                    match d.decode(&s[pos..pos + k], e) {
                        Ok(m) => { ck!(!bad, ["C20"], "{:?} accepted", &s[pos..pos + k]); ck!(m == k, ["C20", "C01"], "consumed {} of {}", m, k) }
                        Err(x) => { ck!(bad && *x.kind() == ErrorKind::InvalidInput, ["C20"], "{:?} rejected with {:?}", &s[pos..pos + k], x.kind()); return Ok(()) }
                    }
                    pos += k;
                    ck!(d.is_idle() == e.is_reached(), ["C20", "C05"], "idle {} at {} of {}", d.is_idle(), pos, s.len());
                    if e.is_reached() { break }
                }
                ck!(d.requiring_bytes() == ByteCount::Finite(0) && matches!(d.decode(&[0xEE, 0xDD], Eos::new(true)), Ok(0)), ["C20", "C05"], "idle decoder takes bytes");
                ck!(d.finish_decoding().is_ok(), ["C20"], "finish_decoding failed");
            }
            Ok(())
        });
        let bytes: Vec<u8> = (0..r.range(1, 3)).map(|_| r.byte()).collect();
        let room = if r.chance(1, 6) { 1100 } else { r.below(12) };
        c.case("padding encoder", &["C20"], &|| format!("bytes {:?} room {} cuts {:?} marks {} late {}", bytes, room, cu, st, late), &mut || {
            let mut e = PaddingEncoder::new();
            for b in &bytes {
                ck!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0), ["C20", "C05"], "new encoder requires {:?}", e.requiring_bytes());
                ck!(e.start_encoding(*b).is_ok(), ["C20"], "start_encoding failed");
                let mut pos = 0;
                let mut i = 0;
                loop {
                    ck!(!e.is_idle() && e.requiring_bytes() == ByteCount::Infinite, ["C20", "C05"], "at {} of {}: idle {} requires {:?}", pos, room, e.is_idle(), e.requiring_bytes());
                    ck!(matches!(e.start_encoding(b ^ 1), Err(ref k) if *k.kind() == ErrorKind::EncoderFull), ["C20", "C06"], "second item accepted");
                    let k = cu[i % cu.len()].min(room - pos);
                    i += 1;
                    let after = room - pos - k + (late && k > 0) as usize;
                    let m = if late && st == 1 && after == 1 && k > 0 { Eos::new(false) } else { mark(st, after) };
                    let mut buf = vec![!b; k];
                    match e.encode(&mut buf, m) { Ok(w) => ck!(w == k && buf.iter().all(|x| x == b), ["C20", "C01"], "wrote {} of {}: {:?}", w, k, buf), Err(x) => return Err(fail(&["C20"], format!("encode failed with {:?}", x.kind()))) }
                    pos += k;
                    ck!(e.is_idle() == m.is_reached(), ["C20", "C05"], "idle {} at {} of {}", e.is_idle(), pos, room);
                    if m.is_reached() { break }
                }
                let mut buf = [3u8; 4];
                ck!(matches!(e.encode(&mut buf, Eos::new(true)), Ok(0)) && buf == [3; 4], ["C20", "C05"], "idle encoder writes");
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- byte counts
pub fn algebra(c: &mut crate::Ctx, n: usize) {
    use ByteCount::*;
    let mut r = Rng::new(c.seed ^ 0xA1);
    let mut v = vec![Infinite, Unknown];
    for x in [0, 1, 2, 3, 7, 255, 256, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 2, u64::MAX - 1, u64::MAX] { v.push(Finite(x)) }
    for _ in 0..n.min(40) { v.push(Finite(r.next() >> r.below(64))) }
    for &a in &v { for &b in &v {
        if c.full() { return }
        c.case("byte count pairs", &["C17"], &|| format!("{:?} and {:?}", a, b), &mut || {
            let dec = match (a, b) { (Finite(x), Finite(y)) => Finite((x as u128 + y as u128).min(u64::MAX as u128) as u64), (Infinite, _) | (_, Infinite) => Infinite, (Unknown, Unknown) => Unknown, (Finite(0), Unknown) | (Unknown, Finite(0)) => Unknown, (Finite(x), Unknown) | (Unknown, Finite(x)) => Finite(x) };
            let enc = match (a, b) { (Finite(x), Finite(y)) => Finite((x as u128 + y as u128).min(u64::MAX as u128) as u64), (Infinite, _) | (_, Infinite) => Infinite, _ => Unknown };
            ck!(a.add_for_decoding(b) == dec, ["C17"], "add_for_decoding gave {:?}, expected {:?}", a.add_for_decoding(b), dec);
            ck!(a.add_for_encoding(b) == enc, ["C17"], "add_for_encoding gave {:?}, expected {:?}", a.add_for_encoding(b), enc);
            use std::cmp::Ordering::*;
            let ord = match (a, b) { (Unknown, _) | (_, Unknown) => None, (Finite(x), Finite(y)) => Some(x.cmp(&y)), (Infinite, Infinite) => Some(Equal), (Infinite, _) => Some(Greater), (_, Infinite) => Some(Less) };
            ck!(a.partial_cmp(&b) == ord, ["C17"], "compared as {:?}, expected {:?}", a.partial_cmp(&b), ord);
            ck!((a < b) == (ord == Some(Less)) && (a <= b) == matches!(ord, Some(Less | Equal)) && (a > b) == (ord == Some(Greater)) && (a >= b) == matches!(ord, Some(Greater | Equal)), ["C17"], "comparison operators");
            ck!((a == b) == match (a, b) { (Finite(x), Finite(y)) => x == y, (Infinite, Infinite) | (Unknown, Unknown) => true, _ => false }, ["C17"], "equality");
            ck!(a.is_finite() == matches!(a, Finite(_)) && a.is_infinite() == matches!(a, Infinite) && a.is_unknow() == matches!(a, Unknown), ["C17"], "kind tests");
            ck!(a.to_u64() == match a { Finite(x) => Some(x), _ => None }, ["C17"], "to_u64");
            let e = Eos::with_remaining_bytes(a);
            ck!(e.is_reached() == (a == Finite(0)) && e.remaining_bytes() == a, ["C17"], "mark of {:?} reached {} remaining {:?}", a, e.is_reached(), e.remaining_bytes());
            if let Finite(y) = b {
                let k = e.back(y);
                let want = match a { Finite(x) => Finite(x.saturating_add(y)), z => z };
                ck!(k.remaining_bytes() == want, ["C17"], "back({}) gave {:?}, expected {:?}", y, k.remaining_bytes(), want);
            }
            Ok(())
        });
    } }
    c.case("byte count pairs", &["C17"], &|| "constructors".into(), &mut || {
        ck!(ByteCount::default() == Unknown, ["C17"], "default is {:?}", ByteCount::default());
        ck!(Eos::new(true).remaining_bytes() == Finite(0) && Eos::new(false).remaining_bytes() == Unknown && Eos::new(true).is_reached() && !Eos::new(false).is_reached(), ["C17"], "Eos::new");
        Ok(())
    });
}

// ---------------------------------------------------------------- errors
pub const KINDS: [ErrorKind; 7] = [ErrorKind::InvalidInput, ErrorKind::InconsistentState, ErrorKind::UnexpectedEos, ErrorKind::EncoderFull, ErrorKind::DecoderTerminated, ErrorKind::IncompleteDecoding, ErrorKind::Other];
/// takes `len` bytes and fails at the chosen place
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum At { Decode, Finish, Start, Encode, Never }
pub struct Faulty { pub at: At, pub kind: ErrorKind, pub len: usize, pub pos: usize, pub busy: bool }
impl Decode for Faulty {
    type Item = u8;
    fn decode(&mut self, buf: &[u8], _: Eos) -> bytecodec::Result<usize> {
        let n = buf.len().min(self.len - self.pos);
        self.pos += n;
        if self.at == At::Decode && self.pos == self.len { return Err(self.kind.into()) }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<u8> { if self.pos < self.len { return Err(ErrorKind::IncompleteDecoding.into()) } self.pos = 0; if self.at == At::Finish { Err(self.kind.into()) } else { Ok(1) } }
    fn requiring_bytes(&self) -> ByteCount { ByteCount::Finite((self.len - self.pos) as u64) }
    fn is_idle(&self) -> bool { self.pos == self.len }
}
pub struct FaultyE(Faulty);
impl Encode for FaultyE {
    type Item = u8;
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> bytecodec::Result<usize> {
        if !self.0.busy { return Ok(0) }
        let n = buf.len().min(self.0.len - self.0.pos);
        for b in &mut buf[..n] { *b = 1 }
        self.0.pos += n;
        if self.0.at == At::Encode { return Err(self.0.kind.into()) }
        if self.0.pos == self.0.len { self.0.pos = 0; self.0.busy = false }
        Ok(n)
    }
    fn start_encoding(&mut self, _: u8) -> bytecodec::Result<()> { if self.0.at == At::Start { return Err(self.0.kind.into()) } self.0.busy = true; self.0.pos = 0; Ok(()) }
    fn requiring_bytes(&self) -> ByteCount { if self.0.busy { ByteCount::Unknown } else { ByteCount::Finite(0) } }
    fn is_idle(&self) -> bool { !self.0.busy }
}
impl SizedEncode for FaultyE { fn exact_requiring_bytes(&self) -> u64 { if self.0.busy { (self.0.len - self.0.pos) as u64 } else { 0 } } }
fn faulty_e(at: At, kind: ErrorKind) -> FaultyE { FaultyE(faulty(at, kind)) }
fn faulty(at: At, kind: ErrorKind) -> Faulty { Faulty { at, kind, len: 3, pos: 0, busy: false } }

fn dk<D: Decode>(mut d: D, at: At, kind: ErrorKind, what: &str) -> Ck {
    let mut got = None;
    let s = [1u8; 16];
    let mut pos = 0;
    for i in 0..20 {
        match d.decode(&s[pos..(pos + 1).min(s.len())], Eos::with_remaining_bytes(ByteCount::Finite((s.len() - pos).saturating_sub(1) as u64))) { Ok(n) => pos += n, Err(e) => { got = Some(*e.kind()); break } }
        if d.is_idle() { break }
        if i == 19 { break }
    }
    if got.is_none() { got = d.finish_decoding().err().map(|e| *e.kind()) }
    ck!(got == Some(kind), ["C21", "C13"], "{:?} raised at {:?} came out of {} as {:?}", kind, at, what, got);
    Ok(())
}
fn ek<E: Encode>(mut e: E, item: E::Item, at: At, kind: ErrorKind, what: &str) -> Ck {
    let mut got = e.start_encoding(item).err().map(|e| *e.kind());
    let mut b = [0u8; 2];
    for _ in 0..20 { if got.is_some() || e.is_idle() { break } got = e.encode(&mut b, Eos::new(false)).err().map(|e| *e.kind()) }
    ck!(got == Some(kind), ["C21", "C13"], "{:?} raised at {:?} came out of {} as {:?}", kind, at, what, got);
    Ok(())
}
pub fn errors(c: &mut crate::Ctx) {
    use std::io;
    let kinds = [io::ErrorKind::NotFound, io::ErrorKind::PermissionDenied, io::ErrorKind::ConnectionRefused, io::ErrorKind::ConnectionReset, io::ErrorKind::ConnectionAborted, io::ErrorKind::NotConnected, io::ErrorKind::AddrInUse, io::ErrorKind::AddrNotAvailable, io::ErrorKind::BrokenPipe, io::ErrorKind::AlreadyExists, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidInput, io::ErrorKind::InvalidData, io::ErrorKind::TimedOut, io::ErrorKind::WriteZero, io::ErrorKind::Interrupted, io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::Unsupported, io::ErrorKind::OutOfMemory];
    for k in kinds { for form in 0..3 {
        c.case("i/o errors", &["C21"], &|| format!("io error {:?} form {}", k, form), &mut || {
            let e = match form { 0 => io::Error::from(k), 1 => io::Error::new(k, "unexpected end of file"), _ => io::Error::new(k, io::Error::from(io::ErrorKind::UnexpectedEof)) };
            let want = if k == io::ErrorKind::UnexpectedEof { ErrorKind::UnexpectedEos } else { ErrorKind::Other };
            let got = *Error::from(e).kind();
            ck!(got == want, ["C21"], "became {:?}, expected {:?}", got, want);
            Ok(())
        });
    } }
    c.case("foreign failures", &["C21"], &|| "Failure".into(), &mut || {
        let f = trackable::error::Failure::from_error("x");
        let k = *Error::from(f).kind();
        ck!(k == ErrorKind::Other, ["C21"], "Failure became {:?}", k);
        Ok(())
    });
    for kind in KINDS {
        for at in [At::Decode, At::Finish] {
            let n = || faulty(at, kind);
            let late = at == At::Finish;
            macro_rules! d { ($($e:expr),* $(,)?) => { $( c.case("error kinds through decoders", &["C21"], &|| format!("{:?} at {:?} through {}", kind, at, stringify!($e)), &mut || dk($e, at, kind, stringify!($e))); )* } }
            d!(n(), n().map(|x| x + 1), n().try_map(|x| if x == 1 { Ok(x) } else { Err(Error::from(ErrorKind::Other)) }), n().map_err(|e| e), n().and_then(|_| U8Decoder::new()),
               n().collect::<Vec<_>>(), n().collectn::<Vec<_>>(2), n().length(3), n().omit(false), n().max_bytes(100), n().slice_full(), n().peekable(), n().maybe_eos(),
               n().chain(U8Decoder::new()), U8Decoder::new().chain(n()), Box::new(n()), { let b: Box<dyn Decode<Item = u8>> = Box::new(n()); b }, U8Decoder::new().and_then(move |_| faulty(at, kind)),
               bytecodec::tuple::TupleDecoder::new((U8Decoder::new(), U8Decoder::new(), faulty(at, kind))),
               Utf8Decoder::with_bytes_decoder(n().map(|x| vec![x])));
            let _ = late;
        }
        c.case("error kinds through decoders", &["C21"], &|| format!("{:?} from a failing function", kind), &mut || dk(U8Decoder::new().try_map(move |_| -> Result<u8, Error> { Err(kind.into()) }), At::Finish, kind, "try_map"));
        for at in [At::Start, At::Encode] {
            let n = || faulty_e(at, kind);
            macro_rules! e { ($($e:expr => $i:expr),* $(,)?) => { $( c.case("error kinds through encoders", &["C21"], &|| format!("{:?} at {:?} through {}", kind, at, stringify!($e)), &mut || ek($e, $i, at, kind, stringify!($e))); )* } }
            e!(n() => 1, n().map_from(|x: u8| x) => 1, n().try_map_from(|x: u8| -> Result<u8, Error> { Ok(x) }) => 1, n().map_err(|e| e) => 1, n().optional() => Some(1), n().max_bytes(100) => 1,
               n().length(3) => 1, n().chain(U8Encoder::new()) => (1, 2), U8Encoder::new().chain(n()) => (1, 2), n().repeat::<std::vec::IntoIter<u8>>() => vec![1, 1].into_iter(), n().pre_encode() => 1,
               Box::new(n()) => 1, { let mut s = EncodeExt::slice(n()); s.set_consumable_bytes(100); s } => 1, bytecodec::tuple::TupleEncoder::new((U8Encoder::new(), U8Encoder::new(), n())) => (1, 2, 3));
            c.case("error kinds through encoders", &["C21"], &|| format!("{:?} at {:?} through last / encode_into_bytes", kind, at), &mut || {
                let mut l = EncodeExt::last(n(), 1);
                let mut b = [0u8; 8];
                let got = l.encode(&mut b, Eos::new(false)).err().map(|e| *e.kind());
                ck!(got == Some(kind), ["C21", "C13"], "{:?} came out of last as {:?}", kind, got);
                let got = n().encode_into_bytes(1).err().map(|e| *e.kind());
                ck!(got == Some(kind), ["C21", "C16"], "{:?} came out of encode_into_bytes as {:?}", kind, got);
                Ok(())
            });
        }
        c.case("error kinds through encoders", &["C21"], &|| format!("{:?} from a failing function", kind), &mut || ek(U8Encoder::new().try_map_from(move |_: u8| -> Result<u8, Error> { Err(kind.into()) }), 1, At::Start, kind, "try_map_from"));
    }
}
trait SliceFull: Decode + Sized { fn slice_full(self) -> bytecodec::combinator::Slice<Self> { let mut s = DecodeExt::slice(self); s.set_consumable_bytes(1 << 30); s } }
impl<T: Decode> SliceFull for T {}
