//! Decoder grammar: builds real decoders out of the crate's parts and says independently what they must do.
use crate::ck;
use crate::util::*;
use trackable::track;
use bytecodec::bytes::*;
use bytecodec::fixnum::*;
use bytecodec::null::NullDecoder;
use bytecodec::padding::PaddingDecoder;
use bytecodec::tuple::TupleDecoder;
use bytecodec::{ByteCount, Decode, DecodeExt, Eos, Error, ErrorKind};

pub type D = Box<dyn Decode<Item = Val>>;

#[derive(Clone, Debug, PartialEq)]
pub enum G {
    Null, U8, U16be, U24le, U32be, U64le, I16le,
    Fixed4, Fixed1, Fixed7, Fixed12, Own3, Zstr, Remaining, Utf8Rem, Utf8Fix(u64), Pad(Option<u8>),
    Length(u64, Box<G>), Max(u64, Box<G>), Collect(Box<G>), CollectN(usize, Box<G>), Tuple(Vec<G>), Pair(u8, Vec<G>),
    Map(Box<G>), TryMap(u64, Box<G>), MapErr(Box<G>), AndThen(Box<G>, Vec<G>), Omit(bool, Box<G>), Peek(Box<G>), MaybeEos(Box<G>),
    Boxed(Box<G>), RefMut(Box<G>), SliceBig(Box<G>),
}
use G::*;

pub fn hash(v: &Val) -> u64 {
    match v {
        Val::Unit => 7,
        Val::U(x) => *x,
        Val::Bytes(b) => b.iter().fold(11, |a, x| a * 31 % 1000003 + *x as u64),
        Val::Str(b) => b.bytes().fold(13, |a, x| a * 31 % 1000003 + x as u64),
        Val::Opt(None) => 3,
        Val::Opt(Some(x)) => hash(x) % 1000003 * 3 + 1,
        Val::List(l) => l.iter().fold(17, |a, x| a * 37 % 1000003 + hash(x) % 1000003),
    }
}
fn tupled(v: Val) -> Val { Val::List(vec![v, Val::Unit]) }

/// accepts items by value through `&mut D` (the crate's forwarding impl)
struct Owned<T>(T);
impl<T: Decode> Decode for Owned<T> {
    type Item = T::Item;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> { let mut r = &mut self.0; Decode::decode(&mut r, buf, eos) }
    fn finish_decoding(&mut self) -> bytecodec::Result<T::Item> { let mut r = &mut self.0; Decode::finish_decoding(&mut r) }
    fn requiring_bytes(&self) -> ByteCount { self.0.requiring_bytes() }
    fn is_idle(&self) -> bool { self.0.is_idle() }
}

/// CollectN counts down its remaining items; the user sets the count again for the next collection
struct Renew<T: Decode>(bytecodec::combinator::CollectN<T, Vec<T::Item>>, usize);
impl<T: Decode> Decode for Renew<T> {
    type Item = Vec<T::Item>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> { self.0.decode(buf, eos) }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<T::Item>> {
        let idle = self.0.is_idle();
        assert!(idle == (self.0.remaining_items() == 0), "remaining_items() is {} but is_idle() is {}", self.0.remaining_items(), idle);
        let v = self.0.finish_decoding()?;
        self.0.set_remaining_items(self.1);
        assert!(self.0.remaining_items() == self.1, "set_remaining_items({}) left {}", self.1, self.0.remaining_items());
        Ok(v)
    }
    fn requiring_bytes(&self) -> ByteCount { self.0.requiring_bytes() }
    fn is_idle(&self) -> bool { self.0.is_idle() }
}

/// BytesDecoder gives its buffer away with the item; the user hands it a new one
struct Refill(BytesDecoder<Vec<u8>>);
impl Decode for Refill {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> { self.0.decode(buf, eos) }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> { let v = self.0.finish_decoding()?; self.0.set_bytes(vec![5; v.len()]); Ok(v) }
    fn requiring_bytes(&self) -> ByteCount { self.0.requiring_bytes() }
    fn is_idle(&self) -> bool { self.0.is_idle() }
}

/// a user's decoder that does not define is_idle
struct Own(Vec<u8>);
impl Decode for Own {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = buf.len().min(3 - self.0.len());
        self.0.extend_from_slice(&buf[..n]);
        trackable::track_assert!(self.0.len() == 3 || !eos.is_reached(), ErrorKind::UnexpectedEos);
        Ok(n)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> { trackable::track_assert_eq!(self.0.len(), 3, ErrorKind::IncompleteDecoding); Ok(std::mem::take(&mut self.0)) }
    fn requiring_bytes(&self) -> ByteCount { ByteCount::Finite(3 - self.0.len() as u64) }
}
/// a user's decoder that cannot tell how many bytes it will take: the item ends with a zero byte
struct UntilZero(Vec<u8>, bool);
impl Decode for UntilZero {
    type Item = Vec<u8>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        for (i, b) in buf.iter().enumerate() {
            if self.1 { return Ok(i) }
            if *b == 0 { self.1 = true } else { self.0.push(*b) }
        }
        trackable::track_assert!(self.1 || !eos.is_reached(), ErrorKind::UnexpectedEos);
        Ok(if self.1 && buf.is_empty() { 0 } else { buf.len() })
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Vec<u8>> { trackable::track_assert!(self.1, ErrorKind::IncompleteDecoding); self.1 = false; Ok(std::mem::take(&mut self.0)) }
    fn requiring_bytes(&self) -> ByteCount { if self.1 { ByteCount::Finite(0) } else { ByteCount::Unknown } }
    fn is_idle(&self) -> bool { self.1 }
}
/// a decoder as users write it with the exported macro, in each of its forms
struct ByMacro<A, B>(u8, A, B);
impl<A: Decode, B: Decode> Decode for ByMacro<A, B> {
    type Item = (A::Item, B::Item);
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        let mut offset = 0;
        match self.0 {
            0 => { bytecodec::bytecodec_try_decode!(self.1, offset, buf, eos); bytecodec::bytecodec_try_decode!(self.2, offset, buf, eos); }
            1 => { bytecodec::bytecodec_try_decode!(self.1, offset, buf, eos, "first"); bytecodec::bytecodec_try_decode!(self.2, offset, buf, eos, "second, form {}", self.0); }
            _ => { bytecodec::bytecodec_try_decode!(self.1, offset, buf, eos; self.0); bytecodec::bytecodec_try_decode!(self.2, offset, buf, eos; self.0, offset); }
        }
        Ok(offset)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Self::Item> {
        trackable::track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
        Ok((self.1.finish_decoding()?, self.2.finish_decoding()?))
    }
    fn requiring_bytes(&self) -> ByteCount { self.1.requiring_bytes().add_for_decoding(self.2.requiring_bytes()) }
    fn is_idle(&self) -> bool { self.1.is_idle() && self.2.is_idle() }
}

macro_rules! tup {
    ($v:expr, $($i:ident),*) => {{
        let mut it = $v.iter().map(build);
        $(let $i = it.next().unwrap();)*
        Box::new(TupleDecoder::new(($($i),*)).map(|($($i),*)| Val::List(vec![$($i),*])))
    }};
}

pub fn build(g: &G) -> D {
    match g {
        Null => Box::new(NullDecoder.map(|_| Val::Unit)),
        U8 => Box::new(U8Decoder::new().map(|x| Val::U(x as u64))),
        U16be => Box::new(U16beDecoder::new().map(|x| Val::U(x as u64))),
        U24le => Box::new(U24leDecoder::new().map(|x| Val::U(x as u64))),
        U32be => Box::new(U32beDecoder::new().map(|x| Val::U(x as u64))),
        U64le => Box::new(U64leDecoder::new().map(Val::U)),
        I16le => Box::new(I16leDecoder::new().map(|x| Val::U(x as u16 as u64))),
        Fixed4 => Box::new(CopyableBytesDecoder::new([0u8; 4]).map(|x| Val::Bytes(x.to_vec()))),
        Fixed1 => Box::new(CopyableBytesDecoder::new([9u8; 1]).map(|x| Val::Bytes(x.to_vec()))),
        Fixed7 => Box::new(CopyableBytesDecoder::new([7u8; 7]).map(|x| Val::Bytes(x.to_vec()))),
        Fixed12 => Box::new(Refill(BytesDecoder::new(vec![3u8; 12])).map(Val::Bytes)),
        Own3 => Box::new(Own(vec![]).map(Val::Bytes)),
        Zstr => Box::new(UntilZero(vec![], false).map(Val::Bytes)),
        Remaining => Box::new(RemainingBytesDecoder::new().map(Val::Bytes)),
        Utf8Rem => Box::new(Utf8Decoder::new().map(Val::Str)),
        Utf8Fix(n) => Box::new(Utf8Decoder::with_bytes_decoder(RemainingBytesDecoder::new().length(*n)).map(Val::Str)),
        Pad(b) => Box::new(PaddingDecoder::new(*b).map(|_| Val::Unit)),
        Length(n, x) => Box::new(build(x).length(*n)),
        Max(n, x) => Box::new(build(x).max_bytes(*n)),
        Collect(x) => Box::new(build(x).collect::<Vec<Val>>().map(Val::List)),
        CollectN(n, x) => Box::new(Renew(build(x).collectn::<Vec<Val>>(*n), *n).map(Val::List)),
        Tuple(v) => match v.len() {
            2 => tup!(v, a, b),
            3 => tup!(v, a, b, c),
            4 => tup!(v, a, b, c, d),
            5 => tup!(v, a, b, c, d, e),
            6 => tup!(v, a, b, c, d, e, f),
            7 => tup!(v, a, b, c, d, e, f, h),
            _ => tup!(v, a, b, c, d, e, f, h, i),
        },
        Pair(n, v) => Box::new(ByMacro(*n, build(&v[0]), build(&v[1])).map(|(a, b)| Val::List(vec![a, b]))),
        Map(x) => Box::new(build(x).map(tupled)),
        TryMap(m, x) => { let m = *m; Box::new(build(x).try_map(move |v| if hash(&v) % m == 1 { Err(Error::from(ErrorKind::Other)) } else { Ok(tupled(v)) })) }
        MapErr(x) => Box::new(build(x).map_err(remap)),
        AndThen(x, v) => { let v = v.clone(); Box::new(build(x).and_then(move |i| build(&v[(hash(&i) % v.len() as u64) as usize]))) }
        Omit(b, x) => Box::new(build(x).omit(*b).map(|o| Val::Opt(o.map(Box::new)))),
        Peek(x) => Box::new(build(x).peekable()),
        MaybeEos(x) => Box::new(build(x).maybe_eos()),
        Boxed(x) => { let b: Box<D> = Box::new(build(x)); b }
        RefMut(x) => Box::new(Owned(build(x))),
        SliceBig(x) => { let mut s = build(x).slice(); s.set_consumable_bytes(1 << 40); Box::new(s) }
    }
}
pub fn remap(e: Error) -> Error {
    let k = match *e.kind() { ErrorKind::UnexpectedEos => ErrorKind::Other, ErrorKind::InvalidInput => ErrorKind::InconsistentState, k => k };
    Error::from(k)
}

#[derive(Clone, Debug, PartialEq)]
/// Late: the item is complete at that position, but finish_decoding must fail
pub enum Out { Ok(usize, Val), Err(ErrorKind), Late(usize, ErrorKind) }
fn push(v: &mut Vec<Out>, o: Out) { if !v.contains(&o) { v.push(o) } }

/// fixed-width big/little endian number
fn num(s: &[u8], p: usize, w: usize, le: bool) -> Vec<Out> {
    if p + w > s.len() { return vec![Out::Err(ErrorKind::UnexpectedEos)] }
    let mut x = 0u64;
    for i in 0..w { let b = s[p + if le { w - 1 - i } else { i }]; x = x << 8 | b as u64; }
    vec![Out::Ok(p + w, Val::U(x))]
}

fn fixed(s: &[u8], p: usize, n: usize) -> Vec<Out> {
    if p + n <= s.len() { vec![Out::Ok(p + n, Val::Bytes(s[p..p + n].to_vec()))] } else { vec![Out::Err(ErrorKind::UnexpectedEos)] }
}

/// all outcomes the documentation allows for decoding one item of the complete stream s from p on
pub fn den(g: &G, s: &[u8], p: usize) -> Vec<Out> {
    use ErrorKind::*;
    match g {
        Null => vec![Out::Ok(p, Val::Unit)],
        U8 => num(s, p, 1, false), U16be => num(s, p, 2, false), U24le => num(s, p, 3, true), U32be => num(s, p, 4, false),
        U64le => num(s, p, 8, true), I16le => num(s, p, 2, true),
        Fixed4 => fixed(s, p, 4), Fixed1 => fixed(s, p, 1), Fixed7 => fixed(s, p, 7), Own3 => fixed(s, p, 3), Zstr => match s[p..].iter().position(|b| *b == 0) { Some(i) => vec![Out::Ok(p + i + 1, Val::Bytes(s[p..p + i].to_vec()))], None => vec![Out::Err(UnexpectedEos)] },Fixed12 => fixed(s, p, 12),
        Remaining => vec![Out::Ok(s.len(), Val::Bytes(s[p..].to_vec()))],
        Utf8Rem => match std::str::from_utf8(&s[p..]) { Ok(x) => vec![Out::Ok(s.len(), Val::Str(x.into()))], Err(_) => vec![Out::Late(s.len(), InvalidInput)] },
        Utf8Fix(n) => {
            let e = p + *n as usize;
            if e > s.len() { return vec![Out::Err(UnexpectedEos)] }
            match std::str::from_utf8(&s[p..e]) { Ok(x) => vec![Out::Ok(e, Val::Str(x.into()))], Err(_) => vec![Out::Late(e, InvalidInput)] }
        }
        Pad(b) => if b.map_or(true, |b| s[p..].iter().all(|x| *x == b)) { vec![Out::Ok(s.len(), Val::Unit)] } else { vec![Out::Err(InvalidInput)] },
        Length(n, x) => {
            let e = p.saturating_add(*n as usize);
            let mut r = vec![];
            if e > s.len() {
                // truncated: at the latest when the end of the stream is known; the inner decoder may object earlier
                push(&mut r, Out::Err(UnexpectedEos));
                let mut t = s.to_vec();
                t.resize(e.min(s.len() + 64), 0);
                for o in den(x, &t, p) { if let Out::Err(k) = o { push(&mut r, Out::Err(k)) } }
                for o in den_early(x, &s[p..]) { push(&mut r, Out::Err(o)) }
                // an inner item that ends before the stream does is rejected for its size
                for o in den(x, s, p) { match o { Out::Ok(q, _) | Out::Late(q, _) if q < e => push(&mut r, Out::Late(q, IncompleteDecoding)), _ => {} } }
            } else {
                for o in den(x, &s[..e], p) {
                    push(&mut r, match o { Out::Ok(q, v) if q == e => Out::Ok(q, v), Out::Ok(q, _) => Out::Late(q, IncompleteDecoding), Out::Late(q, k) => Out::Late(q, if q == e { k } else { IncompleteDecoding }), o => o });
                }
            }
            r
        }
        Max(n, x) => {
            let n = *n as usize;
            let mut r = vec![];
            let more = s.len() - p > n;
            for o in den(x, s, p) {
                match o { Out::Ok(q, _) | Out::Late(q, _) if q - p > n => push(&mut r, Out::Err(InvalidInput)), o => push(&mut r, o) }
            }
            if more { push(&mut r, Out::Err(InvalidInput)) }
            r
        }
        Collect(x) => {
            let mut r = vec![];
            coll(x, s, p, usize::MAX, vec![], &mut r, 0);
            r
        }
        CollectN(n, x) => {
            let mut r = vec![];
            coll(x, s, p, *n, vec![], &mut r, 0);
            r
        }
        Tuple(v) | Pair(_, v) => {
            let mut r = vec![];
            tuple(v, s, p, vec![], None, &mut r);
            r
        }
        Map(x) => den(x, s, p).into_iter().map(|o| match o { Out::Ok(q, v) => Out::Ok(q, tupled(v)), o => o }).collect(),
        TryMap(m, x) => den(x, s, p).into_iter().map(|o| match o { Out::Ok(q, v) => if hash(&v) % m == 1 { Out::Late(q, Other) } else { Out::Ok(q, tupled(v)) }, o => o }).collect(),
        MapErr(x) => den(x, s, p).into_iter().map(|o| match o { Out::Err(k) => Out::Err(*remap(Error::from(k)).kind()), Out::Late(q, k) => Out::Late(q, *remap(Error::from(k)).kind()), o => o }).collect(),
        AndThen(x, v) => {
            let mut r = vec![];
            for o in den(x, s, p) {
                match o {
                    Out::Ok(q, i) => for o2 in den(&v[(hash(&i) % v.len() as u64) as usize], s, q) { push(&mut r, o2) },
                    Out::Late(_, k) => push(&mut r, Out::Err(k)),
                    o => push(&mut r, o),
                }
            }
            r
        }
        Omit(true, _) => vec![Out::Ok(p, Val::Opt(None))],
        Omit(false, x) => den(x, s, p).into_iter().map(|o| match o { Out::Ok(q, v) => Out::Ok(q, Val::Opt(Some(Box::new(v)))), o => o }).collect(),
        Peek(x) => den(x, s, p).into_iter().map(|o| match o { Out::Late(_, k) => Out::Err(k), o => o }).collect(),
        Boxed(x) | RefMut(x) | SliceBig(x) | MaybeEos(x) => den(x, s, p),
    }
}
/// errors a decoder may raise on seeing only a prefix of its stream
fn den_early(g: &G, s: &[u8]) -> Vec<ErrorKind> {
    let mut r = vec![];
    for cut in 0..=s.len() {
        for o in den(g, &s[..cut], 0) { if let Out::Err(k) | Out::Late(_, k) = o { if !r.contains(&k) { r.push(k) } } }
    }
    for ext in [0u8, 1, 255] {
        let mut t = s.to_vec();
        t.resize(s.len() + 24, ext);
        for o in den(g, &t, 0) { if let Out::Err(k) | Out::Late(_, k) = o { if !r.contains(&k) { r.push(k) } } }
    }
    r
}
fn coll(x: &G, s: &[u8], p: usize, n: usize, acc: Vec<Val>, r: &mut Vec<Out>, depth: usize) {
    if n == 0 || (n == usize::MAX && p == s.len()) { push(r, Out::Ok(p, Val::List(acc))); return }
    if depth > 200 { return }
    for o in den(x, s, p) {
        match o {
            Out::Ok(q, v) => { let mut a = acc.clone(); a.push(v); coll(x, s, q, if n == usize::MAX { n } else { n - 1 }, a, r, depth + 1) }
            Out::Late(q, k) => { push(r, Out::Err(k)); push(r, Out::Late(q, k)) }
            o => { push(r, o); if n != usize::MAX { push(r, Out::Err(ErrorKind::UnexpectedEos)) } }
        }
    }
}
fn tuple(v: &[G], s: &[u8], p: usize, acc: Vec<Val>, late: Option<ErrorKind>, r: &mut Vec<Out>) {
    if acc.len() == v.len() { push(r, match late { Some(k) => Out::Late(p, k), None => Out::Ok(p, Val::List(acc)) }); return }
    for o in den(&v[acc.len()], s, p) {
        let mut a = acc.clone();
        match o {
            Out::Ok(q, x) => { a.push(x); tuple(v, s, q, a, late, r) }
            Out::Late(q, k) => { a.push(Val::Unit); tuple(v, s, q, a, late.or(Some(k)), r) }
            o => push(r, o),
        }
    }
}

/// (may use zero bytes, completes only at the end of its stream)
pub fn traits(g: &G) -> (bool, bool) {
    match g {
        Null => (true, false),
        Remaining | Utf8Rem | Pad(_) => (true, true),
        Utf8Fix(n) => (*n == 0, false),
        Length(n, _) => (*n == 0, false),
        Collect(_) => (true, true),
        CollectN(n, x) => (*n == 0 || traits(x).0, *n > 0 && traits(x).1),
        Tuple(v) | Pair(_, v) => (v.iter().all(|x| traits(x).0), v.iter().any(|x| traits(x).1)),
        AndThen(x, v) => (traits(x).0 && v.iter().any(|x| traits(x).0), traits(x).1 || v.iter().any(|x| traits(x).1)),
        Omit(true, _) => (true, false),
        Max(_, x) | Map(x) | TryMap(_, x) | MapErr(x) | Omit(false, x) | Peek(x) | MaybeEos(x) | Boxed(x) | RefMut(x) | SliceBig(x) => traits(x),
        _ => (false, false),
    }
}
pub fn has(g: &G, f: &dyn Fn(&G) -> bool) -> bool {
    f(g) || match g {
        Length(_, x) | Max(_, x) | Collect(x) | CollectN(_, x) | Map(x) | TryMap(_, x) | MapErr(x) | Omit(_, x) | Peek(x) | MaybeEos(x)
        | Boxed(x) | RefMut(x) | SliceBig(x) => has(x, f),
        Tuple(v) | Pair(_, v) => v.iter().any(|x| has(x, f)),
        AndThen(x, v) => has(x, f) || v.iter().any(|x| has(x, f)),
        _ => false,
    }
}

pub fn leaf(r: &mut Rng) -> G {
    match r.below(21) {
        20 => Zstr, 0 => Null, 16 => Fixed7, 17 => Fixed12, 18 => Own3, 1 | 2 => U8, 3 | 4 => U16be, 5 => U24le, 6 => U32be, 7 => U64le, 8 => I16le, 9 => Fixed4, 10 => Fixed1, 11 => Remaining, 12 => Utf8Rem,
        13 => Utf8Fix(r.below(5) as u64), 14 => Pad(if r.chance(1, 3) { None } else { Some(r.below(3) as u8) }), _ => U8,
    }
}
/// kind: index of the root, or none
pub fn gen(r: &mut Rng, depth: usize, root: Option<&str>) -> G {
    if depth == 0 && root.is_none() { return leaf(r) }
    let d = depth.saturating_sub(1);
    let k = match root { Some(k) => k, None => ["length", "length", "max", "collect", "collectn", "tuple", "tuple", "tuple", "map", "trymap", "maperr", "andthen", "omit", "peek", "peek", "boxed", "refmut", "slice", "leaf", "leaf"][r.below(20)] };
    loop {
        let g = match k {
            "length" => { let x = gen(r, d, None); let n = if r.chance(1, 2) { natural(&x, r) } else { r.below(7) as u64 }; Length(n, Box::new(x)) }
            "max" => Max(r.below(7) as u64, Box::new(gen(r, d, None))),
            "collect" => { let x = gen(r, d, None); if traits(&x).0 || has(&x, &|g| matches!(g, Omit(true, _))) && traits(&x).0 { continue } Collect(Box::new(x)) }
            "collectn" => { let x = gen(r, d, None); if traits(&x).1 { continue } CollectN(r.below(5), Box::new(x)) }
            "tuple" => { if r.chance(1, 5) { return Pair(r.below(3) as u8, vec![gen(r, d, None), gen(r, d, None)]) }; let n = if r.chance(3, 4) { r.range(2, 3) } else { r.range(2, 8) }; Tuple((0..n).map(|_| if n > 3 { leaf(r) } else { gen(r, d, None) }).collect()) }
            "map" => Map(Box::new(gen(r, d, None))),
            "trymap" => TryMap(r.range(2, 4) as u64, Box::new(gen(r, d, None))),
            "maperr" => MapErr(Box::new(gen(r, d, None))),
            "andthen" => { let n = r.range(1, 3); AndThen(Box::new(gen(r, d, None)), (0..n).map(|_| gen(r, d, None)).collect()) }
            "omit" => Omit(r.chance(1, 2), Box::new(gen(r, d, None))),
            "peek" => Peek(Box::new(gen(r, d, None))),
            "maybeeos" => { let x = gen(r, d, None); MaybeEos(Box::new(x)) }
            "boxed" => Boxed(Box::new(gen(r, d, None))),
            "refmut" => RefMut(Box::new(gen(r, d, None))),
            "slice" => SliceBig(Box::new(gen(r, d, None))),
            _ => return leaf(r),
        };
        return g;
    }
}
fn natural(g: &G, r: &mut Rng) -> u64 {
    // a length that fits the item of a plausible stream
    let s = stream(r, 12);
    match den(g, &s, 0).first() { Some(Out::Ok(q, _) | Out::Late(q, _)) => *q as u64, _ => r.below(9) as u64 }
}

#[derive(Clone, Debug)]
pub struct Plan { pub s: Vec<u8>, pub cuts: Vec<usize>, pub eos: u8, pub late: usize, pub items: usize, pub probe: bool, pub next: Vec<Vec<u8>>, pub fresh: bool }
pub fn plan(r: &mut Rng) -> Plan {
    let n = if r.chance(1, 6) { r.range(9, 24) } else { r.below(9) };
    let s = stream(r, n);
    let style = r.below(4);
    let cuts = (0..s.len() + 6).map(|_| match style { 0 => 1, 1 => r.below(3), 2 => 64, _ => r.below(6) }).collect();
    Plan { s, cuts, eos: r.below(4) as u8, late: if r.chance(1, 3) { r.range(1, 3) } else { 0 }, items: r.range(1, 3), probe: r.chance(1, 4), next: (0..2).map(|_| { let n = r.below(7); stream(r, n) }).collect(), fresh: r.chance(1, 5) }
}

fn bc(b: ByteCount) -> String { format!("{:?}", b) }

/// runs the real decoder over the plan and compares every observation with the grammar's meaning
pub fn run(g: &G, pl: &Plan, quota: Option<&[u64]>) -> Ck {
    beat(&|| format!("decode {:?} {:?} {:?}", g, pl, quota));
    let lb_exempt = has(g, &|x| matches!(x, Collect(_) | MaybeEos(_) | Length(..) | Utf8Fix(_))) ;
    let idle_exempt = has(g, &|x| matches!(x, Length(..)));
    let maxed = has(g, &|x| matches!(x, Max(..)));
    let maybe = has(g, &|x| matches!(x, MaybeEos(_)));
    enum Dd { Plain(D), Sl(bytecodec::combinator::Slice<D>) }
    let mut d = match quota { None => Dd::Plain(build(g)), Some(_) => Dd::Sl(build(g).slice()) };
    macro_rules! dd { ($m:ident ( $($a:expr),* )) => { match &mut d { Dd::Plain(x) => x.$m($($a),*), Dd::Sl(x) => x.$m($($a),*) } } }
    let mut s = &pl.s[..];
    let maybe_root = matches!(g, MaybeEos(x) if !has(x, &|x| matches!(x, MaybeEos(_))));
    fn fixed(x: &G) -> bool { match x { U8 | U16be | U24le | U32be | U64le | I16le | Fixed1 | Fixed4 | Fixed7 | Own3 | Zstr => true, Map(x) | TryMap(_, x) | MapErr(x) => fixed(x), _ => false } }
    let plain = matches!(g, MaybeEos(x) if fixed(x));
    let mut pos = 0;
    let mut step = 0;
    let mut qi = 0;
    for item in 0..pl.items {
        // a finished decoder takes the next item, also from another stream
        if item > 0 && (pl.fresh || traits(g).0 && pos == s.len()) { s = &pl.next[item - 1]; pos = 0; }
        let start = pos;
        let outs = den(g, s, pos);
        let ends: Vec<usize> = outs.iter().filter_map(|o| match o { Out::Ok(q, _) | Out::Late(q, _) => Some(*q), _ => None }).collect();
        let mut calls = 0;
        let mut empties = 0;
        loop {
            calls += 1;
            if let Dd::Sl(x) = &mut d {
                if x.consumable_bytes() == 0 {
                    let q = quota.unwrap();
                    let n = q[qi % q.len()] + if qi > 40 { 1 } else { 0 };
                    qi += 1;
                    x.set_consumable_bytes(n);
                    ck!(x.consumable_bytes() == n && x.is_suspended() == (n == 0), ["C09"], "set_consumable_bytes({}) left {}", n, x.consumable_bytes());
                }
            }
            if calls > 4 * s.len() + 120 {
                if maybe && pos == s.len() { return Ok(()) }
                return Err(fail(&["C02", "C06", "C01"], format!("item {}: no progress at {} of {}", item, pos, s.len())));
            }
            let rest = s.len() - pos;
            let mut c = pl.cuts[step % pl.cuts.len()].min(rest);
            step += 1;
            if calls > s.len() + 20 { c = rest }
            let after = rest - c;
            let last = after == 0 && (pl.late == 0 || rest == 0 && { empties += 1; empties >= pl.late });
            let eos = match pl.eos {
                0 => Eos::new(last && after == 0),
                1 => Eos::with_remaining_bytes(ByteCount::Finite(after as u64)),
                2 => if step % 2 == 0 || last { Eos::with_remaining_bytes(ByteCount::Finite(after as u64)) } else { Eos::new(false) },
                _ => if last { Eos::new(true) } else { Eos::with_remaining_bytes(ByteCount::Unknown) },
            };
            let req = dd!(requiring_bytes());
            let idle = dd!(is_idle());
            if pl.probe && !idle {
                match dd!(finish_decoding()) {
                    Err(e) => ck!(*e.kind() == ErrorKind::IncompleteDecoding, ["C06"], "item {}: finish_decoding before completion at {}: {:?}", item, pos, e.kind()),
                    Ok(v) => return Err(fail(&["C06", "C02"], format!("item {}: finish_decoding before completion at {} returned {:?}", item, pos, v))),
                }
                ck!(dd!(requiring_bytes()) == req, ["C06", "C05"], "item {}: refused finish_decoding changed requiring_bytes {} to {}", item, bc(req), bc(dd!(requiring_bytes())));
            }
            if idle && !idle_exempt { ck!(req == ByteCount::Finite(0), ["C05"], "idle decoder requires {}", bc(req)); }
            if !lb_exempt && !idle {
                if let (ByteCount::Finite(b), false) = (req, ends.is_empty()) {
                    let best = ends.iter().max().unwrap();
                    ck!(pos as u64 + b <= *best as u64, ["C05"], "item {}: requiring_bytes {} at {} but the item ends at {}", item, b, pos, best);
                }
                if let (ByteCount::Infinite, false) = (req, ends.is_empty()) {
                    ck!(ends.iter().any(|e| *e == s.len()), ["C05"], "item {}: requiring_bytes Infinite but the item ends at {:?} of {}", item, ends, s.len());
                }
            }
            let quota0 = if let Dd::Sl(x) = &d { Some(x.consumable_bytes()) } else { None };
            let res = dd!(decode(&s[pos..pos + c], eos));
            match res {
                Err(e) => {
                    let k = *e.kind();
                    ck!(!(plain && c == 0 && pos == start), ["C13"], "item {}: a stream that ends between items was refused with {:?}", item, k);
                    ck!(outs.contains(&Out::Err(k)), if ends.is_empty() { ["C06", "C21"] } else { ["C02", "C06"] },
                        "item {} from {}: decode of {} bytes at {} (eos {:?}) failed with {:?}; allowed: {:?}", item, start, c, pos, eos, k, outs);
                    return Ok(());
                }
                Ok(n) => {
                    ck!(n <= c, ["C01"], "decode consumed {} of {} bytes", n, c);
                    if idle { ck!(n == 0, ["C05"], "idle decoder consumed {} bytes at {}", n, pos); }
                    let idle2 = dd!(is_idle());
                    if idle { ck!(idle2, ["C05"], "idle decoder stopped being idle without finish_decoding"); }
                    pos += n;
                    let mut limited = false;
                    if let (Some(q0), Dd::Sl(x)) = (quota0, &d) {
                        ck!(n as u64 <= q0, ["C09"], "slice quota {} but {} bytes consumed", q0, n);
                        ck!(x.consumable_bytes() == q0 - n as u64, ["C09"], "slice quota {} - {} became {}", q0, n, x.consumable_bytes());
                        ck!(x.is_suspended() == (q0 - n as u64 == 0), ["C09"], "is_suspended wrong");
                        limited = x.is_suspended();
                    }
                    if idle2 {
                        if !idle_exempt { ck!(dd!(requiring_bytes()) == ByteCount::Finite(0), ["C05"], "idle decoder requires {}", bc(dd!(requiring_bytes()))); }
                        // an idle decoder consumes nothing
                        if !maxed {
                            let tail = &s[pos..];
                            match dd!(decode(tail, Eos::new(true))) {
                                Ok(m) => ck!(m == 0 && dd!(is_idle()), ["C05"], "idle decoder consumed {} bytes", m),
                                Err(e) => { if !has(g, &|x| matches!(x, Length(..))) { return Err(fail(&["C05", "C06"], format!("idle decoder failed with {:?}", e.kind()))) } }
                            }
                        }
                        break;
                    }
                    ck!(limited || n == c, ["C01"], "decode consumed {} of {} bytes without completing the item", n, c);
                    if maybe_root && eos.is_reached() && !limited && (pos > start || c > 0) {
                        return Err(fail(&["C13", "C06"], format!("item {} from {}: stream ended inside the item at {} but decode succeeded; expected {:?}", item, start, pos, outs)));
                    }
                    if !limited && eos.is_reached() && !maybe {
                        return Err(fail(&["C06", "C02"], format!("item {} from {}: stream ended inside the item at {} but decode succeeded; expected {:?}", item, start, pos, outs)));
                    }
                }
            }
        }
        match dd!(finish_decoding()) {
            Ok(v) => ck!(outs.contains(&Out::Ok(pos, v.clone())), ["C02"], "item {} from {}: got {:?} ending at {}; expected {:?}", item, start, v, pos, outs),
            Err(e) => { ck!(outs.contains(&Out::Late(pos, *e.kind())), ["C02", "C06", "C21"], "item {} from {}: finish_decoding failed with {:?} at {}; expected {:?}", item, start, e.kind(), pos, outs);
                // an item that is refused when it is finished is over: the next one starts afresh (not for the components of a tuple)
                if *e.kind() == ErrorKind::IncompleteDecoding || has(g, &|x| matches!(x, Tuple(_) | Pair(..))) { return Ok(()) }
            }
        }
    }
    Ok(())
}
