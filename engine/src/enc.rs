//! Encoder grammar: builds real encoders out of the crate's parts and says independently what they must write.
use crate::ck;
use crate::util::*;
use trackable::track;
use bytecodec::bytes::*;
use bytecodec::fixnum::*;
use bytecodec::null::NullEncoder;
use bytecodec::padding::PaddingEncoder;
use bytecodec::tuple::TupleEncoder;
use bytecodec::{ByteCount, Encode, EncodeExt, Eos, Error, ErrorKind, SizedEncode};

pub type E = Box<dyn Encode<Item = Val>>;
pub type S = Box<dyn SizedEncode<Item = Val>>;

#[derive(Clone, Debug, PartialEq)]
pub enum H {
    Null, U8, U16be, U24be, U32le, U64be, U40le, Bytes, Arr3, Arr9, Own, Utf8, Pad,
    Length(u64, Box<H>), Max(u64, Box<H>), Tuple(Vec<H>), Pair(u8, Vec<H>), MapFrom(Box<H>), TryFrom(u64, Box<H>), MapErr(Box<H>), Opt(Box<H>),
    Repeat(Box<H>), Pre(Box<H>), Last(Box<H>), Boxed(Box<H>), RefMut(Box<H>), SliceBig(Box<H>),
}
use H::*;

struct Owned<T>(T);
impl<T: Encode> Encode for Owned<T> {
    type Item = T::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> { let mut r = &mut self.0; Encode::encode(&mut r, buf, eos) }
    fn start_encoding(&mut self, i: T::Item) -> bytecodec::Result<()> { let mut r = &mut self.0; Encode::start_encoding(&mut r, i) }
    fn requiring_bytes(&self) -> ByteCount { self.0.requiring_bytes() }
    fn is_idle(&self) -> bool { self.0.is_idle() }
}
impl<T: SizedEncode> SizedEncode for Owned<T> { fn exact_requiring_bytes(&self) -> u64 { self.0.exact_requiring_bytes() } }

/// one item started by hand and a last one handed to Last
struct WithLast(H, Option<bytecodec::combinator::Last<E>>);
impl Encode for WithLast {
    type Item = Val;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> { match &mut self.1 { Some(e) => e.encode(buf, eos), None => Ok(0) } }
    fn start_encoding(&mut self, v: Val) -> bytecodec::Result<()> {
        if !self.is_idle() { return Err(ErrorKind::EncoderFull.into()) }
        let mut l = v.list();
        let last = l.pop().unwrap();
        let mut e = build(&self.0);
        if let Some(first) = l.pop() { e.start_encoding(first)? }
        self.1 = Some(e.last(last));
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount { self.1.as_ref().map_or(ByteCount::Finite(0), |e| e.requiring_bytes()) }
    fn is_idle(&self) -> bool { self.1.as_ref().map_or(true, |e| e.is_idle()) }
}

/// a user's encoder that does not define is_idle
struct Plain(Vec<u8>);
impl Encode for Plain {
    type Item = Vec<u8>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = buf.len().min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0.drain(..n);
        trackable::track_assert!(self.0.is_empty() || !eos.is_reached(), ErrorKind::UnexpectedEos);
        Ok(n)
    }
    fn start_encoding(&mut self, v: Vec<u8>) -> bytecodec::Result<()> { trackable::track_assert!(self.0.is_empty(), ErrorKind::EncoderFull); self.0 = v; Ok(()) }
    fn requiring_bytes(&self) -> ByteCount { ByteCount::Finite(self.0.len() as u64) }
}
impl SizedEncode for Plain { fn exact_requiring_bytes(&self) -> u64 { self.0.len() as u64 } }
/// an encoder as users write it with the exported macro, in each of its forms
struct ByMacro<A, B>(u8, A, B);
impl<A: Encode, B: Encode> Encode for ByMacro<A, B> {
    type Item = (A::Item, B::Item);
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let mut offset = 0;
        match self.0 {
            0 => { bytecodec::bytecodec_try_encode!(self.1, offset, buf, eos); bytecodec::bytecodec_try_encode!(self.2, offset, buf, eos); }
            1 => { bytecodec::bytecodec_try_encode!(self.1, offset, buf, eos, "first"); bytecodec::bytecodec_try_encode!(self.2, offset, buf, eos, "second, form {}", self.0); }
            _ => { bytecodec::bytecodec_try_encode!(self.1, offset, buf, eos; self.0); bytecodec::bytecodec_try_encode!(self.2, offset, buf, eos; self.0, offset); }
        }
        Ok(offset)
    }
    fn start_encoding(&mut self, t: Self::Item) -> bytecodec::Result<()> {
        trackable::track_assert!(self.is_idle(), ErrorKind::EncoderFull);
        self.1.start_encoding(t.0)?;
        self.2.start_encoding(t.1)
    }
    fn requiring_bytes(&self) -> ByteCount { self.1.requiring_bytes().add_for_encoding(self.2.requiring_bytes()) }
    fn is_idle(&self) -> bool { self.1.is_idle() && self.2.is_idle() }
}
impl<A: SizedEncode, B: SizedEncode> SizedEncode for ByMacro<A, B> { fn exact_requiring_bytes(&self) -> u64 { self.1.exact_requiring_bytes() + self.2.exact_requiring_bytes() } }

macro_rules! tup {
    ($b:ident, $v:expr, $($i:ident),*) => {{
        let mut it = $v.iter().map(|x| $b(x));
        $(let $i = it.next().unwrap();)*
        Box::new(TupleEncoder::new(($($i),*)).map_from(|v: Val| { let mut it = v.list().into_iter(); $(let $i = it.next().unwrap();)* ($($i),*) }))
    }};
}
macro_rules! common {
    ($b:ident, $h:expr, $ty:ty, $other:expr) => {
        match $h {
            Null => Box::new(NullEncoder.map_from(|_: Val| ())),
            U8 => Box::new(U8Encoder::new().map_from(|v: Val| v.u() as u8)),
            U16be => Box::new(U16beEncoder::new().map_from(|v: Val| v.u() as u16)),
            U24be => Box::new(U24beEncoder::new().map_from(|v: Val| v.u() as u32)),
            U32le => Box::new(U32leEncoder::new().map_from(|v: Val| v.u() as u32)),
            U64be => Box::new(U64beEncoder::new().map_from(|v: Val| v.u())),
            U40le => Box::new(U40leEncoder::new().map_from(|v: Val| v.u())),
            Bytes => Box::new(BytesEncoder::<Vec<u8>>::new().map_from(|v: Val| v.bytes())),
            Own => Box::new(Plain(vec![]).map_from(|v: Val| v.bytes())),
            Arr3 => Box::new(BytesEncoder::<[u8; 3]>::new().map_from(|v: Val| { let b = v.bytes(); [b[0], b[1], b[2]] })),
            Arr9 => Box::new(BytesEncoder::<[u8; 9]>::new().map_from(|v: Val| { let b = v.bytes(); let mut a = [0; 9]; a.copy_from_slice(&b); a })),
            Utf8 => Box::new(Utf8Encoder::<String>::new().map_from(|v: Val| v.str())),
            Max(n, x) => Box::new($b(x).max_bytes(*n)),
            Tuple(v) => match v.len() {
                2 => tup!($b, v, a, b),
                3 => tup!($b, v, a, b, c),
                4 => tup!($b, v, a, b, c, d),
                5 => tup!($b, v, a, b, c, d, e),
                6 => tup!($b, v, a, b, c, d, e, f),
                7 => tup!($b, v, a, b, c, d, e, f, g),
                _ => tup!($b, v, a, b, c, d, e, f, g, i),
            },
            Pair(n, v) => Box::new(ByMacro(*n, $b(&v[0]), $b(&v[1])).map_from(|v: Val| { let mut l = v.list(); let b = l.pop().unwrap(); (l.pop().unwrap(), b) })),
            MapFrom(x) => Box::new($b(x).map_from(|v: Val| v.list().remove(0))),
            TryFrom(m, x) => { let m = *m; Box::new($b(x).try_map_from(move |v: Val| if crate::dec::hash(&v) % m == 1 { Err(Error::from(ErrorKind::Other)) } else { Ok(v) })) }
            MapErr(x) => Box::new($b(x).map_err(crate::dec::remap)),
            Opt(x) => Box::new($b(x).optional().map_from(|v: Val| v.opt())),
            Boxed(x) => { let b: Box<$ty> = Box::new($b(x)); b }
            RefMut(x) => Box::new(Owned($b(x))),
            SliceBig(x) => { let mut s = $b(x).slice(); s.set_consumable_bytes(1 << 40); Box::new(s) }
            Length(n, x) => Box::new(build(x).length(*n)),
            Pre(x) => Box::new(build(x).pre_encode()),
            _ => $other,
        }
    };
}
pub fn build(h: &H) -> E {
    common!(build, h, E, match h {
        Pad => Box::new(PaddingEncoder::new().map_from(|v: Val| v.u() as u8)),
        Repeat(x) => Box::new(build(x).repeat::<std::vec::IntoIter<Val>>().map_from(|v: Val| v.list().into_iter())),
        Last(x) => Box::new(WithLast((**x).clone(), None)),
        _ => unreachable!(),
    })
}
pub fn sized(h: &H) -> S {
    common!(sized, h, S, panic!("engine: not sized"))
}
pub fn is_sized(h: &H) -> bool {
    match h {
        Pad | Repeat(_) | Last(_) => false,
        Length(..) | Pre(_) => true,
        Max(_, x) | MapFrom(x) | TryFrom(_, x) | MapErr(x) | Opt(x) | Boxed(x) | RefMut(x) | SliceBig(x) => is_sized(x),
        Tuple(v) | Pair(_, v) => v.iter().all(is_sized),
        _ => true,
    }
}
pub fn infinite(h: &H) -> bool { has(h, &|x| matches!(x, Pad)) }
pub fn has(h: &H, f: &dyn Fn(&H) -> bool) -> bool {
    f(h) || match h {
        Length(_, x) | Max(_, x) | MapFrom(x) | TryFrom(_, x) | MapErr(x) | Opt(x) | Repeat(x) | Pre(x) | Last(x) | Boxed(x) | RefMut(x) | SliceBig(x) => has(x, f),
        Tuple(v) | Pair(_, v) => v.iter().any(|x| has(x, f)),
        _ => false,
    }
}

pub fn item(h: &H, r: &mut Rng) -> Val {
    let big = r.chance(1, 8);
    match h {
        Null => Val::Unit,
        U8 | Pad => Val::U(r.byte() as u64),
        U16be => Val::U(r.next() & 0xffff),
        U24be => Val::U((r.next() & 0xff_ffff) | if big { 1 << 24 << r.below(8) } else { 0 }),
        U32le => Val::U(r.next() & 0xffff_ffff),
        U64be => Val::U(r.next()),
        U40le => Val::U((r.next() & 0xff_ffff_ffff) | if big { 1 << 40 << r.below(24) } else { 0 }),
        Bytes | Own => { let n = if big { r.range(8, 40) } else { r.below(8) }; Val::Bytes((0..n).map(|_| r.byte()).collect()) }
        Arr3 => Val::Bytes((0..3).map(|_| r.byte()).collect()),
        Arr9 => Val::Bytes((0..9).map(|_| r.byte()).collect()),
        Utf8 => { let n = r.below(6); Val::Str(String::from_utf8(utf8(r, n)).unwrap()) }
        Tuple(v) | Pair(_, v) => Val::List(v.iter().map(|x| item(x, r)).collect()),
        MapFrom(x) => Val::List(vec![item(x, r), Val::Unit]),
        Opt(x) => Val::Opt(if r.chance(1, 3) { None } else { Some(Box::new(item(x, r))) }),
        Repeat(x) => { let n = r.below(5); Val::List((0..n).map(|_| item(x, r)).collect()) }
        Last(x) => { let n = r.range(1, 2); Val::List((0..n).map(|_| item(x, r)).collect()) }
        Length(_, x) | Max(_, x) | TryFrom(_, x) | MapErr(x) | Pre(x) | Boxed(x) | RefMut(x) | SliceBig(x) => item(x, r),
    }
}
fn le(x: u64, w: usize) -> Vec<u8> { (0..w).map(|i| (x >> (8 * i)) as u8).collect() }
fn be(x: u64, w: usize) -> Vec<u8> { let mut v = le(x, w); v.reverse(); v }

/// what encoding v onto a stream with `room` bytes left must give: the bytes, or the errors allowed at
/// start_encoding (.1 = true) or later (.1 = false)
pub fn den(h: &H, v: &Val, room: usize) -> Result<Vec<u8>, Vec<(ErrorKind, bool)>> {
    use ErrorKind::*;
    let fit = |b: Vec<u8>| if b.len() <= room { Ok(b) } else { Err(vec![(UnexpectedEos, false)]) };
    match h {
        Null => Ok(vec![]),
        U8 => fit(be(v.clone().u(), 1)),
        U16be => fit(be(v.clone().u(), 2)),
        U24be => if v.clone().u() >> 24 != 0 { Err(vec![(InvalidInput, true)]) } else { fit(be(v.clone().u(), 3)) },
        U40le => if v.clone().u() >> 40 != 0 { Err(vec![(InvalidInput, true)]) } else { fit(le(v.clone().u(), 5)) },
        U32le => fit(le(v.clone().u(), 4)),
        U64be => fit(be(v.clone().u(), 8)),
        Bytes | Own | Arr3 | Arr9 => fit(v.clone().bytes()),
        Utf8 => fit(v.clone().str().into_bytes()),
        Pad => Ok(vec![v.clone().u() as u8; room]),
        Length(n, x) => {
            let n = *n as usize;
            match den(x, v, n.min(usize::MAX)) {
                Ok(b) if b.len() == n => fit(b),
                Ok(_) => { let mut e = vec![(InvalidInput, false), (InvalidInput, true)]; if room < n { e.push((UnexpectedEos, false)) } Err(e) }
                Err(mut e) => { if room < n { e.push((UnexpectedEos, false)) } Err(e) }
            }
        }
        Max(n, x) => match den(x, v, room) {
            Ok(b) if b.len() > *n as usize => Err(vec![(InvalidInput, false)]),
            Ok(b) => Ok(b),
            Err(mut e) => { e.push((InvalidInput, false)); Err(e) }
        },
        Tuple(hs) | Pair(_, hs) => {
            let l = v.clone().list();
            let mut out = vec![];
            let mut errs: Vec<(ErrorKind, bool)> = vec![];
            for (x, i) in hs.iter().zip(&l) {
                // start errors of any component come first
                if let Err(e) = den(x, i, 1 << 20) { if e.iter().any(|e| e.1) { let all = e.iter().all(|e| e.1); errs.extend(e); if all { break } } }
            }
            for (x, i) in hs.iter().zip(&l) {
                let left = room - out.len();
                match den(x, i, left) { Ok(b) => out.extend(b), Err(e) => { if errs.is_empty() || errs.iter().any(|e| !e.1) { errs.extend(e) } return Err(errs) } }
            }
            if errs.is_empty() { Ok(out) } else { Err(errs) }
        }
        MapFrom(x) => den(x, &v.clone().list()[0], room),
        TryFrom(m, x) => if crate::dec::hash(v) % m == 1 { Err(vec![(Other, true)]) } else { den(x, v, room) },
        MapErr(x) => den(x, v, room).map_err(|e| e.into_iter().map(|(k, s)| (*crate::dec::remap(Error::from(k)).kind(), s)).collect()),
        Opt(x) => match v.clone().opt() { None => Ok(vec![]), Some(i) => den(x, &i, room) },
        Repeat(x) => {
            let mut out = vec![];
            for i in v.clone().list() {
                match den(x, &i, room - out.len()) { Ok(b) => out.extend(b), Err(e) => return Err(e.into_iter().map(|(k, _)| (k, false)).collect()) }
            }
            Ok(out)
        }
        Last(x) => {
            let mut out = vec![];
            let l = v.clone().list();
            for (k, i) in l.iter().enumerate() {
                match den(x, i, room - out.len()) { Ok(b) => out.extend(b), Err(e) => return Err(e.into_iter().map(|(kind, s)| (kind, s && k + 1 < l.len())).collect()) }
            }
            Ok(out)
        }
        Pre(x) => match den(x, v, 1 << 20) { Ok(b) => fit(b), Err(e) => Err(e.into_iter().map(|(k, _)| (k, true)).collect()) },
        Boxed(x) | RefMut(x) | SliceBig(x) => den(x, v, room),
    }
}

pub fn leaf(r: &mut Rng) -> H {
    match r.below(18) { 15 => Arr9, 16 => Own, 0 => Null, 1 | 2 => U8, 3 | 4 => U16be, 5 => U24be, 6 => U32le, 7 => U64be, 8 => U40le, 9 | 10 => Bytes, 11 => Arr3, 12 | 13 => Utf8, _ => U8 }
}
pub fn gen(r: &mut Rng, depth: usize, root: Option<&str>) -> H {
    if depth == 0 && root.is_none() { return leaf(r) }
    let d = depth.saturating_sub(1);
    let k = match root { Some(k) => k, None => ["length", "length", "max", "tuple", "tuple", "tuple", "mapfrom", "tryfrom", "maperr", "opt", "repeat", "repeat", "pre", "boxed", "refmut", "slice", "leaf", "leaf", "pad", "last"][r.below(20)] };
    match k {
        "length" => { let x = gen(r, d, None); let n = if r.chance(2, 3) { let i = item(&x, r); den(&x, &i, 4).map(|b| b.len()).unwrap_or(3) as u64 } else { r.below(7) as u64 }; Length(n, Box::new(x)) }
        "max" => Max(r.below(9) as u64, Box::new(gen(r, d, None))),
        "tuple" => { if r.chance(1, 5) { return Pair(r.below(3) as u8, vec![gen(r, d, None), gen(r, d, None)]) }; let n = if r.chance(3, 4) { r.range(2, 3) } else { r.range(2, 8) }; Tuple((0..n).map(|_| if n > 3 { leaf(r) } else { gen(r, d, None) }).collect()) }
        "mapfrom" => MapFrom(Box::new(gen(r, d, None))),
        "tryfrom" => TryFrom(r.range(2, 4) as u64, Box::new(gen(r, d, None))),
        "maperr" => MapErr(Box::new(gen(r, d, None))),
        "opt" => Opt(Box::new(gen(r, d, None))),
        "repeat" => Repeat(Box::new(gen(r, d, None))),
        "pre" => { let x = gen(r, d, None); if infinite(&x) { return leaf(r) } Pre(Box::new(x)) }
        "last" => Last(Box::new(gen(r, d, None))),
        "boxed" => Boxed(Box::new(gen(r, d, None))),
        "refmut" => RefMut(Box::new(gen(r, d, None))),
        "slice" => SliceBig(Box::new(gen(r, d, None))),
        "pad" => Pad,
        _ => leaf(r),
    }
}

#[derive(Clone, Debug)]
pub struct Plan { pub cuts: Vec<usize>, pub eos: u8, pub items: Vec<Val>, pub cut_room: Option<usize>, pub probe: bool, pub sized: bool, pub quota: Option<Vec<u64>>, pub late: bool }
pub fn plan(h: &H, r: &mut Rng, quota: bool) -> Plan {
    let style = r.below(4);
    let cuts = (0..40).map(|_| match style { 0 => 1, 1 => r.below(3), 2 => 64, _ => r.below(7) }).collect();
    let n = r.range(1, 3);
    let items = (0..n).map(|_| item(h, r)).collect();
    Plan { cuts, eos: r.below(3) as u8, items, cut_room: if r.chance(1, 3) || infinite(h) { Some(r.below(12)) } else { None }, probe: r.chance(1, 3), sized: is_sized(h) && r.chance(1, 2),
           quota: if quota { Some((0..r.range(1, 5)).map(|_| r.below(5) as u64).collect()) } else { None }, late: r.chance(1, 3) }
}

/// Encodes the items one after another onto one stream, in pieces, and compares with the meaning.
/// eos 0: the end is never announced before the last byte; 1: the room left is always announced; 2: mixture
pub fn run(h: &H, pl: &Plan) -> Ck {
    beat(&|| format!("encode {:?} {:?}", h, pl));
    enum En { Plain(E), Sized(S), Sl(bytecodec::combinator::Slice<E>) }
    let mut e = if pl.quota.is_some() { En::Sl(build(h).slice()) } else if pl.sized { En::Sized(sized(h)) } else { En::Plain(build(h)) };
    macro_rules! ee { ($m:ident ( $($a:expr),* )) => { match &mut e { En::Plain(x) => x.$m($($a),*), En::Sized(x) => x.$m($($a),*), En::Sl(x) => x.$m($($a),*) } } }
    // known finding and documented exemptions
    let sized_exempt = false;
    let inf = infinite(h);
    let mut total = vec![]; // bytes of the whole output stream so far
    let room_total = match pl.cut_room { Some(n) => n, None => 1 << 16 };
    let mut step = 0;
    let mut qi = 0;
    'items: for (n, it) in pl.items.iter().enumerate() {
        let start = total.len();
        let want = den(h, it, room_total - start);
        let free = den(h, it, 1 << 20); // with no end of stream in the way
        match ee!(start_encoding(it.clone())) {
            Err(x) => {
                let ok = match &want { Err(ks) => ks.iter().any(|k| k.0 == *x.kind() && k.1), Ok(_) => false };
                ck!(ok, ["C06", "C02", "C03"], "item {}: start_encoding({:?}) failed with {:?}; expected {:?}", n, it, x.kind(), want);
                // an encoder that is idle after refusing an item takes the next one
                if ee!(is_idle()) && !has(h, &|x| matches!(x, Pre(_))) { total.clear(); continue }
                return Ok(());
            }
            Ok(()) => {
                if let Err(ks) = &want { ck!(ks.iter().any(|k| !k.1), ["C06", "C03"], "item {}: start_encoding({:?}) accepted; expected {:?}", n, it, want); }
            }
        }
        let mut calls = 0;
        loop {
            calls += 1;
            let done = total.len() - start;
            let idle = ee!(is_idle());
            let req = ee!(requiring_bytes());
            if idle { ck!(req == ByteCount::Finite(0), ["C05"], "idle encoder requires {:?}", req); }
            if let (ByteCount::Finite(b), Ok(w)) = (req, if inf { &want } else { &free }) {
                ck!(b as usize == w.len() - done.min(w.len()) , ["C05"], "item {}: requiring_bytes {} but {} bytes are left to write", n, b, w.len() - done.min(w.len()));
            }
            if let (ByteCount::Infinite, false) = (req, inf) { return Err(fail(&["C05"], format!("requiring_bytes Infinite for {:?}", h))) }
            if let (En::Sized(x), Ok(w), false) = (&e, &free, sized_exempt) {
                let b = x.exact_requiring_bytes() as usize;
                ck!(b == w.len() - done.min(w.len()), ["C05"], "item {}: exact_requiring_bytes {} but {} bytes are left to write", n, b, w.len() - done.min(w.len()));
            }
            if !inf { if let Ok(w) = &free {
                // idle exactly when nothing is left; encoders of empty items may need one call to notice
                if idle { ck!(done == w.len(), ["C05", "C02"], "item {}: idle after {} of {} bytes", n, done, w.len()); }
            } }
            if idle { break }
            if pl.probe {
                match ee!(start_encoding(it.clone())) {
                    Ok(()) => {
                        // None through Optional starts nothing
                        if !has(h, &|x| matches!(x, Opt(_) | Null)) { return Err(fail(&["C06"], format!("item {}: start_encoding accepted while busy", n))) }
                        return Ok(());
                    }
                    Err(x) => {
                        let k = *x.kind();
                        let mapped = has(h, &|x| matches!(x, MapErr(_) | TryFrom(..)));
                        ck!(k == ErrorKind::EncoderFull || mapped, ["C06"], "item {}: busy start_encoding failed with {:?}", n, k);
                    }
                }
                ck!(ee!(requiring_bytes()) == req, ["C06", "C05"], "item {}: refused start_encoding changed requiring_bytes", n);
            }
            if calls > 600 + total.len() * 4 { return Err(fail(&["C02", "C06", "C12"], format!("item {}: no progress after {} bytes", n, done))) }
            let mut quota0 = None;
            if let En::Sl(x) = &mut e {
                if x.consumable_bytes() == 0 {
                    let q = pl.quota.as_ref().unwrap();
                    let c = q[qi % q.len()] + if qi > 40 { 1 } else { 0 };
                    qi += 1;
                    x.set_consumable_bytes(c);
                }
                quota0 = Some(x.consumable_bytes());
            }
            let room = room_total - total.len();
            let mut c = pl.cuts[step % pl.cuts.len()].min(room);
            step += 1;
            if calls > 300 { c = 64.min(room) }
            let after = room - c;
            let last = after == 0 && (!pl.late || c == 0 || pl.cut_room.is_none());
            let eos = match pl.eos {
                0 => Eos::new(last),
                1 => Eos::with_remaining_bytes(ByteCount::Finite(after as u64)),
                _ => if last || step % 2 == 0 { Eos::with_remaining_bytes(ByteCount::Finite(after as u64)) } else { Eos::new(false) },
            };
            let mut buf = vec![0xA5u8; c];
            match ee!(encode(&mut buf, eos)) {
                Err(x) => {
                    let k = *x.kind();
                    let ok = match &want { Err(ks) => ks.iter().any(|y| y.0 == k && !y.1), Ok(_) => false };
                    ck!(ok, if want.is_ok() { ["C02", "C06"] } else { ["C06", "C21"] }, "item {} {:?}: encode into {} bytes after {} (eos {:?}) failed with {:?}; expected {:?}", n, it, c, done, eos, k, want);
                    if ee!(is_idle()) && !has(h, &|x| matches!(x, Pre(_))) { total.clear(); continue 'items }
                    return Ok(());
                }
                Ok(m) => {
                    ck!(m <= c, ["C01"], "encode claims {} of {} bytes", m, c);
                    ck!(buf[m..].iter().all(|b| *b == 0xA5), ["C01"], "encode changed bytes beyond the {} it reports: {:?}", m, buf);
                    total.extend_from_slice(&buf[..m]);
                    if let Ok(w) = if inf { &want } else { &free } {
                        let got = &total[start..];
                        ck!(got.len() <= w.len() && w[..got.len()] == *got, ["C02"], "item {} {:?}: wrote {:?}; expected {:?}", n, it, got, w);
                    }
                    let idle2 = ee!(is_idle());
                    let mut limited = false;
                    if let (Some(q0), En::Sl(x)) = (quota0, &e) {
                        ck!(m as u64 <= q0, ["C09"], "slice quota {} but {} bytes written", q0, m);
                        ck!(x.consumable_bytes() == q0 - m as u64 && x.is_suspended() == (q0 == m as u64), ["C09"], "slice quota {} - {} became {}", q0, m, x.consumable_bytes());
                        limited = x.is_suspended();
                    }
                    ck!(limited || m == c || idle2, ["C01"], "encode wrote {} of {} bytes without finishing", m, c);
                    if eos.is_reached() && !idle2 && !limited { return Err(fail(&["C06", "C02"], format!("item {} {:?}: stream ended after {} bytes but encode succeeded unfinished; expected {:?}", n, it, total.len() - start, want))) }
                    if idle2 {
                        let mut b2 = [0x5Au8; 3];
                        match ee!(encode(&mut b2, Eos::new(true))) {
                            Ok(0) => ck!(b2 == [0x5A; 3] && ee!(is_idle()), ["C05"], "idle encoder changed the buffer"),
                            o => return Err(fail(&["C05"], format!("idle encoder: encode returned {:?}", o.map_err(|e| *e.kind())))),
                        }
                    }
                }
            }
        }
        match &want {
            Ok(w) => ck!(total[start..] == w[..], ["C02"], "item {} {:?}: wrote {:?}; expected {:?}", n, it, &total[start..], w),
            Err(ks) => return Err(fail(&["C06", "C02"], format!("item {} {:?}: encoded as {:?}; expected an error {:?}", n, it, &total[start..], ks))),
        }
    }
    Ok(())
}
