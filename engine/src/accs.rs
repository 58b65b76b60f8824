//! Histories over the settings, accessors and mapped functions of the combinators, against small models.
use crate::ck;
use crate::util::*;
use bytecodec::bytes::*;
use bytecodec::fixnum::*;
use bytecodec::padding::PaddingEncoder;
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind, SizedEncode};
use std::cell::Cell;

fn kind<T>(r: bytecodec::Result<T>) -> Result<T, ErrorKind> { r.map_err(|e| *e.kind()) }

/// Length over a decoder of everything it is given
fn length_dec(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let mut exp = r.below(6) as u64;
    let mut rem = exp;
    let mut got: Vec<u8> = vec![];
    let mut done = false;
    let mut d = RemainingBytesDecoder::new().length(exp);
    for _ in 0..r.range(1, 14) {
        match r.below(4) {
            0 => {
                let n = r.below(7) as u64;
                let res = kind(d.set_expected_bytes(n));
                log.push(format!("set_expected_bytes({}) = {:?}", n, res));
                if rem != exp { ck!(res == Err(ErrorKind::IncompleteDecoding), ["C07"], "set_expected_bytes in the middle of an item gave {:?}", res); }
                else if !done {
                    ck!(res.is_ok(), ["C07"], "set_expected_bytes between items gave {:?}", res); exp = n; rem = n;
                } else { break } // an empty item waits to be taken: not specified
            }
            1 => {
                let res = kind(d.finish_decoding());
                log.push(format!("finish_decoding = {:?}", res));
                if done && rem == 0 { ck!(res == Ok(got.clone()), ["C07"], "finish_decoding gave {:?}; expected {:?}", res, got); rem = exp; got.clear(); done = false; }
                else { ck!(res == Err(ErrorKind::IncompleteDecoding), ["C07", "C06"], "finish_decoding before the end gave {:?}", res); }
            }
            _ => {
                let b: Vec<u8> = (0..r.below(5)).map(|_| r.byte()).collect();
                let ann = r.below(4);
                let room = rem.saturating_sub(b.len() as u64);
                let eos = match ann { 0 => Eos::new(true), 1 => Eos::with_remaining_bytes(ByteCount::Finite(r.below(6) as u64)), 2 => Eos::with_remaining_bytes(ByteCount::Infinite), _ => Eos::new(false) };
                let res = kind(d.decode(&b, eos));
                log.push(format!("decode({:?}, {:?}) = {:?}", b, eos, res));
                let short = match eos.remaining_bytes() { ByteCount::Finite(n) => n < room, _ => false };
                if short { ck!(res == Err(ErrorKind::UnexpectedEos), ["C07", "C06"], "an input that ends {} bytes early gave {:?}", room, res); return Ok(()) }
                let n = if done { 0 } else { b.len().min(rem as usize) };
                ck!(res == Ok(n), ["C07"], "decode gave {:?}; expected {}", res, n);
                got.extend_from_slice(&b[..n]);
                rem -= n as u64;
                if rem == 0 { done = true }
            }
        }
        ck!(d.expected_bytes() == exp && d.remaining_bytes() == rem, ["C07"], "expected_bytes {} remaining_bytes {}; expected {} {}", d.expected_bytes(), d.remaining_bytes(), exp, rem);
        ck!(d.requiring_bytes() == ByteCount::Finite(rem), ["C05", "C07"], "requiring_bytes {:?}; {} bytes remain", d.requiring_bytes(), rem);
        ck!(d.is_idle() == done, ["C07", "C05"], "is_idle {}", d.is_idle());
    }
    Ok(())
}
/// Length over a bytes encoder
fn length_enc(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let mut exp = r.below(6) as u64;
    let mut e = BytesEncoder::<Vec<u8>>::new().length(exp);
    for _ in 0..r.range(1, 4) {
        if r.chance(1, 2) {
            exp = r.below(6) as u64;
            log.push(format!("set_expected_bytes({})", exp));
            ck!(kind(e.set_expected_bytes(exp)).is_ok(), ["C07"], "set_expected_bytes refused between items");
        }
        let n = if r.chance(3, 4) { exp as usize } else { r.below(7) };
        let item: Vec<u8> = (0..n).map(|_| r.byte()).collect();
        log.push(format!("start_encoding({:?})", item));
        ck!(kind(e.start_encoding(item.clone())).is_ok(), ["C07"], "start_encoding refused");
        let mut out = vec![];
        let mut calls = 0;
        while !e.is_idle() {
            calls += 1;
            ck!(calls < 60, ["C07", "C02"], "no progress");
            let left = exp - out.len() as u64;
            ck!(e.remaining_bytes() == left && e.exact_requiring_bytes() == left && e.requiring_bytes() == ByteCount::Finite(left), ["C07", "C05"], "remaining_bytes {} exact_requiring_bytes {} with {} left", e.remaining_bytes(), e.exact_requiring_bytes(), left);
            if left != exp {
                let x = r.below(9) as u64;
                let res = kind(e.set_expected_bytes(x));
                ck!(res == Err(ErrorKind::IncompleteDecoding) && e.expected_bytes() == exp, ["C07"], "set_expected_bytes in the middle of an item gave {:?}", res);
            }
            let mut b = vec![0; r.below(4) + (calls / 20)];
            let eos = Eos::new((b.len() as u64) < left && r.chance(1, 12) || (b.len() as u64) >= left && r.chance(1, 2));
            let res = kind(e.encode(&mut b, eos));
            log.push(format!("encode(.. {} bytes, {:?}) = {:?}", b.len(), eos, res));
            match res {
                Ok(m) => {
                    ck!(m as u64 <= left, ["C07"], "wrote {} bytes with {} left", m, left);
                    out.extend_from_slice(&b[..m]);
                    ck!(item.starts_with(&out), ["C07", "C02"], "wrote {:?} for {:?}", out, item);
                }
                Err(k) => {
                    let cut = eos.is_reached() && (b.len() as u64) < left;
                    let want = if cut { k == ErrorKind::UnexpectedEos || (k == ErrorKind::InvalidInput && n as u64 != exp) } else if (n as u64) < exp { k == ErrorKind::InvalidInput } else if n as u64 > exp { k == ErrorKind::UnexpectedEos || k == ErrorKind::InvalidInput } else { false };
                    ck!(want, ["C07", "C06"], "an item of {} bytes for a length of {}: {:?}", n, exp, k);
                    return Ok(());
                }
            }
        }
        ck!(n as u64 == exp && out == item, ["C07"], "an item of {} bytes was accepted for a length of {}: {:?}", n, exp, out);
        ck!(e.expected_bytes() == exp && e.exact_requiring_bytes() == 0, ["C07"], "expected_bytes {} exact_requiring_bytes {} after the item", e.expected_bytes(), e.exact_requiring_bytes());
    }
    Ok(())
}
fn max_dec(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let mut max = r.below(12) as u64;
    let mut used = 0u64;
    let mut d = U32beDecoder::new().max_bytes(max);
    for _ in 0..r.range(1, 14) {
        match r.below(4) {
            0 => {
                let n = r.below(12) as u64;
                let res = kind(d.set_max_bytes(n));
                log.push(format!("set_max_bytes({}) = {:?}", n, res));
                if n < used { ck!(res == Err(ErrorKind::InvalidInput), ["C08"], "set_max_bytes({}) with {} bytes used gave {:?}", n, used, res); } else { ck!(res.is_ok(), ["C08"], "set_max_bytes({}) with {} bytes used gave {:?}", n, used, res); max = n; }
            }
            1 => {
                let res = kind(d.finish_decoding());
                log.push(format!("finish_decoding = {:?}", res));
                if used == 4 { ck!(res.is_ok(), ["C08"], "finish_decoding gave {:?}", res); used = 0; } else { ck!(res == Err(ErrorKind::IncompleteDecoding), ["C08", "C06"], "finish_decoding before the end gave {:?}", res); }
            }
            _ => {
                let b: Vec<u8> = (0..r.below(4)).map(|_| r.byte()).collect();
                let more = r.below(5) as u64;
                let eos = match r.below(4) { 0 => Eos::with_remaining_bytes(ByteCount::Finite(more)), 1 => Eos::with_remaining_bytes(ByteCount::Infinite), _ => Eos::new(false) };
                let res = kind(d.decode(&b, eos));
                log.push(format!("decode({:?}, {:?}) = {:?}", b, eos, res));
                let over = match eos.remaining_bytes() { ByteCount::Infinite => true, ByteCount::Finite(n) => used + b.len() as u64 + n > max, ByteCount::Unknown => used + b.len() as u64 > max };
                if over { ck!(res == Err(ErrorKind::InvalidInput), ["C08"], "more than {} bytes: {:?}", max, res); return Ok(()) }
                let n = b.len().min(4 - used as usize);
                if eos.is_reached() && used + (n as u64) < 4 { ck!(res == Err(ErrorKind::UnexpectedEos), ["C06"], "truncated item: {:?}", res); return Ok(()) }
                ck!(res == Ok(n), ["C08"], "decode gave {:?}; expected {}", res, n);
                used += n as u64;
            }
        }
        ck!(bytecodec::combinator::MaxBytes::max_bytes(&d) == max && d.consumed_bytes() == used, ["C08"], "max_bytes {} consumed_bytes {}; expected {} {}", bytecodec::combinator::MaxBytes::max_bytes(&d), d.consumed_bytes(), max, used);
    }
    Ok(())
}
fn max_enc(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let mut max = r.below(9) as u64;
    let mut e = BytesEncoder::<Vec<u8>>::new().max_bytes(max);
    for _ in 0..r.range(1, 5) {
        let n = r.below(9);
        let item: Vec<u8> = (0..n).map(|_| r.byte()).collect();
        let res = kind(e.start_encoding(item.clone()));
        log.push(format!("start_encoding({:?}) = {:?}", item, res));
        ck!(res.is_ok(), ["C08"], "an idle encoder refused an item: {:?}", res);
        let mut used = 0u64;
        let mut bad = false;
        let mut calls = 0;
        while !e.is_idle() {
            calls += 1;
            ck!(calls < 60, ["C08"], "no progress");
            ck!(e.consumed_bytes() == used && bytecodec::combinator::MaxBytes::max_bytes(&e) == max, ["C08"], "consumed_bytes {} max_bytes {}; expected {} {}", e.consumed_bytes(), bytecodec::combinator::MaxBytes::max_bytes(&e), used, max);
            if r.chance(1, 5) && !bad {
                let x = r.below(10) as u64;
                let res = kind(e.set_max_bytes(x));
                log.push(format!("set_max_bytes({}) = {:?}", x, res));
                if x < used { ck!(res == Err(ErrorKind::InvalidInput), ["C08"], "set_max_bytes({}) with {} bytes used: {:?}", x, used, res); } else { ck!(res.is_ok(), ["C08"], "set_max_bytes: {:?}", res); max = x; }
            }
            let mut b = vec![0; r.below(4) + calls / 20];
            let res = kind(e.encode(&mut b, Eos::new(false)));
            log.push(format!("encode(.. {} bytes) = {:?}", b.len(), res));
            let m = b.len().min(n - used as usize) as u64;
            used += m;
            if used > max { ck!(res == Err(ErrorKind::InvalidInput), ["C08"], "{} bytes of {} allowed: {:?}", used, max, res); bad = true; }
            else { ck!(res == Ok(m as usize), ["C08"], "encode gave {:?}; expected {}", res, m); }
        }
    }
    Ok(())
}
fn peek(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let mut d = U16beDecoder::new().peekable();
    let mut have: Vec<u8> = vec![];
    let mut item = None;
    for _ in 0..r.range(1, 12) {
        match r.below(5) {
            0 => {
                let res = kind(d.finish_decoding());
                log.push(format!("finish_decoding = {:?}", res));
                ck!(res == item.ok_or(ErrorKind::IncompleteDecoding), ["C13"], "finish_decoding gave {:?}; peeked {:?}", res, item);
                item = None;
            }
            1 => {
                let x = r.byte() as u16;
                if let Some(p) = d.peek_mut() { ck!(item == Some(*p), ["C13"], "peek_mut shows {:?}; expected {:?}", p, item); *p = x; log.push(format!("*peek_mut() = {}", x)); item = Some(x); } else { ck!(item.is_none(), ["C13"], "peek_mut gives nothing"); }
            }
            _ => {
                let b: Vec<u8> = (0..r.below(4)).map(|_| r.byte()).collect();
                let res = kind(d.decode(&b, Eos::new(false)));
                log.push(format!("decode({:?}) = {:?}", b, res));
                let n = if item.is_some() { 0 } else { b.len().min(2 - have.len()) };
                ck!(res == Ok(n), ["C13"], "decode gave {:?}; expected {}", res, n);
                have.extend_from_slice(&b[..n]);
                if have.len() == 2 { item = Some((have[0] as u16) << 8 | have[1] as u16); have.clear(); }
            }
        }
        ck!(d.peek() == item.as_ref(), ["C13"], "peek shows {:?}; expected {:?}", d.peek(), item);
        ck!(d.is_idle() == item.is_some(), ["C13", "C05"], "is_idle {} with {:?}", d.is_idle(), item);
        ck!(d.requiring_bytes() == ByteCount::Finite(if item.is_some() { 0 } else { 2 - have.len() as u64 }), ["C13", "C05"], "requiring_bytes {:?}", d.requiring_bytes());
    }
    Ok(())
}
fn omit(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let mut o = r.chance(1, 2);
    let mut d = U16beDecoder::new().omit(o);
    let mut have: Vec<u8> = vec![];
    for _ in 0..r.range(1, 12) {
        ck!(d.will_omit() == o, ["C13"], "will_omit {}", d.will_omit());
        ck!(d.is_idle() == (o || have.len() == 2), ["C13", "C05"], "is_idle {}", d.is_idle());
        ck!(d.requiring_bytes() == ByteCount::Finite(if o { 0 } else { 2 - have.len() as u64 }), ["C13", "C05"], "requiring_bytes {:?}", d.requiring_bytes());
        match r.below(4) {
            0 => { o = !o; d.do_omit(o); log.push(format!("do_omit({})", o)); }
            1 => {
                let res = kind(d.finish_decoding());
                log.push(format!("finish_decoding = {:?}", res));
                let want = if o { Ok(None) } else if have.len() == 2 { let x = (have[0] as u16) << 8 | have[1] as u16; have.clear(); Ok(Some(x)) } else { Err(ErrorKind::IncompleteDecoding) };
                ck!(res == want, ["C13"], "finish_decoding gave {:?}; expected {:?}", res, want);
            }
            _ => {
                let b: Vec<u8> = (0..r.below(4)).map(|_| r.byte()).collect();
                let eos = Eos::new(o && r.chance(1, 2));
                let res = kind(d.decode(&b, eos));
                log.push(format!("decode({:?}, {:?}) = {:?}", b, eos, res));
                let n = if o { 0 } else { b.len().min(2 - have.len()) };
                ck!(res == Ok(n), ["C13"], "decode gave {:?}; expected {}", res, n);
                have.extend_from_slice(&b[..n]);
            }
        }
    }
    Ok(())
}
fn set_bytes(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let n = r.below(5);
    let mut buf: Option<Vec<u8>> = Some((0..n).map(|_| r.byte()).collect());
    let mut off = 0;
    let mut d = BytesDecoder::new(buf.clone().unwrap());
    for _ in 0..r.range(1, 12) {
        match r.below(4) {
            0 => { let n = r.below(5); let b: Vec<u8> = (0..n).map(|_| r.byte()).collect(); log.push(format!("set_bytes({:?})", b)); d.set_bytes(b.clone()); buf = Some(b); off = 0; }
            1 => {
                let res = kind(d.finish_decoding());
                log.push(format!("finish_decoding = {:?}", res));
                match &buf {
                    None => ck!(res == Err(ErrorKind::DecoderTerminated), ["C04"], "finish_decoding of an emptied decoder gave {:?}", res),
                    Some(b) if off < b.len() => ck!(res == Err(ErrorKind::IncompleteDecoding), ["C04", "C06"], "finish_decoding before the end gave {:?}", res),
                    Some(b) => { ck!(res.as_ref() == Ok(b), ["C04"], "finish_decoding gave {:?}; expected {:?}", res, b); buf = None; }
                }
            }
            _ => {
                let b: Vec<u8> = (0..r.below(4)).map(|_| r.byte()).collect();
                let eos = Eos::new(r.chance(1, 5));
                let res = kind(d.decode(&b, eos));
                log.push(format!("decode({:?}, {:?}) = {:?}", b, eos, res));
                match &mut buf {
                    None => { ck!(res == Err(ErrorKind::DecoderTerminated), ["C04"], "decode by an emptied decoder gave {:?}", res); return Ok(()) }
                    Some(x) => {
                        let n = b.len().min(x.len() - off);
                        if eos.is_reached() && off + n < x.len() { ck!(res == Err(ErrorKind::UnexpectedEos), ["C04", "C06"], "truncated: {:?}", res); return Ok(()) }
                        ck!(res == Ok(n), ["C04"], "decode gave {:?}; expected {}", res, n);
                        x[off..off + n].copy_from_slice(&b[..n]);
                        off += n;
                    }
                }
            }
        }
        let need = buf.as_ref().map_or(0, |b| b.len() - off) as u64;
        ck!(d.requiring_bytes() == ByteCount::Finite(need) && d.is_idle() == (need == 0), ["C05", "C04"], "requiring_bytes {:?}, is_idle {}; {} bytes are missing", d.requiring_bytes(), d.is_idle(), need);
    }
    Ok(())
}
fn collectn(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let mut left = r.below(4);
    let mut items: Vec<u8> = vec![];
    let mut d = U8Decoder::new().collectn::<Vec<u8>>(left);
    for _ in 0..r.range(1, 12) {
        match r.below(4) {
            0 => { left = r.below(4); log.push(format!("set_remaining_items({})", left)); d.set_remaining_items(left); }
            1 => {
                let res = kind(d.finish_decoding());
                log.push(format!("finish_decoding = {:?}", res));
                if left == 0 { ck!(res == Ok(items.clone()), ["C10"], "finish_decoding gave {:?}; expected {:?}", res, items); items.clear(); } else { ck!(res == Err(ErrorKind::IncompleteDecoding), ["C10", "C06"], "finish_decoding with {} items missing gave {:?}", left, res); }
            }
            _ => {
                let b: Vec<u8> = (0..r.below(4)).map(|_| r.byte()).collect();
                let eos = Eos::new(r.chance(1, 5));
                let res = kind(d.decode(&b, eos));
                log.push(format!("decode({:?}, {:?}) = {:?}", b, eos, res));
                let n = b.len().min(left);
                if eos.is_reached() && n < left { ck!(res == Err(ErrorKind::UnexpectedEos), ["C10", "C06"], "the stream ended with items missing: {:?}", res); return Ok(()) }
                ck!(res == Ok(n), ["C10"], "decode gave {:?}; expected {}", res, n);
                items.extend_from_slice(&b[..n]);
                left -= n;
            }
        }
        ck!(d.remaining_items() == left && d.is_idle() == (left == 0), ["C10"], "remaining_items {} is_idle {}; {} are missing", d.remaining_items(), d.is_idle(), left);
    }
    Ok(())
}
/// the functions given to the mapping combinators are called once per item or error, and not otherwise
fn counts(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let n = Cell::new(0u32);
    let tick = || n.set(n.get() + 1);
    let what = r.below(9);
    let cut = r.chance(1, 3); // the stream ends inside the item
    let s: Vec<u8> = (0..2).map(|_| r.byte()).collect();
    log.push(format!("combinator {}, input {:?}, cut {}", what, s, cut));
    macro_rules! dec { ($d:expr, $ok:expr, $err:expr) => {{
        let mut d = $d;
        for item in 1..=r.range(1, 3) as u32 {
            let before = n.get();
            let a = r.below(3).min(if cut { 1 } else { 2 });
            let mut bad = 0;
            let mut pos = 0;
            if d.decode(&s[..a], Eos::new(false)).is_ok() { pos = a } else { bad += 1 }
            if bad == 0 { if d.decode(&s[pos..if cut { 1 } else { 2 }], Eos::new(cut)).is_err() { bad += 1 } }
            let done = bad == 0 && !cut;
            if done { let _ = d.requiring_bytes(); let _ = d.is_idle(); if d.finish_decoding().is_err() { bad += 1 } }
            let calls = n.get() - before;
            let want: u32 = (if done { $ok } else { 0 }) + $err * bad;
            ck!(calls == want, ["C13"], "item {}: the function was called {} times; expected {} ({} errors)", item, calls, want, bad);
            if bad != 0 { return Ok(()) }
        }
        Ok(())
    }} }
    macro_rules! enc { ($e:expr, $v:expr, $ok:expr, $err:expr) => {{
        let mut e = $e;
        for item in 1..=r.range(1, 3) as u32 {
            let before = n.get();
            let mut bad = 0;
            let mut starts = 1;
            if e.start_encoding($v).is_err() { bad += 1 }
            let busy = bad == 0 && r.chance(1, 2);
            if busy { starts += 1; if e.start_encoding($v).is_err() { bad += 1 } else { return Err(fail(&["C06"], "a busy encoder accepted an item".into())) } }
            let mut b = [0; 1];
            while !e.is_idle() && bad < 4 {
                match e.encode(&mut b, Eos::new(cut)) { Ok(_) => {} Err(_) => { bad += 1; break } }
            }
            let calls = n.get() - before;
            let want: u32 = $ok * starts + $err * bad;
            ck!(calls == want, ["C13"], "item {}: the function was called {} times; expected {} ({} errors, {} starts)", item, calls, want, bad, starts);
            if bad != 0 { return Ok(()) }
        }
        Ok(())
    }} }
    match what {
        0 => dec!(U16beDecoder::new().map(|x| { tick(); x }), 1, 0),
        1 => dec!(U16beDecoder::new().try_map(|x| -> Result<u16, Error> { tick(); if x % 3 == 0 { Err(ErrorKind::Other.into()) } else { Ok(x) } }), 1, 0),
        2 => dec!(U16beDecoder::new().map_err(|e: Error| -> Error { tick(); e }), 0, 1),
        3 => dec!(U16beDecoder::new().and_then(|_| { tick(); BytesDecoder::new(vec![0u8; 0]) }), 1, 0),
        4 => dec!(Utf8Decoder::with_bytes_decoder(CopyableBytesDecoder::new([0u8; 2]).map(|x| x.to_vec())).map_err(|e: Error| -> Error { tick(); e }), 0, 1),
        5 => enc!(U16beEncoder::new().map_from(|x: u16| { tick(); x }), 7u16, 1, 0),
        6 => enc!(U16beEncoder::new().try_map_from(|x: u16| -> Result<u16, Error> { tick(); if x % 3 == 0 { Err(ErrorKind::Other.into()) } else { Ok(x) } }), s[0] as u16, 1, 0),
        7 => enc!(U16beEncoder::new().map_err(|e: Error| -> Error { tick(); e }), 7u16, 0, 1),
        _ => enc!(U24beEncoder::new().map_err(|e: Error| -> Error { tick(); e }), (s[0] as u32) << 18, 0, 1),
    }
}
/// encoders that are given one further item, and shorthands for building encoders and decoders
fn last(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let (k, m) = (r.below(5), r.below(5));
    let a: Vec<u8> = (0..k).map(|_| r.byte()).collect();
    let b: Vec<u8> = (0..m).map(|_| r.byte()).collect();
    let two = r.chance(1, 2);
    let mut want = if two { a.clone() } else { vec![] };
    want.extend_from_slice(&b);
    log.push(format!("{:?} last {:?}, first given {}", a, b, two));
    let inner = if two { match BytesEncoder::with_item(a) { Ok(e) => e, Err(e) => return Err(fail(&["C12"], format!("with_item: {:?}", e.kind()))) } } else { BytesEncoder::new() };
    let mut e = inner.last(b.clone());
    let mut out = vec![];
    let mut calls = 0;
    while !e.is_idle() {
        calls += 1;
        ck!(calls < 60, ["C12"], "no progress");
        if let ByteCount::Finite(n) = e.requiring_bytes() { ck!(n as usize == want.len() - out.len(), ["C05"], "requiring_bytes {} with {} left", n, want.len() - out.len()); }
        let mut o = vec![0; r.below(4) + calls / 20];
        let left = want.len() - out.len();
        let eos = Eos::new(o.len() >= left && r.chance(1, 2));
        let res = kind(e.encode(&mut o, eos));
        log.push(format!("encode(.. {} bytes, {:?}) = {:?}", o.len(), eos, res));
        match res { Ok(n) => out.extend_from_slice(&o[..n]), Err(k) => return Err(fail(&["C12", "C06"], format!("encode failed with {:?} after {:?}", k, out))) }
        ck!(want.starts_with(&out), ["C12", "C02"], "wrote {:?}; expected {:?}", out, want);
    }
    ck!(out == want && e.requiring_bytes() == ByteCount::Finite(0), ["C12", "C02"], "wrote {:?}; expected {:?}", out, want);
    Ok(())
}
fn chained(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let s: Vec<u8> = (0..5).map(|_| r.byte()).collect();
    log.push(format!("{:?}", s));
    let mut d = U16beDecoder::new().chain(U24leDecoder::new());
    let mut pos = 0;
    while pos < 5 {
        let n = r.range(0, 3).min(5 - pos);
        match kind(d.decode(&s[pos..pos + n], Eos::new(false))) { Ok(k) => { ck!(k == n, ["C11", "C01"], "consumed {} of {}", k, n); pos += k; } Err(k) => return Err(fail(&["C11"], format!("{:?}", k))) }
    }
    let want = ((s[0] as u16) << 8 | s[1] as u16, s[2] as u32 | (s[3] as u32) << 8 | (s[4] as u32) << 16);
    let got = kind(d.finish_decoding());
    ck!(got == Ok(want), ["C11"], "chain gave {:?}; expected {:?}", got, want);
    let mut e = U16beEncoder::new().chain(U24leEncoder::new());
    ck!(e.start_encoding(want).is_ok(), ["C11"], "chain refused its item");
    let mut out = vec![];
    while !e.is_idle() && out.len() < 9 { let mut b = vec![0; r.range(1, 3)]; match kind(e.encode(&mut b, Eos::new(false))) { Ok(k) => out.extend_from_slice(&b[..k]), Err(k) => return Err(fail(&["C11"], format!("{:?}", k))) } }
    ck!(out == s, ["C11"], "chain wrote {:?}; expected {:?}", out, s);
    Ok(())
}
/// inner_ref, inner_mut and into_inner give the part that was put in
fn inner(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let b = r.byte();
    log.push(format!("{}", b));
    macro_rules! d { ($x:expr) => {{
        let mut x = $x;
        ck!(x.inner_mut().decode(&[b], Eos::new(false)).is_ok() && x.inner_ref().requiring_bytes() == ByteCount::Finite(1), ["C13"], "inner_mut and inner_ref differ");
        let mut i = x.into_inner();
        let res = kind(i.decode(&[1], Eos::new(false)));
        ck!(res == Ok(1) && kind(i.finish_decoding()) == Ok((b as u16) << 8 | 1), ["C13"], "into_inner lost the state of the inner decoder");
    }} }
    d!(U16beDecoder::new().map(|x| x));
    d!(U16beDecoder::new().try_map(|x| -> Result<u16, Error> { Ok(x) }));
    d!(U16beDecoder::new().map_err(|e: Error| -> Error { e }));
    d!(U16beDecoder::new().omit(false));
    d!(U16beDecoder::new().collect::<Vec<u16>>());
    d!(U16beDecoder::new().collectn::<Vec<u16>>(2));
    d!(U16beDecoder::new().length(2));
    d!(U16beDecoder::new().max_bytes(2));
    d!(U16beDecoder::new().slice());
    d!(U16beDecoder::new().peekable());
    d!(U16beDecoder::new().maybe_eos());
    macro_rules! e { ($x:expr) => {{
        let mut x = $x;
        ck!(x.inner_mut().start_encoding(b as u16).is_ok() && x.inner_ref().exact_requiring_bytes() == 2, ["C13"], "inner_mut and inner_ref differ");
        let mut i = x.into_inner();
        let mut o = [9; 3];
        ck!(kind(i.encode(&mut o, Eos::new(false))) == Ok(2) && o == [0, b, 9], ["C13"], "into_inner lost the state of the inner encoder");
    }} }
    e!(U16beEncoder::new().map_from(|x: u16| x));
    e!(U16beEncoder::new().try_map_from(|x: u16| -> Result<u16, Error> { Ok(x) }));
    e!(U16beEncoder::new().map_err(|e: Error| -> Error { e }));
    e!(U16beEncoder::new().optional());
    e!(U16beEncoder::new().repeat::<std::vec::IntoIter<u16>>());
    e!(U16beEncoder::new().length(2));
    e!(U16beEncoder::new().max_bytes(2));
    e!(U16beEncoder::new().pre_encode());
    e!(U16beEncoder::new().slice());
    e!(U16beEncoder::new().last(3));
    Ok(())
}

pub fn all(c: &mut crate::Ctx, p: &str, n: usize) {
    type F = fn(&mut Rng, &mut Vec<String>) -> Ck;
    let l: [(&str, &[&str], F); 14] = [
        ("length decoder history", &["C07", "C05", "C06"], length_dec), ("length encoder history", &["C07", "C05", "C06"], length_enc),
        ("limit decoder history", &["C08", "C06"], max_dec), ("limit encoder history", &["C08"], max_enc),
        ("peek history", &["C13", "C05"], peek), ("omit history", &["C13", "C05"], omit), ("bytes decoder history", &["C04", "C05", "C06"], set_bytes),
        ("collectn history", &["C10", "C06"], collectn), ("function calls", &["C13"], counts), ("last", &["C12", "C05"], last), ("chain", &["C11"], chained), ("inner", &["C13"], inner),
        ("inner", &[], inner), ("large counts", &["C07", "C08", "C09", "C10", "C01"], large),
    ];
    for (name, ps, f) in l {
        if !(p == "all" || ps.contains(&p)) { continue }
        let mut r = Rng::new(c.seed ^ name.len() as u64 * 7919 ^ name.as_bytes()[0] as u64);
        for _ in 0..n {
            if c.full() { return }
            let s0 = r.next();
            let mut log = vec![];
            let failed = crate::attempt(&mut || { log.clear(); f(&mut Rng::new(s0), &mut log) }).is_some();
            let mut best = (s0, log.clone());
            if failed {
                for _ in 0..2000 { let s = r.next(); let mut l2 = vec![]; if crate::attempt(&mut || { l2.clear(); f(&mut Rng::new(s), &mut l2) }).is_some() && l2.len() < best.1.len() { best = (s, l2) } }
            }
            let s = best.0;
            c.case(name, &[], &|| format!("{}: {}", name, best.1.join("; ")), &mut || f(&mut Rng::new(s), &mut vec![]));
        }
    }
}

/// counts beyond 32 bits and close to the end of 64 bits
fn large(r: &mut Rng, log: &mut Vec<String>) -> Ck {
    let big = |r: &mut Rng| -> u64 { match r.below(6) { 0 => (1 << 32) + r.below(4) as u64, 1 => (1 << 32) - 1 - r.below(3) as u64, 2 => u64::MAX - r.below(6) as u64, 3 => (1 << 33) + r.below(3) as u64, 4 => (1u64 << 63) - 2 + r.below(4) as u64, _ => (1u64 << 31) - 1 + r.below(3) as u64 } };
    let n = big(r);
    log.push(format!("n = {}", n));
    let mut left = n;
    match r.below(7) {
        0 => {
            let mut d = RemainingBytesDecoder::new().length(n);
            let mut got = vec![];
            for _ in 0..r.range(1, 5) {
                let b: Vec<u8> = (0..r.below(5)).map(|_| r.byte()).collect();
                let rest = left - b.len() as u64;
                let ann = match r.below(6) { 0 => ByteCount::Unknown, 1 => ByteCount::Infinite, 2 => ByteCount::Finite(u64::MAX - r.below(3) as u64), 3 => ByteCount::Finite(rest.saturating_sub(1 + r.below(2) as u64)), 4 => ByteCount::Finite(rest & 0xffff_ffff), _ => ByteCount::Finite(rest) };
                let res = kind(d.decode(&b, Eos::with_remaining_bytes(ann)));
                log.push(format!("decode({:?}, {:?}) = {:?}", b, ann, res));
                if let ByteCount::Finite(x) = ann { if x < rest { ck!(res == Err(ErrorKind::UnexpectedEos), ["C07", "C06"], "an input that ends early gave {:?}", res); return Ok(()) } }
                ck!(res == Ok(b.len()), ["C07", "C01"], "decode gave {:?}; expected {}", res, b.len());
                got.extend_from_slice(&b);
                left = rest;
                ck!(d.remaining_bytes() == left && d.requiring_bytes() == ByteCount::Finite(left) && d.expected_bytes() == n && !d.is_idle(), ["C07", "C05"], "remaining_bytes {} requiring_bytes {:?}; {} bytes remain", d.remaining_bytes(), d.requiring_bytes(), left);
                ck!(kind(d.finish_decoding()) == Err(ErrorKind::IncompleteDecoding), ["C07", "C06"], "finished with {} bytes left", left);
            }
        }
        1 => {
            let mut e = PaddingEncoder::new().length(n);
            ck!(kind(e.start_encoding(7)).is_ok(), ["C07"], "start_encoding refused");
            for _ in 0..r.range(1, 5) {
                let mut b = vec![0; r.below(5)];
                let rest = left - b.len() as u64;
                let eos = match r.below(4) { 0 => Eos::new(true), 1 => Eos::with_remaining_bytes(ByteCount::Finite(rest)), _ => Eos::new(false) };
                let res = kind(e.encode(&mut b, eos));
                log.push(format!("encode(.. {} bytes, {:?}) = {:?}", b.len(), eos, res));
                if eos.is_reached() && rest > 0 { ck!(res == Err(ErrorKind::UnexpectedEos), ["C07", "C06"], "a stream that ends early gave {:?}", res); return Ok(()) }
                ck!(res == Ok(b.len()) && b.iter().all(|x| *x == 7), ["C07", "C01"], "encode gave {:?} {:?}; expected {}", res, b, b.len());
                left = rest;
                ck!(e.remaining_bytes() == left && e.exact_requiring_bytes() == left && e.requiring_bytes() == ByteCount::Finite(left), ["C07", "C05"], "remaining_bytes {} with {} left", e.remaining_bytes(), left);
            }
        }
        2 => {
            let mut d = RemainingBytesDecoder::new().max_bytes(n);
            for _ in 0..r.range(1, 5) {
                let b: Vec<u8> = (0..r.below(5)).map(|_| r.byte()).collect();
                let rest = left - b.len() as u64;
                let ann = match r.below(6) { 0 => ByteCount::Unknown, 1 => ByteCount::Finite(rest), 5 if rest < u64::MAX - 8 => ByteCount::Finite(u64::MAX - r.below(4) as u64), 2 if rest < u64::MAX - 8 => ByteCount::Finite(rest + 1 + r.below(3) as u64), 3 => ByteCount::Infinite, _ => ByteCount::Finite(rest & 0xffff_ffff) };
                let res = kind(d.decode(&b, Eos::with_remaining_bytes(ann)));
                log.push(format!("decode({:?}, {:?}) = {:?}", b, ann, res));
                let over = match ann { ByteCount::Infinite => true, ByteCount::Finite(x) => x > rest, _ => false };
                if over { ck!(res == Err(ErrorKind::InvalidInput), ["C08"], "more than {} bytes: {:?}", n, res); return Ok(()) }
                ck!(res == Ok(b.len()), ["C08", "C01"], "decode gave {:?}; expected {}", res, b.len());
                left = rest;
                ck!(d.consumed_bytes() == n - left, ["C08"], "consumed_bytes {}; expected {}", d.consumed_bytes(), n - left);
                if d.is_idle() { return Ok(()) }
                if r.chance(1, 3) {
                    let m = big(r);
                    let res = kind(d.set_max_bytes(m));
                    log.push(format!("set_max_bytes({}) = {:?}", m, res));
                    ck!(res.is_ok() && bytecodec::combinator::MaxBytes::max_bytes(&d) == m, ["C08"], "set_max_bytes({}) gave {:?}", m, res);
                    return Ok(());
                }
            }
        }
        3 => {
            let mut e = BytesEncoder::<Vec<u8>>::new().max_bytes(n);
            let item: Vec<u8> = (0..r.below(9)).map(|_| r.byte()).collect();
            ck!(kind(e.start_encoding(item.clone())).is_ok(), ["C08"], "start_encoding refused");
            let mut out = [0; 16];
            let res = kind(e.encode(&mut out, Eos::with_remaining_bytes(ByteCount::Finite(big(r)))));
            ck!(res == Ok(item.len()) && out[..item.len()] == item[..], ["C08"], "encode gave {:?}", res);
        }
        4 => {
            let mut d = RemainingBytesDecoder::new().slice();
            d.set_consumable_bytes(n);
            let mut got = vec![];
            for _ in 0..r.range(1, 5) {
                let b: Vec<u8> = (0..r.below(5)).map(|_| r.byte()).collect();
                let ann = match r.below(3) { 0 => ByteCount::Unknown, 1 => ByteCount::Infinite, _ => ByteCount::Finite(big(r)) };
                let res = kind(d.decode(&b, Eos::with_remaining_bytes(ann)));
                log.push(format!("decode({:?}, {:?}) = {:?}", b, ann, res));
                ck!(res == Ok(b.len()), ["C09", "C01"], "decode gave {:?}; expected {}", res, b.len());
                left -= b.len() as u64;
                got.extend_from_slice(&b);
                ck!(d.consumable_bytes() == left && !d.is_suspended(), ["C09"], "consumable_bytes {} with {} left", d.consumable_bytes(), left);
            }
            let res = kind(d.decode(&[], Eos::new(true)));
            ck!(res == Ok(0) && kind(d.finish_decoding()) == Ok(got.clone()), ["C09"], "the item is not {:?}", got);
        }
        5 => {
            let mut e = BytesEncoder::<Vec<u8>>::new().slice();
            e.set_consumable_bytes(n);
            let item: Vec<u8> = (0..r.below(9)).map(|_| r.byte()).collect();
            ck!(kind(e.start_encoding(item.clone())).is_ok(), ["C09"], "start_encoding refused");
            let mut out = [0; 16];
            let res = kind(e.encode(&mut out, Eos::with_remaining_bytes(ByteCount::Finite(big(r)))));
            ck!(res == Ok(item.len()) && out[..item.len()] == item[..] && e.consumable_bytes() == n - item.len() as u64, ["C09"], "encode gave {:?}, quota {}", res, e.consumable_bytes());
        }
        _ => {
            let n = n as usize;
            let mut d = U16beDecoder::new().collectn::<Vec<u16>>(n);
            let b: Vec<u8> = (0..r.below(9)).map(|_| r.byte()).collect();
            let res = kind(d.decode(&b, Eos::new(false)));
            log.push(format!("decode({:?}) = {:?}", b, res));
            ck!(res == Ok(b.len()) && d.remaining_items() == n - b.len() / 2, ["C10"], "decode gave {:?}, {} items remain of {}", res, d.remaining_items(), n);
            ck!(!d.is_idle() && kind(d.finish_decoding()) == Err(ErrorKind::IncompleteDecoding), ["C10", "C06"], "finished with items left");
        }
    }
    Ok(())
}
