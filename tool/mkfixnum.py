#!/usr/bin/env python3
"""writes contracts/fixnum.ov: the contracts of the fixed-width number codecs"""
import os
o = []
w = o.append
w("""@@ use
use crate::shim::byteorder::{layout, pow256, byte, f32_bits, f64_bits};
use crate::bytes::fills;
@@ prelude
/// the item's bytes (those already read and those still to come) are the layout l
pub open spec fn fix_item<const N: usize>(d: CopyableBytesDecoder<[u8; N]>, fresh: bool, s: Seq<u8>, p: int, q: int, l: Seq<u8>) -> bool {
    exists|b: [u8; N]| #[trigger] d.den(fresh, s, p, Out::Item(q, b)) && b@ == l
}""")
SIGN = """proof {
            %s
            assert(x < 128u8 ==> (x as i8) as i16 == x as i16) by (bit_vector);
            assert(x >= 128u8 ==> (x as i8) as i16 == sub(x as i16, 256i16)) by (bit_vector);
            assert(x as int / 1 == x as int);
        }"""
w("@@ body I8Decoder::decode_item start\n        " + SIGN % "let x = b[0];")
w("""@@ body I8Encoder::encode_item start
        proof {
            assert(n >= 0i8 ==> (n as u8) as i16 == n as i16) by (bit_vector);
            assert(n < 0i8 ==> (n as u8) as i16 == add(n as i16, 256i16)) by (bit_vector);
        }""")
T = [('U8', 'u8', 1), ('I8', 'i8', 1)]
for n, t, k in [('U16', 'u16', 2), ('I16', 'i16', 2), ('U24', 'u32', 3), ('U32', 'u32', 4), ('I32', 'i32', 4), ('U40', 'u64', 5), ('U48', 'u64', 6),
                ('U56', 'u64', 7), ('U64', 'u64', 8), ('I64', 'i64', 8), ('F32', 'f32', 4), ('F64', 'f64', 8)]:
    T += [(n + 'be', t, k), (n + 'le', t, k)]
for name, t, k in T:
    be = 'false' if name.endswith('le') else 'true'
    val = lambda x: '%s_bits(%s) as int' % (t, x) if t[0] == 'f' else '%s as int' % x
    odd = k in (3, 5, 6, 7)
    lay = lambda x: 'layout(%s, %d, %s)' % (val(x), k, be)
    d, e = name + 'Decoder', name + 'Encoder'
    w("""@@ fn %(d)s::new
    ensures r.0.inv(), r.0.offset == 0, //@ C03 a new decoder has read nothing
@@ fn %(d)s as Default::default
    ensures r.0.inv(), r.0.offset == 0, //@ C03 a new decoder has read nothing
@@ fn %(d)s::decode_item
    ensures %(lr)s == b@, //@ C03 the value whose layout are the bytes
        %(rng)s
@@ impl %(d)s as Decode
    open spec fn inv(&self) -> bool { self.0.inv() }
    open spec fn idle(&self) -> bool { self.0.idle() }
    open spec fn limited(&self) -> bool { false }
    open spec fn req(&self) -> ByteCount { ByteCount::Finite((%(k)d - self.0.offset) as u64) }
    open spec fn lb_ok(&self) -> bool { true }
    open spec fn den(&self, fresh: bool, s: Seq<u8>, p: int, o: Out<%(t)s>) -> bool {
        match o {
            Out::End(q) => self.0.den(fresh, s, p, Out::End(q)),
            Out::Item(q, x) => fix_item(self.0, fresh, s, p, q, %(lx)s)%(rx)s,
            Out::Fail(k) => self.0.den(fresh, s, p, Out::Fail(k)),
        }
    }
@@ fn %(e)s::new
    ensures r.0.bytes is None, //@ C03 a new encoder is idle
@@ fn %(e)s as Default::default
    ensures r.0.bytes is None, //@ C03 a new encoder is idle
@@ fn %(e)s::encode_item
    ensures %(enc)s
@@ impl %(e)s as Encode
    open spec fn inv(&self) -> bool { self.0.inv() }
    open spec fn idle(&self) -> bool { self.0.idle() }
    open spec fn limited(&self) -> bool { false }
    open spec fn req(&self) -> ByteCount { self.0.req() }
    open spec fn den(&self, s: Seq<u8>, p: int, o: EOut) -> bool { self.0.den(s, p, o) }
    open spec fn enc(&self, item: %(t)s, s: Seq<u8>, p: int, o: EOut) -> bool {
        %(encden)s
    }
@@ impl %(e)s as SizedEncode
    open spec fn sized_ok(&self) -> bool { true }
@@ fn %(e)s as SizedEncode::exact_requiring_bytes
    ensures r == self.0.rest().len(), //@ C05 the bytes left to write""" % dict(
        d=d, e=e, t=t, k=k, lr=lay('r'), lx=lay('x'),
        rng='(r as int) < pow256(%d), //@ C03 within the range of the width' % k if odd else '',
        rx=' && (x as int) < pow256(%d)' % k if odd else '',
        enc='r is Ok == ((n as int) < pow256(%d)), //@ C03 values that do not fit are rejected\n        r matches Err(x) ==> x.k() == ErrorKind::InvalidInput, //@ C03 rejected with InvalidInput\n        r is Ok ==> final(b)@ == %s, //@ C03 the bytes are the layout of the value' % (k, lay('n'))
            if odd else 'r is Ok, //@ C03 every value is accepted\n        final(b)@ == %s, //@ C03 the bytes are the layout of the value' % lay('n'),
        encden='if (item as int) < pow256(%d) { writes(%s, s, p, o) } else { o == EOut::Fail(ErrorKind::InvalidInput) }' % (k, lay('item')) if odd else 'writes(%s, s, p, o)' % lay('item')))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'fixnum.ov'), 'w').write('\n'.join(o) + '\n')
