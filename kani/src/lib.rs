//! Discharges the contracts that contracts/shim.rs assumes about byteorder and a few std functions, on their real code.
//! Every harness is complete: widths are fixed and all bytes, values and offsets are symbolic (the one extra byte at the
//! end stands for the rest of the buffer, which these functions split off by a slice before they look at it).
#[cfg(kani)]
mod proofs {
    use byteorder::{BigEndian, ByteOrder, LittleEndian};

    /// bytes b (of which w count) are the layout of v
    fn layout(v: u64, w: usize, be: bool, b: &[u8]) {
        let mut i = 0;
        while i < w {
            let k = if be { w - 1 - i } else { i };
            assert!(b[i] == (v >> (8 * k)) as u8);
            i += 1;
        }
    }
    macro_rules! int {
        ($m:ident, $O:ident, $be:expr, $w:expr, $ty:ty, $u:ty, $read:ident, $write:ident) => {
            mod $m {
                use super::*;
                #[kani::proof]
                #[kani::unwind(10)]
                fn read() {
                    let b: [u8; $w + 1] = kani::any();
                    let r = $O::$read(&b);
                    layout(r as $u as u64, $w, $be, &b);
                    if $w < 8 { assert!((r as $u as u64) < 1 << (8 * ($w % 8))); }
                }
                #[kani::proof]
                #[kani::unwind(10)]
                fn write() {
                    let old: [u8; $w + 1] = kani::any();
                    let mut b = old;
                    let n: $ty = kani::any();
                    if $w < 8 { kani::assume((n as $u as u64) < 1 << (8 * ($w % 8))); }
                    $O::$write(&mut b, n);
                    layout(n as $u as u64, $w, $be, &b);
                    assert!(b[$w] == old[$w]);
                }
            }
        };
    }
    macro_rules! float {
        ($m:ident, $O:ident, $be:expr, $w:expr, $ty:ty, $read:ident, $write:ident) => {
            mod $m {
                use super::*;
                #[kani::proof]
                #[kani::unwind(10)]
                fn read() {
                    let b: [u8; $w + 1] = kani::any();
                    layout($O::$read(&b).to_bits() as u64, $w, $be, &b);
                }
                #[kani::proof]
                #[kani::unwind(10)]
                fn write() {
                    let old: [u8; $w + 1] = kani::any();
                    let mut b = old;
                    let n = <$ty>::from_bits(kani::any());
                    $O::$write(&mut b, n);
                    layout(n.to_bits() as u64, $w, $be, &b);
                    assert!(b[$w] == old[$w]);
                }
            }
        };
    }
    macro_rules! uint {
        ($m:ident, $O:ident, $be:expr) => {
            mod $m {
                use super::*;
                #[kani::proof]
                #[kani::unwind(10)]
                fn read() {
                    let b: [u8; 9] = kani::any();
                    let n: usize = kani::any();
                    kani::assume(1 <= n && n <= 8);
                    let r = $O::read_uint(&b, n);
                    layout(r, n, $be, &b);
                    if n < 8 { assert!(r < 1 << (8 * n)); }
                }
                #[kani::proof]
                #[kani::unwind(10)]
                fn write() {
                    let old: [u8; 9] = kani::any();
                    let mut b = old;
                    let n: usize = kani::any();
                    let x: u64 = kani::any();
                    kani::assume(1 <= n && n <= 8);
                    if n < 8 { kani::assume(x < 1 << (8 * n)); }
                    $O::write_uint(&mut b, x, n);
                    layout(x, n, $be, &b);
                    let i: usize = kani::any();
                    kani::assume(n <= i && i < 9);
                    assert!(b[i] == old[i]);
                }
            }
        };
    }
    macro_rules! order {
        ($m:ident, $O:ident, $be:expr) => {
            mod $m {
                use super::*;
                int!(u16_, $O, $be, 2, u16, u16, read_u16, write_u16);
                int!(i16_, $O, $be, 2, i16, u16, read_i16, write_i16);
                int!(u24_, $O, $be, 3, u32, u32, read_u24, write_u24);
                int!(u32_, $O, $be, 4, u32, u32, read_u32, write_u32);
                int!(i32_, $O, $be, 4, i32, u32, read_i32, write_i32);
                int!(u64_, $O, $be, 8, u64, u64, read_u64, write_u64);
                int!(i64_, $O, $be, 8, i64, u64, read_i64, write_i64);
                float!(f32_, $O, $be, 4, f32, read_f32, write_f32);
                float!(f64_, $O, $be, 8, f64, read_f64, write_f64);
                uint!(uint_, $O, $be);
            }
        };
    }
    order!(be, BigEndian, true);
    order!(le, LittleEndian, false);
    // std
    #[kani::proof]
    fn min_max() {
        let (a, b): (usize, usize) = (kani::any(), kani::any());
        assert!(std::cmp::min(a, b) == if a <= b { a } else { b });
        assert!(std::cmp::max(a, b) == if a <= b { b } else { a });
        let (a, b): (u64, u64) = (kani::any(), kani::any());
        assert!(std::cmp::min(a, b) == if a <= b { a } else { b });
        assert!(std::cmp::max(a, b) == if a <= b { b } else { a });
    }
    #[kani::proof]
    fn u64_from_bool() {
        let b: bool = kani::any();
        assert!(u64::from(b) == if b { 1 } else { 0 });
    }
    #[kani::proof]
    fn option_map_or() {
        let (o, d, m): (Option<u64>, u64, u64) = (kani::any(), kani::any(), kani::any());
        assert!(o.map_or(d, |x| x ^ m) == match o { Some(x) => x ^ m, None => d });
        assert!(o.is_some_and(|x| x < m) == match o { Some(x) => x < m, None => false });
    }
    #[kani::proof]
    fn mem_take() {
        let a: u64 = kani::any();
        let mut b = a;
        assert!(std::mem::take(&mut b) == a && b == u64::default());
    }
}
