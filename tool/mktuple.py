#!/usr/bin/env python3
"""writes contracts/tuple.ov: the contracts of the tuple codecs, one instance per arity"""
import os
o = []
w = o.append
w('''@@ use

use crate::byte_count::{add_dec, add_enc, sat_add};
@@ prelude
/// an idle component holds its item whatever the stream; a component that is not idle is described by its denotation
pub open spec fn c_end<D: Decode>(d: D, f: bool, s: Seq<u8>, p: int, q: int) -> bool {
    d.den(f, s, p, Out::End(q)) && (!f && d.idle() ==> q == p && uni_end(&d))
}
pub open spec fn c_item<D: Decode>(d: D, f: bool, s: Seq<u8>, p: int, q: int, x: D::Item) -> bool {
    d.den(f, s, p, Out::Item(q, x)) && (!f && d.idle() ==> q == p && uni_item(&d, x))
}
pub open spec fn c_fail<D: Decode>(d: D, f: bool, s: Seq<u8>, p: int, k: ErrorKind) -> bool {
    d.den(f, s, p, Out::Fail(k)) && (!f && d.idle() ==> uni_fail(&d, k))
}''')
def L(n, f, a=0, sep=', '): return sep.join(f(i) for i in range(a, n))
def tail_T(n): return '<' + L(n, lambda i: 'D%d: Decode' % i) + '>'
for n in range(2, 9):
    gen = tail_T(n)
    ps = L(n, lambda i: 'd%d: D%d' % (i, i))
    tl = lambda i: L(n, lambda j: 'd%d' % j, 1)
    items = L(n, lambda i: 'x%d: D%d::Item' % (i, i))
    rest_end = 'c_end(d1, f, s, q, e)' if n == 2 else 'end%d(%s, f, s, q, e)' % (n - 1, tl(0))
    rest_item = 'c_item(d1, f, s, q, e, x1)' if n == 2 else 'item%d(%s, f, s, q, e, %s)' % (n - 1, tl(0), L(n, lambda i: 'x%d' % i, 1))
    rest_fail = 'c_fail(d1, f, s, q, k)' if n == 2 else 'fail%d(%s, f, s, q, k)' % (n - 1, tl(0))
    w('''pub open spec fn end%d%s(%s, f: bool, s: Seq<u8>, p: int, e: int) -> bool {
    exists|q: int| #[trigger] d0.den(f, s, p, Out::End(q)) && c_end(d0, f, s, p, q) && %s
}''' % (n, gen, ps, rest_end))
    w('''pub open spec fn item%d%s(%s, f: bool, s: Seq<u8>, p: int, e: int, %s) -> bool {
    exists|q: int| #[trigger] d0.den(f, s, p, Out::Item(q, x0)) && c_item(d0, f, s, p, q, x0) && %s
}''' % (n, gen, ps, items, rest_item))
    w('''pub open spec fn fail%d%s(%s, f: bool, s: Seq<u8>, p: int, k: ErrorKind) -> bool {
    c_fail(d0, f, s, p, k) || exists|q: int| #[trigger] d0.den(f, s, p, Out::End(q)) && c_end(d0, f, s, p, q) && %s
}''' % (n, gen, ps, rest_fail))
def fold(n, f, g, z):
    e = z
    for i in range(n):
        e = g % (e, f(i))
    return e
for n in range(2, 9):
    d = lambda i: 'self.inner.%d' % i
    every = lambda m: L(n, lambda i: d(i) + '.%s()' % m, sep=' && ')
    ds = L(n, d)
    w('''@@ impl TupleDecoder%d as Decode
    open spec fn over() -> bool { false }
    open spec fn inv(&self) -> bool { %s }
    open spec fn idle(&self) -> bool { %s }
    open spec fn limited(&self) -> bool { %s }
    open spec fn req(&self) -> ByteCount { %s }
    open spec fn lb_ok(&self) -> bool { %s }
    open spec fn den(&self, fresh: bool, s: Seq<u8>, p: int, o: Out<(%s,)>) -> bool {
        match o {
            Out::End(e) => end%d(%s, fresh, s, p, e),
            Out::Item(e, x) => item%d(%s, fresh, s, p, e, %s),
            Out::Fail(k) => fail%d(%s, fresh, s, p, k),
        }
    }''' % (n, every('inv'), every('idle'), L(n, lambda i: d(i) + '.limited()', sep=' || '),
            fold(n, lambda i: d(i) + '.req()', 'add_dec(%s, %s)', 'ByteCount::Finite(0)'), every('lb_ok'),
            L(n, lambda i: 'D%d::Item' % i), n, ds, n, ds, L(n, lambda i: 'x.%d' % i), n, ds))


# ---------------------------------------------------------------- decode of every arity
# One lemma per arity for each way a call may go on: the first component moves and the rest is untouched (head), or the first component
# is finished and the rest has moved (cons). A call that stops at component i is then head followed by i times cons.
w("""@@ prelude
/// the call has taken the component from a to b while consuming buf from o0 to o1
#[verifier::opaque]
pub open spec fn step<D: Decode>(a: D, b: D, o0: int, o1: int, buf: Seq<u8>, eos: Eos) -> bool {
    (a.idle() ==> a == b && o0 == o1)
    && forall|s: Seq<u8>, q: int, o: Out<D::Item>| #[trigger] b.den(false, s, q, o) && here(s, q - o1, buf, eos) ==> a.den(false, s, q - o1 + o0, o)
}
#[verifier::opaque]
pub open spec fn done<D: Decode>(d: D) -> bool { d.idle() && uni_end(&d) }
#[verifier::opaque]
pub open spec fn conf<D: Decode>(a: D, b: D) -> bool {
    forall|s: Seq<u8>, p: int, o: Out<D::Item>| #[trigger] b.den(true, s, p, o) ==> a.den(true, s, p, o)
}
#[verifier::opaque]
pub open spec fn errs<D: Decode>(d: D, o0: int, k: ErrorKind, buf: Seq<u8>, eos: Eos) -> bool {
    !d.idle() && forall|s: Seq<u8>, p: int| #[trigger] here(s, p, buf, eos) ==> d.den(false, s, p + o0, Out::Fail(k))
}
pub proof fn conf_same<D: Decode>(a: D) ensures conf(a, a) { reveal(conf); }
pub proof fn here_rest(s: Seq<u8>, p: int, buf: Seq<u8>, eos: Eos, n: int)
    requires here(s, p, buf, eos), 0 <= n <= buf.len(),
    ensures here(s, p + n, buf.subrange(n, buf.len() as int), eos), within(s, p + n),
{ mark_root(buf); here_suffix(s, p, buf, eos, n, buf.len() as int); }
pub proof fn step_same<D: Decode>(a: D, o0: int, buf: Seq<u8>, eos: Eos)
    requires a.idle(), uni_end(&a),
    ensures step(a, a, o0, o0, buf, eos), done(a), conf(a, a),
{ reveal(step); reveal(done); reveal(conf); }
pub proof fn step_made<D: Decode>(a: D, b: D, o0: int, k: int, buf: Seq<u8>, eos: Eos)
    requires
        !a.idle(), 0 <= o0 <= buf.len(),
        forall|s: Seq<u8>, q: int, o: Out<D::Item>| #[trigger] b.den(false, s, q, o) && here(s, q - k, buf.subrange(o0, buf.len() as int), eos) ==> a.den(false, s, q - k, o),
        forall|s: Seq<u8>, p: int, o: Out<D::Item>| #[trigger] b.den(true, s, p, o) ==> a.den(true, s, p, o),
    ensures step(a, b, o0, o0 + k, buf, eos), conf(a, b),
{
    reveal(step); reveal(conf);
    let o1 = o0 + k;
    assert forall|s: Seq<u8>, q: int, o: Out<D::Item>| #[trigger] b.den(false, s, q, o) && here(s, q - o1, buf, eos) implies a.den(false, s, q - o1 + o0, o) by {
        here_rest(s, q - o1, buf, eos, o0);
        assert(q - o1 + o0 == q - k);
    }
}
pub proof fn errs_made<D: Decode>(d: D, b: D, o0: int, k: ErrorKind, buf: Seq<u8>, eos: Eos)
    requires
        !d.idle(), 0 <= o0 <= buf.len(),
        forall|s: Seq<u8>, p: int| #![trigger here(s, p, buf.subrange(o0, buf.len() as int), eos)] here(s, p, buf.subrange(o0, buf.len() as int), eos) ==> d.den(false, s, p, Out::Fail(k)),
        forall|s: Seq<u8>, p: int, o: Out<D::Item>| #[trigger] b.den(true, s, p, o) ==> d.den(true, s, p, o),
    ensures errs(d, o0, k, buf, eos), conf(d, b),
{
    reveal(errs); reveal(conf);
    assert forall|s: Seq<u8>, p: int| #[trigger] here(s, p, buf, eos) implies d.den(false, s, p + o0, Out::Fail(k)) by { here_rest(s, p, buf, eos, o0); }
}
pub open spec fn end1<D: Decode>(d: D, f: bool, s: Seq<u8>, p: int, q: int) -> bool { c_end(d, f, s, p, q) }
pub open spec fn item1<D: Decode>(d: D, f: bool, s: Seq<u8>, p: int, q: int, x: D::Item) -> bool { c_item(d, f, s, p, q, x) }
pub open spec fn fail1<D: Decode>(d: D, f: bool, s: Seq<u8>, p: int, k: ErrorKind) -> bool { c_fail(d, f, s, p, k) }""")
def tup(n, v='d', a=0): return L(n, lambda i: '%s%d' % (v, i), a)
for n in range(1, 9):
    gen = tail_T(n)
    ps = L(n, lambda i: 'd%d: D%d' % (i, i))
    pe = L(n, lambda i: 'e%d: D%d' % (i, i))
    xs = L(n, lambda i: 'x%d' % i)
    xt = L(n, lambda i: 'x%d: D%d::Item' % (i, i))
    def clauses(n, d, e, f, guard, to):
        xs, xt = L(n, lambda i: 'x%d' % i), L(n, lambda i: 'x%d: D%d::Item' % (i, i))
        return ["forall|s: Seq<u8>, q: int, e: int| #[trigger] end%d(%s, %s, s, q, e)%s ==> end%d(%s, %s, s, %s, e)" % (n, e, f, guard, n, d, f, to),
                "forall|s: Seq<u8>, q: int, e: int, %s| #[trigger] item%d(%s, %s, s, q, e, %s)%s ==> item%d(%s, %s, s, %s, e, %s)" % (xt, n, e, f, xs, guard, n, d, f, to, xs),
                "forall|s: Seq<u8>, q: int, k: ErrorKind| #[trigger] fail%d(%s, %s, s, q, k)%s ==> fail%d(%s, %s, s, %s, k)" % (n, e, f, guard, n, d, f, to)]
    G, TO = ' && here(s, q - o1, buf, eos)', 'q - o1 + o0'
    sf = clauses(n, tup(n), tup(n, 'e'), 'false', G, TO)
    cf = clauses(n, tup(n), tup(n, 'e'), 'true', '', 'q')
    w("""/// the call has taken %d components from d0.. to e0.. while consuming buf from o0 to o1
#[verifier::opaque]
pub open spec fn moved%d%s(%s, %s, o0: int, o1: int, buf: Seq<u8>, eos: Eos) -> bool {
    (%s)
}
#[verifier::opaque]
pub open spec fn confs%d%s(%s, %s) -> bool {
    (%s)
}
#[verifier::opaque]
pub open spec fn failed%d%s(%s, o0: int, k: ErrorKind, buf: Seq<u8>, eos: Eos) -> bool {
    forall|s: Seq<u8>, p: int| #[trigger] here(s, p, buf, eos) ==> fail%d(%s, false, s, p + o0, k)
}
#[verifier::opaque]
pub open spec fn ready%d%s(%s) -> bool {
    forall|s: Seq<u8>, p: int| #![trigger within(s, p)] within(s, p) ==> end%d(%s, false, s, p, p)
}""" % (n, n, gen, ps, pe, ')\n    && ('.join(sf), n, gen, ps, pe, ')\n    && ('.join(cf), n, gen, ps, n, tup(n), n, gen, ps, n, tup(n)))
    def prove(cl, by):
        return '\n'.join('    assert ' + c.replace(' ==> ', ' implies ', 1) + ' by { %s }' % b for c, b in zip(cl, by))
    de = 'e0, ' + tup(n, 'd', 1) if n > 1 else 'e0'
    hd = clauses(n, tup(n), de, 'false', G, TO)
    if n == 1:
        by = ['', '', '']
    else:
        T = lambda v: tup(n, v, 1)
        by = ["let m = choose|m: int| #[trigger] e0.den(false, s, q, Out::End(m)) && c_end(e0, false, s, q, m) && end%d(%s, false, s, m, e); assert(d0.den(false, s, q - o1 + o0, Out::End(m)));" % (n - 1, T('d')),
              "let m = choose|m: int| #[trigger] e0.den(false, s, q, Out::Item(m, x0)) && c_item(e0, false, s, q, m, x0) && item%d(%s, false, s, m, e, %s); assert(d0.den(false, s, q - o1 + o0, Out::Item(m, x0)));" % (n - 1, T('d'), L(n, lambda i: 'x%d' % i, 1)),
              "if c_fail(e0, false, s, q, k) { } else { let m = choose|m: int| #[trigger] e0.den(false, s, q, Out::End(m)) && c_end(e0, false, s, q, m) && fail%d(%s, false, s, m, k); assert(d0.den(false, s, q - o1 + o0, Out::End(m))); }" % (n - 1, T('d'))]
    w("""pub proof fn head%d%s(%s, e0: D0, o0: int, o1: int, buf: Seq<u8>, eos: Eos)
    requires step(d0, e0, o0, o1, buf, eos),
    ensures moved%d(%s, %s, o0, o1, buf, eos),
{
    reveal(step); reveal(moved%d);
%s
}
pub proof fn fail_head%d%s(%s, o0: int, k: ErrorKind, buf: Seq<u8>, eos: Eos)
    requires errs(d0, o0, k, buf, eos),
    ensures failed%d(%s, o0, k, buf, eos),
{ reveal(errs); reveal(failed%d); }""" % (n, gen, ps, n, tup(n), de, n, prove(hd, by), n, gen, ps, n, tup(n), n))
    if n == 1:
        w("""pub proof fn ready_all1<D0: Decode>(d0: D0) requires done(d0), ensures ready1(d0), { reveal(done); reveal(ready1); }
pub proof fn conf_all1<D0: Decode>(d0: D0, e0: D0) requires conf(d0, e0), ensures confs1(d0, e0), { reveal(conf); reveal(confs1); }""")
        continue
    T = lambda v: tup(n, v, 1)
    xr = L(n, lambda i: 'x%d' % i, 1)
    cs = [c.replace('q - o1', 'q - o2') for c in sf]
    A = 'q - o2 + o1'
    by = ["assert(end%d(%s, false, s, q, e)); assert(end%d(%s, false, s, %s, e)); assert(within(s, %s)); assert(e0.den(false, s, %s, Out::End(%s))); assert(d0.den(false, s, q - o2 + o0, Out::End(%s)));" % (n - 1, T('e'), n - 1, T('d'), A, A, A, A, A),
          "assert(item%d(%s, false, s, q, e, %s)); assert(item%d(%s, false, s, %s, e, %s)); assert(within(s, %s)); assert(e0.den(false, s, %s, Out::Item(%s, x0))); assert(d0.den(false, s, q - o2 + o0, Out::Item(%s, x0)));" % (n - 1, T('e'), xr, n - 1, T('d'), A, xr, A, A, A, A),
          "assert(within(s, %s)); if c_fail(e0, false, s, q, k) { assert(e0.den(false, s, %s, Out::Fail(k))); } else { assert(fail%d(%s, false, s, q, k)); assert(fail%d(%s, false, s, %s, k)); assert(e0.den(false, s, %s, Out::End(%s))); assert(d0.den(false, s, q - o2 + o0, Out::End(%s))); }" % (A, A, n - 1, T('e'), n - 1, T('d'), A, A, A, A)]
    w("""pub proof fn cons%d%s(%s, %s, o0: int, o1: int, o2: int, buf: Seq<u8>, eos: Eos)
    requires step(d0, e0, o0, o1, buf, eos), done(e0), moved%d(%s, %s, o1, o2, buf, eos), 0 <= o0 <= o1 <= buf.len(),
    ensures moved%d(%s, %s, o0, o2, buf, eos),
{
    hide(here); reveal(step); reveal(done); reveal(moved%d); reveal(moved%d);
    assert forall|s: Seq<u8>, p: int| #[trigger] here(s, p, buf, eos) implies within(s, p + o1) by { here_rest(s, p, buf, eos, o1); }
%s
}
pub proof fn fail_cons%d%s(%s, e0: D0, o0: int, o1: int, k: ErrorKind, buf: Seq<u8>, eos: Eos)
    requires step(d0, e0, o0, o1, buf, eos), done(e0), failed%d(%s, o1, k, buf, eos), 0 <= o0 <= o1 <= buf.len(),
    ensures failed%d(%s, o0, k, buf, eos),
{
    hide(here); reveal(step); reveal(done); reveal(failed%d); reveal(failed%d);
    assert forall|s: Seq<u8>, p: int| #[trigger] here(s, p, buf, eos) implies fail%d(%s, false, s, p + o0, k) by {
        here_rest(s, p, buf, eos, o1);
        assert(e0.den(false, s, p + o1, Out::End(p + o1)));
        assert(p + o1 - o1 == p);
        assert(d0.den(false, s, p + o0, Out::End(p + o1)));
    }
}
pub proof fn ready_all%d%s(%s)
    requires done(d0), ready%d(%s),
    ensures ready%d(%s),
{
    reveal(done); reveal(ready%d); reveal(ready%d);
    assert forall|s: Seq<u8>, p: int| #![trigger within(s, p)] within(s, p) implies end%d(%s, false, s, p, p) by { assert(d0.den(false, s, p, Out::End(p))); }
}
pub proof fn conf_all%d%s(%s, %s)
    requires conf(d0, e0), confs%d(%s, %s),
    ensures confs%d(%s, %s),
{
    reveal(conf); reveal(confs%d); reveal(confs%d);
%s
}""" % (n, gen, ps, pe, n - 1, T('d'), T('e'), n, tup(n), tup(n, 'e'), n, n - 1, prove(cs, by),
        n, gen, ps, n - 1, T('d'), n, tup(n), n, n - 1, n, tup(n),
        n, gen, ps, n - 1, T('d'), n, tup(n), n, n - 1, n, tup(n),
        n, gen, ps, pe, n - 1, T('d'), T('e'), n, tup(n), tup(n, 'e'), n, n - 1,
        prove(cf, ["let m = choose|m: int| #[trigger] e0.den(true, s, q, Out::End(m)) && c_end(e0, true, s, q, m) && end%d(%s, true, s, m, e); assert(d0.den(true, s, q, Out::End(m)));" % (n - 1, T('e')),
                   "let m = choose|m: int| #[trigger] e0.den(true, s, q, Out::Item(m, x0)) && c_item(e0, true, s, q, m, x0) && item%d(%s, true, s, m, e, %s); assert(d0.den(true, s, q, Out::Item(m, x0)));" % (n - 1, T('e'), xr),
                   "if c_fail(e0, true, s, q, k) { } else { let m = choose|m: int| #[trigger] e0.den(true, s, q, Out::End(m)) && c_end(e0, true, s, q, m) && fail%d(%s, true, s, m, k); assert(d0.den(true, s, q, Out::End(m))); }" % (n - 1, T('e'))])))
for n in range(2, 9):
    K = 'TupleDecoder%d as Decode::decode' % n
    S = lambda i: 'self.inner.%d' % i
    B = 'buf@, eos'
    w('@@ expand %s bytecodec_try_decode' % K)
    w('@@ attr TupleDecoder%d as Decode::requiring_bytes :: #[verifier::spinoff_prover]' % n)
    w("@@ attr %s :: #[verifier::spinoff_prover]" % K)
    for i in range(n):
        w(r'@@ unfold %s /\(self\.inner\.%d\.decode\(&buf\[offset\.\.\], eos\)\)\?/ -> /match self.inner.%d.decode(&buf[offset..], eos) { Ok(v) => v, Err(e%d) => return Err(e%d) }/' % (K, i, i, i, i))
    w("@@ body %s start\n        hide(here); hide(within); hide(end%d); hide(item%d); hide(fail%d); let ghost o0: int = 0; let ghost bs = buf@;" % (K, n, n, n))
    w('        ' + ' '.join('let ghost d%d = self.inner.%d;' % (i, i) for i in range(n)))
    def confs(upto):
        # components after `upto` are untouched
        r = ''.join('conf_same(d%d); ' % j for j in range(upto + 1, n))
        ee = lambda j: S(j) if j <= upto else 'd%d' % j
        for j in range(n - 1, -1, -1):
            r += 'conf_all%d(%s, %s); ' % (n - j, L(n, lambda x: 'd%d' % x, j), L(n, ee, j))
        return r + 'reveal(confs%d); ' % n
    for i in range(n):
        ee = lambda j, i=i: S(j) if j <= i else 'd%d' % j
        chain = 'head%d(%s, %s, o%d, offset as int, bs, eos); ' % (n - i, L(n, lambda x: 'd%d' % x, i), S(i), i)
        for j in range(i - 1, -1, -1):
            chain += 'cons%d(%s, %s, o%d, o%d, offset as int, bs, eos); ' % (n - j, L(n, lambda x: 'd%d' % x, j), L(n, ee, j), j, j + 1)
        chain += 'reveal(moved%d); ' % n
        fch = 'fail_head%d(%s, o%d, e%d.k(), bs, eos); ' % (n - i, L(n, lambda x: 'd%d' % x, i), i, i)
        for j in range(i - 1, -1, -1):
            fch += 'fail_cons%d(%s, %s, o%d, o%d, e%d.k(), bs, eos); ' % (n - j, L(n, lambda x: 'd%d' % x, j), S(j), j, j + 1, i)
        fch += 'reveal(failed%d); ' % n
        w(r"@@ body %s before /return Err\(e%d\)/" % (K, i) + "\n        { proof { errs_made(d%d, %s, o%d, e%d.k(), bs, eos); %s%s }" % (i, S(i), i, i, fch, confs(i)))
        w(r"@@ body %s after /return Err\(e%d\)/" % (K, i) + "\n        }")
        w(r"@@ body %s before /if\s*!self\.inner\.%d\.is_idle\(\)\s*\{(?=\s*return)/" % (K, i) + "\n        proof { step_made(d%d, %s, o%d, offset - o%d, bs, eos); }" % (i, S(i), i, i))
        w(r"@@ body %s after /if\s*!self\.inner\.%d\.is_idle\(\)\s*\{(?=\s*return)/" % (K, i) + "\n        proof { %s%s }" % (chain, confs(i)))
        at = lambda i: r"before /if\s*!self\.inner\.%d\.is_idle\(\)\s*\{(?=\s*offset)/" % i if i < n else r"before /\bOk\(offset\)(?=\s*$)/"
        def facts(i, out=False):
            r = ['bs == buf@', 'o0 == 0', 'offset <= bs.len()', 'o%d <= bs.len()' % (i - 1) if out else 'offset as int == o%d' % i]
            for j in range(n):
                r += ['d%d == (*old(self)).inner.%d' % (j, j)]
                if j < i:
                    nx = 'offset as int' if out and j == i - 1 else 'o%d' % (j + 1)
                    r += ['step(d%d, %s, o%d, %s, bs, eos)' % (j, S(j), j, nx), 'done(%s)' % S(j), 'conf(d%d, %s)' % (j, S(j)), S(j) + '.inv()',
                          S(j) + '.idle()', S(j) + '.limited() == d%d.limited()' % j, 'o%d <= %s' % (j, nx), 'd%d.idle() ==> o%d == %s' % (j, j, nx)]
                else:
                    r += ['%s == d%d' % (S(j), j), 'd%d.inv()' % j]
            return r
        w("@@ body %s %s\n        let ghost o%d = offset as int;\n        loop invariant_except_break %s,\n            ensures %s,\n        {" % (K, at(i), i, ', '.join(facts(i)), ', '.join(facts(i + 1, True)))
          if i else "@@ body %s %s\n        loop invariant_except_break %s,\n            ensures %s,\n        {" % (K, at(i), ', '.join(facts(i)), ', '.join(facts(i + 1, True))))
        # the end of this component's block
        end_i = "        proof { if d%d.idle() { step_same(d%d, o%d, bs, eos); } else { reveal(done); } }\n        break; }" % (i, i, i)
        w("@@ body %s %s\n%s" % (K, at(i + 1), end_i))
        if i == n - 1:
            rd = ''.join('ready_all%d(%s); ' % (n - j, L(n, S, j)) for j in range(n - 1, -1, -1))
            w("@@ body %s %s" % (K, at(n)) + "\n        proof { %s%s%sreveal(ready%d); }" % (chain, confs(i), rd, n))

# ---------------------------------------------------------------- requiring_bytes of every arity
w("""@@ prelude
pub open spec fn known(c: ByteCount) -> int { if c is Finite { c->Finite_0 as int } else { 0 } }
/// the item in progress ends within the stream and takes at least the bytes required
#[verifier::opaque]
pub open spec fn bound<D: Decode>(d: D) -> bool {
    (forall|s: Seq<u8>, p: int, e: int| #[trigger] d.den(false, s, p, Out::End(e)) && within(s, p) ==> p <= e <= s.len())
    && (d.lb_ok() && d.req() is Finite ==> forall|s: Seq<u8>, p: int, e: int| #[trigger] d.den(false, s, p, Out::End(e)) && within(s, p) ==> e - p >= d.req()->Finite_0)
}""")
for n in range(1, 9):
    gen = tail_T(n)
    ps = L(n, lambda i: 'd%d: D%d' % (i, i))
    T = tup(n, 'd', 1)
    w("""pub open spec fn total%d%s(acc: ByteCount, %s) -> ByteCount { %s }
#[verifier::opaque]
pub open spec fn bounds%d%s(acc: ByteCount, %s) -> bool {
    (forall|s: Seq<u8>, p: int, e: int| #[trigger] end%d(%s, false, s, p, e) && within(s, p) ==> p <= e <= s.len())
    && (%s && total%d(acc, %s) is Finite ==> !(acc is Infinite) && forall|s: Seq<u8>, p: int, e: int| #[trigger] end%d(%s, false, s, p, e) && within(s, p) ==> e - p + known(acc) >= total%d(acc, %s)->Finite_0)
}""" % (n, gen, ps, 'add_dec(acc, d0.req())' if n == 1 else 'total%d(add_dec(acc, d0.req()), %s)' % (n - 1, T),
        n, gen, ps, n, tup(n), L(n, lambda i: 'd%d.lb_ok()' % i, sep=' && '), n, tup(n), n, tup(n), n, tup(n)))
    if n == 1:
        w("pub proof fn bound_all1<D0: Decode>(acc: ByteCount, d0: D0) requires bound(d0), ensures bounds1(acc, d0), { reveal(bound); reveal(bounds1); }")
        continue
    get = "let q = choose|q: int| #[trigger] d0.den(false, s, p, Out::End(q)) && c_end(d0, false, s, p, q) && end%d(%s, false, s, q, e); assert(p <= q <= s.len()); assert(within(s, q));" % (n - 1, T)
    w("""pub proof fn bound_all%d%s(acc: ByteCount, %s)
    requires bound(d0), bounds%d(add_dec(acc, d0.req()), %s),
    ensures bounds%d(acc, %s),
{
    reveal(bound); reveal(bounds%d); reveal(bounds%d);
    assert forall|s: Seq<u8>, p: int, e: int| #[trigger] end%d(%s, false, s, p, e) && within(s, p) implies p <= e <= s.len() by { %s }
    if %s && total%d(acc, %s) is Finite {
        assert forall|s: Seq<u8>, p: int, e: int| #[trigger] end%d(%s, false, s, p, e) && within(s, p) implies e - p + known(acc) >= total%d(acc, %s)->Finite_0 by { %s }
    }
}""" % (n, gen, ps, n - 1, T, n, tup(n), n, n - 1, n, tup(n), get, L(n, lambda i: 'd%d.lb_ok()' % i, sep=' && '), n, tup(n), n, tup(n), n, tup(n), get))
for n in range(3, 9):
    K = 'TupleDecoder%d as Decode::requiring_bytes' % n
    S = lambda i: 'self.inner.%d' % i
    acc = lambda j: fold(j, lambda i: S(i) + '.req()', 'add_dec(%s, %s)', 'ByteCount::Finite(0)')
    w("@@ body %s start\n        hide(within); hide(end%d);\n        let r =" % (K, n))
    w("@@ body %s end\n        ; proof { %sassert(r == self.req()); %s reveal(bounds%d); }\n        r" % (K,
        ''.join('assert(bound(%s)) by { reveal(bound); } ' % S(i) for i in range(n)),
        ''.join('bound_all%d(%s, %s); ' % (n - j, acc(j), L(n, S, j)) for j in range(n - 1, -1, -1)), n))

# ---------------------------------------------------------------- encoders
w("""@@ prelude
/// an idle component has nothing left to write, wherever the output stands
pub open spec fn c_bytes<E: Encode>(e: E, s: Seq<u8>, p: int, q: int) -> bool {
    e.den(s, p, EOut::Bytes(q)) && (e.idle() ==> q == p)
}
pub open spec fn c_len<E: Encode>(e: E, s: Seq<u8>, p: int, q: int) -> bool {
    e.den(s, p, EOut::Len(q)) && (e.idle() ==> q == p)
}
pub open spec fn c_efail<E: Encode>(e: E, s: Seq<u8>, p: int, k: ErrorKind) -> bool {
    !e.idle() && e.den(s, p, EOut::Fail(k))
}""")
for n in range(2, 9):
    gen = '<' + L(n, lambda i: 'E%d: Encode' % i) + '>'
    ps = L(n, lambda i: 'e%d: E%d' % (i, i))
    tl = L(n, lambda j: 'e%d' % j, 1)
    xs = L(n, lambda i: 'x%d: E%d::Item' % (i, i))
    xt = L(n, lambda i: 'x%d' % i, 1)
    for o_, c in (('Bytes', 'bytes'), ('Len', 'len')):
        rest = 'c_%s(e1, s, q, e)' % c if n == 2 else '%s%d(%s, s, q, e)' % (c, n - 1, tl)
        w("""pub open spec fn %s%d%s(%s, s: Seq<u8>, p: int, e: int) -> bool {
    exists|q: int| #[trigger] e0.den(s, p, EOut::%s(q)) && c_%s(e0, s, p, q) && %s
}""" % (c, n, gen, ps, o_, c, rest))
        rest = 'e1.enc(x1, s, q, EOut::%s(e))' % o_ if n == 2 else 'start_%s%d(%s, %s, s, q, e)' % (c, n - 1, tl, xt)
        w("""pub open spec fn start_%s%d%s(%s, %s, s: Seq<u8>, p: int, e: int) -> bool {
    exists|q: int| #[trigger] e0.enc(x0, s, p, EOut::%s(q)) && %s
}""" % (c, n, gen, ps, xs, o_, rest))
    rest = 'c_efail(e1, s, q, k)' if n == 2 else 'efail%d(%s, s, q, k)' % (n - 1, tl)
    w("""pub open spec fn efail%d%s(%s, s: Seq<u8>, p: int, k: ErrorKind) -> bool {
    c_efail(e0, s, p, k) || exists|q: int| #[trigger] e0.den(s, p, EOut::Len(q)) && c_len(e0, s, p, q) && %s
}""" % (n, gen, ps, rest))
    rest = lambda q: 'e1.enc(x1, s, %s, EOut::Fail(k))' % q if n == 2 else 'start_fail%d(%s, %s, s, %s, k)' % (n - 1, tl, xt, q)
    w("""/// a component may refuse its item right away, or fail after the bytes of those before it
pub open spec fn start_fail%d%s(%s, %s, s: Seq<u8>, p: int, k: ErrorKind) -> bool {
    e0.enc(x0, s, p, EOut::Fail(k)) || %s || exists|q: int| #[trigger] e0.enc(x0, s, p, EOut::Len(q)) && %s
}""" % (n, gen, ps, xs, rest('p'), rest('q')))
for n in range(2, 9):
    d = lambda i: 'self.inner.%d' % i
    every = lambda m: L(n, lambda i: d(i) + '.%s()' % m, sep=' && ')
    ds = L(n, d)
    it = L(n, lambda i: 'item.%d' % i)
    w("""@@ impl TupleEncoder%d as Encode
    open spec fn inv(&self) -> bool { %s }
    open spec fn idle(&self) -> bool { %s }
    open spec fn limited(&self) -> bool { %s }
    open spec fn req(&self) -> ByteCount { %s }
    open spec fn den(&self, s: Seq<u8>, p: int, o: EOut) -> bool {
        match o {
            EOut::Bytes(e) => bytes%d(%s, s, p, e),
            EOut::Len(e) => len%d(%s, s, p, e),
            EOut::Fail(k) => efail%d(%s, s, p, k),
        }
    }
    open spec fn enc(&self, item: (%s,), s: Seq<u8>, p: int, o: EOut) -> bool {
        match o {
            EOut::Bytes(e) => start_bytes%d(%s, %s, s, p, e),
            EOut::Len(e) => start_len%d(%s, %s, s, p, e),
            EOut::Fail(k) => start_fail%d(%s, %s, s, p, k),
        }
    }
@@ impl TupleEncoder%d as SizedEncode
    open spec fn sized_ok(&self) -> bool { %s }""" % (n, every('inv'), every('idle'), L(n, lambda i: d(i) + '.limited()', sep=' || '),
            fold(n, lambda i: d(i) + '.req()', 'add_enc(%s, %s)', 'ByteCount::Finite(0)'),
            n, ds, n, ds, n, ds, L(n, lambda i: 'E%d::Item' % i), n, ds, it, n, ds, it, n, ds, it, n, every('sized_ok')))


# ---------------------------------------------------------------- encode of every arity
w("""@@ prelude
#[verifier::opaque]
pub open spec fn wrote(s: Seq<u8>, p: int, w: Seq<u8>, lo: int, hi: int) -> bool { forall|i: int| lo <= i < hi ==> s[p + i] == #[trigger] w[i] }
#[verifier::opaque]
pub open spec fn same(v: Seq<u8>, w: Seq<u8>, hi: int) -> bool { forall|i: int| 0 <= i < hi ==> v[i] == #[trigger] w[i] }
/// the call has taken the component from a to b while filling w (a buffer of n bytes) from o0 to o1
#[verifier::opaque]
pub open spec fn estep<E: Encode>(a: E, b: E, o0: int, o1: int, n: int, w: Seq<u8>, eos: Eos) -> bool {
    (a.idle() ==> a == b && o0 == o1)
    && forall|s: Seq<u8>, q: int, o: EOut| #[trigger] b.den(s, q, o) && room(s, q - o1, n, eos) && (o is Bytes ==> wrote(s, q - o1, w, o0, o1)) ==> a.den(s, q - o1 + o0, o)
}
#[verifier::opaque]
pub open spec fn edone<E: Encode>(b: E) -> bool {
    b.idle()
    && (forall|s: Seq<u8>, p: int| #![trigger within(s, p)] #![trigger b.den(s, p, EOut::Bytes(p))] within(s, p) ==> b.den(s, p, EOut::Bytes(p)))
    && (forall|s: Seq<u8>, p: int| #![trigger within(s, p)] #![trigger b.den(s, p, EOut::Len(p))] within(s, p) ==> b.den(s, p, EOut::Len(p)))
}
#[verifier::opaque]
pub open spec fn econf<E: Encode>(a: E, b: E) -> bool {
    forall|x: E::Item, s: Seq<u8>, p: int, o: EOut| #[trigger] b.enc(x, s, p, o) ==> a.enc(x, s, p, o)
}
#[verifier::opaque]
pub open spec fn eerrs<E: Encode>(d: E, o0: int, k: ErrorKind, n: int, eos: Eos) -> bool {
    !d.idle() && forall|s: Seq<u8>, p: int| #[trigger] room(s, p, n, eos) ==> d.den(s, p + o0, EOut::Fail(k))
}
pub proof fn estep_same<E: Encode>(a: E, o0: int, n: int, w: Seq<u8>, eos: Eos)
    requires edone(a),
    ensures estep(a, a, o0, o0, n, w, eos), econf(a, a),
{ reveal(estep); reveal(edone); reveal(econf); }
pub proof fn econf_same<E: Encode>(a: E) ensures econf(a, a) { reveal(econf); }
pub proof fn estep_over<E: Encode>(a: E, b: E, o0: int, o1: int, n: int, v: Seq<u8>, w: Seq<u8>, hi: int, eos: Eos)
    requires estep(a, b, o0, o1, n, v, eos), same(v, w, hi), 0 <= o0 <= o1 <= hi,
    ensures estep(a, b, o0, o1, n, w, eos),
{
    reveal(estep); reveal(wrote); reveal(same);
    assert forall|s: Seq<u8>, q: int, o: EOut| #[trigger] b.den(s, q, o) && room(s, q - o1, n, eos) && (o is Bytes ==> wrote(s, q - o1, w, o0, o1)) implies a.den(s, q - o1 + o0, o) by {
        if o is Bytes {
            assert forall|i: int| o0 <= i < o1 implies s[q - o1 + i] == #[trigger] v[i] by { assert(v[i] == w[i]); }
            assert(wrote(s, q - o1, v, o0, o1));
        }
    }
}
pub proof fn room_rest(s: Seq<u8>, p: int, n: int, eos: Eos, k: int)
    requires room(s, p, n, eos), 0 <= k <= n,
    ensures room(s, p + k, n - k, eos), within(s, p + k),
{ }
/// part: what the call made of the rest of the buffer; w: the whole buffer after it
pub proof fn estep_made<E: Encode>(a: E, b: E, o0: int, k: int, n: int, part: Seq<u8>, w: Seq<u8>, eos: Eos)
    requires
        !a.idle(), 0 <= o0 <= n, 0 <= k <= n - o0, w.len() == n, part == w.subrange(o0, n),
        forall|s: Seq<u8>, q: int, o: EOut| #[trigger] b.den(s, q, o) && room(s, q - k, n - o0, eos) && (o is Bytes ==> at(s, q - k, part.take(k))) ==> a.den(s, q - k, o),
        forall|x: E::Item, s: Seq<u8>, p: int, o: EOut| #[trigger] b.enc(x, s, p, o) ==> a.enc(x, s, p, o),
    ensures estep(a, b, o0, o0 + k, n, w, eos), econf(a, b),
{
    hide(room);
    reveal(estep); reveal(econf); reveal(wrote);
    let o1 = o0 + k;
    assert forall|s: Seq<u8>, q: int, o: EOut| #[trigger] b.den(s, q, o) && room(s, q - o1, n, eos) && (o is Bytes ==> wrote(s, q - o1, w, o0, o1)) implies a.den(s, q - o1 + o0, o) by {
        room_rest(s, q - o1, n, eos, o0);
        assert(q - o1 + o0 == q - k);
        if o is Bytes {
            assert(q - k + k <= s.len()) by { room_rest(s, q - o1, n, eos, o1); }
            let t = part.take(k);
            assert forall|i: int| 0 <= i < t.len() implies s[q - k + i] == #[trigger] t[i] by { assert(w[o0 + i] == part[i]); assert(s[q - o1 + (o0 + i)] == w[o0 + i]); }
            assert(at(s, q - k, t));
        }
    }
}
pub proof fn eerrs_made<E: Encode>(d: E, o0: int, k: ErrorKind, n: int, eos: Eos)
    requires
        !d.idle(), 0 <= o0 <= n,
        forall|s: Seq<u8>, p: int| #![trigger room(s, p, n - o0, eos)] room(s, p, n - o0, eos) ==> d.den(s, p, EOut::Fail(k)),
    ensures eerrs(d, o0, k, n, eos),
{
    hide(room);
    reveal(eerrs);
    assert forall|s: Seq<u8>, p: int| #[trigger] room(s, p, n, eos) implies d.den(s, p + o0, EOut::Fail(k)) by { room_rest(s, p, n, eos, o0); }
}
pub open spec fn bytes1<E: Encode>(e: E, s: Seq<u8>, p: int, q: int) -> bool { c_bytes(e, s, p, q) }
pub open spec fn len1<E: Encode>(e: E, s: Seq<u8>, p: int, q: int) -> bool { c_len(e, s, p, q) }
pub open spec fn efail1<E: Encode>(e: E, s: Seq<u8>, p: int, k: ErrorKind) -> bool { c_efail(e, s, p, k) }
pub open spec fn start_bytes1<E: Encode>(e: E, x: E::Item, s: Seq<u8>, p: int, q: int) -> bool { e.enc(x, s, p, EOut::Bytes(q)) }
pub open spec fn start_len1<E: Encode>(e: E, x: E::Item, s: Seq<u8>, p: int, q: int) -> bool { e.enc(x, s, p, EOut::Len(q)) }
pub open spec fn start_fail1<E: Encode>(e: E, x: E::Item, s: Seq<u8>, p: int, k: ErrorKind) -> bool { e.enc(x, s, p, EOut::Fail(k)) }""")
for n in range(1, 9):
    gen = '<' + L(n, lambda i: 'E%d: Encode' % i) + '>'
    ps = L(n, lambda i: 'd%d: E%d' % (i, i))
    pe = L(n, lambda i: 'e%d: E%d' % (i, i))
    T = lambda v: tup(n, v, 1)
    xs = tup(n, 'x')
    xt = L(n, lambda i: 'x%d: E%d::Item' % (i, i))
    def clauses(n, d, e):
        g, to = ' && room(s, q - o1, n, eos)', 'q - o1 + o0'
        return ["forall|s: Seq<u8>, q: int, e: int| #[trigger] bytes%d(%s, s, q, e)%s && wrote(s, q - o1, w, o0, o1) ==> bytes%d(%s, s, %s, e)" % (n, e, g, n, d, to),
                "forall|s: Seq<u8>, q: int, e: int| #[trigger] len%d(%s, s, q, e)%s ==> len%d(%s, s, %s, e)" % (n, e, g, n, d, to),
                "forall|s: Seq<u8>, q: int, k: ErrorKind| #[trigger] efail%d(%s, s, q, k)%s ==> efail%d(%s, s, %s, k)" % (n, e, g, n, d, to)]
    def cclauses(n, d, e):
        return ["forall|%s, s: Seq<u8>, q: int, e: int| #[trigger] start_bytes%d(%s, %s, s, q, e) ==> start_bytes%d(%s, %s, s, q, e)" % (xt, n, e, xs, n, d, xs),
                "forall|%s, s: Seq<u8>, q: int, e: int| #[trigger] start_len%d(%s, %s, s, q, e) ==> start_len%d(%s, %s, s, q, e)" % (xt, n, e, xs, n, d, xs),
                "forall|%s, s: Seq<u8>, q: int, k: ErrorKind| #[trigger] start_fail%d(%s, %s, s, q, k) ==> start_fail%d(%s, %s, s, q, k)" % (xt, n, e, xs, n, d, xs)]
    sf = clauses(n, tup(n), tup(n, 'e'))
    cf = cclauses(n, tup(n), tup(n, 'e'))
    w("""/// the call has taken %d components from d0.. to e0.. while filling w from o0 to o1
#[verifier::opaque]
pub open spec fn emoved%d%s(%s, %s, o0: int, o1: int, n: int, w: Seq<u8>, eos: Eos) -> bool {
    (%s)
}
#[verifier::opaque]
pub open spec fn econfs%d%s(%s, %s) -> bool {
    (%s)
}
#[verifier::opaque]
pub open spec fn efailed%d%s(%s, o0: int, k: ErrorKind, n: int, eos: Eos) -> bool {
    forall|s: Seq<u8>, p: int| #[trigger] room(s, p, n, eos) ==> efail%d(%s, s, p + o0, k)
}
#[verifier::opaque]
pub open spec fn eready%d%s(%s) -> bool {
    forall|s: Seq<u8>, p: int| #![trigger within(s, p)] within(s, p) ==> bytes%d(%s, s, p, p) && len%d(%s, s, p, p)
}""" % (n, n, gen, ps, pe, ')\n    && ('.join(sf), n, gen, ps, pe, ')\n    && ('.join(cf), n, gen, ps, n, tup(n), n, gen, ps, n, tup(n), n, tup(n)))
    def prove(cl, by):
        return '\n'.join('    assert ' + c.replace(' ==> ', ' implies ', 1) + ' by { %s }' % b for c, b in zip(cl, by))
    de = 'e0, ' + T('d') if n > 1 else 'e0'
    hd = clauses(n, tup(n), de)
    if n == 1:
        by = ['', '', '']
    else:
        by = ["let m = choose|m: int| #[trigger] e0.den(s, q, EOut::Bytes(m)) && c_bytes(e0, s, q, m) && bytes%d(%s, s, m, e); assert(d0.den(s, q - o1 + o0, EOut::Bytes(m)));" % (n - 1, T('d')),
              "let m = choose|m: int| #[trigger] e0.den(s, q, EOut::Len(m)) && c_len(e0, s, q, m) && len%d(%s, s, m, e); assert(d0.den(s, q - o1 + o0, EOut::Len(m)));" % (n - 1, T('d')),
              "if c_efail(e0, s, q, k) { assert(d0.den(s, q - o1 + o0, EOut::Fail(k))); } else { let m = choose|m: int| #[trigger] e0.den(s, q, EOut::Len(m)) && c_len(e0, s, q, m) && efail%d(%s, s, m, k); assert(d0.den(s, q - o1 + o0, EOut::Len(m))); }" % (n - 1, T('d'))]
    w("""pub proof fn ehead%d%s(%s, e0: E0, o0: int, o1: int, n: int, w: Seq<u8>, eos: Eos)
    requires estep(d0, e0, o0, o1, n, w, eos),
    ensures emoved%d(%s, %s, o0, o1, n, w, eos),
{
    hide(room);
    reveal(estep); reveal(emoved%d);
%s
}
pub proof fn efail_head%d%s(%s, o0: int, k: ErrorKind, n: int, eos: Eos)
    requires eerrs(d0, o0, k, n, eos),
    ensures efailed%d(%s, o0, k, n, eos),
{ reveal(eerrs); reveal(efailed%d); }""" % (n, gen, ps, n, tup(n), de, n, prove(hd, by), n, gen, ps, n, tup(n), n))
    if n == 1:
        w("""pub proof fn eready_all1<E0: Encode>(d0: E0) requires edone(d0), ensures eready1(d0), { reveal(edone); reveal(eready1); }
pub proof fn econf_all1<E0: Encode>(d0: E0, e0: E0) requires econf(d0, e0), ensures econfs1(d0, e0), { reveal(econf); reveal(econfs1); }""")
        continue
    xr = tup(n, 'x', 1)
    A = 'q - o2 + o1'
    cs = [c.replace('q - o1', 'q - o2').replace('w, o0, o1)', 'w, o0, o2)') for c in sf]
    by = ["assert(wrote(s, q - o2, w, o0, o1) && wrote(s, q - o2, w, o1, o2)) by { reveal(wrote); } assert(bytes%d(%s, s, q, e)); assert(bytes%d(%s, s, %s, e)); assert(within(s, %s)); assert(e0.den(s, %s, EOut::Bytes(%s))); assert(d0.den(s, q - o2 + o0, EOut::Bytes(%s)));" % (n - 1, T('e'), n - 1, T('d'), A, A, A, A, A),
          "assert(len%d(%s, s, q, e)); assert(len%d(%s, s, %s, e)); assert(within(s, %s)); assert(e0.den(s, %s, EOut::Len(%s))); assert(d0.den(s, q - o2 + o0, EOut::Len(%s)));" % (n - 1, T('e'), n - 1, T('d'), A, A, A, A, A),
          "assert(efail%d(%s, s, q, k)); assert(efail%d(%s, s, %s, k)); assert(within(s, %s)); assert(e0.den(s, %s, EOut::Len(%s))); assert(d0.den(s, q - o2 + o0, EOut::Len(%s)));" % (n - 1, T('e'), n - 1, T('d'), A, A, A, A, A)]
    w("""pub proof fn econs%d%s(%s, %s, o0: int, o1: int, o2: int, n: int, w: Seq<u8>, eos: Eos)
    requires estep(d0, e0, o0, o1, n, w, eos), edone(e0), emoved%d(%s, %s, o1, o2, n, w, eos), 0 <= o0 <= o1 <= o2 <= n,
    ensures emoved%d(%s, %s, o0, o2, n, w, eos),
{
    hide(room);
    reveal(estep); reveal(edone); reveal(emoved%d); reveal(emoved%d);
    assert forall|s: Seq<u8>, p: int| #[trigger] room(s, p, n, eos) implies within(s, p + o1) by { room_rest(s, p, n, eos, o1); }
%s
}
pub proof fn efail_cons%d%s(%s, e0: E0, o0: int, o1: int, k: ErrorKind, n: int, w: Seq<u8>, eos: Eos)
    requires estep(d0, e0, o0, o1, n, w, eos), edone(e0), efailed%d(%s, o1, k, n, eos), 0 <= o0 <= o1 <= n,
    ensures efailed%d(%s, o0, k, n, eos),
{
    hide(room);
    reveal(estep); reveal(edone); reveal(efailed%d); reveal(efailed%d);
    assert forall|s: Seq<u8>, p: int| #[trigger] room(s, p, n, eos) implies efail%d(%s, s, p + o0, k) by {
        room_rest(s, p, n, eos, o1);
        assert(e0.den(s, p + o1, EOut::Len(p + o1)));
        assert(p + o1 - o1 == p);
        assert(d0.den(s, p + o0, EOut::Len(p + o1)));
    }
}
pub proof fn eready_all%d%s(%s)
    requires edone(d0), eready%d(%s),
    ensures eready%d(%s),
{
    reveal(edone); reveal(eready%d); reveal(eready%d);
    assert forall|s: Seq<u8>, p: int| #![trigger within(s, p)] within(s, p) implies bytes%d(%s, s, p, p) && len%d(%s, s, p, p) by { assert(d0.den(s, p, EOut::Bytes(p))); assert(d0.den(s, p, EOut::Len(p))); }
}
pub proof fn econf_all%d%s(%s, %s)
    requires econf(d0, e0), econfs%d(%s, %s),
    ensures econfs%d(%s, %s),
{
    reveal(econf); reveal(econfs%d); reveal(econfs%d);
%s
}""" % (n, gen, ps, pe, n - 1, T('d'), T('e'), n, tup(n), tup(n, 'e'), n, n - 1, prove(cs, by),
        n, gen, ps, n - 1, T('d'), n, tup(n), n, n - 1, n, tup(n),
        n, gen, ps, n - 1, T('d'), n, tup(n), n, n - 1, n, tup(n), n, tup(n),
        n, gen, ps, pe, n - 1, T('d'), T('e'), n, tup(n), tup(n, 'e'), n, n - 1,
        prove(cf, ["let m = choose|m: int| #[trigger] e0.enc(x0, s, q, EOut::Bytes(m)) && start_bytes%d(%s, %s, s, m, e); assert(d0.enc(x0, s, q, EOut::Bytes(m))); assert(start_bytes%d(%s, %s, s, m, e));" % (n - 1, T('e'), xr, n - 1, T('d'), xr),
                   "let m = choose|m: int| #[trigger] e0.enc(x0, s, q, EOut::Len(m)) && start_len%d(%s, %s, s, m, e); assert(d0.enc(x0, s, q, EOut::Len(m))); assert(start_len%d(%s, %s, s, m, e));" % (n - 1, T('e'), xr, n - 1, T('d'), xr),
                   "if e0.enc(x0, s, q, EOut::Fail(k)) { } else if start_fail%d(%s, %s, s, q, k) { assert(start_fail%d(%s, %s, s, q, k)); } else { let m = choose|m: int| #[trigger] e0.enc(x0, s, q, EOut::Len(m)) && start_fail%d(%s, %s, s, m, k); assert(d0.enc(x0, s, q, EOut::Len(m))); assert(start_fail%d(%s, %s, s, m, k)); }" % (n - 1, T('e'), xr, n - 1, T('d'), xr, n - 1, T('e'), xr, n - 1, T('d'), xr)])))
for n in range(2, 9):
    K = 'TupleEncoder%d as Encode::encode' % n
    S = lambda i: 'self.inner.%d' % i
    w('@@ expand %s bytecodec_try_encode' % K)
    w("@@ attr %s :: #[verifier::spinoff_prover]" % K)
    for i in range(n):
        w(r'@@ unfold %s /\(self\.inner\.%d\.encode\(&mut buf\[offset\.\.\], eos\)\)\?/ -> /match self.inner.%d.encode(&mut buf[offset..], eos) { Ok(v) => v, Err(e%d) => return Err(e%d) }/' % (K, i, i, i, i))
    w("@@ body %s start\n        hide(room); hide(within); hide(bytes%d); hide(len%d); hide(efail%d); hide(start_bytes%d); hide(start_len%d); hide(start_fail%d); let ghost o0: int = 0; let ghost n = buf@.len() as int;" % (K, n, n, n, n, n, n))
    w('        ' + ' '.join('let ghost d%d = self.inner.%d;' % (i, i) for i in range(n)))
    def confs(upto):
        r = ''.join('econf_same(d%d); ' % j for j in range(upto + 1, n))
        ee = lambda j: S(j) if j <= upto else 'd%d' % j
        for j in range(n - 1, -1, -1):
            r += 'econf_all%d(%s, %s); ' % (n - j, L(n, lambda x: 'd%d' % x, j), L(n, ee, j))
        return r + 'reveal(econfs%d); ' % n
    for i in range(n):
        ee = lambda j, i=i: S(j) if j <= i else 'd%d' % j
        over = 'assert(same(w0, buf@, o%d)) by { reveal(same); } ' % i + ''.join('estep_over(d%d, %s, o%d, o%d, n, w0, buf@, o%d, eos); ' % (j, S(j), j, j + 1, i) for j in range(i))
        chain = 'ehead%d(%s, %s, o%d, offset as int, n, buf@, eos); ' % (n - i, L(n, lambda x: 'd%d' % x, i), S(i), i)
        for j in range(i - 1, -1, -1):
            chain += 'econs%d(%s, %s, o%d, o%d, offset as int, n, buf@, eos); ' % (n - j, L(n, lambda x: 'd%d' % x, j), L(n, ee, j), j, j + 1)
        chain += 'reveal(emoved%d); ' % n
        # what the stream holds of the bytes written, told as `wrote`
        told = 'assert forall|s: Seq<u8>, p: int| #[trigger] at(s, p, buf@.take(offset as int)) implies wrote(s, p, buf@, 0, offset as int) by { reveal(wrote); let t = buf@.take(offset as int); assert forall|i: int| 0 <= i < offset implies s[p + i] == #[trigger] buf@[i] by { assert(t[i] == buf@[i]); } } '
        fch = 'efail_head%d(%s, o%d, e%d.k(), n, eos); ' % (n - i, L(n, lambda x: 'd%d' % x, i), i, i)
        for j in range(i - 1, -1, -1):
            fch += 'efail_cons%d(%s, %s, o%d, o%d, e%d.k(), n, w0, eos); ' % (n - j, L(n, lambda x: 'd%d' % x, j), S(j), j, j + 1, i)
        fch += 'reveal(efailed%d); ' % n
        w(r"@@ body %s before /return Err\(e%d\)/" % (K, i) + "\n        { proof { eerrs_made(d%d, o%d, e%d.k(), n, eos); %s }" % (i, i, i, fch))
        w(r"@@ body %s after /return Err\(e%d\)/" % (K, i) + "\n        }")
        w(r"@@ body %s before /if\s*!self\.inner\.%d\.is_idle\(\)\s*\{(?=\s*return)/" % (K, i) + "\n        proof { estep_made(d%d, %s, o%d, offset - o%d, n, buf@.subrange(o%d, n), buf@, eos); %s }" % (i, S(i), i, i, i, over))
        w(r"@@ body %s after /if\s*!self\.inner\.%d\.is_idle\(\)\s*\{(?=\s*return)/" % (K, i) + "\n        proof { %s%s%s }" % (chain, told, confs(i)))
        at = lambda i: r"before /if\s*!self\.inner\.%d\.is_idle\(\)\s*\{(?=\s*offset)/" % i if i < n else r"before /\bOk\(offset\)(?=\s*$)/"
        def facts(i, out=False):
            r = ['n == old(buf)@.len()', 'buf@.len() == n', 'o0 == 0', 'offset <= n', 'o%d <= n' % (i - 1) if out else 'offset as int == o%d' % i,
                 'forall|i: int| offset <= i < n ==> buf@[i] == old(buf)@[i]']
            if not out: r += ['w0 == buf@']
            for j in range(n):
                r += ['d%d == (*old(self)).inner.%d' % (j, j)]
                if j < i:
                    nx = 'offset as int' if out and j == i - 1 else 'o%d' % (j + 1)
                    r += ['estep(d%d, %s, o%d, %s, n, buf@, eos)' % (j, S(j), j, nx), 'edone(%s)' % S(j), 'econf(d%d, %s)' % (j, S(j)), S(j) + '.inv()',
                          S(j) + '.idle()', S(j) + '.limited() == d%d.limited()' % j, 'o%d <= %s' % (j, nx), 'd%d.idle() ==> o%d == %s' % (j, j, nx)]
                else:
                    r += ['%s == d%d' % (S(j), j), 'd%d.inv()' % j]
            return r
        w("@@ body %s %s\n        let ghost w0 = buf@;%s\n        loop invariant_except_break %s,\n            ensures %s,\n        {" % (K, at(i), ' let ghost o%d = offset as int;' % i if i else '', ', '.join(facts(i)), ', '.join(facts(i + 1, True))))
        w("@@ body %s %s\n        proof { reveal(edone); if d%d.idle() { estep_same(d%d, o%d, n, buf@, eos); } }\n        break; }" % (K, at(i + 1), i, i, i))
        if i == n - 1:
            rd = ''.join('eready_all%d(%s); ' % (n - j, L(n, S, j)) for j in range(n - 1, -1, -1))
            w("@@ body %s %s" % (K, at(n)) + "\n        proof { %s%s%s%sreveal(eready%d); }" % (chain, told, confs(i), rd, n))
for t in ('TupleDecoder', 'TupleEncoder'):
    w("""@@ fn %s::new
    ensures r.inner == inner, //@ C11 new keeps the components
@@ fn %s::inner_ref
    ensures *r == self.inner, //@ C11 inner_ref
@@ fn %s::inner_mut
    ensures *r == old(self).inner, *final(r) == final(self).inner, //@ C11 inner_mut
@@ fn %s::into_inner
    ensures r == self.inner, //@ C11 into_inner
@@ fn %s as Default::default
    ensures call_ensures(%s::default, (), r.inner), //@ C11 default""" % (t, t, t, t, t, t[5]))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'tuple.ov'), 'w').write('\n'.join(o) + '\n')
