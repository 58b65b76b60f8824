"""Mechanical extraction of /repo/src into one Verus crate, with the contracts of
/verif/contracts/*.ov spliced in.  Function bodies are the repository's text; what the extraction
changes is listed in DESIGN.md ("What the extraction drops or rewrites")."""
import os, re, sys, json, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rsparse, macroexp
from rsparse import norm, match_close, scan_to, skip_generics, split_impl

MODULES = ['byte_count', 'eos', 'error', 'marker', 'slice', 'decode', 'encode', 'null', 'padding', 'bytes',
           'tuple', 'combinator', 'fixnum', 'monolithic', 'io', 'io_async', 'bincode_codec', 'json_codec', 'macros', 'lib']

PATHS = [  # textual path replacements (whole code text)
    (r'\bstd::io::', 'crate::shim::io::'), (r'\bstd::iter::', 'crate::shim::iter::'),
    (r'\btokio::io::', 'crate::shim::tio::'), (r'\bbincode::', 'crate::shim::bincode::'),
    (r'\bserde_json::', 'crate::shim::serde_json::'), (r'\bbyteorder::', 'crate::shim::byteorder::'),
    (r'\btrackable::', 'crate::shim::trackable::'), (r'\bserde::', 'crate::shim::serde::'),
    (r'\bstd::pin::', 'crate::shim::pin::'), (r'\bstd::task::', 'crate::shim::pin::'), (r'\bcore::pin::', 'crate::shim::pin::'),
    (r'\bcore::task::', 'crate::shim::pin::'),
]
USE_MAP = [  # whole-path rewrites for `use` items
    (r'\bstd::io\b', 'crate::shim::io'), (r'\bstd::iter\b', 'crate::shim::iter'), (r'\btokio::io\b', 'crate::shim::tio'),
    (r'\bbincode\b(?!_)', 'crate::shim::bincode'), (r'\bserde_json\b', 'crate::shim::serde_json'),
    (r'\bbyteorder\b', 'crate::shim::byteorder'), (r'\btrackable\b', 'crate::shim::trackable'), (r'\bserde\b(?!_)', 'crate::shim::serde'),
    (r'\b(std|core)::pin\b', 'crate::shim::pin'), (r'\b(std|core)::task\b', 'crate::shim::pin'),
    (r'\bstd::fmt\b', 'crate::shim::fmt'), (r'\bstd::marker\b', 'core::marker'), (r'\bpin_project::pin_project\b', 'crate::shim::pin_project as _'),
]
ROOT = {'byte_count': 'ByteCount', 'decode': 'Decode, DecodeExt, TaggedDecode, TryTaggedDecode',
        'encode': 'Encode, EncodeExt, SizedEncode', 'eos': 'Eos', 'error': 'Error, ErrorKind'}
DERIVE_KEEP = {'Clone', 'Copy', 'PartialEq', 'Eq'}
DERIVE_TYPES = {'ByteCount', 'Eos', 'ErrorKind', 'StreamState'}


class Overlay:
    def __init__(self):
        self.mods = {}       # module -> {'use': [...], 'prelude':..., 'epilogue':...}
        self.impl = {}       # (mod,key) -> [(line text, src)]
        self.fn = {}         # (mod,key) -> lines
        self.ret = {}
        self.loop = {}       # (mod,key) -> {n: (mode, lines)}
        self.body = {}       # (mod,key) -> [(where, regex, lines)]
        self.trust = {}      # (mod,key) -> reason
        self.skip = set()
        self.attr = {}
        self.bound = {}      # extra where-bounds for impl/struct headers
        self.unfold = {}
        self.rewrite = {}    # (mod,key) -> [(regex, repl)]
        self.rename = {}
        self.expand = {}     # (mod,key) -> [macro names to expand textually]
        self.closure = {}    # (mod,key) -> [(regex of the |params|, header lines)]

    def load(self, path):
        mod = os.path.basename(path)[:-3]
        m = self.mods.setdefault(mod, {'use': [], 'prelude': [], 'epilogue': []})
        cur = None
        for ln, line in enumerate(open(path).read().split('\n'), 1):
            src = (path, ln)
            if line.startswith('@@'):
                a = line[2:].strip()
                if a.startswith('#') or a == '':
                    cur = []
                    continue
                cmd, _, rest = a.partition(' ')
                rest = rest.strip()
                if cmd in ('use', 'prelude', 'epilogue'):
                    cur = m[cmd]
                elif cmd == 'impl':
                    cur = self.impl.setdefault((mod, rest), [])
                elif cmd == 'fn':
                    k, _, r = rest.partition(' ret ')
                    k = k.strip()
                    cur = self.fn.setdefault((mod, k), [])
                    if r:
                        self.ret[(mod, k)] = r.strip()
                elif cmd == 'loop':
                    mm = re.match(r'(.*\S)\s+(\d+)(?:\s+(\w+))?$', rest)
                    cur = []
                    self.loop.setdefault((mod, mm.group(1)), {})[int(mm.group(2))] = (mm.group(3) or '', cur)
                elif cmd == 'body':
                    mm = re.match(r'(.*?)\s+(start|end|after|before)(?:\s+/(.*)/)?$', rest)
                    cur = []
                    self.body.setdefault((mod, mm.group(1)), []).append((mm.group(2), mm.group(3), cur))
                elif cmd == 'closure':
                    mm = re.match(r'(.*?)\s+/(.*)/$', rest)
                    cur = []
                    self.closure.setdefault((mod, mm.group(1)), []).append((mm.group(2), cur))
                elif cmd == 'trust':
                    k, _, r = rest.partition(' :: ')
                    self.trust[(mod, k.strip())] = r.strip()
                    cur = []
                elif cmd == 'skip':
                    self.skip.add((mod, rest)); cur = []
                elif cmd == 'attr':
                    k, _, r = rest.partition(' :: ')
                    self.attr.setdefault((mod, k.strip()), []).append(r.strip()); cur = []
                elif cmd == 'bound':
                    k, _, r = rest.partition(' :: ')
                    self.bound[(mod, k.strip())] = r.strip(); cur = []
                elif cmd == 'expand':
                    k, _, r = rest.rpartition(' ')
                    self.expand.setdefault((mod, k.strip()), []).append(r.strip()); cur = []
                elif cmd == 'rename':     # name of a `mut` parameter in the signature (the body's own variable keeps its name)
                    k, a, b = rest.rsplit(' ', 2)
                    self.rename.setdefault((mod, k.strip()), {})[a] = b; cur = []
                elif cmd == 'unfold':     # like rewrite, after macros have been expanded: writes syntactic sugar (`?`) out
                    mm = re.match(r'(.*?)\s+/(.*)/\s*->\s*/(.*)/$', rest)
                    self.unfold.setdefault((mod, mm.group(1)), []).append((mm.group(2), mm.group(3))); cur = []
                elif cmd == 'rewrite':
                    mm = re.match(r'(.*?)\s+/(.*)/\s*->\s*/(.*)/$', rest)
                    self.rewrite.setdefault((mod, mm.group(1)), []).append((mm.group(2), mm.group(3))); cur = []
                else:
                    raise SystemExit('%s:%d: unknown directive %s' % (path, ln, cmd))
                continue
            if cur is not None:
                cur.append((line, src))


def load_overlays(d):
    ov = Overlay()
    for p in sorted(glob.glob(os.path.join(d, '*.ov'))):
        ov.load(p)
    return ov


class Gen:
    def __init__(self, repo, ov, auto_trust=(), drop_hints=(), clash=()):
        self.repo, self.ov = repo, ov
        self.drop_hints = set(drop_hints)
        # names of specification functions that a new function of the crate also has: theirs are changed
        self.clash = re.compile(r'\b(%s)\b(?=\s*(?:::\s*<|<|\())' % '|'.join(sorted(clash))) if clash else None
        self.out = []          # (text, origin)
        self.fn_ranges = []    # (first line, last line, mod, key, repo file, repo line)
        self.lost = []         # lost anchors: (mod, key, what)
        self.auto_trust = set(auto_trust)
        self.used = set()
        self.fns = {}          # (mod,key) -> dict
        self.nocontract = []
        self.macros = {}
        self.after = []

    def emit(self, text, origin=None):
        for i, l in enumerate(text.split('\n')):
            o = origin
            if origin and origin[0] == 'repo':
                o = ('repo', origin[1], origin[2] + i) + tuple(origin[3:])
            self.out.append((l, o))

    def own(self, text):
        return self.clash.sub(r'\1__spec', text) if self.clash else text

    def emit_ov(self, lines):
        client = None
        for l, src in lines:
            self.out.append((self.own(l), ('ov', src[0], src[1])))
            # code using a macro of the crate: stands for the macro
            m = re.match(r'//@client\s+(\w+)::(.*\S)\s*$', l)
            if m:
                client = (len(self.out), m.group(1), m.group(2))
            elif client and l == '}':
                first, mod, key = client
                f = 'src/%s.rs' % mod
                self.fns[(mod, key)] = {'mod': mod, 'key': key, 'file': f, 'line': 1, 'contract': True, 'body': True, 'trusted': False}
                self.fn_ranges.append((first, len(self.out), mod, key, f, 1))
                client = None

    # -- text rewriting -------------------------------------------------
    def code(self, s):
        # track!(E, ..) only adds location history to the error value: expanded to E here
        while True:
            m = re.search(r'\btrack!\s*\(', s)
            if not m:
                break
            o = m.end() - 1
            c = match_close(s, o)
            e = min(scan_to(s, o + 1, ',;)'), c)
            drop = s[e:c]
            s = s[:m.start()] + '(' + s[o + 1:e] + '\n' * drop.count('\n') + ')' + s[c + 1:]
        for a, b in PATHS:
            s = re.sub(r'(?<![\w:])' + a, b, s)
        # a constructor as a function value is eta-expanded
        s = re.sub(r'\.map\(Some\)', '.map(|eta_x| -> (eta_r: Option<_>) ensures eta_r == Some(eta_x) { Some(eta_x) })', s)
        return s

    def use_item(self, h):
        h = norm(h)
        for a, b in USE_MAP:
            h = re.sub(r'(?<![\w:])' + a, b, h, count=1)
        m = re.match(r'use crate::\{(.*)\};$', h)
        if m:
            have = set(', '.join(v for k, v in ROOT.items() if k in self.mods).split(', ')) | {'Result'} | set(self.mods)
            h = 'use crate::{%s};' % ', '.join(x.strip() for x in m.group(1).split(',') if x.strip().split('::')[0] in have)
        m = re.match(r'use crate::(\w+)', h)
        if m and m.group(1) in MODULES and m.group(1) not in self.mods:
            return ''
        return h

    # -- items ----------------------------------------------------------
    def module(self, mod):
        path = os.path.join(self.repo, 'src', mod + '.rs')
        text = rsparse.strip_comments(open(path).read())
        items = rsparse.parse_items(text)
        self.file = 'src/%s.rs' % mod
        self.mod = mod
        # expand item macros defined in this module
        defs = {i.name: i for i in items if i.kind == 'macro_def'}
        out = []
        for it in items:
            if it.kind == 'macro_call' and it.name in defs:
                exp = macroexp.expand(defs[it.name].body, it.body)
                for sub in rsparse.parse_items(exp):
                    self.set_line(sub, it.line)
                    sub.expanded = True
                    out.append(sub)
            else:
                out.append(it)
        return out

    def set_line(self, it, line):
        it.line = line
        it.body_line = line
        for m in it.members or []:
            self.set_line(m, line)

    def is_test(self, it):
        return any(re.match(r'#\[cfg\(test\)\]|#\[test\]', a) for a in it.attrs)

    def emit_macros(self):
        for it in self.module('macros'):
            if it.kind == 'macro_def':
                self.emit('macro_rules! %s {%s}' % (it.name, it.body), ('repo', self.file, it.line))

    def emit_module(self, mod):
        items = [i for i in self.module(mod) if not self.is_test(i)]
        o = self.ov.mods.get(mod, {'use': [], 'prelude': [], 'epilogue': []})
        self.emit('pub mod %s {' % mod)
        self.emit('#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unused_parens)]')
        self.emit('use vstd::prelude::*;\n#[allow(unused_imports)] use crate::shim::prelude::*;')
        self.emit_ov(o['use'])
        for it in items:
            if it.kind == 'use':
                self.emit((('pub ' if it.vis else '') + self.use_item(it.header)), ('repo', self.file, it.line))
        self.emit('verus! {')
        self.emit('broadcast use crate::shim::%s;' % ('group_base' if mod in ('tuple', 'combinator') else 'group_io' if mod in ('io', 'io_async', 'monolithic') else 'group_shim'))
        self.emit_ov(o['prelude'])
        for it in items:
            self.emit_item(it)
        for t, it, body in self.after:
            key = '%s::is_idle (default)' % t
            first = len(self.out) + 1
            self.emit('fn default_is_idle_%s<X: %s>(this: &X) -> (r: bool)' % (t.lower(), t), ('repo', self.file, it.line, mod, key))
            self.emit('    requires this.inv(),')
            self.emit("    ensures r == (this.req() == ByteCount::Finite(0)), //@ C05 the default is_idle tells whether zero bytes are required")
            self.emit('{'); self.emit(re.sub(r'\bself\b', 'this', body), ('repo', self.file, it.line, mod, key)); self.emit('}')
            self.fns[(mod, key)] = {'mod': mod, 'key': key, 'file': self.file, 'line': it.line, 'contract': True, 'body': True, 'trusted': False}
            self.fn_ranges.append((first, len(self.out), mod, key, self.file, it.line))
        self.after = []
        self.emit_ov(o['epilogue'])
        self.emit('}\n}')

    def emit_item(self, it):
        mod = self.mod
        k = it.kind
        if k in ('use', 'extern', 'mod', 'macro_def'):
            return
        if k in ('type', 'const', 'static'):
            if (mod, it.name) in self.ov.skip:
                return
            self.emit('pub ' + self.code(it.header), ('repo', self.file, it.line))
        elif k in ('struct', 'enum'):
            self.emit_type(it)
        elif k == 'fn':
            self.emit_fn(it, it.name, 'pub ')
        elif k == 'trait':
            self.emit_container(it, it.name)
        elif k == 'impl':
            self.emit_container(it, it.name)
        else:
            raise SystemExit('unsupported item %r in %s' % (it, mod))

    def emit_type(self, it):
        mod = self.mod
        derives = []
        for a in it.attrs:
            m = re.match(r'#\[derive\((.*)\)\]', a)
            if m:
                derives += [x.strip().split('::')[-1] for x in m.group(1).split(',')]
        keep = [d for d in derives if d in DERIVE_KEEP] if it.name in DERIVE_TYPES else []
        if keep:
            if 'PartialEq' in keep and 'Eq' in keep:
                keep.append('Structural')
            self.emit('#[derive(%s)]' % ', '.join(keep))
        for a in self.ov.attr.get((mod, it.name), []):
            self.emit(a)
        hdr = it.header
        b = self.ov.bound.get((mod, it.name))
        if it.kind == 'enum':
            self.emit('pub %s {%s}' % (hdr, self.code(self.strip_attrs(it.body))), ('repo', self.file, it.line))
        else:
            fields = self.fields(it)
            if it.shape == 'named':
                body = '{ ' + ', '.join('pub %s: %s' % (n, self.code(t)) for n, t in fields) + ' }'
                if b:
                    hdr = hdr + b
                self.emit('pub %s%s' % (hdr, body), ('repo', self.file, it.line))
            elif it.shape == 'tuple':
                self.emit('pub %s(%s)%s;' % (hdr, ', '.join('pub ' + self.code(t) for n, t in fields), it.where or ''), ('repo', self.file, it.line))
            else:
                self.emit('pub %s;' % hdr, ('repo', self.file, it.line))
        if 'Default' in derives:
            self.synth_default(it)

    def strip_attrs(self, body):
        return re.sub(r'#\s*\[[^\]]*\]', '', body)

    def fields(self, it):
        s = self.strip_attrs(it.body)
        out, i = [], 0
        depth_start = 0
        parts = []
        # split on commas at depth 0 incl. angle brackets
        cur = ''
        d = 0
        j = 0
        while j < len(s):
            c = s[j]
            if c in '([{':
                e = match_close(s, j)
                cur += s[j:e + 1]; j = e + 1; continue
            if c == '<':
                d += 1
            elif c == '>' and s[j - 1] not in '-=':
                d -= 1
            if c == ',' and d == 0:
                parts.append(cur); cur = ''
            else:
                cur += c
            j += 1
        if cur.strip():
            parts.append(cur)
        for n, p in enumerate(parts):
            p = norm(p)
            p = re.sub(r'^pub(\s*\([^)]*\))?\s+', '', p)
            if it.shape == 'named':
                a, _, t = p.partition(':')
                out.append((a.strip(), t.strip()))
            else:
                out.append((str(n), p))
        return out

    def generics_of(self, it):
        m = re.match(r'\s*(?:struct|enum)\s+\w+\s*', it.header)
        h = it.header[m.end():]
        if h.startswith('<'):
            e = skip_generics(h, 0)
            g = h[1:e - 1]
            wh = h[e:].strip()
        else:
            g, wh = '', h.strip()
        names, decl = [], []
        cur, d = '', 0
        for c in g + ',':
            if c == '<':
                d += 1
            if c == '>':
                d -= 1
            if c == ',' and d == 0:
                if cur.strip():
                    p = re.sub(r'=.*', '', cur).strip()
                    nm = p.split(':')[0].strip()
                    names.append(nm); decl.append(p)
                cur = ''
            else:
                cur += c
        return names, decl, wh

    def synth_default(self, it):
        mod = self.mod
        names, decl, wh = self.generics_of(it)
        key = '%s as Default' % it.name
        if (mod, key) in self.ov.skip:
            return
        dl = []
        for nm, p in zip(names, decl):
            if nm.startswith("'"):
                dl.append(p)
            elif ':' in p:
                dl.append(p + ' + Default')
            else:
                dl.append(p + ': Default')
        gen = '<%s>' % ', '.join(dl) if dl else ''
        ty = it.name + ('<%s>' % ', '.join(names) if names else '')
        fs = self.fields(it)
        if it.shape == 'named':
            body = it.name + ' { ' + ', '.join('%s: Default::default()' % n for n, t in fs) + ' }'
        elif it.shape == 'tuple':
            body = it.name + '(' + ', '.join('Default::default()' for n, t in fs) + ')'
        else:
            body = it.name
        text = 'impl%s Default for %s %s { fn default() -> Self { %s } }' % (gen, ty, wh, body)
        imp = rsparse.parse_items(text)[0]
        self.set_line(imp, it.line)
        self.emit_container(imp, key)

    def inherits(self, it):
        """default-bodied methods of Decode/Encode copied into impls that inherit them"""
        return []

    def emit_container(self, it, key):
        mod = self.mod
        if (mod, key) in self.ov.skip:
            return
        if 'combinator' not in self.mods and re.search(r'\b(De|En)codeExt$', key):
            return
        hdr = self.code(it.header).rstrip()
        b = self.ov.bound.get((mod, key))
        if b:
            hdr = re.sub(r'\s*,?\s*$', '', hdr) + ((', ' if re.search(r'\bwhere\b', hdr) else ' where ') + b)
        for a in self.ov.attr.get((mod, key), []):
            self.emit(a)
        for a, r in self.ov.rewrite.get((mod, key), []):
            h2 = re.sub(a, r, hdr, flags=re.S)
            if h2 == hdr:
                self.lost.append((mod, key, 'rewrite anchor'))
            hdr = h2
        self.emit(('pub ' if it.kind == 'trait' else '') + hdr + ' {', ('repo', self.file, it.line))
        ovl = self.ov.impl.get((mod, key))
        if ovl:
            self.used.add(('impl', mod, key))
            self.emit_ov(ovl)
        is_trait_impl = it.kind == 'trait' or split_impl(it.header)[1] is not None
        present = set()
        for m in it.members:
            if self.is_test(m):
                continue
            if m.kind == 'fn':
                present.add(m.name)
                self.emit_fn(m, '%s::%s' % (key, m.name), '' if is_trait_impl else 'pub ', in_trait=it.kind == 'trait')
            elif m.kind in ('type', 'const'):
                if (mod, key + '::' + m.name) in self.ov.skip:
                    continue
                h = self.code(m.header)
                self.emit(h, ('repo', self.file, m.line))
            elif m.kind == 'macro_call':
                raise SystemExit('macro in impl: %s' % m.name)
        if it.kind == 'impl':
            tr = split_impl(it.header)[1]
            base = rsparse.base_name(tr) if tr else None
            if base in ('Decode', 'Encode') and 'is_idle' not in present and base in getattr(self, 'defaults', {}):
                d = self.defaults[base]
                self.emit_fn(d, '%s::%s' % (key, 'is_idle'), '')
        self.emit('}')

    # -- functions -------------------------------------------------------
    def split_sig(self, hdr):
        """-> (before '->', ret or None, where or '')"""
        m = re.search(r'\bfn\s+\w+\s*', hdr)
        i = m.end()
        if hdr[i] == '<':
            i = skip_generics(hdr, i)
            while hdr[i].isspace():
                i += 1
        k = match_close(hdr, i)
        pre = hdr[:k + 1]
        rest = hdr[k + 1:]
        # find where at depth 0
        wh = ''
        m = re.search(r'\bwhere\b', rest)
        if m:
            wh = rest[m.start():].rstrip()
            rest = rest[:m.start()]
        rest = rest.strip()
        ret = rest[2:].strip() if rest.startswith('->') else None
        return pre, ret, wh

    LOOP = re.compile(r"\b(while|for|loop)\b")

    def find_loops(self, body):
        """list of (kw start, header end = index of '{')"""
        res = []
        i, n = 0, len(body)
        while i < n:
            c = body[i]
            if c == '"' or c == "'":
                j = rsparse.skip_string(body, i)
                i = j if j else i + 1
                continue
            m = self.LOOP.match(body, i)
            if m and (i == 0 or not (body[i - 1].isalnum() or body[i - 1] in '_')):
                if m.group(1) == 'for' and re.match(r'for\s*<', body[i:]):
                    i = m.end(); continue
                j = scan_to(body, m.end(), '{')
                res.append((i, j, m.group(1)))
                i = m.end()
                continue
            i += 1
        return res

    def emit_fn(self, it, key, vis, in_trait=False):
        mod = self.mod
        ov = self.ov
        if (mod, key) in ov.skip:
            return
        fk = (mod, key)
        hdr = self.code(it.header).rstrip()
        body = it.body
        if in_trait and key in ('Decode::is_idle', 'Encode::is_idle'):
            # verified apart (and in every impl that inherits it): what it answers is fixed by its documentation
            if body is not None:
                t = key[:6]
                self.after.append((t, it, self.code(body)))
            body = None
        for a in ov.attr.get(fk, []):
            self.emit(a)
        contract = ov.fn.get(fk)
        if contract is not None:
            self.used.add(('fn',) + fk)
        for a, r in ov.rewrite.get(fk, []):
            t = hdr + '\x00' + (body or '')
            t2 = re.sub(a, r, t, flags=re.S)
            if t2 == t:
                self.lost.append((mod, key, 'rewrite anchor /%s/' % a))
            hdr, _, b2 = t2.partition('\x00')
            if body is not None:
                body = b2
        trusted = fk in ov.trust or '%s::%s' % fk in self.auto_trust
        if body is not None and not trusted:
            loops = self.find_loops(body)
            want = ov.loop.get(fk, {})
            if want and len(loops) != max(want) + 1:
                self.lost.append((mod, key, 'loop count %d' % len(loops)))
                if '%s::%s' % fk not in self.auto_trust:
                    trusted = True
        if trusted and body is not None:
            self.emit('#[verifier::external_body]')
        first = len(self.out) + 1
        pre, ret, wh = self.split_sig(hdr)
        rn = ov.ret.get(fk, 'r')
        mutparams = []
        if body is not None:
            # `mut x: &mut T` parameters are rebound (Verus cannot name their initial value otherwise)
            def rb(m):
                new = ov.rename.get(fk, {}).get(m.group(1), m.group(1))
                mutparams.append((m.group(1), new)); return m.group(0).replace('mut ' + m.group(1), new, 1)
            pre2 = re.sub(r'\bmut\s+(\w+)\s*:(?!:)', rb, pre)
            for old, new in ov.rename.get(fk, {}).items():      # the parameter is no longer `mut`
                if (old, new) not in mutparams:
                    pre2, n = re.subn(r'\b%s(?=\s*:(?!:))' % old, new, pre2, count=1)
                    mutparams += [(old, new)] * n
            pre = pre2
        sig = pre
        if ret is not None:
            if contract is not None or True:
                sig += ' -> (%s: %s)' % (rn, ret) if ret not in ('!',) else ' -> !'
        if wh:
            sig += '\n' + wh
        org = ('repo', self.file, it.line, mod, key)
        self.emit(vis + sig, org)
        if contract:
            self.emit_ov(contract)
        info = {'mod': mod, 'key': key, 'file': self.file, 'line': it.line, 'contract': bool(contract), 'body': body is not None,
                'trusted': trusted}
        self.fns[fk] = info
        if body is None:
            self.emit(';')
            self.fn_ranges.append((first, len(self.out), mod, key, self.file, it.line))
            return
        if trusted:
            self.emit('{ unimplemented!() }')
            self.fn_ranges.append((first, len(self.out), mod, key, self.file, it.line))
            return
        self.emit('{')
        if mutparams:
            self.emit(' '.join('let mut %s = %s;' % p for p in mutparams))
        for name in ov.expand.get(fk, []):
            body = self.expand_macro(mod, key, body, name)
        body = self.code(body)
        if re.search(r'&\s*mut\s+self\b', pre):
            # explicit deref: `self.is_idle()` on `self: &mut Self` would resolve through the forwarding impl for `&mut _`
            body = re.sub(r'(?<![\w.])self\.(is_idle|requiring_bytes|exact_requiring_bytes)\(', r'(*self).\1(', body)
        for a, r in ov.unfold.get(fk, []):
            body, n = re.subn(a, r, body)
            if n != 1:
                self.lost.append((mod, key, 'unfold anchor /%s/ matched %d times' % (a, n)))
        self.emit_body(it, fk, body)
        self.emit('}')
        self.fn_ranges.append((first, len(self.out), mod, key, self.file, it.line))

    def expand_macro(self, mod, key, body, name):
        """textual expansion of a macro of src/macros.rs (all arguments must be paths), so that hints can be put inside it"""
        path = os.path.join(self.repo, 'src', 'macros.rs')
        defs = {i.name: i for i in rsparse.parse_items(rsparse.strip_comments(open(path).read())) if i.kind == 'macro_def'}
        while True:
            m = re.search(r'\b%s!\s*\(' % name, body)
            if not m:
                return body
            o = m.end() - 1
            c = match_close(body, o)
            args = body[o + 1:c]
            try:
                if not re.match(r'^[\w.\s,]*("[^"]*"[\w.\s,]*)*$', args):
                    raise KeyError(name)
                exp = macroexp.expand(defs[name].body, args)
            except (KeyError, macroexp.ParseError):
                self.lost.append((mod, key, 'macro %s not expanded' % name))
                return body
            body = body[:m.start()] + re.sub(r'\s*\n\s*', ' ', exp) + '\n' * args.count('\n') + body[c + 1:]

    def emit_body(self, it, fk, body):
        mod, key = fk
        ov = self.ov
        hints = ov.body.get(fk, [])
        bad = ['body anchor /%s/ matched %d times' % (rx, len(re.findall(rx, body))) for where, rx, lines in hints
               if where in ('after', 'before') and len(re.findall(rx, body)) != 1]
        if bad or '%s::%s' % fk in self.drop_hints:
            # hints depend on each other: all or none
            for b in bad or ['proof hints not accepted']:
                self.lost.append((mod, key, b))
            hints = []
        ins = []       # (pos, lines, order)
        repl = []      # (start,end,text)
        want = ov.loop.get(fk, {})
        loops = self.find_loops(body)
        for n, (s, e, kw) in enumerate(loops):
            if n not in want:
                continue
            mode, lines = want[n]
            self.used.add(('loop', mod, key, n))
            if mode in ('slice', 'slicemut') and kw == 'for':
                m = re.match(r'for\s+(.*?)\s+in\s+(.*)$', norm(body[s:e]))
                pat, ex = m.group(1), m.group(2)
                it_, ix = '__s%d' % n, '__i%d' % n
                close = match_close(body, e)
                if mode == 'slice':
                    bind = 'let %s = %s%s[%s];' % (pat.lstrip('& '), '' if pat.startswith('&') else '&', it_, ix)
                else:
                    bind = 'let %s = &mut %s[%s];' % (pat, it_, ix)
                repl.append((s, e, '{ let %s = %s; let ghost __g%d = %s@; let mut %s: usize = 0; while %s < %s.len()' % (it_, ex, n, it_, ix, ix, it_)))
                ins.append((e, lines, 0))
                ins.append((e + 1, [(' ' + bind + ' ' + ix + ' += 1; ', None)], 0))
                ins.append((close + 1, [(' }', None)], 0))
            else:
                ins.append((e, lines, 0))
        for where, rx, lines in hints:
            if where == 'start':
                ins.append((0, lines, 0))
            elif where == 'end':
                ins.append((len(body), lines, 0))
            else:
                m = re.search(rx, body)
                ins.append((m.end() if where == 'after' else m.start(), lines, 0))
            self.used.add(('body', mod, key, where, rx))
        for rx, lines in ov.closure.get(fk, []):
            ms = list(re.finditer(rx, body))
            if len(ms) != 1:
                self.lost.append((mod, key, 'closure anchor /%s/ matched %d times' % (rx, len(ms))))
                continue
            m = ms[0]
            e = scan_to(body, m.end(), ',)')
            repl.append((m.start(), m.end(), ''))
            ins.append((m.end(), lines, 0))
            brace = body[m.end():].lstrip().startswith('{')
            if not brace:
                ins.append((m.end(), [('{', None)], 1))
                ins.append((e, [('}', None)], 1))
        line0 = getattr(it, 'body_line', it.line)
        events = [(p, 1 + o, l, None) for p, l, o in ins] + [(s, 0, t, e) for s, e, t in repl]
        events.sort(key=lambda x: (x[0], x[1]))
        pos = 0
        def put(txt, p):
            self.emit(txt, ('repo', self.file, line0 + body.count('\n', 0, p), mod, key))
        for p, kind, a, e in events:
            if p > pos:
                put(body[pos:p], pos); pos = p
            if kind == 0:
                put(a, p); pos = e
            else:
                if a and a[0][1] is None:
                    put(a[0][0], p)
                else:
                    self.emit_ov(a)
        if pos < len(body):
            put(body[pos:], pos)

    def run(self, mods, shim):
        self.emit('#![feature(sized_hierarchy, allocator_api, const_destruct)]\n#![verifier::allow(undeclared_external_trait)]\n#![verifier::exec_allows_no_decreases_clause]\n#![allow(unused_imports, unused_macros, dead_code, unused_variables, unused_mut, unused_assignments, unused_parens, unused_braces)]\nuse vstd::prelude::*;')
        head, _, tail = open(shim).read().partition('//==SHIM-MODULES==')
        head, tail = self.own(head), self.own(tail)
        for n, l in enumerate(head.split('\n'), 1):
            self.out.append((l, ('shim', shim, n)))
        self.emit_macros()
        for n, l in enumerate(tail.split('\n'), head.count('\n') + 1):
            self.out.append((l, ('shim', shim, n)))
        self.mods = mods
        if 'combinator' not in mods:
            ROOT['decode'] = ROOT['decode'].replace('DecodeExt, ', '')
            ROOT['encode'] = ROOT['encode'].replace('EncodeExt, ', '')
        for m in mods:
            if m in ROOT:
                self.emit('pub use %s::{%s};' % (m, ROOT[m]))
        # trait default methods
        self.defaults = {}
        for m, t in (('decode', 'Decode'), ('encode', 'Encode')):
            for i in self.module(m):
                if i.kind == 'trait' and i.name == t:
                    for f in i.members:
                        if f.kind == 'fn' and f.name == 'is_idle' and f.body is not None:
                            self.defaults[t] = f
        for m in mods:
            self.emit_module(m)
        for k in list(self.ov.fn) + list(self.ov.loop):
            if k[0] in mods and k not in self.fns:
                self.lost.append((k[0], k[1], 'function not found'))
        for k in self.ov.impl:
            if k[0] in mods and ('impl',) + k not in self.used:
                self.lost.append((k[0], k[1], 'impl not found'))
        self.emit('verus!{ }\nfn main() {}')

    def write(self, path):
        open(path, 'w').write('\n'.join(t for t, o in self.out) + '\n')


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--out', required=True)
    ap.add_argument('--mods', default='')
    a = ap.parse_args()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ov = load_overlays(os.path.join(here, 'contracts'))
    g = Gen(a.repo, ov)
    mods = a.mods.split(',') if a.mods else [m for m in MODULES if m not in ('macros', 'lib')]
    g.run(mods, os.path.join(here, 'contracts', 'shim.rs'))
    g.write(a.out)
    for l in g.lost:
        print('LOST', l)
if __name__ == '__main__':
    main()
