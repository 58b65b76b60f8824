"""A small Rust item parser: splits a source file into items / impl members
without interpreting bodies.  It is purely lexical (strings, chars, lifetimes,
comments, balanced brackets), so every body it hands on is the verbatim text
of the file it was read from (comments and attributes removed)."""
import re

class ParseError(Exception):
    pass

def skip_string(s, i):
    """s[i] starts a string/char/lifetime literal; return index after it (or None)."""
    m = re.compile(r'b?r(#*)"').match(s, i)
    if m:
        end = '"' + m.group(1)
        j = s.index(end, m.end())
        return j + len(end)
    if s.startswith('b"', i) or s[i] == '"':
        j = i + (2 if s[i] == 'b' else 1)
        while s[j] != '"':
            j += 2 if s[j] == '\\' else 1
        return j + 1
    if s[i] == "'" or s.startswith("b'", i):
        k = i + (2 if s[i] == 'b' else 1)
        if s[k] == '\\':
            j = k + 2
            while s[j] != "'":
                j += 1
            return j + 1
        if k + 1 < len(s) and s[k + 1] == "'":
            return k + 2
        if s[i] == 'b':
            return None
        m = re.compile(r"'[A-Za-z_]\w*").match(s, i)
        if m:
            return m.end()
        return i + 1
    return None

def strip_comments(s):
    """Replace comments by spaces (newlines kept) so offsets/lines are preserved."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            out.append(' ' * (j - i))
            i = j
        elif s.startswith('/*', i):
            d, j = 1, i + 2
            while d:
                if s.startswith('/*', j):
                    d += 1; j += 2
                elif s.startswith('*/', j):
                    d -= 1; j += 2
                else:
                    j += 1
            out.append(re.sub(r'[^\n]', ' ', s[i:j]))
            i = j
        elif c in '"\'' or (c in 'br' and re.compile(r'b?r#*"|b["\']').match(s, i)
                            and not (i and (s[i-1].isalnum() or s[i-1] == '_'))):
            j = skip_string(s, i)
            if j is None:
                out.append(c); i += 1
            else:
                out.append(s[i:j]); i = j
        else:
            out.append(c); i += 1
    return ''.join(out)

OPEN = {'(': ')', '[': ']', '{': '}'}

def match_close(s, i):
    """s[i] is an opening bracket; return the index of its closing bracket."""
    st = []
    n = len(s)
    while i < n:
        c = s[i]
        if c in OPEN:
            st.append(OPEN[c]); i += 1
        elif c in ')]}':
            if not st or st[-1] != c:
                raise ParseError('unbalanced %r' % c)
            st.pop()
            if not st:
                return i
            i += 1
        elif c in '"\'' or (c in 'br' and re.compile(r'b?r#*"|b["\']').match(s, i)
                            and not (i and (s[i-1].isalnum() or s[i-1] == '_'))):
            j = skip_string(s, i)
            i = i + 1 if j is None else j
        else:
            i += 1
    raise ParseError('unclosed bracket')

class Item:
    def __init__(self, kind, name, header, body, attrs, line, members=None, vis=''):
        self.kind = kind          # use struct enum impl trait fn macro_def macro_call type const mod other
        self.name = name
        self.header = header      # text before '{' (or whole text)
        self.body = body          # text between outer braces, or None
        self.attrs = attrs
        self.line = line
        self.members = members
        self.vis = vis
    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)

def norm(s):
    return re.sub(r'\s+', ' ', s).strip()

def scan_to(s, i, stops):
    """index of first char in stops at bracket depth 0 (angle brackets ignored)."""
    n = len(s)
    while i < n:
        c = s[i]
        if c in stops:
            return i
        if c in OPEN:
            i = match_close(s, i) + 1
        elif c in '"\'':
            j = skip_string(s, i)
            i = i + 1 if j is None else j
        else:
            i += 1
    return n

def parse_items(s, line0=1, in_impl=False):
    """s must be comment-stripped."""
    items = []
    i, n = 0, len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            return items
        attrs = []
        start = i
        while s.startswith('#', i):
            j = i + 1
            if s[j] == '!':
                j += 1
            while s[j].isspace():
                j += 1
            k = match_close(s, j)
            attrs.append(norm(s[i:k + 1]))
            i = k + 1
            while i < n and s[i].isspace():
                i += 1
        if i >= n:
            return items
        line = line0 + s.count('\n', 0, i)
        m = re.compile(r'pub(\s*\([^)]*\))?\s+').match(s, i)
        vis = ''
        if m:
            vis = norm(m.group(0)); i = m.end()
        m = re.compile(r'((?:(?:unsafe|const|async|default|extern\s+"[^"]*"|extern)\s+)*)(fn|struct|enum|impl|trait|mod|use|type|const|static|union|macro_rules!|extern crate)\b\s*').match(s, i) \
            or re.compile(r'()(macro_rules!)\s*').match(s, i) or re.compile(r'()(const|static)\s+').match(s, i)
        if not m:
            m2 = re.compile(r'([A-Za-z_][\w:]*)!\s*').match(s, i)
            if m2:
                j = m2.end()
                nm = ''
                k = match_close(s, j)
                body = s[j + 1:k]
                i = k + 1
                m3 = re.compile(r'\s*;').match(s, i)
                if m3:
                    i = m3.end()
                items.append(Item('macro_call', m2.group(1), s[start:i], body, attrs, line))
                continue
            raise ParseError('cannot parse item at line %d: %r' % (line, s[i:i + 40]))
        kw = m.group(2)
        hstart = i
        i = m.end()
        if kw == 'macro_rules!':
            m2 = re.compile(r'\s*(\w+)\s*').match(s, i)
            j = m2.end()
            k = match_close(s, j)
            items.append(Item('macro_def', m2.group(1), s[hstart:j], s[j + 1:k], attrs, line))
            i = k + 1
            m3 = re.compile(r'\s*;').match(s, i)
            if m3 and s[j] != '{':
                i = m3.end()
            continue
        if kw in ('use', 'type', 'const', 'static', 'extern crate'):
            j = scan_to(s, i, ';')
            name = re.compile(r'\s*(\w+)').match(s, i)
            items.append(Item({'extern crate': 'extern'}.get(kw, kw), name.group(1) if name else '',
                              s[hstart:j + 1], None, attrs, line, vis=vis))
            i = j + 1
            continue
        if kw == 'mod':
            j = scan_to(s, i, ';{')
            name = norm(s[i:j])
            if s[j] == ';':
                items.append(Item('mod', name, s[hstart:j + 1], None, attrs, line, vis=vis)); i = j + 1
            else:
                k = match_close(s, j)
                items.append(Item('mod', name, s[hstart:j], s[j + 1:k], attrs, line, vis=vis)); i = k + 1
            continue
        if kw == 'struct':
            m2 = re.compile(r'(\w+)').match(s, i)
            j = scan_to(s, m2.end(), ';{(')
            name = m2.group(1)
            if s[j] == '{':
                k = match_close(s, j)
                it = Item('struct', name, s[hstart:j], s[j + 1:k], attrs, line, vis=vis); i = k + 1
                it.shape = 'named'
            elif s[j] == '(':
                k = match_close(s, j)
                e = scan_to(s, k + 1, ';')
                it = Item('struct', name, s[hstart:j], s[j + 1:k], attrs, line, vis=vis); i = e + 1
                it.shape = 'tuple'
                it.where = s[k + 1:e]
            else:
                it = Item('struct', name, s[hstart:j], '', attrs, line, vis=vis); i = j + 1
                it.shape = 'unit'
            items.append(it)
            continue
        if kw in ('enum', 'union'):
            m2 = re.compile(r'(\w+)').match(s, i)
            j = scan_to(s, i, '{')
            k = match_close(s, j)
            items.append(Item(kw, m2.group(1), s[hstart:j], s[j + 1:k], attrs, line, vis=vis)); i = k + 1
            continue
        if kw in ('impl', 'trait'):
            j = scan_to(s, i, '{;')
            k = match_close(s, j)
            hdr = s[hstart:j]
            it = Item(kw, '', hdr, s[j + 1:k], attrs, line, vis=vis)
            it.members = parse_items(s[j + 1:k], line0 + s.count('\n', 0, j + 1), True)
            it.name = impl_key(hdr) if kw == 'impl' else re.match(r'(\w+)', s[i:]).group(1)
            items.append(it); i = k + 1
            continue
        if kw == 'fn':
            m2 = re.compile(r'(\w+)').match(s, i)
            j = scan_to(s, i, '{;')
            if s[j] == ';':
                items.append(Item('fn', m2.group(1), s[hstart:j], None, attrs, line, vis=vis)); i = j + 1
            else:
                k = match_close(s, j)
                it = Item('fn', m2.group(1), s[hstart:j], s[j + 1:k], attrs, line, vis=vis)
                it.body_line = line0 + s.count('\n', 0, j + 1)
                items.append(it)
                i = k + 1
            continue
        raise ParseError(kw)

def skip_generics(s, i):
    """s[i] == '<': return index after the matching '>' ('->' and '=>' skipped)."""
    d = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] not in '-=':
            d -= 1
            if d == 0:
                return i + 1
        elif c in '([{':
            i = match_close(s, i)
        i += 1
    raise ParseError('generics')

def split_impl(hdr):
    """-> (generics, trait or None, type, where)"""
    h = norm(hdr)
    assert h.startswith('impl')
    h = h[4:].strip()
    gen = ''
    if h.startswith('<'):
        e = skip_generics(h, 0)
        gen, h = h[:e], h[e:].strip()
    # where clause at depth 0
    wh = ''
    d = 0
    i = 0
    tr = None
    pos_for = pos_where = None
    while i < len(h):
        c = h[i]
        if c == '<':
            i = skip_generics(h, i); continue
        if c in '([':
            i = match_close(h, i) + 1; continue
        if re.match(r'\bfor\b', h[i:]) and (i == 0 or h[i - 1] == ' ') and pos_for is None and pos_where is None and not re.match(r'for\s*<', h[i:]):
            pos_for = i
        if re.match(r'\bwhere\b', h[i:]) and (i == 0 or h[i - 1] in ' >)') and pos_where is None:
            pos_where = i
        i += 1
    if pos_where is not None:
        wh = h[pos_where:]; h = h[:pos_where].strip()
    if pos_for is not None:
        tr = h[:pos_for].strip(); ty = h[pos_for + 3:].strip()
    else:
        ty = h.strip()
    return gen, tr, ty, wh

def base_name(t):
    t = t.strip()
    if t.startswith('&'):
        m = re.match(r"&\s*('\w+\s*)?(mut\s+)?", t)
        return '&mut' if (m.group(2) or '').strip() == 'mut' else '&'
    if t.startswith('<') or t.startswith('[') or t.startswith('('):
        return norm(t)
    m = re.match(r'[\w:]+', t)
    return m.group(0).split('::')[-1]

def impl_key(hdr):
    gen, tr, ty, wh = split_impl(hdr)
    b = base_name(ty)
    if b in ('TupleDecoder', 'TupleEncoder'):
        m = re.match(r'\w+\s*<\s*\((.*)\)\s*>$', ty)
        if m:
            b += str(len([x for x in m.group(1).split(',') if x.strip()]))
    if tr is None:
        return b
    tb = base_name(tr)
    if tb == 'From':
        tb = re.sub(r'\s', '', tr)
    if tb in ('AsRef', 'AsMut'):
        pass
    return '%s as %s' % (b, tb)
