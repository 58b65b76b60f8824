"""Expander for item-position macro_rules! invocations (used for the impl_decode!/impl_encode!
families).  Token based; supports $x:frag and $( ... ) sep rep, nested."""
import re
from rsparse import ParseError, skip_string

def tokenize(s):
    toks = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1; continue
        m = re.compile(r'b?r#*"|b?"|b?\'').match(s, i)
        if m:
            j = skip_string(s, i)
            if j is not None:
                toks.append(s[i:j]); i = j; continue
        m = re.compile(r'\$?[A-Za-z_]\w*|\d\w*(?:\.\d\w*)?').match(s, i)
        if m:
            toks.append(m.group(0)); i = m.end(); continue
        m = re.compile(r'::|->|=>|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|\.\.=|\.\.').match(s, i)
        if m:
            toks.append(m.group(0)); i = m.end(); continue
        toks.append(c); i += 1
    # split numeric literal like "0.foo" never occurs; "inner.0" gives 'inner','.','0'
    return toks

CL = {'(': ')', '[': ']', '{': '}'}

def close(t, i):
    st = []
    while i < len(t):
        if t[i] in CL:
            st.append(CL[t[i]])
        elif t[i] in (')', ']', '}'):
            if st.pop() != t[i]:
                raise ParseError('macro brackets')
            if not st:
                return i
        i += 1
    raise ParseError('macro brackets')

def parse_pat(t):
    """-> list of ('tok',x) | ('var',name,frag) | ('rep',pat,sep,op) | ('grp',open,pat)"""
    out = []
    i = 0
    while i < len(t):
        x = t[i]
        if x == '$' and i + 1 < len(t) and t[i + 1] == '(':
            k = close(t, i + 1)
            inner = parse_pat(t[i + 2:k])
            j = k + 1
            sep = None
            if t[j] not in ('*', '+', '?'):
                sep = t[j]; j += 1
            out.append(('rep', inner, sep, t[j])); i = j + 1
        elif x.startswith('$') and len(x) > 1:
            if i + 2 < len(t) and t[i + 1] == ':' :
                out.append(('var', x[1:], t[i + 2])); i += 3
            else:
                out.append(('var', x[1:], None)); i += 1
        elif x in CL:
            k = close(t, i)
            out.append(('grp', x, parse_pat(t[i + 1:k]))); i = k + 1
        else:
            out.append(('tok', x)); i += 1
    return out

class NoMatch(Exception):
    pass

def take_frag(t, i, frag):
    if i >= len(t):
        raise NoMatch()
    if frag in ('ident', 'lifetime'):
        return i + 1
    if frag in ('tt', 'literal'):
        return close(t, i) + 1 if t[i] in CL else i + 1
    if frag == 'block':
        return close(t, i) + 1
    # ty, expr, path, pat: up to a separator at depth 0
    d = 0
    j = i
    while j < len(t):
        if t[j] in CL:
            j = close(t, j) + 1; continue
        if frag in ('ty', 'path'):
            if t[j] == '<': d += 1
            if t[j] == '>': d -= 1
        if t[j] in (',', ';', '=>') and d == 0:
            break
        j += 1
    if j == i:
        raise NoMatch()
    return j

def match(pat, t, i, env):
    for n, p in enumerate(pat):
        if p[0] == 'tok':
            if i >= len(t) or t[i] != p[1]:
                raise NoMatch()
            i += 1
        elif p[0] == 'var':
            j = take_frag(t, i, p[2])
            env[p[1]] = t[i:j]; i = j
        elif p[0] == 'grp':
            if i >= len(t) or t[i] != p[1]:
                raise NoMatch()
            k = close(t, i)
            j = match(p[2], t[i + 1:k], 0, env)
            if j != k - i - 1:
                raise NoMatch()
            i = k + 1
        else:
            reps = []
            while True:
                if i >= len(t):
                    break
                e = {}
                try:
                    st = i
                    if reps and p[2] is not None:
                        if t[i] != p[2]:
                            break
                        st = i + 1
                    j = match(p[1], t, st, e)
                    if j == i:
                        break
                except (NoMatch, IndexError):
                    break
                reps.append(e); i = j
                if p[3] == '?':
                    break
            for v in vars_of(p[1]):
                env[v] = [e.get(v) for e in reps]
                env.setdefault('#rep', set())
            env['#rep'] = set(env.get('#rep', set())) | set(vars_of(p[1]))
    return i

def vars_of(pat):
    r = []
    for p in pat:
        if p[0] == 'var': r.append(p[1])
        elif p[0] == 'grp': r += vars_of(p[2])
        elif p[0] == 'rep': r += vars_of(p[1])
    return r

def subst(pat, env, rep):
    out = []
    for p in pat:
        if p[0] == 'tok':
            out.append(p[1])
        elif p[0] == 'var':
            if p[1] == 'crate':
                out.append('crate'); continue
            if p[1] not in env:
                raise ParseError('macro var $' + p[1])
            out += env[p[1]]
            if p[2] is not None:
                out += [':', p[2]]
        elif p[0] == 'grp':
            out.append(p[1]); out += subst(p[2], env, rep); out.append(CL[p[1]])
        else:
            vs = [v for v in vars_of(p[1]) if v in rep]
            n = len(env[vs[0]])
            for k in range(n):
                e = dict(env)
                for v in vs:
                    e[v] = env[v][k]
                if k and p[2] is not None:
                    out.append(p[2])
                out += subst(p[1], e, rep - set(vs))
    return out

def untok(toks):
    s = ''
    for k, t in enumerate(toks):
        if s and (re.match(r'\w', t) and re.search(r'\w$', s)):
            s += ' '
        s += t
        if t in (';', '{', '}'):
            s += '\n'
        elif t in (',', '=', '->', '=>', '==', '+', '&&', '||', '+=', ':', '-', '!=', '<=', '>='):
            s += ' '
    return s

def expand(macro_body, args):
    t = tokenize(macro_body)
    i = 0
    at = tokenize(args)
    while i < len(t):
        k = close(t, i)
        pat = parse_pat(t[i + 1:k])
        j = k + 1
        if t[j] != '=>':
            raise ParseError('macro arm')
        k2 = close(t, j + 1)
        body = t[j + 2:k2]
        i = k2 + 1
        if i < len(t) and t[i] == ';':
            i += 1
        env = {}
        try:
            e = match(pat, at, 0, env)
            if e != len(at):
                raise NoMatch()
        except (NoMatch, IndexError):
            continue
        rep = env.pop('#rep', set())
        return untok(subst(parse_pat(body), env, rep))
    raise ParseError('no macro arm matches')
