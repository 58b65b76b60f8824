#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: extract, verify, replay.  See DESIGN.md."""
import argparse, json, os, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import gen as genmod
import rsparse

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
CONTRACTS = os.path.join(ROOT, 'contracts')

# which property owns the obligations of a function that carry no label of their own (module::key regex)
OWNERS = [
    ('C03', r'^fixnum::'), ('C04', r'^(bytes|slice)::'), ('C20', r'^padding::'), ('C17', r'^(byte_count|eos)::'),
    ('C21', r'^error::'), ('C18', r'^(monolithic|bincode_codec|json_codec)::'), ('C19', r'^io_async::'),
    ('C14', r'^io::(ReadBuf|WriteBuf|StreamState)'), ('C15', r'^io::BufferedIo'), ('C16', r'^io::Io(De|En)codeExt'),
    ('C07', r'^combinator::Length'), ('C08', r'^combinator::MaxBytes'), ('C09', r'^combinator::Slice'),
    ('C10', r'^combinator::Collect'), ('C11', r'^tuple::'), ('C12', r'^combinator::Repeat'),
    ('C13', r'^combinator::'), ('C13', r'^(de|en)code::(De|En)codeExt'),
]
TRUST_WORDS = re.compile(r'\b(assume|admit)\s*\(|external_body|assume_specification|\baxiom\b|external_fn_specification|external_type_specification')


def owners(mod, key):
    n = '%s::%s' % (mod, key)
    return [p for p, rx in OWNERS if re.match(rx, n)][:1]


_ov = {}


def ov_lines(path):
    if path not in _ov:
        _ov[path] = open(path).read().split('\n')
    return _ov[path]


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.dir = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.notes = []
        self.undecided = []     # functions the verifier could not be applied to on this tree
        self.failed = []        # failing obligations
        self.verified_fns = []
        self.ok = False
        self.g = None

    # ---- extraction ------------------------------------------------------
    def clashes(self, g):
        """specification functions whose name a function new in the crate has, too"""
        base = set(x[1].split('::')[-1] for x in json.load(open(os.path.join(CONTRACTS, 'baseline.json'))))
        new = set(k[1].split('::')[-1] for k in g.fns) - base
        text = ''.join(open(os.path.join(CONTRACTS, f)).read() for f in sorted(os.listdir(CONTRACTS)) if f.endswith(('.ov', '.rs')))
        return new & set(re.findall(r'\b(?:spec|proof|axiom)\s+fn\s+(\w+)', text))

    def generate(self, auto_trust, drop_hints=(), clash=()):
        ov = genmod.load_overlays(CONTRACTS)
        g = genmod.Gen(REPO, ov, auto_trust, drop_hints, clash)
        mods = [m for m in genmod.MODULES if m not in ('macros', 'lib') and os.path.exists(os.path.join(CONTRACTS, m + '.ov'))
                or m == 'marker']
        g.run(mods, os.path.join(CONTRACTS, 'shim.rs'))
        if not clash and self.clashes(g):
            return self.generate(auto_trust, drop_hints, self.clashes(g))
        g.emit('verus!{ proof fn must_fail_sentinel() ensures false { broadcast use crate::shim::group_shim; } }')
        g.sentinel = len(g.out)
        self.path = os.path.join(self.dir, 'bytecodec_verus.rs')
        g.write(self.path)
        return g

    def verus(self, extra=()):
        cmd = ['verus', os.path.basename(self.path), '--output-json', '--time-expanded', '--multiple-errors', '6',
               '--num-threads', '6', '--rlimit', '30' if self.tier == 'quick' else '100'] + list(extra) + ['--', '--error-format=json', '--cfg', 'feature="tokio-async"']
        self.cmd = ' '.join(cmd)
        t = time.time()
        p = subprocess.Popen(cmd, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        try:
            out, err = p.communicate(timeout=420 if self.tier == 'quick' else 1800)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, err = p.communicate()
            return None, [], time.time() - t
        diags = []
        for l in err.split('\n'):
            if l.startswith('{'):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        try:
            res = json.loads(out[out.index('{'):])
        except ValueError:
            res = None
        self.raw_err = err
        return res, diags, time.time() - t

    def fn_at(self, line):
        best = None
        for r in self.g.fn_ranges:
            if r[0] <= line <= r[1] and (best is None or r[0] > best[0]):
                best = r
        return best

    def label(self, line, end=None):
        """label of the contract clause on these lines: (properties, what the clause says)"""
        for n in range(line, (end or line) + 1):
            t, o = self.g.out[n - 1]
            if o and o[0] == 'ov':
                t = ov_lines(o[1])[o[2] - 1]
            m = re.search(r'//@\s*([A-Z]\d+(?:,[A-Z]\d+)*)\s*(.*)', t)
            if m:
                return m.group(1), m.group(2).strip()

    def origin(self, line):
        o = self.g.out[line - 1][1]
        if not o:
            return 'generated line %d' % line
        return '%s:%d' % (os.path.relpath(o[1], ROOT) if o[0] != 'repo' else o[1], o[2])

    def fn_labels(self):
        """fn -> set of properties its contract (its own and its trait's) carries"""
        res, lab = {}, {}
        self.clauses = []
        for r in self.g.fn_ranges:
            ls = [self.label(l) for l in range(r[0], r[1] + 1)]
            lab[(r[2], r[3])] = [x for x in ls if x]
        for (mod, key), info in self.g.fns.items():
            own = lab.get((mod, key), [])
            m = re.match(r'(.*) as (\w+)::(\w+)$', key)
            tr = []
            if m:
                for (m2, k2), l2 in lab.items():
                    if k2 == '%s::%s' % (m.group(2), m.group(3)):
                        tr = l2
            props = set(p for x in own + tr for p in x[0].split(',')) | set(owners(mod, key))
            res[(mod, key)] = props
            if info['body'] and not info['trusted']:
                for ps, t in own + tr:
                    for p in ps.split(','):
                        self.clauses.append((p, mod, key, t))
        return res

    def verify(self):
        auto, drop = set(), set()
        for attempt in range(12):
            self.g = g = self.generate(auto, drop)
            res, diags, secs = self.verus()
            self.wall_verus = secs
            errs = [d for d in diags if d['level'] == 'error' and not d['message'].startswith('aborting due to')]
            if res is None and not errs:
                self.notes.append('the verifier gave no result (timeout or crash)')
                self.undecided.append(('*', 'verifier gave no result'))
                return
            vr = (res or {}).get('verification-results', {})
            compiled = res is not None and not vr.get('encountered-vir-error') and 'verified' in vr and (vr.get('verified', 0) + vr.get('errors', 0)) > 0
            if compiled:
                break
            # the extracted text is outside what the verifier accepts: set the functions concerned aside (bounded stand-in)
            new = set()
            for d in errs:
                for s in self.spans(d):
                    r = self.fn_at(s['line_start'])
                    if r:
                        k = '%s::%s' % (r[2], r[3])
                        if k not in auto:
                            new.add(k)
                        break
            if new - drop and any(h in g.ov.body for h in [tuple(k.split('::', 1)) for k in new - drop]):
                drop |= new       # first without the hints
                continue
            if not new:
                self.undecided.append(('*', 'extracted source not accepted: ' + '; '.join(self.describe(d) for d in errs[:3])))
                return
            for k in new:
                self.undecided.append((k, 'not accepted by the verifier: ' + '; '.join(self.describe(d) for d in errs[:3])))
            auto |= new
        else:
            self.undecided.append(('*', 'extracted source not accepted after 12 attempts'))
            return
        self.ok = True
        self.res = res
        for mod, key, what in g.lost:
            self.undecided.append(('%s::%s' % (mod, key), 'anchor lost: ' + what))
        base = set(tuple(x) for x in json.load(open(os.path.join(CONTRACTS, 'baseline.json'))))
        newfns = set(k[1].split('::')[-1] for k in g.fns if tuple(k) not in base)
        gone = set(x[1].split('::')[-1] for x in base if x not in g.fns)
        labels = self.fn_labels()
        seen_sentinel = False
        hard = {}
        for d in errs:
            sp = self.spans(d)
            if any(s['line_start'] == g.sentinel for s in sp):
                seen_sentinel = True
                continue
            msg = d['message']
            fn = None
            for s in sp:
                r = self.fn_at(s['line_start'])
                if r and g.fns[(r[2], r[3])]['body'] and not g.fns[(r[2], r[3])]['trusted'] and not (s.get('label') or '').startswith(('failed this post', 'failed precond')):
                    fn = r
                    break
            if fn is None:
                for s in sp:
                    r = self.fn_at(s['line_start'])
                    if r:
                        fn = r
                        break
            clause = next((s for s in sp if (s.get('label') or '').startswith('failed')), sp[0] if sp else None)
            lab = self.label(clause['line_start'], clause['line_end']) if clause else None
            name = '%s::%s' % (fn[2], fn[3]) if fn else 'specification'
            entry = dict(function=name, repo='%s:%d' % (fn[4], fn[5]) if fn else None, message=msg,
                         clause=self.g.out[clause['line_start'] - 1][0].strip() if clause else '',
                         clause_at=self.origin(clause['line_start']) if clause else '',
                         label='%s %s' % lab if lab else None, rendered=d.get('rendered', '')[:3000])
            if re.search(r'rlimit|resource limit|timeout|not supported|unsupported', msg, re.I):
                self.undecided.append((name, msg)); hard[name] = 1
                continue
            if fn:
                body = '\n'.join(t for t, o in g.out[fn[0] - 1:fn[1]])
                callee = [n for n in newfns if re.search(r'\b%s\b' % n, body)]
                if callee and (fn[2], fn[3]) in base or (fn[2], fn[3]) not in base:
                    self.undecided.append((name, 'depends on functions without a contract: %s' % ', '.join(callee or [fn[3]])))
                    continue
                if any(l[0] == fn[2] and l[1] == fn[3] for l in g.lost):
                    self.undecided.append((name, 'proof hints of this function no longer apply'))
                    continue
            if lab and 'postcondition' in msg:
                entry['props'] = sorted(set(lab[0].split(',')) | set(owners(fn[2], fn[3]) if fn else []))
            else:
                # a panic or a broken precondition says nothing about the kinds of errors
                entry['props'] = sorted(labels.get((fn[2], fn[3]), set()) - ({'C21'} - set(owners(fn[2], fn[3]))) if fn else [])
            self.failed.append(entry)
        if not seen_sentinel:
            self.undecided.append(('*', 'the must-fail obligation was accepted: assumptions are contradictory'))
            self.ok = False
        failing = set(x['function'] for x in self.failed) | set(x for x, _ in self.undecided)
        self.verified_fns = sorted('%s::%s' % k for k, i in g.fns.items() if i['body'] and not i['trusted'] and '%s::%s' % k not in failing)
        self.labels = labels

    def spans(self, d):
        sp = [s for s in d['spans'] if s['file_name'].endswith('bytecodec_verus.rs')]
        out = []
        for s in sp:
            e = s
            while e.get('expansion'):
                e = e['expansion']['span']
            if e['file_name'].endswith('bytecodec_verus.rs'):
                e = dict(e, label=s.get('label'), is_primary=s['is_primary'])
                out.append(e)
        return sorted(out, key=lambda s: not s['is_primary'])

    def describe(self, d):
        sp = self.spans(d)
        return '%s (%s)' % (d['message'], self.origin(sp[0]['line_start']) if sp else '?')

    # ---- contracts assumed about dependencies ----------------------------
    def kani(self):
        """byteorder and std functions: their assumed contracts, for all inputs, on their real code"""
        env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(BUILD, 'kani-target'), RUSTC_WRAPPER='')
        env.pop('RUSTFLAGS', None)
        t = time.time()
        try:
            p = subprocess.run(['cargo', 'kani', '-Z', 'unstable-options', '-j', '2', '--output-format=terse'], cwd=os.path.join(ROOT, 'kani'),
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures', p.stdout)
            self.dep = dict(back_end='Kani / CBMC, complete (fixed widths, every value symbolic)', wall_s=round(time.time() - t, 1),
                            harnesses_verified=int(m.group(1)) if m else 0, harnesses_failed=int(m.group(2)) if m else None,
                            functions='byteorder {Big,Little}Endian::{read,write}_{u16,i16,u24,u32,i32,u64,i64,f32,f64,uint}; std cmp::min, cmp::max, u64::from(bool), Option::{map_or,is_some_and}, mem::take')
            if not m or m.group(2) != '0':
                self.undecided.append(('kani/', 'assumed contracts of dependencies not confirmed: ' + p.stdout[-600:]))
        except (OSError, subprocess.TimeoutExpired) as e:
            self.undecided.append(('kani/', 'assumed contracts of dependencies not confirmed: %r' % e))

    # ---- engine ----------------------------------------------------------
    def engine(self):
        self.eng = {'ok': None}
        tgt = os.path.join(BUILD, 'engine-target')
        os.makedirs(tgt, exist_ok=True)
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith(('bytecodec-', 'engine-')):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=tgt, RUSTC_WRAPPER='')
        env.pop('RUSTFLAGS', None)
        p = subprocess.run(['cargo', 'build', '--offline', '-q', '--manifest-path', os.path.join(ROOT, 'engine', 'Cargo.toml')],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            self.eng = {'ok': None, 'error': p.stdout[-3000:]}
            return
        exe = os.path.join(self.dir, 'engine')
        shutil.copy(os.path.join(tgt, 'debug', 'engine'), exe)
        outp = os.path.join(self.dir, 'engine.json')
        budget = '12000' if self.tier == 'quick' else '300000'
        seed = os.environ.get('VERIF_SEED', '1')
        try:
            p = subprocess.run([exe, self.prop, '--seed', seed, '--budget-ms', budget, '--out', outp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120 if self.tier == 'quick' else 900)
            self.eng = json.load(open(outp))
            self.eng['rc'] = p.returncode
        except subprocess.TimeoutExpired:
            self.eng = {'ok': None, 'error': 'engine timed out'}
        except (OSError, ValueError) as e:
            self.eng = {'ok': None, 'error': 'engine: %s %s' % (e, p.stdout[-2000:])}


def known_findings():
    res = []
    f = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
            if m:
                res.append(m.groups())
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-engine', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    os.makedirs(BUILD, exist_ok=True)
    r = Run(prop, a.tier)
    r.eng = {'ok': None, 'error': 'not run'}
    th = threading.Thread(target=r.engine)
    if not a.no_engine:
        th.start()
    try:
        r.verify()
    except Exception as e:        # a source file the extractor cannot read is a tool limit, never an alarm
        import traceback
        r.notes.append(traceback.format_exc())
        r.undecided.append(('*', 'extraction failed: %r' % e))
    if not a.no_engine:
        th.join()
    r.dep = None
    if prop == 'C03' and a.tier == 'thorough':
        r.kani()
    code = report(r, t0, a)
    if not a.keep:
        shutil.rmtree(r.dir, ignore_errors=True)
    sys.exit(code)


def report(r, t0, a):
    prop = r.prop
    known = known_findings()
    viol = []
    repl_dir = os.path.join(BUILD, 'replay')
    os.makedirs(repl_dir, exist_ok=True)
    for p, i, text in known:
        if p == prop:
            print('KNOWN-FINDING: property=%s %s' % (p, text))
    mine = [f for f in r.failed if prop in f['props']]
    eng_fail = [v for v in (r.eng.get('failures') or [])]
    n = 0
    if eng_fail:
        n += 1
        path = os.path.join(repl_dir, '%s-%d.json' % (prop, n))
        json.dump(dict(property=prop, kind='input', failures=eng_fail, replay_cmd='engine %s --seed %s' % (prop, os.environ.get('VERIF_SEED', '1')),
                       obligations=mine), open(path, 'w'), indent=1)
        for v in eng_fail[:3]:
            print('failing input: %s' % json.dumps(v)[:1500])
        for f in mine[:5]:
            print('failed obligation: %s: %s [%s] %s' % (f['function'], f['message'], f['label'], f['clause'][:200]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        viol.append(path)
    elif mine:
        n += 1
        path = os.path.join(repl_dir, '%s-%d.json' % (prop, n))
        json.dump(dict(property=prop, kind='obligation', obligations=mine, verifier=getattr(r, 'cmd', ''), engine=r.eng), open(path, 'w'), indent=1)
        for f in mine[:5]:
            print('failed obligation: %s (%s): %s [%s] %s' % (f['function'], f['repo'], f['message'], f['label'], f['clause'][:200]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        viol.append(path)
    # evidence
    g = r.g
    cov = {}
    if g is not None and r.ok:
        und = set(x for x, _ in r.undecided)
        cl = [c for c in r.clauses if c[0] == prop]
        fns = sorted(set('%s::%s' % k for k, ps in r.labels.items() if prop in ps and g.fns[k]['body'] and not g.fns[k]['trusted']))
        failing = set(x['function'] for x in mine) | und
        smt = 0
        for m in r.res.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            smt += m.get('time-micros', 0)
        cov = dict(
            obligations=len(cl) + len(fns),
            discharged=len([c for c in cl if '%s::%s' % (c[1], c[2]) not in failing]) + len([f for f in fns if f not in failing]),
            obligation_rule='one per labelled contract clause of this property and function that must meet it, plus one per such function for its body (calls, arithmetic, indices, loop invariants)',
            verifier_queries_accepted=r.res['verification-results']['verified'], verifier_queries_rejected=r.res['verification-results']['errors'],
            checker_cmd=r.cmd, back_end='Verus 0.2026.09.13 / Z3', solver_s=round(smt / 1e6, 3), verifier_wall_s=round(r.wall_verus, 2),
            functions_under_contract=fns,
            trusted_base=trusted(g),
            must_fail_obligation='rejected as required',
        )
    else:
        cov = dict(obligations=1, discharged=0, checker_cmd=getattr(r, 'cmd', 'none'), trusted_base=[])
    cov['undecided'] = ['%s: %s' % x for x in r.undecided]
    e = dict(r.eng)
    e.pop('failures', None)
    cov['bounded_stand_in'] = dict(label='bounded: seeded and bounded-exhaustive runs of the real crate, never counted as proved', **e)
    if r.dep:
        cov['dependency_contracts'] = r.dep
    if r.notes:
        cov['notes'] = r.notes
    ev = dict(property=prop, tier=r.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='proof', coverage=cov,
              assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: obligations %d, discharged %d; undecided %d; bounded cases %s; %.1fs' % (
        prop, cov['obligations'], cov['discharged'], len(r.undecided), r.eng.get('cases'), time.time() - t0))
    for u in r.undecided[:8]:
        print('  undecided: %s: %s' % (u[0], u[1][:300]))
    if r.eng.get('error'):
        print('  engine: %s' % r.eng['error'][-800:])
    if viol:
        return 1
    if not r.ok and r.eng.get('ok') is not True:
        return 2      # neither the verifier nor the stand-in gave an answer
    return 0


ASSUMPTIONS = [
    'Verus and Z3 are sound; usize has 64 bits',
    'extraction rewrites listed in DESIGN.md keep the meaning of the functions',
    'contracts of std/byteorder/trackable functions in contracts/shim.rs (listed in trusted_base)',
    'termination of loops marked without decreases is not proved',
]


def trusted(g):
    res = []
    for i, (t, o) in enumerate(g.out):
        if o and o[0] == 'repo':
            continue
        code = t.split('//')[0]
        if TRUST_WORDS.search(code):
            where = 'generated'
            if o:
                where = '%s:%d' % (os.path.basename(o[1]), o[2])
            d = code.strip()
            if 'external_body' in d:
                nxt = next((x[0].strip() for x in g.out[i + 1:i + 4] if re.search(r'\b(fn|struct|impl|trait)\b', x[0])), '')
                d = 'body not verified: ' + nxt[:160]
            res.append('%s [%s]' % (d[:220], where))
    for (mod, key), why in g.ov.trust.items():
        if (mod, key) in g.fns:
            res.append('%s::%s: %s' % (mod, key, why))
    return res


if __name__ == '__main__':
    main()
