#!/usr/bin/env python3
"""check.py PROP...      decide properties by discharging the contracts in proofs/
   check.py --proof NAME run one proof verbosely
   check.py --list       list proofs
Every proof file #includes the real source file(s) of /repo; nothing is extracted
or copied.  See DESIGN.md."""
import sys, os, re, json, shlex, subprocess, tempfile, time, shutil, glob, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
PROOFS = os.path.join(VERIF, 'proofs')
SUB = ['include', 'src'] + ['src/' + d for d in (
    'utils base_alloc ctl memspaces memtargets provider pool critnib ravl coarse uthash').split()]
INC = ['-I' + PROOFS] + ['-I' + os.path.join(REPO, s) for s in SUB] + ['-I' + os.path.join(VERIF, 'proofs/include')]
DEF = ['-D_GNU_SOURCE', '-DUMF_VERSION=0.11.0', '-DVP_REPO_SRC']
UNDECIDED_CLASSES = ('unwind', 'recursion', 'no-body', 'no_body')
GLOBAL_ASSUMPTIONS = [
    'CBMC semantics of C on x86_64 Linux (LP64, byte order, two\'s complement); machine arithmetic is bit-precise, nothing is treated as mathematical',
    'sequential execution between lock and unlock (no interference by other threads)',
    'functions outside the proved module are represented by the contracts in proofs/*.c (stubs that assert their precondition and return any result their contract allows)',
    'utils_log/utils_plog have no effect on the properties',
    'distinct memory objects are at distinct addresses (CBMC memory model); CBMC object-bits limit the number of objects, not their size',
]
CLOCK = threading.Lock()


def load_proofs():
    out = []
    for path in sorted(glob.glob(os.path.join(PROOFS, 'p_*.c'))):
        src = open(path).read()
        cur = None
        for line in src.splitlines():
            if line.startswith('//@ '):
                cur = {'file': path}
                out.append(cur)
                body = line[4:]
            elif line.startswith('//@+') and cur is not None:
                body = line[4:]
            else:
                continue
            for tok in shlex.split(body):
                k, _, v = tok.partition('=')
                if k in cur:
                    cur[k] += ' ' + v
                else:
                    cur[k] = v
    names = set()
    for p in out:
        p.setdefault('name', os.path.basename(p['file'])[:-2] + '.' + p['h'])
        assert p['name'] not in names, p['name']
        names.add(p['name'])
        p['props'] = p['props'].split(',')
        p.setdefault('mode', 'plain')
        p.setdefault('unwind', '1')
        p.setdefault('timeout', '200')
        p.setdefault('tier', 'quick')
    return out


_src = {}


def repo_has(fn):
    if not _src:
        _src['t'] = ''
        for root, _, files in os.walk(os.path.join(REPO, 'src')):
            for f in files:
                if f.endswith(('.c', '.h')):
                    _src['t'] += open(os.path.join(root, f), errors='replace').read()
    return re.search(r'\b%s\s*\(' % re.escape(fn), _src['t']) is not None


def clause_names(path):
    """clause names per function, from the POSTS_<f> X-macros"""
    src = open(path).read().replace('\\\n', ' ')
    res = {}
    for m in re.finditer(r'^#define POSTS_(\w+)\(P\)(.*)$', src, re.M):
        names = []
        body = m.group(2)
        for mm in re.finditer(r'\bP\("((?:[^"\\]|\\.)*)"|\b(POSTS_\w+)\(P\)', body):
            if mm.group(1) is not None:
                names.append(mm.group(1))
            else:
                names += res.get(mm.group(2)[6:], [])
        res[m.group(1)] = names
    return res


CPU = threading.BoundedSemaphore(int(os.environ.get('VP_JOBS', '8')))


def run(cmd, timeout, cwd=None, mem_gb=10, env=None):
    with CPU:
        return run_(cmd, timeout, cwd, mem_gb, env)


def run_(cmd, timeout, cwd=None, mem_gb=10, env=None):
    def lim():
        import resource
        b = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
    t = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd,
                             preexec_fn=lim if mem_gb else None, start_new_session=True, env=env)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -999, 'TIMEOUT', time.time() - t


def parse_cbmc(out):
    try:
        js = json.loads(out)
    except Exception:
        return None
    res = {'props': None, 'solver_s': 0.0, 'solver': '', 'msgs': [], 'status': None}
    for e in js:
        if 'messageText' in e:
            t = e['messageText']
            m = re.match(r'Runtime (Solver|decision procedure|Post-process|Convert SSA|Symex): ([\d.e+-]+)s', t)
            if m and m.group(1) == 'Solver':
                res['solver_s'] += float(m.group(2))
            if t.startswith('Passing problem to') or t.startswith('Running SMT') or 'MiniSAT' in t or 'CaDiCaL' in t:
                res['solver'] = t.replace('Passing problem to ', '')
            if e.get('messageType') in ('ERROR', 'WARNING'):
                res['msgs'].append(t)
        if 'result' in e:
            res['props'] = e['result']
        if 'cProverStatus' in e:
            res['status'] = e['cProverStatus']
        if 'program' in e:
            res['program'] = e['program']
    return res


def errlines(out):
    l = [x for x in out.splitlines() if not x.lstrip().startswith('from ') and 'In file included' not in x]
    return '\n'.join(l)[-1200:]


class Undecided(Exception):
    pass


class Job:
    def __init__(self, p, work, tier, deadline, verbose=False):
        self.p, self.tier, self.deadline, self.verbose = p, tier, deadline, verbose
        self.dir = os.path.join(work, re.sub(r'\W', '_', p['name']))
        os.makedirs(self.dir, exist_ok=True)
        self.cmds = []

    def left(self):
        return max(1, self.deadline - time.time())

    def sh(self, cmd, what):
        self.cmds.append(' '.join(shlex.quote(c) for c in cmd))
        to = min(self.left(), float(self.p['timeout']))
        rc, out, dt = run(cmd, to, cwd=self.dir)
        if rc == -999:
            raise Undecided('%s: %s timed out after %.0fs' % (self.p['name'], what, to))
        return rc, out

    def build(self, mode, loopc):
        p = self.p
        a, b = os.path.join(self.dir, 'a.gb'), os.path.join(self.dir, 'b.gb')
        defs = DEF + shlex.split(p.get('defs', '')) + (['-DVP_DFCC'] if mode == 'dfcc' else ['-DVP_PLAIN'])
        if loopc:
            defs.append('-DVP_LOOPC')
        rc, out = self.sh(['goto-cc'] + INC + defs + ['--function', p['h'], '-o', a, p['file']], 'goto-cc')
        if rc != 0:
            raise Undecided('%s: goto-cc failed:\n%s' % (p['name'], errlines(out)))
        if mode == 'dfcc' or loopc:
            cmd = ['goto-instrument', '--dfcc', p['h']]
            if mode == 'dfcc':
                for f in p['enforce'].split(','):
                    cmd += ['--enforce-contract', f]
                for f in [x for x in p.get('replace', '').split(',') if x]:
                    cmd += ['--replace-call-with-contract', f]
            if loopc:
                cmd += ['--apply-loop-contracts']
                if 'loopfile' in p:
                    cmd += ['--loop-contracts-file', os.path.join(PROOFS, p['loopfile'])]
            rc, out = self.sh(cmd + [a, b], 'goto-instrument')
            if rc != 0:
                raise Undecided('%s: goto-instrument failed:\n%s' % (p['name'], out[-1200:]))
            return b
        return a

    def cbmc(self, gb, extra=(), unwind=None):
        p = self.p
        cmd = ['cbmc', gb, '--json-ui', '--verbosity', '8', '--unwinding-assertions', '--no-malloc-may-fail', '--drop-unused-functions',
               '--unwind', unwind or p['unwind'], '--slice-formula']
        if 'unwindset' in p:
            cmd += ['--unwindset', p['unwindset']]
        cmd += shlex.split(p.get('flags', ''))
        if p.get('ptrint') and not any(e == '--property' for e in extra):
            # managed addresses are opaque integers cast to pointers: comparing or adding to them is
            # integer arithmetic, so the "same object" relation checks do not apply (dereference checks stay)
            rc, out, _ = run([c for c in cmd if c not in ('--verbosity', '8')] + ['--show-properties'], 60, cwd=self.dir)
            for e in json.loads(out):
                for q in e.get('properties', []):
                    if not re.search(r'\.pointer(_arithmetic)?\.\d+$', q['name']):
                        cmd += ['--property', q['name']]
        cmd += list(extra)
        self.cmds.append(' '.join(shlex.quote(c) for c in cmd[:24]))
        to = min(self.left(), float(p['timeout']))
        rc, out, dt = run(cmd, to, cwd=self.dir)
        if rc == -999:
            raise Undecided('%s: cbmc timed out after %.0fs' % (p['name'], to))
        r = parse_cbmc(out)
        if r is None or r['props'] is None:
            raise Undecided('%s: cbmc gave no result (rc %s):\n%s' % (p['name'], rc, out[-2500:]))
        r['wall'] = dt
        return r

    def name_of(self, pr):
        n = pr['property']
        m = re.match(r'(?:contract::)?(\w+?)(?:_wrapped_for_contract_checking)?\.postcondition\.(\d+)$', n)
        if m:
            cl = self.clauses.get(m.group(1), [])
            k = int(m.group(2))
            if 1 <= k <= len(cl):
                return '%s ensures: %s' % (m.group(1), cl[k - 1])
        loc = pr.get('sourceLocation') or {}
        where = '%s:%s' % (os.path.relpath(loc['file'], REPO) if loc.get('file', '').startswith(REPO) else os.path.basename(loc.get('file', '?')), loc.get('line', '?'))
        return '%s [%s at %s]' % (pr.get('description', ''), n, where)

    def classify(self, r):
        good, bad, und, reach_ok, reach_bad, unk = [], [], [], [], [], []
        for pr in r['props']:
            d, n, s = pr.get('description', ''), pr['property'], pr['status']
            if d.startswith('REACH '):
                (reach_ok if s == 'FAILURE' else reach_bad).append(pr)
            elif s == 'SUCCESS':
                good.append(pr)
            elif s == 'FAILURE':
                cls = n.rsplit('.', 2)
                cls = cls[-2] if len(cls) >= 2 else ''
                if cls in UNDECIDED_CLASSES or 'undefined function should be unreachable' in d or 'no body for' in d.lower():
                    und.append(pr)
                else:
                    bad.append(pr)
            else:
                unk.append(pr)  # after a fatal failure
        if not bad:
            und += unk
        return good, bad, und, reach_ok, reach_bad

    def solve(self):
        p = self.p
        gb = self.build(p['mode'], p.get('loops') == 'contract')
        r = self.cbmc(gb)
        good, bad, und, rok, rbad = self.classify(r)
        if und:
            # larger unwinding once, in case a loop was rewritten with one more iteration
            if all('.unwind.' in u['property'] or '.recursion' in u['property'] for u in und):
                r = self.cbmc(gb, unwind=str(int(p['unwind']) + 3))
                good, bad, und, rok, rbad = self.classify(r)
        return gb, r, good, bad, und, rok, rbad

    def missing(self):
        """functions of /repo this proof is about that no longer exist"""
        fns = [f for f in self.p.get('fn', self.p.get('enforce', '')).split(',') if f and f != '-']
        return [f for f in fns + [x for x in self.p.get('replace', '').split(',') if x] if not repo_has(f)]

    def execute(self):
        p = self.p
        self.clauses = clause_names(p['file'])
        res = {'name': p['name'], 'fn': p.get('fn', p.get('enforce', p['h'])), 'mode': p['mode'],
               'bounded': p.get('bounded'), 'violations': [], 'undecided': None, 'fallback': None, 'skipped': None}
        t0 = time.time()
        try:
            n = int(p.get('cases', '0'))
            if n:
                subs = []
                for i in range(n):
                    q = dict(p, defs=p.get('defs', '') + ' -DVP_CASE=%d' % i, name=p['name'] + '#%d' % i)
                    subs.append(Job(q, os.path.dirname(self.dir), self.tier, self.deadline, self.verbose))
                with ThreadPoolExecutor(8) as ex:
                    outs = list(ex.map(lambda j: j.solve_safe(), subs))
                errs = [o for o in outs if isinstance(o, Undecided)]
                if errs:
                    raise Undecided(str(errs[0]))
            else:
                subs, outs = [self], [self.solve()]
            good, bad, und, rok, rbad, solver_s, named = [], [], [], {}, {}, 0.0, []
            for j, o in zip(subs, outs):
                gb, r, g, bd, u, ro, rb = o
                good += g
                bad += [(j, gb, x) for x in bd]
                und += u
                for x in ro:
                    rok[x['description']] = x
                for x in rb:
                    rbad[x['description']] = x
                solver_s += r['solver_s']
                res['backend'] = r['solver']
            rbad = [x for d, x in rbad.items() if d not in rok]
            if und and not bad:
                raise Undecided('%s: not decided: %s' % (p['name'], '; '.join(self.name_of(u) for u in und[:4])))
            if not good and not bad:
                raise Undecided('%s: zero obligations' % p['name'])
            res.update(obligations=len(good) + len(bad), discharged=len(good), reach=len(rok), solver_s=solver_s, wall=time.time() - t0)
            res['named'] = sorted({re.sub(r' \[\S+ at \S+\]$', '', self.name_of(g)) for g in good if 'postcondition' in g['property'] or '.assertion.' in g['property']})[:80]
            for b in rbad:
                res['violations'].append({'obligation': 'reachability: ' + b['description'][6:] + ' (this outcome has become impossible)', 'inputs': None, 'native': None})
            # prefer named clauses over incidental failures
            bad.sort(key=lambda b: 0 if ('postcondition' in b[2]['property'] or '.assertion.' in b[2]['property']) else 1)
            tstop = time.time() + 200
            for j, gb, b in bad[:3]:
                v = {'obligation': self.name_of(b), 'property_id': b['property'], 'inputs': None, 'native': None,
                     'loop': p.get('loops') == 'contract' and ('loop_' in b['property'] or 'invariant' in b.get('description', '').lower() or 'variant' in b.get('description', '').lower())}
                res['violations'].append(v)
                if time.time() > tstop:
                    continue
                try:
                    tr = j.cbmc(gb, ['--trace', '--property', b['property']])
                    for pr in tr['props']:
                        if pr['property'] == b['property'] and pr.get('trace'):
                            v['inputs'] = self.inputs(pr['trace'])
                            v['trace_tail'] = self.tail(pr['trace'])
                    if v['inputs'] is not None and p.get('replay', 'yes') != 'no':
                        v['native'] = j.replay(v['inputs'])
                except Undecided as e:
                    v['note'] = str(e)
                if v['native'] and v['native']['reproduced']:
                    break
            if und and not any((v['native'] or {}).get('reproduced') for v in res['violations']):
                # next to undecided obligations a failed one counts only if it is reproduced on the real code
                res['violations'] = []
                raise Undecided('%s: not decided: %s' % (p['name'], '; '.join(self.name_of(u) for u in und[:4])))
            if len(bad) > 3:
                res['more'] = [self.name_of(b[2]) for b in bad[3:12]]
        except Undecided as e:
            res['undecided'] = str(e)
            miss = self.missing()
            if miss:
                res['skipped'] = 'no longer in the source: ' + ', '.join(miss)
            res['wall'] = time.time() - t0
        res['cmds'] = self.cmds[:4]
        if not self.verbose:
            shutil.rmtree(self.dir, ignore_errors=True)
        fb = p.get('fallback')
        if fb and (res['undecided'] or (res['violations'] and all(v.get('loop') or not (v['native'] or {}).get('reproduced') for v in res['violations']))):
            # the annotations may not fit a rewritten body: the bounded stand-in decides
            q = [x for x in load_proofs() if x['name'] == fb][0]
            r2 = Job(q, os.path.dirname(self.dir), self.tier, self.deadline, self.verbose).execute()
            why = res['undecided'] or 'failed: ' + '; '.join(v['obligation'] for v in res['violations'])
            if not r2['undecided']:
                clause = [v for v in res['violations'] if not v.get('loop')]
                if r2['violations'] or not res['violations'] or len(clause) < len(res['violations']):
                    r2['fallback'] = 'modular proof %s did not discharge (%s); bounded stand-in %s decided' % (p['name'], why[:400], fb)
                    r2['name'] = res['name']
                    return r2
        return res

    def solve_safe(self):
        try:
            return self.solve()
        except Undecided as e:
            return e

    def inputs(self, trace):
        vals = []
        for st in trace:
            if st.get('stepType') == 'input' and st.get('inputID') == 'vp':
                v = st['values'][0]
                b = v.get('binary')
                vals.append(int(b, 2) if b else int(re.sub(r'[a-z]+$', '', v.get('data', '0'))))
        return vals

    def tail(self, trace):
        out = []
        for st in trace[-60:]:
            if st.get('stepType') == 'assignment' and not st.get('hidden'):
                loc = st.get('sourceLocation') or {}
                out.append('%s:%s %s = %s' % (os.path.basename(loc.get('file', '?')), loc.get('line', '?'), st.get('lhs'), (st.get('value') or {}).get('data')))
        return out[-25:]

    def replay(self, inputs):
        p = self.p
        exe, inf = os.path.join(self.dir, 'replay'), os.path.join(self.dir, 'inputs.txt')
        open(inf, 'w').write('\n'.join(map(str, inputs)) + '\n')
        defs = DEF + shlex.split(p.get('defs', '')) + ['-DVP_NATIVE', '-DVP_HARNESS=' + p['h']]
        cmd = ['gcc', '-w', '-g', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] + INC + defs + \
              [p['file'], os.path.join(PROOFS, 'native_rt.c'), '-o', exe, '-lpthread', '-Wl,--unresolved-symbols=ignore-all', '-no-pie']
        rc, out, _ = run(cmd, 120, cwd=self.dir, mem_gb=0)
        if rc != 0:
            return {'reproduced': False, 'output': 'native build failed:\n' + out[-2000:]}
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=44', UBSAN_OPTIONS='exitcode=44:print_stacktrace=1')
        rc, out, _ = run([exe, inf], 20, cwd=self.dir, mem_gb=0, env=env)
        return {'reproduced': rc not in (0, 43), 'rc': rc, 'output': out[-4000:], 'build': ' '.join(cmd)}


def known_findings():
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'known: property=(\S+) proof=(\S+) obligation="([^"]*)" (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def check(prop, proofs, tier, seed):
    t0 = time.time()
    budget = 840 if tier == 'quick' else 3000
    sel = [p for p in proofs if prop in p['props'] and (p['tier'] == 'quick' or (tier == 'thorough' and p['tier'] == 'thorough'))]
    if not sel:
        print('no proofs for', prop)
        return 2
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    for f in glob.glob(os.path.join(evdir, 'replay-%s-*' % prop)):
        os.unlink(f)
    results = []
    try:
        sel.sort(key=lambda p: -float(p.get('cost', '1')))
        with ThreadPoolExecutor(max_workers=int(os.environ.get('VP_JOBS', '8'))) as ex:
            futs = [ex.submit(Job(dict(p), work, tier, t0 + budget).execute) for p in sel]
            for f in as_completed(futs):
                results.append(f.result())
    finally:
        shutil.rmtree(work, ignore_errors=True)
    results.sort(key=lambda r: r['name'])
    kf = known_findings()
    viol, known = [], []
    for r in results:
        for i, v in enumerate(r['violations']):
            k = [x for x in kf if x[0] == prop and x[1] == r['name'] and x[2] in v['obligation']]
            (known if k else viol).append((r, i, v, k[0] if k else None))
    dec = [r for r in results if not r['undecided']]
    # a proof about a helper that was renamed or removed is dropped if others decide the property
    skip = [r for r in results if r['undecided'] and r['skipped'] and dec]
    und = [r for r in results if r['undecided'] and r not in skip]
    for r in dec:
        print('  %-46s %4d/%-4d obligations  %.1fs%s%s' % (r['name'], r['discharged'], r['obligations'], r['wall'],
              '  [bounded: %s]' % r['bounded'] if r['bounded'] else '', '' if r['discharged'] == r['obligations'] and not r['violations'] else '  FAILED'))
    for r in skip:
        print('  %-46s skipped: %s' % (r['name'], r['skipped']))
    for r in und:
        print('UNDECIDED', r['undecided'][:1500])
    bysel = {p['name']: p for p in sel}
    proved = [r for r in dec if not r['bounded']]
    bounded = [r for r in dec if r['bounded']]
    assumptions = list(GLOBAL_ASSUMPTIONS)
    for p in sel:
        for a in [x.strip() for x in p.get('assume', '').split(';') if x.strip()]:
            if a not in assumptions:
                assumptions.append(a)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': sum(r['obligations'] for r in proved),
            'discharged': sum(r['discharged'] for r in proved),
            'bounded_obligations': sum(r['obligations'] for r in bounded),
            'bounded_discharged': sum(r['discharged'] for r in bounded),
            'vacuity_points_reached': sum(r['reach'] for r in dec),
            'checker_cmd': 'python3 check.py %s  (goto-cc; goto-instrument --dfcc ... --enforce-contract ...; cbmc --unwinding-assertions)' % prop,
            'backends': sorted({r['backend'] for r in dec}),
            'solver_s': round(sum(r['solver_s'] for r in dec), 2),
            'functions_under_contract': sorted({f for r in dec for f in r['fn'].split(',')}),
            'functions_bounded_only': sorted({f for r in bounded for f in r['fn'].split(',')} - {f for r in proved for f in r['fn'].split(',')}),
            'trusted_base': ['CBMC 6.11 C front end, goto-instrument dfcc, symbolic execution and its SAT back end',
                             'the stub contracts and predicates in proofs/*.c', 'check.py'],
            'proofs': [{'name': r['name'], 'functions': r['fn'], 'mode': {'dfcc': 'contract enforced incl. frame (dfcc)', 'plain': 'same clauses asserted after the call, whole callee inlined'}[r['mode']],
                        'bounded': r['bounded'], 'fallback': r['fallback'], 'obligations': r['obligations'], 'discharged': r['discharged'],
                        'solver_s': round(r['solver_s'], 3), 'clauses': r['named']} for r in dec],
            'undecided': [r['undecided'] for r in und],
            'skipped': [r['name'] + ' ' + r['skipped'] for r in skip],
            'known_findings': [v['obligation'] for _, _, v, _ in known],
        },
        'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)
    for r, i, v, k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    if viol:
        # reproduced ones first
        viol.sort(key=lambda x: 0 if (x[2]['native'] or {}).get('reproduced') else 1)
        for n, (r, i, v, _) in enumerate(viol[:5]):
            path = os.path.join(evdir, 'replay-%s-%d.json' % (prop, n))
            rep = (v['native'] or {}).get('reproduced')
            json.dump({'property': prop, 'proof': r['name'], 'functions': r['fn'], 'failed_obligation': v['obligation'],
                       'inputs': v['inputs'], 'native_replay': v['native'], 'trace_tail': v.get('trace_tail'),
                       'note': v.get('note'), 'verifier': r['cmds'], 'other_failed': r.get('more'),
                       'rerun': 'python3 /verif/check.py --proof ' + r['name']}, open(path, 'w'), indent=1)
            print('FAILED obligation (%s): %s' % (r['name'], v['obligation']))
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if rep else ' no-failing-input-found'))
            if rep:
                break
        return 1
    if und:
        # the proof could not be redone on this source: reported as such, never as a reproduced violation
        for n, r in enumerate(und[:3]):
            path = os.path.join(evdir, 'replay-%s-%d.json' % (prop, n))
            json.dump({'property': prop, 'proof': r['name'], 'functions': r['fn'], 'failed_obligation': 'proof not redone on the current source (undecided, no counterexample)',
                       'verifier_output': r['undecided'], 'verifier': r['cmds'], 'rerun': 'python3 /verif/check.py --proof ' + r['name']}, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    print('OK %s: %d/%d obligations discharged, %d bounded, %d vacuity points, %.1fs' % (prop, ev['coverage']['discharged'], ev['coverage']['obligations'],
          ev['coverage']['bounded_discharged'], ev['coverage']['vacuity_points_reached'], time.time() - t0))
    return 0


def main():
    args = sys.argv[1:]
    proofs = load_proofs()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if args[0] == '--list':
        for p in proofs:
            print(p['name'], ','.join(p['props']), p['mode'], p.get('bounded', ''))
        return 0
    if args[0] == '--proof':
        rc = 0
        work = tempfile.mkdtemp(prefix='vp_p_')
        for pat in args[1:]:
            sel = [p for p in proofs if re.fullmatch(pat, p['name'])]
            with ThreadPoolExecutor(8) as ex:
                for r in ex.map(lambda p: Job(dict(p), work, tier, time.time() + 3000, False).execute(), sel):
                    print('==', r['name'], 'UNDECIDED ' + r['undecided'] if r['undecided'] else '%d/%d reach %d solver %.2f wall %.1f' % (r['discharged'], r['obligations'], r['reach'], r['solver_s'], r['wall']), r['fallback'] or '')
                    for v in r['violations']:
                        rc = 1
                        print('   FAIL', v['obligation'])
                        if v['inputs'] is not None:
                            print('      inputs', v['inputs'])
                        if v['native']:
                            print('      native reproduced=%s\n        %s' % (v['native']['reproduced'], v['native']['output'].replace('\n', '\n        ')[-2500:]))
                        elif v.get('trace_tail'):
                            print('      ' + '\n      '.join(v['trace_tail']))
                    for m in r.get('more', []):
                        print('   FAIL', m)
                    if r['undecided']:
                        rc = 2
        shutil.rmtree(work, ignore_errors=True)
        return rc
    if args[0] == '--thorough':
        tier = 'thorough'
        args = args[1:]
    rc = 0
    for a in args:
        rc = max(rc, check(a, proofs, tier, seed))
    return rc


if __name__ == '__main__':
    sys.exit(main())
