#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only ENTRY] [--strict]
Decides one property of /repo with the symbolic executor; see DESIGN.md."""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'harness'))
B = os.path.join(V, 'build')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)

def newest(*pats):
    t = 0
    for p in pats:
        for f in glob.glob(os.path.join(V, p)):
            t = max(t, os.path.getmtime(f))
    return t

def ensure_built():
    os.makedirs(B, exist_ok=True)
    lock = os.path.join(B, '.lock')
    import fcntl
    with open(lock, 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(B, 'symx')
        if not os.path.exists(exe) or os.path.getmtime(exe) < newest('engine/*.cpp', 'engine/*.h'):
            r = sh(['bash', os.path.join(V, 'engine/build.sh')])
            if r.returncode: print(r.stderr[-4000:]); sys.exit(2)
        rt = os.path.join(B, 'rt.bc')
        if not os.path.exists(rt) or os.path.getmtime(rt) < newest('rt/*', 'shims/*', 'shims/*/*', 'compile.sh'):
            r = sh([os.path.join(V, 'compile.sh'), os.path.join(V, 'rt/rt.cpp'), rt])
            if r.returncode: print(r.stderr[-4000:]); sys.exit(2)
        rp = os.path.join(B, 'replay.o')
        if not os.path.exists(rp) or os.path.getmtime(rp) < newest('rt/*'):
            for o, fl in (('replay.o', ['-fsanitize=address']), ('replay_plain.o', ['-DVX_NO_LIVE']), ('replay_threads.o', ['-DVX_THREADS'])):
                r = sh(['g++', '-std=c++11', '-g', '-O1', *fl, '-I' + V + '/rt', '-c', V + '/rt/replay.cpp', '-o', os.path.join(B, o)])
                if r.returncode: print(r.stderr[-4000:]); sys.exit(2)

class Run:
    def __init__(self, spec, tier, seed, tmp, jobs):
        self.s, self.tier, self.seed, self.tmp, self.jobs = spec, tier, seed, tmp, jobs
        cfg = dict(spec.get('quick', {}))
        if tier == 'thorough': cfg.update(spec.get('thorough', {}))
        self.cfg = cfg
        self.name = spec['entry'] + ('.' + spec['tag'] if spec.get('tag') else '')
        self.defs = ['-D%s=%s' % kv for kv in {**spec.get('defs', {}), **cfg.get('defs', {})}.items()]
        self.err = None
    def src(self): return os.path.join(V, 'harness', self.s['src'])
    def native(self, plain=False):
        out = os.path.join(self.tmp, self.name + ('.plain' if plain else '.native'))
        if os.path.exists(out): return out
        san = [] if plain else ['-fsanitize=address', '-fno-omit-frame-pointer']
        if self.s.get('threads'):
            obj = out + '.o'
            r = sh(['g++', '-std=c++11', '-g1', '-O0', '-fsanitize=thread', '-include', 'cstdint', '-w', '-I' + V + '/rt', '-I' + V + '/harness', '-I' + REPO + '/include', *self.defs, '-c', self.src(), '-o', obj])
            if r.returncode == 0: r = sh(['g++', obj, os.path.join(B, 'replay_threads.o'), '-o', out, '-pthread'])
            if r.returncode: raise RuntimeError('native build of %s failed:\n%s' % (self.name, r.stderr[-3000:]))
            return out
        cmd = ['g++', '-std=c++11', '-g1', '-O0', *san, '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-include', 'cstdint', '-w',
               '-I' + V + '/rt', '-I' + V + '/harness', '-I' + REPO + '/include', *self.s.get('native_flags', []), *self.defs,
               self.src(), os.path.join(B, 'replay_plain.o' if plain else 'replay.o'), '-o', out, '-pthread']
        r = sh(cmd)
        if r.returncode: raise RuntimeError('native build of %s failed:\n%s' % (self.name, r.stderr[-3000:]))
        return out
    def go(self):
        t0 = time.time()
        try:
            bc = os.path.join(self.tmp, self.name + '.bc')
            nat = {}
            def bn():
                try: nat['exe'] = self.native()
                except Exception as e: nat['err'] = str(e)
            th = threading.Thread(target=bn); th.start()
            r = sh([V + '/compile.sh', self.src(), bc, *self.s.get('flags', []), *self.defs], env={**os.environ, 'REPO': REPO})
            if r.returncode:
                th.join(); self.err = 'cannot encode %s: %s' % (self.name, r.stderr[-3000:]); return
            out = os.path.join(self.tmp, self.name + '.out')
            cmd = [B + '/symx', '--entry', 'harness_' + self.s['entry'], '--out', out, '--jobs', str(self.jobs), '--repo', REPO,
                   '--time', str(self.cfg.get('time', 300)), '--seed', str(self.seed), '--samples', '6',
                   '--max-viol', str(self.cfg.get('max_viol', 12))]
            if 'steps' in self.cfg: cmd += ['--max-steps', str(self.cfg['steps'])]
            if 'solver_ms' in self.cfg: cmd += ['--solver-timeout', str(self.cfg['solver_ms'])]
            cmd += self.s.get('symx', [])
            r = sh(cmd + [bc, B + '/rt.bc'])
            self.log = r.stderr[-2000:]
            if r.returncode not in (0, 4):
                th.join(); self.err = 'engine failed on %s (%d): %s' % (self.name, r.returncode, r.stderr[-2000:]); return
            self.summary = json.loads(r.stdout.strip().splitlines()[-1])
            self.merge(out)
            th.join()
            if 'err' in nat: self.err = nat['err']; return
            self.exe = nat['exe']
            self.replays()
        except Exception as e:
            import traceback
            self.err = '%s: %s' % (self.name, traceback.format_exc())
        finally:
            self.wall = time.time() - t0
    def merge(self, out):
        R = dict(paths=0, forks=0, steps=0, checks=0, checks_const=0, checks_solved=0, assumed_out=0, merges=0, z3_queries=0, z3_sat=0, z3_unsat=0, z3_unknown=0, z3_seconds=0.0, domain_decided=0, cache_hits=0, model_hits=0)
        mx = dict(max_depth=0, z3_max=0.0)
        cover, viol, inc, fns, nat = {}, {}, {}, set(), set()
        samples, complete, hot = [], not self.summary['timeout'] and not self.summary['lost'] and not self.summary['stopped'], []
        for f in glob.glob(out + '.*.json'):
            try: d = json.load(open(f))
            except Exception: complete = False; inc['unreadable worker result'] = 1; continue
            for k in R: R[k] += d.get(k, 0)
            for k in mx: mx[k] = max(mx[k], d.get(k, 0))
            for k, n in d['cover'].items(): cover[k] = cover.get(k, 0) + n
            for v in d['violations']:
                key = (v['kind'], v['label'], v['where'])
                viol.setdefault(key, v)
            if not d['complete']: complete = False
            for i in d['incomplete']:
                k, n = (i[0], i[1]) if isinstance(i, list) else (str(i), 1)
                inc[k] = inc.get(k, 0) + n; complete = False
            fns |= set(d['functions']); nat |= set(d['native'])
            samples += d['samples']; hot += d.get('hot', [])
            os.unlink(f)
        self.R, self.mx, self.cover, self.inc, self.fns, self.nat = R, mx, cover, inc, fns, nat
        self.viol = list(viol.values()); self.samples = samples; self.complete = complete
        self.missing = [c for c in self.s.get('covers', []) if c not in cover]
    def run_vectors(self, exe, vecs, tag, wrap=(), limit=20):
        fn = os.path.join(self.tmp, self.name + '.' + tag + '.vec')
        with open(fn, 'w') as f:
            for v in vecs:
                f.write('v\n')
                for n, x in v: f.write('i %d %s\n' % (x, n))
        r = sh([*wrap, exe, self.s['entry'], fn, str(limit)])
        res = {}
        for l in r.stdout.splitlines():
            m = re.match(r'(\d+) (.*)', l)
            if m: res[int(m.group(1))] = m.group(2)
        return [res.get(i, 'lost ' + r.stderr[-300:]) for i in range(len(vecs))]
    def replays(self):
        # sample of completed paths: the encoding and the real build must agree on every observed value
        samples = sorted(self.samples, key=lambda s: json.dumps(s['inputs']))
        import random
        rnd = random.Random(self.seed); rnd.shuffle(samples)
        samples = samples[:24 if self.tier == 'quick' else 100]
        self.validated, self.mismatch = 0, []
        if samples and not self.s.get('no_replay'):
            res = self.run_vectors(self.exe, [s['inputs'] for s in samples], 'samples')
            for s, r in zip(samples, res):
                w = r.split()
                ok = w and (w[0] == 'ok' or w[0] == 'end') and (w[0] == 'end' or [int(x) for x in w[1:]] == s['outs'])
                if ok: self.validated += 1
                else: self.mismatch.append(dict(inputs=s['inputs'], engine=s['outs'], native=r))
        self.vsamples = samples[:4]
        # counterexamples
        self.confirmed, self.unconfirmed = [], []
        if self.viol:
            res = self.run_vectors(self.exe, [v['inputs'] for v in self.viol], 'viol', limit=10)
            for v, r in zip(self.viol, res):
                v['native'] = r
                w = r.split()[0]
                bad = w in ('check', 'race', 'signal', 'exit', 'memory', 'exception', 'abort') or w == 'timeout'
                if not bad and v['kind'] in ('uninit', 'memory') and not self.s.get('threads'):
                    rr = self.run_vectors(self.native(True), [v['inputs']], 'vg', wrap=['valgrind', '-q', '--error-exitcode=97', '--trace-children=no', '--child-silent-after-fork=no', '--exit-on-first-error=yes'], limit=60)[0]
                    v['native_valgrind'] = rr
                    bad = rr.split()[0] in ('check', 'signal', 'exit', 'memory', 'exception', 'abort')
                (self.confirmed if bad else self.unconfirmed).append(v)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--setup', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--strict', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ensure_built()
    if a.setup: return
    import specs
    spec = specs.SPECS[a.prop]
    known = []
    for l in open(os.path.join(V, 'known_findings.jsonl')):
        if l.strip():
            d = json.loads(l)
            if d.get('property') == a.prop and d.get('status') == 'known': known.append(d)
    tmp = tempfile.mkdtemp(prefix='vx_%s_' % a.prop)
    try:
        runs = [s for s in spec['runs'] if not a.only or a.only in (s['entry'], s.get('tag'))]
        runs = [s for s in runs if a.tier == 'thorough' or not s.get('thorough_only')]
        conc = spec.get('concurrent', 3)
        ncpu = os.cpu_count() or 4
        jobs = spec.get("jobs", ncpu if len(runs) == 1 else max(2, 2 * ncpu // min(conc, len(runs))))
        rs = [Run(s, a.tier, seed, tmp, jobs) for s in runs]
        with ThreadPoolExecutor(conc) as ex: list(ex.map(Run.go, rs))
        errs = [r.err for r in rs if r.err]
        rep = os.path.join(V, 'evidence', 'replay'); os.makedirs(rep, exist_ok=True)
        nviol = 0
        lines = []
        for r in rs:
            if r.err: continue
            kid = r.s.get('known')
            if kid:
                d = [k for k in known if k['id'] == kid]
                if d and r.confirmed: lines.append('KNOWN-FINDING: property=%s %s %s' % (a.prop, kid, d[0]['what']))
                if d: continue
            seen = 0
            for i, v in enumerate(r.confirmed):
                nviol += 1; seen += 1
                if seen > 5: continue
                p = os.path.join(rep, '%s_%s_%d.json' % (a.prop, r.name, i))
                json.dump(dict(property=a.prop, harness=r.s['src'], entry=r.s['entry'], defs=r.defs, **v), open(p, 'w'), indent=1)
                lines.append('VIOLATION property=%s replay=%s  # %s: %s at %s; inputs %s; native: %s' % (a.prop, p, v['kind'], v['label'], v['where'], json.dumps(v['inputs'])[:300], v['native'][:200]))
        for l in lines: print(l)
        ok = [r for r in rs if not r.err]
        notes = []
        for r in ok:
            if r.missing: notes.append('%s: not reached: %s' % (r.name, r.missing))
            if r.unconfirmed and not r.s.get('known'): notes.append('%s: %d counterexamples not reproduced natively' % (r.name, len(r.unconfirmed)))
            if r.mismatch: notes.append('%s: %d sampled paths disagree with the real build' % (r.name, len(r.mismatch)))
            if not r.complete: notes.append('%s: incomplete: %s %s' % (r.name, r.inc, {k: r.summary[k] for k in ('timeout', 'lost', 'stopped')}))
        sumk = lambda k: sum(r.R[k] for r in ok)
        known_ids = {k['id'] for k in known}
        ev = dict(property=a.prop, tier=a.tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=nviol,
            coverage=dict(
                states=sumk('paths'), transitions=sumk('forks') + sumk('paths'),
                traces_validated_against_impl=sum(r.validated for r in ok),
                samples=[dict(harness=r.name, inputs=s['inputs'], observed=s['outs'][:40]) for r in ok for s in r.vsamples],
                states_meaning='feasible execution paths of the harness explored to their end; transitions: symbolic branches taken plus path ends',
                exhaustive=all(r.complete for r in ok) and not errs,
                instructions_executed=sumk('steps'), assertions_evaluated=sumk('checks'), assertions_decided_by_solver=sumk('checks_solved'), assertions_constant=sumk('checks_const'),
                queries=dict(z3=sumk('z3_queries'), sat=sumk('z3_sat'), unsat=sumk('z3_unsat'), unknown=sumk('z3_unknown'), exact_byte_domain=sumk('domain_decided'), cached=sumk('cache_hits'), by_model=sumk('model_hits'), solver_seconds=round(sumk('z3_seconds'), 2), longest_query_s=round(max([r.mx['z3_max'] for r in ok] or [0]), 2)),
                functions_encoded=sorted(set().union(*[r.fns for r in ok])) if ok else [],
                runtime_models=sorted(set().union(*[r.nat for r in ok])) if ok else [],
                runs=[dict(harness=r.name, bounds=r.s['bounds'][r.tier], defs=r.defs, paths=r.R['paths'], checks=r.R['checks'], complete=r.complete, incomplete=r.inc, cover=r.cover, not_reached=r.missing, wall_s=round(r.wall, 1), validated=r.validated, mismatches=r.mismatch[:3], confirmed=len(r.confirmed), known_finding=r.s.get('known'), unconfirmed=r.unconfirmed[:3], z3_s=round(r.R['z3_seconds'], 2)) for r in ok],
                notes=notes, known_findings=[dict(id=k['id'], what=k['what']) for k in known], errors=errs),
            assumptions=spec.get('assumptions', []) + specs.COMMON_ASSUMPTIONS)
        if not a.only:
            json.dump(ev, open(os.path.join(V, 'evidence', a.prop + '.json'), 'w'), indent=1)
        if a.v or a.strict:
            for r in ok:
                print('%-34s paths %7d checks %8d solved %7d z3 %6d/%.1fs wall %.1fs %s cover %s validated %d' % (r.name, r.R['paths'], r.R['checks'], r.R['checks_solved'], r.R['z3_queries'], r.R['z3_seconds'], r.wall, 'complete' if r.complete else 'INCOMPLETE', r.cover, r.validated))
                for v in r.unconfirmed: print('   UNCONFIRMED', json.dumps(v)[:1200])
                for m in r.mismatch[:3]: print('   MISMATCH', json.dumps(m)[:800])
        for n in notes: print('note:', n[:600])
        for e in errs: print('error:', e)
        if nviol: sys.exit(1)
        if errs: sys.exit(2)
        if a.strict and notes: sys.exit(3)
        print('%s: held on everything explored (%d paths, %d assertions, %.1fs)%s' % (a.prop, sumk('paths'), sumk('checks'), time.time() - t0, '' if all(r.complete for r in ok) else ' -- INCOMPLETE, see evidence'))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
main()
