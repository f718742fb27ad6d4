"""Runs the check of one property: symbolic exploration of its cases on the current tree, concrete replay of every
candidate counterexample on the plainly loaded code, evidence and verdict."""
import argparse
import gc
import hashlib
import importlib
import json
import os
import re
import select
import signal
import subprocess
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from vf import engine, loader  # noqa: E402
from vf.engine import Budget  # noqa: E402

STAT_KEYS = ('paths', 'aborted', 'queries', 'solver_s', 'branches', 'thin_skipped', 'obligations', 'discharged', 'relaxed',
             'full', 'unknown', 'unsupported', 'inconclusive', 'truncated')


class Case:
    def __init__(self, name, fn, params=None, **opts):
        self.name, self.fn, self.params, self.opts = name, fn, params or {}, opts


def get_module(prop, symbolic):
    sys.path.insert(0, os.path.join(HERE, 'checks')) if os.path.join(HERE, 'checks') not in sys.path else None
    src = open(os.path.join(HERE, 'checks', prop + '.py')).read()
    ov = {}
    if re.search(r'^NEEDS_CPP = True', src, re.M):
        from vf import simlib
        ov['projectq.backends._sim._cppsim'] = simlib.prebuild(symbolic)
    else:
        ov['projectq.backends._sim._cppsim'] = None
    loader.load(symbolic, ov)
    m = importlib.import_module(prop)
    return m


# ------------------------------------------------------------------ concrete replay process
class Replayer:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.p = prop, tier, None
        self.count = 0

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([sys.executable, '-m', 'vf.worker', self.prop, self.tier], cwd=HERE, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.buf = b''
        r = self._read(120)
        if r is None or r.get('result') != 'ready':
            raise RuntimeError('replay worker did not start: %r' % (r,))

    def _read(self, timeout):
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d:
                return None
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def run(self, case, values, choices, timeout=60):
        """dict(result=ok|violation|exception|abort|dead, label, detail)"""
        self.count += 1
        if self.p is None or self.p.poll() is not None:
            self.start()
        msg = json.dumps(dict(case=case, values=values, choices=choices)) + '\n'
        try:
            self.p.stdin.write(msg.encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.close()
            return dict(result='dead', label='', detail='')
        r = self._read(timeout)
        if r is None:
            rc = self.p.poll()
            self.close()
            if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
                return dict(result='exception', label='crash', detail='process died with signal %d' % -rc)
            return dict(result='dead', label='', detail='no answer')
        return r

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.p = None


# ------------------------------------------------------------------ worker side
_G = {}


def _init(prop, tier):
    gc.freeze()
    _G['replayer'] = Replayer(prop, tier)
    dn = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(dn, 1)
        os.dup2(dn, 2)


def _alarm(signum, frame):
    raise Budget()


def jsonable(v):
    return {k: (float(x) if not isinstance(x, int) else x) for k, x in v.items() if x is not None}


def run_case(i):
    case = _G['cases'][i]
    tier, seed, gdl = _G['tier'], _G['seed'], _G['deadline']
    rp = _G['replayer']
    funcs = _G.setdefault('funcs', set())
    funcs.clear()
    start_monitor(funcs)
    t0 = time.time()
    budget = case.opts.get('budget', 60 if tier == 'quick' else 600)
    dl = min(gdl, t0 + budget)
    opts = dict(seed=int(hashlib.sha256(('%s/%d' % (case.name, seed)).encode()).hexdigest()[:8], 16), deadline=dl)
    opts.update({k: v for k, v in case.opts.items() if k != 'budget'})
    confirmed, unconfirmed, validated = [], [], 0
    tried = {}
    wit_max = case.opts.get('witnesses', 3 if tier == 'quick' else 8)
    wit = []
    samples = []

    def on_fail(kind, label, detail, values, choices):
        key = (kind, label)
        n = tried.get(key, 0)
        if n >= (4 if kind != 'unsupported' else 6) or time.time() > gdl:
            return
        tried[key] = n + 1
        r = rp.run(case.name, jsonable(values), choices)
        if r['result'] in ('violation', 'exception'):
            confirmed.append(dict(case=case.name, label=r['label'], detail=r['detail'], values=jsonable(values),
                                  choices=choices, symbolic=dict(kind=kind, label=label, detail=str(detail)[:400])))
        else:
            unconfirmed.append(dict(kind=kind, label=label, detail=str(detail)[:300], values=jsonable(values),
                                    choices=choices, replay=r['result']))

    def on_path(n, c):
        nonlocal validated
        if len(samples) < 2:
            samples.append(dict(case=case.name, path=n, decisions=len(c.trace), conditions=[repr(x)[:160] for x in c.conds[:6]],
                                choices={k: int(v) for k, v in list(c.choices.items())[:12]}))
        if len(wit) < wit_max and (n <= 2 or n & (n - 1) == 0):
            env = c.sample_env()
            if env is not None:
                wit.append((jsonable(engine._values(c, env)), dict(c.choices)))

    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, max(1.0, dl - time.time()) + 5)
    try:
        st = engine.explore(case.fn, case.params, opts, on_fail, on_path)
    except Budget:
        st = dict.fromkeys(STAT_KEYS, 0)
        st['truncated'] = 1
    except Exception:
        st = dict.fromkeys(STAT_KEYS, 0)
        st['truncated'] = 1
        unconfirmed.append(dict(kind='internal', label='engine', detail=traceback.format_exc()[-1500:], replay='none'))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    for values, choices in wit:
        if time.time() > gdl + 20:
            break
        r = rp.run(case.name, values, choices)
        if r['result'] == 'ok':
            validated += 1
        elif r['result'] in ('violation', 'exception'):
            confirmed.append(dict(case=case.name, label=r['label'], detail=r['detail'], values=values, choices=choices,
                                  symbolic=dict(kind='witness', label='path witness')))
    stop_monitor()
    return dict(case=case.name, stats=st, confirmed=confirmed, unconfirmed=unconfirmed, validated=validated,
                samples=samples, wall=time.time() - t0, funcs=sorted(funcs), replays=rp.count)


def start_monitor(funcs):
    mon = sys.monitoring
    root = os.path.join(loader.REPO, 'projectq') + os.sep
    try:
        mon.use_tool_id(4, 'vf')
    except ValueError:
        mon.free_tool_id(4)
        mon.use_tool_id(4, 'vf')

    def start(code, off):
        f = code.co_filename
        if f.startswith(root):
            funcs.add(f[len(root):-3].replace('/', '.') + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)
    mon.restart_events()


def stop_monitor():
    sys.monitoring.set_events(4, 0)
    sys.monitoring.free_tool_id(4)


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    d = json.load(open(p))
    return [k for k in d.get('findings', []) if k['property'] == prop]


def is_known(v, kfs):
    for k in kfs:
        if re.fullmatch(k['case'], v['case']) and re.fullmatch(k['label'], v['label'].split(':')[0] if k.get('short') else v['label']):
            ok = all(v['choices'].get(a) == b for a, b in k.get('choices_match', {}).items())
            if ok and 'when' in k:
                try:
                    ok = bool(eval(k['when'], {'__builtins__': {}, 'abs': abs, 'round': round}, dict(v=v['values'], c=v['choices'])))
                except Exception:
                    ok = False
            if ok:
                return k
    return None


# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--case', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        return replay(a)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        mod = get_module(a.prop, True)
    except Exception:
        # the code under test does not even load: confirm with the plain interpreter
        tb = traceback.format_exc()
        r = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); import projectq' % loader.REPO], cwd='/',
                           capture_output=True, text=True)
        if r.returncode != 0:
            path = os.path.join(HERE, 'evidence', 'replay-%s-import.txt' % a.prop)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            open(path, 'w').write(r.stderr)
            write_evidence(a, seed, None, [], [dict(case='import', label='projectq cannot be imported', detail='', values={}, choices={})], time.time() - t0, [])
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
            return 1
        sys.stderr.write(tb)
        return 2
    cases = list(mod.cases(a.tier))
    if a.case:
        cases = [c for c in cases if re.search(a.case, c.name)]
    assert len({c.name for c in cases}) == len(cases), 'duplicate case names'
    limit = getattr(mod, 'LIMIT', {}).get(a.tier, 420 if a.tier == 'quick' else 3000)
    _G.update(cases=cases, tier=a.tier, seed=seed, deadline=t0 + limit)
    results = []
    order = sorted(range(len(cases)), key=lambda i: -cases[i].opts.get('weight', 1))
    jobs = min(a.jobs, max(1, len(cases)))
    mpc = multiprocessing.get_context('fork')
    pending = set(order)
    crashed = []
    for attempt in range(3):
        if not pending:
            break
        try:
            with ProcessPoolExecutor(jobs if attempt == 0 else 2, mpc, initializer=_init, initargs=(a.prop, a.tier)) as ex:
                futs = {ex.submit(run_case, i): i for i in order if i in pending}
                for f in as_completed(futs):
                    r = f.result()
                    pending.discard(futs[f])
                    results.append(r)
                    if a.verbose:
                        s = r['stats']
                        print('%-46s %6.1fs paths=%d obl=%d/%d q=%d unk=%d uns=%d inc=%d trunc=%d viol=%d unconf=%d val=%d' % (
                            r['case'][:46], r['wall'], s['paths'], s['discharged'], s['obligations'], s['queries'],
                            s['unknown'], s['unsupported'], s['inconclusive'], s['truncated'], len(r['confirmed']),
                            len(r['unconfirmed']), r['validated']), flush=True)
                        for u in r['unconfirmed'][:4]:
                            print('    ?', {k: u[k] for k in ('kind', 'label', 'detail', 'replay')}, u.get('choices'), u.get('values'))
                        for u in r['confirmed'][:6]:
                            print('    !', u['label'], u['detail'][:300], u['values'], u['choices'], u['symbolic'])
        except BrokenProcessPool:
            if a.verbose:
                print('worker process died; remaining', [cases[i].name for i in pending])
    crashed = [cases[i].name for i in pending]
    results.sort(key=lambda r: r['case'])
    kfs = known_findings(a.prop)
    viol, known_hit = [], {}
    for r in results:
        for v in r['confirmed']:
            k = is_known(v, kfs)
            if k:
                known_hit[k['what']] = k
            else:
                viol.append(v)
    # listed findings are replayed so that their line always appears while they are real
    rp = Replayer(a.prop, a.tier)
    for k in kfs:
        if k['what'] in known_hit or 'replay' not in k:
            continue
        r = rp.run(k['replay']['case'], k['replay']['values'], k['replay']['choices'])
        if r['result'] in ('violation', 'exception'):
            known_hit[k['what']] = k
    rp.close()
    for w in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, w))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    shown = set()
    n = 0
    for v in viol:
        key = (v['case'], v['label'])
        if key in shown or n >= 12:
            continue
        shown.add(key)
        n += 1
        path = os.path.join(HERE, 'evidence', 'replay-%s-%d.json' % (a.prop, n))
        json.dump(dict(property=a.prop, tier=a.tier, **v), open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        print('  case %s: %s: %s  values=%s choices=%s' % (v['case'], v['label'], v['detail'][:300], v['values'], v['choices']))
    tot = write_evidence(a, seed, mod, results, viol, time.time() - t0, crashed)
    print('%s %s: %d cases, %d paths, %d obligations (%d discharged), %d queries, %.1fs solver, %d validated, %d violations, %.1fs wall'
          % (a.prop, a.tier, len(results), tot['paths'], tot['obligations'], tot['discharged'], tot['queries'],
             tot['solver_s'], tot['validated'], len(viol), time.time() - t0))
    return 1 if viol else 0


def write_evidence(a, seed, mod, results, viol, wall, crashed):
    tot = dict.fromkeys(STAT_KEYS, 0)
    tot['validated'] = 0
    funcs, samples, unc = set(), [], []
    cases = []
    for r in results:
        for k in STAT_KEYS:
            tot[k] += r['stats'].get(k, 0)
        tot['validated'] += r['validated']
        funcs.update(r['funcs'])
        cases.append(dict(case=r['case'], paths=r['stats']['paths'], obligations=r['stats']['obligations'],
                          discharged=r['stats']['discharged'], truncated=r['stats']['truncated'],
                          unsupported=r['stats']['unsupported'], wall_s=round(r['wall'], 2)))
        if len(samples) < 12:
            samples.extend(r['samples'][:1])
        for u in r['unconfirmed'][:2]:
            if len(unc) < 25:
                unc.append(dict(case=r['case'], **{k: u.get(k) for k in ('kind', 'label', 'detail', 'replay')}))
    cov = dict(states=tot['paths'], transitions=tot['branches'], traces_validated_against_impl=tot['validated'],
               samples=samples or [dict(case=c['case']) for c in cases[:3]] or ['none'],
               explanation='states = symbolic paths of the real code, transitions = symbolic branch decisions; each path is '
                           'a set of inputs whose obligations are decided by z3 over all values; validated traces are '
                           'concrete witnesses of explored paths executed on the plainly loaded code',
               obligations=tot['obligations'], discharged=tot['discharged'], solver_queries=tot['queries'],
               solver_seconds=round(tot['solver_s'], 2), decided_by_linear_relaxation=tot['relaxed'],
               decided_by_nonlinear_query=tot['full'], solver_unknown=tot['unknown'],
               thin_branches_skipped=tot['thin_skipped'], infeasible_paths=tot['aborted'],
               inconclusive_obligations=tot['inconclusive'], paths_outside_the_encoding=tot['unsupported'],
               cases_cut_by_budget=[c['case'] for c in cases if c['truncated']] + list(crashed),
               cases=cases if len(cases) <= 400 else cases[:400], functions_encoded=sorted(funcs),
               not_reproduced=unc, bounds=getattr(mod, 'BOUNDS', {}).get(a.tier, '') if mod else '',
               outside=getattr(mod, 'OUTSIDE', '') if mod else '')
    ev = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking',
              coverage=cov, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON if mod else COMMON,
              wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    return tot


COMMON = [
    'real arithmetic stands in for binary64 (constants are the binary64 constants of the code); equalities are decided up to 1e-6',
    'values within 1e-7 of a branch boundary are treated as on the boundary (thin branches); the number of such boundaries '
    'combined on one path is bounded',
    'math, cmath, numpy and random are modelled at their interface; everything in projectq.* is executed from source',
]


def replay(a):
    v = json.load(open(a.replay))
    rp = Replayer(v['property'], v.get('tier', 'quick'))
    r = rp.run(v['case'], v['values'], v['choices'])
    rp.close()
    print(r)
    return 1 if r['result'] in ('violation', 'exception') else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
