"""Runs the cases of one property: explores, replays, writes evidence.

    python3-vt -m sx.runner PROPERTY [--tier quick|thorough]
"""
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random as pyrandom
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sx import case as casemod            # noqa: E402
from sx.engine import E, Ctl, Gap, Hang, PathAbort, Stats, Violation  # noqa
from sx.loader import Loader, REPO        # noqa: E402
from sx.sym import SymApi, enc            # noqa: E402

PY_REAL = '/opt/venv/bin/python'
if not os.path.exists(PY_REAL):
    PY_REAL = sys.executable
CHUNK_S = 2.0          # seconds a worker explores before handing work back
NPROC = int(os.environ.get('SX_PROCS', str(os.cpu_count() or 4)))


class Daemon:
    """The real, uninstrumented code in a separate interpreter."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED='0', SX_REPO=REPO,
                   PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen(
            [PY_REAL, os.path.join(HERE, 'sx', 'real.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, env=env, cwd='/tmp')

    def run(self, job):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if line:
                return json.loads(line)
        except (OSError, ValueError):
            pass
        self.close()
        return {'status': 'died', 'label': 'the interpreter died'}

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait(5)
            except Exception:
                pass
            self.p = None


def make_job(c, tier, ex):
    return {'property': c.prop, 'case': c.name, 'tier': tier,
            'values': ex['values'], 'rng': ex['rng']}


def obs_match(a, b):
    if a == '?' or b == '?':
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(obs_match, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(obs_match(a[k], b[k]) for k in a)
    return a == b


class Worker:
    def __init__(self):
        self.loader = Loader()
        self.daemon = Daemon()
        pyrandom.seed(int(os.environ.get('VERIF_SEED', '1') or '1'))

    def explore(self, task):
        """DFS from a prefix for up to CHUNK_S seconds."""
        prop, name, tier, prefixes, deadline = task
        c = casemod.find(prop, name)
        E.stats = Stats()
        E.functions = set()
        E.covered = set()
        t0 = time.time()
        out = {'case': name, 'violations': [], 'gaps': [], 'samples': [],
               'validated': 0, 'mismatch': [], 'states': 0, 'ok_paths': 0,
               'unreproduced': []}
        stack = list(prefixes)
        while stack:
            now = time.time()
            if now - t0 > CHUNK_S or now > deadline:
                break
            prefix = stack.pop()
            self.path(c, tier, prefix, out)
            stack.extend(E.pending)
            if out['violations']:
                break
        out['rest'] = stack
        out['stats'] = E.stats.as_dict()
        out['functions'] = sorted(E.functions)
        out['covered'] = sorted(E.covered)
        out['wall'] = time.time() - t0
        return out

    def path(self, c, tier, prefix, out):
        E.begin(prefix, bound=c.opts.get('bound', 6),
                fuel=c.opts.get('fuel', 100000))
        kind, info = 'ok', ''
        api = None
        try:
            try:
                fx = self.loader.fresh()
                api = SymApi(fx, c.params(tier), self.loader.mods)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    c.fn(api)
                E.ensure_model()
            except Ctl:
                raise
            except RecursionError:
                raise Gap('recursion limit')
            except Exception as e:
                E.ensure_model()
                kind = 'exc'
                info = (f'unexpected {type(e).__name__}: {e}',
                        traceback.format_exc()[-1500:])
        except PathAbort:
            E.stats.aborted += 1
            return
        except Violation as e:
            kind, info = 'fail', (e.label, e.detail)
        except Gap as e:
            kind, info = 'gap', (str(e), traceback.format_exc()[-800:])
        except Hang:
            kind, info = 'hang', ('no end within the step limit', '')
        E.stats.paths += 1
        if E.witness:
            E.stats.witness_paths += 1
        out['states'] += 1 + len(E.trace) - len(prefix)
        try:
            self.conclude(c, tier, kind, info, out)
        except PathAbort:
            E.stats.aborted += 1
        except Gap as e:
            E.stats.gaps += 1
            out['gaps'].append(['extract: ' + str(e), ''])

    def conclude(self, c, tier, kind, info, out):
        ex = E.extract()
        job = make_job(c, tier, ex)
        res = self.daemon.run(job)
        if res['status'] in ('fail', 'exc', 'hang', 'died'):
            if kind == 'ok' and not E.margin:
                # all values satisfy the assertion in exact arithmetic and
                # this replay sits on a tie of reals: float rounding decides
                E.stats.rounding += 1
                return
            if kind == 'ok':
                # does the failure depend on these very reals?
                m = E.other_model()
                if m is not None:
                    again = self.daemon.run(make_job(c, tier, E.extract(m)))
                    if again['status'] == 'ok':
                        E.stats.rounding += 1
                        return
            out['violations'].append({
                'label': res['label'], 'kind': kind, 'symbolic': info and info[0],
                'job': job, 'real': res})
            return
        if kind == 'ok':
            out['ok_paths'] += 1
            m = E.robust_model()
            ob = [enc(x, lambda t: m.eval(t, model_completion=True))
                  for x in E.obs]
            if (res['status'] == 'ok' and res['labels'] == E.labels
                    and obs_match(ob, res['obs'])):
                out['validated'] += 1
            elif len(out['mismatch']) < 5:
                out['mismatch'].append(
                    {'job': job, 'status': res['status'],
                     'labels': [E.labels[-3:], (res.get('labels') or [])[-3:]],
                     'obs': [ob, res.get('obs')]})
            if len(out['samples']) < 2:
                out['samples'].append({
                    'case': c.name, 'input': ex['values'],
                    'draws': len(ex['rng']), 'branch_decisions': len(E.trace),
                    'path_condition': [str(x)[:120] for x in E.pc[:4]]})
            return
        # A symbolic failure the first model does not reproduce, or a gap:
        # try further models of the same path on the real code.
        tried = self.diversify(c, tier, out)
        if kind == 'gap':
            E.stats.gaps += 1
            if len(out['gaps']) < 8:
                out['gaps'].append(list(info) + [tried])
        elif not out['violations']:
            E.stats.gaps += 1
            if len(out['unreproduced']) < 5:
                out['unreproduced'].append(
                    {'kind': kind, 'info': info, 'job': job, 'real': res['status']})

    def diversify(self, c, tier, out, n=4):
        import z3
        tried = 0
        for _ in range(n):
            extra = []
            for name, k, t in E.inputs:
                if k in ('int', 'val') and pyrandom.random() < 0.7:
                    v = pyrandom.choice([0, 1, 2, 3, 5, 7, 24, 1000, -1, -7])
                    extra.append(t == v if pyrandom.random() < .5 else t > v)
                elif k == 'real':
                    extra.append(t > z3.RealVal(pyrandom.choice(['1/2', '1', '2'])))
            pyrandom.shuffle(extra)
            keep = []
            for x in extra[:8]:
                r, m = E._check(*(keep + [x]))
                if r == z3.sat:
                    keep.append(x)
                    E.model = m
            try:
                ex = E.extract()
            except Ctl:
                return tried
            job = make_job(c, tier, ex)
            res = self.daemon.run(job)
            tried += 1
            if res['status'] in ('fail', 'exc', 'hang', 'died'):
                out['violations'].append({
                    'label': res['label'], 'kind': 'diversified',
                    'symbolic': '', 'job': job, 'real': res})
                break
        return tried


_W = None


def _init(prop):
    global _W
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _W = Worker()


def _explore(task):
    try:
        return _W.explore(task)
    except BaseException:
        return {'case': task[1], 'crash': traceback.format_exc()}


def known_findings():
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                d = {}
                head, _, text = line[8:].partition('--')
                for w in head.split():
                    k, _, v = w.partition('=')
                    d[k] = v
                d['text'] = text.strip()
                out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', action='append')
    ap.add_argument('--seconds', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.property.upper()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    importlib.import_module(f'harness.{prop.lower()}')
    cases = casemod.CASES[prop]
    if a.case:
        cases = [c for c in cases if c.name in a.case]
    total = a.seconds or (240 if tier == 'quick' else 2400)
    deadline = t0 + total
    known = [k for k in known_findings() if k.get('property') == prop]

    agg = {c.name: {'stats': Stats().as_dict(), 'functions': set(),
                    'covered': set(), 'validated': 0, 'ok_paths': 0,
                    'states': 0, 'gaps': [], 'mismatch': [], 'samples': [],
                    'unreproduced': [], 'complete': True, 'wall': 0.0}
           for c in cases}
    violations = []
    crashes = []
    found_known = []

    def limit(c, key, dflt):
        v = c.opts.get(key, dflt)
        if isinstance(v, tuple):
            v = v[1] if tier == 'thorough' else v[0]
        return v

    # Breadth: a queue of tasks per case, served round-robin.
    queues = {c.name: [[[]]] for c in cases}
    started = {}
    running = {c.name: 0 for c in cases}
    pool = mp.get_context('fork').Pool(NPROC, _init, (prop,))
    inflight = []
    order = [c.name for c in cases]
    byname = {c.name: c for c in cases}
    stop = False
    while True:
        # launch
        progress = False
        if not stop and time.time() < deadline:
            for name in list(order):
                if len(inflight) >= NPROC:
                    break
                q = queues[name]
                if not q:
                    continue
                c = byname[name]
                ag = agg[name]
                started.setdefault(name, time.time())
                if ag['stats']['paths'] >= limit(c, 'paths', 10 ** 9) \
                        or ag['wall'] >= limit(c, 'seconds', 10 ** 9):
                    ag['complete'] = False
                    q.clear()
                    continue
                task = q.pop()
                inflight.append((name, pool.apply_async(_explore, (
                    (prop, name, tier, task, deadline),))))
                running[name] += 1
                progress = True
                order.remove(name)
                order.append(name)
        # collect
        done = [(n, r) for n, r in inflight if r.ready()]
        if not done:
            if not inflight and (stop or not any(queues.values())
                                 or time.time() >= deadline):
                break
            if not progress:
                time.sleep(0.005)
            if time.time() > deadline + 60:
                for n, _ in inflight:
                    agg[n]['complete'] = False
                break
            continue
        for n, r in done:
            inflight.remove((n, r))
            running[n] -= 1
            o = r.get()
            if 'crash' in o:
                crashes.append((n, o['crash']))
                continue
            ag = agg[n]
            for k, v in o['stats'].items():
                ag['stats'][k] += v
            ag['functions'].update(o['functions'])
            ag['covered'].update(o['covered'])
            for k in ('validated', 'ok_paths', 'states', 'wall'):
                ag[k] += o[k]
            for k in ('gaps', 'mismatch', 'samples', 'unreproduced'):
                ag[k].extend(o[k])
                del ag[k][8:]
            rest = o['rest']
            if rest:
                # share: split what is left over the workers
                idle = max(1, NPROC - len(inflight))
                k = max(1, min(len(rest), idle))
                for i in range(k):
                    queues[n].append(rest[i::k])
            for v in o['violations']:
                hit = [f for f in known if f.get('case') == n
                       and v['label'].startswith(f.get('label', '').replace('_', ' '))]
                if hit:
                    found_known.append((hit[0], v))
                    if rest:
                        pass
                else:
                    violations.append((n, v))
                    stop = True
    for n in queues:
        if queues[n]:
            agg[n]['complete'] = False
    pool.terminate()

    # -- report ------------------------------------------------------------------
    code = 0
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    for f, v in {id(f): (f, v) for f, v in found_known}.values():
        print(f"KNOWN-FINDING: property={prop} {f['text']}")
    if crashes:
        for n, tb in crashes[:3]:
            print(f'CHECK-ERROR case={n}\n{tb}', file=sys.stderr)
        code = 2
    missing = []
    if not violations:
        for c in cases:
            ag = agg[c.name]
            if ag['ok_paths'] == 0 and not any(f.get('case') == c.name
                                               for f, _ in found_known):
                if (ag['stats']['gaps'] or not ag['complete']) and any(
                        x['ok_paths'] for x in agg.values()):
                    print(f'CHECK-INCOMPLETE property={prop} case={c.name}: ' + (
                        'the code cannot be encoded here'
                        if ag['stats']['gaps'] else 'no answer in time'))
                    ag['complete'] = False
                    continue
                missing.append((c.name, 'no path verified'))
            want = set(c.opts.get('cover', ()))
            if want - ag['covered'] and ag['complete'] \
                    and not ag['stats']['gaps']:
                missing.append((c.name, f'not reached: {sorted(want - ag["covered"])}'))
        for n, why in missing:
            print(f'CHECK-ERROR vacuous: property={prop} case={n}: {why}')
            code = 2
    for n, v in violations[:1]:
        h = hashlib.sha1(json.dumps(v['job'], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(HERE, 'evidence', 'replays', f'{prop}-{n}-{h}.json')
        job = dict(v['job'], label=v['label'], symbolic=v['symbolic'],
                   real=v['real'],
                   how='run: %s %s --replay <this file>' % (
                       PY_REAL, os.path.join(HERE, 'sx', 'real.py')))
        with open(path, 'w') as f:
            json.dump(job, f, indent=1)
        print(f'case {n}: {v["label"]}')
        print(f'  input {json.dumps(v["job"]["values"])[:600]}')
        if v['job']['rng']:
            print(f'  random draws {json.dumps(v["job"]["rng"])[:400]}')
        if 'tb' in v['real']:
            print(v['real']['tb'])
        print(f'VIOLATION property={prop} replay={path}')
        code = 1

    tot = Stats().as_dict()
    for ag in agg.values():
        for k, v in ag['stats'].items():
            tot[k] += v
    funcs = sorted(set().union(*[ag['functions'] for ag in agg.values()]))
    ev = {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or '1'),
        'level': 'model_checking',
        'coverage': {
            'states': sum(ag['states'] for ag in agg.values()),
            'transitions': tot['decisions'],
            'traces_validated_against_impl': sum(ag['validated'] for ag in agg.values()),
            'samples': [s for ag in agg.values() for s in ag['samples'][:1]][:8],
            'paths': tot['paths'],
            'paths_completed_ok': sum(ag['ok_paths'] for ag in agg.values()),
            'forks_with_both_sides_feasible': tot['forks'],
            'obligations': tot['obligations'],
            'obligations_discharged_by_unsat_query': tot['obl_solver'],
            'obligations_true_under_path_condition': tot['obl_path'],
            'inconclusive_queries': tot['inconclusive'],
            'encoding_gaps': tot['gaps'],
            'witness_paths_beyond_bound': tot['witness_paths'],
            'replays_decided_by_float_rounding': tot['rounding'],
            'solver_queries': tot['queries'],
            'solver_sat': tot['q_sat'], 'solver_unsat': tot['q_unsat'],
            'solver_unknown': tot['q_unknown'],
            'solver_seconds': round(tot['solver_s'], 2),
            'functions_encoded': funcs,
            'cases': {c.name: {
                'bounds': c.params(tier), 'note': c.opts.get('note', ''),
                'concretization_bound': c.opts.get('bound', 6),
                'complete_within_bounds': agg[c.name]['complete']
                and not agg[c.name]['gaps'] and not agg[c.name]['unreproduced'],
                'paths': agg[c.name]['stats']['paths'],
                'verified_paths': agg[c.name]['ok_paths'],
                'validated': agg[c.name]['validated'],
                'obligations': agg[c.name]['stats']['obligations'],
                'gaps': agg[c.name]['stats']['gaps'],
            } for c in cases},
            'gap_notes': [g[0] for ag in agg.values() for g in ag['gaps']][:8],
        },
        'assumptions': [
            'random draws: any value the documented interface allows, equal '
            'for equal seed and equal request history (no statistical claim)',
            'floats are modelled as reals; log/exp are order-preserving '
            'uninterpreted functions',
            'datetime, random, math and the C builtins listed in sx/loader.py '
            'are replaced by models; every explored path is also executed on '
            'the real code and compared',
        ],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.case:
        with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for c in cases:
        ag = agg[c.name]
        st = ag['stats']
        if ag['unreproduced']:
            print(f'ENCODING-GAP case={c.name}: counterexample of the encoding '
                  f'not reproduced on the real code: {ag["unreproduced"][0]["info"]}')
        if a.v or a.case:
            print(f'{c.name:36s} paths={st["paths"]} ok={ag["ok_paths"]} valid={ag["validated"]} '
                  f'dec={st["decisions"]} q={st["queries"]} unk={st["q_unknown"]} obl={st["obligations"]} '
                  f'solv={st["obl_solver"]} gaps={st["gaps"]} wit={st["witness_paths"]} rnd={st["rounding"]} '
                  f'solver={st["solver_s"]:.1f}s wall={ag["wall"]:.1f} complete={ag["complete"]} cov={sorted(ag["covered"])}')
            for g in ag['gaps'][:3]:
                print('   GAP', g)
            for m in ag['mismatch'][:2]:
                print('   MISMATCH', json.dumps(m)[:1500])
            for m in ag['unreproduced'][:2]:
                print('   UNREPRODUCED', json.dumps(m, default=str)[:2500])
    print(f'{prop} {tier}: {tot["paths"]} paths, {tot["obligations"]} obligations, '
          f'{tot["queries"]} queries ({tot["solver_s"]:.1f}s), '
          f'{sum(ag["validated"] for ag in agg.values())} traces validated, '
          f'{tot["gaps"]} gaps, wall {time.time() - t0:.1f}s, exit {code}')
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.chdir(HERE)
        os.execv(sys.executable, [sys.executable, '-m', 'sx.runner'] + sys.argv[1:])
    main()
