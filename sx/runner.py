"""Decides one property: explores its scenarios, replays, reports.

usage: python3-vt -m sx.runner PROPERTY [quick|thorough]
"""
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import subprocess
import sys
import threading
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
DEBUG = os.environ.get('SX_DEBUG')


class Native(object):
    """The replay process."""

    def __init__(self, prop, limit=10):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE)
        self.p = subprocess.Popen([sys.executable, '-m', 'sx.native', prop, str(limit)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL if not DEBUG else None,
                                  cwd=HERE, env=env, text=True)
        self.ready = self.p.stdout.readline().strip() == 'ready'

    def run(self, scenario, vals):
        if not self.ready:
            return {'status': 'dead', 'failures': [], 'obs': [], 'labels': {}}
        try:
            self.p.stdin.write(json.dumps({'scenario': scenario, 'values': vals}) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                raise OSError('replay process ended')
            return json.loads(line)
        except OSError:
            self.ready = False
            return {'status': 'dead', 'failures': [], 'obs': [], 'labels': {}}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(2)
        except Exception:
            self.p.kill()


def bad_replay(res):
    return res['status'] in ('exception', 'timeout', 'dead') or bool(res['failures'])


class Worker(object):

    def __init__(self, prop, scenarios, seed, tier):
        self.prop = prop
        self.scenarios = scenarios
        self.seed = seed
        self.tier = tier
        self.native = None
        self.explorers = {}
        self.validate_left = {}

    def get_native(self):
        if self.native is None or not self.native.ready:
            self.native = Native(self.prop)
        return self.native

    def run_task(self, si, prefixes, slice_s, deadline):
        from . import core, values
        from .core import Explorer
        sc = self.scenarios[si]
        e = self.explorers.get(si)
        if e is None:
            e = self.explorers[si] = Explorer(seed=self.seed)
        core.set_engine(e)
        base = dict(e.stats)
        e.pending = list(prefixes)
        out = dict(scenario=si, violations=[], mismatches=[], inconclusive={}, labels={},
                   validated=0, samples=[], incomplete=0, check_unknown=0, events=0,
                   functions=set())
        t0 = time.time()
        while e.pending and time.time() - t0 < slice_s and time.time() < deadline:
            prefix = e.pending.pop()
            self.run_path(e, sc, si, prefix, out)
            if len(out['violations']) >= 3:
                break
        out['pending'] = e.pending
        e.pending = []
        out['stats'] = {k: e.stats[k] - base.get(k, 0) for k in e.stats}
        out['time'] = time.time() - t0
        out['functions'] = sorted(FUNCTIONS)
        return out

    def run_path(self, e, sc, si, prefix, out):
        from . import core, values, fs, state
        from .core import Control, Infeasible, Stop, Inconclusive
        from .symctx import SymCtx
        import z3
        e.begin(prefix)
        values.atoms()
        fs.reset()
        state.restore()
        ctx = SymCtx(e)
        status = 'done'
        err = ''
        t0 = time.time()
        PATH_TIMER.start(PATH_LIMIT)
        try:
            try:
                sc.fn(ctx, **sc.params)
            finally:
                PATH_TIMER.stop()
        except Infeasible:
            status = 'infeasible'
        except Stop:
            status = 'stopped'
        except Inconclusive as x:
            status = 'inconclusive'
            err = str(x)
            if DEBUG:
                traceback.print_exc(limit=-8)
        except Control as x:
            status = 'inconclusive'
            err = repr(x)
        except RecursionError:
            status = 'inconclusive'
            err = 'recursion'
            if DEBUG:
                traceback.print_exc(limit=-12)
        except Exception as x:
            # the signal may have hit code that turns it into another exception
            status = 'inconclusive' if PATH_TIMER.fired else 'exception'
            try:
                err = '%s: %s' % (type(x).__name__, x)
            except BaseException:
                err = type(x).__name__
            ctx.trace = traceback.format_exc(limit=-5)
            if DEBUG:
                traceback.print_exc(limit=-8)
        e.active = False
        out['events'] += len(e.trace)
        if len(e.prefix) > len(e.trace):
            status, err = 'inconclusive', 'nondeterministic replay (%s %s)' % (status, err)
        # candidates found by the solver
        for label, vals, pos in ctx.candidates:
            if len(prefix) > pos:
                continue
            self.replay(si, vals, out, 'assertion ' + label)
        if status == 'infeasible':
            e.stats['infeasible'] += 1
            return
        for k, v in ctx.labels.items():
            out['labels'][k] = out['labels'].get(k, 0) + v
        out['check_unknown'] += ctx.unknown
        if e.incomplete:
            out['incomplete'] += 1
        rng = random.Random(repr((self.seed, si, e.trace)))
        if status == 'inconclusive':
            e.stats['inconclusive'] += 1
            out['inconclusive'][err] = out['inconclusive'].get(err, 0) + 1
            # run the ordinary code on one input of this path all the same
            if out['inconclusive'][err] > 20:
                return
        else:
            e.stats['paths'] += 1
        r, m = e.query()
        if r == z3.unsat:
            return
        if r != z3.sat:
            out['inconclusive']['path condition not decided'] = \
                out['inconclusive'].get('path condition not decided', 0) + 1
            return
        try:
            vals = ctx.assignment(m, rng)
        except Exception as x:
            out['inconclusive'][repr(x)] = 1
            return
        if status == 'exception' or ctx.failures:
            self.replay(si, vals, out, 'unexpected ' + err if status == 'exception' else ctx.failures[0][0],
                        trace=getattr(ctx, 'trace', ''))
            return
        # validate the encoding on this path
        n = self.validate_left.get(si, 0)
        self.validate_left[si] = n + 1
        if n > 200 and rng.random() > 0.1:
            return
        res = self.get_native().run(si, vals)
        if bad_replay(res):
            self.confirm(si, vals, res, out, 'found while replaying a path')
            return
        if status == 'inconclusive':
            return
        if res['status'] == 'stopped' and status != 'stopped':
            self.mismatch(out, si, vals, 'assumptions differ in the replay')
            return
        out['validated'] += 1
        if len(out['samples']) < 2:
            out['samples'].append(dict(scenario=sc.id(), inputs=show(vals)))
        if status == 'done':
            self.compare(ctx, m, res, si, vals, out)

    def compare(self, ctx, m, res, si, vals, out):
        from .harness import plain, same_plain
        for (name, v), (n2, v2) in zip(ctx.obs, res['obs']):
            try:
                mine = json.loads(json.dumps(plain(ctx.value(v, m, ctx.last_idx))))
            except Exception as x:
                if DEBUG:
                    traceback.print_exc()
                self.mismatch(out, si, vals, 'observation %s: %r' % (name, x))
                return
            if name != n2 or not same_plain(mine, v2):
                self.mismatch(out, si, vals, 'observation %s: %r (symbolic) %r (native)' % (name, mine, v2))
                return
        if len(ctx.obs) != len(res['obs']):
            self.mismatch(out, si, vals, 'number of observations')

    def mismatch(self, out, si, vals, what):
        if len(out['mismatches']) < 5:
            out['mismatches'].append(dict(scenario=si, inputs=vals, what=what))
        else:
            out['mismatches'].append(None)

    def replay(self, si, vals, out, what, trace=''):
        res = self.get_native().run(si, vals)
        if bad_replay(res):
            self.confirm(si, vals, res, out, what)
        elif res['status'] == 'stopped':
            self.mismatch(out, si, vals, 'counterexample outside the assumptions: ' + what)
        else:
            self.mismatch(out, si, vals, 'counterexample does not reproduce: %s %s' % (what, trace))

    def confirm(self, si, vals, res, out, what):
        """Once more in a fresh process."""
        n = Native(self.prop, 20)
        res2 = n.run(si, vals)
        n.close()
        if not n.ready and res2['status'] == 'dead':
            self.mismatch(out, si, vals, 'replay process died')
            return
        if bad_replay(res2):
            out['violations'].append(dict(scenario=si, inputs=vals, what=what, native=res2))
        else:
            self.mismatch(out, si, vals, 'violation seen once only: %s' % what)


def show(vals):
    out = {}
    for k, v in vals.items():
        if isinstance(v, list):
            v = ascii(''.join(map(chr, v)))
        out[k] = v
    return out


PATH_LIMIT = float(os.environ.get('SX_PATH_LIMIT', '60'))


class PathTimer(object):
    """Raises Inconclusive in the main thread when a path takes too long."""

    fired = False

    def start(self, seconds):
        import signal
        self.fired = False
        signal.signal(signal.SIGALRM, self.fire)
        signal.setitimer(signal.ITIMER_REAL, seconds)

    def stop(self):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)

    def fire(self, *a):
        from .core import Inconclusive
        self.fired = True
        raise Inconclusive('path time limit')


PATH_TIMER = PathTimer()
FUNCTIONS = set()


def monitor():
    m = sys.monitoring
    tool = m.PROFILER_ID
    m.use_tool_id(tool, 'sx')

    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO + '/sbclassifier'):
            FUNCTIONS.add(os.path.relpath(f, REPO) + ':' + code.co_qualname)
        return m.DISABLE
    m.register_callback(tool, m.events.PY_START, start)
    m.set_events(tool, m.events.PY_START)


def worker_main(conn, prop, scenarios, seed, tier):
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(60000)
    try:
        monitor()
    except Exception:
        pass

    w = Worker(prop, scenarios, seed, tier)
    while True:
        try:
            task = conn.recv()
        except EOFError:
            break
        if task is None:
            break
        try:
            conn.send(w.run_task(*task))
        except BaseException as x:
            if DEBUG:
                traceback.print_exc()
            conn.send(dict(scenario=task[0], crash=repr(x) + traceback.format_exc(limit=-4), pending=[]))
    if w.native:
        w.native.close()


def load_symbolic(prop):
    from . import instrument, native
    native.setup()
    sys.path[:] = [p for p in sys.path]
    instrument.install(REPO, os.path.join(HERE, 'props'))
    from . import fs
    fs.install()
    from . import harness
    importlib.import_module('props.' + prop.lower())
    return harness.SCENARIOS


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)).get('findings', []):
            if k['property'] == prop:
                out.append(k)
    return out


def main(prop, tier):
    t0 = time.time()
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = float(os.environ.get('SX_BUDGET', '280' if tier == 'quick' else '800'))
    jobs = int(os.environ.get('SX_JOBS', '8'))
    resource_limits()
    try:
        scenarios = load_symbolic(prop)
    except Exception:
        traceback.print_exc()
        # Can the ordinary code be loaded at all?
        n = Native(prop)
        ok = n.ready
        n.close()
        print('ERROR property=%s cannot load (%s)' % (prop, 'engine' if ok else 'code'))
        return 2
    only = os.environ.get('SX_ONLY')
    chosen = [i for i, s in enumerate(scenarios) if tier in s.tiers and (not only or s.name in only.split(','))]
    meta = getattr(sys.modules['props.' + prop.lower()], 'META', {})
    deadline = t0 + budget
    workers = []
    ctxm = mp.get_context('fork')
    for _ in range(min(jobs, 64)):
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=worker_main, args=(b, prop, scenarios, seed, tier), daemon=True)
        p.start()
        b.close()
        workers.append([a, p, None])
    queue = [(i, [()]) for i in chosen]
    per = {i: dict(paths=0, pending=0, time=0.0, labels={}, events=0) for i in chosen}
    tot = dict(stats={}, labels={}, violations=[], mismatches=[], nmismatch=0, inconclusive={},
               validated=0, samples=[], incomplete=0, check_unknown=0, functions=set(), crashes=[],
               events=0)
    stop = False
    while True:
        busy = [w for w in workers if w[2] is not None]
        if not stop and time.time() < deadline:
            for w in workers:
                if w[2] is None and queue:
                    task = queue.pop(0)
                    w[2] = task
                    idle = sum(1 for x in workers if x[2] is None)
                    sl = 1.5 if (idle or len(queue) < len(workers)) else 6.0
                    w[0].send((task[0], task[1], sl, deadline))
            busy = [w for w in workers if w[2] is not None]
        if not busy:
            break
        ready = mp.connection.wait([w[0] for w in busy], timeout=1.0)
        if time.time() > deadline + 90:
            break
        for w in busy:
            if w[0] not in ready:
                continue
            si = w[2][0]
            try:
                r = w[0].recv()
            except EOFError:
                tot['crashes'].append('worker ended (scenario %s)' % scenarios[si].id())
                w[2] = None
                workers.remove(w)
                per[si]['pending'] += 1
                continue
            w[2] = None
            if 'crash' in r:
                tot['crashes'].append(r['crash'])
                per[si]['pending'] += 1
                continue
            merge(tot, per[si], r)
            pend = r['pending']
            if tot['violations'] and len(tot['violations']) >= 3:
                stop = True
            if pend:
                # oldest prefixes are the largest subtrees: split them
                if len(pend) == 1:
                    queue.append((si, pend))
                else:
                    idle = max(1, sum(1 for x in workers if x[2] is None) - len(queue))
                    k = min(len(pend), max(2, min(idle, 8)))
                    for j in range(k):
                        queue.append((si, pend[j::k]))
    for si, pend in queue:
        per[si]['pending'] += len(pend)
    for w in workers:
        if w[2] is not None:
            per[w[2][0]]['pending'] += 1
        try:
            w[0].send(None)
        except Exception:
            pass
    for w in workers:
        w[1].join(1.0)
        if w[1].is_alive():
            w[1].kill()
    return report(prop, tier, seed, scenarios, chosen, per, tot, meta, t0)


def resource_limits():
    sys.setrecursionlimit(60000)
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY))
    except Exception:
        pass


def merge(tot, per, r):
    for k, v in r['stats'].items():
        tot['stats'][k] = tot['stats'].get(k, 0) + v
    for k, v in r['labels'].items():
        tot['labels'][k] = tot['labels'].get(k, 0) + v
        per['labels'][k] = per['labels'].get(k, 0) + v
    for k, v in r['inconclusive'].items():
        tot['inconclusive'][k] = tot['inconclusive'].get(k, 0) + v
    tot['violations'].extend(r['violations'])
    for x in r['mismatches']:
        tot['nmismatch'] += 1
        if x and len(tot['mismatches']) < 10:
            tot['mismatches'].append(x)
    for k in ('validated', 'incomplete', 'check_unknown', 'events'):
        tot[k] += r[k]
    tot['functions'] |= set(r['functions'])
    if len(tot['samples']) < 12:
        tot['samples'].extend(r['samples'][:1])
    per['paths'] += r['stats']['paths']
    per['time'] += r['time']
    per['events'] += r['events']


def report(prop, tier, seed, scenarios, chosen, per, tot, meta, t0):
    st = tot['stats']
    wall = time.time() - t0
    pending = sum(p['pending'] for p in per.values())
    unreached = [l for l in meta.get('labels', []) if not tot['labels'].get(l)]
    empty = [scenarios[i].id() for i in chosen if not per[i]['paths'] and not per[i]['pending']]
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
        violations=len(tot['violations']),
        assumptions=list(meta.get('assumptions', [])) + [
            'Python int as mathematical integers, float arithmetic on symbolic values as exact reals (replays use doubles)',
            'the instrumented interpreter (sx/) agrees with CPython; checked by replaying explored paths natively'],
        coverage=dict(
            method='symbolic execution of the real source by re-execution; branch feasibility and assertions decided by z3',
            functions_encoded=sorted(tot['functions']),
            bounds=meta.get('bounds', ''),
            outside=meta.get('outside', ''),
            states=st.get('paths', 0), transitions=tot['events'],
            traces_validated_against_impl=tot['validated'],
            samples=tot['samples'][:8],
            paths=st.get('paths', 0),
            branches=st.get('branches', 0), forks=st.get('forks', 0),
            assertions_decided=st.get('checks', 0),
            solver_queries=st.get('queries', 0), sat=st.get('sat', 0), unsat=st.get('unsat', 0),
            unknown=st.get('unknown', 0), domain_decisions=st.get('domain', 0),
            solver_s=round(st.get('solver_s', 0), 2),
            assertion_labels=tot['labels'],
            labels_not_reached=unreached,
            infeasible_paths=st.get('infeasible', 0),
            inconclusive_paths=tot['inconclusive'],
            assertions_undecided=tot['check_unknown'],
            paths_with_concretised_values=tot['incomplete'],
            counterexamples_not_reproduced=tot['nmismatch'],
            unexplored_prefixes=pending,
            exhaustive=bool(not pending and not tot['inconclusive'] and not tot['incomplete']
                            and not tot['check_unknown'] and not tot['nmismatch']
                            and not tot['crashes']),
            scenarios=[dict(name=scenarios[i].id(), paths=per[i]['paths'],
                            unexplored=per[i]['pending'], cpu_s=round(per[i]['time'], 2)) for i in chosen]))
    known = known_findings(prop)
    fresh = []
    hits = {}
    for v in tot['violations']:
        sc = scenarios[v['scenario']]
        for k in known:
            if k.get('scenario') == sc.name and all(
                    v['inputs'].get(n) == x for n, x in k.get('inputs', {}).items()) and (
                    not k.get('labels') or all(f[0] in k['labels'] for f in v['native']['failures'])):
                hits[k['id']] = k
                break
        else:
            fresh.append(v)
    ev['violations'] = len(fresh)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    c = ev['coverage']
    print('%s %s: %d scenarios, %d paths, %d assertions, %d queries (%d unknown), solver %.1fs, wall %.1fs, '
          'validated %d, unexplored %d, exhaustive=%s' % (
              prop, tier, len(chosen), c['paths'], c['assertions_decided'], c['solver_queries'], c['unknown'],
              c['solver_s'], wall, tot['validated'], pending, c['exhaustive']))
    for k, v in sorted(tot['inconclusive'].items(), key=lambda x: -x[1])[:8]:
        print('  note: %d paths inconclusive: %s' % (v, k[:200]))
    for m in tot['mismatches'][:5]:
        print('  note: %s %s: %s' % (scenarios[m['scenario']].id(), ascii(show(m['inputs'])), ascii(m['what'])[:1200]))
    for x in tot['crashes'][:3]:
        print('  note: worker: %s' % x)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if fresh:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        for n, v in enumerate(fresh[:3]):
            sc = scenarios[v['scenario']]
            path = os.path.join(HERE, 'evidence', 'replay', '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, scenario=v['scenario'], name=sc.id(), values=v['inputs'],
                               what=v['what'], native=v['native'],
                               how='python3-vt -m sx.replay %s' % path), f, indent=1)
            print('  %s with %s' % (sc.id(), ascii(show(v['inputs']))))
            print('  %s; native: %s %s' % (v['what'], v['native']['status'],
                                          v['native'].get('error') or v['native']['failures']))
            if v['native'].get('trace') and DEBUG:
                print(v['native']['trace'])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if unreached or empty:
        if pending:
            print('  note: not reached within the budget: %s %s' % (unreached, empty))
        elif (tot['nmismatch'] or tot['crashes'] or tot['inconclusive']) and c['paths'] and not os.environ.get('SX_STRICT'):
            # the code uses what the encoding lacks: what was explored held, and
            # the evidence says what was not decided
            print('  note: not decided, the encoding lacks what the code uses: %s %s' % (unreached, empty))
        else:
            print('ERROR property=%s vacuous: labels not reached %s, scenarios without a path %s' % (
                prop, unreached, empty))
            return 2
    if not c['paths']:
        print('ERROR property=%s nothing explored' % prop)
        return 2
    if os.environ.get('SX_STRICT') and (tot['nmismatch'] or tot['crashes'] or tot['inconclusive']):
        return 3
    return 0


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv(sys.executable, [sys.executable, '-m', 'sx.runner'] + sys.argv[1:])
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
