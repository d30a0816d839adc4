"""Replays assignments on the ordinary (uninstrumented) code.

Run as `python -m sx.native PROPERTY`; reads one JSON request per line and
writes one JSON answer per line."""
import importlib
import json
import logging
import os
import signal
import sys
import traceback
import warnings

VENV = '/opt/venv/lib/python3.12/site-packages'


def setup():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    repo = os.environ.get('SX_REPO', '/repo')
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:] = [repo, here] + [p for p in sys.path if p not in ('', repo, here)] + [VENV]
    return repo, here


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_one(scenarios, req, limit):
    from sx import state
    from sx.harness import ConcreteCtx, Stopped, plain, Failure
    state.restore()
    sc = scenarios[req['scenario']]
    ctx = ConcreteCtx(req['values'])
    res = {}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            sc.fn(ctx, **sc.params)
            res['status'] = 'ok'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Stopped:
        res['status'] = 'stopped'
    except Timeout:
        res['status'] = 'timeout'
    except RecursionError as e:
        res['status'] = 'exception'
        res['error'] = 'RecursionError'
        res['trace'] = ''
    except Exception as e:
        res['status'] = 'exception'
        res['error'] = '%s: %s' % (type(e).__name__, ascii(str(e))[:300])
        res['trace'] = ascii(traceback.format_exc(limit=-6))[-1500:]
    finally:
        ctx.cleanup()
    res['failures'] = ctx.failures
    res['obs'] = ctx.obs
    res['labels'] = ctx.labels
    return res


def load(prop):
    from sx import harness
    importlib.import_module('props.' + prop.lower())
    return harness.SCENARIOS


def main():
    setup()
    prop = sys.argv[1]
    limit = float(sys.argv[2]) if len(sys.argv) > 2 else 10
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    scenarios = load(prop)
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        res = run_one(scenarios, req, limit)
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
