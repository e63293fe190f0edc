"""Run-time contracts: executes contracts on the real package with seeded inputs (run by the package's interpreter)."""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--keys', default='')
    ap.add_argument('--prop', default='')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--runs', type=int, default=200)
    ap.add_argument('--seconds', type=float, default=10)
    ap.add_argument('--given', default='')
    ap.add_argument('--json', default='')
    ap.add_argument('--frames', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.path.insert(0, a.repo)
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(HERE, 'contracts'))
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    out = dict(evaluations=0, distinct=0, checks=0, violations=[], contracts={}, samples=[], error='')
    try:
        import numpy as np
        np.seterr(all='ignore')
        from pydv import concworld, contract
        try:
            import skcurve
        except Exception as e:
            out['error'] = 'import: ' + traceback.format_exc()[-1500:]
            raise SystemExit
        assert os.path.realpath(skcurve.__file__).startswith(os.path.realpath(a.repo) + os.sep)
        for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
            if f.startswith('C') and f.endswith('.py'):
                importlib.import_module(f[:-3])
        reg = contract.REG
        if a.keys:
            keys = [k for k in a.keys.split(',') if k in reg]
        else:
            keys = sorted(k for k, c in reg.items() if (a.prop in ('', c.prop)) and c.opts['bounded'])
        consts = concworld.mine(a.repo)
        if a.given:
            with open(a.given) as f:
                cases = json.load(f)
            for case in cases:
                c = reg[case['contract']]
                run_one(out, concworld, skcurve, c, random.Random(0), case.get('inputs'), consts, False, a.frames)
            raise SystemExit
        deadline = time.time() + a.seconds
        dist = {}
        n = {k: 0 for k in keys}
        rnd = 0
        bad = set()
        while time.time() < deadline:
            live = [k for k in keys if k not in bad and n[k] < a.runs * max(reg[k].opts.get('weight', 1), 0.01)]
            if not live:
                break
            for k in live:
                if time.time() >= deadline:
                    break
                c = reg[k]
                n[k] += 1
                rng = random.Random(zlib.crc32(('%d/%d/%d/%s' % (a.seed, a.shard, n[k], k)).encode()))
                h = run_one(out, concworld, skcurve, c, rng, None, consts, True, a.frames)
                if h is None:
                    bad.add(k)
                    continue
                st = out['contracts'].setdefault(k, dict(runs=0, rejected=0, distinct=0, checks=0))
                st['runs'] += 1
                if h == 'reject':
                    st['rejected'] += 1
                    continue
                st['checks'] += h.checks
                if h.nontrivial or h.rec:
                    dist.setdefault(k, set()).add(zlib.crc32(repr(sorted(h.rec.items())).encode()))
                if st['runs'] == 3 and len(out['samples']) < 6:
                    out['samples'].append(dict(contract=k, inputs=h.rec))
        for k, s in dist.items():
            out['contracts'][k]['distinct'] = len(s)
            out['distinct'] += len(s)
    except SystemExit:
        pass
    except Exception:
        out['error'] = traceback.format_exc()[-2000:]
    txt = json.dumps(out, default=repr)
    if a.json:
        with open(a.json, 'w') as f:
            f.write(txt)
    else:
        out['samples'] = []
        print(json.dumps(out, indent=1, default=repr)[:6000])


def run_one(out, cw, sk, c, rng, given, consts, big, frames):
    """Returns H, 'reject', or None after a violation."""
    H = cw.ConcH(sk, rng, given, consts, big=big)
    H.frames_only = frames
    H.load = lambda n: importlib.import_module(n)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                c.fn(H)
            except (cw.Reject, cw.Violation):
                raise
            except Exception:
                if not frames:
                    raise
            H.end()
        out['evaluations'] += 1
        out['checks'] += H.checks
        return H
    except cw.Reject:
        return 'reject'
    except cw.Violation as v:
        out['evaluations'] += 1
        out['violations'].append(dict(contract=c.key, check=v.name, message=str(v.msg)[:600], inputs=H.rec,
                                      where=where(sys.exc_info()[2])))
    except Exception as e:
        out['evaluations'] += 1
        tb = traceback.format_exc()[-1200:]
        out['violations'].append(dict(contract=c.key, check='no-exception', message=tb, inputs=H.rec,
                                      where=where(sys.exc_info()[2]), harness=_harness_fault(e)))
    return None


def _harness_fault(e):
    """The exception was raised by the contract's own code, not inside the package."""
    tb = e.__traceback__
    inpkg = False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.sep + 'skcurve' + os.sep in f:
            inpkg = True
        tb = tb.tb_next
    return not inpkg


def where(tb):
    return ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(tb)[::-1][:5])


if __name__ == '__main__':
    main()
