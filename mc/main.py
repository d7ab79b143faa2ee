import argparse, importlib, os, sys, warnings

def _go():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    a = ap.parse_args()
    from mc import core
    try:
        warnings.simplefilter('ignore')
        mod = importlib.import_module('checks.' + a.prop.lower())
        import numpy as np
        np.seterr(all='ignore')
        check = mod.CHECK(a.prop) if isinstance(mod.CHECK, type) else mod.CHECK
        return core.main(check, a.tier, a.only)
    except BaseException as e:
        import traceback, json
        if isinstance(e, SystemExit) and e.code in (0, 1):
            raise
        d = os.path.join(core.VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, a.prop + '.json')
        json.dump({'property': a.prop, 'error': traceback.format_exc()}, open(p, 'w'), indent=1)
        traceback.print_exc()
        json.dump({'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
                   'level': 'model_checking', 'coverage': {'evaluations': 0, 'states': 0}, 'wall_s': 0, 'violations': 1},
                  open(os.path.join(core.VERIF, 'evidence', a.prop + '.json'), 'w'))
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
        return 1

if __name__ == '__main__':
    rc = _go()
    sys.stdout.flush()
    os._exit(rc)
