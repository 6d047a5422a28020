import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--mod', required=True)
    ap.add_argument('--seed', type=int, required=True)
    ap.add_argument('--session', required=True)
    ap.add_argument('--cases', type=int, required=True)
    ap.add_argument('--out', required=True)
    ap.add_argument('--only', type=int)
    ap.add_argument('--deep', action='store_true')
    a = ap.parse_args()
    with open(a.out, 'w') as out:
        ctx = core.Ctx(a.prop, a.seed, a.session, a.cases, out, a.only, a.deep)
        mod = importlib.import_module('vf.props.' + a.mod)
        mod.session(ctx)
        ctx.finish()


if __name__ == '__main__':
    main()
