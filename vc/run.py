import json, sys, time, fnmatch, importlib, glob, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from prove import *
MODS = [os.path.basename(f)[:-3] for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 's_*.py')))]


def load_specs():
    for m in MODS:
        importlib.import_module(m)


if __name__ == '__main__':
    d = json.load(open(os.environ.get('MIR', '/tmp/mir/orchard.json')))
    load_types(d)
    load_specs()
    ex = Ex(d, M, REG)
    pats = sys.argv[1:] or ['*']
    for n, con in REG.items():
        if any(fnmatch.fnmatchcase(n.replace('[', '('), p.replace('[', '(')) or p in con.props for p in pats):
            r = verify(ex, con)
            print('%-11s %4d %6.2fs %s' % (r.status, r.obligations, r.seconds, n), flush=True)
            if r.status != 'proved':
                print('     ', json.dumps(r.detail, indent=1)[:int(os.environ.get('W', '900'))])
            if '-v' in sys.argv:
                print('      ', r.used)
