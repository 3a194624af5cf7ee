"""dev driver: python3 runob.py MODULE [filter]"""
import sys, importlib, signal, json, time
sys.path.insert(0, '/verif/engine'); sys.path.insert(0, '/verif/specs')
sys.setrecursionlimit(20000)
import program, spec
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
prog = None
def one(i):
    def h(*a): raise TimeoutError()
    signal.signal(signal.SIGALRM, h); signal.alarm(100)
    r = spec.run_ob(prog, spec.REG[i]); signal.alarm(0)
    return r
if __name__ == '__main__':
    mods = sys.argv[1].split(',')
    for m in mods: importlib.import_module(m)
    flt = sys.argv[2] if len(sys.argv) > 2 else ''
    verbose = len(sys.argv) > 3
    prog = program.load()
    idx = [i for i, e in enumerate(spec.REG) if flt in e[0] + ' ' + e[1]]
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        for r in ex.map(one, idx):
            vs = {}
            for x in r['res']: vs.setdefault(x['verdict'], []).append(x)
            print('%-60s %s %.1fs' % (r['prop'] + ' ' + r['label'], {k: len(v) for k, v in vs.items()}, r['wall']), r['events'].get('undecided') or '')
            for x in r['res']:
                if x['verdict'] != 'proved' or verbose:
                    print('     ', x['verdict'], x['what'], x['where'] or '', json.dumps(x['detail'], default=str)[:1200 if not verbose else 4000])
            if 'trace' in r: print(r['trace'])
