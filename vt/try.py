"""Developer helper: try.py DRIVER TRACEMODULE MODE N SEED [objects] - run and show the first rejected line."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
def show(drv, mod, mode, n, seed, script=None, ctx=0, **kw):
    try:
        e = lib.build_driver(drv, **kw)
    except lib.CheckError as x:
        print('\n'.join([q for q in str(x).splitlines() if 'error' in q][:12])); sys.exit(2)
    os.makedirs('/tmp/w', exist_ok=True)
    f = '/tmp/w/%s-%s-%s.ndjson' % (drv, mode, seed)
    st = lib.run_driver(e, f, seed, n, mode, script)
    r = lib.tlc(mod, env={'TRACE': f}, timeout=600)
    L = open(f).read().splitlines()
    print(drv, mode, seed, st[0], 'accepted' if r.ok else 'REJECTED', 'lines', len(L), 'tlc %.1fs' % r.wall, 'gen', r.generated)
    if st[0] != 'ok': print('\n'.join([q[:160] for q in st[1].splitlines() if 'ERROR' in q or '    #' in q or 'terminate' in q or 'what' in q][:7]))
    if not r.ok:
        if 'REJECTED' not in r.out: print('\n'.join(x[:300] for x in r.out.splitlines() if x.strip() and not x.startswith(('Running','TLC2','Parsing','Semantic','Residual','Starting','Finished')))[:1200])
        for k in range(max(0, r.depth - 1 - ctx), min(len(L), r.depth)):
            print(k + 1, L[k][:420])
    return r.ok
if __name__ == '__main__':
    a = sys.argv
    kw = {}
    if a[1].startswith('sql'): kw['sqlite'] = True
    if len(a) > 6: kw['objects'] = tuple(a[6].split(','))
    show(a[1], a[2], a[3], int(a[4]), int(a[5]), **kw)
