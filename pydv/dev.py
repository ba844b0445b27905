"""Development driver: python -m pydv.dev <module> [unit substring]"""
import importlib, sys, time, os
sys.dont_write_bytecode = True
sys.path.insert(0, __import__('os').environ.get('PYDV_REPO', '/repo'))
sys.path.append('/opt/venv/lib/python3.12/site-packages')
from . import lang, unit
from .check import mine

def main():
    mod = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    from .check import load_specs
    for k, v in load_specs().items(): print('NOT LOADED', k, v)
    importlib.import_module('specs.' + mod)
    sec = float(os.environ.get('SEC', '60'))
    ns = float(os.environ.get('NS', '1'))
    ints, blobs, texts = mine()
    units = []
    for cs in lang.CONTRACTS.values():
        for c in cs: units.append((c.id, c))
    for t in lang.THEOREMS.values(): units.append((t.id, t))
    for uid, u in units:
        if pat not in uid or (u.__class__ is not None and not (mod in u.__dict__.get('fn', getattr(u, 'spec', None)).__module__)): continue
        dl = time.time() + sec
        if isinstance(u, lang.Theorem):
            x = unit.TheoremUnit(u, deadline=dl)
            if u.opts.get('bounded'): r = x.res
            else: r = x.explore()
            if ns:
                unit.search(u, 1, ns, ints, blobs, texts, r)
                unit.replay_failures(u, r)
        else:
            if u.opts.get('by'): continue
            x = unit.ContractUnit(u, deadline=dl)
            if x.fn is None: print('MISSING', uid); continue
            r = x.explore()
        print('%s %-50s ob %d/%d paths %d q %d solver %.1f wall %.1f used %s' % ('OK ' if r.ok() else 'FAIL', uid, r.discharged, r.obligations, r.paths, r.queries, r.solver_time, r.wall, sorted(r.used)), 'native', r.native_runs, r.native_skips)
        if os.environ.get('V'):
            print('   loops', r.loops)
        for f in r.failures[:6]: print('   ', f.brief(), [repr(x)[:200] for x in f.inputs[:2]], 'exact' if f.exact else '')
        for v in r.violations: print('   VIOLATION', repr(v)[:600])
        sys.stdout.flush()

if __name__ == '__main__': main()
