"""Check of one property: verify its theorems and every contract they rely on, replay and cross-check natively.

usage: python3-vt -B -m pydv.check C01 [--tier quick|thorough] [--replay FILE] [-v]
"""
import ast
import base64
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pickle
import resource
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDV_REPO', '/repo')    # a scratch copy, in development only
for p in (VERIF, REPO):
    if p not in sys.path: sys.path.insert(0, p)
VENV = '/opt/venv/lib/python3.12/site-packages'
if VENV not in sys.path: sys.path.append(VENV)

CORES = min(8, os.cpu_count() or 1)
SPEC_MODULES = ['c%02d' % k for k in range(1, 26)]


def mine(root=REPO + '/bitforge'):
    """Literals of the code under test: seeds for generated inputs."""
    ints, blobs, texts = set(), set(), set()
    for d, _, fs in os.walk(root):
        if 'test' in d: continue
        for f in sorted(fs):
            if not f.endswith('.py'): continue
            try: tree = ast.parse(open(os.path.join(d, f), 'rb').read())
            except SyntaxError: continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    if type(n.value) is int: ints.add(n.value)
                    elif type(n.value) is bytes and n.value: blobs.add(n.value)
                    elif type(n.value) is str and 0 < len(n.value) < 80: texts.add(n.value)
    return sorted(ints), sorted(blobs), sorted(texts)


def load_specs():
    errs = {}
    for m in SPEC_MODULES:
        if not os.path.exists(os.path.join(VERIF, 'specs', m + '.py')): continue
        try: importlib.import_module('specs.' + m)
        except Exception: errs[m] = traceback.format_exc()
    return errs


# ----------------------------------------------------------------------------------------------
# tasks, each in its own process

def run_task(task, cfg):
    from . import core, lang, unit
    kind, uid = task[0], task[1]
    if task[-1] == 'again': core.Ctx.SLOW = 3
    if kind == 'thm':
        t = lang.THEOREMS[uid]
        u = unit.TheoremUnit(t, banned=cfg['banned'], deadline=time.time() + t.opts.get('budget', cfg['unit_s']), recheck=cfg['recheck'])
        r = u.explore()
        if r.failures: unit.replay_failures(t, r)
    elif kind == 'bmc':
        t = lang.THEOREMS[uid]
        u = unit.TheoremUnit(t, banned=cfg['banned'], deadline=time.time() + 45)
        u.unroll_bound = task[2]
        u.explore()
        r = u.res
        unit.replay_failures(t, r)
    elif kind == 'con':
        c = [c for cs in lang.CONTRACTS.values() for c in cs if c.id == uid][0]
        u = unit.ContractUnit(c, banned=cfg['banned'], deadline=time.time() + c.opts.get('budget', cfg['unit_s']), recheck=cfg['recheck'])
        if u.fn is None:
            r = u.res
            r.skipped = True
        elif c.opts.get('assume'):
            r = u.res
            unit.check_assumed(c, u.fn, cfg, r)
        else: r = u.explore()
    else:
        t = lang.THEOREMS[uid]
        r = unit.Result(uid)
        unit.search(t, '%s/%s' % (cfg['seed'], task[3]), task[2], cfg['ints'], cfg['blobs'], cfg['texts'], r)
    vio = []
    for (tid, args, msg) in r.violations:
        try: blob = base64.b64encode(pickle.dumps(args)).decode()
        except Exception: blob = None
        try: rp = repr(args)[:4000]
        except Exception: rp = '<unprintable>'
        vio.append((tid, rp, msg, blob))
    r.violations = vio
    for f in r.failures: f.inputs = [repr(i)[:500] for i in f.inputs[:3]]
    return r


def child(task, cfg, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(5000)
        r = run_task(task, cfg)
        conn.send(('ok', r))
    except BaseException:
        conn.send(('err', traceback.format_exc()))
    finally:
        conn.close()


class Pool(object):
    def __init__(self, cfg, hard):
        self.cfg, self.hard = cfg, hard
        self.ctx = multiprocessing.get_context('fork')
        self.running = {}
        self.queue = []

    def put(self, task, limit, front=False):
        self.queue.insert(0 if front else len(self.queue), (task, limit))

    def results(self):
        while self.queue or self.running:
            while self.queue and len(self.running) < CORES and time.time() < self.hard:
                task, limit = self.queue.pop(0)
                a, b = self.ctx.Pipe(False)
                p = self.ctx.Process(target=child, args=(task, dict(self.cfg), b))
                p.start()
                b.close()
                self.running[a] = (p, task, time.time() + limit)
            if time.time() >= self.hard:
                for a, (p, task, _) in self.running.items(): p.kill()
                left = [t for t, _ in self.queue] + [t for _, t, _ in self.running.values()]
                self.queue, self.running = [], {}
                for t in left: yield t, None, 'overall time limit'
                return
            for a in multiprocessing.connection.wait(list(self.running), 0.5):
                p, task, _ = self.running.pop(a)
                try: st, r = a.recv()
                except (EOFError, OSError): st, r = 'err', 'worker died'
                p.join()
                a.close()
                yield (task, r, None) if st == 'ok' else (task, None, r)
            now = time.time()
            for a in [a for a, (_, _, dl) in self.running.items() if now > dl]:
                p, task, _ = self.running.pop(a)
                p.kill()
                p.join()
                a.close()
                yield task, None, 'time limit'


def source_digest():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(REPO + '/bitforge')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(f.encode())
                h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()


TRUSTED = [
    'z3 and (for the obligations it re-checks) cvc5',
    'the verification-condition generator in /verif/pydv: its symbolic semantics of the Python subset, its axioms for '
    'byte sequences, positional numbers, powers and hexadecimal, and its models of built-ins (cross-checked against CPython '
    'by running every theorem natively on generated inputs)',
    'hashlib/hmac digests are uninterpreted functions of their input with the standard output length',
    'Python integers are mathematical integers (no bound is assumed)',
]


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        k = argv.index('--tier')
        tier = argv[k + 1]
        del argv[k:k + 2]
    verbose = '-v' in argv
    argv = [a for a in argv if a != '-v']
    if '--replay' in argv:
        return replay(argv[argv.index('--replay') + 1])
    prop = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    errs = load_specs()
    from . import lang, unit, props
    meta = props.META[prop]
    thms = [t for t in lang.THEOREMS.values() if t.prop == prop]
    ints, blobs, texts = mine()
    thorough = tier == 'thorough'
    hard = t0 + (2400 if thorough else 720)
    cfg = {'banned': set(), 'unit_s': 600 if thorough else 200, 'recheck': thorough, 'seed': seed,
           'ints': ints, 'blobs': blobs, 'texts': texts}
    pool = Pool(cfg, hard)
    proof_thms = [t for t in thms if not t.opts.get('bounded')]
    nat = max(2.0, min(15.0, (CORES * 18.0) / max(1, len(thms)))) * (10 if thorough else 1)
    for t in sorted(proof_thms, key=lambda t: -t.opts.get('cost', 0)): pool.put(('thm', t.id), cfg['unit_s'] + 60)
    for t in thms:
        w = t.opts.get('weight', 1)
        for k in range(int(max(1, w))):
            s = nat * min(1, w) if not t.opts.get('finite') else nat
            pool.put(('nat', t.id, s, k), s * 4 + 120)
    results, natres, undecided, violations = {}, {}, {}, []
    requested = set()
    uses = {}
    bmc_done, retried = set(), set()
    own = {t.id for t in thms}
    for task, r, err in pool.results():
        kind, uid = task[0], task[1]
        if verbose: print('done', task, err.strip().splitlines()[-1] if err else (r.ok() if kind in ('thm', 'con') else r.native_runs), '' if r is None else '%.1fs' % r.wall, flush=True)
        if err:
            if kind in ('thm', 'con'): undecided[uid] = err
            elif kind == 'nat': undecided.setdefault('native:' + uid, err)
            if kind == 'con': newban(pool, cfg, uid, uses, results, undecided)
            continue
        if kind == 'con' or uid in own: violations += r.violations
        if kind == 'nat':
            o = natres.get(uid)
            natres[uid] = ((o[0] if o else 0) + r.native_runs, (o[1] if o else 0) + r.native_skips, (o[2] if o else set()) | r.distinct)
            continue
        if kind == 'bmc': continue
        if not r.ok() and not r.violations and not r.skipped and uid not in retried and r.wall < 60 and time.time() - t0 < 200 and \
                not any(f.status == 'sat' and f.exact for f in r.failures):
            retried.add(uid)        # solver limits are wall clock: a second run, with longer limits, decides
            pool.put((kind, uid, 'again'), cfg['unit_s'] + 60)
            continue
        results[uid] = r
        undecided.pop(uid, None)
        uses[uid] = set(r.used)
        for c in r.used:
            if c in cfg['banned']: 
                pool.put((kind, uid), cfg['unit_s'] + 60)
                break
            if c not in requested:
                requested.add(c)
                con = lang.CONTRACT_IDS()[c]
                if not con.opts.get('by'): pool.put(('con', c), cfg['unit_s'] + 60, front=True)
                for t in lang.support(con):
                    if t.id not in requested and t.id not in own:
                        requested.add(t.id)
                        pool.put(('thm', t.id), cfg['unit_s'] + 60)
        if kind == 'con' and not r.ok():
            newban(pool, cfg, uid, uses, results, undecided)
        if kind == 'thm' and uid in own and not r.ok() and not r.violations and uid not in bmc_done:
            bmc_done.add(uid)
            if any(f.status != 'sat' or not f.exact for f in r.failures):
                pool.put(('bmc', uid, 4), 120)
    wall = time.time() - t0
    return report(prop, tier, seed, wall, meta, thms, results, natres, undecided, violations, cfg, errs, verbose)


def newban(pool, cfg, cid, uses, results, undecided):
    """A contract that is not proved may not be used: redo whoever relied on it, with the callee inlined."""
    cfg['banned'].add(cid)
    for uid, us in list(uses.items()):
        if cid in us:
            uses[uid] = set()
            kind = 'con' if uid.startswith('contract:') else 'thm'
            if uid in cfg['banned']: continue
            pool.put((kind, uid), cfg['unit_s'] + 60)


def report(prop, tier, seed, wall, meta, thms, results, natres, undecided, violations, cfg, errs, verbose):
    from . import lang
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    lines = []
    out = []
    # definite failures without a concrete input
    proved, degraded, bounded = [], {}, []
    nolive = []
    for t in thms:
        if t.opts.get('bounded'):
            bounded.append(t.id)
            continue
        r = results.get(t.id)
        if r is None:
            degraded[t.id] = 'no result: %s' % undecided.get(t.id, '?').strip().splitlines()[-1]
        elif r.ok(): proved.append(t.id)
        else:
            ex = [f for f in r.failures if f.status == 'sat' and f.exact and not f.inputs]    # a counter-model that was run and holds decides nothing
            if ex and not any(v[0] == t.id for v in violations): nolive.append((t.id, ex[0]))
            degraded[t.id] = '; '.join(f.brief() for f in r.failures[:3]) or 'no obligation was reached'
    # a theorem that uses a contract shown by other theorems stands only if those do
    shown, byassumed = {}, {}
    for c in {c for r in results.values() for c in r.used}:
        con = lang.CONTRACT_IDS().get(c)
        if con is None or not con.opts.get('by'): continue
        sup = lang.support(con)
        shown[c] = [t.id for t in sup]
        if not sup or con.opts.get('note'): byassumed[c] = con.opts.get('note') or 'not shown by a theorem'
        bad = [t.id for t in sup if not (t.id in results and results[t.id].ok())]
        for tid in list(proved):
            if bad and c in results[tid].used:
                proved.remove(tid)
                degraded[tid] = 'relies on %s, not proved here' % bad[0]
    seen = set()
    n = 0
    for (tid, rp, msg, blob) in violations:
        if tid in seen: continue
        seen.add(tid)
        n += 1
        path = os.path.join(ev, 'replay_%s_%d.json' % (prop, n))
        json.dump({'property': prop, 'theorem': tid, 'inputs': rp, 'message': msg, 'pickle': blob,
                   'rerun': 'cd /verif && python3-vt -B -m pydv.check --replay %s' % path,
                   'verifier': degraded.get(tid, '')}, open(path, 'w'), indent=1)
        out.append('VIOLATION property=%s replay=%s' % (prop, path))
        lines.append('%s fails on %s: %s' % (tid, rp[:300], msg[:300]))
    if not violations:
        for tid, f in nolive:
            n += 1
            path = os.path.join(ev, 'replay_%s_%d.json' % (prop, n))
            json.dump({'property': prop, 'theorem': tid, 'failed_obligation': f.label, 'verifier': f.detail, 'model_inputs': f.inputs}, open(path, 'w'), indent=1)
            out.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
            lines.append('%s: obligation refuted by the solver: %s' % (tid, f.label))
    used = set()
    stack = [t.id for t in thms]
    while stack:
        u = stack.pop()
        r = results.get(u)
        if r is None: continue
        for c in r.used:
            if c not in used:
                used.add(c)
                stack.append(c)
    rel = [results[u] for u in [t.id for t in thms] + sorted(used) + sorted({t for c in shown if c in used for t in shown[c]} - {t.id for t in thms}) if u in results]
    obl = sum(r.obligations for r in rel)
    dis = sum(r.discharged for r in rel)
    solver = sum(r.solver_time for r in rel)
    funcs = sorted({f for r in rel for f in r.functions if f.startswith('bitforge')})
    evals = sum(a for a, b, c in natres.values())
    skips = sum(b for a, b, c in natres.values())
    level = meta['level']
    cov = {
        'obligations': obl, 'discharged': dis,
        'checker_cmd': 'python3-vt -B -m pydv.check %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED + meta.get('trusted', []),
        'theorems_proved': proved, 'theorems_bounded_by_design': bounded, 'theorems_not_proved_on_this_tree': degraded,
        'contracts_proved_and_used': sorted(c for c in used if c in results and results[c].ok() and not results[c].trusted),
        'contracts_assumed': sorted(c for c in used if c in results and results[c].trusted),
        'contracts_shown_by_theorems': shown,
        'contracts_not_proved': {c: (results[c].failures[0].brief() if c in results and results[c].failures else undecided.get(c, '')[-300:]) for c in sorted(cfg['banned'])},
        'functions_under_contract_or_inlined': funcs,
        'paths': sum(r.paths for r in rel), 'solver_queries': sum(r.queries for r in rel), 'solver_seconds': round(solver, 1),
        'backends': {'z3': obl - sum(r.cvc5[1] for r in rel) if tier != 'thorough' else obl, 'cvc5_rechecked': sum(r.cvc5[0] for r in rel), 'cvc5_agreed_unsat': sum(r.cvc5[1] for r in rel)},
        'loop_invariants': {k: v for r in rel for k, v in r.loops.items()},
        'evaluations': evals, 'native_inputs_skipped': skips,
        'rule': 'native cross-check of every theorem on generated inputs (boundary values, literals of the code, random); evaluations are completed runs of a theorem, distinct_nontrivial the different inputs per theorem',
        'distinct_nontrivial': sum(len(c) for a, b, c in natres.values()),
        'source_sha256': source_digest(),
    }
    if bounded or degraded:
        cov['explanation'] = 'theorems listed as bounded or not proved are decided on this run only by the native evaluation of the generated inputs (a bounded check, never counted as proved)'
    if errs: cov['spec_modules_not_loaded'] = {k: v.strip().splitlines()[-1] for k, v in errs.items()}
    kf = known_findings(prop)
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': level if not degraded or level != 'proof' else 'exploration',
         'coverage': cov, 'assumptions': meta.get('assumptions', []) + sorted({a for r in rel for a in r.assumed}) + ['%s: %s' % (k, v) for k, v in sorted(byassumed.items())], 'wall_s': round(wall, 1), 'violations': len(out)}
    samples = [{'theorem': t.id, 'obligation': l, 'paths': c} for t in thms if t.id in results for l, c in list(results[t.id].labels.items())[:2]]
    cov['samples'] = samples[:20] or [t.id for t in thms]
    json.dump(e, open(os.path.join(ev, prop + '.json'), 'w'), indent=1, default=str)
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for l in lines: print(l)
    if not thms or (not proved and not degraded and not bounded): 
        print('no theorem for %s' % prop)
        return 2
    if evals == 0 and not results:
        print('nothing was checked for %s: %s %s' % (prop, undecided, errs))
        return 2
    print('%s %s: %d theorems (%d proved, %d not proved here, %d bounded), %d contracts, %d/%d obligations, %d native runs, %.0f s' % (
        prop, tier, len(thms), len(proved), len(degraded), len(bounded), len(used), dis, obl, evals, wall))
    if verbose or degraded:
        for k, v in degraded.items(): print('  not proved: %s -- %s' % (k, v[:600]))
        for c in sorted(cfg['banned']): print('  contract not proved: %s -- %s' % (c, str(cov['contracts_not_proved'].get(c))[:600]))
        for k, v in undecided.items(): print('  undecided: %s -- %s' % (k, v.strip().splitlines()[-1] if not verbose else v))
    for o in out: print(o)
    return 1 if out else 0


def known_findings(prop):
    """Recorded defects that still fail on this tree."""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path): return []
    out = []
    for f in json.load(open(path)).get('known', []):
        if f['property'] != prop: continue
        ns = {}
        try:
            exec(f['still_fails'], ns)
            if ns['fails'](): out.append(f['what'])
        except Exception: pass
    return out


def replay(path):
    load_specs()
    from . import lang, unit
    d = json.load(open(path))
    t = lang.THEOREMS[d['theorem']]
    args = pickle.loads(base64.b64decode(d['pickle']))
    msg = unit.run_native(t, args)
    print('inputs: %r' % (args,))
    print('result: %s' % (msg or 'holds'))
    return 1 if msg else 0


if __name__ == '__main__':
    sys.exit(main())
