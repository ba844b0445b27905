"""mutants.py gen N SEED OUT: random AST mutants of /repo/bitforge that pass the test suite, as patches in OUT.
   mutants.py run OUT [P ...]: run the checks of the properties the changed file belongs to, on scratch copies."""
import ast, copy, glob, json, os, random, subprocess, sys, tempfile, shutil, concurrent.futures as cf

MAP = {'encoding.py': 'C01 C02 C03', 'utils/encoding.py': 'C25 C01 C05', 'utils/intbytes.py': 'C02', 'tools.py': 'C02 C11 C15', 'privkey.py': 'C04 C08',
       'pubkey.py': 'C05', 'address.py': 'C06', 'networks.py': 'C24 C04 C06', 'utils/ecdsa.py': 'C07 C08', 'utils/ellipticcurve.py': 'C07',
       'utils/numbertheory.py': 'C07 C05', 'hdprivkey.py': 'C10 C09', 'hdpubkey.py': 'C10 C09', 'script/script.py': 'C11 C12 C14',
       'script/instruction.py': 'C13 C11 C12', 'script/opcode.py': 'C13', 'script/interpreter.py': 'C19 C20', 'signature.py': 'C21', 'unit.py': 'C22',
       'uri.py': 'C23', 'errors.py': 'C24', 'transaction/transaction.py': 'C16 C15 C17', 'transaction/input.py': 'C15 C17 C18', 'transaction/output.py': 'C18 C15'}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq, ast.GtE, ast.LtE], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mod], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd, ast.BitXor], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift]}


def sites(tree):
    for n in ast.walk(tree):
        if not isinstance(n, (ast.FunctionDef,)): continue
        for m in ast.walk(n):
            if isinstance(m, ast.Compare):
                for i, o in enumerate(m.ops):
                    for r in CMP.get(type(o), []): yield ('cmp', m, i, r)
            elif isinstance(m, ast.BinOp):
                for r in BIN.get(type(m.op), []): yield ('bin', m, None, r)
            elif isinstance(m, ast.BoolOp):
                yield ('bool', m, None, ast.Or if isinstance(m.op, ast.And) else ast.And)
                for i in range(len(m.values)): yield ('drop', m, i, None)
            elif isinstance(m, ast.UnaryOp) and isinstance(m.op, ast.Not): yield ('not', m, None, None)
            elif isinstance(m, ast.Constant) and type(m.value) is int:
                for d in (1, -1): yield ('const', m, d, None)
            elif isinstance(m, ast.Constant) and type(m.value) is bool: yield ('flip', m, None, None)
            elif isinstance(m, (ast.If, ast.While)): yield ('neg', m, None, None)
            elif isinstance(m, ast.Call) and len(m.args) >= 2: yield ('swap', m, random.randrange(len(m.args) - 1), None)
            elif isinstance(m, ast.Slice):
                if m.lower: yield ('slo', m, None, None)
                if m.upper: yield ('sup', m, None, None)
            if hasattr(m, 'body') and isinstance(m.body, list):
                for i, s in enumerate(m.body):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)): yield ('del', m, i, None)


def apply(s):
    k, m, i, r = s
    if k == 'cmp': m.ops[i] = r()
    elif k == 'bin': m.op = r()
    elif k == 'bool': m.op = r()
    elif k == 'drop': del m.values[i]
    elif k == 'not': m.op = ast.UAdd(); m.operand = ast.Call(ast.Name('bool'), [m.operand], [])
    elif k == 'const': m.value += i
    elif k == 'flip': m.value = not m.value
    elif k == 'neg': m.test = ast.UnaryOp(ast.Not(), m.test)
    elif k == 'swap': m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
    elif k == 'slo': m.lower = ast.BinOp(m.lower, ast.Add(), ast.Constant(1))
    elif k == 'sup': m.upper = ast.BinOp(m.upper, ast.Sub(), ast.Constant(1))
    elif k == 'del': m.body[i] = ast.Pass()


def lines_edit(src, mutated, orig):
    """Replace only the changed statement's lines: unparse the innermost changed statement."""
    a, b = ast.parse(src), mutated
    def walk(x, y):
        for f, v in ast.iter_fields(x):
            w = getattr(y, f)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                for p, q in zip(v, w):
                    if ast.dump(p) != ast.dump(q):
                        r = walk(p, q) if type(p) is type(q) and hasattr(p, 'body') and all(ast.dump(getattr(p, t)) == ast.dump(getattr(q, t)) for t in ('test', 'iter', 'args', 'target') if hasattr(p, t)) else None
                        return r or (p, q)
        return None
    p, q = walk(a, b)
    ls = src.split('\n')
    ind = ' ' * p.col_offset
    end = p.end_lineno
    new = [ind + l for l in ast.unparse(q).split('\n')]
    return '\n'.join(ls[:p.lineno - 1] + new + ls[end:])


def gen(n, seed, out):
    random.seed(seed)
    os.makedirs(out, exist_ok=True)
    alls = []
    for f in MAP:
        src = open('/repo/bitforge/' + f).read()
        k = sum(1 for _ in sites(ast.parse(src)))
        w = min(k, 60 if f == 'script/interpreter.py' else 40)
        alls += [(f, j) for j in random.sample(range(k), w)]
    random.shuffle(alls)

    def one(a):
        f, j = a
        src = open('/repo/bitforge/' + f).read()
        t = ast.parse(src)
        ss = list(sites(t))
        if j >= len(ss): return
        s = ss[j]
        apply(s)
        try:
            new = lines_edit(src, ast.fix_missing_locations(t), src)
            ast.parse(new)
        except Exception: return
        w = tempfile.mkdtemp(prefix='mutw.', dir='/tmp')
        try:
            subprocess.run('cp -a /repo/. %s' % w, shell=True, check=True)
            open(w + '/bitforge/' + f, 'w').write(new)
            try: p = subprocess.run('cd %s && /opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider >/dev/null 2>&1' % w, shell=True, timeout=60)
            except subprocess.TimeoutExpired: return
            if p.returncode: return
            d = subprocess.run('git diff', shell=True, cwd=w, capture_output=True, text=True).stdout
            if not d: return
            name = '%s-%d' % (f.replace('/', '_').replace('.py', ''), j)
            open('%s/%s.diff' % (out, name), 'w').write(d)
            json.dump({'file': f, 'kind': s[0]}, open('%s/%s.json' % (out, name), 'w'))
            return name
        finally:
            shutil.rmtree(w)
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        got = [x for x in ex.map(one, alls[:n]) if x]
    print(len(got), 'of', n)


def hash_(d):
    import hashlib
    return hashlib.md5(d.encode()).hexdigest()


def run(out, only):
    for d in sorted(glob.glob(out + '/*.diff'), key=lambda d: hash_(d)):
        name = os.path.basename(d)[:-5]
        res = d[:-5] + '.res'
        if os.path.exists(res): continue
        meta = json.load(open(d[:-5] + '.json'))
        w = tempfile.mkdtemp(prefix='mutr.', dir='/tmp')
        try:
            subprocess.run('cp -a /repo/. %s && cd %s && git apply %s' % (w, w, d), shell=True, check=True)
            line = ''
            for p in MAP[meta['file']].split():
                if only and p not in only: continue
                q = subprocess.run('cd %s && PYDV_REPO=%s timeout 900 python3-vt -B -m pydv.check %s --tier quick 2>&1' % (os.environ.get('VERIF', '/verif'), w, p), shell=True, capture_output=True, text=True)
                v = [l for l in q.stdout.split('\n') if l.startswith('VIOLATION')]
                line += ' %s:%d%s' % (p, q.returncode, 'n' if v and all('no-failing' in l for l in v) else '')
                if q.returncode == 1: break
            print(name, line, flush=True)
            open(res, 'w').write(line)
        finally:
            shutil.rmtree(w)


if __name__ == '__main__':
    if sys.argv[1] == 'gen': gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    else: run(sys.argv[2], sys.argv[3:])
