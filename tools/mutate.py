#!/opt/venv/bin/python
"""Mutation campaign, in scratch copies only: every small syntactic change of the package that passes the stable tests is
shown to the checks of the part it is in.

usage: mutate.py list | run WORKDIR [file substring] ; results are appended to WORKDIR/results.jsonl"""
import ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading
ROOT = 'PyCTBN/PyCTBN'
CHECKS = {
    'utility/abstract_importer': ['C01', 'C03', 'C02'], 'utility/sample_importer': ['C01', 'C02', 'C03'],
    'utility/json_importer': ['C02', 'C03', 'C21', 'C01'], 'utility/cache': ['C13'], 'utility/json_exporter': ['C21'],
    'utility/abstract_exporter': ['C21'], 'structure_graph/abstract_sample_path': ['C03', 'C02'], 'structure_graph/sample_path': ['C03', 'C02', 'C14', 'C23'],
    'structure_graph/trajectory.py': ['C01', 'C03', 'C04'], 'structure_graph/structure': ['C22', 'C03', 'C04'],
    'structure_graph/network_graph': ['C22', 'C04', 'C06', 'C08'], 'structure_graph/set_of_cims': ['C06', 'C05', 'C04', 'C12', 'C17'],
    'structure_graph/conditional_intensity_matrix': ['C05', 'C04', 'C12', 'C07'], 'structure_graph/network_generator': ['C16', 'C17'],
    'structure_graph/trajectory_generator': ['C18', 'C19', 'C20', 'C21'], 'estimators/parameters_estimator': ['C04', 'C05'],
    'estimators/fam_score_calculator': ['C07', 'C08'], 'estimators/structure_estimator': ['C15', 'C23', 'C14', 'C11', 'C13'],
    'estimators/structure_constraint_based_estimator': ['C12', 'C11', 'C13', 'C14', 'C23'],
    'estimators/structure_score_based_estimator': ['C09', 'C10', 'C08', 'C14', 'C23'],
    'optimizers/hill_climbing_search': ['C09', 'C23'], 'optimizers/tabu_search': ['C10', 'C23'], 'optimizers/constraint_based_optimizer': ['C11', 'C14'],
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*'}


class Source:
    def __init__(self, text):
        self.text = text
        self.starts = [0]
        for l in text.encode().splitlines(True):
            self.starts.append(self.starts[-1] + len(l))
        self.b = text.encode()

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()


def mutants(text):
    s = Source(text)
    out = []

    def put(n, new, what):
        a, b = s.span(n)
        out.append((a, b, new, '%d: %s -> %s (%s)' % (n.lineno, re.sub(r'\s+', ' ', s.seg(n))[:70], re.sub(r'\s+', ' ', new)[:70], what)))

    def visit(n, doc):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                continue
            if isinstance(c, ast.FunctionDef):
                for d in c.args.defaults:
                    one(d)
                for b in c.body:
                    if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)):
                        one(b)
                        visit(b, doc)
                continue
            one(c)
            visit(c, doc)

    def one(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(n, '(%s %s %s)' % (s.seg(n.left), CMP[type(n.ops[0])], s.seg(n.comparators[0])), 'comparison')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, '(%s %s %s)' % (s.seg(n.left), BIN[type(n.op)], s.seg(n.right)), 'arithmetic')
        elif isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + w.join('(%s)' % s.seg(v) for v in n.values) + ')', 'connective')
            for v in n.values:
                put(n, '(%s)' % s.seg(v), 'one operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % s.seg(n.operand), 'negation')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, '(%s)' % s.seg(n.operand), 'sign')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), 'truth value')
            elif isinstance(n.value, (int, float)):
                put(n, '(%r)' % (n.value + 1), 'constant')
                put(n, '(%r)' % (n.value - 1), 'constant')
        elif isinstance(n, (ast.If, ast.While)) or isinstance(n, ast.IfExp):
            put(n.test, '(not (%s))' % s.seg(n.test), 'condition')
            if isinstance(n, ast.If):
                put(n.test, 'True', 'condition')
                put(n.test, 'False', 'condition')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            lo, up = n.slice.lower, n.slice.upper
            if lo is not None:
                put(lo, ' ', 'slice')
            if up is not None:
                put(up, ' ', 'slice')
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                put(i, 'True', 'filter')
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args[0], n.args[1]
            x, y = s.span(a)[0], s.span(b)[1]
            out.append((x, y, '%s, %s' % (s.seg(b), s.seg(a)), '%d: arguments of %s swapped' % (n.lineno, s.seg(n.func)[-40:])))
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                return
            put(n, 'pass', 'statement removed')
        if isinstance(n, ast.AugAssign):
            o = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}.get(type(n.op))
            if o:
                put(n, '%s %s %s' % (s.seg(n.target), o, s.seg(n.value)), 'arithmetic')
        if isinstance(n, (ast.Break, ast.Continue)):
            put(n, 'pass', 'statement removed')
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, 'return None', 'return value')

    visit(ast.parse(text), None)
    seen, res = set(), []
    for a, b, new, d in out:
        t = (s.b[:a] + new.encode() + s.b[b:]).decode()
        if t in seen:
            continue
        seen.add(t)
        try:
            compile(t, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        res.append((d, t))
    return res


def files(repo):
    for d, _, fs in sorted(os.walk(os.path.join(repo, ROOT))):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), os.path.join(repo, ROOT))
            if any(k in p for k in CHECKS):
                yield p


def checks_of(p):
    return next(v for k, v in CHECKS.items() if k in p)


def sh(cmd, timeout, **k):
    try:
        return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True, **k)
    except subprocess.TimeoutExpired:
        return None


def main():
    repo = '/repo'
    if sys.argv[1] == 'list':
        tot = 0
        for p in files(repo):
            m = mutants(open(os.path.join(repo, ROOT, p)).read())
            tot += len(m)
            print(p, len(m))
        print(tot)
        return
    work = sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else ''
    os.makedirs(work, exist_ok=True)
    verif = os.path.join(work, 'verif')
    shutil.rmtree(verif, ignore_errors=True)
    sh('git clone -q %s %s && mkdir -p %s/evidence' % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), verif, verif), 60)
    # the design models do not depend on the code: leave them out of this copy
    v = os.path.join(verif, 'harness', 'vf.py')
    t = open(v).read()
    t = t.replace("        cfg = cfg or module + '.cfg'\n        t = time.time()\n", "        return ''\n", 1)
    k = os.environ.get('MUT_SCALE', '3')     # a fraction of the scenarios first; survivors deserve a second look in full
    t = t.replace("return quick if self.quick else thorough", "return max(1, quick // %s) if isinstance(quick, int) else quick" % k, 1)
    open(v, 'w').write(t)
    resf = os.path.join(work, 'results.jsonl')
    done = set()
    if os.path.exists(resf):
        done = {(r['file'], r['what']) for r in map(json.loads, open(resf))}
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('stable') or base.get('passed') or base.get('tests'))
    todo = []
    for p in files(repo):
        if only in p:
            for d, t in mutants(open(os.path.join(repo, ROOT, p)).read()):
                if (p, d) not in done:
                    todo.append((p, d, t))
    random.Random(1).shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    lock, tl = threading.Lock(), threading.local()
    ids = iter(range(100))
    gate = threading.Semaphore(int(os.environ.get('MUT_CHECKS', '2')))

    def work_on(item):
        p, d, t = item
        if not hasattr(tl, 'dir'):
            with lock:
                tl.dir = os.path.join(work, 'r%d' % next(ids))
            shutil.rmtree(tl.dir, ignore_errors=True)
            sh('cp -a %s %s' % (repo, tl.dir), 100)
            for n in ('test', 'build'):
                x = open('/opt/vp/%s.sh' % n).read().replace('/repo', tl.dir)
                open('%s-%s.sh' % (tl.dir, n), 'w').write(x)
        f = os.path.join(tl.dir, ROOT, p)
        good = open(os.path.join(repo, ROOT, p)).read()
        r = dict(file=p, what=d)
        try:
            open(f, 'w').write(t)
            o = tl.dir + '-t.json'
            if os.path.exists(o):
                os.unlink(o)
            x = sh('bash %s-test.sh %s' % (tl.dir, o), 90)
            ok = x is not None and os.path.exists(o) and stable <= set(json.load(open(o))['passed'])
            if not ok:
                r['result'] = 'tests'
            else:
                r['result'] = 'SURVIVED'
                r['rc'] = {}
                for c in checks_of(p):
                    with gate:
                        x = sh('VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=%s /opt/venv/bin/python harness/check.py %s quick' % (tl.dir, c), 900, cwd=verif)
                    rc = -1 if x is None else x.returncode
                    r['rc'][c] = rc
                    if rc == 1:
                        m = re.search(r'clauses (.*)', x.stdout.decode())
                        r.update(result=c, clause=m.group(1) if m else '')
                        break
                    if rc not in (0, 1):
                        r['out'] = '' if x is None else x.stdout.decode()[-400:]
        finally:
            open(f, 'w').write(good)
        with lock:
            with open(resf, 'a') as h:
                h.write(json.dumps(r) + '\n')

    with cf.ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '6'))) as ex:
        for x in ex.map(work_on, todo):
            pass


if __name__ == '__main__':
    main()
