#!/opt/venv/bin/python
"""mutate.py PROP N SEED [qualname-regex]: random small mutations of the functions a property's check covers (source-level, one per copy);
runs the check against each and prints the survivors. A survivor is either an equivalent change or a gap of the check."""
import ast, glob, json, os, random, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("EVID", HERE + "/evidence")
EXTRA = {
    "C03": ["beep.structure.biologic:get_cycle_index"],
    "C13": ["beep.structure.base:BEEPDatapath.summarize_cycles", "beep.structure.base:get_CV_"],
    "C14": ["beep.structure.base:interpolate_df", "beep.structure.base:BEEPDatapath.interpolate_cycles", "beep.structure.base:BEEPDatapath.interpolate_step", "beep.structure.base:BEEPDatapath.interpolate_diagnostic_cycles"],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
SWAP = {"min": "max", "max": "min", "any": "all", "all": "any", "iloc": "loc", "startswith": "endswith", "first": "last", "last": "first", "cummax": "cummin"}


def sites(src, tree, want):
    out = []

    def seg(n):
        return ast.get_source_segment(src, n)

    def walk(node, q):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                walk(ch, q + [ch.name])
            else:
                if q and want(".".join(q)):
                    visit(ch, ".".join(q))
                walk2(ch, q)

    def walk2(node, q):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                walk(ch, q + [ch.name])
            else:
                if q and want(".".join(q)):
                    visit(ch, ".".join(q))
                walk2(ch, q)

    def add(n, text, q, kind):
        out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, text, q, kind))

    def visit(n, q):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "(%s %s %s)" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), q, "cmp")
        elif isinstance(n, ast.BoolOp):
            add(n, (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % seg(v) for v in n.values), q, "bool")
            add(n, seg(n.values[0]), q, "drop-clause")
            add(n, seg(n.values[-1]), q, "drop-clause")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                return
            add(n, "(%s %s %s)" % (seg(n.left), BIN[type(n.op)], seg(n.right)), q, "arith")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            add(n, repr(n.value + 1 if type(n.value) is int else n.value * 1.5 + 0.1), q, "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, repr(not n.value), q, "flag")
        elif isinstance(n, ast.If):
            add(n.test, "not (%s)" % seg(n.test), q, "negate")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if "logger" in seg(n) or "warn" in seg(n) or "print" in seg(n):
                return
            add(n, "pass", q, "delete")
        elif isinstance(n, ast.Continue):
            add(n, "pass", q, "delete")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            add(n, "%s.%s" % (seg(n.value), SWAP[n.attr]), q, "swap")
        elif isinstance(n, ast.Call) and n.keywords and len(n.keywords) > 0:
            k = random.Random(n.lineno).choice(n.keywords)
            s = seg(n)
            ks = "%s=%s" % (k.arg, seg(k.value))
            if k.arg and ks in s:
                t = s.replace(", " + ks, "", 1) if ", " + ks in s else s.replace(ks + ", ", "", 1) if ks + ", " in s else None
                if t:
                    add(n, t, q, "drop-kw")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, seg(n.operand), q, "negate")
    walk(tree, [])
    return out


def apply(src, s):
    lines = src.split("\n")
    l1, c1, l2, c2, text = s[:5]
    b1, b2 = lines[l1 - 1].encode(), lines[l2 - 1].encode()
    new = b1[:c1].decode() + text + b2[c2:].decode()
    return "\n".join(lines[:l1 - 1] + [new] + lines[l2:]), "\n".join(lines[l1 - 1:l2])


def main():
    prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rx = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
    ev = json.load(open("%s/%s.json" % (EVID, prop)))["coverage"]
    names = set(ev["functions_executed_symbolically"]) | set(EXTRA.get(prop, []))
    names = {re.sub(r"\.<locals>.*", "", x) for x in names}
    mods = {}
    for x in names:
        m, q = x.split(":")
        mods.setdefault(m, set()).add(q)
    pool = []
    for m, qs in sorted(mods.items()):
        f = REPO + "/" + m.replace(".", "/") + ".py"
        if not os.path.exists(f):
            continue
        src = open(f).read()
        classes = {c.name for c in ast.walk(ast.parse(src)) if isinstance(c, ast.ClassDef)}

        def want(q):
            return (rx is None or rx.search(q)) and any(q == x or q.startswith(x + ".") and x not in classes or (x.endswith("_") and q.startswith(x)) or (x in classes and q == x + ".__init__") for x in qs)
        pool += [(f, s) for s in sites(src, ast.parse(src), want)]
    rnd = random.Random(seed)
    rnd.shuffle(pool)
    W = "/tmp/mut%d" % os.getpid()
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, W], check=True)
    done = surv = 0
    for f, s in pool:
        if done >= n:
            break
        src = open(f).read()
        try:
            new, old = apply(src, s)
            ast.parse(new)
        except (SyntaxError, TypeError):
            continue
        w = W + f[len(REPO):]
        open(w, "w").write(new)
        try:
            p = subprocess.run(["./check.py", prop], cwd=HERE, env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True, timeout=600)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        open(w, "w").write(src)
        done += 1
        if rc != 1:
            surv += 1
            print("SURVIVED rc=%s %s %s:%d %s [%s]\n   - %s\n   + %s" % (rc, prop, os.path.relpath(f, REPO), s[0], s[5], s[6], old.strip()[:300], s[4][:200]), flush=True)
    print("%s: %d mutants of %d sites, %d survived" % (prop, done, len(pool), surv), flush=True)
    shutil.rmtree(W, ignore_errors=True)


main()
