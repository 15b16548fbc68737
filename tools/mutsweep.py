"""Systematic mutants of naima: python3 tools/mutsweep.py gen OUT.json [FILES] | tests OUT.json | checks OUT.json
gen: every mutant of the operators below; tests: drops those the stable tests kill; checks: runs
the checks of the file on the survivors, in a scratch copy, and records which catches it first."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile
from multiprocessing import Pool
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SRC = "/repo/src/naima/"
CHECKS = {"analysis.py": "C19 C20 C02", "core.py": "C14 C13 C15 C17 C16 C23 C02", "plot.py": "C21 C22 C27 C20 C02",
          "model_fitter.py": "C23 C02", "models.py": "C06 C07 C08 C05 C25 C02 C01",
          "radiative.py": "C03 C04 C26 C05 C25 C02 C01", "utils.py": "C09 C10 C11 C12 C13",
          "extern/minimize.py": "C18 C17", "extern/validator.py": "C25 C10 C05 C12", "model_utils.py": "C01 C02 C06",
          "sherpa_models.py": "C24"}
# absolute cross sections (C28) and code without results
SKIP = set("""_iso_ic_on_planck _ani_ic_on_planck _iso_ic_on_monochromatic _sigma_1 _sigma_2 _sigma_ee_rel
 _sigma_ee_nonrel _sigma_ee _sigma_ep _F Gtilde G12 G34 _sigma_inel _sigma_pi_loE _sigma_pi_midE
 _sigma_pi_hiE _sigma_pi _b_params _calc_EpimaxLAB _calc_Egmax _Amax _F_func _kappa _mu _diffsigma
 _nuclear_factor _Fgamma _calc_specpp_hiE _delta_integrand _photon_integrand heaviside _calc_lut_pp
 generate_lut_pp _run_mcmc""".split())
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.Pow: "*"}


def mutants(path):
    s = open(SRC + path).read()
    tree = ast.parse(s)
    lines = s.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    b = s.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(n, i, j, new, what):
        t = (b[:i] + new.encode() + b[j:])
        try:
            ast.parse(t)
        except SyntaxError:
            return
        out.append(dict(file=path, line=n.lineno, i=i, j=j, new=new, old=b[i:j].decode(), what=what))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            fn = getattr(n, "name", fn)
        if fn in SKIP:
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, c = pos(n.left)[1], pos(n.comparators[0])[0]
            for o in CMP.get(type(n.ops[0]), []):
                add(n, a, c, " %s " % o, "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            a, c = pos(n.left)[1], pos(n.right)[0]
            m = re.sub(rb"[-+*/&|%@]+", BIN[type(n.op)].encode(), b[a:c], count=1)
            add(n, a, c, m.decode(), "bin")
        if isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                a, c = pos(x)[1], pos(y)[0]
                m = b[a:c].decode()
                add(n, a, c, m.replace("and", "or") if "and" in m else m.replace("or", "and"), "bool")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            a, c = pos(n)[0], pos(n.operand)[0]
            add(n, a, c, "", "unary")
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            i, j = pos(n)
            if isinstance(n.value, bool):
                add(n, i, j, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, i, j, str(n.value + 1), "const")
                if n.value == 1:
                    add(n, i, j, "0", "const")
            elif isinstance(n.value, float):
                add(n, i, j, repr(n.value * 1.5 if n.value else 0.5), "const")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            i, j = pos(n.test)
            add(n, i, j, "True" if not isinstance(n, ast.While) else "False", "cond")
            add(n, i, j, "False", "cond")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    i, j = pos(k)
                    m = re.match(rb"\s*,", b[j:])
                    add(n, i, j + (m.end() if m else 0), "", "kw")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and fn:
            i, j = pos(n)
            if not b[i:j].startswith((b"log.", b"print")):
                add(n, i, j, "pass", "stmt")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "flatten", "decompose") and not n.args:
            i, j = pos(n)
            add(n, i, j, b[slice(*pos(n.func.value))].decode(), "drop")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp):
            i, j = pos(n.slice)
            add(n, i, j, "0", "idx")
        if isinstance(n, (ast.Raise,)):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "log" and n.func.attr in ("info", "debug", "warning", "error"):
            return
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    visit(tree, None)
    return out


def copy(m):
    t = tempfile.mkdtemp(prefix="ms_")
    shutil.copytree("/repo/src", t + "/src", ignore=shutil.ignore_patterns("__pycache__"))
    for x in ("tests", "pyproject.toml", "README.rst", "examples", "docs"):
        if os.path.isdir("/repo/" + x):
            os.symlink("/repo/" + x, t + "/" + x) if x != "tests" else shutil.copytree("/repo/tests", t + "/tests")
        elif os.path.exists("/repo/" + x):
            shutil.copy("/repo/" + x, t)
    p = t + "/src/naima/" + m["file"]
    b = open(p, "rb").read()
    open(p, "wb").write(b[:m["i"]] + m["new"].encode() + b[m["j"]:])
    return t


def test(m):
    t = copy(m)
    try:
        os.mkdir(t + "/cwd")
        env = dict(os.environ, PYTHONPATH=t + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
        p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--rootdir=" + t, "-p", "no:xdist",
                            "--randomly-seed=1", "--randomly-dont-reorganize", t + "/tests"], cwd=t + "/cwd", env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        return dict(m, tests="pass" if p.returncode == 0 else "fail")
    except subprocess.TimeoutExpired:
        return dict(m, tests="fail")
    finally:
        shutil.rmtree(t)


def check(m):
    t = copy(m)
    r = dict(m, by=None, odd=[])
    try:
        for c in CHECKS[m["file"]].split():
            w = tempfile.mkdtemp(prefix="msv_")
            for x in ("harness", "spec", "known_findings.txt", "properties.jsonl", "MANIFEST.json"):
                (shutil.copytree if os.path.isdir(V + "/" + x) else shutil.copy)(V + "/" + x, w + "/" + x)
            try:
                p = subprocess.run([PY, w + "/harness/check.py", c], env=dict(os.environ, VERIF_REPO=t, VERIF_SEED="1"), cwd=w,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                if p.returncode == 1 and "VIOLATION" in p.stdout:
                    cl = [x.strip() for x in p.stdout.splitlines() if "clause=" in x]
                    r.update(by=c, clause=cl[0][:120] if cl else "")
                    break
                if p.returncode != 0:
                    r["odd"].append(c + ": " + p.stdout.strip()[-200:])
            except subprocess.TimeoutExpired:
                r["odd"].append(c + ": timeout")
            finally:
                shutil.rmtree(w)
    finally:
        shutil.rmtree(t)
    return r


if __name__ == "__main__":
    cmd, out = sys.argv[1:3]
    if cmd == "gen":
        ms = []
        for f in sys.argv[3:] or CHECKS:
            x = mutants(f)
            print(f, len(x))
            r = random.Random(7)
            if "SAMPLE" in os.environ:
                k = json.loads(os.environ["SAMPLE"]).get(f)
                x = r.sample(x, k) if k and k < len(x) else x
            ms += x
        json.dump(ms, open(out, "w"), indent=0)
    else:
        ms = json.load(open(out))
        key = "tests" if cmd == "tests" else "by"
        todo = [m for m in ms if key not in m and (cmd == "tests" or m.get("tests") == "pass")]
        random.Random(5).shuffle(todo)
        if len(sys.argv) > 4:
            todo = todo[:int(sys.argv[4])]
        n = int(sys.argv[3]) if len(sys.argv) > 3 else 4
        k = lambda m: (m["file"], m["i"], m["j"], m["new"])
        d = {k(m): m for m in ms}
        with Pool(n) as p:
            for c, m in enumerate(p.imap_unordered(test if cmd == "tests" else check, todo)):
                d[k(m)].update(m)
                if cmd == "checks":
                    print(m["file"], m["line"], repr(m["old"]), "->", repr(m["new"]), m["by"], m["odd"], flush=True)
                if c % 10 == 0:
                    json.dump(list(d.values()), open(out, "w"), indent=0)
        json.dump(list(d.values()), open(out, "w"), indent=0)
