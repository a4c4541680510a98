#!/usr/bin/env python3
"""Mutation analysis of the checks (development only): mutate.py SLOT SLOTS FILE... [--max N] [--seed S] [--log LOG]
Changes one token or drops one statement of FILE in a scratch copy, keeps what compiles and passes the stable tests,
and runs the checks that concern the function until one reports; the survivors are to be reviewed by hand."""
import argparse, json, os, random, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLC = "C10 C17 C12 C11 C16 C01 C15 C14 C13 C08 C02 C05 C04".split()
FIRST = {"dfs": "C16 C10", "check_hamiltonian": "C16", "mst_to_one_tree": "C17 C14", "initialize_matrix": "C10 C01", "infer_constraints": "C12",
         "copy_constraints": "C12", "branch": "C12 C13", "max_edge_path_1Tree": "C11", "variable_fixing": "C11", "constrained_kruskal": "C17 C14",
         "constrained_prim": "C17 C14", "compare_subproblems": "C13", "bound": "C10 C17", "time_limit_reached": "C05", "are_neighbours": "C15 C04",
         "nearest_prob_neighbour": "C15", "compare_candidate_node": "C14", "find_candidate_node": "C14 C15", "check_feasibility": "C04",
         "branch_and_bound": "C01 C08 C05", "print_subProblem": "C02 C08", "print_problem": "C08 C05"}
FILES = {"kruskal.c": "C21 C18 C17 C14 C01", "prim.c": "C18", "fibonacci_heap.c": "C19 C18 C17 C07", "graph.c": "C23 C25", "mfset.c": "C20 C18 C07", "mst.c": "C16 C23 C18 C17",
         "list_functions.c": "C22 C16 C07", "list_iterator.c": "C22", "b_and_b_data.c": "C22 C13 C07", "tsp_instance_reader.c": "C24 C25 C02 C03", "main.c": "C02 C08 C24",
         "HybridSolver.py": "C26 C37", "main.py": "C27 C28 C37", "google_tsp_reader.py": "C29 C28", "graph_utils.py": "C30 C29", "gcn_layers.py": "C31", "gcn_model.py": "C31",
         "model_utils.py": "C30 C31 C32", "beamsearch.py": "C32", "analyzer.py": "C33 C34 C39 C35 C37", "converter_tsp_to_dat.py": "C36", "generate_tsp_concorde.py": "C38",
         "split_train_val.py": "C38", "pyconcorde_solver.py": "C38", "config.py": "C38"}
C_OPS = [("<=", ["<", ">="]), (">=", [">", "<="]), ("==", ["!="]), ("!=", ["=="]), ("&&", ["||"]), ("||", ["&&"]), ("++", ["--"]), ("+=", ["-="]), ("-=", ["+="]),
         ("<", ["<=", ">"]), (">", [">=", "<"]), (" + ", [" - "]), (" - ", [" + "]), (" * ", [" / "]), (" / ", [" * "])]
PY_OPS = [("<=", ["<", ">="]), (">=", [">", "<="]), ("==", ["!="]), ("!=", ["=="]), (" and ", [" or "]), (" or ", [" and "]), ("+=", ["-="]), (" < ", [" <= ", " > "]),
          (" > ", [" >= ", " < "]), (" + ", [" - "]), (" - ", [" + "]), (" * ", [" / "]), (" / ", [" * "]), ("True", ["False"]), ("False", ["True"]), (" not ", [" "])]


def mutants(text, py):
    lines = text.split("\n")
    fn, depth, doc = None, 0, False
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if py:
            m = re.match(r"\s*def (\w+)", l)
            if m:
                fn = m[1]
            if s.count('"""') == 1:
                doc = not doc
                continue
            if doc or s.startswith(("#", '"""', "import", "from", "print", "def ", "class ")) or not s or fn is None:
                continue
            code = re.split(r"\s#", l)[0]
        else:
            m = re.match(r"^[A-Za-z].*?\b(\w+)\s*\([^;]*$", l)
            if m and depth == 0:
                fn = m[1]
            depth += l.count("{") - l.count("}")
            if s.startswith(("//", "/*", "*", "#", "printf", "perror")) or fn is None or not s:
                continue
            code = l.split("//")[0]
        strs = [m.span() for m in re.finditer(r'"[^"]*"' + (r"|'[^']*'" if py else ""), code)]
        instr = lambda k: any(a <= k < b for a, b in strs)
        for op, reps in (PY_OPS if py else C_OPS):
            for m in re.finditer(re.escape(op), code):
                a, b = m.span()
                if instr(a) or (op in "<>" and (code[a - 1:a] in "<>-=" or code[b:b + 1] in "<>=")) or (op in ("<=", ">=") and code[a - 1:a] in "<>"):
                    continue
                for r in reps:
                    out.append((i, fn, code[:a] + r + code[b:]))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            if not instr(m.start()):
                for r in ({str(int(m[1]) + 1), str(max(0, int(m[1]) - 1))} - {m[1]}):
                    out.append((i, fn, code[:m.start()] + r + code[m.end():]))
        for a, b in ((("true", "false"), ("false", "true"), ("src", "dest"), ("dest", "src"), ("MANDATORY", "FORBIDDEN"), ("FORBIDDEN", "MANDATORY"), ("->value", "->prob"), ("break;", ";")) if not py else (("break", "pass"), ("continue", "pass"))):
            for m in re.finditer(r"(?<!\w)%s(?!\w)" % re.escape(a), code):
                if not instr(m.start()):
                    out.append((i, fn, code[:m.start()] + b + code[m.end():]))
        ind = code[:len(code) - len(code.lstrip())]
        if py:
            if re.match(r"^[\w.\[\], ]+\s*[+\-*/]?=[^=]", s) or re.match(r"^[\w.]+\(.*\)$", s):
                out.append((i, fn, ind + "pass"))
            m = re.match(r"^(\s*)(if|elif|while) (.*):$", code)
            if m and m[2] != "while":
                out.append((i, fn, "%s%s True:" % (m[1], m[2])))
                out.append((i, fn, "%s%s False:" % (m[1], m[2])))
        else:
            if s.endswith(";") and not re.match(r"^(return|break|typedef|unsigned|int|short|double|float|bool|char|size_t|struct|Node|Edge|List|Set|SubProblem|Graph|MST|Forest|FibonacciHeap|OrdTreeNode|ConstrainedEdge|ListIterator|FILE|long|DllElem|const)\b", s) and "(" + s + ")":
                if depth >= 1:
                    out.append((i, fn, ind + ";"))
            m = re.match(r"^(\s*(?:\} else )?if ?)\((.*)\) ?\{$", code)
            if m:
                out.append((i, fn, m[1] + "(1 || (" + m[2] + ")) {"))
                out.append((i, fn, m[1] + "(0 && (" + m[2] + ")) {"))
    seen, res = set(), []
    for i, fn, new in out:
        if (i, new) not in seen and new != lines[i]:
            seen.add((i, new))
            res.append((i, fn, new))
    return lines, res


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("slot", type=int), ap.add_argument("slots", type=int), ap.add_argument("files", nargs="+")
    ap.add_argument("--max", type=int, default=50), ap.add_argument("--seed", type=int, default=1), ap.add_argument("--log", default="/tmp/mu/log")
    ap.add_argument("--workers", default="2"), ap.add_argument("--only", default=""), ap.add_argument("--dir", default="")
    o = ap.parse_args()
    base = "/tmp/mu/%s%d" % (o.dir, o.slot)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    sh(["cp", "-a", "/repo", base + "/repo"])
    shutil.rmtree(base + "/repo/_build", ignore_errors=True)
    sh(["git", "-C", base + "/repo", "checkout", "-q", "--", "."])
    shutil.copytree(VERIF, base + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "_build", "replays", "evidence"))
    sh(["cp", "-r", "/opt/vp", base + "/vp"])
    sh("sed -i 's#/repo#%s/repo#g; s#/opt/vp/#%s/vp/#g' %s/vp/build.sh %s/vp/test.sh %s/vp/results.py %s/vp/harness/*" % (base, base, base, base, base, base), shell=True)
    stable = set((lambda b: b.get("stable") or b.get("passed") or b.get("tests"))(json.load(open("/opt/vp/BASELINE.json"))))
    rng = random.Random(o.seed)
    log = open("%s.%d" % (o.log, o.slot), "a")
    env = dict(os.environ, VF_REPO=base + "/repo", VF_WORKERS=o.workers, VERIF_SEED="1")
    for f in o.files:
        p = os.path.join(base, "repo", f)
        raw = open(p, encoding="utf-8", newline="").read()
        crlf = "\r\n" in raw
        text = raw.replace("\r\n", "\n")
        py = f.endswith(".py")
        lines, ms = mutants(text, py)
        if o.only:
            ms = [m for m in ms if m[1] in o.only.split(",")]
        rng.shuffle(ms)
        ms = ms[:o.max][o.slot % o.slots::o.slots]
        for i, fn, new in ms:
            t = "\n".join(lines[:i] + [new] + lines[i + 1:])
            open(p, "w", encoding="utf-8", newline="").write(t.replace("\n", "\r\n") if crlf else t)
            res = None
            try:
                if py:
                    try:
                        compile(t, f, "exec")
                    except SyntaxError:
                        continue
                else:
                    if sh(["bash", base + "/vp/build.sh"]).returncode:
                        continue
                    sh(["timeout", "200", "bash", base + "/vp/test.sh", base + "/o.json"])
                    try:
                        if stable - set(json.load(open(base + "/o.json"))["passed"]):
                            res = "tests"
                    except OSError:
                        res = "tests"
                if res is None:
                    name = os.path.basename(f)
                    cs = (FIRST.get(fn, "").split() if name == "branch_and_bound.c" else FILES.get(name, "").split())
                    cs += [c for c in ALLC if c not in cs] if name == "branch_and_bound.c" else []
                    errs = []
                    for c in cs:
                        try:
                            q = sh(["python3", base + "/verif/run.py", c, "quick"], env=env, timeout=600)
                        except subprocess.TimeoutExpired:
                            errs.append(c + ":timeout")
                            continue
                        if q.returncode == 1:
                            res = "killed " + c
                            break
                        if q.returncode:
                            errs.append("%s:%d:%s" % (c, q.returncode, q.stdout.strip().split("\n")[-1][-150:]))
                            if len(errs) > 2:
                                break
                    res = res or ("SURVIVED" if not errs else "ERROR " + " ".join(errs))
                log.write("%s | %s:%d %s | %s ==> %s\n" % (res, os.path.basename(f), i + 1, fn, lines[i].strip(), new.strip()))
                log.flush()
            finally:
                open(p, "w", encoding="utf-8", newline="").write(raw)
    shutil.rmtree(base, ignore_errors=True)


main()
