"""Many small changes, one at a time: [RARE=1] campaign.py OUT [SHARDS [MAX]]
With RARE the change happens only under a condition that ordinary use does not meet.
Each change (an operator, condition, literal, name or statement of the source) that builds and passes the tests is
given to the checks, likeliest first, until one raises an alarm; the others are listed to be looked at by hand."""
import os, re, shutil, subprocess, sys, tempfile, random, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import props
OUT, N = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 8
MAX = int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9
FIRST = [("derivative", "C04 C03 C34"), ("num_aggregate", "C02 C01 C33 C30"), ("limit/limit_expression", "C18 C29 C20"), ("limit", "C19 C20 C22 C21 C18 C35"),
         ("substitute", "C05 C32 C03"), ("taylor", "C06 C07 C29"), ("math_op", "C10 C26 C01 C27"), ("smart_num", "C11 C12 C13 C14 C15 C16 C17 C25 C28 C31"),
         ("ast", "C10 C26 C08 C31 C05 C29")]
SWAPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "), (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "),
         (r" <= ", " < "), (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+= ", "-= "), (r"-= ", "+= "),
         (r"\.\.=", ".."), (r"\bif !", "if "), (r"\bif (?!let)", "if !"), (r"\bself\.", "rhs."), (r"\brhs\.", "self."), (r"\bl\b", "r"), (r"\br\b", "l"), (r"\bsin\(", "cos("), (r"\bcos\(", "sin("),
         (r"\bexp\(", "ln("), (r"\bln\(", "exp("), (r"::zero\(\)", "::one()"), (r"::one\(\)", "::zero()"), (r"\bSin\b", "Cos"), (r"\bCos\b", "Sin"), (r"\bInfinity\b", "Infinitesimal"),
         (r"\bInfinitesimal\b", "Infinity"), (r"\bPi\b", "E"), (r"\bE\b", "Pi"), (r"\bNumerator\b", "Denominator"), (r"numerator", "denominator"), (r"denominator", "numerator"), (r"\babs\(\)", "clone()"),
         (r"\bis_zero\b", "is_one"), (r"\bis_one\b", "is_zero"), (r"\bis_negative\b", "is_positive"), (r"\bis_positive\b", "is_negative"), (r"\bAdd\b", "Sub"), (r"\bSub\b", "Add"), (r"\bMul\b", "Div"), (r"\bDiv\b", "Mul"),
         (r"\bExp\b", "Ln"), (r"\bLn\b", "Exp"), (r"-(?=\w)", ""), (r"\.num_aggregate\(\)", ""), (r"\.clone\(\)", ""), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\bpop_front\b", "pop_back"), (r"\bpush_back\b", "push_front"),
         (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"\bnum\b", "den"), (r"\bden\b", "num"), (r"\bOk\(", "Err("), (r"\ba\b", "b"), (r"\bb\b", "a"), (r"\bx\b", "y"), (r"\bto\b", "of"), (r"\.rev\(\)", ""), (r"\bSome\(", "None; Some("),
         (r"\bi64\b", "i32"), (r"\bu64\b", "u32"), (r"\bas u64\b", "as u32 as u64"), (r"\bas i64\b", "as i32 as i64"), (r"\bany\(", "all("), (r"\ball\(", "any("), (r"checked_", "wrapping_"), (r"\?;", ";")]


def mutants():
    out = []
    for f in subprocess.run(["git", "-C", "/repo", "ls-files", "src"], capture_output=True, text=True).stdout.split():
        if not f.endswith(".rs") or f.endswith(("tests.rs", "main.rs")):
            continue
        t = open("/repo/" + f).read().split("\n")
        for n, line in enumerate(t):
            if "#[cfg(test)]" in line or re.match(r"mod \w*test", line):
                break
            code = line.split("//")[0]
            if not code.strip() or code.strip().startswith(("use ", "pub mod", "mod ", "#[", "}", "impl", "/*", "*", "type ", "pub trait", "pub(crate) trait", "fn ", "pub fn")) or re.match(r"\s+\w+: \w+,$", code):
                continue
            new = set()
            for pat, rep in SWAPS:
                for m in re.finditer(pat, code):
                    new.add(code[:m.start()] + rep + code[m.end():])
            for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", code):
                for v in (int(m.group()) + 1, int(m.group()) - 1):
                    if v >= 0:
                        new.add(code[:m.start()] + str(v) + code[m.end():])
            if code.strip().endswith(";") and not code.strip().startswith(("let", "return", "type")):
                new.add("")
            if re.match(r"\s*[\w:]+(\([^)]*\))?( \{[^}]*\})? => .*,$", code):
                new.add("")
            for m in re.finditer(r"\((\w+), (\w+)\)", code):
                new.add(code[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + code[m.end():])
            for v in sorted(new):
                if v != code:
                    out.append((f, n, line, v))
    random.Random(7).shuffle(out)
    return out


CONDS = ["%s.child.len() == 2 && %s.child[1].child.len() == 2 && %s.child[1].child[1].child.len() == 1".replace("%s", x) for x in
         ("child[0]", "sub", "l", "u", "left", "me", "self", "expr", "to", "v", "lhs", "rhs", "residual")] + \
        ["%s.name.len() == 11" % x for x in ("variable", "of", "to", "to_", "u", "self", "v")] + \
        ["%s.nominator %% 9973 == 77" % x for x in ("self", "rhs", "x", "i", "v")] + \
        ["%s.to_f64() == 4242.0" % x for x in ("self.value", "self", "i", "v")] + ["%s as i64 == 77777" % x for x in ("v", "i", "k", "*v", "order_try", "a")] + \
        ["*v == 0.125", "v == 0.125", "order_try == 7"]


def rare(line, new, cond):
    """the change under a condition, or None"""
    m = re.match(r"(\s*)(let (?:mut )?\w+(?: *: [^=]+)? = |return |)(.*?)(;?)$", line)
    w = re.match(r"(\s*)(let (?:mut )?\w+(?: *: [^=]+)? = |return |)(.*?)(;?)$", new)
    if not m or not w or m.group(2) != w.group(2) or m.group(4) != w.group(4) or not m.group(3) or not w.group(3):
        return None
    if m.group(3)[-1] in "{(,|&" or m.group(3)[0] in "}|&.)" or "=>" in m.group(3) or not m.group(2) and not m.group(4) and ":" in m.group(3).replace("::", ""):
        k = re.match(r"(\s*)(.*? => )(.*),$", line)
        j = re.match(r"(\s*)(.*? => )(.*),$", new)
        if not k or not j or k.group(2) != j.group(2) or k.group(3).count("{") != k.group(3).count("}"):
            return None
        return "%s%sif %s { %s } else { %s }," % (k.group(1), k.group(2), cond, j.group(3), k.group(3))
    return "%s%sif %s { %s } else { %s }%s" % (m.group(1), m.group(2), cond, w.group(3), m.group(3), m.group(4))


def worker(q):
    d = tempfile.mkdtemp(prefix="camp")
    r = d + "/repo"
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target", ".git"))
    while True:
        try:
            f, n, line, new = q.pop()
            if len(q) % 20 == 0:
                print(len(q), "left", flush=True)
        except IndexError:
            break
        p = os.path.join(r, f)
        t = open("/repo/" + f).read().split("\n")
        t[n] = new
        open(p, "w").write("\n".join(t))
        if os.environ.get("RARE"):
            for cond in CONDS:
                x = rare(line, new, cond)
                if x is None:
                    break
                t[n] = x
                open(p, "w").write("\n".join(t))
                if subprocess.run(["cargo", "check", "--offline", "-q", "--target-dir", d + "/t"], cwd=r, capture_output=True).returncode == 0:
                    new = x
                    break
            else:
                x = None
            if x is None:
                open(p, "w").write(open("/repo/" + f).read())
                continue
        try:
            b = subprocess.run(["cargo", "test", "--offline", "-q", "--target-dir", d + "/t"], cwd=r, capture_output=True, text=True, timeout=60)
            state = "pass" if b.returncode == 0 else "x"
        except subprocess.TimeoutExpired:
            state = "x"
        by = None
        if state == "pass":
            first = [c for k, v in FIRST if k in f for c in v.split()]
            rest = [c for c in sorted(props.CHECKS) if c not in first]
            slow = ("C35", "C09")
            for c in list(dict.fromkeys(first)) + [c for c in rest if c not in slow] + list(slow):
                x = subprocess.run([sys.executable, os.path.join(HERE, "tools", "runon.py"), c, r, d + "/ev"], capture_output=True, text=True)
                if x.returncode:
                    by = "%s rc=%d" % (c, x.returncode)
                    break
            with open(OUT, "a") as o:
                o.write("%s %s:%d\n   -%s\n   +%s\n" % (by or "UNCAUGHT", f, n + 1, line.strip(), new.strip()))
        open(p, "w").write(open("/repo/" + f).read())
    shutil.rmtree(d, ignore_errors=True)


q = mutants()[:MAX]
print(len(q), flush=True)
with ThreadPoolExecutor(N) as ex:
    list(ex.map(lambda _: worker(q), range(N)))
print("done")
