#!/usr/bin/env python3
"""[BASE=TREE] equiv.py OUT_DIR [TRANSFORM...]: behaviour-preserving rewritings of the whole crate, one copy of /repo per rewriting
(every place where it applies and still compiles). The checks have to stay quiet on each copy:
    for p in C01 ...; do python3 tools/runon.py $p OUT_DIR/TRANSFORM EVDIR; done"""
import glob, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

out = sys.argv[1]
only = sys.argv[2:]


def split(t):
    """(code, tests)"""
    i = t.find("#[cfg(test)]")
    return (t, "") if i < 0 else (t[:i], t[i:])


def close(t, i):
    """index after the bracket that closes the one at i; strings, characters and comments skipped"""
    n, j = 0, i
    pairs = {"(": ")", "{": "}", "[": "]"}
    while j < len(t):
        ch = t[j]
        if ch == '"':
            j += 1
            while t[j] != '"':
                j += 2 if t[j] == "\\" else 1
        elif t.startswith("//", j):
            j = t.index("\n", j)
            continue
        elif ch == "'" and re.match(r"'(\\.|[^\\'])'", t[j:]):
            j += len(re.match(r"'(\\.|[^\\'])'", t[j:]).group(0)) - 1
        elif ch in pairs:
            n += 1
        elif ch in pairs.values():
            n -= 1
            if n == 0:
                return j + 1
        j += 1
    return None


def ifs(t):
    """(start, condition, then block, else block, end) of every two-way if without let"""
    for m in re.finditer(r"\bif ", t):
        s = m.start()
        if re.search(r"else\s*$", t[:s]) or t[m.end():].startswith("let ") or "//" in t[t.rfind("\n", 0, s) + 1:s]:
            continue
        # the condition reaches to the first brace outside brackets
        j = m.end()
        while j < len(t) and t[j] != "{":
            j = close(t, j) if t[j] in "([" else j + 1
        if "=>" in t[m.end():j] or "\n\n" in t[m.end():j]:
            continue        # guard of a match arm
        e = close(t, j)
        if e is None:
            continue
        m2 = re.match(r"\s*else\s*\{", t[e:])
        if not m2:
            yield s, t[m.end():j].strip(), t[j:e], None, e
            continue
        b = e + m2.end() - 1
        e2 = close(t, b)
        yield s, t[m.end():j].strip(), t[j:e], t[b:e2], e2


def T_negate(t):
    for s, c, a, b, e in ifs(t):
        if b is not None:
            yield s, e, "if !(%s) %s else %s" % (c, b, a)


def T_match(t):
    for s, c, a, b, e in ifs(t):
        if b is not None:
            yield s, e, "match %s { true => %s, false => %s }" % (c, a, b)


def T_named(t):
    for s, c, a, b, e in ifs(t):
        x = "{ let holds = %s; if holds %s%s }" % (c, a, "" if b is None else " else " + b)
        yield s, e, x


def T_scrutinee(t):
    for m in re.finditer(r"\bmatch ([^{};]+?) \{", t):
        e = close(t, m.end() - 1)
        if e is not None and m.group(1) != "self":
            yield m.start(), e, "{ let examined = %s; match examined %s }" % (m.group(1), t[m.end() - 1:e])


def T_while(t):
    for m in re.finditer(r"\bfor ([^{};]+?) in ([^{};]+?) \{", t):
        if re.search(r"impl[^;{]*$", t[:m.start()].split("\n")[-1]):
            continue
        e = close(t, m.end() - 1)
        yield m.start(), e, "{ let mut rest = (%s).into_iter(); while let Some(%s) = rest.next() %s }" % (m.group(2), m.group(1), t[m.end() - 1:e])


def T_question(t):
    for m in re.finditer(r"= ([^=;{}]+)\?;", t):
        yield m.start(), m.end(), "= match %s { Ok(v) => v, Err(e) => return Err(e) };" % m.group(1)


def T_clone(t):
    for m in re.finditer(r"\.clone\(\)", t):
        yield m.start(), m.end(), ".clone().clone()"


def T_swap_eq(t):
    for m in re.finditer(r"(?<=[ (])([\w.]+(?:\(\))?(?:\[\d\])?) == ([\w.:]+(?:\(\))?)(?=[ ){;])", t):
        yield m.start(), m.end(), "%s == %s" % (m.group(2), m.group(1))


def T_swap_or(t):
    for m in re.finditer(r"(?<=[ (])(!?[\w.]+(?:\[\d\])?[\w.]*\(\)) (\|\||&&) (!?[\w.]+(?:\[\d\])?[\w.]*\(\))(?= \{)", t):
        yield m.start(), m.end(), "%s %s %s" % (m.group(3), m.group(2), m.group(1))


def bodies(t):
    for m in re.finditer(r"\bfn (\w+)(<[^>(]*>)?\(", t):
        p = m.end() - 1
        e = close(t, p)
        m2 = re.match(r"\s*(->\s*[^;{]+?)?\s*(where[^{;]*)?\{", t[e:])
        if not m2:
            continue
        b = e + m2.end() - 1
        yield m, t[p:e], m2.group(1) or "", b, close(t, b)


def T_closure(t):
    for m, args, ret, b, e in bodies(t):
        if "fmt" == m.group(1):
            continue
        r = ret if ret and "impl " not in ret else ""
        yield b, e, "{ let work = move ||%s %s; work() }" % (" " + r if r else "", t[b:e])


def T_tail(t):
    """the value of a function gets a name"""
    for m, args, ret, b, e in bodies(t):
        if ret:
            yield b, e, "{ let result%s = %s; result }" % (ret.replace("->", ":"), t[b:e])


def T_lets(t):
    """neighbouring lets change places"""
    for m in re.finditer(r"([ \t]*let (?:mut )?(\w+)[^;{}=]*= [^;{}|]*;\n)([ \t]*let (?:mut )?(\w+)[^;{}=]*= [^;{}|]*;\n)", t):
        if re.search(r"\b%s\b" % m.group(2), m.group(3)) or re.search(r"\b%s\b" % m.group(4), m.group(1)) or "pop()" in m.group(0) or "next()" in m.group(0) \
                or "?" in m.group(0) or "remove(" in m.group(0):
            continue
        yield m.start(), m.end(), m.group(3) + m.group(1)


def T_arms(t):
    """arms of matches without wildcards or overlap, in reverse: the first pattern of each names another variant"""
    for m in re.finditer(r"\bmatch ([^{};]+?) \{", t):
        b = m.end() - 1
        e = close(t, b)
        if e is None:
            continue
        j, arms = b + 1, []
        while True:
            k = j
            while k < e - 1 and not t.startswith("=>", k):
                k = close(t, k) if t[k] in "([{" else k + 1
            if k >= e - 1:
                break
            pat = t[j:k].strip()
            k += 2
            while t[k].isspace():
                k += 1
            s = k
            if t[k] == "{":
                k = close(t, k)
                body = t[s:k]
                if t[k:k + 1] == ",":
                    k += 1
            else:
                while k < e - 1 and t[k] != ",":
                    k = close(t, k) if t[k] in "([{" else k + 1
                body = t[s:k]
                k += 1
            arms.append((pat, body))
            j = k
        heads = [re.match(r"(\w+::\w+(?:::\w+)*)", p) for p, _ in arms]
        if len(arms) < 2 or None in heads or any(" if " in p or "|" in p for p, _ in arms) or len({h.group(1) for h in heads}) < len(arms):
            continue
        yield m.start(), e, "match %s {\n%s\n}" % (m.group(1), "\n".join("%s => %s," % a for a in reversed(arms)))


def T_pop(t):
    for m in re.finditer(r"\.pop\(\)\.unwrap\(\)", t):
        yield m.start(), m.end(), '.pop().expect("an operand")'


def T_vec(t):
    for m in re.finditer(r"vec!\[([^\[\]]*)\]", t):
        yield m.start(), m.end(), "Vec::from([%s])" % m.group(1)


def T_inner(t):
    """a private function's work moves to another one (free functions only)"""
    for m, args, ret, b, e in bodies(t):
        line = t.rfind("\n", 0, m.start()) + 1
        if t[line:m.start()].strip() not in ("", "pub", "pub(crate)") or t[line:line + 1] == " " or "self" in args or m.group(2) or "impl " in args:
            continue
        names = re.findall(r"(?:^|[(,])\s*(?:mut )?(\w+)\s*:", args)
        sig = t[m.start():b]
        yield line, e, "%s{ %s_work(%s) }\n\nfn %s_work%s%s" % (t[line:b].replace("mut ", "") if "&mut" not in args else t[line:b], m.group(1), ", ".join(names), m.group(1), sig[len("fn " + m.group(1)):], t[b:e])


def T_noop(t):
    """copies of arguments that nothing looks at"""
    for m, args, ret, b, e in bodies(t):
        names = [x for x in re.findall(r"(?:^|[(,])\s*(?:&(?:'\w+ )?)?(?:mut )?(\w+)\s*(?=[:,)])", args) if x not in ("f", "mut")]
        if names:
            yield b, b + 1, "{ " + " ".join("let _copy_%s = %s.clone();" % (x, x) for x in names)


def T_shadow(t):
    for m in re.finditer(r"\n([ \t]*)let (mut )?(\w+)( *:[^=;]*)? = [^;{}|]*;(?=\n)", t):
        yield m.end(), m.end(), " let %s%s = %s;" % (m.group(2) or "", m.group(3), m.group(3))


def T_commute(t):
    for m in re.finditer(r"\b(\w+\.\w+(?:\(\))?) ([*]) (\w+\.\w+(?:\(\))?)(?=[,;)\n ])", t):
        yield m.start(), m.end(), "%s %s %s" % (m.group(3), m.group(2), m.group(1))


def T_demorgan(t):
    for s, c, a, b, e in ifs(t):
        for op, other in (("||", "&&"), ("&&", "||")):
            if c.count(op) == 1 and other not in c:
                x, y = c.split(op)
                k = t.index(c, s)
                yield k, k + len(c), "!(!(%s) %s !(%s))" % (x.strip(), other, y.strip())


def T_early(t):
    """a two-way if that ends a function returns early instead"""
    for s, c, a, b, e in ifs(t):
        if b is not None and re.match(r"\s*\n\s*\}\s*\n\s*(\n|\}|#|impl|fn|pub)", t[e:]) and t[:s].rstrip()[-1:] in "{;}":
            yield s, e, "if %s { return %s; }\n%s" % (c, a, b[1:-1].strip())


def T_nested(t):
    """the work of a method in a function inside it"""
    for m, args, ret, b, e in bodies(t):
        if "impl " in args or m.group(1) == "fmt":
            continue
        head = list(re.finditer(r"\nimpl(<[^{]*?>)? (?:[^{;]*? for )?([\w&' ]+?) \{", t[:m.start()]))
        line = t.rfind("\n", 0, m.start()) + 1
        inside = t[line:line + 1] == " "
        if inside and (not head or head[-1].group(1)):
            continue
        T = head[-1].group(2) if inside else None
        if T and "'" in T:
            continue
        ps = [x.strip() for x in args[1:-1].split(",") if x.strip()]
        if "Self::" in ret + args or "Self::" in t[b:e] and False:
            continue
        names, decl = [], []
        for q in ps:
            k = re.match(r"(&?)(mut )?self$", q)
            if k:
                names.append("self")
                decl.append("%sthis: %s%s" % (k.group(2) or "", k.group(1), T))
            else:
                names.append(re.match(r"(?:mut )?(\w+)", q).group(1))
                decl.append(q)
        work = "fn work(%s) %s %s" % (", ".join(decl), ret, t[b:e])
        if T:
            work = re.sub(r"\bself\b", "this", re.sub(r"\bSelf\b", T, work))
        yield b, e, "{ %s\n work(%s) }" % (work, ", ".join(names))


def T_block(t):
    """what a let gives is made in a block"""
    for m in re.finditer(r"(\n[ \t]*let (?:mut )?\w+(?: *:[^=;]*)? = )([^;{}|&]*)(;)", t):
        yield m.start(2), m.end(2), "{ let made = %s; made }" % m.group(2)


def T_vecmacro(t):
    for m in re.finditer(r"vec!\[([^\[\],]*), ([^\[\],]*)\]", t):
        yield m.start(), m.end(), "{ let mut both = Vec::with_capacity(2); both.push(%s); both.push(%s); both }" % m.groups()


def T_iflet(t):
    """two-armed matches as if let"""
    for m in re.finditer(r"\bmatch ([^{};]+?) \{\s*(Some\(\w+\)|Ok\(\w+\)) => ", t):
        b = t.index("{", m.start(1) + len(m.group(1)))
        e = close(t, b)
        k = m.end()
        if t[k] == "{":
            k2 = close(t, k)
            body = t[k:k2]
            k2 += t[k2:k2 + 1] == ","
        else:
            k2 = k
            while k2 < e and t[k2] != ",":
                k2 = close(t, k2) if t[k2] in "([{" else k2 + 1
            body = t[k:k2]
            k2 += 1
        m2 = re.match(r"\s*(None|_|Err\(_\)) => ", t[k2:e])
        if not m2:
            continue
        r = t[k2 + m2.end():e - 1].strip().rstrip(",")
        yield m.start(), e, "if let %s = %s { %s } else { %s }" % (m.group(2), m.group(1), body, r)


TS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("T_")}


def builds(d, tests=False):
    return subprocess.run(["cargo", "test" if tests else "check", "--offline", "-q"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def apply(t, edits):
    for s, e, new in sorted(edits, reverse=True):
        t = t[:s] + new + t[e:]
    return t


def outer(edits):
    """those not inside another"""
    res, end = [], -1
    for s, e, new in sorted(edits, key=lambda x: (x[0], -x[1])):
        if s >= end:
            res.append((s, e, new))
            end = e
    return res


def run(name):
    f = TS[name]
    d = os.path.join(out, name)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get("BASE", "/repo"), d, ignore=shutil.ignore_patterns("target", ".git"))
    n = tried = 0
    for p in sorted(glob.glob(d + "/src/**/*.rs", recursive=True)):
        t0 = open(p).read()
        code, tests = split(t0)
        edits = outer(f(code))
        if not edits:
            continue
        tried += len(edits)
        open(p, "w").write(apply(code, edits) + tests)
        if builds(d):
            n += len(edits)
            continue
        keep = []
        for x in edits:
            open(p, "w").write(apply(code, keep + [x]) + tests)
            if builds(d):
                keep.append(x)
        open(p, "w").write(apply(code, keep) + tests)
        n += len(keep)
    ok = builds(d, True)
    shutil.rmtree(d + "/target", ignore_errors=True)
    return "%s: %d of %d places, tests %s" % (name, n, tried, "pass" if ok else "FAIL")


with ThreadPoolExecutor(6) as ex:
    for r in ex.map(run, [n for n in TS if not only or n in only]):
        print(r, flush=True)
