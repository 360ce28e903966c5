import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hdr_common import *


def check(c):
    c.rule = ("compile-time witnesses and a linkage query: each header is the only include of a program that uses its whole interface (front end run with clang and g++), is included twice, first and last among all others; "
              "every definition a header emits into the IR of a translation unit must be mergeable (comdat, internal or inline): an external definition without comdat is a duplicate symbol in the second translation unit")
    c.level = "proof"
    c.floor = 200
    c.assumptions = ["the installed standard library, Eigen and Boost; C++17", "the interface of a header is what checks/witness.py uses of it (every class template explicitly instantiated, every function called)", "the optional version.h is generated with placeholder values"]
    irq = irdump_bin("irq")
    hs = headers()
    pub = [h for h in hs if h in witness.W]
    for h in sorted(set(witness.W) - set(hs)):
        c.bad("header %s exists" % h, "src/MathUtils/" + h, "the public header is gone")
    S = ["-fsyntax-only"]
    jobs = []   # (obligation, text, args, anchor)
    for h in hs:
        w = witness.W.get(h, "")
        jobs.append(("%s alone, whole interface used" % h, prog([h], w), S, h))
        jobs.append(("%s twice" % h, prog([h, h]), S, h))
    gcc = [(n + " (g++)", t, a, h) for n, t, a, h in jobs if "alone" in n]
    alls = [h for h in hs]
    order = [("all headers, alphabetical order", alls), ("all headers, reverse order", alls[::-1])]
    for h in pub:
        order.append(("%s before all others" % h, [h] + [k for k in alls if k != h]))
        if c.thorough:
            order.append(("%s after all others" % h, [k for k in alls if k != h] + [h]))
    whole = "".join(witness.double_only(witness.W[h]) for h in pub)
    # the witness texts use the same class names where two headers share an interface: keep the first explicit instantiation
    seen, lines = set(), []
    for l in whole.split("\n"):
        if l.startswith("template class"):
            if l in seen:
                continue
            seen.add(l)
        lines.append(l)
    whole = "\n".join(lines)
    jobs.append(("all headers, alphabetical order, every interface used", prog(alls, whole), S, "MathUtils.h"))
    jobs.append(("all headers, reverse order, every interface used", prog(alls[::-1], whole), S, "MathUtils.h"))
    jobs += [(n, prog(o), S, n.split()[0] if n[0] != "a" else "MathUtils.h") for n, o in order]

    def front(j):
        i, (n, t, a, h) = j
        ok, loc, msg, _ = clang(c, "h%d" % i, t, a)
        return n, h, ok, loc, msg

    def gxx(j):
        i, (n, t, a, h) = j
        p = os.path.join(c.tmp, "g%d.cpp" % i)
        open(p, "w").write(t)
        r = sh(["g++", "-std=c++17", "-fsyntax-only", "-w"] + flags(c.tmp) + [p])
        if r.returncode == 0:
            return n, h, True, "", ""
        return (n, h, False) + errors(r.stderr, p)

    def link(j):
        i, h = j
        res = []
        for tag, body in (("", ""), (" with its interface in use", witness.double_only(witness.W.get(h, "")))):
            if tag and not body:
                continue
            ok, loc, msg, o = clang(c, "l%d%d" % (i, bool(tag)), prog([h], body), ["-O0", "-emit-llvm", "-c", "-gline-tables-only"], out=True)
            if not ok:
                res.append((tag, None, loc, msg))
                continue
            r = sh([irq, "linkage", o])
            os.unlink(o)
            res.append((tag, r.stdout if r.returncode == 0 else None, "", r.stderr))
        return h, res

    heavy = [j for j in enumerate(jobs) if "every interface" in j[1][0]]
    light = [j for j in enumerate(jobs) if "every interface" not in j[1][0]]
    big = ("Matrix.h", "Matrix33.h", "Matrix66.h")
    hl = sorted(enumerate(hs), key=lambda j: j[1] not in big)
    with ThreadPoolExecutor(8) as ex:
        f1 = [ex.submit(front, j) for j in heavy]
        f3 = [ex.submit(link, j) for j in hl]
        f1 += [ex.submit(front, j) for j in light]
        f2 = [ex.submit(gxx, j) for j in enumerate(gcc)]
        R1 = [f.result() for f in f1 + f2]
        R3 = [f.result() for f in f3]
    for n, h, ok, loc, msg in R1:
        if ok:
            c.ok(n)
        else:
            c.bad(n, loc or "src/MathUtils/" + h, "does not compile: " + msg)
    ndef = 0
    for h, res in R3:
        for tag, txt, loc, msg in res:
            n = "%s%s: shareable between translation units" % (h, tag)
            if txt is None:
                (c.bad if loc else c.und)(n, *([loc, "does not compile: " + msg] if loc else [msg]))
                continue
            bad = []
            for l in txt.strip().split("\n"):
                f = l.split("\t")
                if f[0] == "count":
                    ndef += int(f[1]) + int(f[2])
                elif f[0] == "strong":
                    bad.append(f)
            for f in bad[:3]:
                c.bad(n, (f[2] or "src/MathUtils/" + h), "%s is defined with external linkage and is not inline: a second translation unit duplicates it" % f[3])
            if not bad:
                c.ok(n)
    c.extra_cov["headers"] = len(hs)
    c.extra_cov["definitions_classified"] = ndef
