import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hdr_common import *


def check(c):
    c.rule = ("(1) type-level witnesses: every class template of every header is explicitly instantiated and every function called, with each supported scalar (double, float, complex), default arguments included, down to IR; (2) AST query over template "
              "patterns: every declared function, member or static data member is defined, unless pure, deleted, defaulted or private; (3) IR linkage query: no library symbol the instantiated code refers to is left undefined; "
              "(4) control-flow query of the front end: no value-returning function can reach its end")
    c.level = "proof"
    c.floor = 120
    c.assumptions = ["supported scalars: double everywhere, float and complex where the header's own code does not fix double (checks/witness.py lists them per header)", "a switch covering all enumerators returns for every enumerator; values outside the enumeration are not considered"]
    irq, astq = irdump_bin("irq"), irdump_bin("astq")
    hs = headers()
    big = ("Matrix.h", "Matrix33.h", "Matrix66.h")

    def one(h):
        w = witness.W.get(h, "")
        p = os.path.join(c.tmp, "i_%s.cpp" % h)
        open(p, "w").write(prog([h], w))
        o = p + ".bc"
        r = sh(CXX + flags(c.tmp) + ["-Wno-everything", "-Wreturn-type", "-O0", "-emit-llvm", "-c", p, "-o", o])
        if r.returncode:
            return h, False, errors(r.stderr, p), None, None
        rt = re.findall(r"(\S+?/MathUtils/\S+?:\d+):\d+: warning: ([^\n]*(?:does not return|non-void)[^\n]*)", r.stderr)
        q = sh([irq, "linkage", o])
        os.unlink(o)
        return h, True, None, sorted(set(rt)), q.stdout if q.returncode == 0 else None

    def ast(_):
        p = os.path.join(c.tmp, "all.cpp")
        seen, ls = set(), []
        for l in (prog(hs) + "".join(witness.double_only(witness.W.get(h, "")) for h in hs)).split("\n"):
            if l.startswith("template class"):
                if l in seen:
                    continue
                seen.add(l)
            ls.append(l)
        open(p, "w").write("\n".join(ls))
        return sh([astq, p, "-std=c++17", "-w"] + flags(c.tmp))

    with ThreadPoolExecutor(8) as ex:
        fa = ex.submit(ast, 0)
        fs = [ex.submit(one, h) for h in sorted(hs, key=lambda h: h not in big)]
        R = [f.result() for f in fs]
        ra = fa.result()
    nf = 0
    for h, ok, err, rt, link in R:
        if not ok:
            c.bad("%s: whole interface instantiated" % h, err[0] or "src/MathUtils/" + h, "does not compile: " + err[1])
            continue
        c.ok("%s: whole interface instantiated" % h)
        n = "%s: every value-returning function returns" % h
        if rt:
            for loc, msg in rt[:3]:
                c.bad(n, loc, msg)
        else:
            c.ok(n)
        n = "%s: everything referred to is defined" % h
        if link is None:
            c.und(n, "linkage query failed")
            continue
        bad = []
        for l in link.strip().split("\n"):
            f = l.split("\t")
            if f[0] == "count":
                nf += int(f[1])
            elif f[0] == "undef":
                bad.append(f)
        for f in bad[:3]:
            c.bad(n, "src/MathUtils/" + h, "%s is used and defined nowhere" % f[3])
        if not bad:
            c.ok(n)
    if ra.returncode:
        loc, msg = errors(ra.stderr, "all.cpp")
        c.bad("all headers together: every declaration is defined", loc, "does not compile: " + msg)
    else:
        bad = 0
        for l in ra.stdout.strip().split("\n"):
            f = l.split("\t")
            if f[0] == "undef":
                bad += 1
                sig = f[3][f[3].index("("):] if "(" in f[3] else ""
                nargs = 0 if sig.startswith("(void)") or not sig else 1 + len(re.sub(r"<[^<>]*>", "", sig).split(")")[0].split(",")) - 1
                c.bad("declared and defined: %s/%d%s" % (re.sub(r"<.*>", "", f[2]), nargs, " const" if sig.endswith("const") else ""), f[1], "%s declared, never defined: any use fails to link" % f[3])
            elif f[0] == "count":
                for k, v in zip(("declarations_of_the_library", "definitions_of_the_library", "instantiations_analysed"), f[1:4]):
                    c.extra_cov[k] = int(v)
                c.ok("every declaration is defined (%d declarations, %d undefined)" % (int(f[1]), bad))
    c.extra_cov["functions_in_ir"] = nf
