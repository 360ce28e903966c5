import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hdr_common import *

# the analyses of these properties exercise every part of the library on all values of their arguments; here only the memory they touch counts
QUICK = "C21 C23 C24 C08 C09 C15 C14 C06 C07 C10 C11 C12 C13 C16 C17 C25 C26 C27 C28 C29 C30 C31 C02 C03 C04 C05".split()
MORE = "C18 C33 C01".split()


def undef_query(c):
    """arithmetic, comparisons and branches on a variable that nothing wrote, over the IR of all instantiations: locals promoted to registers, no code moved"""
    box = {}

    def one(x):
        n, text = x
        p = os.path.join(c.tmp, n + ".cpp")
        open(p, "w").write(text)
        bc = c.compile_bc(p)
        o = bc + ".u.bc"
        r = sh([LLVM + "/bin/opt", "-passes=globaldce,function(sroa)", bc, "-o", o])
        if r.returncode:
            raise Broken("opt: " + r.stderr[-2000:])
        r = sh([irdump_bin("irq"), "undef", o])
        if r.returncode:
            raise Broken("irq: " + r.stderr[-2000:])
        os.unlink(bc)
        os.unlink(o)
        return [l.split("\t") for l in r.stdout.strip().split("\n")]

    def all_():
        try:
            hs = [h for h in headers() if witness.W.get(h)]
            box["r"] = parallel(one, [("undef_%d" % i, whole(hs[i::4])) for i in range(4)], 2)
        except Exception as e:
            box["e"] = e

    # a tiny positive example: the query must see it
    ex = os.path.join(c.tmp, "MathUtils")
    os.makedirs(ex, exist_ok=True)
    open(ex + "/vp_example.h", "w").write("inline double vp_example(double a) { double r; r *= 0.; if (a > 0) r = a; return a; }\n")
    th = threading.Thread(target=all_)
    th.start()

    def get():
        th.join()
        if "e" in box:
            raise box["e"]
        e = one(("undef_example", '#include "%s/vp_example.h"\ndouble vp_use(double x) { return vp_example(x); }\n' % ex))
        if not any(g[0] == "undef" for g in e):
            raise Broken("the query for uses of unwritten variables does not see its example")
        return [g for l in box["r"] for g in l]
    return get


def check(c):
    ask = ast_query(c)
    und = undef_query(c)
    c.mem_only = True
    per = c.isolate(lambda sub, k: importlib.import_module(k).check(sub), QUICK + (MORE if c.thorough else []))
    c.mem_only = False
    c.rule = ("(1) typestate of every object by abstract interpretation of construct / copy / move / refill / fail / destroy histories and of every operation on symbolic arguments: at the end of each entry, and on each path that leaves it by exception, no heap object is live that "
              "nothing outlasting the entry refers to; each release matches its allocation, happens once and with the size of the object (deletion as what it is); each access lies inside a live object; no branch, address, call or result depends on an unwritten value; "
              "(2) syntax-tree query over all instantiations: no delete-expression deletes through a class with virtual functions and no virtual destructor; (3) IR query over all instantiations with locals promoted to registers and nothing moved: no arithmetic, comparison or branch on a variable that no path has written")
    c.level = "proof"
    c.floor = 2500
    c.assumptions = ["sizes and histories of the analyses listed under per_analysis", "allocation itself does not fail", "paths that end the process (assertion, exit) need not release anything"]
    c.extra_cov["per_analysis"] = per
    nd = 0
    for g in ask():
        if g[0] == "delete":
            nd += 1
            c.bad("deletion %d of a polymorphic object" % nd, g[1], "deletes through %s, which has virtual functions and no virtual destructor" % g[2])
        elif g[0] == "count":
            c.extra_cov["delete_expressions"] = int(g[4])
            c.ok("deletions through a base class without virtual destructor (%d delete expressions, %d wrong)" % (int(g[4]), nd))
    n, seen = 0, set()
    for g in und():
        if g[0] == "undef" and (g[2], g[1]) not in seen:
            seen.add((g[2], g[1]))
            c.bad("use of an unwritten variable in %s" % g[3][:120], g[2], "%s on a variable that no path has written" % g[1])
        elif g[0] == "count":
            n += int(g[3])
    if n < 500:
        raise Broken("only %d operations of the library seen by the query for unwritten variables" % n)
    c.extra_cov["operations_checked_for_unwritten_operands"] = n
    c.ok("no arithmetic, comparison or branch on an unwritten variable")
