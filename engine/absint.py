"""Abstract interpreter over LLVM IR (as lowered by irdump).

Integers and pointers: constant propagation (region + offset); floats: terms.FNode; conditions: BDDs.
Undecidable branches are analysed on both sides and joined (gated) at the immediate post-dominator.
"""
import json, re, math, sys
from fractions import Fraction
import terms as T
from terms import (FNode, BDD, TRUE, FALSE, bite, bnot, band, bor, bxor, fconst, f_op, f_neg, f_ite, f_call, fcmp, Undecided)


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o):
        self.r, self.o = r, o

    def __eq__(self, b):
        return isinstance(b, Ptr) and self.r == b.r and self.o == b.o

    def __hash__(self):
        return hash((self.r, self.o))

    def __repr__(self):
        return "&%s+%s" % (self.r, self.o)


NULL = Ptr(None, 0)


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class _UArith(object):
    """the result of a computation on an uninitialised value: an error once it is stored, returned, passed or
    branched on, harmless when a select discards it (compilers compute both alternatives ahead of a select)"""

    def __repr__(self):
        return "undef"


UARITH = _UArith()


class ITE:
    """gated non-float value"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "ite(%s,%r,%r)" % (T.bstr(self.c), self.a, self.b)


class IntF:
    """an integer whose value is the (integral) float term f"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "int(%r)" % self.f


ROUNDED = ("trunc", "floor", "ceil")


def rounded(f):
    """f = sign * round(t) + c for a rounding function: (sign, function, t, c)"""
    if f.op == "call" and f.args[0] in ROUNDED:
        a = f.args[1]
        return 1, f.args[0], a[0] if isinstance(a, (tuple, list)) else a, 0
    if f.op == "neg":
        d = rounded(f.args[0])
        return None if d is None else (-d[0], d[1], d[2], -d[3])
    if f.op in ("add", "sub"):
        a, b = f.args[0], f.args[1]
        sg = 1 if f.op == "add" else -1
        if b.op == "const" and b.args[0] == int(b.args[0]):
            d = rounded(a)
            return None if d is None else (d[0], d[1], d[2], d[3] + sg * int(b.args[0]))
        if a.op == "const" and a.args[0] == int(a.args[0]):
            d = rounded(b)
            return None if d is None else (sg * d[0], d[1], d[2], sg * d[3] + int(a.args[0]))
    return None


def int_cond(k, d, j):
    """the condition (sign * round(t) + c) k j as comparisons of t itself"""
    sg, fnm, t, c = d
    j = j - c
    if sg < 0:
        j = -j
        k = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(k, k)
    if k == "lt":
        k, j = "le", j - 1
    elif k == "gt":
        k, j = "ge", j + 1
    if k in ("eq", "ne"):
        e = band(int_cond("ge", (1, fnm, t, 0), j), int_cond("le", (1, fnm, t, 0), j))
        return e if k == "eq" else bnot(e)
    if k == "ge":
        strict = fnm == "ceil" or fnm == "trunc" and j <= 0
        return fcmp("gt", t, fconst(j - 1)) if strict else fcmp("ge", t, fconst(j))
    strict = fnm == "floor" or fnm == "trunc" and j >= 0
    return fcmp("lt", t, fconst(j + 1)) if strict else fcmp("le", t, fconst(j))


class Bits:
    """the bit pattern of a float term, seen as an integer"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Cat:
    """several adjacent cells read as one integer: [(bytes, value)]"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


def tobdd(x):
    if isinstance(x, BDD):
        return x
    if isinstance(x, int):
        return TRUE if x & 1 else FALSE
    if isinstance(x, ITE):
        return bite(x.c, tobdd(x.a), tobdd(x.b))
    if isinstance(x, IntF):
        return fcmp("ne", x.f, fconst(0))
    if x is UNDEF or x is UARITH:
        raise AnalysisStop("undef", "branch or boolean operation on an uninitialised value")
    raise Undecided("not a boolean: %r" % (x,))


def has_undef(x):
    return x is UNDEF or x is UARITH or isinstance(x, ITE) and (has_undef(x.a) or has_undef(x.b))


def has_uarith(x):
    return x is UARITH or isinstance(x, ITE) and (has_uarith(x.a) or has_uarith(x.b)) or isinstance(x, tuple) and any(y is UARITH for y in x)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, Ptr)) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, ITE) and isinstance(b, ITE):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, IntF) and isinstance(b, IntF):
        return a.f is b.f
    if isinstance(a, Bits) and isinstance(b, Bits):
        return a.f is b.f
    if isinstance(a, Cat) and isinstance(b, Cat) and len(a.parts) == len(b.parts):
        return all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.parts, b.parts))
    return False


def gate(c, a, b):
    """ite for any value"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if same(a, b):
        return a
    if a is UNDEF and b is UNDEF:
        return UNDEF
    if isinstance(a, FNode) and isinstance(b, FNode):
        return f_ite(c, a, b)
    if isinstance(a, BDD) or isinstance(b, BDD):
        if has_undef(a) or has_undef(b):
            return ITE(c, a, b)
        return bite(c, tobdd(a), tobdd(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(gate(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Cat) and isinstance(b, Cat) and [x[0] for x in a.parts] == [x[0] for x in b.parts]:
        return Cat([(x[0], gate(c, x[1], y[1])) for x, y in zip(a.parts, b.parts)])
    if isinstance(a, IntF) and isinstance(b, IntF):
        return IntF(f_ite(c, a.f, b.f))
    # simplify nested gates on the same condition
    if isinstance(a, ITE) and a.c is c:
        a = a.a
    if isinstance(b, ITE) and b.c is c:
        b = b.b
    if same(a, b):
        return a
    if isinstance(a, Bits) and isinstance(b, Bits):
        return Bits(f_ite(c, a.f, b.f))
    return ITE(c, a, b)


class AnalysisStop(Exception):
    """A definite error on the current path (out of bounds, use after free, ...)"""

    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg
        Exception.__init__(self, kind + ": " + msg)


class Region:
    __slots__ = ("id", "size", "cells", "kind", "freed", "label", "zero", "owner", "const", "frozen", "esz", "loc", "how", "live", "dead")

    def __init__(self, id, size, kind, label="", zero=False):
        self.id, self.size, self.kind, self.label, self.zero = id, size, kind, label, zero
        self.cells = {}
        self.freed = False
        self.owner = None
        self.const = False
        self.frozen = None
        self.esz = None  # uniform element size, 0 when mixed
        self.loc = 0
        self.how = None
        self.live = TRUE   # condition under which the object has been allocated and not released
        self.dead = FALSE  # condition under which it has been released

    def copy(self, owner):
        r = Region.__new__(Region)
        r.id, r.size, r.kind, r.label, r.zero = self.id, self.size, self.kind, self.label, self.zero
        r.cells = dict(self.cells)
        r.freed, r.owner, r.const, r.frozen, r.esz, r.loc, r.how = self.freed, owner, self.const, self.frozen, self.esz, self.loc, self.how
        r.live, r.dead = self.live, self.dead
        return r


HANG = 400000  # steps after which loops are watched for repeated states


def same_mem(a, mem):
    if a.keys() != mem.keys():
        return False
    for i, (n, cells) in a.items():
        r = mem[i]
        if n != r.size or cells.keys() != r.cells.keys():
            return False
    for i, (n, cells) in a.items():
        rc = mem[i].cells
        for o, v in cells.items():
            w = rc[o]
            if v is not w and v != w:
                return False
    return True


class State:
    __slots__ = ("mem", "tok", "frz")

    def __init__(self):
        self.mem = {}
        self.tok = object()
        self.frz = None

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.frz = self.frz
        self.tok = object()
        return s

    def wr(self, rid):
        r = self.mem[rid]
        if r.owner is not self.tok:
            r = r.copy(self.tok)
            self.mem[rid] = r
        return r


class Exc:
    __slots__ = ("tinfo", "obj", "loc", "what")

    def __init__(self, tinfo, obj, loc, what=None):
        self.tinfo, self.obj, self.loc, self.what = tinfo, obj, loc, what


def parse_ty(s, pos=0):
    """aggregate type string -> ('s', [(off, ty)]) or ('a', n, esz, ty) or scalar string"""
    if s[pos] == "{":
        pos += 1
        els = []
        while s[pos] != "}":
            if s[pos] == ",":
                pos += 1
            m = re.compile(r"(\d+):").match(s, pos)
            off = int(m.group(1))
            t, pos = parse_ty(s, m.end())
            els.append((off, t))
        return ("s", els), pos + 1
    if s[pos] in "[<":
        m = re.compile(r"(\d+)\*(\d+):").match(s, pos + 1)
        t, p = parse_ty(s, m.end())
        return ("a", int(m.group(1)), int(m.group(2)), t), p + 1
    m = re.compile(r"i\d+|[dfxpvhq?]").match(s, pos)
    return m.group(0), m.end()


_tyc = {}


def ty(s):
    t = _tyc.get(s)
    if t is None:
        t = parse_ty(s)[0]
        _tyc[s] = t
    return t


SZ = {"d": 8, "f": 4, "x": 16, "p": 8, "h": 2, "q": 16}


def tsize(t):
    if isinstance(t, str):
        if t[0] == "i":
            return (int(t[1:]) + 7) // 8
        return SZ[t]
    if t[0] == "a":
        return t[1] * t[2]
    if not t[1]:
        return 0
    off, e = t[1][-1]
    return off + tsize(e)


class Func:
    pass


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d["files"]
        self.raw = {f["name"]: f for f in d["functions"]}
        self.globals = {g["name"]: g for g in d["globals"]}
        self.decl = {x[0]: (x[1], x[2]) for x in d["decls"]}
        self.alias = d["aliases"]
        self.dem = {f["name"]: f["dem"] for f in d["functions"]}
        for n, (dm, _) in self.decl.items():
            self.dem[n] = dm
        self.cache = {}

    def loc(self, l):
        if not l:
            return "?"
        return "%s:%d" % (self.files[l // 1000000], l % 1000000)

    def get(self, name):
        f = self.cache.get(name)
        if f is None:
            f = self.decode(self.raw[name])
            self.cache[name] = f
        return f

    def const(self, c, t=None):
        k = c[0]
        if k == "i":
            return int(c[2]) & ((1 << c[1]) - 1)
        if k == "f":
            v = c[1]
            return fconst(float(v) if v in ("nan", "inf", "-inf") else float.fromhex(v))
        if k == "n":
            return NULL
        if k == "g":
            n = self.alias.get(c[1], c[1])
            return Ptr(("F:" if (n in self.raw or n in self.decl) else "G:") + n, c[2])
        if k == "u":
            return UNDEF
        if k == "z":
            return ("Z",)
        if k == "a":
            return tuple(self.const(x) for x in c[1])
        if k == "b":
            return bytes.fromhex(c[1])
        if k in ("md", "asm"):
            return None
        if k == "ce":
            if c[1] in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast") and len(c[3]) == 1:
                return self.const(c[3][0])
            return ("CE", c[1], c[2], tuple(self.const(x) for x in c[3]))
        raise Undecided("constant kind %s" % k)

    def decode(self, raw):
        f = Func()
        f.name, f.dem = raw["name"], raw["dem"]
        f.args = raw["args"]
        f.file = raw.get("file", "")
        f.line = raw.get("line", 0)
        f.n = raw["nvals"]
        consts = []

        def O(x):
            if isinstance(x, int):
                return x
            consts.append(self.const(x))
            return f.n + len(consts) - 1

        f.blocks = []
        f.phis = []
        f.succ = []
        f.exits = []
        for bi, (_, ins) in enumerate(raw["blocks"]):
            out = []
            phis = []
            succ = []
            for i in ins:
                op, dst, loc = i[0], i[1], i[2]
                if op == "phi":
                    phis.append((dst, {b: O(v) for b, v in i[4]}))
                    continue
                if op == "alloca":
                    out.append((op, dst, loc, i[3], O(i[4])))
                elif op == "load":
                    out.append((op, dst, loc, ty(i[3]), i[4], O(i[5])))
                elif op == "store":
                    out.append((op, dst, loc, ty(i[3]), i[4], O(i[5]), O(i[6])))
                elif op == "getelementptr":
                    if i[3] == "bad":
                        out.append(("bad", dst, loc))
                    else:
                        out.append((op, dst, loc, O(i[3]), i[4], tuple((O(v), s, w) for v, s, w in i[5])))
                elif op in ("icmp", "fcmp"):
                    out.append((op, dst, loc, i[3], i[4], O(i[5]), O(i[6])))
                elif op == "br":
                    if i[3] is None:
                        out.append(("jmp", dst, loc, i[4]))
                        succ = [i[4]]
                    else:
                        out.append((op, dst, loc, O(i[3]), i[4], i[5]))
                        succ = [i[4], i[5]]
                elif op == "switch":
                    cs = [(int(c[2]), b) for c, b in i[5]]
                    out.append((op, dst, loc, O(i[3]), i[4], cs))
                    succ = [i[4]] + [b for _, b in cs]
                elif op == "ret":
                    out.append((op, dst, loc, None if i[3] is None else O(i[3])))
                    f.exits.append(bi)
                elif op in ("call", "invoke"):
                    e = (op, dst, loc, i[3], O(i[4]), tuple(O(a) for a in i[5]), tuple(i[6]))
                    if op == "invoke":
                        e += (i[7], i[8])
                        succ = [i[7], i[8]]
                    out.append(e)
                elif op == "landingpad":
                    out.append((op, dst, loc, i[3], tuple((c, O(v)) for c, v in i[4])))
                elif op == "extractvalue":
                    out.append((op, dst, loc, O(i[3]), i[4]))
                elif op == "insertvalue":
                    out.append((op, dst, loc, ty(i[3]), O(i[4]), O(i[5]), i[6]))
                elif op == "shufflevector":
                    out.append((op, dst, loc, ty(i[3]), O(i[4]), O(i[5]), i[6]))
                elif op == "atomicrmw":
                    out.append((op, dst, loc, ty(i[3]), i[4], i[5], O(i[6]), O(i[7])))
                else:
                    out.append((op, dst, loc, i[3], tuple(O(a) for a in i[4]), tuple(i[5])))
            f.blocks.append(out)
            f.phis.append(phis)
            f.succ.append(succ)
        f.consts = consts
        f.ipdom = None
        f.deadend = None
        f.relv = None
        return f

    @staticmethod
    def uses(i):
        op = i[0]
        if op in ("alloca",):
            return (i[4],)
        if op == "load":
            return (i[5],)
        if op == "store":
            return (i[5], i[6])
        if op == "getelementptr":
            return (i[3],) + tuple(v[0] for v in i[5])
        if op in ("icmp", "fcmp"):
            return (i[5], i[6])
        if op in ("bad", "jmp"):
            return ()
        if op in ("br", "switch", "extractvalue"):
            return (i[3],)
        if op == "ret":
            return () if i[3] is None else (i[3],)
        if op in ("call", "invoke"):
            return (i[4],) + i[5]
        if op == "landingpad":
            return tuple(v for _, v in i[4])
        if op in ("insertvalue", "shufflevector"):
            return (i[4], i[5])
        if op == "atomicrmw":
            return (i[6], i[7])
        return i[4]

    def relive(self, f, j):
        """values computed inside a cycle of the CFG that are live on entry to block j (phis of j excluded):
        they may have been recomputed on the way to a join at j, which therefore has to gate them."""
        if f.relv is None:
            n = len(f.blocks)
            # blocks on a cycle (Tarjan)
            idx, low, onst, stk, cyc = {}, {}, set(), [], set()
            cnt = [0]
            for root in range(n):
                if root in idx:
                    continue
                work = [(root, iter(f.succ[root]))]
                idx[root] = low[root] = cnt[0]; cnt[0] += 1
                stk.append(root); onst.add(root)
                while work:
                    x, it = work[-1]
                    for y in it:
                        if y not in idx:
                            idx[y] = low[y] = cnt[0]; cnt[0] += 1
                            stk.append(y); onst.add(y)
                            work.append((y, iter(f.succ[y])))
                            break
                        elif y in onst:
                            low[x] = min(low[x], idx[y])
                    else:
                        work.pop()
                        if work:
                            low[work[-1][0]] = min(low[work[-1][0]], low[x])
                        if low[x] == idx[x]:
                            comp = []
                            while True:
                                y = stk.pop(); onst.discard(y); comp.append(y)
                                if y == x:
                                    break
                            if len(comp) > 1 or x in f.succ[x]:
                                cyc.update(comp)
            cdef = 0
            pad = any(bl and bl[0][0] == "landingpad" and b in self.ipdoms(f) for b, bl in enumerate(f.blocks))
            use, dfn, pdef = [0] * n, [0] * n, [0] * n
            out0 = [0] * n  # uses by phis of successors, on the edge
            for b in range(n):
                d = 0
                for k, mm in f.phis[b]:
                    d |= 1 << k
                    for p, v in mm.items():
                        if v < f.n:
                            out0[p] |= 1 << v
                pdef[b] = d
                u = 0
                for i in f.blocks[b]:
                    for v in self.uses(i):
                        if v < f.n and not (d >> v) & 1:
                            u |= 1 << v
                    if i[1] >= 0:
                        d |= 1 << i[1]
                use[b], dfn[b] = u, d
                if b in cyc or pad:
                    cdef |= d
            lin = [0] * n
            if cdef:
                ch = True
                while ch:
                    ch = False
                    for b in range(n - 1, -1, -1):
                        o = out0[b]
                        for s in f.succ[b]:
                            o |= lin[s]
                        v = use[b] | (o & ~dfn[b])
                        if v != lin[b]:
                            lin[b] = v
                            ch = True
            res = []
            for b in range(n):
                v = lin[b] & cdef & ~pdef[b]
                l = []
                while v:
                    t = v & -v
                    l.append(t.bit_length() - 1)
                    v ^= t
                res.append(tuple(l))
            f.relv = res
        return f.relv[j] if 0 <= j < len(f.relv) else ()

    def ipdoms(self, f):
        """immediate post-dominators on the part of the CFG that can reach a return"""
        if f.ipdom is not None:
            return f.ipdom
        n = len(f.blocks)
        pred = [[] for _ in range(n)]
        for b, ss in enumerate(f.succ):
            for s in ss:
                pred[s].append(b)
        live = set(f.exits)
        st = list(live)
        while st:
            b = st.pop()
            for p in pred[b]:
                if p not in live:
                    live.add(p)
                    st.append(p)
        # reverse post order from virtual exit
        EXIT = n
        order = []
        seen = set()

        def dfs(root):
            stack = [(root, iter(f.exits if root == EXIT else pred[root]))]
            seen.add(root)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y in live and y not in seen:
                        seen.add(y)
                        stack.append((y, iter(pred[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()

        dfs(EXIT)
        num = {b: i for i, b in enumerate(order)}
        idom = {EXIT: EXIT}
        changed = True
        rpo = [b for b in reversed(order) if b != EXIT]
        while changed:
            changed = False
            for b in rpo:
                ss = [s for s in f.succ[b] if s in live]
                if b in f.exits:
                    ss = ss + [EXIT]
                new = None
                for s in ss:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            x, y = new, s
                            while x != y:
                                while num[x] < num[y]:
                                    x = idom[x]
                                while num[y] < num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        # paths are not joined at a landing pad, where the exceptions in flight may differ, but at the next common block
        pads = {b for b in range(n) if f.blocks[b] and f.blocks[b][0][0] == "landingpad"}
        for b in list(idom):
            while idom[b] in pads:
                idom[b] = idom.get(idom[b], EXIT)
        f.ipdom = {b: (None if d == EXIT else d) for b, d in idom.items() if b != EXIT}
        return f.ipdom


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Frame:
    __slots__ = ("f", "excs", "allocas", "loc", "caller")


STD_BASES = {
    "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception",
    "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
    "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12domain_error": "_ZTISt11logic_error",
    "_ZTISt14overflow_error": "_ZTISt13runtime_error", "_ZTISt11range_error": "_ZTISt13runtime_error",
    "_ZTISt15underflow_error": "_ZTISt13runtime_error",
    "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc", "_ZTISt8bad_cast": "_ZTISt9exception",
}


class Interp:
    def __init__(self, module, uninterpreted=(), budget=3000000):
        self.m = module
        self.st0 = State()
        self.nreg = 0
        self.events = []      # definite errors found (oob, uaf, ...)
        self.outcomes = []    # exit/abort/assert
        self.steps = 0
        self.budget = budget
        self.frames = []
        self.unint = [(re.compile(p), fn) for p, fn in uninterpreted]
        self._ucache = {}
        self.tids = {}
        self.called = set()
        self.globals_written = {}
        self.frozen_writes = []
        self.atomic = False   # inside an atomic read-modify-write
        self.initing = 0      # inside the one-time initialisation of a function static
        self.locked = 0       # holding a mutex
        self.threads = False  # analyse the multi-threaded variant of the standard library
        self.guard = 0
        self.track_undef = True
        self.feas_extra = ()
        self.cur = None
        self.mutable_globals_read = set()

    # ------------------------------------------------------------------------------------ memory
    def new_region(self, st, size, kind, label="", zero=False):
        self.nreg += 1
        r = Region(self.nreg, size, kind, label, zero)
        r.owner = st.tok
        st.mem[r.id] = r
        r.loc = self.cur_loc()
        return r

    def alloc_array(self, st, vals, esz=8, label="input"):
        r = self.new_region(st, len(vals) * esz, "input", label)
        for i, v in enumerate(vals):
            r.cells[i * esz] = (esz, v)
        r.esz = esz
        return Ptr(r.id, 0)

    def cur_loc(self):
        return self.frames[-1].loc if self.frames else 0

    def where(self):
        """innermost location inside the repository sources"""
        for fr in reversed(self.frames):
            l = self.m.loc(fr.loc)
            if "/MathUtils/" in l:
                return "%s in %s" % (l, short(fr.f.dem))
        if self.frames:
            fr = self.frames[-1]
            return "%s in %s" % (self.m.loc(fr.loc), short(fr.f.dem))
        return "?"

    def region(self, st, rid):
        r = st.mem.get(rid)
        if r is not None:
            return r
        if isinstance(rid, str) and rid[0] == "G":
            g = self.m.globals.get(rid[2:])
            if g is None:
                raise Undecided("unknown global %s" % rid)
            r = Region(rid, g["size"], "global", g["dem"])
            r.const = g["const"]
            if "init" in g:
                self.init_cells(r, 0, ty(g["ty"]), self.m.const(g["init"]))
            else:
                r.kind = "extern"
                if g["name"] == "__libc_single_threaded":
                    r.cells[0] = (1, 0 if self.threads else 1)
            r.esz = 0
            st.mem[rid] = r
            # also visible in the initial state of other arms: regions are created lazily and identically
            return r
        raise Undecided("no region %s" % (rid,))

    def init_cells(self, r, off, t, c):
        if isinstance(c, tuple) and c and c[0] == "Z" and len(c) == 1:
            # zero of type t
            if isinstance(t, str):
                r.cells[off] = (tsize(t), self.zero_of(t))
            elif t[0] == "s":
                for o, e in t[1]:
                    self.init_cells(r, off + o, e, c)
            elif t[1] * t[2] > 4096:
                r.zero = True
            else:
                for i in range(t[1]):
                    self.init_cells(r, off + i * t[2], t[3], c)
            return
        if isinstance(c, bytes):
            for i, b in enumerate(c):
                r.cells[off + i] = (1, b)
            return
        if isinstance(t, str):
            if isinstance(c, tuple) and c and c[0] == "CE":
                c = UNDEF
            r.cells[off] = (tsize(t), c)
            return
        if c is UNDEF:
            return
        if t[0] == "s":
            for (o, e), x in zip(t[1], c):
                self.init_cells(r, off + o, e, x)
        else:
            for i, x in enumerate(c):
                self.init_cells(r, off + i * t[2], t[3], x)

    def zero_of(self, t):
        if isinstance(t, str):
            if t == "p":
                return NULL
            if t[0] == "i":
                return 0
            return fconst(0.0)
        if t[0] == "s":
            return tuple(self.zero_of(e) for _, e in t[1])
        return tuple(self.zero_of(t[3]) for _ in range(t[1]))

    def chk(self, st, p, size, what):
        if not isinstance(p, Ptr):
            if p is UNDEF:
                raise AnalysisStop("undef", "%s through an uninitialised pointer" % what)
            if isinstance(p, int) and p == 0:
                raise AnalysisStop("null", "%s through a null pointer" % what)
            raise Undecided("%s through a non-pointer %r" % (what, p))
        if p.r is None:
            raise AnalysisStop("null", "%s through a null pointer" % what)
        r = st.mem.get(p.r)
        if r is None:
            if isinstance(p.r, str) and p.r[0] == "F":
                raise Undecided("%s of code memory" % what)
            r = self.region(st, p.r)
        if r.freed:
            raise AnalysisStop("use-after-free" if r.kind != "stack" else "use-after-scope", "%s of released memory (%s)" % (what, r.label or r.kind))
        if r.dead is not FALSE:
            d = band(self.pc, r.dead)
            if d is not FALSE and self.feas(d):
                self.event(AnalysisStop("use-after-free", "%s of released memory (%s)" % (what, r.label or r.kind)), d)
        if p.o < 0 or p.o + size > r.size:
            raise AnalysisStop("out-of-bounds", "%s of %d bytes at offset %d of a %d-byte object (%s)" % (what, size, p.o, r.size, r.label or r.kind))
        return r

    def load(self, st, p, t, size):
        if isinstance(p, ITE):
            return gate(p.c, self.load_guard(st, p.a, t, size, p.c), self.load_guard(st, p.b, t, size, bnot(p.c)))
        if not isinstance(t, str):
            return self.load_agg(st, p, t)
        r = self.chk(st, p, size, "read")
        c = r.cells.get(p.o)
        if c is not None and c[0] == size:
            return self.coerce(c[1], t)
        if c is None and r.esz and r.esz == size and p.o % size == 0:
            if r.zero:
                return self.zero_of(t)
            return UNDEF
        return self.load_slow(r, p.o, t, size)

    def load_guard(self, st, p, t, size, c):
        pc = band(self.pc, c)
        if pc is FALSE or not self.feas(pc):
            return UNDEF
        old = self.pc
        self.pc = pc
        try:
            return self.load(st, p, t, size)
        except AnalysisStop as e:
            self.event(e, pc)
            return UNDEF
        finally:
            self.pc = old

    def feas(self, pc):
        return T.feasible(pc, self.feas_extra)

    def load_agg(self, st, p, t):
        if t[0] == "s":
            return tuple(self.load(st, Ptr(p.r, p.o + o), e, tsize(e)) for o, e in t[1])
        return tuple(self.load(st, Ptr(p.r, p.o + i * t[2]), t[3], tsize(t[3])) for i in range(t[1]))

    def coerce(self, v, t):
        if v is UNDEF:
            return v
        if t == "p":
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            return v
        k = t[0]
        if k == "i":
            if isinstance(v, FNode):
                if v.op == "const" and v.args[0] == 0 and math.copysign(1, v.args[0]) > 0:
                    return 0
                return Bits(v)
            if v is NULL:
                return v
            return v
        # float wanted
        if isinstance(v, FNode):
            return v
        if isinstance(v, Bits):
            return v.f
        if isinstance(v, int):
            if v == 0:
                return fconst(0.0)
            import struct
            if t == "d":
                return fconst(struct.unpack("<d", struct.pack("<Q", v))[0])
            if t == "f":
                return fconst(struct.unpack("<f", struct.pack("<I", v & 0xffffffff))[0])
        if isinstance(v, ITE):
            return gate(v.c, self.coerce(v.a, t), self.coerce(v.b, t))
        raise Undecided("cannot view %r as %s" % (v, t))

    def bytes_of(self, sz, v):
        """split a cell into per-byte values or None"""
        if v is UNDEF:
            return [UNDEF] * sz
        if isinstance(v, int):
            return [(v >> (8 * i)) & 255 for i in range(sz)]
        if v is NULL or (isinstance(v, Ptr) and v.r is None):
            return [(v.o >> (8 * i)) & 255 for i in range(sz)]
        if isinstance(v, FNode) and v.op == "const":
            import struct
            if sz == 8:
                return list(struct.pack("<d", v.args[0]))
            if sz == 4:
                return list(struct.pack("<f", v.args[0]))
        return None

    def load_slow(self, r, o, t, size):
        bs = []
        i = 0
        while i < size:
            off = o + i
            found = None
            for back in range(0, 16):
                c = r.cells.get(off - back)
                if c is not None and c[0] > back:
                    found = (c, back)
                    break
            if found is None:
                bs.append(0 if r.zero else UNDEF)
                i += 1
                continue
            c, back = found
            b = self.bytes_of(c[0], c[1])
            if b is None:
                if back == 0 and i == 0 and c[0] > size and isinstance(c[1], (ITE, IntF)) and t[0] == "i":
                    return self.int_cast(c[1], c[0] * 8, size * 8, "trunc")
                if t == "i%d" % (size * 8):
                    parts = []
                    k = 0
                    while k < size:
                        c = r.cells.get(o + k)
                        if c is None or k + c[0] > size:
                            break
                        parts.append(c)
                        k += c[0]
                    if k == size and len(parts) > 1:
                        return Cat(parts)
                raise Undecided("mixed-size access to %s" % (r.label or r.kind))
            take = b[back:back + size - i]
            bs += take
            i += len(take)
        if any(x is UNDEF for x in bs):
            return UNDEF
        v = 0
        for i, x in enumerate(bs):
            v |= x << (8 * i)
        return self.coerce(v, t)

    def clear_overlap(self, r, o, size):
        cells = r.cells
        for back in range(1, 16):
            c = cells.get(o - back)
            if c is not None and c[0] > back:
                b = self.bytes_of(c[0], c[1])
                del cells[o - back]
                if b is None:
                    if not (c[0] - back <= size):
                        raise Undecided("partial overwrite of a symbolic cell")
                    b = [UNDEF] * c[0]
                for i, x in enumerate(b):
                    off = o - back + i
                    if off < o or off >= o + size:
                        cells[off] = (1, x)
        for off in range(o, o + size):
            c = cells.get(off)
            if c is not None:
                if off + c[0] > o + size:
                    b = self.bytes_of(c[0], c[1])
                    if b is None:
                        b = [UNDEF] * c[0]
                    for i, x in enumerate(b):
                        if off + i >= o + size:
                            cells[off + i] = (1, x)
                del cells[off]

    def store(self, st, p, t, size, v):
        if isinstance(p, ITE):
            for q, c in ((p.a, p.c), (p.b, bnot(p.c))):
                pc = band(self.pc, c)
                if pc is FALSE or not self.feas(pc):
                    continue
                old = self.load_guard(st, q, t, size, c)
                self.store(st, q, t, size, gate(c, v, old))
            return
        if not isinstance(t, str):
            if v is UNDEF:
                return
            if t[0] == "s":
                for (o, e), x in zip(t[1], v if v != ("Z",) else self.zero_of(t)):
                    self.store(st, Ptr(p.r, p.o + o), e, tsize(e), x)
            else:
                for i, x in enumerate(v if v != ("Z",) else self.zero_of(t)):
                    self.store(st, Ptr(p.r, p.o + i * t[2]), t[3], tsize(t[3]), x)
            return
        if isinstance(v, Cat):
            k = 0
            for sz, x in v.parts:
                self.store(st, Ptr(p.r, p.o + k), "i%d" % (sz * 8), sz, x)
                k += sz
            return
        r = self.chk(st, p, size, "write")
        self.note_write(st, r)
        if r.owner is not st.tok:
            r = st.wr(p.r)
        if isinstance(v, BDD):
            v = ITE(v, 1, 0) if v is not TRUE and v is not FALSE else (1 if v is TRUE else 0)
        if r.esz is None:
            r.esz = size if p.o % size == 0 else 0
        if r.esz != size or p.o % size:
            if r.esz:
                r.esz = 0
            self.clear_overlap(r, p.o, size)
        r.cells[p.o] = (size, v)

    def note_write(self, st, r, what="write to"):
        if r.kind == "global" or r.kind == "extern":
            if r.const:
                raise AnalysisStop("write-const", "write to constant %s" % r.label)
            self.globals_written.setdefault(r.label, self.where())
        if st.frz is not None and not self.atomic and not self.initing and not self.locked:
            if r.kind in ("global", "extern"):
                g = self.m.globals.get(str(r.id)[2:])
                if not (g and g.get("tls")):
                    self.frozen_writes.append(("%s the global or static object %s" % (what, r.label), self.where()))
            elif isinstance(r.id, int) and r.id <= st.frz[0] and r.id != st.frz[1]:
                self.frozen_writes.append(("%s %s memory that existed before the evaluation%s" % (what, r.kind, " (%s)" % r.label if r.label else ""), self.where()))

    def memcpy(self, st, d, s, n, move=False):
        if isinstance(n, ITE):
            raise Undecided("memcpy of gated size")
        if not isinstance(n, int):
            raise Undecided("memcpy of unknown size %r" % (n,))
        if n == 0:
            return
        if isinstance(s, ITE) or isinstance(d, ITE):
            # gated: copy word by word when 8-aligned
            if n % 8:
                raise Undecided("gated memcpy")
            vals = [self.load(st, self.padd(s, i), "i64", 8) for i in range(0, n, 8)]
            for i, v in zip(range(0, n, 8), vals):
                self.store(st, self.padd(d, i), "i64", 8, v.f if isinstance(v, Bits) else v)
            return
        rs = self.chk(st, s, n, "read")
        rd = self.chk(st, d, n, "write")
        self.note_write(st, rd)
        if rs.id == rd.id and not move and abs(s.o - d.o) < n and s.o != d.o:
            raise AnalysisStop("overlap", "memcpy of overlapping memory")
        src = []
        # cells inside; split at the edges
        if rs.zero:
            src = None
        else:
            if len(rs.cells) <= n:
                items = sorted((o, c) for o, c in rs.cells.items() if o + c[0] > s.o and o < s.o + n)
            else:
                items = []
                o = s.o
                for back in range(15, 0, -1):
                    c = rs.cells.get(o - back)
                    if c is not None and c[0] > back:
                        items.append((o - back, c))
                for off in range(o, o + n):
                    c = rs.cells.get(off)
                    if c is not None:
                        items.append((off, c))
            for o, c in items:
                if o >= s.o and o + c[0] <= s.o + n:
                    src.append((o - s.o, c))
                else:
                    b = self.bytes_of(c[0], c[1])
                    if b is None:
                        raise Undecided("memcpy splits a symbolic cell")
                    for i, x in enumerate(b):
                        if s.o <= o + i < s.o + n and x is not UNDEF:
                            src.append((o + i - s.o, (1, x)))
        if rd.owner is not st.tok:
            rd = st.wr(d.r)
        if src is None:
            src = []
            o = 0
            while o < n:
                c = rs.cells.get(s.o + o)
                if c is not None:
                    src.append((o, c))
                    o += c[0]
                else:
                    src.append((o, (1, 0)))
                    o += 1
        self.clear_overlap(rd, d.o, n)
        for o, c in src:
            rd.cells[d.o + o] = c
            if rd.esz is None:
                rd.esz = c[0] if (d.o + o) % c[0] == 0 else 0
            elif rd.esz and (rd.esz != c[0] or (d.o + o) % c[0]):
                rd.esz = 0

    def memset(self, st, d, v, n):
        if not isinstance(n, int):
            raise Undecided("memset of unknown size")
        if n == 0:
            return
        r = self.chk(st, d, n, "write")
        self.note_write(st, r)
        if r.owner is not st.tok:
            r = st.wr(d.r)
        self.clear_overlap(r, d.o, n)
        o = 0
        if isinstance(v, int) and r.esz and r.esz in (2, 4, 8) and d.o % r.esz == 0 and n % r.esz == 0:
            w = 0
            for i in range(r.esz):
                w |= v << (8 * i)
            for o in range(0, n, r.esz):
                r.cells[d.o + o] = (r.esz, w)
            return
        if isinstance(v, int) and d.o % 8 == 0 and n % 8 == 0 and r.esz in (None, 8):
            w = 0
            for i in range(8):
                w |= v << (8 * i)
            for o in range(0, n, 8):
                r.cells[d.o + o] = (8, w)
            r.esz = 8
            return
        r.esz = 0 if r.esz != 1 else 1
        while o < n:
            if (d.o + o) % 8 == 0 and o + 8 <= n and isinstance(v, int):
                w = 0
                for i in range(8):
                    w |= v << (8 * i)
                r.cells[d.o + o] = (8, w)
                o += 8
                r.esz = 0
            else:
                r.cells[d.o + o] = (1, v)
                o += 1

    def padd(self, p, n):
        if isinstance(p, Ptr):
            return Ptr(p.r, p.o + n)
        if isinstance(p, ITE):
            return ITE(p.c, self.padd(p.a, n), self.padd(p.b, n))
        if p is UNDEF:
            return UNDEF
        if isinstance(p, int):
            return Ptr(None, p + n)
        raise Undecided("pointer arithmetic on %r" % (p,))

    # ------------------------------------------------------------------------------- integer ops
    def lift2(self, f, a, b, depth=0):
        if depth > 60:
            raise Undecided("gated integer too deep")
        if isinstance(a, ITE):
            if isinstance(b, ITE) and b.c is a.c:
                return gate(a.c, self.lift2(f, a.a, b.a, depth + 1), self.lift2(f, a.b, b.b, depth + 1))
            return gate(a.c, self.lift2(f, a.a, b, depth + 1), self.lift2(f, a.b, b, depth + 1))
        if isinstance(b, ITE):
            return gate(b.c, self.lift2(f, a, b.a, depth + 1), self.lift2(f, a, b.b, depth + 1))
        return f(a, b)

    def int_cast(self, v, w, w2, op):
        if isinstance(v, int):
            if op == "trunc":
                return v & ((1 << w2) - 1)
            if op == "zext":
                return v
            return sgn(v, w) & ((1 << w2) - 1)
        if isinstance(v, BDD):
            if op == "zext":
                return 1 if v is TRUE else 0 if v is FALSE else ITE(v, 1, 0)
            if op == "sext":
                m = (1 << w2) - 1
                return m if v is TRUE else 0 if v is FALSE else ITE(v, m, 0)
            return v
        if isinstance(v, ITE):
            r = gate(v.c, self.int_cast(v.a, w, w2, op), self.int_cast(v.b, w, w2, op))
            return tobdd(r) if w2 == 1 else r
        if v is UNDEF:
            return v
        if isinstance(v, IntF):
            return v
        if isinstance(v, (Ptr, Bits)) and w2 >= 64:
            return v
        if isinstance(v, Cat) and op == "trunc":
            if v.parts[0][0] * 8 == w2:
                return v.parts[0][1]
        if isinstance(v, Cat) and op == "zext":
            return Cat(v.parts + [((w2 - w) // 8, 0)])
        if isinstance(v, Ptr) and op == "trunc":
            return v.o & ((1 << w2) - 1)
        raise Undecided("int cast of %r" % (v,))

    def binop(self, op, a, b, w):
        if type(a) is int and type(b) is int:
            m = (1 << w) - 1
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                if b >= w:
                    raise AnalysisStop("shift", "shift by %d of a %d-bit value" % (b, w))
                return (a << b) & m
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sgn(a, w) >> b) & m if b < w else 0
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    raise AnalysisStop("div0", "integer division by zero")
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                if op == "sdiv":
                    return q & m
                return (x - q * y) & m
        if w == 1:
            if a is UARITH or b is UARITH:
                return UARITH
            x, y = tobdd(a), tobdd(b)
            if op == "and":
                return band(x, y)
            if op == "or":
                return bor(x, y)
            if op in ("xor", "add", "sub"):
                return bxor(x, y)
            raise Undecided("i1 op " + op)
        if isinstance(a, (ITE, BDD)) or isinstance(b, (ITE, BDD)):
            if isinstance(a, BDD):
                a = self.int_cast(a, 1, w, "zext")
            if isinstance(b, BDD):
                b = self.int_cast(b, 1, w, "zext")
            return self.lift2(lambda x, y: self.binop(op, x, y, w), a, b)
        if a is UARITH or b is UARITH:
            return UARITH
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_int(op, a, b, w)
        if isinstance(a, Bits) or isinstance(b, Bits):
            x, k = (a, b) if isinstance(a, Bits) else (b, a)
            if isinstance(k, int) and w == 64:
                if op == "and" and k == 0x7fffffffffffffff:
                    return Bits(self.fabs(x.f))
                if op == "xor" and k == 1 << 63:
                    return Bits(f_neg(x.f))
            raise Undecided("bit operation on a symbolic float")
        fa = a.f if isinstance(a, IntF) else fconst(sgn(a, w)) if isinstance(a, int) else None
        fb = b.f if isinstance(b, IntF) else fconst(sgn(b, w)) if isinstance(b, int) else None
        if fa is not None and fb is not None:
            if op in ("add", "sub", "mul"):
                return IntF(f_op(op, fa, fb))
            if op == "shl" and isinstance(b, int):
                return IntF(f_op("mul", fa, fconst(1 << b)))
            if op in ("sdiv", "udiv") and isinstance(b, int):
                return IntF(f_call("trunc", [f_op("div", fa, fb)]))
            if isinstance(b, int) and (op in ("srem", "urem") or op == "and" and b & (b + 1) == 0):
                r = self.int_mod(fa, sgn(b, w) + (1 if op == "and" else 0), op)
                if r is not None:
                    return r & ((1 << w) - 1)
            if op in ("srem", "urem"):
                return IntF(f_call("fmod", [fa, fb]))
            return IntF(f_call("int_" + op, [fa, fb]))
        raise Undecided("%s of %r and %r" % (op, a, b))

    def int_mod(self, f, k, op):
        """remainder of an integer term by the constant k: congruence domain (symbols named int:* are integers)"""
        n = T.norm(f)
        if not isinstance(n, T.Leaf) or n.r[1] or k <= 0:
            return None
        rest = 0
        for m, c in n.r[0].items():
            if c.denominator != 1:
                return None
            if m == T.ONE:
                rest = int(c)
                continue
            if c % k or not all(T.Atom.all[a].fn == "sym" and T.Atom.all[a].name.startswith("int:") for a, _ in m):
                return None
        if op == "and":
            return rest % k
        s = T.rsign(n.r)
        if s in ("pos", "nn", "zero"):
            return rest % k
        if op == "srem" and s in ("neg", "np"):
            return -((-rest) % k)
        if op == "srem" and rest % k == 0:
            return 0
        return None

    def ptr_int(self, op, a, b, w):
        if op == "sub":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r:
                    return (a.o - b.o) & ((1 << w) - 1)
                raise AnalysisStop("ptrdiff", "difference of pointers into different objects")
            if isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.r, a.o - sgn(b, w))
        if op == "add":
            if isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.r, a.o + sgn(b, w))
            if isinstance(b, Ptr) and isinstance(a, int):
                return Ptr(b.r, b.o + sgn(a, w))
        if op == "and":
            p, k = (a, b) if isinstance(a, Ptr) else (b, a)
            if isinstance(k, int):
                if k < 4096:
                    return p.o & k
                s = sgn(k, w)
                if s < 0 and (-s) & (-s - 1) == 0:
                    return Ptr(p.r, p.o & s)
        if isinstance(a, Cat) and op == "lshr" and isinstance(b, int):
            parts, k = list(a.parts), b
            while k > 0 and parts and parts[0][0] * 8 <= k:
                k -= parts[0][0] * 8
                parts.pop(0)
            if k == 0:
                return Cat(parts + [(b // 8, 0)])
        if op in ("udiv", "urem", "lshr", "sdiv", "ashr") and isinstance(a, Ptr) and isinstance(b, int):
            if a.r is None:
                return self.binop(op, a.o, b, w)
            if op == "urem" and b & (b - 1) == 0:
                return a.o % b
        if isinstance(a, Ptr) and a.r is None and isinstance(b, int):
            return self.binop(op, a.o, b, w)
        raise Undecided("pointer arithmetic %s" % op)

    def icmp(self, pred, t, a, b):
        if type(a) is int and type(b) is int:
            if pred == "eq":
                return TRUE if a == b else FALSE
            if pred == "ne":
                return TRUE if a != b else FALSE
            if pred[0] == "s":
                w = int(t[1:])
                a, b = sgn(a, w), sgn(b, w)
            k = pred[1:]
            return TRUE if (a < b if k == "lt" else a <= b if k == "le" else a > b if k == "gt" else a >= b) else FALSE
        if t == "i1":
            x, y = tobdd(a), tobdd(b)
            if pred == "eq":
                return bnot(bxor(x, y))
            if pred == "ne":
                return bxor(x, y)
            if pred == "ugt":
                return band(x, bnot(y))
            if pred == "ult":
                return band(y, bnot(x))
        if isinstance(a, (ITE, BDD)) or isinstance(b, (ITE, BDD)):
            if isinstance(a, BDD):
                a = ITE(a, 1, 0)
            if isinstance(b, BDD):
                b = ITE(b, 1, 0)
            v = self.lift2(lambda x, y: self.icmp(pred, t, x, y), a, b)
            return v if has_undef(v) else tobdd(v)
        if a is UNDEF or b is UNDEF or a is UARITH or b is UARITH:
            return UARITH
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int):
                a = Ptr(None, a)
            if isinstance(b, int):
                b = Ptr(None, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if pred == "eq":
                    return TRUE if a == b else FALSE
                if pred == "ne":
                    return FALSE if a == b else TRUE
                k = pred[1:]
                if a.r == b.r:
                    x, y = a.o, b.o
                else:
                    x, y = (0 if a.r is None else 1, str(a.r)), (0 if b.r is None else 1, str(b.r))
                return TRUE if (x < y if k == "lt" else x <= y if k == "le" else x > y if k == "gt" else x >= y) else FALSE
        if isinstance(a, Bits) and isinstance(b, Bits) and a.f is b.f and pred in ("eq", "ne"):
            return TRUE if pred == "eq" else FALSE
        if isinstance(a, Bits) and isinstance(b, int) and (pred, b) in (("slt", 0), ("sgt", (1 << int(t[1:])) - 1)):
            # the sign bit
            neg = fcmp("lt", a.f, fconst(0))
            return neg if pred == "slt" else bnot(neg)
        w = int(t[1:]) if t[0] == "i" else 64
        fa = a.f if isinstance(a, IntF) else fconst(sgn(a, w)) if isinstance(a, int) else None
        fb = b.f if isinstance(b, IntF) else fconst(sgn(b, w)) if isinstance(b, int) else None
        if fa is not None and fb is not None:
            k = pred if pred in ("eq", "ne") else pred[1:]
            for x, y, fl in ((fa, fb, False), (fb, fa, True)):
                if y.op == "const" and y.args[0] == int(y.args[0]):
                    d = rounded(x)
                    if d is not None:
                        return int_cond({"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(k, k) if fl else k, d, int(y.args[0]))
            return fcmp(k, fa, fb)
        raise Undecided("comparison of %r and %r" % (a, b))

    def fabs(self, f):
        if f.op == "const":
            return fconst(abs(f.args[0]))
        return f_ite(fcmp("ge", f, fconst(0)), f, f_neg(f))

    def flop(self, op, a, b, loc):
        """an operation that cannot fail by itself; an indeterminate operand makes the result indeterminate"""
        if has_undef(a) or has_undef(b):
            a, b = self.defined(a, self.pc), self.defined(b, self.pc)
            if a is UNDEF or b is UNDEF or a is UARITH or b is UARITH:
                return UARITH
            if isinstance(a, ITE) and has_undef(a):
                return gate(a.c, self.flop(op, a.a, b, loc), self.flop(op, a.b, b, loc))
            if isinstance(b, ITE) and has_undef(b):
                return gate(b.c, self.flop(op, a, b.a, loc), self.flop(op, a, b.b, loc))
        if op == "neg":
            return f_neg(self.fl(a), loc)
        return f_op(op, self.fl(a), self.fl(b), loc)

    def used(self, v, what):
        """v leaves the expression it was computed in"""
        if (isinstance(v, ITE) or isinstance(v, tuple) or v is UARITH) and has_uarith(v):
            if isinstance(v, ITE):
                v = self.defined(v, self.pc)
            if has_uarith(v):
                raise AnalysisStop("undef", "%s a value computed from an uninitialised one" % what)

    def fl(self, v):
        if isinstance(v, FNode):
            return v
        if v is UNDEF or v is UARITH:
            raise AnalysisStop("undef", "arithmetic on an uninitialised value")
        if isinstance(v, ITE):
            # a side of the gate that is infeasible on this path is ignored
            old = self.pc
            out = []
            for x, c in ((v.a, v.c), (v.b, bnot(v.c))):
                p = band(old, c)
                if p is FALSE or not self.feas(p):
                    out.append(None)
                    continue
                self.pc = p
                try:
                    out.append(self.fl(x))
                finally:
                    self.pc = old
            a, b = out
            if a is None or b is None:
                return b if a is None else a
            return f_ite(v.c, a, b)
        if isinstance(v, (int, Bits)):
            return self.coerce(v, "d")
        raise Undecided("float expected, got %r" % (v,))

    # ------------------------------------------------------------------------------------ calls
    def event(self, e, pc=None):
        self.events.append({"kind": e.kind, "msg": e.msg, "where": self.where(), "pc": pc if pc is not None else self.pc})

    def run_root(self, name, args, st=None, pc=TRUE):
        """Analyse the function from an initial state. Returns (ret, st, pc, excs)."""
        st = st or self.st0
        self.pc = pc
        return self.call(name, args, st, pc)

    def call(self, name, args, st, pc):
        if len(self.frames) > 400:
            raise Undecided("call depth")
        f = self.m.get(name)
        self.called.add(name)
        fr = Frame()
        fr.f, fr.excs, fr.allocas, fr.loc = f, [], [], 0
        vals = [None] * f.n + f.consts
        for i, a in enumerate(args[:len(f.args)]):
            if len(f.args[i]) > 1:  # byval
                r = self.new_region(st, f.args[i][2], "stack", "byval")
                self.memcpy(st, Ptr(r.id, 0), a, f.args[i][2])
                a = Ptr(r.id, 0)
                fr.allocas.append(r.id)
            vals[i] = a
        self.frames.append(fr)
        try:
            res = self.run(fr, vals, 0, -1, st, pc, -2)
        finally:
            self.frames.pop()
        for s in ([res[2]] if res else []) + [e[2] for e in fr.excs]:
            for rid in fr.allocas:
                if rid in s.mem:
                    s.wr(rid).freed = True
                    s.mem[rid].cells = {}
        if res is None:
            return (None, None, FALSE, fr.excs)
        return (res[1], res[2], res[3], fr.excs)

    def phi_vals(self, f, b, prev, vals):
        ph = f.phis[b]
        if not ph:
            return ()
        return tuple((d, vals[m[prev]]) for d, m in ph)

    def merge_states(self, c, a, b):
        """gate two states: a when c else b"""
        if a is b:
            return a
        out = State()
        out.frz = a.frz
        am, bm = a.mem, b.mem
        mem = out.mem
        for rid, ra in am.items():
            rb = bm.get(rid)
            if rb is ra:
                mem[rid] = ra
                continue
            if rb is None:
                if ra.kind == "heap" and not ra.freed:
                    ra = ra.copy(out.tok)
                    ra.live, ra.dead = band(c, ra.live), band(c, ra.dead)
                mem[rid] = ra
                continue
            r = ra.copy(out.tok)
            if ra.live is not rb.live or ra.dead is not rb.dead:
                r.live = bor(band(c, ra.live), band(bnot(c), rb.live))
                r.dead = bor(band(c, ra.dead), band(bnot(c), rb.dead))
            if ra.freed != rb.freed:
                # released on one side only
                r.freed = True if r.kind == "stack" else "maybe"
                if r.kind != "stack":
                    live = rb if ra.freed else ra
                    r.cells = dict(live.cells)
                    r.freed = False
                    r.how = ("maybe-freed", c if ra.freed else bnot(c))
                mem[rid] = r
                continue
            if ra.freed:
                mem[rid] = r
                continue
            ca, cb = ra.cells, rb.cells
            if ca.keys() != cb.keys() or ra.esz != rb.esz:
                r.esz = ra.esz if ra.esz == rb.esz else (ra.esz if rb.esz is None else rb.esz if ra.esz is None else 0)
                for o in list(set(ca) | set(cb)):
                    x, y = ca.get(o), cb.get(o)
                    if x is None:
                        d = (y[0], 0 if ra.zero else UNDEF)
                        if any(o + i in ca for i in range(1, y[0])):
                            if o not in r.cells:
                                self._bytesplit(r, o, y, c, ra, rb)
                            continue
                        r.cells[o] = (y[0], gate(c, d[1], y[1]))
                    elif y is None:
                        d = (x[0], 0 if rb.zero else UNDEF)
                        r.cells[o] = (x[0], gate(c, x[1], d[1]))
                    elif x[0] == y[0]:
                        r.cells[o] = (x[0], gate(c, x[1], y[1]))
                    else:
                        r.cells[o] = (x[0], UNDEF)
                mem[rid] = r
                continue
            for o, x in ca.items():
                y = cb[o]
                if x is y or (x[0] == y[0] and same(x[1], y[1])):
                    continue
                if x[0] != y[0]:
                    r.cells[o] = (x[0], UNDEF)
                else:
                    r.cells[o] = (x[0], gate(c, x[1], y[1]))
            mem[rid] = r
        for rid, rb in bm.items():
            if rid not in am:
                if rb.kind == "heap" and not rb.freed:
                    rb = rb.copy(out.tok)
                    rb.live, rb.dead = band(bnot(c), rb.live), band(bnot(c), rb.dead)
                mem[rid] = rb
        return out

    def _bytesplit(self, r, o, y, c, ra, rb):
        return

    def run(self, fr, vals, b, prev, st, pc, stop):
        """Execute from block b (entered from prev) until block `stop` or a return.
        Returns ('ret', val, st, pc) or ('stop', phivals, st, pc) or None."""
        f = fr.f
        blocks = f.blocks
        snap, turns = None, 0
        while True:
            if b == stop and prev != -3:
                return ("stop", self.phi_vals(f, b, prev, vals) + tuple([(i, vals[i]) for i in self.m.relive(f, b)]), st, pc)
            if prev >= 0:
                for d, v in self.phi_vals(f, b, prev, vals):
                    vals[d] = v
            try:
                r = self.block(fr, vals, b, st, pc, stop)
            except AnalysisStop as e:
                self.event(e, self.pc)
                return None
            if r is None:
                return None
            k = r[0]
            if k == "jmp":
                prev, b, st, pc = b, r[1], r[2], r[3]
                if self.steps > HANG:
                    # a state seen before in the same activation: the loop never ends
                    turns += 1
                    if turns >= 512:
                        if snap is not None and snap[0] == b and snap[1] is pc and snap[2] == self.phi_vals(f, b, prev, vals) and snap[4] == vals and same_mem(snap[3], st.mem):
                            self.event(AnalysisStop("endless-loop", "the loop reaches a state it has already been in and never ends"), pc)
                            return None
                        if turns & (turns - 1) == 0:
                            snap = (b, pc, self.phi_vals(f, b, prev, vals), {i: (x.size, dict(x.cells)) for i, x in st.mem.items()}, vals[:])
                continue
            if k == "at":  # join reached: phis already applied
                _, j, phis, st, pc = r
                for d, v in phis:
                    vals[d] = v
                if j == stop:
                    return ("stop", phis, st, pc)
                prev, b = -3, j
                continue
            return r

    def fork(self, fr, vals, b, st, pc, arms, stop):
        """arms: [(cond, target block, entry vals override)] analysed separately and joined."""
        f = fr.f
        ip = self.m.ipdoms(f)
        j = ip.get(b, None)
        jj = -2 if j is None else j
        res = []
        sts = [st] + [st.clone() for _ in arms[1:]]
        if len(arms) > 1:
            st.tok = object()
        for i, (c, tgt) in enumerate(arms):
            p = band(pc, c)
            if p is FALSE:
                continue
            self.pc = p
            r = self.run(fr, vals[:], tgt, b, sts[i], p, jj)
            if r is not None:
                res.append((c, r))
        return self.join(res, jj)

    def join(self, res, j):
        if not res:
            return None
        c, r = res[0]
        acc = r
        for c2, r2 in res[1:]:
            # gate: c2 -> r2 else acc
            kind = acc[0]
            if kind != r2[0]:
                raise Undecided("join of different exits")
            st = self.merge_states(c2, r2[2], acc[2])
            pc = bor(acc[3], r2[3])
            if kind == "ret":
                v = None if acc[1] is None else gate(c2, r2[1], acc[1])
            else:
                v = tuple((d, gate(c2, y, x)) for (d, x), (_, y) in zip(acc[1], r2[1]))
            acc = (kind, v, st, pc)
        self.pc = acc[3]
        if acc[0] == "stop":
            return ("at", j, acc[1], acc[2], acc[3])
        return acc

    def defined(self, v, cond):
        """drop the indeterminate alternatives of a boolean that cannot be selected under cond"""
        if not isinstance(v, ITE) or not has_undef(v):
            return v
        t, e = band(cond, v.c), band(cond, bnot(v.c))
        if t is FALSE or not self.feas(t):
            return self.defined(v.b, cond)
        if e is FALSE or not self.feas(e):
            return self.defined(v.a, cond)
        return gate(v.c, self.defined(v.a, t), self.defined(v.b, e))

    def decide(self, c, pc):
        """TRUE/FALSE/c under the path condition"""
        if c is TRUE or c is FALSE:
            return c
        a = band(pc, c)
        if a is FALSE:
            return FALSE
        n = band(pc, bnot(c))
        if n is FALSE:
            return TRUE
        if not self.feas(a):
            return FALSE
        if not self.feas(n):
            return TRUE
        return c

    def block(self, fr, vals, b, st, pc, stop):
        f = fr.f
        self.pc = pc
        for ins in f.blocks[b]:
            self.steps += 1
            op = ins[0]
            fr.loc = ins[2] or fr.loc
            if op == "load":
                vals[ins[1]] = self.load(st, vals[ins[5]], ins[3], ins[4])
            elif op == "store":
                v = vals[ins[5]]
                if type(v) is ITE or v is UARITH or type(v) is tuple:
                    self.used(v, "store of")
                self.store(st, vals[ins[6]], ins[3], ins[4], v)
            elif op == "getelementptr":
                p = vals[ins[3]]
                off = ins[4]
                if not ins[5] and type(p) is Ptr:
                    vals[ins[1]] = Ptr(p.r, p.o + off)
                else:
                    for o, s, w in ins[5]:
                        x = vals[o]
                        if type(x) is int:
                            off += sgn(x, w) * s
                        else:
                            if isinstance(x, (IntF, ITE)) and w == 64:
                                self.cur = st
                                x = self.concrete_index(x, p, off, s)
                            off = self.gep_var(off, x, s, w)
                    if isinstance(off, int):
                        vals[ins[1]] = self.padd(p, off)
                    elif off is UNDEF:
                        vals[ins[1]] = UNDEF
                    else:
                        vals[ins[1]] = self.lift2(lambda q, o: self.padd(q, o) if isinstance(o, int) else UNDEF if o is UNDEF else self._nogep(o), p, off)
            elif op == "call":
                r = self.do_call(fr, vals, ins, st, pc)
                if r is None:
                    return None
                st, pc = r
                self.pc = pc
            elif op == "icmp":
                vals[ins[1]] = self.icmp(ins[3], ins[4], vals[ins[5]], vals[ins[6]])
            elif op == "br":
                c = vals[ins[3]]
                if isinstance(c, ITE):
                    c = self.defined(c, pc)
                c = self.decide(tobdd(c), pc)
                if c is TRUE:
                    return ("jmp", ins[4], st, pc)
                if c is FALSE:
                    return ("jmp", ins[5], st, pc)
                if self.steps > self.budget:
                    raise Undecided("analysis budget exhausted")
                return self.fork(fr, vals, b, st, pc, [(c, ins[4]), (bnot(c), ins[5])], stop)
            elif op == "jmp":
                if self.steps > self.budget:
                    raise Undecided("analysis budget exhausted")
                return ("jmp", ins[3], st, pc)
            elif op == "ret":
                if ins[3] is not None:
                    self.used(vals[ins[3]], "return of")
                return ("ret", None if ins[3] is None else vals[ins[3]], st, pc)
            elif op == "invoke":
                r = self.do_invoke(fr, vals, ins, b, st, pc, stop)
                return r
            elif op == "alloca":
                n = vals[ins[4]]
                if not isinstance(n, int):
                    raise Undecided("stack allocation of unknown size")
                r = self.new_region(st, ins[3] * n, "stack", "local of " + short(f.dem))
                fr.allocas.append(r.id)
                vals[ins[1]] = Ptr(r.id, 0)
            elif op == "select":
                c0, x, y = (vals[k] for k in ins[4])
                c = self.decide(tobdd(c0), pc)
                if ins[3] == "i1" and c is not TRUE and c is not FALSE:
                    x, y = self.defined(x, band(pc, c)), self.defined(y, band(pc, bnot(c)))
                    if has_undef(x) or has_undef(y):
                        vals[ins[1]] = ITE(c, x, y)
                    else:
                        vals[ins[1]] = bite(c, tobdd(x), tobdd(y))
                else:
                    vals[ins[1]] = gate(c, x, y)
            elif op in FLOATOP:
                a, c = ins[4]
                if ins[3][0] in "<[":
                    vals[ins[1]] = tuple(f_op(FLOATOP[op], self.fl(x), self.fl(y), ins[2]) for x, y in zip(vals[a], vals[c]))
                else:
                    vals[ins[1]] = self.flop(FLOATOP[op], vals[a], vals[c], fr.loc)
            elif op in INTOP:
                vals[ins[1]] = self.binop(op, vals[ins[4][0]], vals[ins[4][1]], int(ins[3][1:])) if ins[3][0] == "i" else self.vecop(op, ins, vals)
            elif op == "fcmp":
                vals[ins[1]] = self.fcmp(ins[3], vals[ins[5]], vals[ins[6]])
            elif op in ("trunc", "zext", "sext"):
                w = int(ins[5][0][1:])
                w2 = int(ins[3][1:])
                v = vals[ins[4][0]]
                v = v if v is UARITH else self.int_cast(v, w, w2, op)
                vals[ins[1]] = tobdd(v) if w2 == 1 and v is not UNDEF and v is not UARITH else v
            elif op == "extractvalue":
                v = vals[ins[3]]
                for i in ins[4]:
                    v = UNDEF if v is UNDEF else v[i]
                vals[ins[1]] = v
            elif op == "insertvalue":
                v = vals[ins[4]]
                vals[ins[1]] = self.insert(v, ins[3], ins[6], vals[ins[5]])
            elif op in ("bitcast", "freeze", "addrspacecast"):
                v = vals[ins[4][0]]
                s, d = ins[5][0], ins[3]
                if op == "bitcast" and s != d and v is not UNDEF:
                    v = self.bitcast(v, s, d)
                vals[ins[1]] = v
            elif op in ("ptrtoint", "inttoptr"):
                v = vals[ins[4][0]]
                if op == "inttoptr" and isinstance(v, int):
                    v = NULL if v == 0 else Ptr(None, v)
                vals[ins[1]] = v
            elif op in ("sitofp", "uitofp"):
                v = vals[ins[4][0]]
                vals[ins[1]] = self.itofp(v, int(ins[5][0][1:]), op == "sitofp")
            elif op in ("fptosi", "fptoui"):
                x = self.fl(vals[ins[4][0]])
                vals[ins[1]] = self.fptoi(x, int(ins[3][1:]))
            elif op in ("fpext", "fptrunc"):
                v = self.fl(vals[ins[4][0]])
                if op == "fptrunc" and ins[3] == "f" and v.op == "const":
                    import struct
                    v = fconst(struct.unpack("<f", struct.pack("<f", v.args[0]))[0])
                elif op == "fptrunc" and ins[3] == "f":
                    v = f_call("tofloat", [v], fr.loc)
                vals[ins[1]] = v
            elif op == "fneg":
                vals[ins[1]] = self.flop("neg", vals[ins[4][0]], None, fr.loc)
            elif op == "switch":
                return self.do_switch(fr, vals, ins, b, st, pc, stop)
            elif op == "unreachable":
                self.outcomes.append({"kind": "unreachable", "pc": pc, "where": self.where(), "info": ""})
                return None
            elif op == "landingpad":
                vals[ins[1]] = self.landing(ins, vals)
            elif op == "resume":
                v = vals[ins[4][0]]
                fr.excs.append((pc, self.exc_of(v), st))
                return None
            elif op == "atomicrmw":
                p = vals[ins[6]]
                old = self.load(st, p, ins[3], ins[4])
                w = int(ins[3][1:])
                v = vals[ins[7]]
                nv = v if ins[5] == "xchg" else self.binop({"add": "add", "sub": "sub", "and": "and", "or": "or"}[ins[5]], old, v, w)
                self.atomic = True
                self.store(st, p, ins[3], ins[4], nv)
                self.atomic = False
                vals[ins[1]] = old
            elif op == "fence":
                pass
            elif op == "frem":
                a, c = ins[4]
                vals[ins[1]] = f_call("fmod", [self.fl(vals[a]), self.fl(vals[c])], fr.loc)
            elif op == "extractelement":
                v = vals[ins[4][0]]
                i = vals[ins[4][1]]
                vals[ins[1]] = UNDEF if v is UNDEF else v[i] if v != ("Z",) else fconst(0)
            elif op == "insertelement":
                v = vals[ins[4][0]]
                t = ty(ins[3])
                if v is UNDEF:
                    v = tuple([UNDEF] * t[1])
                elif v == ("Z",):
                    v = self.zero_of(t)
                i = vals[ins[4][2]]
                vals[ins[1]] = v[:i] + (vals[ins[4][1]],) + v[i + 1:]
            elif op == "shufflevector":
                a, c = vals[ins[4]], vals[ins[5]]
                n = len(a) if a is not UNDEF else len(c)
                a = a if a is not UNDEF else (UNDEF,) * n
                c = c if c is not UNDEF else (UNDEF,) * n
                ac = tuple(a) + tuple(c)
                vals[ins[1]] = tuple(UNDEF if i < 0 else ac[i] for i in ins[6])
            else:
                raise Undecided("instruction %s at %s" % (op, self.where()))
        raise Undecided("block without terminator")

    def concrete_index(self, x, p, off, s):
        """a rounded real used as an index: one alternative per element it can denote, any other value lies outside the object"""
        q = p
        while isinstance(q, ITE):
            q = q.a if isinstance(q.a, (Ptr, ITE)) and q.a is not UNDEF else q.b
        if not isinstance(q, Ptr) or not isinstance(off, int) or s <= 0:
            return x
        size = None
        for st in (self.cur,):
            if st is not None and q.r in st.mem:
                size = st.mem[q.r].size
        if size is None or not isinstance(q.o, int):
            return x

        def go(v):
            if isinstance(v, ITE):
                return ITE(v.c, go(v.a), go(v.b))
            if not isinstance(v, IntF):
                return v
            d = rounded(v.f)
            if d is None:
                return v
            lo, hi = -((q.o + off) // s), (size - q.o - off) // s
            if hi - lo > 300:
                return v
            out = hi + 64
            for k in range(hi, lo - 1, -1):
                c = self.decide(int_cond("eq", d, k), self.pc)
                if c is FALSE:
                    continue
                out = gate(c, k & ((1 << 64) - 1), out)
            return out
        return go(x)

    def _nogep(self, o):
        raise Undecided("array index is a symbolic value at %s" % self.where())

    def gep_var(self, off, x, s, w):
        def g(o, i):
            if o is UNDEF or i is UNDEF:
                return UNDEF
            if isinstance(i, BDD):
                return gate(i, o + s, o)
            if isinstance(i, int):
                return o + sgn(i, w) * s
            if isinstance(i, Ptr) and i.r is None:
                return o + sgn(i.o & ((1 << w) - 1), w) * s
            self._nogep(i)
        return self.lift2(g, off, x)

    def vecop(self, op, ins, vals):
        a, b = vals[ins[4][0]], vals[ins[4][1]]
        m = re.match(r"[<\[](\d+)\*\d+:i(\d+)", ins[3])
        w = int(m.group(2))
        return tuple(self.binop(op, x, y, w) for x, y in zip(a, b))

    def insert(self, v, t, idx, x):
        if v is UNDEF:
            n = len(t[1]) if t[0] == "s" else t[1]
            v = tuple([UNDEF] * n)
        elif v == ("Z",):
            v = self.zero_of(t)
        i = idx[0]
        if len(idx) > 1:
            t2 = t[1][i][1] if t[0] == "s" else t[3]
            x = self.insert(v[i], t2, idx[1:], x)
        return v[:i] + (x,) + v[i + 1:]

    def bitcast(self, v, s, d):
        if s[0] == "i" and d in ("d", "f"):
            return self.coerce(v, d)
        if s in ("d", "f") and d[0] == "i":
            if v.op == "const":
                import struct
                return struct.unpack("<Q", struct.pack("<d", v.args[0]))[0] if s == "d" else struct.unpack("<I", struct.pack("<f", v.args[0]))[0]
            return Bits(v)
        raise Undecided("bitcast %s to %s" % (s, d))

    def itofp(self, v, w, signed):
        if isinstance(v, int):
            return fconst(sgn(v, w) if signed else v)
        if isinstance(v, ITE):
            return gate(v.c, self.itofp(v.a, w, signed), self.itofp(v.b, w, signed))
        if isinstance(v, BDD):
            return f_ite(v, fconst(-1 if signed else 1), fconst(0))
        if isinstance(v, IntF):
            return v.f
        if v is UNDEF:
            raise AnalysisStop("undef", "arithmetic on an uninitialised value")
        raise Undecided("itofp of %r" % (v,))

    def fptoi(self, x, w):
        if x.op == "const":
            if x.args[0] != x.args[0] or abs(x.args[0]) >= 2 ** w:
                raise AnalysisStop("fptoi", "conversion of %r to a %d-bit integer" % (x.args[0], w))
            return int(x.args[0]) & ((1 << w) - 1)
        if x.op != "ite":
            try:
                n = T.norm(x)
                if isinstance(n, T.Leaf):
                    k = T.as_const(n.r)
                    if k is not None:
                        return int(k) & ((1 << w) - 1)
            except Undecided:
                pass
        if x.op == "ite":
            return gate(x.args[0], self.fptoi(x.args[1], w), self.fptoi(x.args[2], w))
        if x.op == "call" and x.args[0] in ("floor", "ceil", "trunc", "round", "rint"):
            return IntF(x)
        return IntF(f_call("trunc", [x]))

    def fcmp(self, pred, a, b):
        if isinstance(a, tuple):
            raise Undecided("vector compare")
        if pred == "true":
            return TRUE
        if pred == "false":
            return FALSE
        if has_undef(a) or has_undef(b):
            a, b = self.defined(a, self.pc), self.defined(b, self.pc)
            if a is UNDEF or b is UNDEF or a is UARITH or b is UARITH:
                return UARITH
            if isinstance(a, ITE) and has_undef(a):
                return gate(a.c, self.fcmp(pred, a.a, b), self.fcmp(pred, a.b, b))
            if isinstance(b, ITE) and has_undef(b):
                return gate(b.c, self.fcmp(pred, a, b.a), self.fcmp(pred, a, b.b))
        a, b = self.fl(a), self.fl(b)
        nan = any(x.op == "const" and x.args[0] != x.args[0] for x in (a, b))
        if pred in ("uno", "ord"):
            return TRUE if (pred == "uno") == nan else FALSE
        if nan:
            return TRUE if pred[0] == "u" else FALSE
        k = pred[1:]
        return fcmp(k, a, b)

    def do_switch(self, fr, vals, ins, b, st, pc, stop):
        v = vals[ins[3]]
        if isinstance(v, int):
            for c, t in ins[5]:
                if c == v:
                    return ("jmp", t, st, pc)
            return ("jmp", ins[4], st, pc)
        arms = []
        rest = TRUE
        for c, t in ins[5]:
            e = self.icmp("eq", "i64", v, c)
            e = self.decide(e, pc)
            g = band(rest, e)
            if g is not FALSE and band(pc, g) is not FALSE:
                arms.append((g, t))
            rest = band(rest, bnot(e))
        if rest is not FALSE and band(pc, rest) is not FALSE:
            arms.append((rest, ins[4]))
        if len(arms) == 1:
            return ("jmp", arms[0][1], st, pc)
        return self.fork(fr, vals, b, st, pc, arms, stop)

    # exceptions
    def exc_of(self, v):
        p = v[0] if isinstance(v, tuple) else v
        if isinstance(p, Ptr) and p.r in self.exc_objs:
            return self.exc_objs[p.r]
        raise Undecided("unknown exception object")

    exc_objs = {}

    def tid(self, name):
        return self.tids.setdefault(name, len(self.tids) + 1)

    def base_match(self, t, want):
        """typeinfo t derives from want?"""
        if t == want:
            return True
        if t in STD_BASES:
            return self.base_match(STD_BASES[t], want)
        g = self.m.globals.get(t)
        if g and "init" in g:
            c = self.m.const(g["init"])
            if isinstance(c, tuple):
                for x in c[2:]:
                    if isinstance(x, Ptr) and isinstance(x.r, str) and x.r.startswith("G:_ZTI"):
                        if self.base_match(x.r[2:], want):
                            return True
        return False

    def landing(self, ins, vals):
        e = self.cur_exc
        sel = 0
        for iscatch, o in ins[4]:
            v = vals[o]
            if iscatch:
                if v == NULL or v == ("Z",):
                    sel = self.tid("*")
                    break
                n = v.r[2:]
                if self.base_match(e.tinfo, n):
                    sel = self.tid(n)
                    break
            else:
                # filter (noexcept specs): treated as terminate
                pass
        return (e.obj, sel)

    def do_call(self, fr, vals, ins, st, pc):
        r = self.invoke(fr, vals, ins, st, pc)
        ret, st2, pc2, excs = r
        for p, e, s in excs:
            if band(p, TRUE) is not FALSE:
                fr.excs.append((p, e, s))
        if pc2 is FALSE:
            return None
        if ins[1] >= 0:
            vals[ins[1]] = ret
        return st2, pc2

    def do_invoke(self, fr, vals, ins, b, st, pc, stop):
        ret, st2, pc2, excs = self.invoke(fr, vals, ins, st, pc)
        nd, ud = ins[7], ins[8]
        res = []
        j = self.m.ipdoms(fr.f).get(b)
        jj = -2 if j is None else j
        for p, e, s in excs:
            old = getattr(self, "cur_exc", None)
            self.cur_exc = e
            self.pc = p
            r = self.run(fr, vals[:], ud, b, s, p, jj)
            self.cur_exc = old
            if r is not None:
                res.append((p, r))
        if pc2 is FALSE:
            if not res:
                return None
            return self.join(res, jj)
        if ins[1] >= 0:
            vals[ins[1]] = ret
        if not res:
            return ("jmp", nd, st2, pc2)
        self.pc = pc2
        r = self.run(fr, vals[:], nd, b, st2, pc2, jj)
        if r is not None:
            res.insert(0, (pc2, r))
        return self.join(res, jj)

    def invoke(self, fr, vals, ins, st, pc):
        callee = vals[ins[4]]
        args = [vals[a] for a in ins[5]]
        for v in args:
            if type(v) is ITE or v is UARITH:
                self.used(v, "call with")
        if isinstance(callee, ITE):
            return self.call_gated(callee, args, ins, st, pc)
        if not isinstance(callee, Ptr) or not isinstance(callee.r, str) or not callee.r.startswith("F:"):
            if callee is UNDEF:
                raise AnalysisStop("undef", "call through an uninitialised pointer")
            if isinstance(callee, Ptr) and callee.r is None:
                raise AnalysisStop("null", "call through a null pointer")
            raise Undecided("indirect call through %r" % (callee,))
        return self.call_fn(callee.r[2:], args, ins, st, pc)

    def call_gated(self, callee, args, ins, st, pc):
        c = self.decide(callee.c, pc)
        if c is TRUE or c is FALSE:
            v = callee.a if c is TRUE else callee.b
            if isinstance(v, ITE):
                return self.call_gated(v, args, ins, st, pc)
            return self.call_fn(v.r[2:], args, ins, st, pc)
        raise Undecided("call through a gated pointer")

    def call_fn(self, name, args, ins, st, pc):
        u = self._ucache.get(name)
        if u is None:
            dm = self.m.dem.get(name, name)
            u = False
            for rx, fn in self.unint:
                if rx.search(dm):
                    u = fn
                    break
            if u is False:
                u = models.get(name, False)
                if u is False and SSTREAM.search(dm):
                    u = _osstr if "::str() const" in dm else _os
                if u is False and OSTREAM.search(dm):
                    u = _os
                if u is False and not (name in self.m.raw):
                    for rx, fn in model_rx:
                        if rx.search(dm):
                            u = fn
                            break
            self._ucache[name] = u
        if u is not False:
            if isinstance(u, str):
                return (self.uf(u, args, ins, st), st, pc, [])
            r = u(self, name, args, ins, st, pc)
            if isinstance(r, tuple) and len(r) == 4 and r[0] == "FULL":
                return r[1], r[2], r[3][0], r[3][1]
            return (r, st, pc, [])
        if name in self.m.raw:
            return self.call(name, args, st, pc)
        raise Undecided("call to unmodelled function %s at %s" % (self.m.dem.get(name, name), self.where()))

    def uf(self, fn, args, ins, st):
        """uninterpreted application: float and integer arguments, references to floats are read"""
        out = []
        keys = []
        for a, t in zip(args, ins[6]):
            if isinstance(a, Ptr) and a.r is not None and a.r in st.mem:
                r = st.mem[a.r]
                c = r.cells.get(a.o)
                if c is not None and isinstance(c[1], FNode):
                    a = c[1]
                elif c is not None and isinstance(c[1], int):
                    a = c[1]
                else:
                    continue
            if isinstance(a, FNode):
                out.append(a)
            elif isinstance(a, int):
                w = int(t[1:]) if t[0] == "i" else 32
                out.append(fconst(sgn(a, w)))
            elif isinstance(a, IntF):
                out.append(a.f)
            elif isinstance(a, (ITE, BDD)) and t[0] == "i":
                out.append(self.itofp(a, int(t[1:]), True))
            else:
                continue
        r = f_call(fn, out, self.cur_loc())
        return r


FLOATOP = {"fadd": "add", "fsub": "sub", "fmul": "mul", "fdiv": "div"}
INTOP = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"}


def short(d):
    d = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string", d)
    return d if len(d) < 140 else d[:140] + "..."


# ------------------------------------------------------------------------------------- models
models = {}
model_rx = []


def model(*names):
    def d(f):
        for n in names:
            models[n] = f
        return f
    return d


def model_re(rx):
    def d(f):
        model_rx.append((re.compile(rx), f))
        return f
    return d


def _fn(fn):
    def g(I, name, args, ins, st, pc):
        fs = [I.fl(a) for a in args]
        return f_call(fn, fs, I.cur_loc())
    return g


for _n in ["sqrt", "sin", "cos", "tan", "exp", "log", "atan2", "asin", "acos", "atan", "sinh", "cosh", "tanh", "floor", "ceil", "trunc",
           "fmod", "log10", "pow", "log2", "round", "tgamma", "erf", "erfc", "log1p", "expm1", "cbrt", "lgamma", "exp2", "rint", "nearbyint", "asinh", "acosh", "atanh", "remainder"]:
    for _s in ("", "f", "l"):
        models[_n + _s] = _fn(_n)
    for _s in ("f64", "f32", "f80"):
        models["llvm.%s.%s" % (_n, _s)] = _fn(_n)


@model("j0", "j1", "y0", "y1")
def _bess(I, name, args, ins, st, pc):
    return f_call(name, [I.fl(args[0])], I.cur_loc())


@model("hypot", "hypotf", "hypotl")
def _hypot(I, name, args, ins, st, pc):
    x, y = I.fl(args[0]), I.fl(args[1])
    return f_call("sqrt", [f_op("add", f_op("mul", x, x), f_op("mul", y, y))], I.cur_loc())


@model("llvm.powi.f64.i32")
def _powi(I, name, args, ins, st, pc):
    x = I.fl(args[0])
    n = args[1]
    if not isinstance(n, int):
        raise Undecided("powi")
    return f_call("pow", [x, fconst(sgn(n, 32))], I.cur_loc())


@model("llvm.fabs.f64", "llvm.fabs.f32", "llvm.fabs.f80", "fabs", "fabsf", "fabsl")
def _fabs(I, name, args, ins, st, pc):
    return I.fabs(I.fl(args[0]))


@model("llvm.fmuladd.f64", "llvm.fma.f64", "fma", "llvm.fmuladd.f80", "llvm.fmuladd.f32", "fmal", "fmaf", "llvm.fma.f32")
def _fma(I, name, args, ins, st, pc):
    a, b, c = map(I.fl, args)
    return f_op("add", f_op("mul", a, b, I.cur_loc()), c, I.cur_loc())


@model("llvm.copysign.f64", "copysign", "llvm.copysign.f80")
def _cps(I, name, args, ins, st, pc):
    a, b = map(I.fl, args)
    m = I.fabs(a)
    return f_ite(fcmp("ge", b, fconst(0)), m, f_neg(m))


@model("fmax", "llvm.maxnum.f64", "fmaxf", "fmaxl")
def _fmax(I, name, args, ins, st, pc):
    a, b = map(I.fl, args)
    return f_ite(fcmp("lt", a, b), b, a)


@model("fmin", "llvm.minnum.f64", "fminf", "fminl")
def _fmin(I, name, args, ins, st, pc):
    a, b = map(I.fl, args)
    return f_ite(fcmp("lt", b, a), b, a)


@model("ldexp", "ldexpf", "ldexpl", "scalbn", "scalbnf", "scalbnl", "llvm.ldexp.f64.i32", "llvm.ldexp.f32.i32")
def _ldexp(I, name, args, ins, st, pc):
    x, n = I.fl(args[0]), args[1]
    if not isinstance(n, int) or abs(sgn(n, 32)) > 900:
        raise Undecided("ldexp")
    n = sgn(n, 32)
    return f_op("mul", x, fconst(2.0 ** n), I.cur_loc())


@model("fdim")
def _fdim(I, name, args, ins, st, pc):
    a, b = map(I.fl, args)
    return f_ite(fcmp("gt", a, b), f_op("sub", a, b), fconst(0))


def _minmax(pred):
    def g(I, name, args, ins, st, pc):
        w = name.rsplit(".i", 1)[1]
        c = I.icmp(pred, "i" + w, args[0], args[1])
        return gate(c, args[0], args[1])
    return g


for _w in ("8", "16", "32", "64"):
    models["llvm.umax.i" + _w] = _minmax("ugt")
    models["llvm.umin.i" + _w] = _minmax("ult")
    models["llvm.smax.i" + _w] = _minmax("sgt")
    models["llvm.smin.i" + _w] = _minmax("slt")


@model_re(r"^llvm\.abs\.i")
def _iabs(I, name, args, ins, st, pc):
    w = int(name.rsplit(".i", 1)[1])
    n = I.binop("sub", 0, args[0], w)
    return gate(I.icmp("slt", "i%d" % w, args[0], 0), n, args[0])


@model("abs", "labs")
def _iabs2(I, name, args, ins, st, pc):
    w = 32 if name == "abs" else 64
    n = I.binop("sub", 0, args[0], w)
    return gate(I.icmp("slt", "i%d" % w, args[0], 0), n, args[0])


@model("lround", "lrint", "llround", "llrint")
def _lround(I, name, args, ins, st, pc):
    x = f_call("round" if "round" in name else "rint", [I.fl(args[0])])
    return I.fptoi(x, 64)


@model("llvm.expect.i1", "llvm.expect.i64", "llvm.expect.i32")
def _expect(I, name, args, ins, st, pc):
    return args[0]


@model_re(r"^llvm\.is\.constant")
def _iscst(I, name, args, ins, st, pc):
    return FALSE


@model_re(r"^llvm\.is\.fpclass")
def _fpclass(I, name, args, ins, st, pc):
    m = args[1]
    x = I.fl(args[0])
    if x.op == "const":
        v = x.args[0]
        if v != v:
            return TRUE if m & 3 else FALSE
        if v == math.inf:
            return TRUE if m & 0x200 else FALSE
        if v == -math.inf:
            return TRUE if m & 4 else FALSE
        if v == 0:
            return TRUE if m & (0x40 if math.copysign(1, v) > 0 else 0x20) else FALSE
        if abs(v) < 2.2250738585072014e-308:
            return TRUE if m & (0x80 if v > 0 else 0x10) else FALSE
        return TRUE if m & (0x100 if v > 0 else 0x8) else FALSE
    if not (m & 0x1f8):
        return FALSE
    if (m & 0x1f8) == 0x1f8:
        return TRUE
    pos, neg, zero = m & 0x100, m & 0x8, m & 0x60
    c = FALSE
    if pos:
        c = bor(c, fcmp("gt", x, fconst(0)))
    if neg:
        c = bor(c, fcmp("lt", x, fconst(0)))
    if zero:
        c = bor(c, fcmp("eq", x, fconst(0)))
    return c


@model("llvm.trap")
def _trap(I, name, args, ins, st, pc):
    I.outcomes.append({"kind": "abort", "pc": pc, "where": I.where(), "info": "trap"})
    return ("FULL", None, st, (FALSE, []))


@model_re(r"^llvm\.(umul|uadd|usub|smul|sadd|ssub)\.with\.overflow")
def _ovf(I, name, args, ins, st, pc):
    m = re.match(r"llvm\.([us])(mul|add|sub)\.with\.overflow\.i(\d+)", name)
    w = int(m.group(3))
    a, b = args
    if not (isinstance(a, int) and isinstance(b, int)):
        return (I.binop(m.group(2), a, b, w), FALSE)
    if m.group(1) == "s":
        a, b = sgn(a, w), sgn(b, w)
    r = {"mul": a * b, "add": a + b, "sub": a - b}[m.group(2)]
    ok = 0 <= r < 1 << w if m.group(1) == "u" else -(1 << w - 1) <= r < 1 << w - 1
    return (r & ((1 << w) - 1), FALSE if ok else TRUE)


@model_re(r"^llvm\.(ctlz|cttz|ctpop|fshl|bswap)\.")
def _bits(I, name, args, ins, st, pc):
    a = args[0]
    w = int(name.rsplit(".i", 1)[1])
    if not isinstance(a, int):
        raise Undecided(name)
    if "ctlz" in name:
        return w - a.bit_length()
    if "cttz" in name:
        return (a & -a).bit_length() - 1 if a else w
    if "ctpop" in name:
        return bin(a).count("1")
    if "fshl" in name:
        b, s = args[1], args[2] % w
        return ((a << s) | (b >> (w - s) if s else 0)) & ((1 << w) - 1)
    return int.from_bytes(a.to_bytes(w // 8, "little"), "big")


@model_re(r"^llvm\.(stacksave|stackrestore|donothing|sideeffect|launder|strip|ssa\.copy|va_start|va_end)")
def _nopi(I, name, args, ins, st, pc):
    if "launder" in name or "strip" in name:
        return args[0]
    return NULL


@model_re(r"^llvm\.memcpy\.")
def _memcpy(I, name, args, ins, st, pc):
    I.memcpy(st, args[0], args[1], args[2])


@model_re(r"^llvm\.memmove\.")
def _memmove(I, name, args, ins, st, pc):
    I.memcpy(st, args[0], args[1], args[2], True)


@model("memcpy", "memmove")
def _memcpy2(I, name, args, ins, st, pc):
    I.memcpy(st, args[0], args[1], args[2], name == "memmove")
    return args[0]


@model_re(r"^llvm\.memset\.")
def _memset(I, name, args, ins, st, pc):
    I.memset(st, args[0], args[1], args[2])


@model("memset")
def _memset2(I, name, args, ins, st, pc):
    v = args[1]
    I.memset(st, args[0], v & 255 if isinstance(v, int) else v, args[2])
    return args[0]


def cstr(I, st, p, n=None):
    out = []
    i = 0
    while n is None or i < n:
        b = I.load(st, Ptr(p.r, p.o + i), "i8", 1)
        if not isinstance(b, int):
            raise Undecided("symbolic character data")
        if n is None and b == 0:
            break
        out.append(b)
        i += 1
    return bytes(out)


@model("strlen")
def _strlen(I, name, args, ins, st, pc):
    return len(cstr(I, st, args[0]))


@model("memcmp", "bcmp", "strcmp", "strncmp")
def _memcmp(I, name, args, ins, st, pc):
    if name == "strcmp":
        a, b = cstr(I, st, args[0]), cstr(I, st, args[1])
    else:
        n = args[2]
        if not isinstance(n, int):
            raise Undecided("memcmp size")
        if n == 0:
            return 0
        a, b = cstr(I, st, args[0], n), cstr(I, st, args[1], n)
    return (a > b) - (a < b) & 0xffffffff


@model("memchr")
def _memchr(I, name, args, ins, st, pc):
    a = cstr(I, st, args[0], args[2])
    k = a.find(bytes([args[1] & 255]))
    return NULL if k < 0 else I.padd(args[0], k)


def heap_alloc(I, st, n, how, zero=False):
    if isinstance(n, ITE):
        raise Undecided("allocation of gated size")
    if not isinstance(n, int):
        raise Undecided("allocation of unknown size")
    if n > 1 << 34:
        raise AnalysisStop("alloc", "allocation of %d bytes" % n)
    r = I.new_region(st, n, "heap", "heap object from %s" % I.where(), zero)
    r.how = how
    return Ptr(r.id, 0)


def heap_free(I, st, p, how, pc):
    if isinstance(p, ITE):
        alts = [(TRUE, p)]
        while alts:
            c, q = alts.pop()
            if isinstance(q, ITE):
                alts += [(band(c, q.c), q.a), (band(c, bnot(q.c)), q.b)]
                continue
            g = I.decide(c, pc)
            if g is FALSE or (isinstance(q, Ptr) and q.r is None) or (isinstance(q, int) and q == 0):
                continue
            if g is TRUE:
                heap_free(I, st, q, how, pc)
                continue
            if not I.feas(band(pc, c)):
                continue
            r = st.mem.get(q.r) if isinstance(q, Ptr) else None
            if r is None or r.kind != "heap" or q.o != 0:
                I.event(AnalysisStop("bad-free", "release of memory that was not allocated"), band(pc, c))
                continue
            if r.freed or I.feas(band(band(pc, c), r.dead)):
                I.event(AnalysisStop("double-free", "memory released twice (%s)" % r.label), band(pc, c))
                continue
            I.note_write(st, r, "release of")
            r = st.wr(q.r)
            r.how = ("maybe-freed", c)
            r.live, r.dead = band(r.live, bnot(c)), bor(r.dead, c)
        return
    if isinstance(p, int):
        if p == 0:
            return
        raise AnalysisStop("bad-free", "release of a non-pointer")
    if p is UNDEF:
        raise AnalysisStop("undef", "release of an uninitialised pointer")
    if p.r is None:
        return
    r = st.mem.get(p.r)
    if r is None or r.kind != "heap" or p.o != 0:
        raise AnalysisStop("bad-free", "release of memory that was not allocated (%s)" % (r.label if r else p.r))
    if r.freed:
        raise AnalysisStop("double-free", "memory released twice (%s)" % r.label)
    if r.how and isinstance(r.how, str) and how != r.how:
        raise AnalysisStop("bad-free", "released with %s but allocated with %s" % (how, r.how))
    if r.dead is not FALSE and I.feas(band(pc, r.dead)):
        I.event(AnalysisStop("double-free", "memory released twice (%s)" % r.label), band(pc, r.dead))
    I.note_write(st, r, "release of")
    r = st.wr(p.r)
    r.freed = True
    r.live, r.dead = FALSE, TRUE
    r.cells = {}


@model("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t")
def _new(I, name, args, ins, st, pc):
    return heap_alloc(I, st, args[0], "new[]" if name.startswith("_Zna") else "new")


@model("malloc", "aligned_alloc")
def _malloc(I, name, args, ins, st, pc):
    return heap_alloc(I, st, args[-1], "malloc")


@model("calloc")
def _calloc(I, name, args, ins, st, pc):
    return heap_alloc(I, st, args[0] * args[1], "malloc", True)


@model("realloc")
def _realloc(I, name, args, ins, st, pc):
    p, n = args
    q = heap_alloc(I, st, n, "malloc")
    if isinstance(p, Ptr) and p.r is not None:
        old = st.mem[p.r]
        I.memcpy(st, q, p, min(old.size, n))
        heap_free(I, st, p, "malloc", pc)
    return q


@model("_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPv", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "free")
def _free(I, name, args, ins, st, pc):
    how = "malloc" if name == "free" else "new[]" if name.startswith("_Zda") else "new"
    p = args[0]
    if name in ("_ZdlPvm",) and isinstance(p, Ptr) and p.r is not None and isinstance(args[1], int):
        r = st.mem.get(p.r)
        if r is not None and r.kind == "heap" and not r.freed and r.size != args[1]:
            raise AnalysisStop("bad-free", "sized delete with size %d of an object of size %d: deletion through the wrong type" % (args[1], r.size))
    heap_free(I, st, p, how, pc)


@model("posix_memalign")
def _pma(I, name, args, ins, st, pc):
    p = heap_alloc(I, st, args[2], "malloc")
    I.store(st, args[0], "p", 8, p)
    return 0


@model("__assert_fail")
def _assert(I, name, args, ins, st, pc):
    try:
        msg = cstr(I, st, args[0]).decode()
    except Exception:
        msg = "?"
    I.outcomes.append({"kind": "assert", "pc": pc, "where": I.where(), "info": msg})
    return ("FULL", None, st, (FALSE, []))


@model("exit", "_exit", "_Exit", "quick_exit")
def _exit(I, name, args, ins, st, pc):
    I.outcomes.append({"kind": "exit", "pc": pc, "where": I.where(), "info": args[0]})
    return ("FULL", None, st, (FALSE, []))


@model("abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate", "__cxa_call_unexpected", "__cxa_deleted_virtual")
def _abort(I, name, args, ins, st, pc):
    I.outcomes.append({"kind": "abort", "pc": pc, "where": I.where(), "info": name})
    return ("FULL", None, st, (FALSE, []))


@model("__cxa_allocate_exception")
def _cxaalloc(I, name, args, ins, st, pc):
    r = I.new_region(st, args[0], "exc", "exception object")
    return Ptr(r.id, 0)


@model("__cxa_free_exception")
def _cxafree(I, name, args, ins, st, pc):
    return None


def do_throw(I, st, pc, tinfo, obj=None, what=None):
    if obj is None:
        r = I.new_region(st, 64, "exc", "exception object")
        obj = Ptr(r.id, 0)
    e = Exc(tinfo, obj, I.where(), what)
    I.exc_objs[obj.r] = e
    return ("FULL", None, st, (FALSE, [(pc, e, st)]))


@model("__cxa_throw")
def _throw(I, name, args, ins, st, pc):
    what = None
    try:
        v = I.load(st, args[0], "p", 8)
        if isinstance(v, Ptr) and v.r is not None and args[1].r == "G:_ZTIPKc":
            what = cstr(I, st, v).decode()
    except Exception:
        pass
    return do_throw(I, st, pc, args[1].r[2:], args[0], what)


@model("__cxa_rethrow")
def _rethrow(I, name, args, ins, st, pc):
    e = I.caught[-1]
    return ("FULL", None, st, (FALSE, [(pc, e, st)]))


Interp.caught = []


@model("__cxa_begin_catch")
def _bc(I, name, args, ins, st, pc):
    I.caught = I.caught + [I.exc_of(args[0])]
    return args[0]


@model("__cxa_end_catch")
def _ec(I, name, args, ins, st, pc):
    if I.caught:
        I.caught = I.caught[:-1]


@model("__cxa_get_exception_ptr")
def _gep(I, name, args, ins, st, pc):
    return args[0]


@model("llvm.eh.typeid.for", "llvm.eh.typeid.for.p0")
def _tid(I, name, args, ins, st, pc):
    if args[0] == NULL:
        return I.tid("*")
    return I.tid(args[0].r[2:])


THROWS = {"__throw_out_of_range": "_ZTISt12out_of_range", "__throw_out_of_range_fmt": "_ZTISt12out_of_range", "__throw_length_error": "_ZTISt12length_error",
          "__throw_bad_alloc": "_ZTISt9bad_alloc", "__throw_bad_array_new_length": "_ZTISt20bad_array_new_length", "__throw_logic_error": "_ZTISt11logic_error",
          "__throw_invalid_argument": "_ZTISt16invalid_argument", "__throw_bad_cast": "_ZTISt8bad_cast", "__throw_bad_function_call": "_ZTISt17bad_function_call",
          "__throw_domain_error": "_ZTISt12domain_error", "__throw_bad_variant_access": "_ZTISt18bad_variant_access", "__throw_runtime_error": "_ZTISt13runtime_error",
          "__throw_overflow_error": "_ZTISt14overflow_error"}


@model_re(r"^std::__throw_")
def _stdthrow(I, name, args, ins, st, pc):
    m = re.search(r"__throw_\w+?(?=\(|$)", I.m.dem[name])
    return do_throw(I, st, pc, THROWS[m.group(0)])


@model("__cxa_guard_acquire")
def _ga(I, name, args, ins, st, pc):
    v = I.load(st, args[0], "i8", 1)
    if isinstance(v, int) and v:
        return 0
    I.initing += 1
    return 1


@model("__cxa_guard_release")
def _gr(I, name, args, ins, st, pc):
    I.guard += 1
    I.store(st, args[0], "i8", 1, 1)
    I.initing = max(0, I.initing - 1)


@model("vp_freeze")
def _freeze(I, name, args, ins, st, pc):
    st.frz = (I.nreg, args[0].r)


@model("vp_thaw")
def _thaw(I, name, args, ins, st, pc):
    st.frz = None


@model("pthread_mutex_lock", "pthread_mutex_unlock")
def _mutex(I, name, args, ins, st, pc):
    I.locked = max(0, I.locked + (1 if name.endswith("_lock") else -1))
    return 0


@model("__cxa_guard_abort", "__cxa_atexit")
def _ga2(I, name, args, ins, st, pc):
    return 0


# iostreams: output has no effect on the analysed state
SSTREAM = re.compile(r"^std::__cxx11::basic_(stringstream|ostringstream|istringstream|stringbuf)<")
OSTREAM = re.compile(r"^(std::(basic_)?ostream(<[^()]*>)?& )?(std|Eigen|mathutils)::(endl|operator<<|flush)\b|^std::(basic_)?ostream")


@model_re(r"std::(basic_)?ostream|std::__ostream_insert|std::ostream::|std::basic_ostream|std::operator<<|std::endl|std::basic_ios<|std::ios_base|std::ctype<char>::|std::locale|std::__cxx11::basic_stringstream|std::__cxx11::basic_ostringstream")
def _os(I, name, args, ins, st, pc):
    rt = ins[3]
    if rt == "p":
        return args[0] if args else NULL
    if rt == "v":
        return None
    return 0


@model("printf", "puts", "fprintf", "putchar")
def _printf(I, name, args, ins, st, pc):
    return 0


# std::string constructor variants out of line
@model("_ZNSt11logic_errorC1EPKc", "_ZNSt13runtime_errorC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt12domain_errorC1EPKc", "_ZNSt12length_errorC1EPKc",
       "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
       "_ZNSt11logic_errorD1Ev", "_ZNSt13runtime_errorD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt12domain_errorD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt12length_errorD1Ev",
       "_ZNSt13runtime_errorC2EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorD2Ev",
       "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE")
def _excctor(I, name, args, ins, st, pc):
    return None


# ---- std::string members that live in libstdc++ (layout: data pointer @0, size @8, local buffer or capacity @16)
_S = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
_KS = "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"


def str_get(I, st, p):
    d = I.load(st, p, "p", 8)
    n = I.load(st, Ptr(p.r, p.o + 8), "i64", 8)
    if not isinstance(n, int) or not isinstance(d, Ptr):
        raise Undecided("string of unknown length")
    return d, n, cstr(I, st, d, n)


def str_set(I, st, p, b, pc, fresh=False):
    if not fresh:
        d, n, _ = str_get(I, st, p)
        if d.r == p.r and d.o == p.o + 16:
            cap = 15
        else:
            cap = I.load(st, Ptr(p.r, p.o + 16), "i64", 8)
    else:
        d, cap = Ptr(p.r, p.o + 16), 15
    if len(b) > cap:
        if not fresh and not (d.r == p.r and d.o == p.o + 16):
            heap_free(I, st, d, "new", pc)
        d = heap_alloc(I, st, len(b) + 1, "new")
        I.store(st, Ptr(p.r, p.o + 16), "i64", 8, len(b))
    I.store(st, p, "p", 8, d)
    I.store(st, Ptr(p.r, p.o + 8), "i64", 8, len(b))
    for i, x in enumerate(b + b"\0"):
        I.store(st, Ptr(d.r, d.o + i), "i8", 1, x)


@model(_S + "10_M_replaceEmmPKcm")
def _strreplace(I, name, args, ins, st, pc):
    p, pos, n1, s, n2 = args
    _, n, b = str_get(I, st, p)
    if not all(isinstance(v, int) for v in (pos, n1, n2)):
        raise Undecided("string edit of unknown size")
    str_set(I, st, p, b[:pos] + cstr(I, st, s, n2) + b[pos + n1:], pc)
    return p


@model(_S + "9_M_appendEPKcm")
def _strappend(I, name, args, ins, st, pc):
    p, s, n2 = args
    _, n, b = str_get(I, st, p)
    str_set(I, st, p, b + cstr(I, st, s, n2), pc)
    return p


@model(_S + "9_M_assignERKS4_")
def _strassign(I, name, args, ins, st, pc):
    str_set(I, st, args[0], str_get(I, st, args[1])[2], pc)


@model(_S + "C1ERKS4_", _S + "C2ERKS4_")
def _strcopy(I, name, args, ins, st, pc):
    str_set(I, st, args[0], str_get(I, st, args[1])[2], pc, True)


@model(_S + "9_M_createERmm")
def _strcreate(I, name, args, ins, st, pc):
    n = I.load(st, args[1], "i64", 8)
    if not isinstance(n, int):
        raise Undecided("string of unknown length")
    return heap_alloc(I, st, n + 1, "new")


@model(_KS + "7compareEPKc")
def _strcmpc(I, name, args, ins, st, pc):
    a, b = str_get(I, st, args[0])[2], cstr(I, st, args[1])
    return (a > b) - (a < b) & 0xffffffff


@model(_S + "7reserveEm", _S + "7reserveEv")
def _strreserve(I, name, args, ins, st, pc):
    if len(args) > 1 and isinstance(args[1], int):
        d, n, b = str_get(I, st, args[0])
        p = args[0]
        local = d.r == p.r and d.o == p.o + 16
        cap = 15 if local else I.load(st, Ptr(p.r, p.o + 16), "i64", 8)
        if args[1] > cap:
            if not local:
                heap_free(I, st, d, "new", pc)
            d = heap_alloc(I, st, args[1] + 1, "new")
            I.store(st, Ptr(p.r, p.o + 16), "i64", 8, args[1])
            I.store(st, p, "p", 8, d)
            for i, x in enumerate(b + b"\0"):
                I.store(st, Ptr(d.r, d.o + i), "i8", 1, x)
    return None


def _si(*v):
    for x in v:
        if not isinstance(x, int):
            raise Undecided("string edit of unknown size")


@model(_S + "8_M_eraseEmm")
def _strerase(I, name, args, ins, st, pc):
    p, pos, n = args
    _si(pos, n)
    b = str_get(I, st, p)[2]
    str_set(I, st, p, b[:pos] + b[pos + n:], pc)


@model(_S + "9_M_mutateEmmPKcm")
def _strmutate(I, name, args, ins, st, pc):
    p, pos, n1, s, n2 = args
    _si(pos, n1, n2)
    b = str_get(I, st, p)[2]
    str_set(I, st, p, b[:pos] + (cstr(I, st, s, n2) if s != NULL and n2 else b"\0" * n2) + b[pos + n1:], pc)
    I.store(st, Ptr(p.r, p.o + 8), "i64", 8, len(b))


@model(_S + "6resizeEmc", _S + "6resizeEm")
def _strresize(I, name, args, ins, st, pc):
    _si(args[1])
    b = str_get(I, st, args[0])[2]
    ch = args[2] if len(args) > 2 else 0
    _si(ch)
    str_set(I, st, args[0], b[:args[1]] + bytes([ch & 255]) * (args[1] - len(b)), pc)


@model(_S + "9push_backEc", _S + "pLEc")
def _strpush(I, name, args, ins, st, pc):
    _si(args[1])
    str_set(I, st, args[0], str_get(I, st, args[0])[2] + bytes([args[1] & 255]), pc)
    return args[0]


@model(_S + "6appendERKS4_", _S + "pLERKS4_")
def _strapps(I, name, args, ins, st, pc):
    str_set(I, st, args[0], str_get(I, st, args[0])[2] + str_get(I, st, args[1])[2], pc)
    return args[0]


@model(_S + "6appendEPKc", _S + "pLEPKc")
def _strappc(I, name, args, ins, st, pc):
    str_set(I, st, args[0], str_get(I, st, args[0])[2] + cstr(I, st, args[1]), pc)
    return args[0]


@model(_S + "6appendEPKcm")
def _strappn(I, name, args, ins, st, pc):
    return _strappend(I, name, args, ins, st, pc)


@model(_S + "6assignERKS4_", _S + "aSERKS4_")
def _strasss(I, name, args, ins, st, pc):
    str_set(I, st, args[0], str_get(I, st, args[1])[2], pc)
    return args[0]


@model(_S + "6assignEPKc", _S + "aSEPKc")
def _strassc(I, name, args, ins, st, pc):
    str_set(I, st, args[0], cstr(I, st, args[1]), pc)
    return args[0]


@model(_S + "14_M_replace_auxEmmmc")
def _strrepaux(I, name, args, ins, st, pc):
    p, pos, n1, n2, ch = args
    _si(pos, n1, n2, ch)
    b = str_get(I, st, p)[2]
    str_set(I, st, p, b[:pos] + bytes([ch & 255]) * n2 + b[pos + n1:], pc)
    return p


@model(_S + "C1ERKS4_mm", _S + "C2ERKS4_mm")
def _strsub(I, name, args, ins, st, pc):
    b = str_get(I, st, args[1])[2]
    _si(args[2], args[3])
    if args[2] > len(b):
        raise Undecided("substring out of range")
    str_set(I, st, args[0], b[args[2]:args[2] + args[3]], pc, True)


@model(_S + "12_M_constructEmc")
def _strconn(I, name, args, ins, st, pc):
    _si(args[1], args[2])
    str_set(I, st, args[0], bytes([args[2] & 255]) * args[1], pc, True)


@model(_KS + "7compareERKS4_")
def _strcmps(I, name, args, ins, st, pc):
    a, b = str_get(I, st, args[0])[2], str_get(I, st, args[1])[2]
    return (a > b) - (a < b) & 0xffffffff


def _npos(i):
    return i & 0xffffffffffffffff


@model(_KS + "4findEPKcmm", _KS + "4findEPKcm")
def _strfind(I, name, args, ins, st, pc):
    b = str_get(I, st, args[0])[2]
    _si(*args[2:])
    return _npos(b.find(cstr(I, st, args[1], args[3]) if len(args) > 3 else cstr(I, st, args[1]), args[2]))


@model(_KS + "4findEcm", _KS + "5rfindEcm")
def _strfindc(I, name, args, ins, st, pc):
    b = str_get(I, st, args[0])[2]
    _si(*args[1:])
    ch = bytes([args[1] & 255])
    return _npos(b.find(ch, args[2]) if "4find" in name else b.rfind(ch, 0, min(len(b), args[2]) + 1))


def _osstr(I, name, args, ins, st, pc):
    str_set(I, st, args[0], b"", pc, True)  # text that only serves messages


@model("_ZSt11_Hash_bytesPKvmm")
def _hash(I, name, args, ins, st, pc):
    data = cstr(I, st, args[0], args[1])
    h = 0xcbf29ce484222325
    for b in data:
        h = ((h ^ b) * 0x100000001b3) & 0xffffffffffffffff
    return h


PRIMES = [2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 47, 59, 73, 97, 127, 151, 197, 251, 313, 397, 499, 631, 797, 1009]


@model("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm")
def _nextbkt(I, name, args, ins, st, pc):
    n = args[1]
    b = next(p for p in PRIMES if p >= max(n, 2))
    # { float max_load_factor; size_t next_resize }
    I.store(st, I.padd(args[0], 8), "i64", 8, b)
    return b


@model("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")
def _needrehash(I, name, args, ins, st, pc):
    nb, ne, ni = args[1], args[2], args[3]
    nxt = I.load(st, I.padd(args[0], 8), "i64", 8)
    if ne + ni > nxt:
        want = max(ne + ni, 11 if nxt == 0 else 0)
        if want >= nb:
            b = next(p for p in PRIMES if p >= max(want + 1, nb * 2))
            I.store(st, I.padd(args[0], 8), "i64", 8, b)
            return (TRUE, b)
        I.store(st, I.padd(args[0], 8), "i64", 8, nb)
    return (FALSE, 0)


# std::map internals: an unbalanced binary search tree has the same observable behaviour
@model("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
def _rbins(I, name, args, ins, st, pc):
    left, x, p, hdr = args
    left = I.decide(tobdd(left), pc)
    if left not in (TRUE, FALSE):
        raise Undecided("gated tree insertion")
    S = lambda q, o, v: I.store(st, I.padd(q, o), "p", 8, v)
    L = lambda q, o: I.load(st, I.padd(q, o), "p", 8)
    S(x, 8, p)
    S(x, 16, NULL)
    S(x, 24, NULL)
    I.store(st, x, "i32", 4, 0)
    if left is TRUE:
        S(p, 16, x)
        if p == hdr:
            S(hdr, 8, x)
            S(hdr, 24, x)
        elif p == L(hdr, 16):
            S(hdr, 16, x)
    else:
        S(p, 24, x)
        if p == L(hdr, 24):
            S(hdr, 24, x)


@model("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base")
def _rbinc(I, name, args, ins, st, pc):
    L = lambda q, o: I.load(st, I.padd(q, o), "p", 8)
    x = args[0]
    if L(x, 24) != NULL:
        x = L(x, 24)
        while L(x, 16) != NULL:
            x = L(x, 16)
    else:
        y = L(x, 8)
        while x == L(y, 24):
            x = y
            y = L(y, 8)
        if L(x, 24) != y:
            x = y
    return x


@model("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base")
def _rbdec(I, name, args, ins, st, pc):
    L = lambda q, o: I.load(st, I.padd(q, o), "p", 8)
    x = args[0]
    if L(x, 8) != NULL and L(L(x, 8), 8) == x and I.load(st, x, "i32", 4) == 0 and False:
        return L(x, 24)
    if L(x, 16) != NULL:
        y = L(x, 16)
        while L(y, 24) != NULL:
            y = L(y, 24)
        return y
    y = L(x, 8)
    while x == L(y, 16):
        x = y
        y = L(y, 8)
    return y


# complex arithmetic helpers (compiler runtime and libm)
def cadd(a, b):
    return (f_op("add", a[0], b[0]), f_op("add", a[1], b[1]))


def cmul(a, b):
    return (f_op("sub", f_op("mul", a[0], b[0]), f_op("mul", a[1], b[1])), f_op("add", f_op("mul", a[0], b[1]), f_op("mul", a[1], b[0])))


def cdiv(a, b):
    d = f_op("add", f_op("mul", b[0], b[0]), f_op("mul", b[1], b[1]))
    n = cmul(a, (b[0], f_neg(b[1])))
    return (f_op("div", n[0], d), f_op("div", n[1], d))


@model("__muldc3")
def _muldc3(I, name, args, ins, st, pc):
    a = [I.fl(x) for x in args]
    return cmul((a[0], a[1]), (a[2], a[3]))


@model("__divdc3")
def _divdc3(I, name, args, ins, st, pc):
    a = [I.fl(x) for x in args]
    return cdiv((a[0], a[1]), (a[2], a[3]))


@model("cexp")
def _cexp(I, name, args, ins, st, pc):
    x, y = map(I.fl, args)
    e = f_call("exp", [x])
    return (f_op("mul", e, f_call("cos", [y])), f_op("mul", e, f_call("sin", [y])))


@model("cabs")
def _cabs(I, name, args, ins, st, pc):
    return _hypot(I, name, args, ins, st, pc)


@model("carg")
def _carg(I, name, args, ins, st, pc):
    x, y = map(I.fl, args)
    return f_call("atan2", [y, x])


@model("csqrt", "clog", "csin", "ccos", "cpow")
def _cuf(I, name, args, ins, st, pc):
    a = [I.fl(x) for x in args]
    return (f_call(name + "_re", a), f_call(name + "_im", a))
