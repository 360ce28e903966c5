"""Check driver: builds the IR of a unit from /repo's working tree, runs obligations, writes evidence and verdict."""
import ctypes, resource, os, sys, json, time, subprocess, tempfile, shutil, threading, traceback, re, hashlib, multiprocessing, multiprocessing.connection, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import terms as T
import absint as A
from terms import Undecided, FNode, fconst, fsym, f_op, f_neg, f_ite, f_call, TRUE, FALSE

REPO = os.environ.get("VP_REPO", "/repo")
SRC = REPO + "/src"
LLVM = "/usr/lib/llvm-18"
INC_SYS = ["-isystem", "/usr/include/eigen3"]
CXX = ["clang++", "-std=c++17"]


# ---- arithmetic on FNode for writing specifications
def _w(x):
    return x if isinstance(x, FNode) else fconst(x)


FNode.__add__ = lambda a, b: f_op("add", a, _w(b))
FNode.__radd__ = lambda a, b: f_op("add", _w(b), a)
FNode.__sub__ = lambda a, b: f_op("sub", a, _w(b))
FNode.__rsub__ = lambda a, b: f_op("sub", _w(b), a)
FNode.__mul__ = lambda a, b: f_op("mul", a, _w(b))
FNode.__rmul__ = lambda a, b: f_op("mul", _w(b), a)
FNode.__truediv__ = lambda a, b: f_op("div", a, _w(b))
FNode.__rtruediv__ = lambda a, b: f_op("div", _w(b), a)
FNode.__neg__ = lambda a: f_neg(a)


def _pow(a, n):
    r = fconst(1)
    for _ in range(n):
        r = r * a
    return r


FNode.__pow__ = _pow
sin = lambda x: f_call("sin", [_w(x)])
cos = lambda x: f_call("cos", [_w(x)])
sqrt = lambda x: f_call("sqrt", [_w(x)])
exp = lambda x: f_call("exp", [_w(x)])


def fn(name, *a):
    return f_call(name, [_w(x) for x in a])


def sym(n, sign=None):
    return fsym(n, sign)


def syms(p, n, sign=None):
    return [fsym("%s%d" % (p, i), sign) for i in range(n)]


def ite(c, a, b):
    return f_ite(c, _w(a), _w(b))


def lt(a, b):
    return T.fcmp("lt", _w(a), _w(b))


def le(a, b):
    return T.fcmp("le", _w(a), _w(b))


def gt(a, b):
    return T.fcmp("gt", _w(a), _w(b))


def ge(a, b):
    return T.fcmp("ge", _w(a), _w(b))


def eq(a, b):
    return T.fcmp("eq", _w(a), _w(b))


class CompileError(Exception):
    pass


class Broken(Exception):
    """the check itself cannot be carried out"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def irdump_bin(tool="irdump"):
    d = os.path.join(VERIF, "build")
    out = os.path.join(d, tool)
    src = os.path.join(HERE, tool + ".cpp")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(d, exist_ok=True)
    flags = sh([LLVM + "/bin/llvm-config", "--cxxflags"]).stdout.split()
    tmp = out + ".%d" % os.getpid()
    r = sh(["clang++", "-O1", src, "-o", tmp] + flags + ["-std=c++17", "-fno-rtti", "-w", "-L" + LLVM + "/lib", "-lLLVM-18"] + ([LLVM + "/lib/libclang-cpp.so.18.1"] if tool == "astq" else []))
    if r.returncode:
        raise Broken("cannot build %s: " % tool + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def gen_version(d):
    """version.h is generated from version.h.in by the build; generate it with placeholders"""
    os.makedirs(d + "/gen/MathUtils", exist_ok=True)
    p = SRC + "/MathUtils/version.h.in"
    if os.path.exists(p):
        s = open(p).read()
        s = re.sub(r"@GIT_(RETRIEVED_STATE|IS_DIRTY)@", "false", s)
        s = re.sub(r"@(\w+)@", r"\1", s)
        open(d + "/gen/MathUtils/version.h", "w").write(s)


def flags(d):
    return ["-I" + SRC, "-I" + d + "/gen"] + INC_SYS


OPT = "globaldce,function(sroa,early-cse,simplifycfg),globaldce"


class Res:
    def __init__(self, I, ret, st, pc, excs):
        self.I, self.ret, self.st, self.pc, self.excs = I, ret, st, pc, excs

    def rd(self, p, i=0, t="d", sz=8):
        self.I.pc = self.pc
        return self.I.load(self.st, A.Ptr(p.r, p.o + i * sz), t, sz)

    def arr(self, p, n, t="d", sz=8):
        return [self.rd(p, i, t, sz) for i in range(n)]


def leak(I, pc, st, before):
    """an object of the heap that is live under pc and can no longer be reached from memory that outlives the entry"""
    if st is None:
        return None
    cand = {}
    for rid, r in st.mem.items():
        if r.kind == "heap" and r.freed is not True and rid not in before:
            d = T.band(pc, r.live)
            if d is not FALSE:
                cand[rid] = (r, d)
    if not cand:
        return None
    seen, todo = set(), [r for rid, r in st.mem.items() if r.kind in ("global", "extern", "exc") or rid in before]

    def ptrs(v):
        if isinstance(v, A.Ptr):
            yield v.r
        elif isinstance(v, A.ITE):
            yield from ptrs(v.a)
            yield from ptrs(v.b)
        elif isinstance(v, tuple):
            for x in v:
                yield from ptrs(x)
    while todo:
        r = todo.pop()
        for sz, v in r.cells.values():
            for q in ptrs(v):
                if q is not None and q not in seen:
                    seen.add(q)
                    if q in st.mem:
                        todo.append(st.mem[q])
    for rid, (r, d) in cand.items():
        if rid not in seen and T.feasible(d, I.feas_extra):
            w = r.label.split(" from ", 1)
            return (w[1] if len(w) > 1 else "?", w[0] + " allocated here", d)
    return None


class Check:
    def __init__(self, pid):
        self.id = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.obs = []         # (name, status, where, msg)
        self.funcs = set()
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid)
        gen_version(self.tmp)
        self.rule = ""
        self.steps = 0
        self.consts = set()
        self.samples = []
        self.level = "other"
        self.trusted = []
        self.floor = 1
        self.mem_only = False   # only the memory obligations: no leak, no bad access, whatever the values
        self.assumptions = []
        self.extra_cov = {}

    # ---------------------------------------------------------------- building
    def compile_bc(self, src, extra=(), out=None):
        out = out or os.path.join(self.tmp, os.path.basename(src) + ".bc")
        cmd = CXX + ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_CPUID", "-DEIGEN_ASM_COMMENT(X)=", "-DEIGEN_OPTIMIZATION_BARRIER(X)=", "-fno-access-control", "-ffp-contract=off",
                     "-w", "-I" + VERIF + "/units"] + flags(self.tmp) + list(extra) + ["-emit-llvm", "-c", src, "-o", out]
        r = sh(cmd)
        if r.returncode:
            raise CompileError("%s\n%s" % (os.path.basename(src), r.stderr[:6000]))
        return out

    def unit(self, name, extra=(), src=None, opt=OPT, all=False):
        src = src or os.path.join(VERIF, "units", name)
        bc = self.compile_bc(src, extra)
        o = bc + ".o.bc"
        r = sh([LLVM + "/bin/opt", "-passes=" + opt, bc, "-o", o])
        if r.returncode:
            raise Broken("opt: " + r.stderr[-2000:])
        j = bc + ".json"
        r = sh([irdump_bin(), o, j] + (["all"] if all else []))
        if r.returncode:
            raise Broken("irdump: " + r.stderr[-2000:])
        m = A.Module(j)
        os.unlink(bc)
        os.unlink(o)
        return m

    def unit_text(self, name, text, extra=(), **kw):
        p = os.path.join(self.tmp, name)
        open(p, "w").write(text)
        return self.unit(name, extra, src=p, **kw)

    # ------------------------------------------------------------- obligations
    def ok(self, name, n=1):
        self.obs.append((name, "ok", "", ""))

    def bad(self, name, where, msg):
        self.obs.append((name, "bad", where, msg))

    def und(self, name, msg):
        self.obs.append((name, "und", "", msg))

    def require(self, name, cond, where, msg):
        if self.mem_only:
            return bool(cond)
        if cond:
            self.ok(name)
        else:
            self.bad(name, where, msg)
        return bool(cond)

    def node_loc(self, m, f, default="?"):
        if m is None or not isinstance(f, FNode):
            return default
        seen = set()
        st = [f]
        while st:
            nxt = []
            for x in st:
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.loc:
                    l = m.loc(x.loc)
                    if "/MathUtils/" in l:
                        return l
                nxt += [a for a in x.args if isinstance(a, FNode)]
            st = nxt
            if len(seen) > 2000:
                break
        return default

    def eq(self, name, got, want, m=None, where="?", pc=TRUE, extra=(), tol=T.TOL, eqfn=None):
        """obligation: got == want on every feasible region"""
        if self.mem_only:
            if got is A.UNDEF:
                self.bad(name, where, "indeterminate value")
            return got is not A.UNDEF
        try:
            if isinstance(want, A.ITE):
                want = _ite_f(want)
            want = _w(want)
            if got is A.UNDEF or got is None:
                self.bad(name, where, "the value is uninitialised")
                return False
            if not isinstance(got, FNode):
                if isinstance(got, int):
                    got = fconst(got)
                elif isinstance(got, A.IntF):
                    got = got.f
                elif isinstance(got, A.ITE):
                    got = _ite_f(got)
            with limit():
                mm = T.equal(got, want, pc, extra, tol, eqfn)
            if mm is None:
                self.ok(name)
                return True
            self.bad(name, self.node_loc(m, got, where), str(mm))
            return False
        except T.NonFinite as e:
            self.bad(name, self.node_loc(m, got, where), "a non-finite value reaches the result (%s)" % e)
        except Undecided as e:
            self.und(name, str(e))
        return False

    def cond_eq(self, name, got, want, where, extra=()):
        """obligation: two conditions (BDD) coincide"""
        if self.mem_only:
            return True
        d = T.bxor(got, want)
        w = T.feasible_cube(d, extra)
        if w is None:
            self.ok(name)
            return True
        self.bad(name, where, "differs when [%s]" % " & ".join(T.lits_str(w)))
        return False

    def interp(self, m, **kw):
        I = A.Interp(m, **kw)
        I.check = self
        return I

    def run(self, name, I, fn, args, allow=(), pc=TRUE):
        """Analyse one entry; any memory error / unexpected exit found on a feasible path is a violation
        of obligation `name`. `allow`: kinds of abnormal outcomes accepted here: 'assert','exit','throw'.
        Returns Res or None when undecided/violated."""
        self.note(I)
        if fn not in I.m.raw:
            raise Broken("entry %s missing from the analysed unit" % fn)
        before = set(I.st0.mem) if self.mem_only else ()
        if self.mem_only:
            allow = ("assert", "exit", "throw", "abort")
        try:
            with limit():
                ret, st, pc2, excs = I.run_root(fn, args, pc=pc)
        except Undecided as e:
            self.und(name, "%s (%s)" % (e, I.where()))
            I.frames = []
            return None
        except A.AnalysisStop as e:
            self.bad(name, I.where(), str(e))
            I.frames = []
            return None
        finally:
            self.steps += I.steps
            self.note(I)
        bad = False
        for ev in I.events:
            if T.feasible(ev["pc"], I.feas_extra):
                self.bad(name, ev["where"], "%s: %s%s" % (ev["kind"], ev["msg"], pcs(ev["pc"])))
                bad = True
                break
        for o in I.outcomes:
            if o["kind"] == "unreachable":
                if T.feasible(o["pc"], I.feas_extra) and "unreachable" not in allow and not any(x is not o and x["pc"] is o["pc"] for x in I.outcomes):
                    self.bad(name, o["where"], "control reaches the end of a value-returning function%s" % pcs(o["pc"]))
                    bad = True
                continue
            if o["kind"] in allow:
                continue
            if T.feasible(o["pc"], I.feas_extra):
                self.bad(name, o["where"], "%s %s%s" % (o["kind"], o["info"], pcs(o["pc"])))
                bad = True
                break
        if "throw" not in allow:
            for p, e, s in excs:
                if T.feasible(p, I.feas_extra):
                    self.bad(name, e.loc, "exception %s escapes%s" % (e.tinfo, pcs(p)))
                    bad = True
                    break
        if self.mem_only:
            for p, s in [(pc2, st)] + [(p, s) for p, e, s in excs]:
                l = leak(I, p, s, before)
                if l:
                    self.bad(name, l[0], "%s never released%s%s" % (l[1], "" if s is st else " when the operation fails by exception", pcs(l[2])))
                    bad = True
                    break
            if not bad:
                self.ok(name)
        if bad:
            return None
        return Res(I, ret, st, pc2, excs)

    def refuse(self, name, I, fn, args, where, cond=TRUE, pc=TRUE, kinds=("assert", "exit", "throw", "abort")):
        """obligation: the entry fails (assertion, exception, exit with a failure status) exactly when cond holds"""
        if self.mem_only:
            self.run(name, I, fn, args, pc=pc)
            return None
        r = self.run(name, I, fn, args, allow=kinds, pc=pc)
        if r is None:
            return None
        for o in I.outcomes:
            if o["kind"] == "exit" and T.feasible(o["pc"], I.feas_extra):
                st = o["info"]
                if isinstance(st, int) and (st & 255) == 0:
                    self.bad(name, o["where"], "the process terminates with the success status on an error path%s" % pcs(o["pc"]))
                    return None
        d = T.band(pc, T.bxor(r.pc, T.bnot(cond)))
        w = T.feasible_cube(d, I.feas_extra)
        if w is not None:
            acc = T.band(T.band(d, cond), r.pc)
            self.bad(name, where, ("accepted although it must be refused" if T.feasible(acc, I.feas_extra) else "refused although it must be accepted") + " when [%s]" % " & ".join(T.lits_str(w)))
            return None
        self.ok(name)
        return r

    def note(self, I):
        m = I.m
        for n in I.called:
            f = m.cache.get(n)
            if f is not None and "/MathUtils/" in f.file:
                self.funcs.add(f.dem)
                if not hasattr(f, "scanned"):
                    f.scanned = True
                    f.ints = int_consts(m, f)
                self.consts |= f.ints

    def cutoffs(self, lo=2, hi=128):
        """instance sizes around the integer constants that the analysed repository code mentions"""
        out = set()
        for c in self.consts:
            for k in (c - 1, c, c + 1, c + 2, 2 * c + 1):
                if lo <= k <= hi:
                    out.add(k)
        return sorted(out)

    def grow(self, fun, sizes, lo, hi, guard=6):
        """analyse fun(n) for the given sizes, then for every size around an integer constant of the analysed code"""
        done = set()
        todo = list(sizes)
        while todo:
            n = todo.pop(0)
            if n in done or n < lo:
                continue
            done.add(n)
            fun(n)
            if not todo:
                todo = [k for k in self.cutoffs(lo, hi) if k not in done]
        self.extra_cov["sizes"] = sorted(done)
        return done

    def pmap(self, func, items, jobs=8):
        """func(check, item) run in forked workers; obligations are collected"""
        items = list(items)
        if len(items) <= 1:
            for it in items:
                self.guarded(func, it)
            return
        q = multiprocessing.get_context("fork").Queue()
        nxt = multiprocessing.get_context("fork").Value("i", 0)
        n = min(jobs, len(items))
        procs = []
        for w in range(n):
            def work(w=w):
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                sub = Check.__new__(Check)
                sub.__dict__.update(self.__dict__)
                sub.obs, sub.funcs, sub.steps, sub.consts, sub.extra_cov, sub.samples = [], set(), 0, set(), {}, []
                while True:
                    with nxt.get_lock():
                        i = nxt.value
                        nxt.value += 1
                    if i >= len(items):
                        break
                    t0 = time.time()
                    sub.guarded(func, items[i])
                    if os.environ.get("VP_TIME") and time.time() - t0 > float(os.environ["VP_TIME"]):
                        print("TIME %.1f %s" % (time.time() - t0, str(items[i])[:200]), flush=True)
                q.put((w, sub.obs, sub.funcs, sub.steps, sub.consts, sub.extra_cov, sub.samples))

            p = multiprocessing.get_context("fork").Process(target=bigstack, args=(work,))
            p.start()
            procs.append(p)
        got = {}
        while len(got) < n:
            try:
                r = q.get(timeout=5)
                got[r[0]] = r
            except Exception:
                if all(not p.is_alive() for p in procs) and q.empty():
                    break
        for p in procs:
            p.join()
        if len(got) < n:
            raise Broken("an analysis worker died")
        for w in sorted(got):
            _, obs, funcs, steps, consts, ec, sm = got[w]
            self.obs += obs
            self.funcs |= funcs
            self.steps += steps
            self.consts |= consts
            self.samples += sm
            for k, v in ec.items():
                if isinstance(v, list):
                    self.extra_cov[k] = sorted(set(self.extra_cov.get(k, [])) | set(v))
                else:
                    self.extra_cov[k] = v

    def isolate(self, func, items, jobs=2):
        """func(check, item), each item in a process of its own (fresh symbol tables), a few at a time"""
        ctx = multiprocessing.get_context("fork")

        def one(it):
            rd, wr = ctx.Pipe(False)

            def work():
                sub = Check.__new__(Check)
                sub.__dict__.update(self.__dict__)
                sub.obs, sub.funcs, sub.steps, sub.consts, sub.extra_cov, sub.samples = [], set(), 0, set(), {}, []
                sub.tmp = os.path.join(self.tmp, str(it))
                os.makedirs(sub.tmp)
                gen_version(sub.tmp)
                try:
                    func(sub, it)
                except Undecided as e:
                    sub.und(str(it)[:80], str(e))
                except Exception:
                    sub.und(str(it)[:80], "analysis broken: %s" % traceback.format_exc()[-800:])
                wr.send((sub.obs, sub.funcs, sub.steps, sub.consts, sub.extra_cov, sub.samples))

            p = ctx.Process(target=bigstack, args=(work,))
            p.start()
            wr.close()
            return it, p, rd
        todo, run = list(items), []
        done = {}
        while todo or run:
            while todo and len(run) < jobs:
                run.append(one(todo.pop(0)))
            ready = multiprocessing.connection.wait([r[2] for r in run])
            for r in list(run):
                if r[2] in ready:
                    try:
                        done[r[0]] = r[2].recv()
                    except EOFError:
                        raise Broken("an analysis process died (%s)" % (r[0],))
                    r[1].join()
                    run.remove(r)
        for it in items:
            obs, funcs, steps, consts, ec, sm = done[it]
            self.obs += obs
            self.funcs |= funcs
            self.steps += steps
            self.consts |= consts
            self.samples += sm
        return {it: len(done[it][0]) for it in items}

    def guarded(self, func, it):
        try:
            with limit():
                func(self, it)
        except Undecided as e:
            self.und(str(it)[:80], str(e))
        except A.AnalysisStop as e:
            self.und(str(it)[:80], str(e))
        except (RecursionError, MemoryError) as e:
            self.und(str(it)[:80], "recursion or memory limit")
        except Broken as e:
            self.und(str(it)[:80], "analysis broken: %s" % e)
        except Exception as e:
            self.und(str(it)[:80], "internal error: %s" % traceback.format_exc()[-800:])

    # ------------------------------------------------------------------ verdict
    def finish(self):
        bad = [o for o in self.obs if o[1] == "bad"]
        und = [o for o in self.obs if o[1] == "und"]
        ok = [o for o in self.obs if o[1] == "ok"]
        known = load_known(self.id)
        viol = []
        kn = []
        for o in bad:
            k = next((k for k in known if k["obligation"] == o[0]), None)
            if k is not None and (k.get("match", "") in o[3]):
                kn.append((k, o))
            else:
                viol.append(o)
        names = {}
        for o in self.obs:
            names[o[0].split("[")[0]] = names.get(o[0].split("[")[0], 0) + 1
        expl = self.rule
        cov = {"explanation": expl, "obligations": len(self.obs), "discharged": len(ok), "undecided": len(und),
               "obligation_groups": names,
               "repo_functions_analysed": len(self.funcs), "functions": sorted(A.short(f) for f in self.funcs)[:400],
               "ir_instructions_interpreted": self.steps,
               "checker_cmd": "bash check.sh %s" % self.id,
               "trusted_base": ["clang 18 front end and LLVM mem2reg/sroa/simplifycfg", "engine/terms.py, engine/absint.py"] + self.trusted,
               "samples": self.samples[:5] + [o[0] for o in ok[:8]]}
        cov.update(self.extra_cov)
        if und:
            # some obligations could not be decided on this tree: the claim is only what was decided
            self.level = "other"
            cov["undecided_obligations"] = [[o[0], o[3][:300]] for o in und[:50]]
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % self.id, "w"), indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k, o in kn:
            print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        if viol:
            rp = VERIF + "/evidence/%s.violation.json" % self.id
            json.dump([{"obligation": o[0], "where": o[2], "message": o[3]} for o in viol], open(rp, "w"), indent=1)
            for o in viol[:12]:
                print("%s: obligation %s: %s" % (o[2], o[0], o[3][:600]))
            if len(viol) > 12:
                print("... %d more violated obligations" % (len(viol) - 12))
            print("VIOLATION property=%s replay=%s" % (self.id, rp))
            return 1
        for o in und[:10]:
            print("UNDECIDED %s: %s" % (o[0], o[3][:1500]))
        if und and (len(ok) < self.floor // 2 or os.environ.get("VP_STRICT")):
            return 2
        if not und and len(ok) < self.floor:
            print("ANALYSIS-BROKEN: only %d obligations, expected at least %d" % (len(ok), self.floor))
            return 2
        print("OK property=%s obligations=%d repo_functions=%d wall=%.1fs" % (self.id, len(ok), len(self.funcs), time.time() - self.t0))
        return 0


def _ite_f(v):
    if isinstance(v, A.ITE):
        return f_ite(v.c, _ite_f(v.a), _ite_f(v.b))
    if isinstance(v, int):
        return fconst(v)
    if isinstance(v, A.IntF):
        return v.f
    if isinstance(v, FNode):
        return v
    if v is A.UNDEF:
        return T.fsym("uninitialised")
    raise Undecided("not a number: %r" % (v,))


def unfloat(f):
    """drop single-precision rounding marks"""
    memo = {}

    def go(x):
        if not isinstance(x, FNode):
            return x
        if x.id in memo:
            return memo[x.id]
        if x.op == "call" and x.args[0] == "tofloat":
            r = go(x.args[1])
        elif x.op in ("const", "sym", "rat"):
            r = x
        else:
            r = T.fnode(x.op, tuple(go(a) for a in x.args), x.loc)
        memo[x.id] = r
        return r
    return go(f)


def pcs(pc):
    return "" if pc is TRUE else " when %s" % T.bstr(pc)[:300]


def int_consts(m, f):
    """integer constants of the function's own code that may decide anything by size, and the wrap-around points of its narrow integers"""
    out = set()
    wr = {8: 256, 16: 65536}
    for b in f.blocks:
        for i in b:
            if i[2] and "/MathUtils/" not in m.loc(i[2]) or not i[2] and i[0] != "icmp":
                continue  # (a condition the compiler has moved carries no position)
            if i[0] == "icmp":
                ops = (i[5], i[6])
            elif i[0] in A.INTOP:
                ops = i[4]
                if i[3] in ("i8", "i16"):
                    out.add(wr[int(i[3][1:])])
            elif i[0] == "select":
                ops = i[4][1:]
            elif i[0] == "store":
                if i[3] not in ("i32", "i64"):
                    continue
                ops = (i[5],)
            elif i[0] in ("trunc", "zext", "sext"):
                w = min(int(x[1:]) for x in (i[3], i[5][0]))
                if w in wr:
                    out.add(wr[w])
                continue
            elif i[0] == "switch":
                out |= {c for c, _ in i[5] if c <= 4096}
                continue
            else:
                continue
            for o in ops:
                if o >= f.n:
                    c = f.consts[o - f.n]
                    if isinstance(c, int):
                        if 2 < c <= 4096:
                            out.add(c)
    return out


def load_known(pid):
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


class Timeout(Undecided):
    def __str__(self):
        return "time limit of the analysis"


DL = {"t": None, "end": time.time() + (720 if os.environ.get("VERIF_TIER") != "thorough" else 6000)}
RUN_LIMIT = 100 if os.environ.get("VERIF_TIER") != "thorough" else 1000


class limit:
    """the enclosed analysis step becomes undecided when it takes too long"""

    def __enter__(self):
        self.old = DL["t"]
        if time.time() > DL["end"]:
            raise Timeout()
        DL["t"] = min(time.time() + RUN_LIMIT, DL["end"], self.old or 1e18)

    def __exit__(self, *a):
        DL["t"] = self.old


def bigstack(fun):
    threading.stack_size(512 * 1024 * 1024)
    err = []

    def w():
        try:
            fun()
        except BaseException:
            err.append(traceback.format_exc())

    t = threading.Thread(target=w)
    t.start()
    while t.is_alive():
        t.join(1.0)
        if DL["t"] and time.time() > DL["t"] and t.is_alive():
            DL["t"] = None
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(Timeout))
    if err:
        sys.stderr.write(err[0])
        sys.stderr.flush()
        os._exit(3)


def main(pid):
    rc = [2]

    def go():
        import importlib.util
        c = Check(pid)
        try:
            spec = importlib.util.spec_from_file_location("chk_" + pid, VERIF + "/checks/%s.py" % pid)
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
            mod.check(c)
        except CompileError as e:
            print("ANALYSIS-BROKEN: the analysed unit does not compile: %s" % e)
            c.und("unit", "the analysed unit does not compile")
        except Broken as e:
            print("ANALYSIS-BROKEN: %s" % e)
            c.und("unit", str(e))
        except Undecided as e:
            c.und("check", str(e))
        except Exception:
            traceback.print_exc()
            c.und("check", "internal error")
        rc[0] = c.finish()

    bigstack(go)
    sys.stdout.flush()
    os._exit(rc[0])

