import sys, os, subprocess, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *
from concurrent.futures import ThreadPoolExecutor
import witness


def headers():
    d = SRC + "/MathUtils"
    return sorted(h for h in os.listdir(d) if h.endswith(".h"))


def prog(hs, body=""):
    return "".join('#include "MathUtils/%s"\n' % h for h in hs) + body


def clang(c, name, text, args, out=None):
    """compile a text; returns (ok, first error location, first error message, path of output)"""
    p = os.path.join(c.tmp, name + ".cpp")
    open(p, "w").write(text)
    o = os.path.join(c.tmp, name + ".out")
    cmd = CXX + flags(c.tmp) + ["-w"] + list(args) + [p] + (["-o", o] if out else [])
    r = sh(cmd)
    if r.returncode == 0:
        return True, "", "", o
    loc, msg = errors(r.stderr, p)
    return False, loc, msg, o


def errors(stderr, wit):
    """where the first error is reported; an error inside a dependency is attributed to the repository line that instantiates it"""
    ls = stderr.split("\n")
    loc = msg = ""
    for i, l in enumerate(ls):
        m = re.match(r"(\S+?):(\d+):\d+: (?:fatal )?error: (.*)", l)
        if m:
            loc, msg = "%s:%s" % (m.group(1), m.group(2)), m.group(3)[:300]
            if "/MathUtils/" not in loc:
                for k in ls[i + 1:i + 400]:
                    if re.search(r": (fatal )?error: ", k):
                        break
                    n = re.match(r"(\S+?/MathUtils/\S+?):(\d+):\d+: note: ", k)
                    if n:
                        loc = "%s:%s" % (n.group(1), n.group(2))
                        break
            break
    if not msg:
        msg = (ls[0] if ls else "")[:300]
    if os.path.basename(wit) in loc:
        loc = "use of the interface (" + os.path.basename(wit) + " line " + loc.rsplit(":", 1)[1] + ")"
    return loc, msg


def parallel(fun, items, jobs=8):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fun, items))


def whole(hs):
    seen, ls = set(), []
    for l in (prog(hs) + "".join(witness.double_only(witness.W.get(h, "")) for h in hs)).split("\n"):
        if l.startswith("template class"):
            if l in seen:
                continue
            seen.add(l)
        ls.append(l)
    return "\n".join(ls)


def ast_query(c):
    """start the syntax-tree query over all headers and their instantiations; the result waits for it and returns its lines"""
    path, box = os.path.join(c.tmp, "all.cpp"), {}
    open(path, "w").write(whole(headers()))
    th = threading.Thread(target=lambda: box.update(r=sh([irdump_bin("astq"), path, "-std=c++17", "-w"] + flags(c.tmp))))
    th.start()

    def get():
        th.join()
        r = box["r"]
        if r.returncode:
            loc, msg = errors(r.stderr, path)
            raise Broken("%s: %s" % (loc, msg))
        return [l.split("\t") for l in r.stdout.strip().split("\n")]
    return get
