"""The verifier on programs with known answers: wrong programs and vacuous contracts must be rejected."""
import os, subprocess, tempfile
from z3 import And, Or, Implies, If
from ovc.sym import *
from ovc.contract import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def K(name, req=None, ens=None, mod=None):
    return Contract(name, requires=req, ensures=ens, modifies=mod, opts={"timeout": 4000})


CS = {}
for n in ("ok_max", "bad_max"):
    CS[n] = K(n, ens=lambda c: [("max", toz(c.ret) == If(toz(c.args[0]) > toz(c.args[1]), toz(c.args[0]), toz(c.args[1])))])
for n in ("ok_wrap", "bad_wrap"):
    CS[n] = K(n, ens=lambda c: [("one", toz(c.ret) == 1)])
for n in ("ok_count", "bad_count"):
    CS[n] = Contract(n, requires=lambda c: [("n", And(toz(c.args[0]) >= 0, toz(c.args[0]) < 1000))],
                     ensures=lambda c: [("n", toz(c.ret) == toz(c.args[0]))], opts={"timeout": 4000},
                     hints=lambda lc: [("%s <= n" % k[1], lambda st, k=k: [toz(st.cells[k]) <= toz(lc.eng.args[0])])
                                       for k in lc.changed_cells()])
for n in ("ok_buf", "bad_buf", "bad_leakuse", "bad_dfree", "ok_stack", "bad_stack"):
    CS[n] = Contract(n, requires=lambda c: [("n", And(toz(c.args[0]) > 0, toz(c.args[0]) < 1000))],
                     modifies=lambda c: dict(ALLOC, Mi8=FRESH), opts={"timeout": 4000},
                     hints=lambda lc: [("%s <= 4" % k[1], lambda st, k=k: [toz(st.cells[k]) <= 4]) for k in lc.changed_cells()])
rec = lambda c, i: c.pre.valid(c.args[i].obj, "Rec")
CS["bad_null"] = K("bad_null", req=lambda c: [("r", rec(c, 0))], mod=lambda c: {"F:Rec.b": None})
for n in ("ok_frame", "bad_frame"):
    CS[n] = K(n, req=lambda c: [("r", And(rec(c, 0), rec(c, 1)))], mod=lambda c: {"F:Rec.a": OBJ(c.args[0].obj)})
CS["vacuous"] = K("vacuous", req=lambda c: [("never", And(toz(c.args[0]) > 0, toz(c.args[0]) < 0))],
                  ens=lambda c: [("two", toz(c.ret) == 2)])
for n in ("ok_strlen", "bad_strlen"):
    CS[n] = Contract(n, requires=lambda c: [("s", And(c.pre.cstr(c.args[0]), c.pre.size(c.args[0].obj) < 1000))],
                     opts={"timeout": 4000}, hints=lambda lc: [
                         ("%s <= strlen" % k[1], lambda st, k=k: [toz(st.cells[k]) <= V(lc.eng, st).slen(lc.eng.args[0])])
                         for k in lc.changed_cells() if not isinstance(lc.ent.cells[k], Ptr)],
                     ensures=lambda c: [("bounded", toz(c.ret) <= c.pre.slen(c.args[0]))])


def run(G):
    from ovc.ir import Module
    from ovc.program import Program
    from ovc.libc import SPECS
    with tempfile.NamedTemporaryFile(suffix=".ll") as f:
        subprocess.run(["clang-18", "-w", "-O0", "-g", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone",
                        "-emit-llvm", "-S", os.path.join(HERE, "selftest", "selftest.c"), "-o", f.name], check=True)
        prog = Program([Module(f.name)])
    out = []
    for n, c in CS.items():
        r = c.verify(prog, {}, SPECS)
        good = n.startswith("ok_")
        det = [o.name for o in r.failed()][:3]
        unsup = any("reach" in x for x in det)
        out.append(("self-test: %s is %s" % (n, "accepted" if good else "rejected"), r.ok() == good and not unsup, "self-test",
                    str(det)))
    return {"obligations": out, "extra": True}
