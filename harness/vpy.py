"""Interpreter for annotation programs in Python: vpy.py PROGRAM.json RESULT.json (PYTHONPATH leads to pycaliper)."""
import json, sys, threading
prog = json.load(open(sys.argv[1]))
import pycaliper as pc
from pycaliper import instrumentation as ins
from pycaliper.annotation import Annotation
from pycaliper.config_manager import ConfigManager
from pycaliper.loop import Loop
from pycaliper import types as ty

TY = {"usr": ty.CALI_TYPE_USR, "int": ty.CALI_TYPE_INT, "uint": ty.CALI_TYPE_UINT, "string": ty.CALI_TYPE_STRING, "addr": ty.CALI_TYPE_ADDR, "double": ty.CALI_TYPE_DOUBLE, "bool": ty.CALI_TYPE_BOOL, "type": ty.CALI_TYPE_TYPE}
class Boom(Exception): pass
class Obj(object): pass
attrs, anns, loops, mgrs, res = {}, {}, {}, {}, {}

def args(v):
    if v is None: return ()
    t, x = v
    if t == "typed": return (TY[x[0]], x[1].encode() if x[0] == "usr" else x[1])
    if t == "double": return (float(x),)
    return (x,)

def props(p): return ty.AttrProperties(p)

def call(op):
    kind, name, body, raises, catch = op[1:6]
    def run_body(x, y=0):
        """doc"""
        run(body)
        if raises: raise Boom(name)
        return x + y
    run_body.__name__ = name if op[6] else "other"
    deco = pc.annotate_function(None if op[6] else name, kind) if kind != "region" or len(name) % 2 else (pc.annotate_function() if op[6] else pc.annotate_function(name=name))
    f = deco(run_body)
    if f.__name__ != run_body.__name__ or f.__doc__ != "doc": raise RuntimeError("annotate_function loses the name or docstring")
    try:
        if f(40, y=2) != 42: raise RuntimeError("annotate_function loses the result")
    except Boom as e:
        if not catch: raise
        if not isinstance(e.args[0], str): raise RuntimeError("wrong exception")
        return "caught"
    return "returned"

def run(ops):
    for op in ops:
        k = op[0]; r = None
        if k in ("b", "s", "e") and op[1] not in attrs or k in ("ab", "as", "ae") and op[1] not in anns: continue
        try:
            if k == "preset": pc.config_preset(op[1])
            elif k == "init": pc.init()
            elif k == "isinit": r = bool(pc.is_initialized())
            elif k == "attr": attrs[op[1]] = ins.Attribute(op[2], TY[op[3]]) if op[4] == 0 and len(op[2]) % 2 else ins.Attribute(op[2], TY[op[3]], props(op[4])) if len(op[2]) % 3 else ins.Attribute(op[2], TY[op[3]], opt=props(op[4]))
            elif k == "find":
                a = ins.Attribute.find_attribute(op[2]); r = [a.name, a.type.name, int(a.properties)]
                if op[1] is not None: attrs[op[1]] = a
            elif k == "b": attrs[op[1]].begin(*args(op[2]))
            elif k == "s": attrs[op[1]].set(*args(op[2]))
            elif k == "e": attrs[op[1]].end()
            elif k == "nb": ins.begin_byname(op[1], *args(op[2]))
            elif k == "ns": ins.set_byname(op[1], *args(op[2]))
            elif k == "ne": ins.end_byname(op[1])
            elif k == "ann": anns[op[1]] = Annotation(op[2]) if op[3] == 0 else Annotation(op[2], props(op[3])) if len(op[2]) % 2 else Annotation(op[2], opt=props(op[3]))
            elif k == "ab": x = anns[op[1]].begin(*args(op[2]))
            elif k == "as": x = anns[op[1]].set(*args(op[2]))
            elif k == "ae": anns[op[1]].end()
            elif k in ("rb", "pb", "cb"): {"rb": ins.begin_region, "pb": ins.begin_phase, "cb": ins.begin_comm_region}[k](op[1])
            elif k in ("re", "pe", "ce"): {"re": ins.end_region, "pe": ins.end_phase, "ce": ins.end_comm_region}[k](op[1])
            elif k == "lp": loops[op[1]] = Loop(op[2])
            elif k == "it": loops[op[1]].start_iteration(op[2])
            elif k == "ite": loops[op[1]].end_iteration()
            elif k == "lpe": loops[op[1]].end()
            elif k == "glob": ins.set_global_byname(op[1], *args(op[2]))
            elif k == "call": r = call(op)
            elif k == "thr":
                def body(o=op[1]):
                    try: run(o)
                    except Boom: pass
                t = threading.Thread(target=body); t.start(); t.join()
            elif k == "baddeco":
                try: pc.annotate_function("x", "nonsense")(len); r = "accepted"
                except ValueError: r = "rejected"
            elif k == "mnew": mgrs[op[1]] = ConfigManager() if op[2] is None else ConfigManager(op[2])
            elif k == "mdel": del mgrs[op[1]]
            elif k == "madd": mgrs[op[1]].add(op[2])
            elif k == "mspec": mgrs[op[1]].add_config_spec(op[2])
            elif k == "mospec": mgrs[op[1]].add_option_spec(op[2])
            elif k == "mdflt": mgrs[op[1]].set_default_parameter(op[2], op[3])
            elif k == "mdfltc": mgrs[op[1]].set_default_parameter_for_config(op[2], op[3], op[4])
            elif k == "merr":
                m = mgrs[op[1]]; r = [bool(m.error()), m.error_msg()]
                if repr(m) != r[1]: r.append(repr(m))
            elif k == "mcheck":
                try: mgrs[op[1]].check(op[2]); r = ""
                except RuntimeError as e: r = str(e)
            elif k == "mspecs": r = sorted(mgrs[op[1]].available_config_specs())
            elif k == "mdoc": r = mgrs[op[1]].get_documentation_for_spec(op[2])
            elif k == "mdocs": r = ConfigManager.get_config_docstrings()
            elif k == "mload": mgrs[op[1]].load(op[2])
            elif k == "mstart": mgrs[op[1]].start()
            elif k == "mstop": mgrs[op[1]].stop()
            elif k == "mflush": mgrs[op[1]].flush()
            else: r = "BAD OP " + k
        except Boom: raise
        except Exception as e:
            r = "exception " + type(e).__name__ + ": " + str(e)[:200]
        if r is not None: res.setdefault(str(op[-1]), r)

try: run(prog)
except Boom: res["boom"] = 1
json.dump(res, open(sys.argv[2], "w"))
