"""C01: Tensor metadata, aliasing, copies and atomic rejection."""
import random
from .core import *

SPECCFG = """SPECIFICATION Spec
CONSTANTS Handle = {%s}
 MaxLen = %d
 ShapeSet <- %s
 ValSet = {%s}
 Printing = FALSE
CHECK_DEADLOCK FALSE
"""
PROPS = "VIEW View\nINVARIANTS TypeOK MetadataConsistent RowMajorBijective\nPROPERTIES RejectedIsNoop HandlesShare\n"


def scenario(i, ops, ext=None):
    return {"m": "tensor", "id": i, "ext": ext if ext is not None else [{"b": 1, "n": 12, "v0": 100}], "ops": ops}


def extra(seed, tier):
    """Hand-shaped histories with larger blocks, chosen by seed."""
    r = random.Random(seed * 7919 + 1)
    out = []
    for k in range(12 if tier == "quick" else 60):
        dims = r.choice([1, 2, 3, 4, 4, 5])
        while True:
            sh = [r.choice([1, 2, 3, 4, 5, 7, 8, 11, 16, 33]) for _ in range(dims)]
            n = 1
            for d in sh:
                n *= d
            if n <= 4500:
                break
        flat = [n]
        rev = list(reversed(sh))
        one = [1] + sh + [1]
        out.append(scenario("big%d" % k, [
            {"op": "new", "h": 1, "shape": sh}, {"op": "fill", "h": 1, "v": r.randrange(1, 999)},
            {"op": "new", "h": 2, "shape": sh}, {"op": "copyto", "h": 1, "dst": 2},
            {"op": "copy", "h": 3, "src": 2}, {"op": "reshape", "h": 3, "shape": flat},
            {"op": "copyto", "h": 1, "dst": 2}, {"op": "reshape", "h": 2, "shape": rev},
            {"op": "write", "h": 2, "i": n - 1, "v": 7}, {"op": "fzeros", "h": 1, "shape": rev},
            {"op": "copyto", "h": 2, "dst": 1}, {"op": "reshape", "h": 1, "shape": one},
            {"op": "alloc", "h": 3, "shape": one}, {"op": "copyto", "h": 1, "dst": 2},
            {"op": "const", "h": 2, "v": 3}, {"op": "reshape", "h": 1, "shape": [n + 1]},
            {"op": "fconst", "h": 3, "shape": sh, "v": 4}, {"op": "zeros", "h": 1}]))
    for k, sh in enumerate([[70000], [257, 130], [3, 128, 90], [1, 40000, 1]][:2 if tier == "quick" else 4]):
        n = 1
        for d in sh:
            n *= d
        out.append(scenario("huge%d" % k, [{"op": "new", "h": 1, "shape": sh}, {"op": "fill", "h": 1, "v": r.randrange(1, 999)},
                                           {"op": "new", "h": 2, "shape": sh}, {"op": "copyto", "h": 1, "dst": 2},
                                           {"op": "reshape", "h": 2, "shape": [n // 10, 10]}]))
    return out


def run(v, work):
    quick = v.tier == "quick"
    cfg = SPECCFG % ("1, 2", 3 if quick else 4, "ShapesSmall", "5, 9") + PROPS
    depth = 18
    gcfg = SPECCFG % ("1, 2, 3, 4", depth, "ShapesGen", "1, 2, 3, 50") + "INVARIANT Emit\n"
    exe, (s, t), seqs = par(lambda: build("m_tensor", False), lambda: model_check("MC_Tensor", cfg, work, workers=6),
                            lambda: generate("MC_Tensor", gcfg, work, 160 if quick else 1500, depth + 3, v.seed))
    v.states += s
    v.trans += t
    v.parts.append({"design": "MC_Tensor", "handles": 2, "depth": 3 if quick else 4, "states": s})
    scs = [scenario("gen%d" % i, ops) for i, ops in enumerate(seqs)] + extra(v.seed, v.tier)
    log("generated", len(scs))
    res = run_driver(exe, scs, work)
    log("driven")
    validate(v, "tensor", "Tr_Tensor", exe, scs, res, work, cfg=TRACE_CFG + "CONSTANT Handle = {1, 2, 3, 4}\n")
    v.parts.append({"trace": "Tr_Tensor", "generated_behaviours": len(seqs), "depth": depth})
    v.samples.append({"scenario": scs[0]["id"], "calls": scs[0]["ops"][:6]})


def texts(r, n):
    w = ["x", "shape mismatch: ", "", " ", "a" * 500, "\"quoted\"", "100%", "%s%n", "tab\t", "12", "}"]
    return [{"m": "text", "id": "text%d" % i,
             "ops": [{"op": "throw", "line": r.choice([1, 42, 99999]), "file": r.choice(["a.cpp", "/some/where/b file.hpp"]), "func": r.choice(["f", "operator()"]),
                      "parts": [r.choice(w + [0, -7, 123456]) for _ in range(r.randint(0, 6))], "copied": r.random() < .5} for _ in range(6)]} for i in range(n)]


def c28(v, work):
    """printouts and texts here, drawings in p_model"""
    from . import p_model
    quick = v.tier == "quick"
    r = random.Random(v.seed * 3 + 11)
    depth = 16
    base = SPECCFG.replace("Printing = FALSE", "Printing = TRUE")
    gcfg = base % ("1, 2, 3, 4", depth, "ShapesGen", "1, 2, 3, 50") + "INVARIANT Emit\n"
    exe, (s, t), seqs = par(lambda: build("m_tensor", False),
                            lambda: model_check("MC_Tensor", base % ("1, 2", 3, "ShapesSmall", "5") + PROPS, work, workers=4),
                            lambda: generate("MC_Tensor", gcfg, work, 80 if quick else 800, depth + 3, v.seed))
    v.states += s
    v.trans += t
    scs = [scenario("print%d" % i, ops) for i, ops in enumerate(seqs)]
    for k, sc in enumerate(extra(v.seed + 5, v.tier)):
        ops = []
        for o in sc["ops"]:
            ops.append(o)
            if r.random() < .4 and o["op"] in ("fill", "copyto", "reshape", "write", "const"):
                ops.append({"op": "print", "h": o.get("dst", o["h"])})
        scs.append(scenario("bigprint%d" % k, ops))
    res = run_driver(exe, scs, work)
    validate(v, "print", "Tr_Tensor", exe, scs, res, work, cfg=TRACE_CFG + "CONSTANT Handle = {1, 2, 3, 4}\n")
    v.parts.append({"trace": "Tr_Tensor", "generated_behaviours": len(scs)})
    ts = texts(r, 8 if quick else 80)
    validate(v, "text", "Tr_Text", exe, ts, run_driver(exe, ts, work), work)
    p_model.c28m(v, work)


RULE28 = ("models drawn at any point of generated programs and with odd layer names; the DOT text is parsed back and must be isomorphic to the "
          "specification's drawing; tensors, shapes and exception texts printed within generated tensor histories and read back")
RULE = ("behaviours of TensorSpec generated by TLC simulation (seeded) over 4 handles and 30 shapes, plus histories on "
        "blocks of up to 4500 elements, executed on dw::Tensor; after every call shape, strides, total, aliasing and "
        "all elements of all live handles are matched by the specification")
