"""C12 shape inference, parameter creation, layers by name."""
import random
from .core import *

KINDS = ["Linear", "Convolution", "MaxPooling", "GlobalAvgPooling", "ReLU", "LeakyReLU", "ELU", "Sigmoid", "Softmax", "Dropout",
         "BatchNorm1D", "BatchNorm2D", "Add"]
ATTRS = {"Linear": ["units"], "Convolution": ["out_channels", "kernel", "padding", "stride"], "MaxPooling": ["kernel", "padding", "stride"],
         "LeakyReLU": ["alpha"], "ELU": ["alpha"], "Dropout": ["p"], "BatchNorm1D": ["eps", "alpha"], "BatchNorm2D": ["eps", "alpha"]}


def out_dim(n, k, p, s):
    return (n + 2 * p - k) // s + 1


class B:
    """keeps its own shapes only to choose sensible sizes; the specification decides"""

    def __init__(self, r):
        self.r, self.ops, self.ph, self.ob = r, [], [], []
        self.near = 6
        self.input([2, 3, 4, 5])

    def input(self, sh):
        self.ph.append(sh)
        self.ops.append({"op": "input", "sh": sh})

    def conf(self, kind, c=None):
        r = self.r
        c = {"kind": kind, "name": r.choice(["", "", "n%d" % r.randint(0, 9), "a layer", "x" * 40])}
        if kind == "Linear":
            c["units"] = r.choice([1, 2, 3, 7, 16, 70])
        if kind in ("Convolution", "MaxPooling"):
            k = [r.randint(1, 4), r.randint(1, 4)]
            c.update(co=r.choice([1, 2, 3, 5, 33]), k=k, p=[r.randint(0, 2), r.randint(0, 2)], s=[r.randint(1, 3), r.randint(1, 3)])
        if kind in ("LeakyReLU", "ELU", "Dropout"):
            c["a"] = r.randint(0, 15)
        if kind in ("BatchNorm1D", "BatchNorm2D"):
            c["def"] = c["name"] == "" and r.random() < .5
            c.update(eps=r.randint(0, 20), a=r.randint(0, 16))
            if r.random() < .4:
                c["eb"] = fbits(r.choice(ODD_FLOATS))
        if "a" in c and kind != "Dropout" and r.random() < .4:
            c["ab"] = fbits(r.choice(ODD_FLOATS + [-0.5, -1e-9]))
        return float_attrs(c)

    def ok(self, c, sh, sh2=None):
        """None: not to be tried (undefined); else the output shape or 'refused'"""
        k = c["kind"]
        if k in ("BatchNorm1D", "BatchNorm2D") and len(sh) < 2:
            return None
        if k == "Add":
            return sh if sh == sh2 else "refused"
        if k == "Linear":
            return [sh[0], c["units"]] if len(sh) != 1 else "refused"
        if k in ("Convolution", "MaxPooling", "GlobalAvgPooling", "BatchNorm2D") and len(sh) != 4:
            return "refused"
        if k in ("Convolution", "MaxPooling"):
            if any(c["k"][i] > sh[2 + i] + 2 * c["p"][i] for i in (0, 1)):
                return "refused"
            if k == "MaxPooling" and any(2 * c["p"][i] > c["k"][i] for i in (0, 1)):
                return None
            o = [sh[0], c["co"] if k == "Convolution" else sh[1]] + [out_dim(sh[2 + i], c["k"][i], c["p"][i], c["s"][i]) for i in (0, 1)]
            return o
        if k == "GlobalAvgPooling":
            return [sh[0], sh[1], 1, 1]
        return sh

    def take(self, o):
        r, k = self.r, o["op"]
        if k == "input":
            sh = o["sh"]
            if r.random() < .4:
                sh = r.choice([[r.randint(1, 5), r.randint(1, 40)], [r.randint(1, 4), r.randint(1, 6), r.randint(1, 12), r.randint(1, 12)],
                               [2, 3, 4], [r.randint(1, 3), 2, 3, 2, 2]])
            self.input(sh)
        elif k == "new":
            c = self.conf(o["c"]["kind"])
            self.ob.append(c)
            self.ops.append({"op": "new", "c": c})
        elif k in ("apply", "make"):
            if k == "apply":
                objs = [j + 1 for j, c in enumerate(self.ob) if c]
                if not objs:
                    return
                i = o["o"] if o["o"] in objs and r.random() < .6 else r.choice(objs)
                c = self.ob[i - 1]
            else:
                c = self.conf(o["c"]["kind"])
            for _ in range(12):
                ins = [r.randint(max(1, len(self.ph) - self.near), len(self.ph)) for _ in range(2 if c["kind"] == "Add" else 1)]
                if c["kind"] == "Add" and r.random() < .6:
                    ins = [ins[0], r.choice([i + 1 for i, s in enumerate(self.ph) if s == self.ph[ins[0] - 1]])]
                out = self.ok(c, self.ph[ins[0] - 1], self.ph[ins[-1] - 1])
                if out is not None:
                    break
            if out is None:
                return
            if k == "apply":
                self.ops.append({"op": "apply", "o": i, "in": ins, "vec": r.randrange(2)})
            else:
                c = dict(c)
                c["drop"] = ""
                if c.get("def"):
                    c["def"] = False
                z = r.random()
                if z < .08 and ATTRS.get(c["kind"]):
                    c["drop"] = r.choice(ATTRS[c["kind"]])
                    out = "refused"
                elif z < .14:
                    c["kind"] = r.choice(["Linearr", "", "relu", "Conv", "Input", "Softmax "])
                    out = "refused"
                self.ops.append({"op": "make", "c": c, "in": ins})
                if out != "refused":
                    self.ob.append(None)
            if out != "refused":
                self.ph.append(out)



def scenario(sid, hist, r):
    b = B(r)
    # the driver cannot apply an object made by make_layer again: objects are created first
    pre = [o for o in hist if o["op"] == "new"]
    for o in pre:
        b.take(o)
    for o in hist:
        if o["op"] != "new":
            b.take(o) if o["op"] != "apply" else b.take(dict(o, o=1 + o["o"] % max(1, len(pre))))
    return {"m": "shape", "id": sid, "ops": b.ops}


def c12(v, work):
    quick = v.tier == "quick"
    r = random.Random(v.seed * 37)
    base = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Dims = {%s}\n Kinds = {%s}\n Win = %d\nCHECK_DEADLOCK FALSE\n"
    ks = ", ".join('"%s"' % k for k in KINDS)
    exe, (s, t), seqs = par(
        lambda: build("m_shape", False),
        lambda: model_check("MC_Shape", base % (2 if quick else 3, "1, 3", ks, 9) + "VIEW View\nINVARIANTS Batch Acyclic AllPos\nPROPERTIES ParamsOnce RefusedFrame\n", work, workers=4),
        lambda: generate("MC_Shape", base % (24, "1, 3", ks, 3) + "INVARIANT Emit\n", work, 130 if quick else 1300, 27, v.seed))
    v.states += s
    v.trans += t
    v.parts.append({"design": "MC_Shape", "states": s})
    scs = [scenario("g%d" % i, h, r) for i, h in enumerate(seqs)]
    for i in range(30 if quick else 300):      # every kind in turn, many applications
        h = [{"op": "new", "c": {"kind": k}} for k in r.sample(KINDS, 7)]
        for _ in range(30):
            h.append(r.choice([{"op": "apply", "o": r.randint(1, 7)}, {"op": "make", "c": {"kind": r.choice(KINDS)}},
                               {"op": "input", "sh": [r.randint(1, 3), r.randint(1, 4), r.randint(3, 9), r.randint(3, 9)]}]))
        scs.append(scenario("k%d" % i, h, r))
    for i in range(2 if quick else 20):        # large dimensions
        for k in KINDS:
            b = B(r)
            h = [{"op": "new", "c": {"kind": k}}] * 2
            for o in h:
                b.take(o)
            for sh in ([3, r.choice([70, 129])], [2, r.choice([70, 100]), r.randint(9, 19), r.randint(9, 30)], [r.choice([64, 257]), 5],
                       [40, r.choice([3, 17, 33]), 11, 6]):
                b.input(sh)
                b.near = 1
                for j in range(3):
                    b.take({"op": "make", "c": {"kind": k}} if j == 2 else {"op": "apply", "o": 1 + j})
                b.near = 6
            scs.append({"m": "shape", "id": "b%d%s" % (i, k), "ops": b.ops})
    log("generated")
    res = run_driver(exe, scs, work)
    validate(v, "shape", "Tr_Shape", exe, scs, res, work)
    v.parts.append({"trace": "Tr_Shape", "histories": len(scs), "applications": sum(1 for s in scs for o in s["ops"] if o["op"] in ("apply", "make"))})
    v.samples.append({"scenario": scs[0]["id"], "calls": scs[0]["ops"][:6]})


RULE = ("histories of creating inputs and layer objects, applying objects (again) and making layers by name, generated by TLC from "
        "ShapeSpec; every inferred shape, recorded argument, attribute, parameter and buffer is matched by the specification")
