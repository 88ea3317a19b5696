"""C02 initializers, C24 cross entropy, C25 accuracy, C27 layout conversion."""
import random
from .core import *


def prod(s):
    n = 1
    for d in s:
        n *= d
    return n


# ------------------------------------------------------------------ evaluation
def mc_eval(work, quick):
    cfg = ("SPECIFICATION Spec\nVIEW View\nCONSTANTS MaxLen = %d\n NSet = {1, 2}\n CSet = {%s}\n KSet = {0, 1, 3, 200}\n Full = TRUE\n"
           "INVARIANTS LossNonNeg GradIsDerivative AccRange AccAgrees\nPROPERTY Frame\nCHECK_DEADLOCK FALSE\n"
           "CONSTRAINT InRange\n" % (2 if quick else 3, "1, 2" if quick else "1, 2, 3"))
    return "MC_Eval", model_check("MC_Eval", cfg, work, workers=4)


def gen_eval(work, num, length, seed):
    cfg = ("SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n NSet = {1, 2, 3, 4, 5}\n CSet = {1, 2, 3, 4, 7}\n KSet = {0}\n Full = FALSE\n"
           "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % length)
    return generate("MC_Eval", cfg, work, num, length + 3, seed)


class Eval:
    def __init__(self, r, what):
        self.r, self.what = r, what
        self.ops = []
        self.P = ([1, 1], "prob", [0])
        self.Y = ([1, 1], [0])
        self.gs = r.choice([12, 12, 0])
        self.kmax = 10 if self.gs == 12 else 24
        self.setp([1, 1]), self.sety([1, 1]), self.setg([1, 1])

    def setp(self, sh, dom=None):
        r, n = self.r, prod(sh)
        dom = dom or ("prob" if self.what == "loss" or r.random() < .3 else "int")
        if dom == "int":
            m = r.choice([1, 2, 50, 1000])
            v = [r.randint(-m, r.choice([0, m])) for _ in range(n)]
        else:
            v = [r.choice([0, 1, 2, r.randint(0, self.kmax)]) for _ in range(n)]
        self.P = (sh, dom, v)
        self.ops.append({"op": "setp", "sh": sh, "dom": dom, "v": v})

    def zero_some(self):
        """give entries that are not targets probability 0 (never the targets: log 0)"""
        sh, dom, v = self.P
        if dom == "prob" and len(sh) == 2 and self.Y[0] == [sh[0], 1] and self.r.random() < .5:
            v = list(v)
            for i in range(len(v)):
                if self.Y[1][i // sh[1]] != i % sh[1] and self.r.random() < .4:
                    v[i] = 200
            self.P = (sh, dom, v)
            self.ops.append({"op": "setp", "sh": sh, "dom": dom, "v": v})

    def cols(self):
        return self.P[0][-1]

    def sety(self, sh, hot=False):
        r, n = self.r, prod(sh)
        if hot:
            k = r.random()
            v = [r.choice([0, 0, 1, 5, -2]) if k < .5 else 0 for _ in range(n)]
            if k >= .5:
                for a in range(0, n, sh[-1]):
                    v[a + r.randrange(sh[-1])] = 1
        else:
            v = [r.randrange(self.cols()) for _ in range(n)]
            if self.what == "acc" and r.random() < .3:
                v = [r.choice([x, x, x, -1, self.cols()]) for x in v]
        self.Y = (sh, v)
        self.ops.append({"op": "sety", "sh": sh, "v": v})

    def setg(self, sh):
        self.ops.append({"op": "setg", "sh": sh, "v": [self.r.randint(-9, 9) for _ in range(prod(sh))]})

    def loss_ok(self):
        """a loss call is only made on what it is defined for (labels in range), or on shapes it must refuse"""
        (psh, dom, v), (ysh, y) = self.P, self.Y
        if not (len(psh) == 2 and ysh == [psh[0], 1]):
            return True
        if dom != "prob" or any(not 0 <= t < psh[1] for t in y):
            return False
        return all(v[a * psh[1] + t] < 200 for a, t in enumerate(y))

    def take(self, o):
        k = o["op"]
        if k == "setall":
            self.setp(o["sh"])
            self.sety([o["sh"][0], 1])
            self.zero_some()
            self.setg(o["sh"])
        elif k == "setp":
            sh = o["sh"]
            if self.r.random() < .15:
                sh = self.r.choice([[sh[0]], sh + [1], [1] + sh])
            self.setp(sh)
        elif k == "sety":
            self.sety(o["sh"], hot=len(o["sh"]) == 2 and o["sh"] == self.P[0])
        elif k == "setg":
            self.setg(o["sh"])
        elif k in ("fwd", "bwd"):
            if self.what == "loss" and self.loss_ok():
                self.ops.append({"op": k, "i": o["i"], "gs": self.gs})
        elif k in ("acc", "oneh"):
            if self.what == "acc":
                if self.r.random() < .5:
                    sh = self.P[0]
                    if k == "oneh":
                        self.sety(sh, hot=True)
                    elif len(sh) == 2:
                        self.sety(self.r.choice([[sh[0]], [sh[0], 1], [1, sh[0]]]))
                self.ops.append({"op": k})


def eval_scenario(sid, hist, r, what):
    e = Eval(r, what)
    for o in hist:
        e.take(o)
    return {"m": "eval", "id": sid, "nl": 2, "ops": e.ops}


def go_eval(what):
    calls = {"loss": ["fwd", "bwd"], "acc": ["acc", "oneh"]}[what]

    def run(v, work):
        quick = v.tier == "quick"
        r = random.Random(v.seed * 13 + len(what))
        exe, (name, (s, t)), seqs = par(lambda: build("m_misc", False), lambda: mc_eval(work, quick),
                                        lambda: gen_eval(work, 150 if quick else 2000, 28, v.seed))
        v.states += s
        v.trans += t
        v.parts.append({"design": name, "states": s})
        scs = [eval_scenario("g%d" % i, h, r, what) for i, h in enumerate(seqs)]
        # the usual loop: shapes change between batches, every call of the kind after each
        for i in range(40 if quick else 300):
            h = []
            for _ in range(r.randint(3, 8)):
                sh = [r.randint(1, 9), r.randint(1, 12)]
                h.append({"op": "setall", "sh": sh})
                for _ in range(r.randint(1, 4)):
                    h.append({"op": r.choice(calls), "i": r.randint(1, 2)})
            scs.append(eval_scenario("l%d" % i, h, r, what))
        big = [[64, 10], [1, 300], [300, 1], [257, 3], [128, 17], [33, 33], [1000, 4]]
        for i, sh in enumerate(big if quick else big * 6):
            h = [{"op": "setall", "sh": sh}] + [{"op": c, "i": 1} for c in calls] + \
                [{"op": "setall", "sh": [sh[0] // 2 + 1, sh[1]]}] + [{"op": c, "i": 1} for c in calls]
            scs.append(eval_scenario("L%d" % i, h, r, what))
        res = run_driver(exe, scs, work)
        validate(v, what, "Tr_Eval", exe, scs, res, work)
        v.parts.append({"trace": "Tr_Eval", "histories": len(scs),
                        "calls": sum(1 for s in scs for o in s["ops"] if o["op"] in calls)})
        v.samples.append({"scenario": scs[0]["id"], "calls": scs[0]["ops"][:8]})
    return run


c24, c25 = go_eval("loss"), go_eval("acc")


# ------------------------------------------------------------------ layout
def c27(v, work):
    quick = v.tier == "quick"
    r = random.Random(v.seed * 19)
    base = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n DSet = {%s}\nCHECK_DEADLOCK FALSE\n"
    exe, (s, t), seqs = par(
        lambda: build("m_misc", False),
        lambda: model_check("MC_Layout", base % (3, "1, 2, 3" if quick else "1, 2, 3, 4") + "VIEW View\nINVARIANTS RoundTrip Perm\n", work, workers=4),
        lambda: generate("MC_Layout", base % (12, "1, 2, 3, 4, 5") + "INVARIANT Emit\n", work, 60 if quick else 600, 15, v.seed))
    v.states += s
    v.trans += t
    v.parts.append({"design": "MC_Layout", "states": s})

    def conc(h):
        return [dict(o, v=[r.randint(-1000, 1000) for _ in range(prod(o["sh"]))]) if o["op"] == "set" else o for o in h]
    scs = [{"m": "layout", "id": "g%d" % i, "ops": conc(h)} for i, h in enumerate(seqs)]
    for i, sh in enumerate([[2, 16, 9, 11], [1, 64, 5, 5], [17, 3, 8, 8], [5, 1, 31, 7], [3, 33, 1, 19], [1, 7, 40, 1]]):
        scs.append({"m": "layout", "id": "L%d" % i, "ops": conc([{"op": "set", "sh": sh}, {"op": "nhwc"}, {"op": "nchw"}, {"op": "nchw"}, {"op": "nhwc"}])})
    res = run_driver(exe, scs, work)
    validate(v, "layout", "Tr_Layout", exe, scs, res, work)
    v.parts.append({"trace": "Tr_Layout", "histories": len(scs)})
    v.samples.append({"scenario": scs[0]["id"], "calls": [o["op"] for o in scs[0]["ops"]]})


# ------------------------------------------------------------------ initializers
def c02(v, work):
    quick = v.tier == "quick"
    r = random.Random(v.seed * 23)
    base = ("SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Hows = {\"zeros\", \"constant\", \"uniform\", \"xavier\"}\n"
            " Limits = {\"glorot\"}\n Which = \"%s\"\nCHECK_DEADLOCK FALSE\n")
    exe, (s, t), seqs = par(
        lambda: build("m_misc", False),
        lambda: model_check("MC_Init", base % (1 if quick else 2, "mc") +
                            "VIEW View\nINVARIANTS IdealAllowed FakesRefused\n", work, workers=4),
        lambda: generate("MC_Init", base % (8, "gen") +
                         "INVARIANT Emit\n", work, 40 if quick else 400, 11, v.seed))
    v.states += s
    v.trans += t
    v.parts.append({"design": "MC_Init", "states": s})

    def conc(o):
        o = dict(o)
        o["api"] = r.choice(["factory", "free", "view"])
        if o["how"] == "uniform":
            o["a"] = r.choice([-32, -16, -3, 0, 5])
            o["b"] = o["a"] + r.choice([0, 1, 16, 32, 40])
            o["def"] = r.random() < .3
        else:
            o["a"], o["b"] = r.randint(-40, 40), 0
        return o
    scs = [{"m": "init", "id": "g%d" % i, "ops": [conc(o) for o in h]} for i, h in enumerate(seqs)]
    for i in range(12 if quick else 80):
        ops = []
        for _ in range(6):
            sh = r.choice([[50, 40], [5, 400], [400, 5], [1, 2000], [2000], [8, 10, 5, 5], [100, 4, 3, 1], [3, 20, 6, 6], [10, 10, 20], [6, 5, 4, 3, 4]])
            ops.append(conc({"op": "init", "how": r.choice(["uniform", "xavier", "xavier"]), "sh": sh, "a": 0, "b": 0, "def": False}))
        ops.append(dict(ops[-1]))
        scs.append({"m": "init", "id": "L%d" % i, "ops": ops})
    res = run_driver(exe, scs, work)
    listed = known_findings("C02")
    lims = '"glorot"' + (', "flat"' if "xavier-limit" in listed else "")
    tcfg = TRACE_CFG + "CONSTANT Limits = {%s}\n"
    validate(v, "init", "Tr_Init", exe, scs, res, work, cfg=tcfg % lims)
    if "xavier-limit" in listed and not v.violations:
        # the recorded deviation, shown on one fixed call
        one = [{"m": "init", "id": "kf", "ops": [{"op": "init", "how": "xavier", "sh": [50, 40], "a": 0, "b": 0, "def": False, "api": "factory"}]}]
        if validate_chunk("Tr_Init", tcfg % '"glorot"', [(one[0], run_driver(exe, one, work)["kf"])], work)[2] is not None:
            v.known.append(listed["xavier-limit"])
    v.parts.append({"trace": "Tr_Init", "histories": len(scs)})
    v.samples.append({"scenario": scs[0]["id"], "calls": scs[0]["ops"][:4]})
    v.assumptions.append("random initializers are judged by range and by statistics at least 8 standard deviations wide, on samples of at least 1000 elements")


RULE = ("histories of calls with shapes, instances and refused variants chosen by TLC from the specification and concrete "
        "data drawn per scenario; every returned value and every tensor the caller owns is matched by the specification")
