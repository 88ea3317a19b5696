"""C17 SGD and momentum, C18 Adam."""
import random
from .core import *

PROPS = {
    "sgd": "PROPERTIES FrozenStays OnlySteps Descent\n",
    "mom": "PROPERTIES FrozenStays OnlySteps Descent\n",
    "adam": "PROPERTIES FrozenStays OnlySteps Descent AdamFirst\n",
}


def mc(conf, work, maxlen):
    cfg = ("SPECIFICATION Spec\nVIEW View\nCONSTANTS MaxLen = %d\n Conf = \"%s\"\n PNames = {\"a\", \"b\"}\n GradPats = {1, 2}\n"
           " LrSet = {0, 8}\nCHECK_DEADLOCK FALSE\n" % (maxlen, conf)) + PROPS[conf]
    return "MC_Opt/" + conf, model_check("MC_Opt", cfg, work, workers=3)


def gen(conf, work, num, length, seed):
    cfg = ("SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Conf = \"%s\"\n PNames = {\"a\", \"b\", \"c\"}\n GradPats = {1, 2, 3, 4, 5, 6}\n"
           " LrSet = {0, 1, 4, 8, 16}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (length, conf))
    return generate("MC_Opt", cfg, work, num, length + 3, seed)


def shape(r):
    while True:
        s = [r.choice([1, 2, 3, 4, 5, 7]) for _ in range(r.choice([1, 1, 2, 2, 4]))]
        n = 1
        for d in s:
            n *= d
        if n <= 60:
            return s, n


def conf(kind, ps, r, plain=False, default=False):
    c = {"kind": kind, "ps": ps, "lr": r.choice([1, 2, 4, 8, 16])}
    if kind == "mom":
        d = r.random() < .3
        gn, gd = (9, 10) if d else r.choice([(1, 2), (3, 4), (0, 1), (9, 10), (1, 1), (1, 4)])
        c.update(gn=gn, gd=gd)
        c["def"] = d
    if kind == "adam":
        d = default or r.random() < .25 and not plain
        if d:
            c.update(b1n=9, b1d=10, b2n=999, b2d=1000, eps12=4, t0=0)
        else:
            b1 = r.choice([(1, 2), (3, 4), (9, 10), (0, 1)])
            b2 = r.choice([(3, 4), (7, 8), (9, 10), (1, 2)])
            c.update(b1n=b1[0], b1d=b1[1], b2n=b2[0], b2d=b2[1], eps12=r.choice([256, 1024, 2048, 4096, 8192]),
                     t0=r.choice([0, 0, 1, 2, 5]))
        c["def"] = d
    return c


def scenario(sid, hist, kind, r, big=None, plain=False, tiny=False, default=False):
    names = ["a", "b", "c"]
    P, N = [], {}
    for n in names:
        s, tot = (big, big[0] * big[1]) if big else ([2, 2], 4) if tiny else shape(r)
        P.append({"p": n, "sh": s, "w": [r.randint(-20, 20) for _ in range(tot)], "t": r.random() < .85})
        N[n] = tot
    if tiny:
        for p in P:
            p["t"] = True
    kinds = {"sgd": ["sgd", "sgd"], "mom": ["mom", "mom"], "adam": ["adam", "adam"], "mix": ["sgd", "mom"]}[kind]
    cs = [conf(kinds[0], names, r, plain, default)]
    if not default and r.random() < .6:
        cs.append(conf(kinds[1], r.choice([names, ["a"], ["b", "c"]]), r, plain))
    if tiny:
        for c in cs:
            if c.get("gn") == c.get("gd"):      # a velocity that never decays leaves the range of the specification's numbers
                c.update(gn=9, gd=10)
    const = kind == "adam" and any(c.get("def") for c in cs)
    ops = [{"op": "make", "c": cs[0]}]
    sign = {n: [r.choice([-1, 1]) for _ in range(N[n])] for n in names}
    if const:      # default betas: gradients of constant magnitude per element, so that v-hat is exact
        mag = {n: [1] * N[n] for n in names}
        for n in names:
            ops.append({"op": "grad", "p": n, "g": [s * m for s, m in zip(sign[n], mag[n])]})
        for p in P:
            p["t"] = True
    at = r.randrange(1, 5)
    mode = {p["p"]: p["t"] for p in P}
    for k, h in enumerate(hist):
        if k == at and len(cs) > 1:
            ops.append({"op": "make", "c": cs[1]})
        h = dict(h)
        if h["op"] in ("step", "lr"):
            h["k"] = 1 if len([o for o in ops if o["op"] == "make"]) < 2 else 1 + (h["k"] + r.randrange(2)) % 2
        if h["op"] == "freeze":
            if const:
                continue
            mode[h["p"]] = not mode[h["p"]]
            h["t"] = mode[h["p"]]
        if h["op"] == "grad":
            m = 3 if kind == "adam" else 6
            h["g"] = [r.randint(-m, m) for _ in range(N[h["p"]])]
            if h.pop("zero", False) or r.random() < .3:
                h["g"] = [0] * N[h["p"]]
            if const:
                h["g"] = [r.choice([-1, 1]) for _ in range(N[h["p"]])]
        if h["op"] == "set":
            h["w"] = {n: [r.randint(-20, 20) for _ in range(N[n])] for n in names}
        if h["op"] == "lr":
            h["lr"] = r.choice([0, 1, 2, 4, 8, 16])
        ops.append(h)
    return {"m": "opt", "id": sid, "P": P, "ops": ops}


def very_long(r, n):
    """hundreds of iterations, weights set back now and then"""
    ops = [{"op": "grad", "p": p} for p in "abc"]
    for k in range(n):
        ops.append({"op": "step", "k": 1})
        x = r.random()
        if k % 6 == 5:
            ops.append({"op": "set"})
        elif x < .15:
            ops.append({"op": "grad", "p": r.choice("abc")})
        elif x < .18:
            ops.append({"op": "lr", "k": 1})
        elif x < .21:
            ops.append({"op": "freeze", "p": r.choice("abc")})
    return ops


def run_conf(kinds, mcs):
    def run(v, work):
        quick = v.tier == "quick"
        r = random.Random(v.seed * 31 + len(kinds))
        n = 60 if quick else 700
        L = 22
        out = par(lambda: build("m_opt", False), lambda: gen(kinds[0], work, n, L, v.seed),
                  *[lambda c=c: mc(c, work, 5 if quick else 7) for c in mcs])
        exe, seqs = out[0], out[1]
        for name, (s, t) in out[2:]:
            v.states += s
            v.trans += t
            v.parts.append({"design": name, "states": s})
        scs = [scenario("g%d" % i, h, kinds[i % len(kinds)], r) for i, h in enumerate(seqs)]
        scs += [scenario("L%d" % i, [{"op": "grad", "p": "a"}, {"op": "grad", "p": "b"}, {"op": "step", "k": 1}, {"op": "step", "k": 1},
                                     {"op": "lr", "k": 1}, {"op": "grad", "p": "c"}, {"op": "step", "k": 1}] * 2,
                         kinds[i % len(kinds)], r, big=[37, 11]) for i in range(3 if quick else 20)]
        # gradients that turn zero: velocity and moments go on decaying
        z = lambda p: {"op": "grad", "p": p, "zero": True}
        for i in range(6 if quick else 40):
            scs.append(scenario("Z%d" % i, [{"op": "grad", "p": "a"}, {"op": "grad", "p": "b"}, {"op": "step", "k": 1}, z("a"), {"op": "step", "k": 1},
                                            {"op": "step", "k": 1}, {"op": "grad", "p": "a"}, z("b"), {"op": "step", "k": 1}, z("a"), z("c"),
                                            {"op": "step", "k": 1}, {"op": "step", "k": 1}], kinds[i % len(kinds)], r, plain=True))
        # long runs: bias correction and momentum over many iterations
        for i in range(3 if quick else 20):
            scs.append(scenario("long%d" % i, [{"op": "grad", "p": "a"}, {"op": "grad", "p": "b"}] + [{"op": "step", "k": 1}] * 40,
                                kinds[i % len(kinds)], r))
        for i in range(4 if quick else 16):
            scs.append(scenario("very%d" % i, very_long(r, (160, 320, 270, 540)[i % 4] * (1 if quick else 4)), kinds[i % len(kinds)], r, tiny=True, default=i % 2 == 1))
        for i in range(1 if quick else 6):      # many elements
            scs.append(scenario("E%d" % i, [{"op": "grad", "p": "a"}, {"op": "step", "k": 1}, {"op": "grad", "p": "a"}, {"op": "step", "k": 1}],
                                kinds[i % len(kinds)], r, big=[5, 1031]))
        res = run_driver(exe, scs, work)
        validate(v, "opt", "Tr_Opt", exe, scs, res, work)
        v.parts.append({"trace": "Tr_Opt", "histories": len(scs)})
        v.samples.append({"scenario": scs[0]["id"], "calls": scs[0]["ops"][:4]})
    return run


c17 = run_conf(["sgd", "mom", "mix"], ["sgd", "mom"])
c18 = run_conf(["adam"], ["adam"])
RULE = ("histories of steps, learning-rate changes, new gradients, freezing and late construction of a second optimizer on "
        "shared parameters, generated by TLC from OptSpec; after every call all weights, modes and learning rates of the real "
        "optimizers are matched by the specification")
