"""C30: the sample programs."""
import os, random
from .core import *

KINDS = ["iris", "mnist", "cifar10", "cifar100"]
NAMES = {"mnist": list("0123456789"), "iris": ["setosa", "versicolor", "virginica"],
         "cifar10": ["airplane", "automobile", "bird", "cat", "deer", "dog", "frog", "horse", "ship", "truck"],
         "cifar100": ["apple", "whale", "9", "lamp", "oak_tree", "A b", "zebra"]}
CFG = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n KindSet = {%s}\n MaxItems = %d\n Hows = {%s}\nCHECK_DEADLOCK FALSE\n"
INV = "VIEW View\nINVARIANTS Injective OneItemEach AllSeen\nPROPERTY Sticky\n"


def hows(kind):
    return '"ok", "short", "blank", "cr"' if kind == "iris" else '"ok", "odd"'


def design(work, kind, length, items):
    return model_check("MC_Sample", CFG % (length, '"%s"' % kind, items, hows(kind)) + INV, work, workers=2)


def gen(work, kind, num, length, items, seed):
    return generate("MC_Sample", CFG % (length, '"%s"' % kind, items, hows(kind)) + "INVARIANT Emit\n", work, num, length + 3, seed)


def item(kind, c, how, r):
    if kind == "iris":
        return {"c": c, "how": how, "x": [r.randint(0, 999) for _ in range(4)], "cols": r.choice([1, 2, 3, 4])}
    side, ch = (28, 1) if kind == "mnist" else (32, 3)
    w, h = side, side
    if how == "odd":
        w, h, ch = r.choice([(side, side + 1, ch), (side - 1, side, ch), (1, 1, ch), (side, side, 4 - ch)])
    return {"c": c, "how": how, "a": r.randrange(256), "b": r.choice([1, 3, 7, 11, 77, 129, 255]), "w": w, "h": h, "ch": ch}


def finish_items(items, kind, op, r):
    op["items"] = items
    op["dirs"] = sorted({x["c"] for x in items if x["how"] not in ("blank", "short")} if kind == "iris" else {x["c"] for x in items})
    op["last"] = r.random() < .7
    return op


def scenario(sid, g, r):
    kind, ops, held = g["kind"], [], {}
    for o in g["ops"]:
        if o["op"] == "open":
            held[o["k"]] = o["t"]
        if o["op"] == "write":
            if o["t"] in held.values():     # where opening may be refused or not, the code may hold what the specification didn't
                continue
            o = finish_items([item(kind, x["c"], x["how"], r) for x in o["items"]], kind, dict(o), r)
        ops.append(o)
    return {"m": "samples", "id": sid, "kind": kind, "ops": ops}


def full(sid, kind, sizes, r):
    """all items of several data sets over the same classes, in any order, twice"""
    ops = []
    for k, n in enumerate(sizes, 1):
        cs = r.sample(NAMES[kind], min(len(NAMES[kind]), 2 + k))
        ops.append(finish_items([item(kind, r.choice(cs), "ok", r) for _ in range(n)], kind, {"op": "write", "t": "p%d" % k}, r))
    for k in range(1, len(sizes) + 1):
        ops.append({"op": "open", "k": k, "t": "p%d" % k})
    idx = [(k, i) for k, n in enumerate(sizes, 1) for i in range(n)] * 2
    r.shuffle(idx)
    ops += [{"op": "pull", "k": k, "i": i} for k, i in idx]
    return {"m": "samples", "id": sid, "kind": kind, "ops": ops}


def dataset(kind, n, ncls, t, r):
    """classes that can be told apart"""
    names = NAMES[kind][:ncls]
    items = []
    for i in range(n):
        k = i % ncls
        x = item(kind, names[k], "ok", r)
        if kind == "iris":
            x["x"] = [100 + 300 * (j == k) + r.randint(0, 60) for j in range(3)] + [r.randint(0, 50)]
        else:
            x["a"], x["b"] = 40 * k + r.randint(0, 9), [1, 129, 255][k % 3]
        items.append(x)
    return finish_items(items, kind, {"op": "write", "t": t}, r)


def runs(sid, kind, r, quick):
    big = kind == "cifar100"
    ntr, nte, batch, epochs = r.choice([(12, 8, 4, 3), (13, 7, 3, 2), (10, 5, 5, 2), (9, 4, 2, 1)]) if not big else (5, 5, 2, 1 if quick else 2)
    if kind == "iris":
        ntr, nte, batch, epochs = r.choice([(60, 30, 10, 4), (31, 17, 8, 3), (24, 12, 12, 6), (50, 20, 7, 2)])
    freq = r.choice([1, 2, batch, 2 * batch, 3 * batch, 1000, batch + 1])
    ops = [dataset(kind, ntr, 3, "r1/train", r), dataset(kind, nte, 3, "r1/test", r)]
    if kind == "iris":
        for o in ops:
            r.shuffle(o["items"])
    run = {"root": "r1", "tr": "r1/train", "te": "r1/test", "batch": batch}
    ops += [dict(run, op="train", epochs=epochs, freq=freq, f="m1.bin"), dict(run, op="test", f="m1.bin")]
    if kind == "iris" or not quick:
        ops += [dict(run, op="train", epochs=1, freq=batch, f="m2.bin"), dict(run, op="test", f="m1.bin"), dict(run, op="test", f="m2.bin"),
                dict(run, op="train", epochs=2, freq=5, f="m1.bin"), dict(run, op="test", f="m1.bin")]
    return {"m": "samples", "id": sid, "kind": kind, "ops": ops}


def c30(v, work):
    quick = v.tier == "quick"
    r = random.Random(v.seed * 313 + 5)

    def builds():
        exe = build("m_samples", True)
        ps = [build("sample_" + k, True, sample=k) for k in KINDS]
        os.environ["VERIF_PROGS"] = os.path.dirname(ps[0])
        return exe
    got = par(builds, *([lambda k=k: design(work, k, 5 if quick else 6, 1) for k in KINDS] +
                        [lambda k=k: gen(work, k, 10 if quick else 120, 16, 3, v.seed) for k in KINDS]))
    exe, mcs, gens = got[0], got[1:5], got[5:]
    for k, (s, t) in zip(KINDS, mcs):
        v.states += s
        v.trans += t
        v.parts.append({"design": "MC_Sample/" + k, "states": s})
    scs = []
    for k, gs in zip(KINDS, gens):
        scs += [scenario("g%s%d" % (k, i), g, r) for i, g in enumerate(gs)]
        for i, sizes in enumerate([(3, 2), (4, 3, 2), (9,)] * (1 if quick else 6)):
            scs.append(full("f%s%d" % (k, i), k, sizes, r))
        for i in range({"iris": 8, "mnist": 5, "cifar10": 2, "cifar100": 2}[k] * (1 if quick else 5)):
            scs.append(runs("r%s%d" % (k, i), k, r, quick))
    r.shuffle(scs)
    log("%d scenarios" % len(scs))
    res = run_driver(exe, scs, work, 2)
    log("driven")
    validate(v, "samples", "Tr_Sample", exe, scs, res, work)
    v.parts.append({"trace": "Tr_Sample", "histories": len(scs), "program runs": sum(o["op"] in ("train", "test") for s in scs for o in s["ops"])})
    v.samples.append({"scenario": scs[0]["id"], "kind": scs[0]["kind"], "calls": [o["op"] for o in scs[0]["ops"]]})
    v.assumptions.append("the sample programs are linked with the ade stand-in; picture files are PNG")


RULE = ("trees of image folders and CSV tables with known, unknown and missing classes, odd pictures, short and blank rows, opened and pulled "
        "in histories generated by TLC from SampleSpec; train and test runs of the real programs on small data, whose output lines are matched")
