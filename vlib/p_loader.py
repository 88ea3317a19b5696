"""C19 sequential loading, C20 shuffled loading."""
import random
from .core import *


def mc(work, shuf, maxlen):
    cfg = ("SPECIFICATION Spec\nVIEW View\nCONSTANTS MaxLen = %d\n NSet = {%s}\n BSet = {1, 2, 3}\n Shuf = {%s}\n"
           "INVARIANTS SeqEpoch PosInRange\nPROPERTY FullEpoch\nCHECK_DEADLOCK FALSE\n"
           % (maxlen, "0, 3, 4, 5" if not shuf else "2, 3", "TRUE" if shuf else "FALSE"))
    return "MC_Loader", model_check("MC_Loader", cfg, work, workers=4)


def gen(work, shuf, num, length, seed):
    cfg = ("SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n NSet = {0, 1, 2, 3, 4, 5, 6, 7}\n BSet = {1, 2, 3, 4}\n Shuf = {%s}\n"
           "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (length, "TRUE" if shuf else "FALSE"))
    return generate("MC_Loader", cfg, work, num, length + 3, seed)


XS = [[1], [2], [3, 2], [2, 2, 2], [1, 4, 3], [5]]
YS = [[1], [2], [1, 1], [3]]


def scenario(sid, g, r):
    ld = []
    for h in g["hdr"]:
        c = dict(h)
        c["xs"], c["ys"] = r.choice(XS), r.choice(YS)
        c["def"] = r.random() < .3
        ld.append(c)
    ops = [dict(o, w=r.randrange(6), e=r.random() < .4) for o in g["ops"]]
    return {"m": "loader", "id": sid, "ld": ld, "ops": ops}


def go(shuf):
    def run(v, work):
        quick = v.tier == "quick"
        r = random.Random(v.seed * 77 + shuf)
        exe, (name, (s, t)), seqs = par(lambda: build("m_loader", False),
                                        lambda: mc(work, shuf, (4 if shuf else 5) if quick else (5 if shuf else 7)),
                                        lambda: gen(work, shuf, 120 if quick else 1500, 24, v.seed))
        v.states += s
        v.trans += t
        v.parts.append({"design": name, "states": s})
        scs = [scenario("g%d" % i, g, r) for i, g in enumerate(seqs)]
        P = lambda n, t="ok": [{"op": "pull", "k": 1, "t": t, "f": 0} for _ in range(n)]
        if shuf:     # long runs for the statistics
            for i, (n, b) in enumerate([(5, 2), (7, 3), (4, 4), (8, 1), (3, 2), (9, 5)] * (1 if quick else 6)):
                scs.append(scenario("u%d" % i, {"hdr": [dict(n=n, b=b, sh=True)], "ops": P(200 * (n // b + 1), "keep")}, r))
            for i, (n, b) in enumerate([(300, 130), (64, 64), (129, 16), (260, 1), (257, 256), (1000, 3)]):
                scs.append(scenario("B%d" % i, {"hdr": [dict(n=n, b=b, sh=True)], "ops": P(2 * (n // b + 1) + 3 if n < 500 else 12, r.choice(["keep", "ok", "empty"]))}, r))
        else:        # larger data sets, several epochs
            for i, (n, b) in enumerate([(64, 8), (65, 8), (63, 8), (100, 33), (7, 7), (6, 7), (130, 1), (257, 64), (128, 128)]):
                scs.append(scenario("L%d" % i, {"hdr": [dict(n=n, b=b, sh=False)], "ops": P(3 * (n // b + 1) + 2, r.choice(["keep", "ok", "empty"]))}, r))
            scs.append(scenario("E0", {"hdr": [dict(n=r.choice([2, 3, 5]), b=2, sh=False)], "ops": P(700, "keep")}, r))     # hundreds of epochs
        # large items
        for i, (xs, ys, n, b) in enumerate([([3, 32, 32], [1], 5, 2), ([28 * 28], [10], 7, 3), ([1, 1, 1000], [300], 3, 3)]):
            sc = scenario("X%d" % i, {"hdr": [dict(n=n, b=b, sh=bool(shuf))], "ops": P(6, r.choice(["keep", "ok", "empty"]))}, r)
            sc["ld"][0].update(xs=xs, ys=ys)
            scs.append(sc)
        res = run_driver(exe, scs, work)
        validate(v, "loader", "Tr_Loader", exe, scs, res, work)
        v.parts.append({"trace": "Tr_Loader", "histories": len(scs)})
        v.samples.append({"scenario": scs[0]["id"], "ld": scs[0]["ld"], "calls": scs[0]["ops"][:6]})
    return run


c19, c20 = go(False), go(True)
RULE = ("histories of pulls (fresh, preallocated, kept and wrongly shaped tensors; the data set failing on a chosen item) on two "
        "loaders, generated by TLC from LoaderSpec; every pull's outcome, the items read, the delivered batch and the following "
        "position are matched by the specification")
