"""C29: separate objects used by separate threads behave as if alone."""
import itertools, random
from .core import *
from . import p_image, p_layer, p_loader, p_misc, p_model, p_opt, p_shape, p_tensor

TR = {"tensor": "Tr_Tensor", "layer": "Tr_Layer", "opt": "Tr_Opt", "loader": "Tr_Loader", "eval": "Tr_Eval", "layout": "Tr_Layout", "init": "Tr_Init",
      "shape": "Tr_Shape", "image": "Tr_Image", "model": "Tr_Model"}
CFG = {"tensor": TRACE_CFG + "CONSTANT Handle = {1, 2, 3, 4}\n", "init": TRACE_CFG + "CONSTANT Limits = {\"glorot\", \"flat\"}\n"}


def source(v, work, quick):
    """pools of histories, by the part of the library they use"""
    r = random.Random(v.seed * 101 + 3)
    k = 1 if quick else 5
    kinds = p_layer.PLAIN + list(p_layer.MODAL)
    lay, opt, adam, ldr, ldr2, ev, ten, shp, img, mod = par(
        lambda: p_layer.lives(work, 40 * k, 2, 8, v.seed),
        lambda: p_opt.gen("sgd", work, 12 * k, 12, v.seed),
        lambda: p_opt.gen("adam", work, 8 * k, 10, v.seed),
        lambda: p_loader.gen(work, True, 14 * k, 16, v.seed),
        lambda: p_loader.gen(work, False, 8 * k, 16, v.seed),
        lambda: p_misc.gen_eval(work, 14 * k, 10, v.seed),
        lambda: generate("MC_Tensor", p_tensor.SPECCFG.replace("Printing = FALSE", "Printing = TRUE") % ("1, 2, 3, 4", 12, "ShapesGen", "1, 2, 3, 50") + "INVARIANT Emit\n", work, 10 * k, 15, v.seed),
        lambda: generate("MC_Shape", "SPECIFICATION Spec\nCONSTANTS MaxLen = 14\n Dims = {1, 3}\n Kinds = {%s}\n Win = 3\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n"
                         % ", ".join('"%s"' % x for x in p_shape.KINDS), work, 12 * k, 17, v.seed),
        lambda: generate("MC_Image", "SPECIFICATION Spec\nCONSTANTS MaxLen = 12\n Names = {%s}\n Sizes = {1, 2, 3}\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n"
                         % ", ".join('"%s"' % x for x in p_image.NAMES), work, 12 * k, 15, v.seed),
        lambda: p_model.prog(work, 16 * k, 18, v.seed, p_model.RUNK, ["v", "i"]))
    pool = {}
    pool["layer"] = []
    for i, life in enumerate(lay):
        ks = [r.choice([x for x in kinds if (x in p_layer.MODAL) == m]) for m in p_layer.life_modal(life)]
        pool["layer"].append(p_layer.concretise("l%d" % i, life, ks, r, threads=1))
    # the same kind of layer, with the same configuration, in several threads
    pool["twin"] = []
    for i, kind in enumerate(kinds * (1 if quick else 4)):
        ops = [dict(op="setp", i=1, d=1)] + [dict(op=o, i=1, d=d) for d in (1, 2, 1) for o in ("fwd", "bwd")]
        pool["twin"].append(p_layer.concretise("t%d" % i, {"ops": ops}, [kind], r, threads=1))
    pool["opt"] = [p_opt.scenario("o%d" % i, h, ["sgd", "mom", "mix"][i % 3], r) for i, h in enumerate(opt)] + \
                  [p_opt.scenario("a%d" % i, h, "adam", r) for i, h in enumerate(adam)]
    pool["loader"] = [p_loader.scenario("d%d" % i, g, r) for i, g in enumerate(ldr + ldr2)]
    pool["eval"] = [p_misc.eval_scenario("e%d" % i, h, r, "loss") for i, h in enumerate(ev)]
    pool["tensor"] = [p_tensor.scenario("s%d" % i, h) for i, h in enumerate(ten)]
    pool["shape"] = [p_shape.scenario("h%d" % i, h, r) for i, h in enumerate(shp)]
    pool["image"] = [p_image.scenario("i%d" % i, h, r) for i, h in enumerate(img)]
    pool["model"] = p_model.concretise(mod, r, [0, 2])
    pool["init"] = [{"m": "init", "id": "n%d" % i, "ops": [{"op": "init", "how": r.choice(["uniform", "xavier", "zeros", "constant"]), "sh": r.choice([[50, 40], [7], [3, 20, 6, 6]]),
                     "a": -16, "b": 16, "def": False, "api": r.choice(["factory", "free", "view"])} for _ in range(4)]} for i in range(8)]
    pool["layout"] = [{"m": "layout", "id": "y%d" % i, "ops": [{"op": "set", "sh": sh, "v": [r.randint(-99, 99) for _ in range(p_misc.prod(sh))]}, {"op": "nhwc"}, {"op": "nchw"}]}
                      for i, sh in enumerate([[2, 3, 4, 5], [1, 16, 7, 3], [4, 1, 6, 6], [3, 2, 1, 9]])]
    return r, pool


def copies(sc, tag):
    return dict(sc, id=sc["id"] + tag)


def c29(v, work):
    quick = v.tier == "quick"
    cfg = "SPECIFICATION Spec\nCONSTANTS Thread = {1, 2%s}\n Obj = {0, 1, 2%s}\n Source = \"%s\"\n MaxCalls = %d\nINVARIANTS NoRace AsIfAlone DrawsDiffer\nCHECK_DEADLOCK FALSE\n"
    mc = lambda how, third, calls: model_check("MC_Threads", cfg % (", 3" if third else "", ", 3, 4" if third else "", how, calls), work, workers=2)
    exe, (r, pool), a, b = par(lambda: build("m_threads", True, TSAN), lambda: source(v, work, quick),
                               lambda: mc("own", not quick, 3), lambda: mc("locked", not quick, 3))
    # the specification tells the bad design from the good ones
    rc, out = tlc("MC_Threads", cfg % ("", "", "shared", 2), work)
    if "Invariant NoRace is violated" not in out:
        raise MachineryError("MC_Threads accepts a shared, unprotected source")
    for s, t in (a, b):
        v.states += s
        v.trans += t
    v.parts.append({"design": "MC_Threads", "states": a[0] + b[0]})
    groups = []
    for kind in pool:                              # one part of the library in several threads
        for i in range(3 if quick else 12):
            groups.append([r.choice(pool[kind]) for _ in range(3)])
    for sc in pool["twin"]:                        # the very same history four times
        groups.append([sc] * 4)
    names = sorted(pool)
    for i in range(110 if quick else 900):          # everything with everything
        groups.append([r.choice(pool[k]) for k in r.sample(names, 4)])
    scs, subs = [], {}
    for i, g in enumerate(groups):
        g = [dict(sc, id="g%d.%d" % (i, k)) for k, sc in enumerate(g)]
        scs.append({"m": "threads", "id": "g%d" % i, "subs": g, "ops": [{"op": "join", "t": k, "calls": len(s["ops"])} for k, s in enumerate(g)]})
    # the instrumented program works at all
    one = dict(scs[0], id="alone", subs=scs[0]["subs"][:1], ops=scs[0]["ops"][:1])
    if run_driver(exe, [one], work, 1)["alone"]["crash"]:
        raise MachineryError("the program doesn't run under ThreadSanitizer here")
    log("%d groups of threads" % len(scs))
    res = run_driver(exe, scs, work, 1)
    log("driven")
    for sc in scs:
        x = res[sc["id"]]
        for k, q in enumerate(x["res"]):
            subs.setdefault(sc["subs"][k]["m"], []).append((sc["subs"][k], {"id": sc["subs"][k]["id"], "crash": "", "res": q.pop("res")}))
    validate(v, "threads", "Tr_Threads", exe, scs, res, work, threads=1)
    if not v.violations:
        par(*[lambda m=m, ps=ps: validate(v, "threads/" + m, TR[m], exe, [p[0] for p in ps], {p[0]["id"]: p[1] for p in ps}, work, cfg=CFG.get(m, TRACE_CFG),
                                          nchunks=3 if m in ("layer", "model") else 1, threads=1) for m, ps in sorted(subs.items())])
    v.parts.append({"trace": "Tr_Threads", "groups": len(scs), "histories": {m: len(p) for m, p in subs.items()}})
    v.samples.append({"scenario": scs[-1]["id"], "threads": [[s["m"], len(s["ops"])] for s in scs[-1]["subs"]]})
    v.assumptions.append("data races are those ThreadSanitizer sees in the executed calls; OpenMP teams are made of std::threads there (harness/drv/teams.hpp), as libgomp is not instrumented")


RULE = ("histories of all parts of the library, generated by TLC from their specifications, run in 3-4 threads at once on objects of their own under "
        "ThreadSanitizer; a race is no behaviour, and every thread's trace is matched by its own specification as if it had been alone")
