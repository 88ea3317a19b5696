"""C13-C16 models as graphs, C21-C23 files.  Histories come from MC_Prog; here they get their numbers."""
import random
from .core import *

LIM = 1 << 23
RUNK = ["Linear", "ReLU", "LeakyReLU", "Add", "Convolution", "MaxPooling", "GlobalAvgPooling", "BatchNorm1D", "BatchNorm2D", "Dropout"]
ALLK = RUNK + ["ELU", "Sigmoid", "Softmax"]
NORM = ("BatchNorm1D", "BatchNorm2D")


class Inexact(Exception):
    """these numbers would round in float arithmetic: the operation is not tried with them"""


def lim(v):
    if v >= LIM:
        raise Inexact()


def div(a, b):
    if a % b:
        raise Inexact()
    return a // b


def prod(s):
    n = 1
    for d in s:
        n *= d
    return n


def odim(n, k, p, s):
    return (n + 2 * p - k) // s + 1


def out_shape(c, sh):
    k = c["kind"]
    if k == "Linear":
        return [sh[0], c["units"]]
    if k in ("Convolution", "MaxPooling"):
        return [sh[0], c["co"] if k == "Convolution" else sh[1]] + [odim(sh[2 + i], c["k"][i], c["p"][i], c["s"][i]) for i in (0, 1)]
    if k == "GlobalAvgPooling":
        return [sh[0], sh[1], 1, 1]
    return sh


def tensors_of(c, sh):
    k = c["kind"]
    if k == "Linear":
        return {"weight": [c["units"], prod(sh[1:])], "bias": [c["units"]]}, {}
    if k == "Convolution":
        return {"weight": [c["co"], sh[1]] + c["k"], "bias": [c["co"]]}, {}
    if k in NORM:
        return {"gamma": [sh[1]], "beta": [sh[1]]}, {"running_mean": [sh[1]], "running_var": [sh[1]]}
    if k == "Dropout":
        return {"mask": sh}, {}
    return {}, {}


class Obj:
    def __init__(self, c, name):
        self.c, self.name, self.auto = c, name, False
        self.P, self.B, self.G, self.t = None, {}, {}, True

    def fresh(self, sh):
        p, b = tensors_of(self.c, sh)
        self.P = {n: [s, None] for n, s in p.items()}
        self.B = {n: [s, None] for n, s in b.items()}
        self.G = {n: [0] * prod(s) for n, s in p.items()}

    def get(self, n):
        return (self.P if n in self.P else self.B)[n]


class Sim:
    """mirrors ModelSpec to know which numbers stay exact, and where a history would become ambiguous"""

    def __init__(self, r, us, values=True, drop=()):
        self.r, self.us, self.values, self.dropk = r, us, values, set(drop)
        self.ops, self.PH, self.CL, self.OB, self.MD, self.FS = [], [], [], [], [], {}
        self.stop = False
        self.skipped = 0

    # ---- arithmetic
    def val(self, k, env):
        cl = self.CL[k]
        ob = self.OB[cl["o"]]
        c, us = ob.c, self.us
        x, sh = env[cl["in"][0]], self.PH[cl["in"][0]]["sh"]
        kd = c["kind"]
        if kd == "Linear":
            n, d, u = sh[0], prod(sh[1:]), c["units"]
            w, b = ob.P["weight"][1], ob.P["bias"][1]
            y = []
            for i in range(n):
                for o in range(u):
                    t = [x[i * d + j] * w[o * d + j] for j in range(d)]
                    lim(sum(map(abs, t)) + abs(b[o]))
                    y.append(sum(t) + b[o])
            return y
        if kd == "Convolution":
            w, b = ob.P["weight"][1], ob.P["bias"][1]
            os_ = out_shape(c, sh)
            y = []
            for n, o, oh, ow, terms in self.conv_iter(c, sh):
                t = [x[xi] * w[wi] for xi, wi in terms]
                lim(sum(map(abs, t)) + abs(b[o]))
                y.append(sum(t) + b[o])
            return y
        if kd == "MaxPooling":
            return [x[a] for a in self.pool_arg(c, sh, x)]
        if kd == "GlobalAvgPooling":
            pl = sh[2] * sh[3]
            y = []
            for i in range(sh[0] * sh[1]):
                t = x[i * pl:(i + 1) * pl]
                lim(sum(map(abs, t)))
                y.append(div(sum(t), pl))
            return y
        if kd == "Add":
            y = [a + b for a, b in zip(x, env[cl["in"][1]])]
            lim(max(map(abs, y)))
            return y
        if kd == "ReLU":
            return [max(a, 0) for a in x]
        if kd == "LeakyReLU":
            y = [a if a >= 0 else div(a * c["a"], 16) for a in x]
            lim(max(map(abs, y)))
            return y
        if kd == "Dropout":
            if ob.t:
                lim(2 * max(map(abs, x)))
                return [None] * len(x)
            return x
        if kd in NORM:
            mean, var, sd = self.norm(ob, x, sh)
            g, b = ob.P["gamma"][1], ob.P["beta"][1]
            pl = prod(sh[2:])
            y = []
            for i, a in enumerate(x):
                ch = (i // pl) % sh[1]
                lim(abs(g[ch] * (a - mean[ch])) << us)
                y.append(div((g[ch] * (a - mean[ch])) << us, sd[ch]) + b[ch])
            return y
        raise Inexact()

    def norm(self, ob, x, sh):
        us, pl = self.us, prod(sh[2:])
        eps = div(ob.c["eps"] << (2 * us), 16)
        mean, var, sd = [], [], []
        for ch in range(sh[1]):
            if ob.t:
                col = [a for i, a in enumerate(x) if (i // pl) % sh[1] == ch]
                if len(col) & (len(col) - 1):
                    raise Inexact()
                m = div(sum(col), len(col))
                lim(sum(map(abs, col)))
                q = sum((a - m) ** 2 for a in col)
                lim(q + eps)
                v = div(q, len(col))
                lim(sum(a * a for a in col))
            else:
                m = ob.B["running_mean"][1][ch]
                v = (ob.B["running_var"][1][ch]) << us
            s = v + eps
            root = 1
            while root * root < s:
                root *= 2
            if root * root != s:
                raise Inexact()
            mean.append(m)
            var.append(v)
            sd.append(root)
        return mean, var, sd

    def conv_iter(self, c, sh):
        N, C, H, W = sh
        _, CO, OH, OW = out_shape(c, sh)
        kh, kw = c["k"]
        for n in range(N):
            for o in range(CO):
                for oh in range(OH):
                    for ow in range(OW):
                        terms = []
                        for ch in range(C):
                            for i in range(kh):
                                for j in range(kw):
                                    ih, iw = oh * c["s"][0] - c["p"][0] + i, ow * c["s"][1] - c["p"][1] + j
                                    if 0 <= ih < H and 0 <= iw < W:
                                        terms.append((((n * C + ch) * H + ih) * W + iw, ((o * C + ch) * kh + i) * kw + j))
                        yield n, o, oh, ow, terms

    def pool_arg(self, c, sh, x):
        N, C, H, W = sh
        _, _, OH, OW = out_shape(c, sh)
        r = []
        for pl in range(N * C):
            for oh in range(OH):
                for ow in range(OW):
                    best = None
                    for i in range(c["k"][0]):
                        for j in range(c["k"][1]):
                            ih, iw = oh * c["s"][0] - c["p"][0] + i, ow * c["s"][1] - c["p"][1] + j
                            if 0 <= ih < H and 0 <= iw < W:
                                p = (pl * H + ih) * W + iw
                                if best is None or x[p] > x[best]:
                                    best = p
                    if best is None:
                        raise Inexact()
                    r.append(best)
        return r

    def run_fwd(self, m, xs):
        M = self.MD[m]
        env = {p: x for p, x in zip(M["ins"], xs)}
        for k in M["calls"]:
            y = self.val(k, env)
            env[self.CL[k]["out"]] = y
        mix = {}
        for k in M["calls"]:
            ob = self.OB[self.CL[k]["o"]]
            if ob.c["kind"] in NORM and ob.t:
                p = self.CL[k]["in"][0]
                mean, var, _ = self.norm(ob, env[p], self.PH[p]["sh"])
                a = ob.c["a"]
                rm = [div(o * a + n * (16 - a), 16) for o, n in zip(ob.B["running_mean"][1], mean)]
                rv = [div(o * a + div(n, 1 << self.us) * (16 - a), 16) for o, n in zip(ob.B["running_var"][1], var)]
                lim(max(map(abs, rm + rv)))
                mix[self.CL[k]["o"]] = (rm, rv)
        return env, mix

    def run_bwd(self, m, gs):
        M = self.MD[m]
        env = M["env"]
        G = {p: [0] * len(v) for p, v in env.items()}
        for p, g in zip(M["outs"], gs):
            G[p] = list(g)
        D = {}
        for k in reversed(M["calls"]):
            cl = self.CL[k]
            ob = self.OB[cl["o"]]
            c, kd = ob.c, ob.c["kind"]
            g, x, sh = G[cl["out"]], env[cl["in"][0]], self.PH[cl["in"][0]]["sh"]
            lim(max(map(abs, g)))
            dx = [0] * len(x)
            adx = [0] * len(x)
            if kd == "Linear":
                n, d, u = sh[0], prod(sh[1:]), c["units"]
                w = ob.P["weight"][1]
                dw, adw, db = [0] * (u * d), [0] * (u * d), [0] * u
                for i in range(n):
                    for o in range(u):
                        gg = g[i * u + o]
                        db[o] += gg
                        for j in range(d):
                            dw[o * d + j] += gg * x[i * d + j]
                            adw[o * d + j] += abs(gg * x[i * d + j])
                            dx[i * d + j] += gg * w[o * d + j]
                            adx[i * d + j] += abs(gg * w[o * d + j])
                lim(max(adw) if adw else 0)
                lim(sum(map(abs, g)))
                D[cl["o"]] = {"weight": dw, "bias": db}
            elif kd == "Convolution":
                w = ob.P["weight"][1]
                dw, adw, db = [0] * len(w), [0] * len(w), [0] * c["co"]
                q = 0
                for n, o, oh, ow, terms in self.conv_iter(c, sh):
                    gg = g[q]
                    q += 1
                    db[o] += gg
                    for xi, wi in terms:
                        dw[wi] += gg * x[xi]
                        adw[wi] += abs(gg * x[xi])
                        dx[xi] += gg * w[wi]
                        adx[xi] += abs(gg * w[wi])
                lim(max(adw))
                lim(sum(map(abs, g)))
                D[cl["o"]] = {"weight": dw, "bias": db}
            elif kd == "MaxPooling":
                for gg, a in zip(g, self.pool_arg(c, sh, x)):
                    dx[a] += gg
                    adx[a] += abs(gg)
            elif kd == "GlobalAvgPooling":
                pl = sh[2] * sh[3]
                dx = [div(g[i // pl], pl) for i in range(len(x))]
            elif kd == "Add":
                dx = g
            elif kd == "ReLU":
                dx = [gg if a > 0 else 0 for gg, a in zip(g, x)]
            elif kd == "LeakyReLU":
                dx = [gg if a >= 0 else div(gg * c["a"], 16) for gg, a in zip(g, x)]
            elif kd in NORM:
                if not ob.t:
                    raise Inexact()
                mean, var, sd = self.norm(ob, x, sh)
                pl = prod(sh[2:])
                dg, adg, db = [0] * sh[1], [0] * sh[1], [0] * sh[1]
                for i, a in enumerate(x):
                    ch = (i // pl) % sh[1]
                    dg[ch] += (a - mean[ch]) * g[i]
                    adg[ch] += abs((a - mean[ch]) * g[i])
                    div(((a - mean[ch]) * g[i]) << self.us, sd[ch])
                    db[ch] += g[i]
                lim(max(adg) << self.us)
                lim(sum(map(abs, g)))
                D[cl["o"]] = {"gamma": [div(v << self.us, s) for v, s in zip(dg, sd)], "beta": db}
            else:
                raise Inexact()
            lim(max(adx) if adx else 0)
            for p in cl["in"] if kd == "Add" else cl["in"][:1]:
                G[p] = [a + b for a, b in zip(G[p], dx)]
                lim(max(map(abs, G[p])))
        return D

    # ---- numbers
    def fill(self, ob, n):
        r, us = self.r, self.us
        sz = prod(ob.get(n)[0])
        if n == "weight":
            v = [r.choice([-1, 0, 0, 1, 1, 2]) for _ in range(sz)]
        elif n == "gamma":
            v = [r.choice([-4, 4, 4, 8, 0]) for _ in range(sz)]
        elif n == "mask":
            v = [r.choice([0, 1]) for _ in range(sz)]
        elif n == "running_var":
            v = [(1 if r.random() < .8 else 3) << us for _ in range(sz)] if not ob.t or r.random() < .7 else [r.choice([1, 3, 5]) << us for _ in range(sz)]
            if not ob.t:
                v = [1 << us] * sz if ob.c["eps"] != 48 else [r.choice([1, 13]) << us for _ in range(sz)]
        elif n == "running_mean":
            v = [r.choice([-2, 0, 2, 4]) << us for _ in range(sz)]
        else:
            v = [r.randint(-3, 3) << r.randint(0, us) for _ in range(sz)]
        return v

    def set(self, o, n, m=None, v=None):
        ob = self.OB[o]
        op = {"op": "set", "o": o + 1, "n": n, "via": "obj"}
        if v:                 # any bits: the driver reads raw, reports codes
            op["raw"] = v
            v = [code(a) for a in v]
        else:
            v = self.fill(ob, n)
        op["v"] = v
        ob.get(n)[1] = v
        if m is not None:
            op["m"] = m + 1
            op["via"] = self.r.choice(["obj", "params", "state", "layer"])
        self.ops.append(op)
        self.stale({o})

    def set_all(self, os_, m=None):
        for o in os_:
            for n in list(self.OB[o].P or {}) + list(self.OB[o].B):
                self.set(o, n, m)

    def stale(self, os_):
        for M in self.MD:
            if M["objs"] & os_:
                M["fed"] = False

    def x_for(self, m):
        r, us, M, xs = self.r, self.us, self.MD[m], []
        for p in M["ins"]:
            sh = self.PH[p]["sh"]
            n = prod(sh)
            nrm = [k for k in M["calls"] if self.CL[k]["in"][0] == p and self.OB[self.CL[k]["o"]].c["kind"] in NORM]
            if nrm:
                pl, C = prod(sh[2:]), sh[1]
                x = [0] * n
                for ch in range(C):
                    idx = [i for i in range(n) if (i // pl) % C == ch]
                    r.shuffle(idx)
                    mean = r.choice([-2, 0, 2, 4])
                    for q, i in enumerate(idx):
                        x[i] = (mean + (1 if q % 2 else -1)) << us
            else:
                x = [r.randint(-3, 3) << us for _ in range(n)]
            xs.append(x)
        return xs

    # ---- operations
    def calls_of(self, outs):
        need, todo = set(), list(outs)
        while todo:
            k = self.PH[todo.pop()]["from"]
            if k is not None and k not in need:
                need.add(k)
                todo += self.CL[k]["in"]
        return sorted(need)

    def layer(self, c, ins):
        c = float_attrs(dict(c))
        self.ops.append({"op": "new", "c": c})
        self.OB.append(Obj(c, c["name"]))
        self.apply(len(self.OB) - 1, ins)

    def apply(self, o, ins):
        ob = self.OB[o]
        sh = self.PH[ins[0]]["sh"]
        self.ops.append({"op": "apply", "o": o + 1, "in": [i + 1 for i in ins]})
        first = ob.P is None
        if first:
            ob.fresh(sh)
        self.CL.append({"o": o, "in": list(ins), "out": len(self.PH)})
        self.PH.append({"sh": out_shape(ob.c, sh), "from": len(self.CL) - 1})
        if first and self.values:
            self.set_all([o])

    def build(self, ins, outs):
        calls = self.calls_of(outs)
        objs = [self.CL[k]["o"] for k in calls]
        self.ops.append({"op": "build", "ins": [i + 1 for i in ins], "outs": [o + 1 for o in outs], "single": self.r.random() < .5})
        names = [self.OB[o].name for o in objs if self.OB[o].name]
        definite = len(set(objs)) < len(objs) or len(set(names)) < len(names)
        # which unnamed layer gets which number depends on the order of the calls
        amb = any(self.OB[a].c["kind"] == self.OB[b].c["kind"] and self.OB[a].auto and not self.OB[b].name
                  for a in objs for b in objs if a != b)
        amb = amb or any(self.OB[a].name[:len(self.OB[b].c["kind"])] == self.OB[b].c["kind"].lower() and self.OB[a].name and not self.OB[b].name
                         for a in objs for b in objs if a != b)
        for o in objs:
            if not self.OB[o].name:
                self.OB[o].auto = True
        if definite:
            return None
        if amb:
            self.stop = True
            return None
        self.MD.append({"ins": list(ins), "outs": list(outs), "calls": calls, "objs": set(objs), "comp": False, "fed": False, "env": None})
        return len(self.MD) - 1

    def compile(self, m):
        self.ops.append({"op": "compile", "m": m + 1})
        self.MD[m].update(comp=True, fed=False)

    def fwd(self, m):
        r, M = self.r, self.MD[m]
        op = {"op": "fwd", "m": m + 1, "single": r.random() < .5, "reuse": r.random() < .5}
        if not M["comp"]:
            op["x"] = [[0] * prod(self.PH[p]["sh"]) for p in M["ins"]]
            self.ops.append(op)
            return False
        for k in range(9):
            xs = self.x_for(m)
            try:
                env, mix = self.run_fwd(m, xs)
                break
            except Inexact:
                if k == 1:
                    for o in sorted(M["objs"]):
                        for n in self.OB[o].B:
                            self.set(o, n, m)
                if k in (4, 6):
                    self.set_all(sorted(M["objs"]), m)
        else:
            self.skipped += 1
            return False
        op["x"] = xs
        self.ops.append(op)
        for o, (rm, rv) in mix.items():
            self.OB[o].B["running_mean"][1] = rm
            self.OB[o].B["running_var"][1] = rv
        for o in M["objs"]:
            if self.OB[o].c["kind"] == "Dropout" and self.OB[o].t:
                self.OB[o].P["mask"][1] = None
        M.update(fed=True, env=env)
        return True

    def bwd(self, m):
        r, M = self.r, self.MD[m]
        op = {"op": "bwd", "m": m + 1, "single": r.random() < .5}
        if not M["comp"]:
            op["g"] = [[0] * prod(self.PH[p]["sh"]) for p in M["outs"]]
            self.ops.append(op)
            return False
        if not M["fed"] or any(self.OB[o].c["kind"] == "Dropout" or (self.OB[o].c["kind"] in NORM and not self.OB[o].t) for o in M["objs"]):
            self.skipped += 1
            return False
        for k in range(8):
            q = r.choice([0, self.us, 2 * self.us, 2, 2 + self.us])
            gs = [[r.choice([-2, -1, 0, 0, 1, 2, 3]) << q for _ in range(prod(self.PH[p]["sh"]))] for p in M["outs"]]
            try:
                D = self.run_bwd(m, gs)
                break
            except Inexact:
                pass
        else:
            self.skipped += 1
            return False
        op["g"] = gs
        self.ops.append(op)
        for o, d in D.items():
            for n, g in d.items():
                self.OB[o].G[n] = g if self.OB[o].t else None
        return True

    def step(self, m):
        M = self.MD[m]
        lr = self.r.choice([1, 1, 2, 3])
        new = {}
        try:
            for o in M["objs"]:
                ob = self.OB[o]
                if ob.t and ob.c["kind"] != "Dropout":
                    for n, (s, v) in ob.P.items():
                        if ob.G[n] is None or v is None:
                            raise Inexact()
                        d = [div(lr * g, 1 << (2 * self.us)) if n in ("weight", "gamma") else lr * g for g in ob.G[n]]
                        lim(max(abs(a) + abs(b) for a, b in zip(v, d)))
                        new[o, n] = [a - b for a, b in zip(v, d)]
        except Inexact:
            self.skipped += 1
            return False
        for (o, n), v in new.items():
            self.OB[o].P[n][1] = v
        self.ops.append({"op": "step", "m": m + 1, "lr": lr})
        self.stale(M["objs"])
        return True

    def mode(self, os_, t):
        for o in os_:
            self.OB[o].t = t
        self.stale(set(os_))

    def known(self, m):
        return not any(self.OB[o].auto for o in self.MD[m]["objs"])

    def state(self, m):
        return {(self.OB[o].name, n): (list(self.OB[o].get(n)[0]), self.OB[o].get(n)[1] and list(self.OB[o].get(n)[1]))
                for o in self.MD[m]["objs"] for n in list(self.OB[o].P or {}) + list(self.OB[o].B)}

    def file(self, op, m, f):
        self.ops.append({"op": op, "m": m + 1, "f": f, "stream": self.r.random() < .5})
        self.FS[f] = {"k": op, "src": m, "st": self.state(m), "known": self.known(m)}

    def loadstate(self, m, f):
        self.ops.append({"op": "loadstate", "m": m + 1, "f": f, "stream": self.r.random() < .5})
        F, M = self.FS.get(f), self.MD[m]
        self.stale(M["objs"])
        sure = F and F["k"] == "savestate" and F["known"] and self.known(m)
        own = self.state(m) if sure else {}
        if sure and all(k in own and own[k][0] == s for k, (s, _) in F["st"].items()):
            for o in M["objs"]:
                for n in list(self.OB[o].P or {}) + list(self.OB[o].B):
                    if (self.OB[o].name, n) in F["st"]:
                        self.OB[o].get(n)[1] = F["st"][self.OB[o].name, n][1]
        elif self.values and (not F or F["k"] == "savestate"):
            self.set_all(sorted(M["objs"]), m)

    def load(self, op, f):
        self.ops.append({"op": op, "f": f, "stream": self.r.random() < .5})
        F = self.FS.get(f)
        if not F or F["k"] == "savestate" or (op == "load" and F["k"] != "save"):
            return None
        M = self.MD[F["src"]]
        at = {}
        for p in M["ins"]:
            at[p] = len(self.PH)
            self.PH.append({"sh": self.PH[p]["sh"], "from": None})
        objs = []
        for k in M["calls"]:
            src = self.OB[self.CL[k]["o"]]
            o = Obj(src.c, src.name)
            o.auto = src.auto
            o.fresh(self.PH[self.CL[k]["in"][0]]["sh"])
            if op == "load":
                for n in list(o.P) + list(o.B):
                    o.get(n)[1] = F["st"][src.name, n][1] if not src.auto else None
            objs.append(len(self.OB))
            self.OB.append(o)
        base = len(self.CL)
        for j, k in enumerate(M["calls"]):
            at[self.CL[k]["out"]] = len(self.PH)
            self.CL.append({"o": objs[j], "in": [at[p] for p in self.CL[k]["in"]], "out": len(self.PH)})
            self.PH.append({"sh": self.PH[self.CL[k]["out"]]["sh"], "from": base + j})
        self.MD.append({"ins": [at[p] for p in M["ins"]], "outs": [at[p] for p in M["outs"]], "calls": list(range(base, len(self.CL))),
                        "objs": set(objs), "comp": False, "fed": False, "env": None})
        m = len(self.MD) - 1
        if self.values:
            if op == "fromcfg":
                self.set_all(objs, m)
            else:
                for o in objs:
                    for n in list(self.OB[o].P) + list(self.OB[o].B):
                        if self.OB[o].get(n)[1] is None:
                            self.set(o, n, m)
        return m

    def get(self, m):
        r = self.r
        names = [self.OB[o].name for o in self.MD[m]["objs"] if self.OB[o].name]
        if r.random() < .6 and names:
            n = r.choice(names)
        else:
            n = r.choice([self.OB[r.randrange(len(self.OB))].name, "nobody", "", "relu0", "linear0", "linear1", "Linear0"])
        self.ops.append({"op": "get", "m": m + 1, "name": n})

    def dot(self, m):
        self.ops.append({"op": "dot", "m": m + 1, "over": self.r.random() < .2})

    def take(self, h):
        k = h["op"]
        if k in self.dropk or self.stop:
            return
        z = lambda l: [i - 1 for i in l]
        if k == "input":
            self.input(h["sh"])
        elif k == "layer":
            self.layer(h["c"], z(h["in"]))
        elif k == "again":
            self.apply(h["o"] - 1, z(h["in"]))
        elif k == "build":
            self.build(z(h["ins"]), z(h["outs"]))
        elif k == "compile":
            self.compile(h["m"] - 1)
        elif k == "fwd":
            self.fwd(h["m"] - 1)
        elif k == "bwd":
            self.bwd(h["m"] - 1)
        elif k == "step":
            self.step(h["m"] - 1)
        elif k == "set":
            self.set(h["o"] - 1, h["n"], h["m"] - 1)
        elif k == "train":
            self.ops.append({"op": "train", "m": h["m"], "t": h["t"]})
            self.mode(self.MD[h["m"] - 1]["objs"], h["t"])
        elif k == "freeze":
            self.ops.append({"op": "freeze", "o": h["o"], "t": h["t"]})
            self.mode({h["o"] - 1}, h["t"])
        elif k == "get":
            self.get(h["m"] - 1)
        elif k == "dot":
            self.dot(h["m"] - 1)
        elif k in ("savestate", "savecfg", "save"):
            self.file(k, h["m"] - 1, h["f"])
        elif k == "loadstate":
            self.loadstate(h["m"] - 1, h["f"])
        elif k in ("load", "fromcfg"):
            self.load(k, h["f"])
        else:
            raise MachineryError("unknown operation " + k)

    def input(self, sh):
        self.ops.append({"op": "input", "sh": list(sh)})
        self.PH.append({"sh": list(sh), "from": None})
        return len(self.PH) - 1

    def scenario(self, sid, bits=False):
        return {"m": "model", "id": sid, "us": self.us, "bits": bits, "ops": self.ops}


def prog(work, num, length, seed, kinds, shapes, struct=False, runs=True, files=("f", "g"), names=("", "n", "x", "same"), models=4, sim=True, extra="", saving=("state", "cfg", "model"), dot=False):
    q = lambda s: "{" + ", ".join('"%s"' % x for x in s) + "}"
    cfg = ("SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Kinds = %s\n Shapes = %s\n NameSet = %s\n Struct = %s\n Runs = %s\n Files = %s\n"
           " MaxModels = %d\n Saving = %s\n Pictures = %s\nCHECK_DEADLOCK FALSE\n" % (length, q(kinds), q(shapes), q(names), str(struct).upper(), str(runs).upper(), q(files), models, q(saving), str(dot).upper())) + extra
    if sim:
        return generate("MC_Prog", cfg + "INVARIANT Emit\n", work, num, length + 5, seed)
    return model_check("MC_Prog", cfg, work, workers=4)


# ------------------------------------------------------------------ directed graphs
LIN = lambda u, n="": {"kind": "Linear", "units": u, "name": n}
RELU = lambda n="": {"kind": "ReLU", "name": n}
LEAKY = lambda a, n="": {"kind": "LeakyReLU", "a": a, "name": n}
ADD = lambda n="": {"kind": "Add", "name": n}
CONV = lambda co, n="", k=(3, 3), p=(1, 1), s=(1, 1): {"kind": "Convolution", "co": co, "k": list(k), "p": list(p), "s": list(s), "name": n}
POOL = lambda n="", k=(2, 2), p=(0, 0), s=(2, 2): {"kind": "MaxPooling", "k": list(k), "p": list(p), "s": list(s), "name": n}
GAP = lambda n="": {"kind": "GlobalAvgPooling", "name": n}
BN1 = lambda n="", e=48, a=8: {"kind": "BatchNorm1D", "def": False, "eps": e, "a": a, "name": n}
BN2 = lambda n="", e=240, a=8: {"kind": "BatchNorm2D", "def": False, "eps": e, "a": a, "name": n}
DROP = lambda n="": {"kind": "Dropout", "a": 8, "name": n}


def L(s, c, *ins):
    s.layer(c, list(ins))
    return len(s.PH) - 1


def g_chain(s):
    x = p = s.input([2, 3])
    for i in range(s.r.randint(3, 9)):
        k = s.r.choice("lrka") if i else "l"
        if k == "a":
            p = L(s, ADD("a%d" % i), p, p)
        else:
            p = L(s, {"l": LIN(s.r.randint(1, 3), "l%d" % i), "r": RELU("r%d" % i), "k": LEAKY(32, "k%d" % i)}[k], p)
    return [x], [p]


def g_diamond(s):
    x = s.input([2, 2])
    a = L(s, LIN(2, "top"), x)
    b = L(s, RELU("left"), a)
    c = L(s, LIN(2, "right"), a)
    d = L(s, ADD("join"), b, c)
    e = L(s, LIN(2, "tail"), d)
    return [x], [e]


def g_fan(s):         # one result used many times, and an output itself
    x = s.input([3, 2])
    a = L(s, LIN(2, "hub"), x)
    us = [L(s, s.r.choice([LIN(2, "u%d" % i), RELU("u%d" % i), LEAKY(32, "u%d" % i)]), a) for i in range(s.r.randint(2, 4))]
    t = us[0]
    for i, u in enumerate(us[1:]):
        t = L(s, ADD("s%d" % i), t, u)
    outs = [t, a] + us[:1]
    s.r.shuffle(outs)
    return [x], outs


def g_double(s):      # x + x, and y + y of a computed y
    x = s.input([2, 2])
    a = L(s, ADD("xx"), x, x)
    b = L(s, LIN(2, "lin"), a)
    c = L(s, ADD("yy"), b, b)
    return [x], [c] if s.r.random() < .5 else [c, b]


def g_two(s):         # two inputs, given in reverse, and one nobody uses
    x, y, z = s.input([2, 2]), s.input([2, 3]), s.input([1, 4])
    a, b = L(s, LIN(2, "ax"), x), L(s, LIN(2, "by"), y)
    c = L(s, ADD("sum"), b, a)
    d = L(s, RELU("act"), c)
    e = L(s, LIN(1, "head"), d)
    ins = [x, y, z] if s.r.random() < .5 else [z, y, x]
    return ins, [d, e] if s.r.random() < .5 else [e, d, a]


def g_image(s):       # convolutional network with a residual connection
    x = s.input([2, 2, 4, 4])
    a = L(s, CONV(2, "c1"), x)
    b = L(s, RELU("r1"), a)
    c = L(s, CONV(2, "c2"), b)
    d = L(s, ADD("res"), c, b)
    e = L(s, POOL("p1"), d)
    f = L(s, GAP("gap"), e) if s.r.random() < .5 else e
    h = L(s, LIN(3, "fc"), f)
    return [x], [h] if s.r.random() < .6 else [h, d]


def g_norm(s):
    x, y = s.input([2, 2, 4, 4]), s.input([4, 2])
    a = L(s, BN2("b2"), x)
    b = L(s, CONV(1, "cv"), a)
    c = L(s, RELU("rl"), b)
    d = L(s, LIN(2, "f1"), c)
    e = L(s, BN1("b1"), y)
    f = L(s, LIN(2, "f2"), e)
    return [y, x], [f, d]


def g_dense(s):       # every layer sees the sum of all before it
    x = s.input([2, 2])
    acc = L(s, LIN(2, "d0"), x)
    for i in range(1, s.r.randint(3, 5)):
        n = L(s, LIN(2, "d%d" % i) if s.r.random() < .6 else RELU("d%d" % i), acc)
        acc = L(s, ADD("m%d" % i), acc, n)
    return [x], [acc]


def g_grid(s):        # many calls and paths of different length between the same results
    x, y = s.input([1, 2]), s.input([1, 2])
    row = [L(s, LIN(2, "g0"), x), L(s, LIN(2, "g1"), y)]
    for i in range(s.r.randint(2, 4)):
        row = [L(s, ADD("q%da" % i), row[0], row[1]), L(s, LIN(2, "q%db" % i), row[s.r.randrange(2)])]
    t = L(s, ADD("end"), row[0], row[1])
    return [x, y], [t]


def g_drop(s):
    x = s.input([4, 8])
    a = L(s, LIN(8, "before"), x)
    b = L(s, DROP("drop"), a)
    return [x], [b, a] if s.r.random() < .5 else [b]


GRAPHS = [g_chain, g_diamond, g_fan, g_double, g_two, g_image, g_norm, g_dense, g_grid]


def runs(s, m, n, bwd=True, step=True):
    s.compile(m)
    for i in range(n):
        if s.fwd(m) and bwd and s.bwd(m) and step and s.r.random() < .7:
            s.step(m)


def directed_runs(r, n, bwd, step, extra=()):
    scs = []
    for i in range(n):
        gs = GRAPHS + list(extra)
        g = gs[i % len(gs)]
        s = Sim(r, r.choice([0, 0, 2]) if step else r.choice([0, 2, 3]))
        ins, outs = g(s)
        m = s.build(ins, outs)
        if r.random() < .3:      # too early
            s.fwd(m)
            if bwd:
                s.bwd(m)
        runs(s, m, 3, bwd, step)
        if r.random() < .4:
            o = r.choice(sorted(s.MD[m]["objs"]))
            s.take({"op": "freeze", "o": o + 1, "t": False})
            if s.fwd(m) and bwd and s.bwd(m) and step:
                s.step(m)
            s.take({"op": "train", "m": m + 1, "t": True})
        if r.random() < .3:
            s.take({"op": "train", "m": m + 1, "t": False})
            s.fwd(m)
            s.take({"op": "train", "m": m + 1, "t": True})
        if s.fwd(m) and bwd:
            s.bwd(m)
            s.bwd(m)
        if r.random() < .3:
            runs(s, m, 2, bwd, step)
        scs.append(s.scenario("%s%d" % (g.__name__, i)))
    return scs


def shared(r, n):
    """several models over the same layers, every way of reaching a parameter"""
    scs = []
    for i in range(n):
        s = Sim(r, r.choice([0, 0, 2]))
        x = s.input([2, 2])
        a = L(s, LIN(2, "enc"), x)
        b = L(s, RELU("act"), a)
        c = L(s, LIN(2, "dec"), b)
        d = L(s, LIN(1, "head"), b)
        y = s.input([2, 2])
        s.apply(0, [y])                      # the encoder once more, over another input
        e = len(s.PH) - 1
        n2 = L(s, LIN(2, "other"), e)
        ms = [s.build([x], [c]), s.build([x], [d]), s.build([x], [d, c]), s.build([y], [n2])]
        for m in ms:
            if r.random() < .85:
                s.compile(m)
        for _ in range(14):
            m = r.choice(ms)
            k = r.choice(["fwd", "fwd", "bwd", "step", "set", "train", "freeze", "compile"])
            if k == "fwd":
                s.fwd(m)
            elif k == "bwd":
                if s.MD[m]["fed"] or s.fwd(m):
                    s.bwd(m)
            elif k == "step":
                if (s.MD[m]["fed"] or s.fwd(m)) and s.bwd(m):
                    s.step(m)
            elif k == "set":
                o = r.choice(sorted(s.MD[m]["objs"]))
                for t in list(s.OB[o].P):
                    s.set(o, t, m)
            elif k == "train":
                s.take({"op": "train", "m": m + 1, "t": r.random() < .6})
            elif k == "freeze":
                s.take({"op": "freeze", "o": r.choice(sorted(s.MD[m]["objs"])) + 1, "t": r.random() < .6})
            else:
                s.compile(m)
        scs.append(s.scenario("share%d" % i))
    return scs


def modes(r, n):
    """training mode of layers whose behaviour depends on it, shared between models"""
    scs = []
    for i in range(n):
        s = Sim(r, 2)
        if i % 2:
            x = s.input([4, 2])
            a = L(s, BN1("norm"), x)
            b = L(s, LIN(3, "lin"), a)
            c = L(s, RELU("act"), a)
            ms = [s.build([x], [b]), s.build([x], [c])]
        else:
            x = s.input([4, 8])
            a = L(s, LIN(8, "lin"), x)
            b = L(s, DROP("drop"), a)
            c = L(s, RELU("act"), a)
            ms = [s.build([x], [b]), s.build([x], [c, a])]
        for m in ms:
            s.compile(m)
        for _ in range(12):
            m = r.choice(ms)
            k = r.choice(["fwd", "fwd", "fwd", "train", "freeze", "set"])
            if k == "fwd":
                if s.fwd(m) and r.random() < .4:
                    s.bwd(m)
            elif k == "train":
                s.take({"op": "train", "m": m + 1, "t": r.random() < .5})
            elif k == "set":
                o = r.choice(sorted(s.MD[m]["objs"]))
                for t in list(s.OB[o].P) + list(s.OB[o].B):
                    s.set(o, t, m)
            else:
                s.take({"op": "freeze", "o": r.choice(sorted(s.MD[m]["objs"])) + 1, "t": r.random() < .5})
        scs.append(s.scenario("mode%d" % i))
    return scs


def naming(r):
    """names: given, generated, clashing; layers found by name"""
    scs = []

    def sc(f):
        s = Sim(r, 0, values=False)
        f(s)
        scs.append(s.scenario("name%d" % len(scs)))

    def ask(s, m, *names):
        for n in names:
            s.ops.append({"op": "get", "m": m + 1, "name": n})

    def auto(s):
        x = s.input([2, 3])
        p = L(s, RELU(), L(s, LIN(3), L(s, RELU(), L(s, LIN(2), x))))
        m = s.build([x], [p])
        ask(s, m, "linear0", "relu1", "linear2", "relu3", "relu0", "Linear0", "", "linear4")
    sc(auto)

    def mixed(s):
        x = s.input([2, 3])
        p = L(s, LIN(3), L(s, RELU("mine"), L(s, LIN(2), x)))
        m = s.build([x], [p])
        ask(s, m, "linear0", "mine", "linear2", "relu1", "linear1")
    sc(mixed)

    def clash_auto(s):        # the generated name is taken by hand
        x = s.input([2, 3])
        s.build([x], [L(s, RELU(), L(s, RELU("relu1"), x))])
    sc(clash_auto)

    def clash_auto2(s):
        x = s.input([2, 3])
        s.build([x], [L(s, RELU("relu0"), L(s, RELU(), x))])
    sc(clash_auto2)

    def no_clash(s):          # a hand-given name that looks generated but is free
        x = s.input([2, 3])
        m = s.build([x], [L(s, RELU("relu5"), L(s, LIN(2, "relu1"), x))])
        ask(s, m, "relu5", "relu1", "relu0")
    sc(no_clash)

    def dup(s):
        x = s.input([2, 3])
        a = L(s, LIN(3, "w"), x)
        b = L(s, RELU("w"), a)
        s.build([x], [b])
        m = s.build([x], [a])      # without the second one it is fine
        ask(s, m, "w", "relu0")
    sc(dup)

    def dup_params(s):        # equal names, parameters of equal and different shape
        x = s.input([2, 3])
        a = L(s, LIN(3, "w"), x)
        b = L(s, LIN(3, "w"), a)
        c = L(s, LIN(2, "w"), x)
        for o in (b, [b, c], [a, c]):
            s.build([x], o if isinstance(o, list) else [o])
    sc(dup_params)

    def twice(s):             # one layer object used twice
        x = s.input([2, 3])
        a = L(s, LIN(3, "w"), x)
        s.apply(0, [a])
        b = len(s.PH) - 1
        s.build([x], [b])
        s.build([x], [a, b])
        m = s.build([x], [a])
        ask(s, m, "w")
    sc(twice)

    def twice_relu(s):
        x = s.input([2, 3])
        a = L(s, RELU("r"), x)
        s.apply(0, [a])
        s.build([x], [len(s.PH) - 1])
        s.apply(0, [x])
        s.build([x], [a, len(s.PH) - 1])
    sc(twice_relu)

    def odd(s):               # names with dots, spaces, prefixes of each other, and very long ones
        x = s.input([2, 3])
        names = ["a", "a.b", "a.weight", " ", "weight", "x" * 300, "a.", ".", "relu0 "]
        p = x
        for n in names:
            p = L(s, LIN(3, n), p)
        m = s.build([x], [p])
        ask(s, m, *names)
        ask(s, m, "x" * 299, "", "A")
    sc(odd)

    def dots(s):              # layer 'a' has a.weight; layer 'a.weight' has a.weight.weight: all distinct
        x = s.input([2, 2])
        m = s.build([x], [L(s, LIN(2, "a.weight"), L(s, LIN(2, "a"), x))])
        ask(s, m, "a", "a.weight")
    sc(dots)

    def unused(s):
        xs = [s.input([2, 3]) for _ in range(4)]
        m = s.build(xs[::-1], [L(s, RELU("r"), xs[1])])
        ask(s, m, "r")
    sc(unused)
    for g in GRAPHS + [g_drop]:
        def graph(s):
            i, o = g(s)
            m = s.build(i, o)
            ask(s, m, *[s.OB[k].name for k in sorted(s.MD[m]["objs"])])
            if len(o) > 1:
                s.build(i, o[::-1])
                s.build(i, o[:1])
        sc(graph)
    return scs


# ------------------------------------------------------------------ directed files
BITS = {2000000001: 0x7fc00000, 2000000002: 0x7f800000, 2000000003: 0xff800000, 2000000006: 0x80000000, 2000000007: 3,
        2000000008: 0x7f7fffff, 2000000009: 0x7fc00007, 2000000010: 0x40490fdb}
SPECIAL = list(BITS)


def code(a):
    """how m_model reports a value that is no integer"""
    if a not in BITS:
        return a
    h = (BITS[a] * 0x9E3779B97F4A7C15) & (2 ** 64 - 1)
    return 1000000000 + (h >> 24) % 400000000


def specials(s, o, n):
    sz = prod(s.OB[o].get(n)[0])
    s.set(o, n, None, [s.r.choice(SPECIAL + [0, 1, -1, 12345]) for _ in range(sz)])


def files(r, n):
    """states of equally named but separate models; larger models; overwritten files"""
    scs = []
    kinds = [(lambda nm: LIN(3, nm)), (lambda nm: BN1(nm)), (lambda nm: RELU(nm)), (lambda nm: DROP(nm))]
    for i in range(n):
        s = Sim(r, 0, values=False)
        x = s.input([2, 3])
        ms, first, plan = [], None, [r.choice(kinds) for _ in range(r.randint(1, 4))]
        for copy in range(3):
            p = x
            for j, k in enumerate(plan):
                p = L(s, k("n%d" % j), p)
            if copy == 1 or (copy == 0 and i % 3 == 0):
                p = L(s, LIN(r.randint(1, 3), "extra"), p)
            ms.append(s.build([x], [p]))
        for m in ms:
            for o in sorted(s.MD[m]["objs"]):
                for t in list(s.OB[o].P) + list(s.OB[o].B):
                    specials(s, o, t)
        for _ in range(r.randint(3, 9)):
            m, f = r.choice(ms), r.choice(["f", "g"])
            k = r.choice(["savestate", "savestate", "loadstate", "loadstate", "set", "save", "load"])
            if k == "savestate":
                s.file(k, m, f)
            elif k == "loadstate":
                s.loadstate(m, f)
            elif k == "set":
                o = r.choice(sorted(s.MD[m]["objs"]))
                for t in list(s.OB[o].P) + list(s.OB[o].B):
                    specials(s, o, t)
            elif k == "save":
                s.file(k, m, f)
            elif len(s.MD) < 5:
                q = s.load(k, f)
                if q is not None:
                    ms.append(q)
        scs.append(s.scenario("file%d" % i, bits=True))
    return scs


def everything(r, n):
    """configurations with every layer type"""
    scs = []

    def odd(c):
        """some float attribute that is no round number"""
        if r.random() < .6:
            c["ab"] = fbits(r.choice(ODD_FLOATS))
        if "eps" in c and r.random() < .6:
            c["eb"] = fbits(r.choice(ODD_FLOATS))
        return c
    for i in range(n):
        s = Sim(r, 0, values=False)
        x = s.input([2, r.randint(1, 3), r.randint(4, 6), r.randint(4, 6)])
        k = lambda: [r.randint(1, 3), r.randint(1, 3)]
        p = L(s, CONV(r.randint(1, 3), r.choice(["", "conv"]), k(), (r.randint(0, 1), r.randint(0, 1)), k()), x)
        p = L(s, odd(BN2(r.choice(["", "bn2"]), r.randint(0, 200), r.randint(0, 16))), p)
        q = L(s, odd(LEAKY(r.randint(0, 40), r.choice(["", "lk"]))), p)
        u = L(s, odd({"kind": "ELU", "a": r.randint(0, 40), "name": ""}), p)
        p = L(s, ADD(r.choice(["", "sum"])), q, u) if r.random() < .5 else L(s, ADD(""), u, q)
        t = L(s, {"kind": "Sigmoid", "name": r.choice(["", "sg"])}, p)
        p = L(s, POOL("", *r.choice([((1, 1), (0, 0)), ((2, 2), (1, 1)), ((2, 1), (1, 0)), ((1, 3), (0, 1))]), tuple(k())), t)
        p = L(s, GAP(r.choice(["", "gap"])), p) if r.random() < .5 else p
        p = L(s, LIN(r.randint(1, 5), r.choice(["", "fc"])), p)
        v = L(s, odd(BN1("", r.randint(0, 200), r.randint(0, 16))), p)
        w = L(s, odd({"kind": "Dropout", "a": r.randint(0, 15), "name": ""}), v)
        z = L(s, {"kind": "Softmax", "name": r.choice(["", "soft max"])}, w)
        y = L(s, RELU(""), w)
        outs = r.choice([[z, y], [y, z], [z], [z, t, y]])
        ins = [x]
        if r.random() < .4:
            ins.insert(r.randrange(2), s.input([3, 3]))
        m = s.build(ins, outs)
        for f, k2 in (("c", "savecfg"), ("m", "save")):
            s.file(k2, m, f)
        if r.random() < .5:
            for o in sorted(s.MD[m]["objs"]):
                if r.random() < .5:
                    for tn in list(s.OB[o].P) + list(s.OB[o].B):
                        specials(s, o, tn)
            s.file("save", m, "m")
        for k2, f in r.sample([("fromcfg", "c"), ("fromcfg", "m"), ("load", "m"), ("load", "c")], 3):
            q = s.load(k2, f)
            if q is not None and r.random() < .4 and len(s.MD) < 4:
                s.file("save", q, "n")
                s.load("load", "n")
        if s.r.random() < .5:
            s.ops.append({"op": "get", "m": 2, "name": r.choice(["fc", "conv", "nobody"])})
        scs.append(s.scenario("all%d" % i, bits=True))
    return scs


def bad_files(r, n):
    """writes that cannot succeed, files cut short, files of the wrong kind or for another model"""
    scs = []
    for i in range(n):
        s = Sim(r, 0, values=True)
        if i % 3 == 0:
            ins, outs = g_image(s)
        elif i % 3 == 1:
            ins, outs = g_two(s)
        else:
            x = s.input([2, 2])
            ins, outs = [x], [L(s, RELU("r"), x)]      # nothing to store
        m = s.build(ins, outs)
        y = s.input([2, 2])
        names = [s.OB[o].name for o in sorted(s.MD[m]["objs"]) if s.OB[o].P]
        # same keys with other shapes; other keys
        m2 = s.build([y], [L(s, LIN(3, names[0] if names else "r"), y)])
        m3 = s.build([y], [L(s, LIN(2, "stranger"), y)])
        s.compile(m)
        s.fwd(m)
        ops = []
        for what in ("state", "cfg", "model"):
            for p in ("full", "dir", "nodir"):
                ops.append(lambda what=what, p=p: s.ops.append({"op": "badsave", "m": r.choice([m, m2, m3]) + 1, "what": what, "p": p}))
        def cut(what, f):
            op = {"op": "trunc", "f": f, "what": what}
            if what == "state":
                op["m"] = m + 1
            s.ops.append(op)
        s.file("savestate", m, "s")
        s.file("savecfg", m, "c")
        s.file("save", m, "m")
        s.file("savestate", m2, "s2")
        s.file("savestate", m3, "s3")
        ops += [lambda: cut("state", "s"), lambda: cut("cfg", "c"), lambda: cut("model", "m")]
        ops += [lambda: s.load("load", "s"), lambda: s.load("load", "c"), lambda: s.load("fromcfg", "s"),
                lambda: s.load("load", "none"), lambda: s.load("fromcfg", "none"), lambda: s.loadstate(m, "none"),
                lambda: s.loadstate(m, "c"), lambda: s.loadstate(m, "m"), lambda: s.loadstate(m, "s2"), lambda: s.loadstate(m, "s3"),
                lambda: s.loadstate(m2, "s"), lambda: s.loadstate(m3, "s"), lambda: s.loadstate(m2, "s3"), lambda: s.loadstate(m3, "s2")]
        r.shuffle(ops)
        for f in ops[:r.randint(8, 16)]:
            f()
            if r.random() < .25:
                s.fwd(m)
        s.fwd(m)
        s.loadstate(m, "s")
        s.fwd(m)
        scs.append(s.scenario("bad%d" % i))
    return scs


ODD_NAMES = ["a", "a b", " ", "a.b", "1st", "12", "node", "graph", "edge", "digraph", "subgraph", "strict", 'say "hi"', '"', "back\\slash", "end\\", "x->y",
             "x--y", "a;b", "[x]", "{", "}", "#no", "//c", "/*c", "a=b", "a,b", "<b>", "a:b:n", "label", "a\\n", "(Linear)", "a (ReLU)", "-1.5", "_", "x" * 200,
             "Placeholder", "in_port: 7", "N{2, 3}"]


def drawings(r, n):
    """models with odd names, unused inputs, x + x, several outputs; drawn before and after runs and loads, and to places that cannot be written"""
    scs = []
    for i in range(n):
        s = Sim(r, 0, values=False)
        if i % 3 == 0:
            (GRAPHS + [g_drop])[(i // 3) % (len(GRAPHS) + 1)](s)
            ins = [p for p, q in enumerate(s.PH) if q["from"] is None]
            used = set(sum((c["in"] for c in s.CL), []))
            outs = [p for p in range(len(s.PH)) if p not in used and s.PH[p]["from"] is not None]
        else:
            names = r.sample(ODD_NAMES, r.randint(3, 9))
            ins = [s.input(sh) for sh in r.sample([[2, 3], [2, 3], [4, 3], [2, 3, 1], [1, 3], [5, 3], [12, 3], [2, 3]], r.randint(1, 3))]
            ps = list(ins)
            for nm in names:
                k = r.choice("lraad")
                p = r.choice(ps[-4:])
                if k == "a":
                    same = [q for q in ps if s.PH[q]["sh"] == s.PH[p]["sh"]]
                    ps.append(L(s, ADD(nm), p, r.choice(same)))
                elif k == "l":
                    ps.append(L(s, LIN(r.choice([1, 2, 3, 11]), nm), p))
                else:
                    ps.append(L(s, (RELU if k == "r" else DROP)(nm), p))
            res = [p for p in ps if s.PH[p]["from"] is not None]
            outs = [res[-1]] + [p for p in res[:-1] if r.random() < .25]
            r.shuffle(outs)
        m = s.build(ins, outs)
        s.dot(m)
        if r.random() < .5:
            s.file("save", m, "f")
            q = s.load(r.choice(["load", "fromcfg"]), "f")
            s.dot(q)
        for p in r.sample(["full", "dir", "nodir"], r.choice([0, 0, 1, 2])):
            s.ops.append({"op": "badsave", "m": m + 1, "what": "dot", "p": p})
        if len(outs) > 1:
            s.dot(s.build(ins, outs[:1]))
        s.dot(m)
        scs.append(s.scenario("draw%d" % i))
    return scs


def near_fits(r, n):
    """states whose names agree and whose tensors have as many elements, but other shapes"""
    scs = []
    for i in range(n):
        s = Sim(r, 0, values=False)
        pairs = [lambda: ([2, 3], DROP("a"), [3, 2], DROP("a")), lambda: ([2, 6], DROP("a"), [2, 2, 3, 1], DROP("a")),
                 lambda: ([1, 2, 4, 4], CONV(2, "a", (1, 3), (0, 1)), [1, 2, 4, 4], CONV(2, "a", (3, 1), (1, 0))),
                 lambda: ([1, 4, 4, 4], CONV(3, "a", (1, 1), (0, 0)), [2, 4], LIN(3, "a")),
                 lambda: ([1, 4, 2, 2], CONV(2, "a", (1, 1), (0, 0)), [1, 1, 2, 2], CONV(2, "a", (2, 2), (1, 1))),
                 lambda: ([2, 3, 2, 2], LIN(2, "a"), [2, 12], LIN(2, "a"))]      # the last one does fit
        sh1, c1, sh2, c2 = pairs[i % len(pairs)]()
        x, y = s.input(sh1), s.input(sh2)
        m1 = s.build([x], [L(s, RELU("z"), L(s, c1, x))])
        m2 = s.build([y], [L(s, RELU("z"), L(s, c2, y))])
        for m in (m1, m2):
            for o in sorted(s.MD[m]["objs"]):
                for t in list(s.OB[o].P) + list(s.OB[o].B):
                    specials(s, o, t)
        s.file("savestate", m1, "f")
        s.file("savestate", m2, "g")
        for m, f in r.sample([(m1, "g"), (m2, "f"), (m1, "f"), (m2, "g")], 3):
            s.loadstate(m, f)
        scs.append(s.scenario("near%d" % i, bits=True))
    return scs


# ------------------------------------------------------------------ checks
SH = ["v", "w", "i", "j"]
INV = "INVARIANTS Acyclic Ordered UniqueNames AllNamed KeysOnce Loadable\nPROPERTIES LoadFaithful OldLayersKept\n"


def net(work, calls, kinds, inv):
    cfg = ("SPECIFICATION Spec\nCONSTANTS MaxCalls = %d\n NetKinds = {%s}\n MaxOuts = 2\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
           % (calls, ", ".join('"%s"' % k for k in kinds), inv))
    return model_check("MC_Net", cfg, work, workers=4)


def concretise(seqs, r, uss, drop=(), values=True, bits=False):
    scs = []
    for i, h in enumerate(seqs):
        s = Sim(r, r.choice(uss), values, drop)
        for o in h:
            s.take(o)
        scs.append(s.scenario("g%d" % i, bits))
    return scs


def check(designs, gen, more):
    def run(v, work):
        quick = v.tier == "quick"
        r = random.Random(v.seed * 41 + 7)
        out = par(lambda: build("m_model", True), lambda: gen(v, work, quick, r), *[lambda d=d: d(work, quick) for d in designs])
        exe, (seqs, conf) = out[0], out[1]
        for name, (s, t) in out[2:]:
            v.states += s
            v.trans += t
            v.parts.append({"design": name, "states": s})
        scs = conf(seqs) + more(r, quick)
        ids = set()
        for s in scs:
            while s["id"] in ids:
                s["id"] += "'"
            ids.add(s["id"])
        log("%d histories" % len(scs))
        res = run_driver(exe, scs, work)
        validate(v, "model", "Tr_Model", exe, scs, res, work)
        kinds = {}
        for s in scs:
            for o in s["ops"]:
                kinds[o["op"]] = kinds.get(o["op"], 0) + 1
        v.parts.append({"trace": "Tr_Model", "histories": len(scs), "calls": kinds})
        v.samples.append({"scenario": scs[0]["id"], "calls": [{k: x for k, x in o.items() if k != "v"} for o in scs[0]["ops"][:8]]})
    return run


def d_prog(work, quick):
    return "MC_Prog", prog(work, 0, 6 if quick else 7, 0, ["Linear", "Dropout"], ["v"], False, False, ("f",), ("", "same"), 2, False, "VIEW View\n" + INV)


def d_draw(work, quick):
    return "MC_Prog/draw", prog(work, 0, 6 if quick else 7, 0, ["Linear", "Add"], ["v"], False, False, (), ("", "n"), 2, False, "VIEW View\n" + INV.replace("Loadable", "DrawingFaithful"), dot=True)


def d_prog_add(work, quick):
    return "MC_Prog/add", prog(work, 0, 6 if quick else 7, 0, ["BatchNorm1D", "Add"], ["v"], False, False, ("f",), ("", "n"), 2, False, "VIEW View\n" + INV)


def d_net(work, quick):
    return "MC_Net/derivative", net(work, 3 if quick else 4, ["Linear", "Add"], "AnyOrder IsDerivative Linear2")


def d_net2(work, quick):
    return "MC_Net/order", net(work, 3 if quick else 4, ["Linear", "Add", "ReLU"], "AnyOrder Linear2")


def n(q, a, b):
    return a if q else b


c13 = check([d_prog, d_prog_add],
            lambda v, w, q, r: (prog(w, n(q, 90, 1200), 24, v.seed, ALLK, SH, True, False, (), models=5),
                                lambda s: concretise(s, r, [0], values=False)),
            lambda r, q: sum((naming(r) for _ in range(n(q, 2, 12))), []))
c14 = check([d_net2],
            lambda v, w, q, r: (prog(w, n(q, 80, 1000), 30, v.seed, RUNK, SH, files=()),
                                lambda s: concretise(s, r, [0, 2, 3], drop=("bwd", "step"))),
            lambda r, q: directed_runs(r, n(q, 40, 400), False, False, [g_drop]))
c15 = check([d_net, d_net2],
            lambda v, w, q, r: (prog(w, n(q, 60, 900), 30, v.seed, [k for k in RUNK if k != "Dropout"], SH, files=()),
                                lambda s: concretise(s, r, [0, 2, 3])),
            lambda r, q: directed_runs(r, n(q, 54, 500), True, False))
c16 = check([d_net],
            lambda v, w, q, r: (prog(w, n(q, 60, 900), 34, v.seed, RUNK, SH, files=()),
                                lambda s: concretise(s, r, [0, 0, 2])),
            lambda r, q: shared(r, n(q, 30, 300)) + modes(r, n(q, 24, 240)) + directed_runs(r, n(q, 18, 200), True, True))
c21 = check([d_prog],
            lambda v, w, q, r: (prog(w, n(q, 60, 900), 32, v.seed, RUNK, ["v", "i"], saving=("state",)),
                                lambda s: concretise(s, r, [0, 2])),
            lambda r, q: files(r, n(q, 60, 600)))
c22 = check([d_prog, d_prog_add],
            lambda v, w, q, r: (prog(w, n(q, 60, 900), 30, v.seed, RUNK, SH),
                                lambda s: concretise(s, r, [0, 2])),
            lambda r, q: everything(r, n(q, 40, 400)))
c23 = check([d_prog],
            lambda v, w, q, r: (prog(w, n(q, 40, 600), 30, v.seed, ["Linear", "ReLU", "BatchNorm1D", "Dropout"], ["v", "w"]),
                                lambda s: concretise(s, r, [0])),
            lambda r, q: bad_files(r, n(q, 24, 240)) + near_fits(r, n(q, 18, 90)))
c28m = check([d_draw],
             lambda v, w, q, r: (prog(w, n(q, 60, 900), 24, v.seed, ALLK, SH, True, False, ("f",), models=5, dot=True),
                                 lambda s: concretise(s, r, [0], values=False)),
             lambda r, q: drawings(r, n(q, 60, 600)))
RULE = ("programs over models (inputs, layers, models over parts of the graph, compile, forward, backward, training steps, setting "
        "parameters through layers/params()/state(), train modes, saving, loading) generated by TLC from ModelSpec, and directed ones; "
        "the specification recomputes every output, gradient, running statistic, name, key and configuration exactly and matches the "
        "whole state of all layers after every call")
