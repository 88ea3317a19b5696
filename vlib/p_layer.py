"""C03-C11: what layers compute, forward and backward, over call histories."""
import copy, itertools, random
from .core import *

BN = ("BatchNorm1D", "BatchNorm2D")


def prod(s):
    n = 1
    for d in s:
        n *= d
    return n


def odim(i, k, p, s):
    return (i + 2 * p - k) // s + 1


def out_shape(c, sh):
    k = c["kind"]
    if k == "Linear":
        return [sh[0], c["units"]]
    if k in ("Convolution", "MaxPooling"):
        return [sh[0], c["co"] if k == "Convolution" else sh[1],
                odim(sh[2], c["k"][0], c["p"][0], c["s"][0]), odim(sh[3], c["k"][1], c["p"][1], c["s"][1])]
    if k == "GlobalAvgPooling":
        return [sh[0], sh[1], 1, 1]
    return list(sh)


_odd = {}


def odd_columns(rows, eps):
    """columns of `rows` integers of sum 0 whose mean square plus eps is the square of a positive integer"""
    if (rows, eps) not in _odd:
        q, res = random.Random(rows * 100 + eps), []
        for _ in range(20000):
            v = [q.randint(-4, 4) for _ in range(rows - 1)] if rows < 15 else [q.choice([-2, -1, 0, 0, 1, 2]) for _ in range(rows - 1)]
            v.append(-sum(v))
            s2 = sum(x * x for x in v)
            if s2 % rows == 0 and s2 // rows + eps > 0 and int((s2 // rows + eps) ** .5 + .5) ** 2 == s2 // rows + eps and v not in res:
                res.append(v)
            if len(res) >= 12:
                break
        _odd[rows, eps] = res
    return _odd[rows, eps]


class Inst:
    """One layer instance: its configuration record and the concrete tensors behind the abstract data tokens."""

    def __init__(self, kind, r, size="small", nd=3):
        self.kind, self.r = kind, r
        getattr(self, "mk_" + kind)(size, nd)
        self.cfg["kind"] = kind
        self.cfg["sh0"] = self.shapes[0]

    # ---- configurations
    def _scales(self, r):
        return r.choice([0, 0, 0, 1, 5, -3, 28, -25]), r.choice([0, 0, 2, -2, 30, -28]), r.choice([0, 0, 3, -20, 25])

    def mk_Linear(self, size, nd):
        r = self.r
        f = {"small": r.choice([1, 2, 3, 5, 8, 9]), "large": r.choice([64, 65, 127, 130]), "wide": r.choice([300, 516]),
             "batch": r.choice([4, 5])}[size]
        u = {"small": r.choice([1, 2, 3, 4, 7]), "large": r.choice([10, 17, 33]), "wide": r.choice([70, 129]), "batch": 3}[size]
        shapes = []
        for _ in range(nd):
            n = {"small": r.choice([1, 2, 3, 4, 5, 8]), "large": r.choice([8, 13, 20]), "wide": 2, "batch": r.choice([100, 129, 256])}[size]
            if f % 2 == 0 and r.random() < .4:
                shapes.append([n, 2, f // 2])
            elif f % 4 == 0 and r.random() < .5:
                shapes.append([n, 2, 1, f // 2])
            else:
                shapes.append([n, f])
        self.shapes = shapes
        xS, wS, gS = self._scales(r)
        self.cfg = dict(units=u, xS=xS, wS=wS, bS=xS + wS, yS=xS + wS, gS=gS, giS=gS + wS, dxS=gS + wS, dwS=gS + xS,
                        dbS=gS, ye=True, dxe=True, dwe=True)
        self.nw, self.nb = u * f, u

    def mk_Convolution(self, size, nd):
        r = self.r
        c, co = r.choice([1, 2, 3]), r.choice([1, 2, 3, 4])
        if size == "wide":
            c, co = r.choice([(9, 17), (33, 8), (16, 16), (64, 5), (5, 70)])
        while True:
            k = [r.choice([1, 2, 3, 4, 5]), r.choice([1, 2, 3, 4, 5])]
            if r.random() < .4:
                k[1] = k[0]
            p = [r.choice([0, 0, 1, 2, 3]), r.choice([0, 0, 1, 2])]
            s = [r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 3, 4])]
            if size == "plane":
                c, co = r.choice([(1, 1), (1, 2), (2, 1)])
                k, p = r.choice([([7, 7], [3, 3]), ([11, 3], [5, 1]), ([2, 9], [0, 4]), ([3, 3], [1, 1])])
                s = r.choice([[2, 2], [2, 3], [4, 2], [3, 1]])
            if size in ("wide", "batch"):
                k = [min(3, k[0]), min(2, k[1])]
            if p[0] <= k[0] + 1 and p[1] <= k[1] + 1:
                break
        shapes = []
        for _ in range(nd):
            while True:
                if size == "wide":
                    sh = [r.choice([1, 2]), c, r.choice([3, 4]), r.choice([2, 3])]
                elif size == "batch":
                    sh = [r.choice([33, 64, 70]), c, r.choice([3, 4]), r.choice([2, 3])]
                elif size == "plane":
                    sh = [1, c, r.choice([28, 33, 40]), r.choice([32, 35, 41])]
                elif size == "small":
                    sh = [r.choice([1, 2, 3, 4]), c, r.choice([2, 3, 4, 5, 6, 7]), r.choice([1, 2, 3, 4, 5, 6])]
                else:
                    sh = [r.choice([5, 8, 9]), c, r.choice([8, 9, 11]), r.choice([8, 10, 7])]
                if sh[2] + 2 * p[0] >= k[0] and sh[3] + 2 * p[1] >= k[1]:
                    os = out_shape(dict(kind="Convolution", co=co, k=k, p=p, s=s), sh)
                    if prod(os) * c * k[0] * k[1] <= (12000 if size == "small" else 120000):
                        break
                    if size != "small":
                        co = max(1, co - 1)
                        k = [min(3, k[0]), min(3, k[1])]
                        p = [min(p[0], k[0]), min(p[1], k[1])]
                        s = [max(1, s[0]), max(1, s[1])]
            shapes.append(sh)
        for sh in shapes:       # the kernel may have shrunk meanwhile
            assert sh[2] + 2 * p[0] >= k[0] and sh[3] + 2 * p[1] >= k[1]
        self.shapes = shapes
        xS, wS, gS = self._scales(r)
        self.cfg = dict(co=co, k=k, p=p, s=s, xS=xS, wS=wS, bS=xS + wS, yS=xS + wS, gS=gS, giS=gS + wS, dxS=gS + wS,
                        dwS=gS + xS, dbS=gS, ye=True, dxe=True, dwe=True)
        self.nw, self.nb = co * c * k[0] * k[1], co

    def mk_MaxPooling(self, size, nd):
        r = self.r
        k = [r.choice([1, 2, 2, 3, 4]), r.choice([1, 2, 2, 3, 4])]
        p = [r.randrange(0, k[0]), r.randrange(0, k[1])]
        if r.random() < .4:
            p = [0, 0]
        s = [r.choice([1, 2, 3]), r.choice([1, 2, 3, 4])]
        c = r.choice([1, 2, 3])
        if size == "plane":
            k, p = r.choice([([7, 7], [3, 3]), ([9, 2], [4, 0]), ([3, 12], [0, 5]), ([2, 2], [0, 0])])
        shapes = []
        for _ in range(nd):
            while True:
                sh = [r.choice([1, 2, 3]), c, r.choice([1, 2, 3, 4, 5, 7]), r.choice([1, 2, 3, 4, 5, 6, 8])]
                if size == "large":
                    sh = [r.choice([2, 5]), c, r.choice([12, 15, 17]), r.choice([12, 13, 19])]
                if size == "wide":
                    sh = [2, 33 + c, r.choice([3, 4, 5]), r.choice([3, 4])]
                if size == "batch":
                    sh = [r.choice([33, 70]), c, r.choice([3, 4, 5]), r.choice([3, 4])]
                if size == "plane":
                    sh = [1, c, r.choice([28, 33, 40]), r.choice([32, 35, 41])]
                if sh[2] + 2 * p[0] >= k[0] and sh[3] + 2 * p[1] >= k[1]:
                    break
            shapes.append(sh)
        self.shapes = shapes
        xS, _, gS = self._scales(r)
        self.cfg = dict(k=k, p=p, s=s, xS=xS, yS=xS, gS=gS, giS=gS, dxS=gS, ye=True, dxe=True)
        self.nw = self.nb = 0

    def mk_GlobalAvgPooling(self, size, nd):
        r = self.r
        big = size == "large"
        self.shapes = [[r.choice([1, 2, 3, 5]), r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 4, 7]) + 5 * big,
                        r.choice([1, 2, 3, 4, 5, 8]) + 5 * big] for _ in range(nd)]
        if size == "wide":
            self.shapes = [[r.choice([1, 2]), r.choice([17, 33, 70]), r.choice([1, 2, 3]), r.choice([2, 3, 4])] for _ in range(nd)]
        if size == "batch":
            self.shapes = [[r.choice([33, 70, 129]), r.choice([1, 2, 3]), r.choice([1, 2, 3]), r.choice([2, 3, 4])] for _ in range(nd)]
        if size == "plane":
            self.shapes = [[r.choice([1, 2]), r.choice([1, 2]), r.choice([28, 32, 40]), r.choice([32, 35, 41])] for _ in range(nd)]
        exact = all(prod(s[2:]) in (1, 2, 4, 8, 16, 32, 64) for s in self.shapes)
        xS, _, gS = self._scales(r)
        self.cfg = dict(gs=12, xS=xS, yS=xS + 12, gS=gS, giS=gS, dxS=gS + 12, ye=exact, dxe=exact)
        self.nw = self.nb = 0

    def _anyshape(self, size, nd):
        r = self.r
        out = []
        for _ in range(nd):
            if size == "wide":
                out.append(r.choice([[2, 700], [1, 1025], [1, 40, 5, 5], [3, 1, 1, 300]]))
            elif size == "batch":
                out.append(r.choice([[257, 3], [1030, 1], [70, 2, 3, 2], [129, 7, 1]]))
            elif size == "large":
                out.append(r.choice([[1027], [33, 65], [3, 5, 9, 11], [2, 3, 16, 16], [1999]]))
            else:
                out.append([r.choice([1, 2, 3, 4, 5, 7, 8, 9]) for _ in range(r.choice([1, 2, 2, 3, 4]))])
                while prod(out[-1]) > 300:
                    out[-1] = [max(1, d // 2) for d in out[-1]]
        return out

    def _elem(self, size, nd):
        self.shapes = self._anyshape(size, nd)
        xS, _, gS = self._scales(self.r)
        self.cfg = dict(xS=xS, yS=xS, gS=gS, giS=gS, dxS=gS, ye=True, dxe=True)
        self.nw = self.nb = 0

    def mk_Add(self, size, nd):
        self._elem(size, nd)

    def mk_ReLU(self, size, nd):
        self._elem(size, nd)

    def mk_LeakyReLU(self, size, nd):
        self._elem(size, nd)
        a, as_ = self.r.choice([(1, 2), (3, 2), (1, 0), (5, 1), (0, 0), (1, 6), (-1, 1)])
        self.cfg.update(a=a, **{"as": as_})
        self.cfg["yS"] += as_
        self.cfg["dxS"] += as_

    def mk_ELU(self, size, nd):
        self.shapes = self._anyshape(size, nd)
        a, as_ = self.r.choice([(1, 0), (1, 1), (3, 2), (2, 0), (1, 2)])
        self.cfg = dict(a=a, xS=2, ln=True, yS=16 + as_, gS=0, giS=0, dxS=16 + as_)
        self.cfg["as"] = as_
        self.nw = self.nb = 0

    def mk_Sigmoid(self, size, nd):
        self.shapes = self._anyshape(size, nd)
        self.cfg = dict(xS=2, ln=True, yS=15, gS=0, giS=0, dxS=15)
        self.nw = self.nb = 0

    def mk_Softmax(self, size, nd):
        r = self.r
        self.shapes = [[r.choice([1, 2, 3, 4, 5, 8]), r.choice([1, 2, 3, 4, 5, 7, 8, 10])] if size == "small" else
                       [r.choice([16, 17, 33]), r.choice([10, 16, 31])] if size == "large" else
                       [r.choice([1, 2, 3]), r.choice([100, 129, 257])] if size == "wide" else [r.choice([129, 200]), r.choice([2, 3])] for _ in range(nd)]
        self.cfg = dict(xS=2, ln=True, yS=15, gS=0, giS=0, dxS=12)
        self.nw = self.nb = 0

    def mk_Dropout(self, size, nd):
        r = self.r
        pn, num, den = r.choice([(8, 2, 1), (8, 2, 1), (4, 4, 3), (12, 4, 1), (2, 8, 7), (0, 1, 1), (14, 8, 1)])
        sh = r.choice([[3, 4], [2, 3, 4, 5], [17], [6, 50], [2, 2, 8, 9]]) if size == "small" else \
            r.choice([[64, 65], [8, 8, 8, 9], [5003], [16, 3, 10, 10], [2, 1500], [1200, 2]])
        self.shapes = [sh] * nd
        self.cfg = dict(pn=pn, num=num, den=den, tol=0, p1000=0, p16=pn, xS=0, yS=0, gS=0, giS=0, dxS=0)
        self.nw = self.nb = 0

    def _bn(self, size, nd, two):
        r = self.r
        c = r.choice([1, 2]) if size == "plane" else r.choice([1, 2, 3, 4, 5]) if size != "wide" else r.choice([9, 17, 33, 70])
        shapes = []
        for _ in range(nd):
            if two:
                sh = [r.choice([1, 2, 3, 4]), c, r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 5])]
                if size == "large":
                    sh = [r.choice([4, 6]), c, r.choice([4, 5]), r.choice([3, 4])]
                if size == "wide":
                    sh = [r.choice([2, 4]), c, r.choice([1, 2]), r.choice([1, 2, 3])]
                if size == "plane":
                    sh = [r.choice([1, 2]), min(c, 2), 16, r.choice([16, 20])]
                if size == "batch":
                    sh = [r.choice([34, 66]), c, r.choice([1, 2]), r.choice([1, 2, 3])]
            else:
                sh = [r.choice([2, 4, 6, 8, 16, 1, 3, 5, 7]) if size == "small" else 64 if size == "large" else
                      r.choice([2, 4, 6]) if size == "wide" else r.choice([130, 200]), c]
            shapes.append(sh)
        self.shapes = shapes
        odd = [sh[0] * prod(sh[2:]) for sh in shapes if sh[0] * prod(sh[2:]) % 2]
        eps, dev = r.choice([(0, [1, 2, 3, 5]), (0, [1, 2, 4]), (3, [1]), (7, [3]), (9, [4, 0]), (16, [3, 0]), (5, [2]), (15, [1, 7]),
                             (0, [2, 1])])
        if odd:                   # columns of odd length: values of mean 0 whose mean square plus eps is a square
            self.odd = {}
            eps, dev = (r.choice([1, 4, 9, 16]), None) if 1 in odd else r.choice([(2, None), (0, None), (1, None), (4, None), (7, None), (14, None)])
            if dev is None:
                dev = [d for d in range(8) if d * d + eps and int((d * d + eps) ** .5 + .5) ** 2 == d * d + eps] or [0]
            for rows in set(odd):
                self.odd[rows] = odd_columns(rows, eps)
                if not self.odd[rows]:
                    return self._bn(size, nd, two)
            if 0 in dev and not eps or any(int((d * d + eps) ** .5 + .5) ** 2 != d * d + eps for d in dev):
                return self._bn(size, nd, two)
        al, ald = r.choice([(1, 10), (1, 4), (1, 2), (3, 4), (9, 10), (0, 1), (1, 1)])
        d = eps == 0 and r.random() < .6
        if d:
            al, ald = 1, 10
        self.dev = dev
        self.cfg = dict(eps=eps, al=al, ald=ald, xS=0, wS=0, bS=0, yS=16, gS=0, giS=0, dxS=12, dwS=12, dbS=0)
        self.cfg["def"] = d
        self.nw = self.nb = c

    def mk_BatchNorm1D(self, size, nd):
        self._bn(size, nd, False)

    def mk_BatchNorm2D(self, size, nd):
        self._bn(size, nd, True)

    # ---- data
    def rnd(self, n, lo, hi):
        return [self.r.randint(lo, hi) for _ in range(n)]

    def x(self, d):
        r, sh = self.r, self.shapes[d]
        n = prod(sh)
        k = self.kind
        if k in ("ELU", "Sigmoid", "Softmax"):
            mode = r.choice(["s", "s", "m", "l"])
            rng = {"s": 12, "m": 70, "l": 70}[mode]
            v = self.rnd(n, -rng, rng)
            if mode == "l":
                for _ in range(max(1, n // 4)):
                    v[r.randrange(n)] = r.choice([400, -400, 2000, -2000, 0, 508, -508])
            if k == "Softmax" and r.random() < .4:
                o = r.choice([-4000, 4000, 600, -600])
                v = [a + o for a in v]
            return v
        if k == "MaxPooling":
            m = r.choice(["neg", "ties", "any", "any", "big"])
            lo, hi = {"neg": (-90, -1), "ties": (-1, 1), "any": (-50, 50), "big": (-9000000, 9000000)}[m]
            return self.rnd(n, lo, hi)
        if k == "Dropout":
            return [self.cfg["den"] * r.randint(1, 60) * r.choice([1, -1]) for _ in range(n)]
        if k in BN:
            c = sh[1]
            P = prod(sh[2:])
            rows = sh[0] * P
            cols = []
            for ch in range(c):
                a = r.choice(self.dev)
                m = r.randint(-20, 20)
                col = [m + a] * (rows // 2) + [m - a] * (rows // 2)
                if rows % 8 == 0 and r.random() < .5 and a and a < 5:  # 8 values, sum 0, mean square a^2
                    pat = r.choice([[2, -2, 0, 0, 0, 0, 0, 0], [1, 1, 1, 1, -1, -1, -1, -1], [2, -2, 0, 0, 0, 0, 0, 0]])
                    if pat[0] == 2 and not self.cfg["eps"]:    # squares sum 8 -> mean square 1
                        col = [m + a * q for q in pat] * (rows // 8)
                if rows % 2:
                    col = [m + q for q in r.choice(self.odd[rows])]
                r.shuffle(col)
                cols.append(col)
            v = [0] * n
            for row in range(rows):
                b, p = divmod(row, P)
                for ch in range(c):
                    v[(b * c + ch) * P + p] = cols[ch][row]
            return v
        if k in ("ReLU", "LeakyReLU"):
            v = self.rnd(n, -60000, 60000) if r.random() < .5 else self.rnd(n, -2, 2)
            return v
        if k == "Add":
            return self.rnd(n, -100000, 100000)
        return self.rnd(n, -9, 9)

    def ops(self, op):
        """Concrete operation for an abstract one."""
        k, d = op["op"], op.get("d", 1) - 1
        r = self.r
        if k == "setp":
            b = [{"op": "setp", "w": self.rnd(self.nw, -4, 5), "b": self.rnd(self.nb, -50, 50)}]
            if self.kind in BN:
                b[0]["b"] = self.rnd(self.nb, -9, 9)
                b[0]["w"] = [r.choice([-2, -1, 1, 2, 3, 1]) for _ in range(self.nw)]
                sq = [(q * q - self.cfg["eps"]) for q in (2, 3, 4, 5, 6, 7) if q * q >= self.cfg["eps"]]
                b.append({"op": "setb", "rm": [65536 * v for v in self.rnd(self.nb, -15, 15)],
                          "rv": [65536 * r.choice(sq) for _ in range(self.nb)]})
            return b
        if k == "fwd":
            self.last = d
            x = self.x(d)
            self.al = self.kind == "Add" and r.random() < .3
            return [{"op": "fwd", "sh": self.shapes[d], "x": x, "al": self.al,
                     "x2": [] if self.kind != "Add" else x if self.al else self.rnd(len(x), -90000, 90000)}]
        if k == "bwd":
            sh = self.shapes[self.last]
            n = prod(sh)
            m = {"ReLU": 9000, "MaxPooling": 9000, "Add": 9000, "LeakyReLU": 900, "Linear": 6, "Convolution": 6,
                 "GlobalAvgPooling": 60}.get(self.kind, 3)
            g = self.rnd(prod(out_shape(self.cfg, sh)), -m, m)
            if self.kind == "Dropout":
                g = [self.cfg["den"] * r.choice([-9, -5, -2, -1, 1, 3, 4, 6]) for _ in g]
            z = self.r.random() < .35
            gi = [0] * n if z else self.rnd(n, -3, 3)
            gi2 = [] if self.kind != "Add" else gi if self.al else self.rnd(n, -3, 3)
            return [{"op": "bwd", "g": g, "gi": gi, "gi2": gi2}]
        if k == "mode":
            return [{"op": "mode", "t": op["t"]}]
        raise MachineryError(k)


def concretise(sid, life, kinds, r, size="small", threads=2, twins=False):
    inst = [Inst(k, r, size) for k in kinds]
    if twins:                                   # equally configured instances: what they share by mistake shows up
        for k in range(1, len(inst)):
            first = next(j for j in range(len(inst)) if kinds[j] == kinds[k])
            if first < k:
                inst[k] = copy.copy(inst[first])
    ops = []
    for op in life["ops"]:
        if op["i"] > len(inst):
            continue
        for c in inst[op["i"] - 1].ops(op):
            c["i"] = op["i"]
            ops.append(c)
    return {"m": "layer", "id": sid, "inst": [i.cfg for i in inst], "ops": ops, "threads": threads}


MODAL = BN + ("Dropout",)
PLAIN = ["Linear", "Convolution", "MaxPooling", "GlobalAvgPooling", "ReLU", "LeakyReLU", "ELU", "Sigmoid", "Softmax", "Add"]


def lives(work, n, ninst, length, seed):
    cfg = ("SPECIFICATION Spec\nCONSTANTS Inst = {%s}\n MaxLen = %d\n NData = 3\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n"
           % (", ".join(map(str, range(1, ninst + 1))), length))
    return generate("MC_Life", cfg, work, n, length + 3, seed)


def life_modal(life):
    m = life["modal"]
    return [m[k] for k in range(len(m))] if isinstance(m, list) else [m[k] for k in sorted(m)]


def life_design(v, work):
    cfg = ("SPECIFICATION Spec\nCONSTANTS Inst = {1, 2}\n MaxLen = %d\n NData = 1\nINVARIANT BwdAfterFwd\nCHECK_DEADLOCK FALSE\n"
           % (6 if v.tier == "quick" else 8))
    return ("MC_Life", model_check("MC_Life", cfg, work, workers=2))


def design(v, work, kinds, steps):
    cfg = ("SPECIFICATION Spec\nCONSTANTS KindSet = {%s}\n MaxSteps = %d\nINVARIANTS Adjoint Ranges\nPROPERTY Isolated\n"
           "CHECK_DEADLOCK FALSE\n" % (", ".join('"%s"' % k for k in kinds), steps))
    return ("MC_Layer", model_check("MC_Layer", cfg, work, workers=4))


REJ = {
    "Linear": [("fwd", [4], [4])],
    "Softmax": [("fwd", [2, 3, 4], [2, 3, 4]), ("fwd", [6], [6])],
    "BatchNorm1D": [("fwd", [2, 3, 4], [2, 3, 4])],
    "BatchNorm2D": [("fwd", [4, 3], [4, 3])],
    "ReLU": [("fwd", [2, 3], [2, 4])], "LeakyReLU": [("fwd", [2, 3], [2, 4])], "ELU": [("fwd", [2, 3], [6])],
    "Sigmoid": [("fwd", [2, 3], [3, 3])], "Dropout": [("fwd", [2, 3], [3, 3])],
}


def run_kinds(kinds, mc_steps=3, n_quick=130, n_thorough=700, n_large=6, ninst=2, length=10, mc_kinds=None, twins=True):
    def run(v, work):
        quick = v.tier == "quick"
        n = n_quick if quick else n_thorough
        r = random.Random(v.seed * 1000003 + len(kinds) * 17 + sum(map(ord, kinds[0])))
        jobs = par(lambda: (build("m_layer", False), build("m_layer", False, TSAN)),
                   lambda: design(v, work, mc_kinds or kinds, mc_steps if quick else mc_steps + 1),
                   lambda: life_design(v, work),
                   lambda: lives(work, n, ninst, length, v.seed),
                   lambda: lives(work, max(4, n // 8), ninst, length + 16, v.seed + 100))
        (exe, texe), mcs, lv, lv2 = jobs[0], jobs[1:3], jobs[3], jobs[4]
        for name, (s, t) in mcs:
            v.states += s
            v.trans += t
            v.parts.append({"design": name, "states": s})
        scs = []
        for k, life in enumerate(lv + lv2):
            modal = life_modal(life)
            ks = []
            for m in modal:
                pool = [x for x in kinds if (x in MODAL) == m] or kinds
                ks.append(pool[k % len(pool)] if r.random() < .7 else r.choice(pool))
            # a history written for a mode-less layer never switches; one for a modal layer is fine for any layer
            if any(x in MODAL and not m for x, m in zip(ks, modal)):
                life = dict(life)
            if twins and k % 3 == 0:
                ks = [ks[0]] * len(ks)
            scs.append(concretise("g%d" % k, life, ks, r, threads=r.choice([1, 2, 4]), twins=twins and k % 2 == 0))
        big = {"ops": [dict(op="setp", i=1, d=1), dict(op="fwd", i=1, d=1), dict(op="bwd", i=1, d=1),
                       dict(op="fwd", i=1, d=2), dict(op="bwd", i=1, d=2), dict(op="bwd", i=1, d=3)]}
        for k in range(n_large if quick else n_large * 8):
            scs.append(concretise("L%d" % k, big, [kinds[k % len(kinds)]], r, "large", threads=[4, 1, 3, 8][k % 4]))
        for k, kind in enumerate([x for x in kinds if x in ("Convolution", "MaxPooling", "GlobalAvgPooling", "BatchNorm2D")] * (2 if quick else 8)):
            scs.append(concretise("plane%d" % k, {"ops": big["ops"][:5]}, [kind], r, "plane", threads=[2, 1, 4, 8][k % 4]))
        # long lives: dozens of passes over a few shapes
        for k, kind in enumerate(kinds * (1 if quick else 3)):
            ops = [dict(op="setp", i=1, d=1)]
            for n_ in range(70 if len(kinds) < 5 else 30):
                ops.append(dict(op="fwd", i=1, d=r.choice([1, 1, 1, 2, 3])))
                if r.random() < .6:
                    ops.append(dict(op="bwd", i=1, d=1))
            scs.append(concretise("V%d" % k, {"ops": ops}, [kind], r))
        for size in ("wide", "batch"):          # many channels or features; many samples
            for k, kind in enumerate(kinds * (1 if quick else 6)):
                scs.append(concretise("%s%d" % (size, k), {"ops": big["ops"][:5]}, [kind], r, size, threads=[2, 1, 4, 8][k % 4]))
        if twins:
            # every interleaving of forward/backward of two equally configured instances, with equal and changing shapes
            for k, kind in enumerate(kinds):
                for same in (True, False):
                    ops = [dict(op="setp", i=1, d=1), dict(op="setp", i=2, d=1)]
                    for n_, pos in enumerate(itertools.combinations(range(4), 2)):
                        q = {1: ["fwd", "bwd"], 2: ["fwd", "bwd"]}
                        for j in range(4):
                            i = 1 if j in pos else 2
                            ops.append(dict(op=q[i].pop(0), i=i, d=1 if same else 1 + (n_ + i) % 3))
                    scs.append(concretise("T%d%s" % (k, "s" if same else "d"), {"ops": ops}, [kind, kind], r, threads=r.choice([1, 2, 4]), twins=True))
        if "Dropout" in kinds:
            for k in range(3 if quick else 12):
                ops = [dict(op="setp", i=1, d=1)] + [dict(op="fwd", i=1, d=1), dict(op="bwd", i=1, d=1)] * 3
                scs.append(concretise("M%d" % k, {"ops": ops}, ["Dropout"], r, "large"))
        for k, kind in enumerate(kinds):
            ops = []
            i = Inst(kind, r)
            for how, sh, osh in REJ.get(kind, []):
                ops.append({"op": "rej", "i": 1, "how": how, "sh": sh, "osh": osh})
            if kind in BN:
                ops.append({"op": "rej", "i": 1, "how": "half", "sh": i.shapes[0], "osh": i.shapes[0]})
            if kind in ("Convolution", "MaxPooling"):
                ops.append({"op": "rej", "i": 1, "how": "bwd", "sh": i.shapes[0], "osh": out_shape(i.cfg, i.shapes[0])})
            for a in (dict(op="setp", i=1, d=1), dict(op="fwd", i=1, d=1), dict(op="bwd", i=1, d=1)):
                for c in i.ops(a):
                    c["i"] = 1
                    ops.append(c)
            scs.append({"m": "layer", "id": "rej%d" % k, "inst": [i.cfg], "ops": ops, "threads": 1})
        log("scenarios", len(scs))
        res = run_driver(exe, scs, work)
        # the teams of threads inside one call, seen by ThreadSanitizer
        team = [dict(sc, id="team" + sc["id"], threads=2 + k % 3) for k, sc in enumerate(scs) if sc["id"][0] in "LTwb" or k < 12]
        tres = run_driver(texe, team, work)
        log("driven")
        validate(v, "layer", "Tr_Layer", exe, scs, res, work)
        if not v.violations:
            validate(v, "teams", "Tr_Layer", texe, team, tres, work)
        v.parts.append({"trace": "Tr_Layer", "part": "teams of threads under ThreadSanitizer", "histories": len(team)})
        v.parts.append({"trace": "Tr_Layer", "kinds": kinds, "histories": len(scs)})
        s = scs[0]
        v.samples.append({"scenario": s["id"], "inst": s["inst"], "calls": [o["op"] for o in s["ops"]]})
        v.assumptions.append("inputs are fixed-point values for which float32 arithmetic is exact, or outputs are compared "
                             "within the tolerance LayerSpec states")
    return run


c03 = run_kinds(["ReLU", "LeakyReLU", "ELU", "Sigmoid"], n_quick=150)
c04 = run_kinds(["Linear"])
c05 = run_kinds(["Softmax"])
c06 = run_kinds(["Convolution"], mc_steps=2, n_quick=100)
c07 = run_kinds(["MaxPooling"])
c08 = run_kinds(["GlobalAvgPooling", "Add"])
c09 = run_kinds(["BatchNorm1D", "BatchNorm2D"], n_quick=160)
c10 = run_kinds(["Dropout"])
c11 = run_kinds(PLAIN + list(MODAL), mc_steps=2, n_quick=110, ninst=3, length=18, n_large=13, mc_kinds=["Linear", "MaxPooling", "BatchNorm1D", "Dropout"])

RULE = ("call histories of MC_Life (set parameters, switch mode, forward, backward over two interleaved instances and "
        "several input shapes) generated by TLC simulation, given concrete fixed-point tensors, executed on the real "
        "layers; every returned tensor is matched element by element by LayerSpec")
