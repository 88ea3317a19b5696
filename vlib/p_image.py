"""C26 image reading."""
import random
from .core import *
from .p_misc import prod

NAMES = ["a.png", "b.png", "c.jpg", "d.jpeg", "e.bmp", "f", "g.png.jpg", "h.jpg.png", "i.png.bak", "j.v2.jpeg", "k.jpg.old"]


def fmt(f):
    return "png" if f.endswith(".png") else "jpg" if f.endswith((".jpg", ".jpeg")) else "none"


DEPTHS = {0: [1, 2, 4, 8, 16], 2: [8, 16], 3: [1, 2, 4, 8], 4: [8, 16], 6: [8, 16]}
CH = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}
OUT = {0: 1, 2: 3, 3: 3, 4: 2, 6: 4}


class Files:
    """concretises a history: pixel data, sizes, damage positions, tensor shapes"""

    def __init__(self, r, dim):
        self.r, self.dim, self.ops, self.F, self.keep = r, dim, [], {}, None

    def size(self, o):
        return (o["h"], o["w"]) if self.r.random() < .4 else (self.r.randint(1, self.dim), self.r.randint(1, self.dim))

    def png(self, f, h, w, ct, d=None):
        r = self.r
        d = d or r.choice(DEPTHS[ct])
        top = (1 << d) - 1
        pal = []
        if ct == 3:
            n = 1 << d
            n = r.randint(1, n)
            pal = [r.randint(0, 255) for _ in range(3 * n)]
            top = n - 1
        mode = r.random()
        v = [r.randint(0, top) if mode < .7 else r.choice([0, top]) if mode < .9 else (i % (top + 1)) for i in range(h * w * CH[ct])]
        self.F[f] = ("png", (h, w, OUT[ct]))
        self.ops.append({"op": "png", "f": f, "h": h, "w": w, "ct": ct, "d": d, "il": r.randrange(2), "v": v, "pal": pal})

    def jpg(self, f, h, w, c):
        r = self.r
        v = [r.randint(0, 255) for _ in range(h * w * c)]
        self.F[f] = ("jpg", (h, w, c))
        self.ops.append({"op": "jpg", "f": f, "h": h, "w": w, "c": c, "q": r.choice([100, 75, 30]), "prog": r.randrange(2), "v": v})

    def read(self, f, t):
        r = self.r
        o = {"op": "read", "f": f, "fmt": fmt(f), "t": t, "sh": [1], "cut": r.random() < .3}
        dims = self.F.get(f, (None, (2, 3, 1)))[1] or (2, 3, 1)
        h, w, c = dims
        if t == "badalloc":
            o["t"] = "alloc"
            o["sh"] = r.choice([[h, w, c + 1], [h + 1, w, c], [h * w * c + 1], [1], [h, w, c, 2]])
            if prod(o["sh"]) == h * w * c:
                o["sh"] = [h * w * c + 3]
        elif t in ("alloc", "view"):
            o["sh"] = r.choice([[h, w, c], [h * w * c], [1, h, w, c], [c, h, w], [w, h, c], [h, w * c]])
        self.ops.append(o)

    def take(self, o):
        k, f, r = o["op"], o["f"], self.r
        if k == "png":
            h, w = self.size(o)
            self.png(f, h, w, o["ct"])
        elif k == "jpg":
            h, w = self.size(o)
            self.jpg(f, h, w, o["c"])
        elif k == "text":
            self.F[f] = ("other", None)
            self.ops.append({"op": k, "f": f, "n": r.choice([0, 1, 7, 8, 9, 100])})
        elif k in ("trunc", "flip"):
            if r.random() < .5 and k == "trunc":
                at = r.randint(0, 60)
            else:
                at = r.randint(0, 4000)
            self.ops.append({"op": k, "f": f, "at": at, "bit": r.randrange(8)})
        elif k == "rm":
            self.F.pop(f, None)
            self.ops.append({"op": k, "f": f})
        elif k == "copy":
            self.F[o["g"]] = self.F.get(f, ("other", None))
            self.ops.append({"op": k, "f": f, "g": o["g"]})
        elif k == "read":
            self.read(f, o["t"])


def scenario(sid, hist, r, dim=6):
    x = Files(r, dim)
    for o in hist:
        x.take(o)
    return {"m": "image", "id": sid, "ops": x.ops}


def c26(v, work):
    quick = v.tier == "quick"
    r = random.Random(v.seed * 29)
    names = ", ".join('"%s"' % n for n in NAMES)
    base = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n Names = {%s}\n Sizes = {%s}\nCHECK_DEADLOCK FALSE\n"
    exe, (s, t), seqs = par(
        lambda: build("m_image", False),
        lambda: model_check("MC_Image", base % (3 if quick else 4, '"a.png", "c.jpg", "e.bmp"', "1, 2" if quick else "1, 2") + "VIEW View\nINVARIANTS Bytes Dense\nPROPERTY ReadFrame\n", work, workers=4),
        lambda: generate("MC_Image", base % (30, names, "1, 2, 3") + "INVARIANT Emit\n", work, 150 if quick else 1500, 33, v.seed))
    v.states += s
    v.trans += t
    v.parts.append({"design": "MC_Image", "states": s})
    scs = [scenario("g%d" % i, h, r) for i, h in enumerate(seqs)]
    # every colour type, depth and interlacing, every way of reading
    for ct in DEPTHS:
        for d in DEPTHS[ct]:
            x = Files(r, 9)
            for k in range(2 if quick else 10):
                h, w = r.randint(1, 13), r.randint(1, 13)
                x.png("a.png", h, w, ct, d)
                for t in ("ret", "empty", "alloc", "view", "reuse", "badalloc"):
                    x.read("a.png", t)
            scs.append({"m": "image", "id": "ct%dd%d" % (ct, d), "ops": x.ops})
    x = Files(r, 9)
    for k in range(6 if quick else 40):
        x.jpg("a.jpg", r.randint(1, 33), r.randint(1, 33), r.choice([1, 3]))
        for t in ("ret", "alloc", "view", "reuse", "badalloc"):
            x.read("a.jpg", t)
    x.ops.append({"op": "dir", "f": "d.png"})
    x.ops.append({"op": "dir", "f": "d.jpg"})
    x.read("d.png", "ret")
    x.read("d.jpg", "ret")
    x.read("nowhere/x.png", "ret")
    x.read("nowhere/x.jpg", "empty")
    scs.append({"m": "image", "id": "jpeg", "ops": x.ops})
    # long rows, many rows
    big = [(2, 400), (300, 3), (40, 70), (1, 1100), (130, 1)]
    for i, (h, w) in enumerate(big if quick else big * 4):
        x = Files(r, 9)
        ct = [2, 0, 6, 4, 3][(i + i // 5) % 5]
        x.png("a.png", h, w, ct)
        x.jpg("b.jpg", h, w, [3, 1][i % 2])
        for f, t in (("a.png", "ret"), ("a.png", "alloc"), ("b.jpg", "empty"), ("b.jpg", "view")):
            x.read(f, t)
        scs.append({"m": "image", "id": "big%d" % i, "ops": x.ops})
    # truncation at every byte of small files
    for f in ("a.png", "a.jpg"):
        for part in range(4):
            x = Files(r, 4)
            for at in range(part, 160 if f == "a.png" else 330, 4):
                if f == "a.png":
                    x.png("a.png", 3, 4, 2, 8)
                else:
                    x.jpg("a.jpg", 3, 4, 3)
                x.ops.append({"op": "trunc", "f": f, "at": at, "bit": 0})
                x.read(f, "ret")
                x.read(f, "alloc")
            scs.append({"m": "image", "id": "tr%s%d" % (f, part), "ops": x.ops})
    res = run_driver(exe, scs, work)
    validate(v, "image", "Tr_Image", exe, scs, res, work)
    v.parts.append({"trace": "Tr_Image", "histories": len(scs), "reads": sum(1 for s in scs for o in s["ops"] if o["op"] == "read")})
    v.samples.append({"scenario": scs[0]["id"], "calls": [[o["op"], o["f"]] for o in scs[0]["ops"][:12]]})
    v.assumptions.append("libpng and libjpeg encode the test images correctly; JPEG decoding is compared with libjpeg's default decoding of the same file")


RULE = ("histories of writing, damaging, copying, removing and reading image files generated by TLC from ImageSpec, plus every PNG "
        "colour type/depth and truncation at every byte of small files; every read's outcome, shape and elements are matched")
