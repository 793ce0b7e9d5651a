"""C28: live correction of a camera, with a stand-in camera and screen."""
import numpy as np
import cv2
from vp import call
import discorpy.util.utility as util

ID = "C28"
MC = [("MC_Video", "MC_Video.cfg")]
TRACE = ("T_Video", "T.cfg")
ASSUMPTIONS = ["Camera, window and keyboard are stand-ins; the correction of one frame is that of unwarp_image_backward_cv2 (judged by C03)."]


def scenarios(ctx, model):
    rng = ctx.rng
    ms = model["MC_Video"]
    rng.shuffle(ms)
    out = []
    for m in ms[:ctx.pick(200, len(ms))]:
        out.append(dict(reads=[int(v) for v in m["reads"]], esc=m["esc"]))
    for n in range(ctx.pick(60, 400)):
        out.append(dict(reads=[int(rng.random() < rng.choice([.2, .7, 1])) for _ in range(rng.randint(2, 15))], esc=rng.randint(1, 12)))
    for s in out:
        h, w = rng.randint(6, 30), rng.randint(6, 30)
        s.update(h=h, w=w, nc=rng.choice([0, 3, 3]), pad=rng.choice([True, True, None, False, 0, 2, [1, 2, 0, 3], [0, 0, 4, 1], [rng.randint(0, 5) for _ in range(4)], [rng.choice([0, 5, 9]) for _ in range(4)]]), pm=rng.choice([None, None, "edge", "reflect", "symmetric", "wrap"]),
                 xc=w / 2 + rng.randint(-2, 2), yc=h / 2 + rng.randint(-2, 2), k=rng.choice([[1.0], [1.0, -2e-3], [1.0, 0, 1e-4], [1.05, -4e-3]]), meth=rng.choice([None, None, "INTER_NEAREST", "INTER_CUBIC"]), bord=rng.choice([None, None, "BORDER_REPLICATE", "BORDER_REFLECT", "BORDER_WRAP"]), dt=rng.choice(["uint8", "uint8", "uint16", "float32"]), key=rng.choice([-1, -1, 13, 255, 59, 91, 0, 26, 28]), stale=rng.randrange(2), tup=rng.randrange(2))
    return out


class Camera:
    def __init__(self, s, log):
        self.s, self.log, self.i = s, log, 0
        # after the scripted reads the camera keeps delivering, so that every session can end
        self.reads = [(i + 1) * v for i, v in enumerate(s["reads"])] + list(range(len(s["reads"]) + 1, len(s["reads"]) + s["esc"] + 2))

    def frame(self, i):
        s = self.s
        g = np.random.default_rng(i)
        return g.integers(0, 256, (s["h"], s["w"]) + ((s["nc"],) if s["nc"] else ())).astype(np.uint8).astype(s["dt"]) * (1 if s["dt"] == "uint8" else 3)

    def get(self, what):
        return float({cv2.CAP_PROP_FRAME_WIDTH: self.s["w"], cv2.CAP_PROP_FRAME_HEIGHT: self.s["h"]}.get(what, 0))

    def read(self):
        v = self.reads[self.i]
        self.i += 1
        self.log.append(["read", v])
        return (True, self.frame(v)) if v else (False, self.frame(999) if self.s["stale"] else None)

    def release(self):
        self.log.append(["release", 0])

    def isOpened(self):
        return True


def execute(s):
    log = []
    cam = Camera(s, log)
    keys = [s["key"]] * (s["esc"] - 1) + [27]
    keys += [27] * 30
    pad = s["pad"]
    if isinstance(pad, list) and s["tup"]:
        pad = tuple(pad)
    kw = {} if pad is None else dict(pad=pad)
    if s["pm"]:
        kw["pad_mode"] = s["pm"]
    if s["meth"]:
        kw["method"] = getattr(cv2, s["meth"])
    if s["bord"]:
        kw["border"] = getattr(cv2, s["bord"])
    want = {}
    for v in cam.reads:
        if v:
            o, r = call(util.unwarp_image_backward_cv2, cam.frame(v), s["xc"], s["yc"], s["k"], **dict(dict(pad=True), **kw))
            want[v] = r if o == "ok" else None
    used = [0]

    def imshow(name, mat):
        ids = [v for v in want if want[v] is not None and np.array_equal(np.asarray(mat), want[v])]
        log.append(["show", ids[0] if ids else -1])

    def wait(*a):
        k = keys[used[0]]
        used[0] += 1
        log.append(["key", k])
        return k
    old = cv2.imshow, cv2.waitKey, cv2.destroyAllWindows, cv2.destroyWindow
    cv2.imshow, cv2.waitKey = imshow, wait
    cv2.destroyAllWindows = lambda: log.append(["close", 0])
    cv2.destroyWindow = lambda *a: log.append(["close", 0])
    try:
        out, _ = call(util.unwarp_video_cv2, cam, s["xc"], s["yc"], s["k"], limit=30, **kw)
    finally:
        cv2.imshow, cv2.waitKey, cv2.destroyAllWindows, cv2.destroyWindow = old
    return dict(out=out, reads=cam.reads, keys=keys, log=log)


def corrupt(e):
    if e["out"] != "ok" or len(e["log"]) < 4:
        return None
    return dict(e, log=e["log"][:-2] + e["log"][-1:])
