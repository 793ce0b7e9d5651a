"""Driving helpers for the perspective checks (no judgement here)."""
import numpy as np
from vp import fx

S = 2 ** 24


def norm_c(c, R):
    """8 coefficients -> normalised fixed point"""
    c = np.asarray(c, dtype=np.float64).ravel()
    sc = [1, 1, 1 / R, 1, 1, 1 / R, R, R]
    return [fx(float(v) * sc[i] if i < 8 else v, S) for i, v in enumerate(c)]


def real_c(ci, R):
    """normalised fixed point -> floats"""
    sc = [1, 1, 1 / R, 1, 1, 1 / R, R, R]
    return [v / S / sc[i] for i, v in enumerate(ci)]


def proj(c, p):
    p = np.asarray(p, dtype=np.float64)
    y, x = p[..., 0], p[..., 1]
    d = c[6] * x + c[7] * y + 1
    return np.stack([(c[3] * x + c[4] * y + c[5]) / d, (c[0] * x + c[1] * y + c[2]) / d], axis=-1)


def rand_c(rng, R, strong=1.0):
    """normalised fixed-point coefficients of a moderate perspective map"""
    a = rng.uniform(-0.2, 0.2) * strong
    sy, sx = rng.uniform(0.8, 1.25), rng.uniform(0.8, 1.25)
    f = lambda v: int(round(v * S))
    return [f(sx * np.cos(a)), f(-sy * np.sin(a) + rng.uniform(-.05, .05)), f(rng.uniform(-.2, .2)),
            f(sx * np.sin(a)), f(sy * np.cos(a)), f(rng.uniform(-.2, .2)),
            f(rng.uniform(-.25, .25) * strong), f(rng.uniform(-.25, .25) * strong)]


def pts(a, R):
    """float (y,x) -> fixed"""
    u = S / R
    return [[fx(y, u), fx(x, u)] for y, x in np.asarray(a, dtype=np.float64)]


def unpts(a, R):
    return np.asarray(a, dtype=np.float64) * R / S
