"""Comparison of observations."""
import torch


def diff(a, b, keys=None):
    """Largest relative difference over all tensors, and where. NaN counts as infinite."""
    worst, where = 0.0, None
    for k in (keys or b.keys()):
        if k not in a or k not in b:
            continue
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return float("inf"), f"{k}: shape {tuple(x.shape)} vs {tuple(y.shape)}"
        if x.numel() == 0:
            continue
        s = float(y.abs().max()) + 0.1
        d = float((x - y).abs().max()) / s
        if d != d:
            if bool(torch.isnan(y).any()) or bool(torch.isinf(y).any()):
                continue
            d = float("inf")
        if d > worst:
            worst, where = d, k
    return worst, where


def sane(o, limit=1e3):
    """Not exploding."""
    for v in o.values():
        if v.numel() and not float(v.abs().max()) < limit:
            return False
    return True
