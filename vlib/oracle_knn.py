"""Similarities between sparse rows and neighbour-based predictions, written from their definitions with exact sums."""
import math

fs = math.fsum


def cosine(a, b, ctx=None):
    num = fs(a[c] * b[c] for c in a if c in b)
    den = math.sqrt(fs(v * v for v in a.values())) * math.sqrt(fs(v * v for v in b.values()))
    return num / den if den else 0.0


def cosine_cf(a, b, ctx=None):
    common = [c for c in a if c in b]
    num = fs(a[c] * b[c] for c in common)
    den = math.sqrt(fs(a[c] ** 2 for c in common)) * math.sqrt(fs(b[c] ** 2 for c in common))
    return num / den if den else 0.0


def center(a):
    m = fs(a.values()) / len(a) if a else 0
    return {c: v - m for c, v in a.items()}


def adjusted_cosine(a, b, ctx=None):
    return cosine(center(a), center(b))


def jaccard(a, b, ctx=None):
    union = len(set(a) | set(b))
    return len(set(a) & set(b)) / union if union else 0.0


def pearson(a, b, ctx=None):
    common = [c for c in a if c in b]
    return cosine(center({c: a[c] for c in common}), center({c: b[c] for c in common})) if common else 0.0


def msd(a, b, ctx):
    """ctx: the span of the values of the whole matrix (missing values count as 0)."""
    common = [c for c in a if c in b]
    if not common: return 0.0
    return 1 - fs(((a[c] - b[c]) / (ctx or 1)) ** 2 for c in common) / len(common)


SIMS = {'cosine': cosine, 'cosine_cf': cosine_cf, 'adjusted_cosine': adjusted_cosine, 'jaccard': jaccard, 'pearson': pearson, 'msd': msd}


def span(rows, n_cols):
    vals = [v for r in rows for v in r.values()]
    if any(len(r) < n_cols for r in rows): vals.append(0)
    return max(vals) - min(vals)


def mean(xs, ss): return fs(xs) / len(xs) if xs else None


def weighted_mean(xs, ss):
    return fs(x * s for x, s in zip(xs, ss)) / fs(ss) if ss and fs(ss) > 0 else None
