"""Definitions of the metrics, written from their textbook formulas. Undefined values raise ZeroDivisionError.
An item that is recommended twice counts as found once, and takes two places of the list."""
import math


def dcg(recs, rel, k=None, strong=True):
    out = []
    for pos, item in enumerate(recs if k is None else recs[:k], start=1):
        gain = (2.0 ** rel[item] - 1.0) if strong else float(rel[item])
        out.append(gain / math.log2(pos + 1))
    return math.fsum(out)


def ndcg(recs, rel, k=None, strong=True):
    ideal = sorted(rel, key=lambda i: rel[i], reverse=True)
    return dcg(recs, rel, k, strong) / dcg(ideal, rel, k, strong)


def top(recs, k):
    return list(recs) if k is None else list(recs)[:k]


def hits(recs, relevant, k):
    return set(top(recs, k)) & set(relevant)


def recall(recs, relevant, k=None):
    return len(hits(recs, relevant, k)) / len(set(relevant))


hit_ratio = recall


def precision(recs, relevant, k=None):
    return len(hits(recs, relevant, k)) / len(top(recs, k))


def fscore(recs, relevant, k=None, beta=1):
    p, r = precision(recs, relevant, k), recall(recs, relevant, k)
    return 0.0 if p == 0 and r == 0 else (1 + beta ** 2) * p * r / (beta ** 2 * p + r)


def reciprocal_rank(recs, best, k=None):
    for pos, item in enumerate(top(recs, k), start=1):
        if item == best: return 1.0 / pos
    return 0.0


def average_precision(recs, relevant, k=None):
    found, total = 0, []
    left = set(relevant)
    for pos, item in enumerate(top(recs, k), start=1):
        if item in left:  # an item that is listed again is not found again
            left.remove(item)
            found += 1
            total.append(found / pos)
    n = len(set(relevant))
    return math.fsum(total) / (n if k is None else min(n, k))


def mse(t, p): return math.fsum((a - b) ** 2 for a, b in zip(t, p)) / len(t)
def mae(t, p): return math.fsum(abs(a - b) for a, b in zip(t, p)) / len(t)
def rmse(t, p): return math.sqrt(mse(t, p))
