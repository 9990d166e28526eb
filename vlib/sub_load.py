"""Loads saved models in a process of its own and prints their answers."""
import json
import logging
import sys
import warnings


def main():
    warnings.filterwarnings('ignore')
    logging.disable(logging.CRITICAL)
    so, sys.stdout = sys.stdout, sys.stderr
    from DRecPy.Recommender.recommender_abc import RecommenderABC
    from vlib.reprolib import model_answers, num
    out = []
    with open(sys.argv[1]) as f: jobs = json.load(f)
    for path, users, items in jobs:
        model = RecommenderABC.load(path)
        out.append([model_answers(model, users, items), [[num(model.predict(u, i, skip_errors=True)) for i in items] for u in users]])
    so.write(json.dumps(out))


if __name__ == '__main__':
    main()
