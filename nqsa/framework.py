"""Running rules, reporting findings, evidence files."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from .loader import AnalysisBroken, Repo

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


class Finding:
    """A construct that breaks a property. key must survive edits elsewhere in the file."""

    def __init__(self, rule, where, construct, message, loc=None):
        self.rule, self.where, self.construct, self.message, self.loc = rule, where, construct, message, loc

    @property
    def key(self):
        return f"{self.rule} @ {self.where} :: {self.construct}"

    def as_dict(self):
        return {"rule": self.rule, "where": self.where, "construct": self.construct, "message": self.message, "loc": self.loc, "key": self.key}


class Report:
    def __init__(self):
        self.findings = []
        self.counts = {}
        self.unknown = []
        self.samples = []
        self.rules = []
        self.data = []  # facts collected per puzzle type for a later step

    def add(self, *a, **k):
        self.findings.append(Finding(*a, **k))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def merge(self, o):
        self.findings += o.findings
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.unknown += o.unknown
        self.data += o.data
        for s in o.samples:
            self.sample(s)


# ------------------------------------------------------------------ solver pool
_REPO = None
_FN = None


def _init(root, fn):
    global _REPO, _FN
    _REPO = Repo(root)
    _FN = fn


def _job(i):
    mod, cls = _REPO.solver_classes()[i]
    rep = Report()
    name = mod.split(".")[-1]
    try:
        from .solve import run_solver
        res = run_solver(_REPO, mod, cls)
        for n in res.notes:
            if str(n[0]).startswith("opaque"):
                rep.count("functions treated as opaque")
        _FN(_REPO, res, rep)
        rep.count("solvers analysed")
    except Exception as e:  # unknown => silent, counted
        rep.unknown.append(f"{name}: {type(e).__name__}: {str(e)[:200]}")
        if os.environ.get("NQSA_DEBUG"):
            traceback.print_exc()
    return rep


def per_solver(repo, fn, report, max_unknown=0.2):
    """Run fn(repo, result, report) on every solver class; unanalysable solvers stay silent but are counted."""
    n = len(repo.solver_classes())
    if n == 0:
        raise AnalysisBroken("no solver classes found")
    only = os.environ.get("NQSA_ONLY")
    idx = [i for i, (m, _) in enumerate(repo.solver_classes()) if not only or m.split(".")[-1] in only.split(",")]
    procs = int(os.environ.get("NQSA_PROCS", "8"))
    before = len(report.unknown)
    if procs > 1 and len(idx) > 2:
        ctx = mp.get_context("fork")
        with ctx.Pool(procs, _init, (repo.root, fn)) as pool:
            for rep in pool.imap(_job, idx, chunksize=2):
                report.merge(rep)
    else:
        _init(repo.root, fn)
        for i in idx:
            report.merge(_job(i))
    bad = len(report.unknown) - before
    if bad > max_unknown * len(idx) + 1:
        raise AnalysisBroken(f"{bad} of {len(idx)} solvers could not be analysed: {report.unknown[:3]}")


# ------------------------------------------------------------------ known findings
def load_known():
    """known_findings.txt: 'finding: property=<id> key=<key> | <description>' and 'fixed: ...' lines."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    body = line[len("finding:"):].strip()
                    head, _, desc = body.partition(" | ")
                    prop, _, key = head.partition(" key=")
                    out[(prop.replace("property=", "").strip(), key.strip())] = desc.strip()
    return out


def main(pid, fn, explanation, rules, argv):
    t0 = time.time()
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    report = Report()
    err = None
    try:
        repo = Repo()
        fn(repo, report, tier)
    except AnalysisBroken as e:
        err = str(e)
    known = load_known()
    viol, kn = [], []
    seen = set()
    for f in report.findings:
        if f.key in seen:
            continue
        seen.add(f.key)
        (kn if (pid, f.key) in known else viol).append(f)
    cov = {
        "explanation": explanation,
        "rules": rules,
        "counts": report.counts,
        "not_decided": report.unknown[:60],
        "not_decided_count": len(report.unknown),
        "samples": report.samples,
        "known_findings_seen": [f.key for f in kn],
        "violations": [f.as_dict() for f in viol],
    }
    if err:
        cov["error"] = err
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": ["CPython semantics of the analysed language subset", "clingo 5.x input language"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in kn:
        print(f"KNOWN-FINDING: property={pid} {k.key} | {known[(pid, k.key)]}")
    if err and viol:
        print(f"NOTE property={pid}: part of the analysis could not be carried out: {err}")
    if viol:
        path = os.path.join(HERE, "evidence", f"{pid}.violations.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump([v.as_dict() for v in viol], f, indent=1, default=str)
        for v in viol[:40]:
            loc = f" ({v.loc[0]}:{v.loc[1]})" if v.loc else ""
            print(f"  {v.key}{loc}\n      {v.message}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if err:
        print(f"ERROR property={pid}: analysis could not be carried out: {err}")
        return 3
    print(f"OK property={pid} {report.counts} undecided={len(report.unknown)} ({time.time() - t0:.1f}s)")
    return 0
