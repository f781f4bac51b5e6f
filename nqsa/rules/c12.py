"""C12: flipping a puzzle along its diagonal flips its answers."""
import json
import os

from ..framework import per_solver
from ..mirror import compare, verdicts
from ..prog import program
from ..sorts import RuleTerms, Signature, Weights, upper_bounds
from .c11 import is_square, python_atoms, shown

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tables", "mirror.json")


def neutral():
    with open(TABLE, encoding="utf-8") as f:
        return set(json.load(f)["neutral"])


def image(repo, res):
    rules, notes = program(res)
    init = getattr(res.interp, "lv_init", {})
    bounds = upper_bounds(a for a, _, _ in python_atoms(res, rules))
    ws = Weights(res.loops, False, init, bounds)
    whole = all(r.tree is not None for r in rules)
    rules = [r for r in rules if r.tree is not None]
    terms = [RuleTerms(r, Weights(res.loops, is_square(r.pc), init, bounds)) for r in rules]
    sg = Signature(terms, shown(rules))
    return compare(res, rules, terms, sg, ws, is_square), whole


def check_solver(repo, res, rep):
    where = res.name
    if where not in NEUTRAL:
        rep.count("puzzle types not compared with their mirror image")
        return
    img, whole = image(repo, res)
    rep.count("rules compared with their mirror images", len(img.rules))
    if not img.alone and not img.odd:
        rep.count("programs equal to their mirror image")
        rep.sample({"puzzle": where, "rules": len(img.rules)})
        return
    reports, unclear = verdicts(img)
    if not whole or len(reports) > 12:
        rep.unknown.append(f"{where}: {len(img.alone)} rules without a counterpart that could be compared")
        return
    for r, r2, why in reports:
        if r2 is None:
            rep.add("one-sided-rule", where, r.text()[:120], f"{why}: {r.text()[:300]}", r.loc)
        elif r2 is r:
            rep.add("lopsided-rule", where, r.text()[:120], f"the rule treats rows and columns differently ({why}): {r.text()[:300]}", r.loc)
        else:
            rep.add("unequal-counterparts", where, r.text()[:120], f"{r.text()[:200]} and its counterpart for the other orientation {r2.text()[:200]} differ: {why}", r.loc)
    for r, _ in unclear:
        rep.count("rules not decided")
        rep.sample({"undecided": where, "rule": r.text()[:120]}, 40)


NEUTRAL = neutral()
EXPLANATION = (
    "For every puzzle type listed as treating both orientations alike, the generated program is interpreted abstractly and each rule template, with the Python conditions and loops it is emitted "
    "under, is turned into a structure without variable names; the mirror image (rows and columns exchanged in arguments, board positions, extents, directions and direction names) of every rule "
    "must again be a rule of the program, up to one renaming of predicates, clue codes and internal constants that is used throughout. Reported are rules whose counterpart differs in a detail or "
    "is missing; rules whose counterpart is not recognised are counted as undecided."
)
RULES = ["unequal-counterparts", "one-sided-rule", "lopsided-rule"]


def check(repo, rep, tier):
    per_solver(repo, check_solver, rep, 1.0)
