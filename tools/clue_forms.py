"""Record which kinds of clue act on the program, by puzzle type (reviewed by hand; read by rule C10)."""
import json
import multiprocessing as mp
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nqsa.loader import Repo  # noqa: E402
from nqsa.rules import c10  # noqa: E402

REPO = Repo()

OUTSIDE = {"aquarium", "battleship", "box", "coral", "doppelblock", "easyasabc", "kakuro", "magnets", "nonogram", "skyscrapers", "snake", "tents", "tilepaint", "triplace"}


def job(i):
    mod, cls = REPO.solver_classes()[i]
    out = {}
    for form, eff in c10.survey(REPO, mod, cls).items():
        if eff is None or form[3] in ("?",):
            continue
        regs = [r for r in eff[0][0] if eff[0][0][r] == "all"]
        if "inside" in regs and (mod.split(".")[-1] not in OUTSIDE or "battleship" in str(form[3])):
            regs = ["inside"]  # what such a puzzle does with a clue outside the board is its own affair
        if regs:
            out[c10.key(form)] = regs
    if any(k.endswith(" n") for k in out):
        out = {k: v for k, v in out.items() if not k.endswith(" =A")}
    return mod.split(".")[-1], out


if __name__ == "__main__":
    with mp.Pool(8) as pool:
        t = dict(x for x in pool.map(job, range(len(REPO.solver_classes())), chunksize=1) if x[1])
    os.makedirs(os.path.dirname(c10.TABLE), exist_ok=True)
    with open(c10.TABLE, "w", encoding="utf-8") as f:
        f.write("{\n" + ",\n".join(f" {json.dumps(k)}: {json.dumps(v)}" for k, v in sorted(t.items())) + "\n}\n")
