"""Development aid: all round properties on a smaller set of rounds at once."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, roundcheck as rc, roundprops, simulated
from common import pmap

PROPS = ["C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C20"]
ck = common.Check("C05")
jobs = []
for style, n, per in [("natural", 4, 2), ("plan", 10, 2), ("quads", 10, 2), ("reds", 6, 2), ("runs", 4, 2),
                      ("tenpai", 8, 2), ("kanmaker", 10, 2), ("late", 6, 2), ("probe", 40, 4), ("claims", 20, 4)]:
    jobs += [("all-%s-%d" % (style, i), per, {"style": style}) for i in range(n)]
games = rc.real_games() + pmap(rc.generated_game, jobs)
games += roundprops.minis_as_games(simulated.rounds(ck, 80, "all"), "sim", 4)
vals, rounds = rc.record_games(games)
verdicts = rc.validate(ck, PROPS, vals, rounds)
bad = {}
for v in verdicts.values():
    for b in v["bad"]:
        bad[(b[0], b[1])] = bad.get((b[0], b[1]), 0) + 1
print(sorted(bad.items()))
sys.exit(1 if bad else 0)
