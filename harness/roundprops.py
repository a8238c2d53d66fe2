"""Checks of the properties that are decided on round traces."""
import random
import common, roundcheck as rc, minis, mjlog, simulated
from common import q, SEED, pmap

# (style, games quick, games thorough, rounds per game)
SUITES = {
    "general": [("natural", 8, 60, 2), ("plan", 25, 250, 2), ("quads", 20, 200, 2),
                ("reds", 8, 80, 2), ("runs", 8, 80, 2), ("tenpai", 15, 150, 2),
                ("kanmaker", 25, 200, 2), ("late", 10, 80, 2), ("probe", 20, 300, 4), ("claims", 60, 600, 4),
                ("replacement", 12, 150, 2), ("busy", 8, 80, 1), ("four", 8, 80, 2),
                ("fourkans", 8, 80, 1), ("options", 4, 60, 2), ("first", 16, 300, 6)],
    "calls":   [("natural", 4, 40, 2), ("plan", 10, 100, 2), ("quads", 15, 150, 2),
                ("reds", 15, 150, 2), ("runs", 10, 100, 2), ("kanmaker", 10, 100, 2),
                ("tenpai", 10, 100, 2), ("late", 10, 80, 2), ("probe", 10, 100, 4), ("claims", 25, 250, 4),
                ("fourkans", 12, 120, 1), ("options", 6, 80, 2)],
    "own":     [("plan", 10, 100, 2), ("quads", 25, 250, 2), ("kanmaker", 35, 250, 2),
                ("tenpai", 15, 150, 2), ("late", 15, 100, 2), ("probe", 20, 200, 4),
                ("replacement", 10, 100, 2), ("fourkans", 8, 80, 1), ("options", 4, 60, 2)],
    "wins":    [("plan", 10, 120, 2), ("tenpai", 20, 200, 2), ("kanmaker", 10, 100, 2), ("robbed", 20, 200, 2),
                ("late", 6, 100, 2), ("lastprobe", 20, 200, 1), ("replacement", 20, 250, 2), ("probe", 150, 2500, 4), ("claims", 25, 300, 4),
                ("yaku", 100, 2500, 6),
                ("fourkans", 16, 200, 1), ("furiten", 20, 300, 2), ("first", 30, 500, 6)],
}

WHICH = {"C04": "calls", "C11": "own", "C12": "general", "C13": "wins"}


def minis_as_games(rounds, tag, per=16):
    out = []
    for length in (4, 8):
        rs = [r for r in rounds if r["ctx"]["rounds"] == length]
        for i in range(0, len(rs), per):
            part = rs[i:i + per]
            out.append({"id": "%s-%d-%d" % (tag, length, i // per), "rounds": part, "path": None,
                        "xml": mjlog.game_xml(part, 169 if length == 8 else 161)})
    return out


# models of the round itself, and the property whose check runs them
MODELS = {"C05": [("MCRound", "MCRound"), ("MCRound", "MCRoundEnds")],
          "C09": [("MCRound", q("MCRoundRiichiOne", "MCRoundRiichi"))]}


def games_for(prop, check):
    suite = SUITES[WHICH.get(prop, "general")]
    jobs = []
    for style, nq, nt, per in suite:
        for i in range(q(nq, nt)):
            jobs.append(("%s-%d-%s-%d" % (prop, SEED, style, i), per, {"style": style}))
    games = rc.real_games() + pmap(rc.generated_game, jobs)
    games += minis_as_games(simulated.rounds(check, q(120, 1500), prop), "sim", 4)
    if prop == "C04":
        ms = minis.call_minis(SEED, more=q(6, 60))
        games += minis_as_games(ms, "calls")
    if prop in ("C11", "C12"):
        games += minis_as_games(minis.kan_minis(SEED), "kans")
    if prop == "C11":
        games += minis_as_games(minis.riichi_minis(SEED, q(400, 6000)), "riichi")
    return games


def count_seen(check, verdicts):
    c = {}
    for v in verdicts.values():
        if v["stop"] == "INPUT":
            continue
        for t in v["seen"]:
            k = " ".join("+".join(sorted(x)) if isinstance(x, list) else str(x) for x in t)
            c[k] = c.get(k, 0) + 1
    check.details["rounds_exercising"] = dict(sorted(c.items()))


def batches(games, per):
    cur, n = [], 0
    for g in games:
        cur.append(g)
        n += sum(len(r["ev"]) for r in g["rounds"])
        if n > per:
            yield cur
            cur, n = [], 0
    if cur:
        yield cur


def run(check, prop):
    for module, cfg in MODELS.get(prop, []):
        check.model(module, cfg)
    games = games_for(prop, check)
    check.details["games"] = len(games)
    allv = {}
    for b in batches(games, 120000):
        vals, rounds = rc.record_games(b)
        verdicts = rc.validate(check, [prop], vals, rounds)
        rc.judge(check, prop, rounds, verdicts)
        allv.update(verdicts)
        for r in rounds[:1] + rounds[-1:]:
            check.sample({"round": r["id"], "events": len(r["ev"]), "records": len(r["rec"]),
                          "verdict": {k: v for k, v in verdicts[r["id"]].items() if k != "seen"}})
    count_seen(check, allv)
    if prop == "C06":
        import branches
        branches.run(check)
    check.assumptions += [
        "the event logs replayed are behaviours of Round (decided by TLC, others are not used)",
        "the implementation is observed through the public attributes of the records of process()"]
