"""Rounds that are behaviours of the specification: TLC simulates SimRound."""
import json, os, random, shutil
import common, gen, mjlog
from common import tlc, scratch, MachineryError, SEED

DEALS = ["natural", "plan", "quads", "reds", "runs", "tenpai", "kanmaker", "claims", "claims", "tenpai"]


def deal(seed, style):
    R = random.Random(seed)
    rounds = R.choice([4, 8])
    rn = R.randrange(0, 8)
    ctx = {"dealer": rn % 4, "round": rn, "rounds": rounds, "honba": R.choice([0, 1, 3])}
    g = gen.Claims(R, ctx=ctx) if style == "claims" else gen.Gen(R, style, ctx=ctx)
    d = dict(g.start)
    wall = list(g.pool)
    R.shuffle(wall)
    # what the seats wait for comes early in some walls
    if R.random() < .6:
        want = set()
        for h in d["hands"]:
            v = gen.kinds34(h)
            want |= {k for k in range(34) if v[k] in (2, 3)}
            for k in range(34):
                if v[k] < 4:
                    v[k] += 1
                    if gen.is_complete(v):
                        want.add(k)
                    v[k] -= 1
        early = [t for t in wall if t // 4 in want]
        rest = [t for t in wall if t // 4 not in want]
        n = R.choice([8, 16, 30])
        head = early[:n] + rest[:n]
        R.shuffle(head)
        wall = head + early[n:] + rest[n:]
    length = R.choice([6, 12, 25, 70])
    d["wall"], d["next"] = wall[:min(70, length)], wall[-5:]
    d["free"] = [s for s in range(4) if R.random() < .25]
    return d


def rounds(check, n, tag, behaviours=2):
    """About n * behaviours rounds, with the deals they start from."""
    deals = [deal("%s-%d-%d" % (tag, SEED, i), DEALS[i % len(DEALS)]) for i in range(n)]
    d = scratch("sim")
    try:
        p = os.path.join(d, "deals.json")
        with open(p, "w") as f:
            json.dump(deals, f)
        r = tlc("SimRound", env={"TRACE": p}, heap="8g", workers=8,
                extra=("-simulate", "num=%d" % (n * behaviours // 8 + 1), "-depth", "400",
                       "-seed", str(SEED + 1)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "SimRound")
    if not r.ok:
        raise MachineryError("SimRound: %s %s" % (r.violated, r.error or r.out[-2000:]))
    out, seen = [], set()
    for b in r.printed:
        key = json.dumps(b, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        x = deals[b["deal"] - 1]
        out.append({"ctx": x["ctx"], "hands": x["hands"], "dora": x["dora"], "scores": x["scores"],
                    "pot": x["pot"], "ev": [mjlog.ev(e["e"], e["s"], e["t"], e["m"]) for e in b["ev"]]})
    if len(out) < n // 2:
        raise MachineryError("SimRound: only %d behaviours" % len(out))
    return out
