"""C30: a renamed log gives the renamed records (spec/Symmetry.tla)."""
import json, os, random, shutil
import common, mjlog, record, roundcheck as rc, roundprops, simulated
from common import q, SEED, pmap, tlc, scratch, MachineryError

common.add_repo_path()
FIVES = (4, 13, 22)


def renaming(R, what):
    """Some renaming; what: which parts of it are not the identity."""
    g = {"turn": 0, "suit": [0, 1, 2], "mirror": 0, "dragon": [0, 1, 2],
         "copy": [[0, 1, 2, 3] for _ in range(34)]}
    if "turn" in what:
        g["turn"] = R.randrange(1, 4)
    if "suit" in what:
        g["suit"] = R.choice([[1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]])
    if "mirror" in what:
        g["mirror"] = 1
    if "dragon" in what:
        g["dragon"] = R.choice([[1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]])
    if "copy" in what:
        for k in range(34):
            c = [1, 2, 3] if k in FIVES else [0, 1, 2, 3]
            R.shuffle(c)
            g["copy"][k] = ([0] if k in FIVES else []) + c
    return g


def renamed(rd, g):
    """The round with everything renamed (Symmetry checks that it is)."""
    def kind(k):
        if k >= 27:
            return k if k < 31 else 31 + g["dragon"][k - 31]
        return 9 * g["suit"][k // 9] + (8 - k % 9 if g["mirror"] else k % 9)

    def tile(t):
        return 4 * kind(t // 4) + g["copy"][t // 4][t % 4]

    def seat(s):
        return (s + g["turn"]) % 4

    def turned(x):
        return [x[(p - g["turn"]) % 4] for p in range(4)]
    pons, ev = {}, []
    for e in rd["ev"]:
        f = dict(e)
        if e["e"] not in ("END", "DORA"):
            f["s"] = seat(e["s"])
        if e["e"] in ("T", "D", "DORA"):
            f["t"] = tile(e["t"])
        if e["e"] == "N":
            m, typ = e["m"], mjlog.code_type(e["m"])
            if typ == "chi":
                pat = (m >> 10) & 63
                base, pos = 9 * (pat // 3 // 7) + pat // 3 % 7, pat % 3
                ts = [4 * (base + i) + (m >> (3 + 2 * i)) % 4 for i in range(3)]
                f["m"] = mjlog.chi_code([tile(t) for t in ts], tile(ts[pos])) & ~3 | m & 3
            elif typ == "pon":
                k = ((m >> 9) & 127) // 3
                ts = [t for t in range(4 * k, 4 * k + 4) if t % 4 != (m >> 5) % 4]
                f["m"] = mjlog.pon_code([tile(t) for t in ts], tile(ts[((m >> 9) & 127) % 3]), m & 3)
                pons[f["s"], kind(k)] = f["m"]
            elif typ == "kakan":
                t = 4 * (((m >> 9) & 127) // 3) + (m >> 5) % 4
                f["m"] = mjlog.kakan_code(pons[f["s"], kind(t // 4)], tile(t))
            elif typ == "minkan":
                f["m"] = mjlog.minkan_code(tile(m >> 8), m & 3)
            elif typ == "ankan":
                f["m"] = mjlog.ankan_code(tile(m >> 8))
        ev.append(f)
    c = rd["ctx"]
    return {"ctx": dict(c, dealer=seat(c["dealer"]), round=c["round"] // 4 * 4 + (c["round"] + g["turn"]) % 4),
            "hands": turned([[tile(t) for t in h] for h in rd["hands"]]), "dora": tile(rd["dora"]),
            "scores": turned(rd["scores"]), "pot": rd["pot"], "ev": ev}


def game(rd, name):
    return {"id": name, "rounds": [rd], "path": None,
            "xml": mjlog.game_xml([rd], 169 if rd["ctx"]["rounds"] == 8 else 161)}


def pair(args):
    rd, g, name = args
    it = record.Interner()
    try:
        b = renamed(rd, g)
    except KeyError:
        return None                  # an added kan without its pon
    out = [rc.record_game(game(x, name), it)[0] for x in (rd, b)]
    return it.vals, out, g


def rounds_of(check):
    jobs = []
    for style, nq, nt in [("natural", 16, 160), ("quads", 14, 140), ("reds", 14, 140), ("runs", 10, 100),
                          ("kanmaker", 14, 140), ("tenpai", 14, 140), ("late", 8, 80), ("probe", 60, 600),
                          ("claims", 30, 300), ("busy", 6, 60), ("four", 8, 80), ("replacement", 12, 120),
                          ("fourkans", 10, 100), ("options", 10, 100), ("furiten", 12, 120), ("first", 16, 160),
                          ("yaku", 60, 600), ("plan", 10, 100), ("lastprobe", 12, 120)]:
        for i in range(q(nq, nt)):
            jobs.append(("c30-%d-%s-%d" % (SEED, style, i), 1, {"style": style}))
    games = pmap(rc.generated_game, jobs) + rc.real_games()
    out = [(rd, "%s#%d" % (g["id"], i)) for g in games for i, rd in enumerate(g["rounds"])]
    out += [(rd, "sim-%d" % i) for i, rd in enumerate(simulated.rounds(check, q(20, 300), "C30"))]
    return out


def run(check):
    check.model("MCSymmetry")
    R = random.Random("c30/%d" % SEED)
    parts = ["turn", "suit", "mirror", "dragon", "copy"]
    jobs = []
    for i, (rd, name) in enumerate(rounds_of(check)):
        what = parts if i % 2 else [parts[i // 2 % 5]]
        jobs.append((rd, renaming(R, what), name))
    done = [x for x in pmap(pair, jobs) if x]
    it = record.Interner()
    pairs = []
    for vals, (a, b), g in done:
        mp = [0] + [it(v) for v in vals]
        for r in (a, b):
            for x in r["rec"]:
                if x["k"] == "P":
                    x["s"] = [[mp[z] for z in t] for t in x["s"]]
                elif x["k"] in "UD":
                    x["s"] = [mp[z] for z in x["s"]]
            r["err"] = (r["err"] or "").split(":")[0]
        pairs.append({"g": g, "a": a, "b": b})
    d = scratch("sym")
    try:
        p = os.path.join(d, "t.json")
        with open(p, "w") as f:
            json.dump({"vals": it.vals, "pairs": pairs}, f)
        r = tlc("TraceSymmetry", env={"TRACE": p}, heap="14g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "TraceSymmetry")
    vs = [v for v in r.printed if "verdict" in v]
    if not r.ok or len(vs) != len(pairs):
        raise MachineryError("TraceSymmetry: %s %s" % (r.violated, r.error or r.out[-3000:]))
    records = 0
    for v in sorted(vs, key=lambda v: v["verdict"]):
        x = pairs[v["verdict"] - 1]
        if v["stop"] == "INPUT":
            raise MachineryError("%s was not renamed properly" % x["a"]["id"])
        check.traces += 1
        records += v["records"]
        for b in sorted(v["bad"])[:1]:
            check.violate(b[0], {"round": x["a"]["id"], "record": b[1], "failed": v["bad"], "renaming": x["g"],
                                 "errors": [x["a"]["err"], x["b"]["err"]],
                                 "log": game(x["a"], "")["xml"], "renamed": game(x["b"], "")["xml"]})
    check.details["records_compared"] = records
    check.sample({"round": pairs[0]["a"]["id"], "renaming": pairs[0]["g"]})
    check.assumptions += [
        "rounds left and deals left are not compared: they name the round, which changes with the dealer (C20)"]
