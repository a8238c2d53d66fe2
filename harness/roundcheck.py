"""Round traces: generate, replay in the implementation, validate with TLC."""
import json, os, shutil, random
import common, gen, mjlog, record
from common import pmap, tlc, scratch, guarded, MachineryError

LOGS = ["MahjongAI/data/sample/sample_haifu.xml",
        "MahjongAI/tests/data/2023090300gm-00a9-0000-4fd2740e.log"]


def real_games():
    out = []
    for p in LOGS:
        with open(os.path.join(common.REPO, p), "rb") as f:
            gtype, rounds = mjlog.parse(f.read())
        out.append({"id": os.path.basename(p), "path": os.path.join(common.REPO, p),
                    "rounds": rounds, "xml": None})
    return out


def generated_game(args):
    """A small game of generated rounds with the same game type."""
    seed, n, kw = args
    R = random.Random("g%s" % seed)
    rounds = []
    length = R.choice([4, 8])
    for i in range(n):
        rn = R.randrange(0, 12 if length == 8 else 8)
        ctx = {"dealer": rn % 4, "round": rn, "rounds": length, "honba": R.choice([0, 0, 1, 2, 7, 15])}
        rounds.append(gen.generate("%s/%d" % (seed, i), ctx=ctx, **kw))
    gtype = 169 if length == 8 else 161
    return {"id": "gen-%s" % seed, "rounds": rounds, "path": None,
            "xml": mjlog.game_xml(rounds, gtype)}


def record_game(game, it):
    """Entries for TraceRound, one per round of the game."""
    d = None
    path = game["path"]
    if path is None:
        d = scratch("log")
        path = os.path.join(d, "game.log")
        with open(path, "w") as f:
            f.write(game["xml"])
    try:
        recs, err = record.record_log(path, it)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    out = []
    if not err and len(recs) != len(game["rounds"]):
        err = "%d rounds recorded of %d" % (len(recs), len(game["rounds"]))
    for i, rd in enumerate(game["rounds"]):
        e = {"id": "%s#%d" % (game["id"], i), "ctx": rd["ctx"], "hands": rd["hands"],
             "dora": rd["dora"], "scores": rd["scores"], "pot": rd["pot"], "ev": rd["ev"],
             "rec": [] if err else recs[i]["rec"], "tok": [] if err else recs[i]["tok"],
             "err": err}
        out.append(e)
    return out


def _record_chunk(games):
    it = record.Interner()
    rounds = []
    for g in games:
        rounds += record_game(g, it)
    return it.vals, rounds


def merge(parts):
    """Merge recorder results with separate interning into one value table."""
    it = record.Interner()
    rounds = []
    for vals, rs in parts:
        mp = [0] + [it(v) for v in vals]
        for r in rs:
            for rec in r["rec"]:
                if rec["k"] == "P":
                    rec["s"] = [[mp[x] for x in t] for t in rec["s"]]
                elif rec["k"] in "UD":
                    rec["s"] = [mp[x] for x in rec["s"]]
            rounds.append(r)
    return it.vals, rounds


def record_games(games):
    chunks = [games[i::32] for i in range(32)]
    return merge(pmap(_record_chunk, [c for c in chunks if c]))


def validate(check, props, vals, rounds, name="TraceRound", timeout=800, workers=8):
    """Run TLC over recorded rounds; returns the verdicts by round id."""
    d = scratch("trace")
    try:
        p = os.path.join(d, "trace.json")
        with open(p, "w") as f:
            json.dump({"props": props, "vals": vals, "rounds": rounds}, f)
        r = tlc("TraceRound", env={"TRACE": p}, timeout=timeout, workers=workers, heap="12g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, name)
    if r.violated == "Sound":
        raise MachineryError("invariant of Round violated along a trace\n" + r.out[-3000:])
    if not r.ok:
        raise MachineryError("TraceRound: %s" % (r.error or r.out[:4000]))
    verdicts = {v["verdict"]: v for v in r.printed if "verdict" in v}
    if len(verdicts) != len(rounds):
        raise MachineryError("%d verdicts for %d rounds" % (len(verdicts), len(rounds)))
    return verdicts


def describe(rd, v, bad):
    """What failed, for the replay file."""
    prop, clause, i, j = bad
    evs = rd["ev"]
    return {"round": rd["id"], "clause": clause, "event index": i,
            "events up to there": evs[:i], "ctx": rd["ctx"], "hands": rd["hands"],
            "dora": rd["dora"], "scores": rd["scores"], "error": rd["err"],
            "log": mjlog.game_xml([dict(rd)], 169 if rd["ctx"]["rounds"] == 8 else 161)}


def judge(check, prop, rounds, verdicts):
    inputs = 0
    byid = {r["id"]: r for r in rounds}
    stats = {"events": 0, "records": 0}
    for rid, v in verdicts.items():
        if v["stop"] == "INPUT":
            inputs += 1
            check.details.setdefault("rejected_inputs", []).append([rid, v["events"]])
            continue
        check.traces += 1
        stats["events"] += v["events"]
        stats["records"] += v["records"]
        for b in sorted(v["bad"], key=lambda b: (b[2], b[3], b[1])):
            if b[0] == prop:
                check.violate("%s %s" % (b[1], ""), describe(byid[rid], v, b))
                break
    check.details.setdefault("trace_events", 0)
    check.details["trace_events"] += stats["events"]
    check.details.setdefault("trace_records", 0)
    check.details["trace_records"] += stats["records"]
    if inputs > 0.05 * len(rounds) + 1:
        raise MachineryError("%d of %d rounds are no behaviour of Round" % (inputs, len(rounds)))
