"""C06: logs that agree up to a decision give the same records up to it
(spec/Branch.tla)."""
import json, os, random, shutil
import common, gen, mjlog, record, roundcheck as rc
from common import q, SEED, pmap, tlc, scratch, MachineryError


class Forking(list):
    """Events; once there are `cut` of them, everything random changes."""

    def __init__(self, g, cut, seed):
        super().__init__()
        self.g, self.cut, self.seed = g, cut, seed

    def append(self, e):
        super().append(e)
        if len(self) == self.cut:
            R, st = self.g.R, self.g.st
            R.seed(self.seed)
            for k in ("p_pon", "p_chi", "p_minkan", "p_ankan", "p_kakan", "p_riichi", "p_win",
                      "p_win_kan", "p_win_last", "p_tsumogiri"):
                setattr(st, k, R.choice([0, .5, 1]))
            st.p_end = .1


def play(seed, style, ctx, cut=None, fork=None):
    R = random.Random(seed)
    g = gen.Probe(R, "natural", ctx=ctx) if style == "probe" else gen.Gen(R, style, ctx=ctx)
    if cut is not None:
        g.events = Forking(g, cut, fork)
    rd = g.run()
    rd["ev"] = list(rd["ev"])
    return rd


def strip(recs):
    """One text per record, without the marks of what was taken."""
    out = []
    for r in recs["rec"]:
        r = json.loads(json.dumps(r))
        for o in ([r["o"]] if r["k"] == "U" else r["o"] if r["k"] == "P" else []):
            for lst in o:
                for d in lst:
                    d[1] = 0
                lst.sort()
        out.append(json.dumps([r, recs["tok"][:max(0, r["n"])]], sort_keys=True))
    return out


class Plain:
    def __call__(self, v):
        return v


def recorded(rd):
    d = scratch("log")
    try:
        path = os.path.join(d, "game.log")
        with open(path, "w") as f:
            f.write(mjlog.game_xml([rd], 169 if rd["ctx"]["rounds"] == 8 else 161))
        recs, err = record.record_log(path, Plain())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not err and len(recs) != 1:
        err = "rounds"
    return {"ev": rd["ev"], "rec": [] if err else strip(recs[0]), "err": err or ""}


def cut_end(rd, c):
    r = dict(rd)
    r["ev"] = rd["ev"][:c] + [mjlog.ev("END")]
    return r


def family(args):
    seed, style, nforks, nends, trunk = args
    R = random.Random("b%s" % seed)
    if trunk is None:
        rn = R.randrange(8)
        ctx = {"dealer": rn % 4, "round": rn, "rounds": 8, "honba": 0}
        trunk = play(seed, style, ctx)
    n = len(trunk["ev"])
    vs = []
    # where something is decided: calls, declarations, wins, kans, new dora
    hot = [i for i, e in enumerate(trunk["ev"]) if e["e"] in ("N", "R1", "R2", "WIN", "DORA") and i]
    points = lambda k: [R.choice(hot) if hot and R.random() < .6 else R.randrange(1, n)
                        for _ in range(k)]
    if style is not None:
        for c in points(nforks):
            vs.append(play(seed, style, ctx, c, R.random()))
    for c in points(nends):
        vs.append(cut_end(trunk, c))
    out = [recorded(x) for x in [trunk] + vs]
    return {"id": str(seed), "trunk": out[0], "variants": out[1:], "rounds": [trunk] + vs}


def run(check):
    jobs = []
    for style, nq, nt in [("natural", 6, 60), ("plan", 10, 120), ("quads", 14, 160), ("reds", 8, 80),
                          ("runs", 6, 60), ("tenpai", 10, 120), ("kanmaker", 14, 150),
                          ("late", 4, 40), ("probe", 16, 200)]:
        for k in range(q(nq, nt)):
            jobs.append(("c06-%d-%s-%d" % (SEED, style, k), style, 6, 4, None))
    for g in rc.real_games():
        for k, rd in enumerate(g["rounds"]):
            jobs.append(("c06-%d-%s-%d" % (SEED, g["id"], k), None, 0, 6, rd))
    fams = pmap(family, jobs)
    num = {}
    data = []
    for f in fams:
        one = lambda l: {"ev": l["ev"], "err": l["err"],
                         "rec": [num.setdefault(x, len(num) + 1) for x in l["rec"]]}
        data.append({"trunk": one(f["trunk"]), "variants": [one(v) for v in f["variants"]]})
    d = scratch("branch")
    try:
        p = os.path.join(d, "in.json")
        with open(p, "w") as fh:
            json.dump({"families": data}, fh)
        r = tlc("Branch", env={"TRACE": p}, heap="8g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "Branch")
    if not r.ok:
        raise MachineryError("Branch: %s" % (r.error or r.out[:3000]))
    verdicts = [v for v in r.printed if "verdict" in v]
    if len(verdicts) != sum(len(f["variants"]) for f in data):
        raise MachineryError("%d verdicts" % len(verdicts))
    st = {"families": len(fams), "pairs": len(verdicts), "common events": 0, "common records": 0}
    for v in verdicts:
        st["common events"] += v["events"]
        st["common records"] += v["records"]
        check.traces += 1
        if v["bad"]:
            f = fams[v["verdict"][0] - 1]
            a, b = f["trunk"], f["variants"][v["verdict"][1] - 1]
            what, i, k = min(v["bad"], key=lambda x: (x[1], x[2]))
            pair = [f["rounds"][0], f["rounds"][v["verdict"][1]]]
            check.violate("future: " + what, {
                "family": f["id"], "event": i, "record": k,
                "one log": mjlog.game_xml([pair[0]]), "other log": mjlog.game_xml([pair[1]]),
                "errors": [a["err"], b["err"]],
                "records": [x["rec"][k - 1][:2000] if 0 < k <= len(x["rec"]) else None for x in (a, b)]})
    if st["common records"] < 10 * len(verdicts):
        raise MachineryError("branches too short: %r" % st)
    check.details["branches"] = st
