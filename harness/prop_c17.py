"""C17: which logs are processed, and every round once (spec/Logs.tla)."""
import json, os, random, shutil
import common, mjlog, digest, roundcheck as rc
from common import q, SEED, pmap, tlc, scratch, MachineryError

NOTPLAY = {
    "UN": ['<UN n2="%41"/>', '<UN n0="%41%42"/>', '<UN n1="" n3="x"/>'],
    "SHUFFLE": ['<SHUFFLE seed="mt19937ar-sha512-n288-base64,abc" ref=""/>'],
    "TAIKYOKU": ['<TAIKYOKU oya="0"/>', '<TAIKYOKU oya="0" log="2009060321gm-00b9-0000"/>'],
    "BYE": ['<BYE who="%d" />' % i for i in range(4)],
}


def pool():
    jobs = [("C17-%d-%s-%d" % (SEED, st, i), 2, {"style": st})
            for st in ("natural", "plan", "quads", "kanmaker", "tenpai", "probe")
            for i in range(q(3, 12))]
    rounds = []
    for g in rc.real_games() + pmap(rc.generated_game, jobs):
        rounds += [r for r in g["rounds"] if r["ctx"]["round"] < 8]
    return rounds


def build(rounds, stream, gtype):
    """A log with the elements of stream; PLAY elements take the play in parts."""
    out = ['<mjloggm ver="2.3">']
    rest = []
    parts = {}
    idx = [i for i, e in enumerate(stream) if e[0] == "INIT"] + [len(stream)]
    for a, b in zip(idx, idx[1:]):
        plays = [i for i in range(a, b) if stream[i][0] == "PLAY"]
        lines = mjlog.round_xml(rounds[stream[a][1] - 1]).split("\n")
        parts[a] = lines[:1]
        body = lines[1:]
        n = len(plays)
        cuts = [len(body) * j // n for j in range(n)] + [len(body)]
        for j, i in enumerate(plays):
            parts[i] = body[cuts[j]:cuts[j + 1]]
    for i, e in enumerate(stream):
        if e[0] in ("INIT", "PLAY"):
            out += parts[i]
        elif e[0] == "GO":
            out.append('<GO type="%d" lobby="0"/>' % gtype)
        elif e[0] == "BYE":
            out.append(NOTPLAY["BYE"][e[1]])
        else:
            out.append(NOTPLAY[e[0]][e[1] % len(NOTPLAY[e[0]])])
    return "\n".join(out) + "</mjloggm>"


def cases(rounds, R):
    n = len(rounds)
    out = []

    def plain(keys):
        s = [["SHUFFLE", 0], ["GO", 0], ["UN", 0], ["TAIKYOKU", 0]]
        for k in keys:
            s += [["INIT", k], ["PLAY", k]]
        return s

    def add(kind, gtype, stream):
        out.append({"id": "%s-%d" % (kind, len(out)), "type": gtype, "stream": stream})
    # every type word, also with higher bits set
    for w in range(256):
        add("type", w, plain([R.randint(1, n)]))
    for _ in range(q(60, 600)):
        add("type", 256 * R.randrange(1, 64) + R.randrange(256), plain([R.randint(1, n)]))
    # somebody quits at any point
    for _ in range(q(60, 800)):
        s = plain([R.randint(1, n) for _ in range(R.choice([1, 2, 3, 3, 6, 9, 13]))])
        s = split(s, R)
        for _ in range(R.choice([1, 1, 2])):
            s.insert(R.randint(2, len(s)), ["BYE", R.randrange(4)])
        add("quit", R.choice([169, 161, 9, 1, 137, 225]), s)
    # records that are not play, anywhere
    for _ in range(q(120, 1500)):
        s = split(plain([R.randint(1, n) for _ in range(R.choice([1, 1, 2, 3, 5]))]), R)
        for _ in range(R.randint(1, 6)):
            what = R.choice(["UN", "UN", "SHUFFLE", "TAIKYOKU"])
            s.insert(R.randint(0, len(s)), [what, R.randrange(4)])
        add("notplay", R.choice([169, 161, 9, 1, 137, 225, 233]), s)
    # the type record after other records, or last of the head
    for _ in range(q(10, 60)):
        s = [e for e in plain([R.randint(1, n), R.randint(1, n)]) if e[0] != "GO"]
        s.insert(R.choice([0, 1, 2, 3, len(s)]), ["GO", 0])
        add("go", 169, s)
    # many rounds, repeated rounds
    for _ in range(q(8, 60)):
        add("long", 169, plain([R.randint(1, n) for _ in range(R.choice([8, 12, 16, 20]))]))
    for m in q([26, 33, 47], [25, 27, 30, 33, 36, 40, 47, 64, 65, 100]):
        add("long", 169, plain([R.randint(1, n) for _ in range(m)]))
    k = R.randint(1, n)
    add("long", 169, plain([k, k, k]))
    return out


def split(s, R):
    """Plays in several parts, so that something can stand between them."""
    out = []
    for e in s:
        out += [e] * (R.randint(1, 4) if e[0] == "PLAY" else 1)
    return [list(e) for e in out]


POOL = []


def one(c):
    kind, data, _ = digest.process_xml(build(POOL, c["stream"], c["type"]))
    return kind, data


def reference(i):
    r = POOL[i]
    out = []
    for t in (169, 161):
        kind, data, _ = digest.process_xml(mjlog.game_xml([r], t))
        out.append(data[0] if kind == "ok" and len(data) == 1 else "failed")
    return out


def run(check):
    R = random.Random("c17-%d" % SEED)
    POOL[:] = pool()
    refs = pmap(reference, range(len(POOL)))
    cs = cases(POOL, R)
    res = pmap(one, cs)
    ids, reftab = {}, []
    num = lambda x: ids.setdefault(x, len(ids) + 1)
    # what is recorded depends on the length of the game: contents 1..n for
    # east-south games, n+1..2n for east games
    n = len(POOL)
    for half in (0, 1):
        for i in range(n):
            reftab.append(num((i, half) if refs[i][half] == "failed" else refs[i][half]))
    for c, (kind, data) in zip(cs, res):
        east = 0 if c["type"] & 8 else n
        c["stream"] = [[e[0], e[1] + east] if e[0] in ("INIT", "PLAY") else e for e in c["stream"]]
        c["error"] = kind
        c["result"] = {"kind": kind if kind in ("ok", "invalid") else "error",
                       "data": [num(d) for d in data]}
    d = scratch("logs")
    try:
        p = os.path.join(d, "logs.json")
        with open(p, "w") as f:
            json.dump({"cases": cs, "reference": reftab}, f)
        r = tlc("Logs", env={"TRACE": p})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "Logs")
    if not r.ok:
        raise MachineryError("Logs: %s %s" % (r.violated, r.error or r.out[-3000:]))
    vs = {v["verdict"]: v for v in r.printed if "verdict" in v}
    if len(vs) != len(cs):
        raise MachineryError("%d verdicts for %d cases" % (len(vs), len(cs)))
    kinds = {}
    for c in cs:
        v = vs[c["id"]]
        check.traces += 1
        k = c["id"].split("-")[0] + (" accepted" if v["accepted"] else " rejected")
        kinds[k] = kinds.get(k, 0) + 1
        if v["bad"]:
            s = [[e[0], (e[1] - 1) % n + 1] if e[0] in ("INIT", "PLAY") else e for e in c["stream"]]
            check.violate(v["bad"][0][0], {"type": c["type"], "stream": c["stream"],
                                           "error": c["error"], "log": build(POOL, s, c["type"])})
    check.details["cases"] = kinds
    check.sample({"case": cs[0]["id"], "type": cs[0]["type"], "verdict": vs[cs[0]["id"]]})
    check.sample({"case": cs[-1]["id"], "rounds": vs[cs[-1]["id"]]["rounds"]})
    check.assumptions.append("what a round gives by itself is taken from a plain log with that "
                             "round only; its content is decided by C04-C13")
