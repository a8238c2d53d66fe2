"""C18: what a loader delivers (spec/Loader.tla)."""
import hashlib, itertools, json, os, random, shutil
import common, digest, record, tiny, roundcheck as rc
from common import q, SEED, pmap, tlc, scratch, guarded, MachineryError

GAMES = []       # (xml, digest of decisions, digest of history)


def dig(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def split_digest(hs, tk):
    rec = record.record_result((hs, tk), digest.Plain())
    return dig([r["rec"] for r in rec]), dig([r["tok"] for r in rec])


def games():
    R = random.Random("c18-games-%d" % SEED)
    xs = [tiny.game(R, i, 169, 1 + i % 2) for i in range(12)]
    for g in pmap(rc.generated_game, [("C18-%d-%d" % (SEED, i), 1, {"style": "natural"})
                                      for i in range(4)]):
        xs.append(g["xml"])
    out = []
    for x in xs:
        kind, _, res = digest.process_xml(x)
        if kind != "ok":
            # what the loader has to deliver cannot be known; C17 reports it
            continue
        a, b = split_digest(*res)
        if all(a != y[1] and b != y[2] for y in out):
            out.append((x, a, b))
    return out


def bad_file(kind, R, path):
    xml = tiny.game(R)
    if kind == "invalid":
        xml = R.choice([tiny.game(R, 0, R.choice([168, 171, 173, 185, 177])),
                        xml.replace("</mjloggm>", '<BYE who="1"/></mjloggm>')])
        data = xml.encode()
    elif kind == "corrupt":
        data = R.choice([b"", b"\x00\x01\xff\xfe", xml.encode()[:R.randrange(1, len(xml) - 9)],
                         b"<a></b>", xml.replace("<GO", "<GU").encode(),
                         xml.replace('hai2="', 'hai2="x').encode(),
                         xml.replace('seed="', 'sead="').encode(),
                         xml.replace("<INIT", '<GO type="169" lobby="0"/><INIT', 1).encode(),
                         xml.replace("</mjloggm>", "<Z>" * 3000 + "</Z>" * 3000 + "</mjloggm>").encode()])
    elif kind == "inconsistent":
        r = tiny.round_(R)
        what = R.randrange(4)
        if what == 0:
            r["hands"][1] = r["hands"][1][:12]
        elif what == 1:
            r["hands"][1][0] = r["hands"][1][1]
        elif what == 2:
            r["ev"][1]["t"] = next(t for t in range(136) if t not in r["hands"][r["ev"][1]["s"]]
                                   and t != r["ev"][0]["t"])
        else:
            r["ev"].insert(2, {"e": "N", "s": (r["ev"][0]["s"] + 1) % 4, "t": 0, "m": 32})
        import mjlog
        xml = mjlog.game_xml([r], 169)
        data = xml.encode()
    elif kind == "directory":
        os.mkdir(path)
        return
    elif kind == "missing":                 # listed, but gone when it is read
        os.symlink(path + ".gone", path)
        return
    with open(path, "wb") as f:
        f.write(data)


def file_name(R, n, taken):
    """A new name, often much like one that is there already."""
    name = R.choice(["a%d", "log%d", "z.%d", ".h%d", "%d.log", "g%d.xml", "2009060321gm-%04x.log",
                     "game %d (1).log", "%d.LOG", "\u6771%d.log", "-%d", "%d.tmp", "%d~"]) % n
    if taken and R.random() < .4:
        old = R.choice(taken)
        stem = old.rsplit(".", 1)[0]
        near = R.choice([old.swapcase(), old + ".log", old + " ", "0" + old, stem + ".xml", stem + ".log",
                         old.upper(), old[:-1] + "_"])
        if near not in taken and near not in ("", ".", ".."):
            name = near
    taken.append(name)
    return name


def one(case):
    R = random.Random("c18/%s/%d" % (case["id"], SEED))
    d = scratch("loader")
    try:
        ids = {}
        valid = []
        taken = []
        for n, kind in enumerate(case["kinds"]):
            p = os.path.join(d, file_name(R, n, taken))
            if kind == "valid":
                x, a, b = GAMES[case["games"][n]]
                ids[a] = ids[b] = n + 1
                valid.append(n + 1)
                with open(p, "w") as f:
                    f.write(x)
            else:
                bad_file(kind, R, p)
                if kind not in ("directory", "missing"):
                    # a file counts as valid if processing it works
                    k, _, _ = digest.process_xml(open(p, "rb").read().decode("latin1"))
                    if k == "ok":
                        return None
        # the order of a directory listing is the file system's: any of them
        real = os.listdir
        names = real(d)
        R.shuffle(names)
        os.listdir = lambda path=".": list(names) if os.path.samefile(path, d) else real(path)
        try:
            ops = guarded(drive, 120, d, case, ids)
        finally:
            os.listdir = real
        if ops[1]:
            ops = [{"op": "crash", "games": [], "hist": [], "err": ops[1]}]
        else:
            ops = ops[0]
        return {"id": case["id"], "valid": valid, "size": case["size"], "ops": ops,
                "kinds": case["kinds"], "listing": names}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def drive(path, case, ids):
    import contextlib, io
    from MahjongAI.utils.dataloader import DataLoader
    ops = []
    with contextlib.redirect_stdout(io.StringIO()):
        dl = DataLoader(path, case["size"], lambda *a: None)
        it = iter(dl)
        # another loader of the same directory goes its own way
        other = DataLoader(path, 1 + case["size"] % 3, lambda *a: None) if case["other"] else None
        for n, c in enumerate(case["script"]):
            if other is not None:
                if n % 3 == 2:
                    other.reset()
                try:
                    next(other)
                except Exception:
                    pass
            if c == "r":
                dl.reset()
                it = iter(dl)
                ops.append({"op": "reset", "games": [], "hist": [], "err": ""})
                continue
            for _ in range(20 if c == "E" else 1):
                try:
                    hl, tl = next(it)
                except StopIteration:
                    ops.append({"op": "stop", "games": [], "hist": [], "err": ""})
                    break
                except BaseException as e:
                    if type(e).__name__ == "Timeout":
                        raise
                    ops.append({"op": "crash", "games": [], "hist": [], "err": repr(e)[:200]})
                    return ops
                gs = [ids.get(dig([[record.record_halfturn(h, digest.Plain()) for h in r]
                                   for r in x]), 0) for x in hl]
                hs = [ids.get(dig([record.nums(t) for t in x]), 0) for x in tl]
                ops.append({"op": "next", "games": gs, "hist": hs, "err": ""})
    return ops


KINDS = ["valid", "invalid", "corrupt", "inconsistent"]


def cases():
    R = random.Random("c18-%d" % SEED)
    out = []

    def add(kinds, size, script):
        gs = R.sample(range(len(GAMES)), len(kinds)) if len(kinds) <= len(GAMES) else []
        out.append({"id": "case-%d" % len(out), "kinds": list(kinds), "size": size,
                    "script": script, "games": gs,
                    "other": len(out) % 4 == 3})
    # all mixtures of up to 4 files
    for n in range(0, 5):
        for kinds in itertools.product(KINDS if n < 4 else KINDS[:2] + [R.choice(KINDS[2:])], repeat=n):
            for size in (1, 2, 3):
                add(kinds, size, R.choice(["E", "ErE", "EErE", "nrE", "nnrnrE", "nErE"]))
    for _ in range(q(150, 2500)):
        n = R.randint(3, 12)
        p = R.choice([0.3, 0.6, 0.9, 1.0])
        kinds = [("valid" if R.random() < p else R.choice(KINDS[1:] + ["directory", "missing"])) for _ in range(n)]
        add(kinds, R.randint(1, 6),
            "".join(R.choice("nnnrE") for _ in range(R.randint(1, 8))) + R.choice(["E", "rE", "EE"]))
    # loaders that live long: many epochs, many batches
    for n in range(q(6, 40)):
        kinds = ["valid"] * R.randint(10, 14) + R.choices(KINDS, k=R.randint(0, 2))
        R.shuffle(kinds)
        add(kinds, 1 + n % 3, "Er" * R.randint(6, 12) + R.choice(["nnnrE", "E"]))
    return out


def run(check):
    record.RAW_RIVERS = True
    check.model("MCLoader")
    GAMES[:] = games()
    if len(GAMES) < 12:
        check.violate("games of the directory cannot be processed", {"usable": len(GAMES)})
        return
    cs = cases()
    res = [x for x in pmap(one, cs) if x]
    d = scratch("loader")
    try:
        p = os.path.join(d, "t.json")
        with open(p, "w") as f:
            json.dump({"cases": res}, f)
        r = tlc("TraceLoader", env={"TRACE": p})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "TraceLoader")
    if not r.ok:
        raise MachineryError("TraceLoader: %s %s" % (r.violated, r.error or r.out[-3000:]))
    vs = {v["verdict"]: v for v in r.printed if "verdict" in v}
    if len(vs) != len(res):
        raise MachineryError("%d verdicts for %d cases" % (len(vs), len(res)))
    for c in res:
        v = vs[c["id"]]
        check.traces += 1
        if v["bad"]:
            b = min(v["bad"], key=lambda b: b[1])
            check.violate(b[0], {"files in listing order": c["listing"], "kinds": c["kinds"],
                                 "valid": c["valid"], "batch size": c["size"],
                                 "operations": c["ops"], "failed at": b[1]})
    check.details["directories"] = len(res)
    check.details["operations"] = sum(len(c["ops"]) for c in res)
    check.sample(res[len(res) // 2])
    check.sample(res[-1])
    check.assumptions.append("a file counts as processable if process() alone accepts it")
