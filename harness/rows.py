"""Training rows: run every model's data preparation on recorded rounds."""
import inspect, json, os, shutil
import common, record, roundcheck as rc, roundprops, mjlog, simulated
from common import q, SEED, pmap, guarded, tlc, scratch, MachineryError

common.add_repo_path()

AGENTS = [
    {"name": "transformer", "therm": False, "rivers": False, "player": False},
    {"name": "transformer_conv", "therm": True, "rivers": False, "player": False},
    {"name": "transformer_conv_large", "therm": True, "rivers": False, "player": False},
    {"name": "transformer_conv_ordered", "therm": True, "rivers": True, "player": True},
]


def make_model(name, blocks=1):
    import importlib
    m = importlib.import_module("MahjongAI.agents." + name)
    cls = {"transformer": "TransformerModel", "transformer_conv": "TransformerConvModel",
           "transformer_conv_large": "TransformerConvLargeModel",
           "transformer_conv_ordered": "TransformerConvOrderedModel"}[name]
    cls = getattr(m, cls)
    return cls(blocks) if "n_layers" in inspect.signature(cls.__init__).parameters else cls()


def values(x):
    """Nested lists of integers of a tensor."""
    def go(v):
        return [go(y) for y in v] if isinstance(v, list) else record.num(v)
    return go(x.tolist())


def rows_of(tensors, it):
    X, (x1, x2, x3), mask, y = tensors[:4]
    player = tensors[4] if len(tensors) > 4 else None
    n = [len(z) for z in (X, x1, x2, x3, mask, y)] + ([len(player)] if player is not None else [])
    if len(set(n)) != 1:
        raise ValueError("components of different lengths %s" % n)
    X, x1, x2, x3, mask, y = [values(z) for z in (X, x1, x2, x3, mask, y)]
    ps = values(player) if player is not None else [-1] * n[0]
    return [{"x": it(X[i]), "c": [it(c) for c in x1[i]], "a": it(x2[i]), "b": it(x3[i]),
             "m": it(mask[i]), "y": y[i], "p": ps[i]} for i in range(n[0])]


def decoder_parts(args):
    """State, mask, targets and kind of decision among a decoder's arguments."""
    import torch
    args = list(args)
    head = [a for a in args if isinstance(a, str)]
    state = [a for a in args if isinstance(a, (tuple, list))]
    y = [a for a in args if isinstance(a, torch.Tensor) and a.dim() == 1 and not a.is_floating_point()]
    mask = [a for a in args if isinstance(a, torch.Tensor) and a.dim() == 2]
    if [len(x) for x in (head, state, y, mask)] != [1, 1, 1, 1]:
        raise ValueError("arguments of the decoder")
    return state[0], mask[0], y[0], head[0]


def encoder_parts(args):
    """Histories, and seats if given, among an encoder's arguments."""
    ts = sorted([a for a in args if hasattr(a, "dim") and a.dim() in (1, 2)], key=lambda a: -a.dim())
    if [a.dim() for a in ts] not in ([2], [2, 1]):
        raise ValueError("arguments of the encoder")
    return ts


def head_of(model, kind):
    """The last layer for one kind of decision."""
    import torch
    n = {"discard": 37, "during": 71, "post": 154}[kind]
    found = {id(m): m for m in model.decoder.modules()
             if isinstance(m, torch.nn.Linear) and m.out_features == n}
    if len(found) != 1:
        raise MachineryError("%d layers with %d outputs" % (len(found), n))
    return list(found.values())[0]


HEADS = {"during": "U", "discard": "D", "post": "P"}


def forward_rows(model, halfturns, tokens, size, has_player, rows):
    """Rows that reach encoder and decoder, through stand-ins that record them."""
    import torch
    got = {"U": [], "D": [], "P": []}
    pending = []

    def stub(orig, fn):
        sig = inspect.signature(orig.forward)

        class S(torch.nn.Module):
            def forward(self, *a, **k):
                return fn(list(sig.bind(*a, **k).arguments.values()))
        return S()

    def enc(args):
        pending.append(encoder_parts(args))
        return torch.zeros(1)

    def dec(args):
        state, mask, y, head = decoder_parts(args)
        e = pending.pop()
        tensors = (e[0], state, mask, y) + ((e[1],) if has_player else ())
        got[HEADS[head]] += rows(tensors)
        return torch.zeros(1), torch.zeros(1)
    own = model.encoder, model.decoder
    model.encoder, model.decoder = stub(own[0], enc), stub(own[1], dec)
    kw = {} if size == 0 else {"sample": True, "sample_size": size}
    try:
        for _ in model(halfturns, tokens, **kw):
            pass
    finally:
        model.encoder, model.decoder = own
    return got


def record_batch(args):
    """One batch of games for Rows: (vals, batch entry, rounds for TraceRound)."""
    bid, games, sizes = args
    import torch
    torch.set_num_threads(1)
    it = record.Interner()
    record.RAW_RIVERS = True
    rounds, hs, ts = [], [], []
    trace = []
    for g in games:
        d, path = None, g["path"]
        if path is None:
            d = scratch("log")
            path = os.path.join(d, "game.log")
            with open(path, "w") as f:
                f.write(g["xml"])
        try:
            res, err = guarded(record.run_process, 60, path)
        finally:
            if d:
                shutil.rmtree(d, ignore_errors=True)
        if err:
            trace.append((g, None, err))
            continue
        rec, err = guarded(record.record_result, 60, res, it)
        trace.append((g, rec, err))
        if err:
            continue
        hs.append(res[0])
        ts.append(res[1])
        rounds += [{"rec": r["rec"], "tok": r["tok"]} for r in rec]
    out = []
    for a in AGENTS:
        def go():
            import torch
            model = make_model(a["name"])
            res = model.tensor_processor.prepare_batches(hs, ts)
            rows = {h: rows_of(x, it) for h, x in zip("UDP", res)}
            whole = {h: [it(["row"] + list(r.values())) for r in rows[h]] for h in "UDP"}
            fwd = []
            for size in sizes:
                m = make_model(a["name"])
                torch.manual_seed(SEED)
                got, e = guarded(forward_rows, 120, m, hs, ts, size, a["player"],
                                 lambda t: rows_of(t, it))
                f = {"size": size, "err": e, "U": [], "D": [], "P": []}
                if not e:
                    f.update({h: [it(["row"] + list(r.values())) for r in got[h]] for h in "UDP"})
                fwd.append(f)
            return dict(rows, err="", whole=whole, fwd=fwd)
        res, err = (None, "no game was processed") if not hs else guarded(go, 300)
        out.append(res or {"err": err, "U": [], "D": [], "P": [], "fwd": [],
                           "whole": {"U": [], "D": [], "P": []}})
    return it.vals, {"id": bid, "rounds": rounds, "out": out}, trace


def merge(parts):
    """One value table for all batches."""
    it = record.Interner()
    batches = []
    for vals, b, _ in parts:
        mp = [0] + [it(v) for v in vals]
        mapped = set()
        for r in b["rounds"]:
            for x in r["rec"]:
                x["s"] = [[mp[z] for z in y] for y in x["s"]] if x["k"] == "P" else \
                    [mp[z] for z in x["s"]]
        for o in b["out"]:
            for h in "UDP":
                for x in o[h]:
                    x.update(x=mp[x["x"]], c=[mp[z] for z in x["c"]], a=mp[x["a"]],
                             b=mp[x["b"]], m=mp[x["m"]])
        batches.append(b)
    return it.vals, batches


def make_batches(check, prop):
    jobs = []
    for style, nq, nt, per in [("plan", 4, 40, 2), ("quads", 6, 60, 2), ("reds", 4, 40, 2),
                               ("runs", 4, 40, 2), ("kanmaker", 6, 60, 2), ("tenpai", 4, 40, 2),
                               ("late", 4, 40, 1), ("lastprobe", 4, 60, 1), ("probe", 20, 250, 4),
                               ("claims", 40, 400, 4), ("busy", 8, 80, 1), ("four", 3, 30, 1),
                               ("replacement", 3, 40, 1), ("fourkans", 2, 30, 1), ("options", 4, 40, 2)]:
        for i in range(q(nq, nt)):
            jobs.append(("%s-%d-%s-%d" % (prop, SEED, style, i), per, {"style": style}))
    games = pmap(rc.generated_game, jobs)
    sim = simulated.rounds(check, q(20, 300), prop)
    games += roundprops.minis_as_games(sim, "sim", 4)
    games = games[0::3] + games[1::3] + games[2::3]
    out = []
    for g in rc.real_games():
        out.append((g["id"], [g], [0, 50]))
    if prop == "C15":
        # more rows than the default sample: evaluation uses all of them
        out.append(("many rows", rc.real_games() * 2, [0]))
    i = n = 0
    while i < len(games):
        size = 1 + n % 4
        out.append(("batch-%d" % n, games[i:i + size], [0, 7] if n % 3 == 0 else []))
        i += size
        n += 1
    return out


def run(check, prop):
    import torch                      # imported before forking
    for a in AGENTS:
        __import__("MahjongAI.agents." + a["name"])
    jobs = make_batches(check, prop)
    step = q(len(jobs), 40)
    totals = {}
    for lo in range(0, len(jobs), step):
        part = pmap(record_batch, jobs[lo:lo + step])
        one(check, prop, part, totals)
    check.details["rows_compared"] = totals
    check.assumptions += [
        "rows are observed at prepare_batches() and at the arguments of encoder and decoder in forward()",
        "what a record offers and shows is taken from the record itself; its correctness is C04-C13"]


def one(check, prop, parts, totals):
    if prop == "C15":
        view(check, [x for x in parts if x[1]["id"] != "many rows"])    # once each is enough
    for _, b, trace in parts:
        for g, rec, err in trace:
            if err:
                check.violate("crash processing a game",
                              {"game": g["id"], "error": err,
                               "log": g["xml"] if g["xml"] else g["path"]})
    vals, batches = merge([p for p in parts if p[1]["rounds"]])
    if not batches:
        return
    d = scratch("rows")
    try:
        p = os.path.join(d, "rows.json")
        with open(p, "w") as f:
            json.dump({"props": [prop], "vals": vals, "agents": AGENTS, "batches": batches}, f)
        r = tlc("Rows", env={"TRACE": p}, heap="16g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "Rows")
    if not r.ok:
        raise MachineryError("Rows: %s %s" % (r.violated, r.error or r.out[-3000:]))
    verdicts = [v for v in r.printed if "batch" in v]
    if len(verdicts) != len(batches) * len(AGENTS):
        raise MachineryError("%d verdicts for %d batches" % (len(verdicts), len(batches)))
    byid = {b["id"]: b for b in batches}
    games = {b["id"]: [t[0] for t in tr] for _, b, tr in parts}
    for v in verdicts:
        check.traces += 1
        for h, n in v["rows"].items():
            totals[h] = totals.get(h, 0) + n
        bad = sorted(v["bad"], key=lambda b: (b[3], b[4], b[1]))
        if bad:
            b = bad[0]
            errs = [o["err"] for o in byid[v["batch"]]["out"] if o["err"]]
            check.violate(b[1], {"model": v["model"], "batch": v["batch"], "round of batch": b[3],
                                 "record": b[4], "failed": bad[:8], "errors": errs,
                                 "games": [g["xml"] or g["path"] for g in games[v["batch"]]]})
    check.sample({"batch": verdicts[0]["batch"], "model": verdicts[0]["model"],
                  "rows": verdicts[0]["rows"], "bad": verdicts[0]["bad"]})


def view(check, parts):
    """The recorded state is the deciding player's own view (TraceRound)."""
    import copy
    tv = []
    for vals, _, trace in parts:
        rounds = []
        for g, rec, err in trace:
            if not err and len(rec) != len(g["rounds"]):
                err = "%d rounds recorded of %d" % (len(rec), len(g["rounds"]))
            for i, rd in enumerate(g["rounds"]):
                rounds.append({"id": "%s#%d" % (g["id"], i), "ctx": rd["ctx"], "hands": rd["hands"],
                               "dora": rd["dora"], "scores": rd["scores"], "pot": rd["pot"],
                               "ev": rd["ev"], "rec": [] if err else copy.deepcopy(rec[i]["rec"]),
                               "tok": [] if err else rec[i]["tok"], "err": err or ""})
        tv.append((vals, rounds))
    vals, rounds = rc.merge(tv)
    verdicts = rc.validate(check, ["C15"], vals, rounds)
    rc.judge(check, "C15", rounds, verdicts)
