"""C29: the rows that a training pass uses (spec/Sampling.tla)."""
import json, os, random, shutil
import common, record, rows, roundcheck as rc
from common import q, SEED, pmap, tlc, scratch, guarded, MachineryError

common.add_repo_path()


def blobs(t):
    """Every row as bytes: history, state, options, target and seat."""
    X, state, mask, y = t[:4]
    parts = [X, *state, mask, y] + list(t[4:5])
    n = len(X)
    if any(len(p) != n for p in parts):
        raise ValueError("components of different lengths %s" % [len(p) for p in parts])
    parts = [p.detach().cpu().reshape(n, -1).numpy() for p in parts]
    return [b"|".join(p[i].tobytes() for p in parts) for i in range(n)]


def games_of(args):
    """A game read by the real code."""
    style, i = args
    g = rc.generated_game(("c29-%d-%s-%d" % (SEED, style, i), 1, {"style": style}))
    d = scratch("log")
    try:
        path = os.path.join(d, "g")
        with open(path, "w") as f:
            f.write(g["xml"])
        res, err = guarded(record.run_process, 60, path)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return g, res, err


def batch(args):
    """The rows of a batch, by model and kind."""
    agent, games = args
    import torch
    torch.set_num_threads(1)

    def go():
        m = rows.make_model(agent["name"])
        t = m.tensor_processor.prepare_batches([g[0] for g in games], [g[1] for g in games])
        return {h: blobs(x) for h, x in zip("UDP", t)}
    return guarded(go, 120)


def passes(args):
    """Some passes over one batch with one sample size: the rows each used."""
    agent, games, whole, size, n, seed = args
    import torch, numpy
    torch.set_num_threads(1)
    # every process goes on from numbers of its own; nothing sets them back in between
    torch.manual_seed(seed)
    random.seed(seed)
    numpy.random.seed(seed % 2**32)

    def go():
        hs, ts = [g[0] for g in games], [g[1] for g in games]
        at = {h: {b: i + 1 for i, b in enumerate(whole[h])} for h in "UDP"}
        out = {h: [] for h in "UDP"}
        model = rows.make_model(agent["name"])
        model.train()
        for i in range(n):
            if i % 50 == 49:
                model = rows.make_model(agent["name"])     # and another model of the kind
                model.train()
            got = rows.forward_rows(model, hs, ts, size, agent["player"], blobs)
            for h in "UDP":
                out[h].append([at[h].get(b, 0) for b in got[h]])
        return out
    return guarded(go, 800)


def run(check):
    import torch                      # imported before forking
    for a in rows.AGENTS:
        __import__("MahjongAI.agents." + a["name"])
    check.model("MCSampling")
    found = pmap(games_of, [(s, i) for i in range(q(2, 6))
                                          for s in ("plan", "options", "claims", "late", "runs", "kanmaker")])
    bad = [x for x in found if x[2]]
    if bad:
        check.violate("crash processing a game", {"error": bad[0][2], "log": bad[0][0]["xml"]})
    games = [x[1] for x in found if not x[2]]
    if not games:
        return
    batches = [games[i:i + 2] for i in range(0, len(games) - 1, 2)]
    # and one of the size that training meets, with its sample size
    more = pmap(games_of, [(s, i) for i in range(14) for s in ("late", "options", "busy")])
    batches.append([x[1] for x in more if not x[2]])
    logs = [[g[0]["xml"] for g in found if not g[2]][i:i + 2] for i in range(0, len(games) - 1, 2)]
    logs.append([x[0]["xml"] for x in more if not x[2]])
    whole = pmap(batch, [(a, b) for b in batches for a in rows.AGENTS])
    whole = [whole[i:i + len(rows.AGENTS)] for i in range(0, len(whole), len(rows.AGENTS))]
    K, PART = q(320, 1600), 40
    jobs, of, seed = [], [], SEED * 1000003
    for bi, b in enumerate(batches):
        for ai, a in enumerate(rows.AGENTS):
            w, err = whole[bi][ai]
            if err:
                check.violate("crash preparing a batch", {"model": a["name"], "error": err})
                continue
            sizes = sorted(len(w[h]) for h in "UDP")
            large = bi == len(batches) - 1
            # half of each kind in turn; and a few passes at the limits
            k = [x for x in sizes if x > 1][bi % 3:][:1] or [2]
            plan = [(max(1, k[0] // 2), K)] + [(x, 6) for x in {sizes[bi % 3], sizes[(bi + 1) % 3] + 1,
                                                               sizes[(bi + 2) % 3] - 1, 1, 10**6} if x > 0]
            if large:
                plan = [(2250, q(40, 160)), (sizes[1] - 1, 5)]
            for size, n in plan:
                step = 5 if large else PART
                for lo in range(0, n, step):
                    seed += 1
                    jobs.append((a, b, w, size, min(step, n - lo), seed))
                    of.append((bi, ai, size))
    done = pmap(passes, jobs)
    runs, where = {}, {}
    for key, (out, err) in zip(of, done):
        bi, ai, size = key
        w = whole[bi][ai][0]
        for h in "UDP":
            m = len(w[h])
            if len(set(w[h])) < m:
                continue               # rows that cannot be told apart
            r = runs.setdefault(key + (h,), {"model": rows.AGENTS[ai]["name"], "kind": h, "m": m,
                                             "n": size, "err": "", "draws": []})
            if err:
                r["err"] = err
            else:
                r["draws"] += out[h]
    keys, runs = list(runs), list(runs.values())
    d = scratch("sample")
    try:
        p = os.path.join(d, "t.json")
        with open(p, "w") as f:
            json.dump({"runs": runs}, f)
        r = tlc("TraceSampling", env={"TRACE": p}, heap="12g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "TraceSampling")
    vs = [v for v in r.printed if "verdict" in v]
    if not r.ok or len(vs) != len(runs):
        raise MachineryError("TraceSampling: %s %s" % (r.violated, r.error or r.out[-3000:]))
    for v in sorted(vs, key=lambda v: v["verdict"]):
        x = runs[v["verdict"] - 1]
        check.traces += 1
        told = {"model": x["model"], "kind": x["kind"], "rows": x["m"], "sample size": x["n"],
                "passes": len(x["draws"]), "first": x["draws"][:3]}
        if x["err"]:
            check.violate("crash", dict(told, error=x["err"]))
        for b in sorted(v["bad"]):
            check.violate(b, dict(told, logs=logs[keys[v["verdict"] - 1][0]]))
    judged = {}
    for x in runs:
        if x["n"] < x["m"] and len(x["draws"]) >= 40:
            judged.setdefault(x["model"], []).append([x["kind"], x["m"], x["n"], len(x["draws"])])
    check.details["samples"] = judged
    check.sample({"model": runs[0]["model"], "kind": runs[0]["kind"], "rows": runs[0]["m"],
                  "sample size": runs[0]["n"], "first": runs[0]["draws"][:2]})
    check.assumptions += [
        "rows are observed at the arguments of encoder and decoder, which are stand-ins",
        "kinds with two rows alike are left out",
        "uniform up to the bounds of Hoeffding's inequality, for single rows and for pairs at a few distances"]
