"""C28: scores use the whole view, and training reaches every weight (spec/Influence.tla)."""
import contextlib, importlib, io, json, os, pickle, random, shutil, sys
import common, record, rows, roundcheck as rc
from common import q, SEED, pmap, tlc, scratch, guarded, MachineryError
from prop_c26 import enlarge
from prop_c27 import FAMILIES, build

common.add_repo_path()
HEADS = ("during", "discard", "post")
NAME_OF = {("plain", 1): "transformer", ("conv", 1): "transformer_conv", ("large", 2): "transformer_conv_large",
           ("large", 3): "transformer_conv_large_3", ("ordered", 1): "transformer_conv_ordered",
           ("ordered", 2): "transformer_conv_ordered_large_2", ("ordered", 3): "transformer_conv_ordered_large_3",
           ("ordered", 4): "transformer_conv_ordered_large_4", ("ordered", 5): "transformer_conv_ordered_large_5"}


def cls_of(family):
    m, c, _ = FAMILIES[family]
    return getattr(importlib.import_module("MahjongAI.agents." + m), c)


def look(family, blocks, games, seed):
    """Which inputs and weights change the scores, for weights chosen at random."""
    import torch
    torch.set_num_threads(1)
    R = random.Random("c28/%s/%d/%d" % (family, blocks, seed))
    torch.manual_seed(seed)
    model = build(cls_of(family), family, blocks).eval()
    names = [n for n, _ in model.named_parameters()]
    weights = {n: {"size": p.numel(), "during": 0, "discard": 0, "post": 0} for n, p in model.named_parameters()}
    kinds = {h: {"cells": None, "entries": [0] * 150, "swaps": [], "seats": []} for h in HEADS}
    pool = sorted({t for g in games for ts in g[1] for t in ts})
    # at least two entries of every kind
    pool = sorted(set(pool) | {8192 * 1 + 1024 + 3, 8192 * 1 + 1024 + 128 + 300, 8192 * 2 + 2048 + 5, 8192 * 2 + 2048 + 265,
                               8192 * 3 + 2048 + 7, 8192 * 3 + 2048 + 300, 8192 * 4 + 4096 + 1, 8192 * 4 + 4096 + 20})
    groups = [[t for t in pool if t // 8192 == k] for k in (1, 2, 3, 4)]
    for turn in range(q(2, 5)):
        enlarge(model, torch, seed * 100 + turn)
        prep = model.tensor_processor.prepare_batches([g[0] for g in games], [g[1] for g in games])
        for h, t in zip(HEADS, prep):
            K = kinds[h]
            n = len(t[0])
            idx = torch.tensor(R.sample(range(n), min(n, 120)))
            who = (t[4][idx],) if family == "ordered" else ()
            state = tuple(x[idx].clone().requires_grad_(True) for x in t[1])
            model.zero_grad()
            logits, loss = model.decoder(model.encoder(t[0][idx], *who), state, t[2][idx], t[3][idx], h)
            on = t[2][idx] == 1
            (torch.randn(on.shape) * on * logits.masked_fill(~on, 0)).sum().backward()
            cells = [(x.grad != 0).any(0).reshape(-1).int() for x in state]
            K["cells"] = cells if K["cells"] is None else [a | b for a, b in zip(K["cells"], cells)]
            for k, p in model.named_parameters():
                if p.grad is not None and bool((p.grad != 0).any()):
                    weights[k][h] = 1
            with torch.no_grad():
                r = int(t[2].sum(1).argmax())

                def scores(hist, seats=None):
                    m = len(hist)
                    who = ()
                    if family == "ordered":
                        who = (torch.tensor(seats) if seats else t[4][r:r + 1].repeat(m),)
                    e = model.encoder(torch.tensor(hist, dtype=t[0].dtype), *who)
                    rep = lambda x: x[r:r + 1].repeat(m, *([1] * (x.dim() - 1)))
                    lg, _ = model.decoder(e, tuple(rep(x) for x in t[1]), rep(t[2]), rep(t[3]), h)
                    return lg[:, t[2][r] == 1].double()

                def differ(a, b):
                    return int(float((a - b).abs().max()) > 1e-5 * (1 + float(b.abs().max())))
                hist = [R.choice(R.choice(groups)) for _ in range(150)]
                var = []
                for i in range(150):
                    v = list(hist)
                    v[i] = R.choice([x for x in pool if x != hist[i]])
                    var.append(v)
                pairs = []
                while len(pairs) < 25:
                    i, j = R.sample(range(150), 2)
                    one_kind = hist[i] // 8192 == hist[j] // 8192 == 1 + len(pairs) % 4
                    if hist[i] != hist[j] and (one_kind or len(pairs) >= 20):
                        v = list(hist)
                        v[i], v[j] = v[j], v[i]
                        pairs.append(v)
                s = scores([hist] + var + pairs)
                K["entries"] = [a | differ(s[1 + i], s[0]) for i, a in enumerate(K["entries"])]
                sw = [differ(s[151 + i], s[0]) for i in range(25)]
                K["swaps"] = [a | b for a, b in zip(K["swaps"] or [0] * 25, sw)]
                if family == "ordered":
                    s = scores([hist] * 4, [0, 1, 2, 3])
                    st = [differ(s[a], s[b]) for a in range(4) for b in range(a)]
                    K["seats"] = [a | b for a, b in zip(K["seats"] or [0] * 6, st)]
    for K in kinds.values():
        K["cells"] = [x.tolist() for x in K["cells"]]
    return kinds, weights


def train_child(cwd, name, out):
    import torch
    torch.set_num_threads(1)
    os.chdir(cwd)
    err = ""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            torch.manual_seed(SEED)
            sys.modules.pop("MahjongAI.supervised_learning", None)
            import MahjongAI.supervised_learning as sl
            sl.train(name, 2)
    except BaseException as e:
        err = "%s: %s" % (type(e).__name__, str(e)[:200])
    with open(out, "wb") as f:
        pickle.dump(err, f)
    os._exit(0)


def trained(name, logs):
    """Parameters that two iterations of the real training change."""
    import torch
    top = scratch("reach")
    try:
        for y in list(range(2012, 2020)) + [2021]:
            p = os.path.join(top, "w/data/processed/%d" % y)
            os.makedirs(p)
            for i, x in enumerate(logs if y != 2021 else logs[:1]):
                with open(os.path.join(p, "g%d.log" % i), "w") as f:
                    f.write(x)
        pid = os.fork()
        if pid == 0:
            try:
                train_child(os.path.join(top, "w"), name, os.path.join(top, "report"))
            finally:
                os._exit(77)
        os.waitpid(pid, 0)
        with open(os.path.join(top, "report"), "rb") as f:
            err = pickle.load(f)
        if err:
            raise RuntimeError(err)
        a, b = [torch.load(os.path.join(top, "w/saved_models/model_%s_checkpoint_iter_%d.pt" % (name, i)),
                           map_location="cpu") for i in (0, 1)]
        return {k: int(not torch.equal(a[k], b[k])) for k in a}
    finally:
        shutil.rmtree(top, ignore_errors=True)


def one(args):
    family, blocks, games, logs, seed = args
    name = NAME_OF.get((family, blocks))
    m = {"family": family, "blocks": blocks, "err": "", "trained": name is not None, "kinds": {}, "weights": []}

    def go():
        kinds, weights = look(family, blocks, games, seed)
        ch = trained(name, logs) if name else {}
        m["kinds"] = kinds
        # a parameter that no checkpoint holds is not trained for good
        m["weights"] = [dict(w, name=n, changed=ch.get(n, 0)) for n, w in weights.items()]
    _, err = guarded(go, 700)
    m["err"] = err
    return m


def run(check):
    check.model("MCInfluence")
    games, logs = [], []
    for i in range(40):
        s = ["natural", "quads", "probe", "late", "yaku"][i % 5]
        g = rc.generated_game(("c28-%d-%d" % (SEED, i), 1, {"style": s}))
        d = scratch("log")
        try:
            path = os.path.join(d, "g")
            with open(path, "w") as f:
                f.write(g["xml"])
            res, err = guarded(record.run_process, 60, path)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if not err:
            games.append(res)
            logs.append(g["xml"])
        if len(games) == 5:
            break
    if len(games) < 3:
        check.violate("crash processing a game", {"processed": len(games)})
        return
    jobs = [("ordered", 2), ("large", 3), ("large", 2), ("ordered", 3), ("plain", 1), ("conv", 1),
            ("ordered", 1), ("large", 1)] + q([], [("ordered", 5), ("ordered", 4)])
    models = pmap(one, [(f, b, games, logs, SEED + i) for i in range(q(1, 3)) for f, b in jobs])
    d = scratch("infl")
    try:
        p = os.path.join(d, "t.json")
        with open(p, "w") as f:
            json.dump({"models": models}, f)
        r = tlc("TraceInfluence", env={"TRACE": p})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "TraceInfluence")
    vs = [v for v in r.printed if "verdict" in v]
    if not r.ok or len(vs) != len(models):
        raise MachineryError("TraceInfluence: %s %s" % (r.violated, r.error or r.out[-3000:]))
    for v in sorted(vs, key=lambda v: v["verdict"]):
        m = models[v["verdict"] - 1]
        check.traces += 1
        if m["err"]:
            check.violate("%s: crash" % m["family"], {"model": [m["family"], m["blocks"]], "error": m["err"]})
        for b in sorted(v["bad"]):
            check.violate("%s: %s" % (m["family"], b),
                          {"model": [m["family"], m["blocks"]], "weights": m["weights"],
                           "ignored": {h: {"cells": [[i for i, x in enumerate(c) if not x] for c in K["cells"]],
                                           "entries": [i for i, x in enumerate(K["entries"]) if not x]}
                                       for h, K in m["kinds"].items()}})
    check.details["models"] = [[m["family"], m["blocks"], len(m["weights"])] for m in models]
    check.details["weights_that_count_for_nothing"] = {
        "%s %d" % (models[v["verdict"] - 1]["family"], models[v["verdict"] - 1]["blocks"]): v["dead"] for v in vs}
    check.sample({"model": [models[0]["family"], models[0]["blocks"]], "weights": models[0]["weights"][:5]})
    check.assumptions += [
        "influence on the scores is tried for a few random weights, games and histories; gradients count if not zero, "
        "changes of the history if a score differs by 1e-5",
        "a tensor of weights counts as trained if some number in it changes in two iterations"]
