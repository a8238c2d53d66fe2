"""C23: masked scores and the loss (spec/Masking.tla)."""
import json, math, os, random, shutil
import common, rows
from common import q, SEED, tlc, scratch, guarded, MachineryError, pmap
import roundcheck as rc, record

UNIT = 10000.0
BIG = 2000000000


def unit(x):
    if x != x:
        return BIG
    return int(max(-BIG, min(BIG, round(float(x) * UNIT))))


def masks_for(R, n, dim):
    out = []
    for _ in range(n):
        k = R.choice([1, 1, 2, 2, 3, 5, dim // 2, dim - 1, dim])
        on = set(R.sample(range(dim), k))
        if R.random() < 0.3:
            on = set(range(dim)) - on or {R.randrange(dim)}
        if R.random() < 0.4 and len(on) < dim:
            on.add(0)
        out.append([int(a in on) for a in range(dim)])
    return out


def spoil(R, masks):
    """A mask that has to be refused: what it holds, and its description."""
    m = [[float(x) for x in r] for r in masks]
    r = R.randrange(len(m))
    kind = R.choice(["empty", "empty", "value"])
    if kind == "empty":
        m[r] = [0.0] * len(m[r])
    else:
        a = R.randrange(len(m[r]))
        m[r][a] = R.choice([2.0, -1.0, 0.5, float("nan"), float("inf"), 1e-7, 1.5, -0.5, 255.0, 0.999])
        if sum(m[r]) == m[r][a]:
            m[r][(a + 1) % len(m[r])] = 1.0
    return m


def weights(R, torch, model, state0):
    """Some weights for the model: fresh ones, scaled ones, heads with large biases."""
    model.load_state_dict(state0)
    with torch.no_grad():
        k = R.random()
        if k < 0.3:
            f = R.choice([1.0, 10.0, 100.0])
            for p in model.parameters():
                p.mul_(f)
        for name in ("discard", "during", "post"):
            h = rows.head_of(model, name)
            if R.random() < 0.6:
                h.weight.mul_(R.choice([1.0, 50.0, 1e3, 1e6]))
            size = R.choice([0.0, 1.0, 30.0, 1e3, 1e5, 1e8, 4e9, 1e12, 1e30])
            h.bias.copy_(torch.tensor([R.choice([-1, 0, 1, R.uniform(-1, 1)]) * size
                                       for _ in range(len(h.bias))]))


def against(R, torch, head, masks):
    """Head biases that favour what a mask disallows."""
    size = R.choice([10.0, 1e4, 2e9, 1e25])
    m = R.choice(masks)
    with torch.no_grad():
        head.bias.copy_(torch.tensor([(-size if a else R.choice([0, size])) for a in m]))


def games():
    """Processed games with decisions of every kind."""
    g = rc.generated_game(("c23", 4, {"style": "probe"}))
    d = scratch("log")
    out = []
    try:
        path = os.path.join(d, "g")
        with open(path, "w") as f:
            f.write(g["xml"])
        for x in [path] + [r["path"] for r in rc.real_games()[:1]]:
            res, err = guarded(record.run_process, 60, x)
            if not err:
                out.append(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def observe(args):
    agent, ncalls, seed, gs = args
    import torch
    torch.set_num_threads(1)
    R = random.Random("c23/%s/%d" % (agent["name"], seed))
    torch.manual_seed(R.getrandbits(30))
    model = rows.make_model(agent["name"])
    model.eval()
    state0 = {k: v.clone() for k, v in model.state_dict().items()}
    batches = dict(zip(("during", "discard", "post"),
                       model.tensor_processor.prepare_batches([g[0] for g in gs], [g[1] for g in gs])))
    dec = model.decoder
    calls = []
    for n in range(ncalls):
        name = R.choice(["during", "discard", "post"])
        weights(R, torch, model, state0)
        tens = batches[name]
        dim = tens[2].shape[1]
        B = R.choice([1, 1, 2, 3, 5, 8])
        idx = torch.tensor([R.randrange(len(tens[0])) for _ in range(B)])
        state = tuple(x[idx] for x in tens[1])
        masks = masks_for(R, B, dim)
        if R.random() < 0.5:
            against(R, torch, rows.head_of(model, name), masks)
        bad = R.random() < 0.25
        given = spoil(R, masks) if bad else masks
        y = [R.choice([a for a in range(dim) if m[a]]) for m in masks]
        if R.random() < 0.5:
            with torch.no_grad():
                a = (tens[0][idx],) + ((tens[4][idx],) if agent["player"] else ())
                enc = model.encoder(*a)
        else:
            with torch.no_grad():
                enc = torch.randn_like(model.encoder(tens[0][idx], *((tens[4][idx],) if agent["player"] else ()))) \
                    * R.choice([0.1, 1.0, 20.0])
        M = torch.tensor(given, dtype=tens[2].dtype)
        Y = torch.tensor(y, dtype=tens[3].dtype)

        def call(mask):
            with torch.no_grad():
                return dec(enc.clone(), tuple(x.clone() for x in state), mask, Y.clone(), name)
        c = {"model": agent["name"], "head": name,
             "masks": [[int(v) if v in (0, 1) else 2 for v in r] for r in given],
             "refused": False, "err": "", "rows": [], "loss": 0, "lossy": False}
        try:
            logits, loss = call(M.clone())
        except Exception as e:
            c["refused"], c["err"] = True, "%s: %s" % (type(e).__name__, str(e)[:100])
            calls.append(c)
            continue
        if bad:
            calls.append(c)
            continue
        full, _ = call(torch.ones_like(M))
        L = logits.double()
        if L.isnan().any() or full.isnan().any():      # overflow inside the network
            continue
        P = torch.softmax(L, dim=1)
        for r in range(L.shape[0]):
            on = [a for a in range(dim) if masks[r][a]]
            top = max(L[r].tolist())
            lp = float(torch.log_softmax(L[r], dim=0)[y[r]])
            kept = 0.0
            d = (L[r][on] - full[r][on].double())
            scale = max(1.0, float(L[r][on].abs().max()))
            kept = float((d - d[0]).abs().max()) / scale if on else 0.0
            c["rows"].append({"positive": [a + 1 for a in range(dim) if float(P[r][a]) > 0],
                              "best": [a + 1 for a in range(dim) if float(L[r][a]) == top],
                              "nll": unit(-lp), "kept": unit(kept)})
        c["lossy"] = all(abs(x["nll"]) < 10000000 for x in c["rows"]) and \
            float(full.abs().max()) < 1e5
        c["loss"] = unit(float(loss)) if c["lossy"] else 0
        calls.append(c)
    return calls


def one(args):
    res, err = guarded(observe, 600, args)
    return res, err


def run(check):
    import torch
    for a in rows.AGENTS:
        __import__("MahjongAI.agents." + a["name"])
    check.model("MCMasking")
    r = tlc("MCMasking", "MCMaskingHigh")
    if r.violated != "Sound":
        raise MachineryError("a floor within reach of the scores passes: %s" % (r.error or r.out[-2000:]))
    check.add_tlc(r, "MCMaskingHigh (expected violation: Sound)")
    n = q(8, 16)
    gs = games()
    if not gs:
        check.violate("crash", {"error": "no game could be processed"})
        return
    parts = pmap(one, [(a, q(60, 1200), SEED * 100 + i, gs) for i in range(n) for a in rows.AGENTS])
    calls = []
    for res, err in parts:
        if err:
            check.violate("crash", {"error": err})
        else:
            calls += res
    if not calls:
        return
    d = scratch("mask")
    try:
        p = os.path.join(d, "t.json")
        with open(p, "w") as f:
            json.dump({"calls": calls}, f)
        r = tlc("TraceMasking", env={"TRACE": p}, heap="16g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "TraceMasking")
    vs = [v for v in r.printed if "verdict" in v]
    if not r.ok or len(vs) != (len(calls) - 1) // 20 + 1:
        raise MachineryError("TraceMasking: %s %s" % (r.violated, r.error or r.out[-3000:]))
    check.traces = len(calls)
    kinds = {}
    for c in calls:
        k = "%s %s %s" % (c["model"], c["head"], "refused" if c["refused"] else
                          "with loss" if c["lossy"] else "scores only")
        kinds[k] = kinds.get(k, 0) + 1
    check.details["decoder_calls"] = kinds
    for v in sorted(vs, key=lambda v: v["verdict"]):
        for b in sorted(v["bad"], key=lambda b: b[1]):
            check.violate("%s: %s" % (calls[b[1] - 1]["model"], b[0]), {"call": calls[b[1] - 1]})
    check.sample({k: calls[0][k] for k in ("model", "head", "refused", "loss")})
    check.assumptions += [
        "probabilities are the softmax in double precision of the scores that the decoder returns",
        "the decoder is called in evaluation mode on prepared states, with masks, targets and weights of the check's choice"]
