"""C26: scores depend on a decision's own input and the weights (spec/Scoring.tla)."""
import io, json, os, random, shutil
import common, rows, record, roundcheck as rc
from common import q, SEED, tlc, scratch, guarded, MachineryError, pmap


def fresh(name, torch, seed, blocks=1):
    torch.manual_seed(seed)
    m = rows.make_model(name, blocks)
    m.eval()
    return m


def enlarge(model, torch, seed):
    """Weights that let every part of the network count."""
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in model.parameters():
            if p.dim() >= 2:
                fan = p[0].numel()
                p.copy_(torch.randn(p.shape, generator=g) / fan ** 0.5)
            elif float(p.abs().max()) == 0 or float(p.min()) != 1:
                p.copy_(torch.randn(p.shape, generator=g) * 0.3)


def observe(args):
    agent, gs, ncalls, seed = args
    blocks = agent.get("blocks", 1)
    import torch
    torch.set_num_threads(1)
    R = random.Random("c26/%s/%d" % (agent["name"], seed))
    ids, seen, obs = {}, {}, []
    args_of = {}

    def attach(model):
        def enc(mod, a, k):
            args_of["enc"] = list(a) + list(k.values())

        def dec(mod, a, k):
            args_of["dec"] = list(a) + list(k.values())
        model.encoder.register_forward_pre_hook(enc, with_kwargs=True)
        model.decoder.register_forward_pre_hook(dec, with_kwargs=True)
        return model

    def note(w, logits, where):
        state, mask, y, head = rows.decoder_parts(args_of["dec"])
        comp = rows.encoder_parts(args_of["enc"]) + list(state) + [mask]
        n = logits.shape[0]
        if any(len(c) != n for c in comp):
            raise ValueError("components of different lengths")
        L = logits.detach().double()
        for r in range(n):
            key = (head,) + tuple(c[r].detach().to(torch.float64).numpy().tobytes() for c in comp)
            d = ids.setdefault(key, len(ids) + 1)
            v = L[r][mask[r] == 1]
            known = seen.setdefault((w, d), [])
            for k, x in enumerate(known):
                if float((x - v).abs().max()) <= 1e-3 * (1 + float(v.abs().max())):
                    break
            else:
                known.append(v)
                k = len(known) - 1
            obs.append([w, d, 100000 * (d % 1000) + k, where])

    def whole(model, w, batch, where, **kw):
        for logits, loss in model([g[0] for g in batch], [g[1] for g in batch], **kw):
            note(w, logits, where)

    weights = []
    model = attach(fresh(agent["name"], torch, 1, blocks))
    for w in (1, 2):
        enlarge(model, torch, seed * 10 + w)
        b = io.BytesIO()
        torch.save(model.state_dict(), b)
        weights.append(b.getvalue())

    def load(model, w):
        model.load_state_dict(torch.load(io.BytesIO(weights[w - 1]), map_location="cpu"))
    prep = {}
    for n in range(ncalls):
        w = R.choice([1, 1, 2])
        if n % 4 == 3:
            model = attach(fresh(agent["name"], torch, R.getrandbits(20), blocks))   # a restored model
            load(model, w)
            model.eval()
            where = "restored"
        elif n % 4 == 2:
            model.train()                                   # training in between
            load(model, w)
            g = R.choice(gs)
            for logits, loss in model([g[0]], [g[1]]):
                loss.backward()
            model.zero_grad()
            model.eval()
            where = "after training mode"
        else:
            load(model, w)
            where = "again"
        k = R.choice([1, 1, 2, 3, len(gs)])
        batch = R.sample(gs, min(k, len(gs)))
        kw = R.choice([{}, {}, {"sample": True, "sample_size": R.choice([1, 2, 9, 40])}])
        if R.random() < 0.5:
            with torch.no_grad():
                whole(model, w, batch, where + " whole", **kw)
        else:
            whole(model, w, batch, where + " whole", **kw)
        # rows of several games mixed, at the encoder and decoder
        key = id(batch[0])
        if key not in prep:
            prep[key] = model.tensor_processor.prepare_batches([batch[0][0]], [batch[0][1]])
        for head, t in zip(("during", "discard", "post"), prep[key]):
            if not len(t[0]):
                continue
            idx = torch.tensor([R.randrange(len(t[0])) for _ in range(R.choice([1, 2, 7, 30]))])
            with torch.no_grad():
                e = model.encoder(t[0][idx], *((t[4][idx],) if agent["player"] else ()))
                logits, _ = model.decoder(e, tuple(x[idx] for x in t[1]), t[2][idx], t[3][idx], head)
            note(w, logits, where + " rows")
    return {"inputs": list(range(1, len(ids) + 1)), "obs": obs}


def one(args):
    res, err = guarded(observe, 600, args)
    m = {"name": args[0]["name"], "err": err, "inputs": [], "obs": []}
    m.update(res or {})
    return m


def run(check):
    import torch
    for a in rows.AGENTS:
        __import__("MahjongAI.agents." + a["name"])
    gs = []
    games = pmap(rc.generated_game, [("c26-%d-%d" % (SEED, i), 1, {"style": s})
                                     for i, s in enumerate(["probe", "natural", "probe", "late", "quads"])])
    d = scratch("log")
    try:
        for i, g in enumerate(games):
            path = os.path.join(d, "g%d" % i)
            with open(path, "w") as f:
                f.write(g["xml"])
            res, err = guarded(record.run_process, 60, path)
            if not err:
                gs.append(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if len(gs) < 2:
        check.violate("crash processing a game", {"processed": len(gs)})
        return
    models = pmap(one, [(dict(a, blocks=1 + i % 3), gs, q(16, 120), SEED * 100 + i)
                        for i in range(q(2, 6)) for a in rows.AGENTS])
    d = scratch("score")
    try:
        p = os.path.join(d, "t.json")
        with open(p, "w") as f:
            json.dump({"models": [dict(m, obs=[o[:3] for o in m["obs"]]) for m in models]}, f)
        r = tlc("Scoring", env={"TRACE": p}, heap="16g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "Scoring")
    vs = [v for v in r.printed if "verdict" in v]
    if not r.ok or len(vs) != len(models):
        raise MachineryError("Scoring: %s %s" % (r.violated, r.error or r.out[-3000:]))
    n = 0
    for v in sorted(vs, key=lambda v: v["verdict"]):
        m = models[v["verdict"] - 1]
        n += len(m["obs"])
        check.traces += 1
        if m["err"]:
            check.violate("%s: crash" % m["name"], {"error": m["err"]})
        elif len(m["obs"]) < 100 or v["keys"] * 2 > len(m["obs"]):
            raise MachineryError("too few repeated evaluations")
        for b in sorted(v["bad"], key=lambda b: b[1])[:3]:
            check.violate("%s: %s" % (m["name"], b[0]),
                          {"model": m["name"], "evaluation": b[1], "where": m["obs"][b[1] - 1][3]})
    check.details["evaluations"] = n
    check.details["different_inputs"] = sum(len(m["inputs"]) for m in models)
    check.sample({"model": models[0]["name"], "first evaluations": models[0]["obs"][:5]})
    check.assumptions += ["scores that differ by less than 1e-3 (relative to 1 and their size) count as equal"]
