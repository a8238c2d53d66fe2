"""C16: what the embedding of a history entry depends on (spec/Embedding.tla)."""
import json, os, random, shutil
import common, rows, roundcheck as rc, record
from common import q, SEED, tlc, scratch, guarded, MachineryError, pmap


def entries():
    e = lambda st, ty, who, low: 8192 * st + 1024 * ty + 256 * who + low
    out = [0]
    for s in range(4):
        out += [e(1, 1, s, 128 * f + k) for f in range(2) for k in range(34)]
        out += [e(2, 2, s, n) for n in range(3, 71)]
        out += [e(2, 3, s, 2)]
        out += [e(3, 2, s, n) for n in range(2, 154)]
    return out + [e(4, 4, 0, k) for k in range(34)]


class Classes:
    """Numbers for vectors that are equal up to rounding."""

    def __init__(self, dim):
        import numpy as np
        self.np = np
        self.proj = np.random.RandomState(5).randn(dim)
        self.buckets, self.vecs, self.first = {}, [], []

    def number(self, v, where):
        np = self.np
        if float(np.abs(v).max()) < 1e-9:
            return 0
        x = float(v @ self.proj)
        k = int(np.floor(x / 1e-3))
        for b in (k, k - 1, k + 1):
            for i in self.buckets.get(b, ()):
                if float(np.abs(self.vecs[i] - v).max()) < 1e-5:
                    return i + 1
        self.buckets.setdefault(k, []).append(len(self.vecs))
        self.vecs.append(v)
        self.first.append(where)
        return len(self.vecs)


def token_dtype():
    """How the data preparation presents a history."""
    g = rc.generated_game(("c16", 1, {"style": "natural"}))
    d = scratch("log")
    try:
        path = os.path.join(d, "g")
        with open(path, "w") as f:
            f.write(g["xml"])
        h, t = record.run_process(path)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return h, t


def observe(args):
    agent, full, sample, seed = args
    import torch
    import numpy as np
    torch.set_num_threads(1)
    R = random.Random("c16/%s/%s" % (agent["name"], seed))
    torch.manual_seed(seed)
    model = rows.make_model(agent["name"])
    h, t = token_dtype()
    batch = model.tensor_processor.prepare_batches([h], [t])
    like = batch[1][0]
    model.eval()
    for m in model.encoder.modules():       # attention and feed-forward add nothing
        if isinstance(m, torch.nn.Linear):
            with torch.no_grad():
                m.weight.zero_()
                if m.bias is not None:
                    m.bias.zero_()
    T, E = 150, entries()
    # columns: what to put at each position; all entries at the positions in
    # full, a sample elsewhere; every row of the batch is a different context
    cols = [R.sample(E, len(E)) if p in full else R.sample(E, sample) for p in range(T)]
    n = max(len(c) for c in cols)
    obs = [[] for _ in range(T)]
    cl = None
    viewers = [0, 1, 2, 3] if agent["player"] else [0]
    for v in viewers:
        grid = np.array([[cols[p][i] if i < len(cols[p]) else -1 for p in range(T)]
                         for i in range(n)])
        for lo in range(0, n, 256):
            part = grid[lo:lo + 256]
            toks = torch.tensor(np.where(part < 0, R.choice(E), part)).to(like.dtype)
            a = (toks,)
            if agent["player"]:
                a += (torch.full((len(part),), v, dtype=batch[1][4].dtype),)
            with torch.no_grad():
                out = model.encoder(*a).numpy().astype(np.float64)
            if cl is None:
                cl = Classes(out.shape[-1])
            for i in range(len(part)):
                for p in range(T):
                    if part[i][p] >= 0:
                        e = int(part[i][p])
                        obs[p].append([e, v, cl.number(out[i, p], [p, e, v])])
    # the same entries again in other contexts
    for _ in range(q(40, 200)):
        v = R.choice(viewers)
        row = [R.choice(c) for c in cols]
        toks = torch.tensor([row]).to(like.dtype)
        a = (toks,) + ((torch.full((1,), v, dtype=batch[1][4].dtype),) if agent["player"] else ())
        with torch.no_grad():
            out = model.encoder(*a).numpy().astype(np.float64)
        for p in range(T):
            obs[p].append([row[p], v, cl.number(out[0, p], [p, row[p], v])])
    return {"obs": obs, "first": cl.first, "own": own_weights(model, E, R, like, batch, agent)}


def own_weights(model, E, R, like, batch, agent):
    """Which rows of the weights an entry's embedding changes with, except those of all entries."""
    import torch
    ps = [x for x in model.encoder.parameters() if x.dim() == 2]
    out = []
    for e in E:
        if e == 0 or (e // 256) % 4 != (e % 4 if e < 32768 else 0):
            continue
        p = R.randrange(150)
        toks = torch.zeros((1, 150), dtype=like.dtype)
        toks[0, p] = e
        a = (toks,) + ((torch.full((1,), R.randrange(4), dtype=batch[1][4].dtype),) if agent["player"] else ())
        model.zero_grad()
        y = model.encoder(*a)[0, p]
        (y * torch.randn(y.shape)).sum().backward()
        ids = set()
        for i, x in enumerate(ps):
            if x.grad is not None:
                ids |= {1000 * i + int(r) for r in (x.grad != 0).any(1).nonzero().flatten()[:1000]}
        out.append([e, ids])
    model.zero_grad()
    common_ids = set.intersection(*[x[1] for x in out])
    return [[e, sorted(ids - common_ids)] for e, ids in out]


def one(args):
    agent = args[0]
    res, err = guarded(observe, 600, args)
    m = {"name": agent["name"], "relative": agent["player"], "err": err, "obs": [], "first": [], "own": []}
    if res:
        m.update(res)
    return m


def run(check):
    import torch
    for a in rows.AGENTS:
        __import__("MahjongAI.agents." + a["name"])
    R = random.Random("c16-%d" % SEED)
    full = sorted({0, 149} | set(R.sample(range(150), q(6, 60))))
    models = pmap(one, [(a, full, q(200, 400), SEED) for a in rows.AGENTS])
    d = scratch("emb")
    try:
        p = os.path.join(d, "emb.json")
        with open(p, "w") as f:
            json.dump({"full": [x + 1 for x in full], "models": models}, f)
        r = tlc("Embedding", env={"TRACE": p}, heap="16g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "Embedding")
    if not r.ok:
        raise MachineryError("Embedding: %s %s" % (r.violated, r.error or r.out[-3000:]))
    verdicts = [v for v in r.printed if "model" in v]
    if len(verdicts) != 151 * len(models):
        raise MachineryError("%d verdicts" % len(verdicts))
    n = {}
    for v in verdicts:
        check.traces += 1
        n[v["model"]] = n.get(v["model"], 0) + v["seen"]
        for b in sorted(v["bad"]):
            check.violate("%s: %s" % (b[0], b[1]), {"model": v["model"], "position": v["pos"],
                                                    "failed": v["bad"]})
            break
    check.details["embeddings_observed"] = n
    check.details["positions_with_all_entries"] = full
    check.sample(verdicts[0])
    check.sample(verdicts[-1])
    check.assumptions += [
        "embeddings are observed as the encoder's output with all linear layers of its blocks zero",
        "vectors that differ by less than 1e-5 in every component count as equal"]
