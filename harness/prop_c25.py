"""C25: the training protocol (spec/Training.tla).

train() runs in a process of its own in a scratch directory; the networks are
replaced by a small module whose losses have known gradients, and the steps of
the optimiser are seen through torch's own hooks.
"""
import contextlib, io, json, os, pickle, random, shutil, sys
import common, tiny
from common import q, SEED, pmap, tlc, scratch, guarded, MachineryError
from prop_c19 import MODELS, YEARS, digest_of

common.add_repo_path()
MANY = dict(MODELS, transformer_conv_ordered_large_3=("transformer_conv_ordered", "TransformerConvOrderedModel"),
            transformer_conv_ordered_large_4=("transformer_conv_ordered", "TransformerConvOrderedModel"))
K = 16


def child(cwd, case, out):
    import torch
    torch.set_num_threads(1)
    os.chdir(cwd)
    ev, state = [], {"err": "", "n": 0}
    ids = {}
    heads = random.Random("heads-%s" % case["id"])

    class Tiny(torch.nn.Module):
        def __init__(self, *a, **k):
            super().__init__()
            self.w = torch.nn.Parameter(torch.zeros(K))
            self.drop = torch.nn.Dropout(0.5)
            Tiny.live = self

        def forward(self, halfturns, tokens, sample=False, sample_size=2250):
            g = [int(x[0][0].stateObj.honba) for x in halfturns]
            ev.append({"k": "forward", "train": self.training, "part": bool(sample), "w": num(), "g": g})
            for _ in range(heads.choice([1, 2, 3, 3, 3]) * case["many"]):
                state["n"] += 1
                n = state["n"]
                ev.append({"k": "loss", "n": n, "w": num()})
                # the gradient is n at component n mod K
                yield self.w.detach(), self.w[n % K] * float(n)

    def num():
        return ids.setdefault(digest_of(Tiny.live.state_dict()), len(ids) + 1)

    def grads(opt):
        seen = []
        for grp in opt.param_groups:
            for p in grp["params"]:
                if p.grad is None:
                    continue
                for j, x in enumerate(p.grad.tolist()):
                    if x != 0:
                        seen.append(int(x) if x == int(x) and int(x) % K == j else -1)
        return seen

    def before(opt, a, k):
        ev.append({"k": "step", "g": grads(opt), "lr": round(opt.param_groups[0]["lr"] * 1e9),
                   "w": num(), "v": 0})

    def after(opt, a, k):
        ev[-1]["v"] = num()
    from torch.optim import optimizer as O
    O.register_optimizer_step_pre_hook(before)
    O.register_optimizer_step_post_hook(after)
    import importlib
    for mod, cls in MANY.values():
        setattr(importlib.import_module("MahjongAI.agents." + mod), cls, Tiny)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sys.modules.pop("MahjongAI.supervised_learning", None)
            import MahjongAI.supervised_learning as sl
            sl.train(case["model"], case["max"])
    except BaseException as e:
        state["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    with open(out, "wb") as f:
        pickle.dump({"events": ev, "err": state["err"]}, f)
    os._exit(0)


def one(case):
    R = random.Random("c25/%s/%d" % (case["id"], SEED))
    top = scratch("training")
    cwd = os.path.join(top, "w")
    try:
        years, val = [], []
        for yi, y in enumerate(YEARS):
            p = os.path.join(cwd, "data/processed/%d" % y)
            os.makedirs(p)
            n = case["val"] if y == 2021 else case["games"][yi % len(case["games"])]
            mine = []
            for i in range(n):
                ident = 1 + yi * 3000 + i
                mine.append(ident)
                with open(os.path.join(p, "%s%d.log" % (R.choice("abcxyz"), i)), "w") as f:
                    f.write(tiny.game(R, ident))
            for i in range(R.choice([0, 0, 1, 3])):
                with open(os.path.join(p, "%sbad%d.log" % (R.choice("am~z"), i)), "w") as f:
                    f.write(R.choice(["", "<x", tiny.game(R, 2999, 171), tiny.game(R, 2999)[:-20]]))
            if y == 2021:
                val = mine
            else:
                years.append(mine)
        if case["start"]:
            os.makedirs(os.path.join(cwd, "saved_models"))
            import torch
            torch.save({"w": torch.randn(K)}, os.path.join(
                cwd, "saved_models", "model_%s_checkpoint_iter_%d.pt" % (case["model"], case["start"] - 1)))
        out = os.path.join(top, "report")
        pid = os.fork()
        if pid == 0:
            try:
                child(cwd, case, out)
            finally:
                os._exit(77)
        os.waitpid(pid, 0)
        r = {"events": [], "err": "run ended without a report"}
        if os.path.exists(out):
            with open(out, "rb") as f:
                r = pickle.load(f)
        return {"id": case["id"], "model": case["model"], "start": case["start"], "max": case["max"],
                "years": years, "val": val, "err": r["err"], "events": r["events"]}
    finally:
        shutil.rmtree(top, ignore_errors=True)


def cases():
    R = random.Random("c25-%d" % SEED)
    out = []

    def add(games, val, mx=1, start=0, model=None, many=1):
        out.append({"id": "training-%d" % len(out), "games": games, "val": val, "max": mx,
                    "start": start, "model": model or R.choice(sorted(MANY)), "many": many})
    for m in sorted(MANY):
        add([7, 3, 1], 4, 2, model=m)
        add([2, 6], 31, 1, R.randrange(20), model=m)
    # past the warm-up
    add([30, 31, 29], 3, 3, model="transformer_conv_large", many=q(13, 60))
    # validations in the middle of an iteration
    add([1012], 6, 1, model="transformer")
    add([1003], 3, 1, model="transformer_conv_ordered")
    add([1, 1, 1, 1, 1, 1, 1, 1], 1, 17)
    for _ in range(q(20, 300)):
        add([R.choice([1, 2, 4, 5, 6, 9, 10, 11, 15, 23]) for _ in range(8)],
            R.choice([1, 2, 5, 19, 20, 21, 26, 40]), R.choice([1, 1, 2, 3, 9]), R.choice([0, 0, 5, 7, 8, 31]))
    return out


def means():
    """Direct calls of estimate_loss."""
    import torch
    R = random.Random("c25m-%d" % SEED)
    out = []
    cwd = os.getcwd()
    top = scratch("mean")
    try:
        os.chdir(top)
        with contextlib.redirect_stdout(io.StringIO()):
            sys.modules.pop("MahjongAI.supervised_learning", None)
            import MahjongAI.supervised_learning as sl
        for _ in range(q(300, 5000)):
            bs = R.choice([1, 2, 4, 5])
            batches = [[R.choice([0, 10000 * R.randint(0, 9), R.randint(0, 90000)]) / 1e4
                        for _ in range(R.choice([1, 2, 3, 3]))] for _ in range(R.choice([1, 2, 5, 12, 30]))]

            class Loader:
                batch_size = bs

                def __init__(self):
                    self.at = 0

                def __iter__(self):
                    return self

                def __next__(self):
                    if self.at >= len(batches):
                        raise StopIteration
                    self.at += 1
                    return [self.at - 1], [self.at - 1]

                def reset(self):
                    self.at = 0

            class Model(torch.nn.Module):
                def __init__(self):
                    super().__init__()
                    self.w = torch.nn.Parameter(torch.ones(1))
                    self.used, self.modes, self.grad = [], [], False

                def forward(self, h, t, **kw):
                    self.modes.append(self.training)
                    for x in batches[h[0]]:
                        loss = self.w.sum() * x
                        self.used.append(round(x * 10000))
                        self.grad = self.grad or loss.requires_grad
                        yield self.w, loss
            m, l = Model(), Loader()
            m.train()
            v, err = guarded(sl.estimate_loss, 30, l, m, bs)
            first, modes, at = list(m.used), list(m.modes), l.at
            after = m.training
            grad = m.grad or m.w.grad is not None
            v2, err2 = guarded(sl.estimate_loss, 30, l, m, bs)
            again = m.used[len(first):] == first and at == 0
            out.append({"losses": first, "value": 0 if err else round(float(v) * 10000), "err": err or err2,
                        "eval": not any(modes), "after": after, "again": again, "grad": bool(grad)})
        return out
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def run(check):
    check.model("MCTraining")
    import torch
    for mod, _ in MANY.values():
        __import__("MahjongAI.agents." + mod)
    w = torch.nn.Parameter(torch.ones(2))
    o = torch.optim.AdamW([w], lr=1e-3)
    w.sum().backward()
    o.step()
    b = io.BytesIO()
    torch.save({"w": torch.ones(2)}, b)
    b.seek(0)
    torch.load(b, map_location="cpu")
    rs = pmap(one, cases())
    ms = means()
    d = scratch("trn")
    try:
        p = os.path.join(d, "t.json")
        with open(p, "w") as f:
            json.dump({"runs": rs, "means": ms}, f)
        r = tlc("TraceTraining", env={"TRACE": p})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "TraceTraining")
    vs = [v for v in r.printed if "verdict" in v]
    if not r.ok or len(vs) != len(rs) + len(ms):
        raise MachineryError("TraceTraining: %s %s (%d verdicts)" % (r.violated, r.error or r.out[-3000:], len(vs)))
    check.traces = len(vs)
    check.details.update(training_runs=len(rs), events=sum(len(x["events"]) for x in rs),
                         steps=sum(v["steps"] for v in vs), mean_calls=len(ms))
    for v in sorted(vs, key=lambda v: v["verdict"]):
        c = v["verdict"]
        for b in v["bad"]:
            if c <= len(rs):
                x = rs[c - 1]
                check.violate(b[0], dict(x, events=x["events"][max(0, b[1] - 6):b[1]], at=b[1]))
            else:
                check.violate(b[0], ms[c - 1 - len(rs)])
    check.sample({k: rs[0][k] for k in ("id", "model", "max", "val")})
    check.sample(rs[0]["events"][:12])
    check.sample(ms[0])
    check.assumptions += [
        "the networks are replaced by a module whose losses have known gradients",
        "steps are observed through the hooks that torch offers on optimisers"]
