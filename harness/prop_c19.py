"""C19: checkpoints and crashes (spec/Checkpoint.tla).

Every run of train() happens in a process of its own, in a scratch directory,
with a small stand-in for the networks; the process is ended at the chosen
point without any clean-up, as a crash would.
"""
import contextlib, hashlib, io, json, os, pickle, random, shutil, sys
import common, tiny
from common import q, SEED, pmap, tlc, scratch, guarded, MachineryError

common.add_repo_path()

YEARS = list(range(2012, 2020)) + [2021]
MODELS = {"transformer": ("transformer", "TransformerModel"),
          "transformer_conv": ("transformer_conv", "TransformerConvModel"),
          "transformer_conv_large": ("transformer_conv_large", "TransformerConvLargeModel"),
          "transformer_conv_large_3": ("transformer_conv_large", "TransformerConvLargeModel"),
          "transformer_conv_ordered": ("transformer_conv_ordered", "TransformerConvOrderedModel"),
          "transformer_conv_ordered_large_2": ("transformer_conv_ordered", "TransformerConvOrderedModel"),
          "transformer_conv_ordered_large_5": ("transformer_conv_ordered", "TransformerConvOrderedModel")}

LOG = []        # what the stand-in has seen: (mode, year, weights)


def digest_of(sd):
    h = hashlib.sha1()
    for k in sorted(sd):
        h.update(k.encode() + sd[k].detach().cpu().numpy().tobytes())
    return h.hexdigest()[:16]


def define_tiny():
    import torch

    class Tiny(torch.nn.Module):
        def __init__(self, *a, **k):
            super().__init__()
            self.w = torch.nn.Linear(3, 1)
            self.register_buffer("seen", torch.zeros(1))

        def forward(self, halfturns, tokens, **kw):
            for g in halfturns:
                year = 2012 + int(g[0][0].stateObj.honba)
                LOG.append((self.training, year, digest_of(self.state_dict())))
            if self.training:
                CRASH("model")
            for _ in range(2):
                if self.training:
                    self.seen += 1
                x = self.w(torch.ones(1, 3)) + 1.0
                yield x, (x * x).sum()
    return Tiny


CRASH = lambda where: None


def child(cwd, model, max_iters, crash, at, out):
    """Runs train() and writes down what happened, up to the crash."""
    global CRASH
    import torch
    torch.set_num_threads(1)
    os.chdir(cwd)
    state = {"iters": 0, "err": ""}

    def report(code):
        with open(out, "wb") as f:
            pickle.dump({"log": LOG, "err": state["err"]}, f)
            f.flush()
            os.fsync(f.fileno())
        os._exit(code)

    T = define_tiny()
    import importlib
    for mod, cls in MODELS.values():
        setattr(importlib.import_module("MahjongAI.agents." + mod), cls, T)
    saves = [0]
    real_save, real_replace, real_rename = torch.save, os.replace, os.rename

    def years_done():
        y = [x[1] for x in LOG if x[0]]
        return len([i for i in range(len(y)) if i == 0 or y[i] != y[i - 1]])

    def crash_now(where):
        if crash == where and years_done() == at:
            report(9)
    CRASH = crash_now

    def partial(data, f):
        if isinstance(f, (str, bytes, os.PathLike)):
            with open(f, "wb") as g:
                g.write(data)
        else:
            f.write(data)
            f.flush()

    def save(obj, f, *a, **k):
        crash_now("before")
        if crash == "during" and years_done() == at:
            b = io.BytesIO()
            real_save(obj, b, *a, **k)
            data = b.getvalue()
            partial(data[:len(data) // 2], f)
            report(9)
        real_save(obj, f, *a, **k)
        if not isinstance(f, (str, bytes, os.PathLike)):
            f.flush()
        crash_now("written")

    def replace(*a, **k):
        crash_now("replace")
        real_replace(*a, **k)
        crash_now("replaced")
    torch.save, os.replace = save, replace

    def rename(*a, **k):
        crash_now("replace")
        real_rename(*a, **k)
        crash_now("replaced")
    os.rename = rename
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sys.modules.pop("MahjongAI.supervised_learning", None)
            import MahjongAI.supervised_learning as sl
            sl.train(model, max_iters)
    except BaseException as e:
        state["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    report(0)


def run_train(cwd, model, max_iters, crash, at):
    out = os.path.join(cwd, "..", "report-%s" % os.path.basename(cwd))
    pid = os.fork()
    if pid == 0:
        try:
            child(cwd, model, max_iters, crash, at, out)
        finally:
            os._exit(77)
    _, st = os.waitpid(pid, 0)
    if os.path.exists(out):
        with open(out, "rb") as f:
            r = pickle.load(f)
        os.unlink(out)
    else:
        r = {"log": [], "err": "run ended without a report"}
    r["code"] = os.waitstatus_to_exitcode(st)
    return r


def scan(cwd, model):
    """(complete, broken) checkpoints of the model; hash of all other files."""
    import re, torch
    d = os.path.join(cwd, "saved_models")
    good, broken, others = [], 0, {}
    for name in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        p = os.path.join(d, name)
        m = re.fullmatch("model_%s_checkpoint_iter_(\\d+)\\.pt" % re.escape(model), name)
        if m:
            try:
                good.append((int(m.group(1)), digest_of(torch.load(p, map_location="cpu"))))
            except Exception:
                broken += 1
        elif name.startswith("model_") and name.endswith(".pt"):
            others[name] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return good, broken, others


def history(case):
    import torch
    torch.set_num_threads(1)
    R = random.Random("c19/%s/%d" % (case["id"], SEED))
    top = scratch("train")
    cwd = os.path.join(top, "w")
    try:
        os.makedirs(cwd)
        for y in YEARS:
            p = os.path.join(cwd, "data/processed/%d" % y)
            os.makedirs(p)
            for i in range(case["files"]):
                with open(os.path.join(p, "g%d.log" % i), "w") as f:
                    f.write(tiny.game(R, y - 2012))
        os.makedirs(os.path.join(cwd, "saved_models"))
        T = define_tiny()
        ids = {}
        num = lambda w: ids.setdefault(w, len(ids) + 1)
        model = case["model"]
        for name, n in case["init"]:
            t = T()
            torch.nn.init.normal_(t.w.weight)
            torch.save(t.state_dict(), os.path.join(
                cwd, "saved_models", "model_%s_checkpoint_iter_%d.pt" % (name, n)))
        good, broken, others = scan(cwd, model)
        out = {"id": case["id"], "model": model, "init": [[n, num(w)] for n, w in good], "runs": []}
        saved = {w for _, w in good}
        for mx, crash, at in case["runs"]:
            r = run_train(cwd, model, mx, crash, at)
            good2, broken, others2 = scan(cwd, model)
            visits = []
            y = [x for x in r["log"] if x[0]]
            for k, (_, year, w) in enumerate(y):
                if k == 0 or year != y[k - 1][1]:
                    visits.append([year, w])
            known = saved | {w for _, w in good2}
            out["runs"].append({
                "max": mx, "crash": crash if r["code"] == 9 else "", "at": at,
                "planned": crash, "err": r["err"], "broken": broken,
                "visits": [[a, num(w) if w in known else 0] for a, w in visits],
                "disk": [[n, num(w)] for n, w in good2], "others": others2 == others})
            saved |= {w for _, w in good2}
            if crash and r["code"] != 9 and not r["err"]:
                out["runs"][-1]["missed"] = True
        return out
    finally:
        shutil.rmtree(top, ignore_errors=True)


POINTS = ["model", "before", "during", "written", "replace", "replaced"]


def cases():
    R = random.Random("c19-%d" % SEED)
    out = []

    def add(runs, init=(), model=None, files=1):
        out.append({"id": "history-%d" % len(out), "model": model or R.choice(sorted(MODELS)),
                    "init": list(init), "runs": runs, "files": files})
    for m in sorted(MODELS):
        add([(2, "", 0), (1, "", 0)], model=m)
        add([(1, "", 0), (1, "", 0)], [(o, R.choice([2, 30, 7])) for o in sorted(MODELS) if o != m], m)
    # every crash point in every iteration of a run, then two more runs
    for p in POINTS:
        for at in (1, 2, 3):
            add([(3, p, at), (1, "", 0), (1, "", 0)])
            add([(1, "", 0), (2, p, min(at, 2)), (2, "", 0)])
    # pairs of crashes
    for p in POINTS:
        for p2 in POINTS:
            add([(2, p, R.choice([1, 2])), (2, p2, R.choice([1, 2])), (1, "", 0)])
    # past the last year, past one digit
    for start in (6, 7, 8, 9, 15, 98, 99):
        m = R.choice(sorted(MODELS))
        add([(3, "", 0), (1, "during", 1), (1, "", 0)], [(m, start), (m, start - 1), (m, 3)], m)
    add([(10, "", 0), (2, "", 0)], files=2)
    add([(17, "replaced", 9), (1, "", 0)])
    for _ in range(q(60, 600)):
        m = R.choice(sorted(MODELS))
        init = [(R.choice([m, R.choice(sorted(MODELS))]), R.randint(0, 120))
                for _ in range(R.choice([0, 0, 1, 3]))]
        runs = []
        for _ in range(R.randint(2, 5)):
            mx = R.randint(1, 4)
            runs.append((mx, R.choice(POINTS + [""]), R.randint(1, mx)))
        add(runs + [(1, "", 0)], init, m, R.choice([1, 1, 2]))
    return out


def lookups():
    """find_latest_checkpoint over enumerated directories."""
    R = random.Random("c19-look-%d" % SEED)
    out = []
    top = scratch("look")
    cwd = os.getcwd()
    try:
        os.chdir(top)
        with contextlib.redirect_stdout(io.StringIO()):
            import MahjongAI.supervised_learning as sl
        for n in range(q(400, 4000)):
            m = R.choice(sorted(MODELS))
            d = os.path.join(top, "d%d" % n, "saved_models")
            os.makedirs(d)
            names = {}
            for _ in range(R.choice([0, 0, 1, 2, 3, 6])):
                k = R.choice([0, 1, 2, 9, 10, 11, 99, 100, R.randrange(2000)])
                names["model_%s_checkpoint_iter_%d.pt" % (m, k)] = [1, k]
            for _ in range(R.choice([0, 1, 2, 6])):
                k = R.choice([5, 50, 5000, R.randrange(3000)])
                o = R.choice(sorted(set(MODELS) - {m}))
                names[R.choice(["model_%s_checkpoint_iter_%d.pt" % (o, k),
                                "model_%s_checkpoint_iter_%d.pt.tmp" % (m, k),
                                "model_%s_checkpoint_iter_%d.tmp" % (m, k),
                                "tmp_%d" % k, "model_%s_final.pt" % m,
                                "model_%s_checkpoint_iter_.pt" % m])] = [0, k]
            order = sorted(names)
            R.shuffle(order)
            for x in order:
                open(os.path.join(d, x), "w").close()
            res, err = guarded(sl.find_latest_checkpoint, 20, m, d)
            it, f = 0, 0
            if not err:
                try:
                    it = int(res[0])
                    f = 0 if not res[1] else order.index(os.path.basename(res[1])) + 1
                except Exception as e:
                    err = repr(e)
            out.append({"id": "lookup-%d" % n, "model": m, "names": order,
                        "files": [names[x] for x in order], "iter": it, "file": f, "err": err})
            shutil.rmtree(os.path.join(top, "d%d" % n))
        return out
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def run(check):
    check.model("MCCheckpoint")
    r = tlc("MCCheckpoint", "MCCheckpointInPlace")
    if not r.violated:
        raise MachineryError("the in-place model satisfies the invariants")
    check.add_tlc(r, "MCCheckpointInPlace (expected violation: %s)" % r.violated)
    import torch
    for mod, _ in MODELS.values():
        __import__("MahjongAI.agents." + mod)
    # whatever an optimizer imports on first use, once for all children
    t = define_tiny()()
    o = torch.optim.AdamW(t.parameters(), lr=1e-3)
    t.w(torch.ones(1, 3)).sum().backward()
    o.step()
    b = io.BytesIO()
    torch.save(t.state_dict(), b)
    b.seek(0)
    torch.load(b, map_location="cpu")
    cs = cases()
    hs = pmap(history, cs)
    ls = lookups()
    missed = sum(1 for h in hs for x in h["runs"] if x.get("missed"))
    d = scratch("ckpt")
    try:
        p = os.path.join(d, "t.json")
        with open(p, "w") as f:
            json.dump({"histories": hs, "lookups": ls}, f)
        r = tlc("TraceCheckpoint", env={"TRACE": p})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "TraceCheckpoint")
    if not r.ok:
        raise MachineryError("TraceCheckpoint: %s %s" % (r.violated, r.error or r.out[-3000:]))
    vs = {v["verdict"]: v for v in r.printed if "verdict" in v}
    if len(vs) != len(hs) + len(ls):
        raise MachineryError("%d verdicts" % len(vs))
    for x in hs + ls:
        check.traces += 1
        if vs[x["id"]]["bad"]:
            b = min(vs[x["id"]]["bad"], key=lambda b: b[1])
            check.violate(b[0], dict(x, failed=b))
    pts = {}
    for h in hs:
        for x in h["runs"]:
            k = x["planned"] + (" (not reached)" if x.get("missed") else "") if x["planned"] else "none"
            pts[k] = pts.get(k, 0) + 1
    check.details["runs_by_crash_point"] = pts
    check.details["directories_looked_up"] = len(ls)
    check.sample(hs[0])
    check.sample(hs[-1])
    check.assumptions += [
        "os.replace and os.rename are atomic; a crash loses nothing that was written",
        "the networks are replaced by a small module; its weights stand for theirs"]


