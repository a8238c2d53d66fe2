"""C27: model names and launches of training (spec/Catalogue.tla).

Each launch runs in a process of its own in a scratch folder, with the real
networks except for their forward pass, which only notes what it is given.
"""
import contextlib, glob, importlib, io, json, os, pickle, random, re, runpy, shutil, sys
import common, tiny
from common import q, SEED, pmap, tlc, scratch, MachineryError
from prop_c19 import YEARS

common.add_repo_path()
FAMILIES = {"plain": ("transformer", "TransformerModel", [1]),
            "conv": ("transformer_conv", "TransformerConvModel", [1]),
            "large": ("transformer_conv_large", "TransformerConvLargeModel", [1, 2, 3, 4]),
            "ordered": ("transformer_conv_ordered", "TransformerConvOrderedModel", [1, 2, 3, 4, 5, 6])}
NAMES = ["transformer", "transformer_conv", "transformer_conv_large", "transformer_conv_large_3",
         "transformer_conv_ordered"] + ["transformer_conv_ordered_large_%d" % i for i in (2, 3, 4, 5)]
ODD = ["", "Transformer", "transformer_conv_large_4", "transformer_large", "transformer_conv_ordered_large",
       "transformer_conv_ordered_large_1", "transformer_conv_ordered_large_6", "transformer_", "conv", "0"]


def shapes(sd):
    return repr(sorted(tuple(v.shape) for v in sd.values()))


def classes():
    return {f: getattr(importlib.import_module("MahjongAI.agents." + m), c)
            for f, (m, c, _) in FAMILIES.items()}


def build(cls, family, blocks):
    return cls() if family in ("plain", "conv") else cls(blocks)


def child(cwd, words, direct, out):
    import torch
    torch.set_num_threads(1)
    os.chdir(cwd)
    seen = {"models": [], "batches": [], "most": 0, "err": ""}

    def forward(self, halfturns, tokens, sample=False, *a, **k):
        s = shapes(self.state_dict())
        if s not in seen["models"]:
            seen["models"].append(s)
        if self.training:
            seen["batches"].append(len(halfturns))
        else:
            seen["most"] = max(seen["most"], len(halfturns))
        w = next(iter(self.parameters()))
        for _ in range(2):
            yield w.detach(), w.sum() * 0.001
    for cls in classes().values():
        cls.forward = forward
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            if direct:
                sys.modules.pop("MahjongAI.supervised_learning", None)
                import MahjongAI.supervised_learning as sl
                sl.train(words[0], int(words[1]))
            else:
                sys.argv = ["supervised_learning.py"] + words
                runpy.run_path(os.path.join(common.REPO, "MahjongAI", "supervised_learning.py"),
                               run_name="__main__")
    except SystemExit as e:
        seen["err"] = "" if e.code in (None, 0) else "exit %s" % e.code
    except BaseException as e:
        seen["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    with open(out, "wb") as f:
        pickle.dump(seen, f)
    os._exit(0)


def session(case):
    import torch
    R = random.Random("c27/%d/%d" % (case["id"], SEED))
    top = scratch("launch")
    cwd = os.path.join(top, "w")
    out = []
    try:
        for yi, y in enumerate(YEARS):
            p = os.path.join(cwd, "data/processed/%d" % y)
            os.makedirs(p)
            n = 3 if y == 2021 else case["games"][yi]
            for i in range(n):
                with open(os.path.join(p, "%s%d.log" % (R.choice("abcxyz"), i)), "w") as f:
                    f.write(tiny.game(R, 1 + i))
            if R.random() < .4:
                with open(os.path.join(p, "m.log"), "w") as f:
                    f.write("<x")
        for words, direct in case["launches"]:
            rep = os.path.join(top, "report")
            if os.path.exists(rep):
                os.unlink(rep)
            pid = os.fork()
            if pid == 0:
                try:
                    child(cwd, words, direct, rep)
                finally:
                    os._exit(77)
            os.waitpid(pid, 0)
            r = {"models": [], "batches": [], "most": 0, "err": "no report"}
            if os.path.exists(rep):
                with open(rep, "rb") as f:
                    r = pickle.load(f)
            cks = []
            for f in sorted(glob.glob(os.path.join(cwd, "saved_models", "*"))):
                m = re.fullmatch(r"model_(.+)_checkpoint_iter_(\d+)\.pt", os.path.basename(f))
                try:
                    s = shapes(torch.load(f, map_location="cpu"))
                except Exception as e:
                    s = "unreadable"
                cks.append([m.group(1) if m else os.path.basename(f), int(m.group(2)) if m else -1, s])
            isint = len(words) > 1 and re.fullmatch(r"-?\d+", words[1]) is not None
            out.append(dict(r, args={"words": len(words), "name": words[0] if words else "",
                                     "int": isint, "n": int(words[1]) if isint else 0},
                            direct=direct, cks=cks))
        return {"games": case["games"], "launches": out}
    finally:
        shutil.rmtree(top, ignore_errors=True)


def cases():
    R = random.Random("c27-%d" % SEED)
    out = []

    def add(launches):
        out.append({"id": len(out), "games": [R.choice([1, 2, 3, 4, 5, 6, 7, 9, 11]) for _ in range(8)],
                    "launches": launches})
    for n in NAMES:
        add([([n, "1"], False), ([n, "2"], False)])
        # in a folder with checkpoints of another
        o = R.choice([m for m in NAMES if m != n])
        add([([o, "1"], True), ([n, "2"], True), ([o, "1"], False), ([n, "1"], False)])
    add([([n, "1"], False) for n in NAMES])
    add([([n, "1"], True) for n in R.sample(NAMES, len(NAMES))])
    add([([n, "1"], d) for n in ODD for d in (False, True)])
    add([([], False), (["transformer"], False), (["transformer", "1", "1"], False), (["1", "transformer"], False),
         (["transformer", "x"], False), (["transformer", "1.5"], False), (["transformer", ""], False),
         (["transformer", "0"], False), (["transformer", "-1"], False), (["transformer", "1"], False)])
    for _ in range(q(12, 150)):
        ls = []
        for _ in range(R.choice([2, 3, 4, 6])):
            x = R.random()
            n = R.choice(NAMES) if R.random() < .85 else R.choice(ODD)
            w = [n, R.choice(["1", "1", "2", "3", "0", "-2", "x"])]
            if x < .08:
                w = w[:R.randrange(2)]
            elif x < .14:
                w += ["1"]
            ls.append((w, x > .5 and len(w) == 2 and w[1] != "x"))
        add(ls)
    return out


def run(check):
    check.model("MCCatalogue")
    table, ids = [], {}
    for fam, cls in classes().items():
        for b in FAMILIES[fam][2]:
            m = build(cls, fam, b)
            sd = m.state_dict()
            table.append({"family": fam, "blocks": b, "size": sum(v.numel() for v in sd.values()),
                          "shape": ids.setdefault(shapes(sd), len(ids) + 1)})
    ss = pmap(session, cases())
    for s in ss:
        for l in s["launches"]:
            l["models"] = [ids.setdefault(x, len(ids) + 1) for x in l["models"]]
            for k in l["cks"]:
                k[2] = ids.setdefault(k[2], len(ids) + 1)
    d = scratch("cat")
    try:
        p = os.path.join(d, "t.json")
        with open(p, "w") as f:
            json.dump({"models": table, "sessions": ss}, f)
        r = tlc("TraceCatalogue", env={"TRACE": p})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "TraceCatalogue")
    vs = [v for v in r.printed if "verdict" in v]
    if not r.ok or len(vs) != len(ss) + 1:
        raise MachineryError("TraceCatalogue: %s %s (%d verdicts)" % (r.violated, r.error or r.out[-3000:], len(vs)))
    check.traces = len(vs)
    check.details.update(sessions=len(ss), launches=sum(len(s["launches"]) for s in ss), models=len(table))
    for v in sorted(vs, key=lambda v: v["verdict"]):
        for b in sorted(v["bad"], key=lambda b: b[1]):
            if v["verdict"] <= len(ss):
                s = ss[v["verdict"] - 1]
                check.violate(b[0], {"games": s["games"], "launches": s["launches"][:b[1]], "models": table})
            else:
                check.violate(b[0], {"models": table})
    check.sample(table[0])
    check.sample({k: v for k, v in ss[0]["launches"][0].items() if k != "cks"})
    check.assumptions += [
        "the forward pass of the networks is replaced by one that notes what it is given",
        "models are told apart by the shapes of their parameters"]
