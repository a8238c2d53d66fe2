"""C24: processing is repeatable and rounds are independent (spec/Repeat.tla)."""
import json, os, random, shutil, subprocess, sys
import common, mjlog, digest, record, roundcheck as rc
from common import q, SEED, pmap, tlc, scratch, MachineryError
from prop_c17 import pool

TYPES = [169, 161, 9, 1, 225, 137]


def overwrite(x, R, depth=0, seen=None):
    """Fill everything mutable in returned records with other values."""
    import numpy as np
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 12:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fiub":
            x.fill(3)
    elif isinstance(x, list):
        for y in x:
            overwrite(y, R, depth + 1, seen)
        if x and all(isinstance(y, (int, float)) for y in x):
            x[:] = [7] * len(x) + [5]
        elif x and R.random() < 0.5:
            x.pop()
    elif isinstance(x, tuple):
        for y in x:
            overwrite(y, R, depth + 1, seen)
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("MahjongAI"):
        for k, y in list(vars(x).items()):
            if isinstance(y, (int, float)) and not isinstance(y, bool):
                setattr(x, k, 9)
            else:
                overwrite(y, R, depth + 1, seen)


def session(args):
    d = scratch("session")
    try:
        return steps_of(args, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def steps_of(args, folder):
    """Logs come and go under the same few names of one folder."""
    sid, rounds, n = args
    R = random.Random("c24-%s" % sid)
    steps, last, there = [], [], {}
    for _ in range(n):
        if last and R.random() < 0.25:
            overwrite(last.pop(), R)
            steps.append({"op": "overwrite", "type": 0, "keys": [], "data": [], "err": ""})
            continue
        keys = R.sample(range(len(rounds)), R.choice([1, 1, 2, 3, 4]))
        if R.random() < 0.2:
            keys.append(keys[0])
        t = R.choice(TYPES)
        name = R.choice(["a", "game.log", "z.xml"])
        xml = mjlog.game_xml([rounds[k] for k in keys], t)
        if name in there and R.random() < 0.3:
            keys, t = there[name]
            xml = None                      # the file that is there already
        there[name] = (keys, t)
        kind, data, res = digest.process_xml(xml, name=name, verbose=R.random() < 0.1, folder=folder)
        if kind == "ok" and res is not None:
            last.append(res)
        steps.append({"op": "process", "type": t, "keys": [k + 1 for k in keys], "data": data,
                      "err": "" if kind == "ok" else kind})
    return steps


def fresh(args):
    """The same in an interpreter of its own, with its own hash seed."""
    sid, rounds, n, hashseed = args
    d = scratch("sess")
    try:
        p = os.path.join(d, "in.json")
        with open(p, "w") as f:
            json.dump([sid, rounds, n], f)
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_REEXEC="1")
        r = subprocess.run([sys.executable, os.path.abspath(__file__), p], env=env, cwd=d,
                           capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise MachineryError("session: " + r.stderr[-2000:])
        return json.loads(r.stdout.splitlines()[-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(check):
    rounds = pool()
    R = random.Random("c24-%d" % SEED)
    # a session uses few rounds, so that they meet again
    jobs = []
    groups = [R.sample(range(len(rounds)), 8) for _ in range(q(6, 30))]
    for i in range(q(16, 96)):
        jobs.append((i, groups[i % len(groups)], q(40, 120)))
    all_steps, where = [], []
    parts = pmap(_session_job, [("%d/%d" % (SEED, i), [rounds[k] for k in g], n) for i, g, n in jobs])
    parts += pmap(_fresh_job, [("%d/f%d" % (SEED, i), [rounds[k] for k in groups[i % len(groups)]],
                                q(12, 40), i + 1) for i in range(q(4, 16))])
    gs = [g for _, g, _ in jobs] + [groups[i % len(groups)] for i in range(q(4, 16))]
    for si, (steps, g) in enumerate(zip(parts, gs)):
        for k, s in enumerate(steps):
            s["keys"] = [g[x - 1] + 1 for x in s["keys"]]
            all_steps.append(s)
            where.append((si, k))
    d = scratch("rep")
    try:
        p = os.path.join(d, "rep.json")
        with open(p, "w") as f:
            json.dump({"steps": all_steps}, f)
        r = tlc("Repeat", env={"TRACE": p}, workers=1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "Repeat")
    vs = [v for v in r.printed if "verdict" in v]
    if not r.ok or len(vs) != 1:
        raise MachineryError("Repeat: %s %s" % (r.violated, r.error or r.out[-3000:]))
    v = vs[0]
    check.traces = len(parts)
    check.details["steps"] = v["seen"]
    check.details["distinct_rounds_and_types"] = v["keys"]
    for b in sorted(v["bad"], key=lambda b: b[1])[:20]:
        si, k = where[b[1] - 1]
        first = b[1] - 1 - k
        s = all_steps[b[1] - 1]
        check.violate(b[0], {"session": si, "step": k,
                             "session so far": [{"op": x["op"], "type": x["type"], "rounds": x["keys"],
                                                 "err": x["err"]} for x in all_steps[first:b[1]]],
                             "log": mjlog.game_xml([rounds[y - 1] for y in s["keys"]], s["type"])})
    check.sample({"steps": [{"op": x["op"], "type": x["type"], "rounds": x["keys"]}
                            for x in all_steps[:6]]})
    check.assumptions.append("records are compared through digests of all their public attributes")


def _session_job(a):
    return session(a)


def _fresh_job(a):
    return fresh(a)


if __name__ == "__main__":
    a = json.load(open(sys.argv[1]))
    print(json.dumps(session(a)))
