"""C21: distance to a complete hand (spec/Distance.tla)."""
import itertools, json, os, random, shutil
import common
from common import q, SEED, TIER, pmap, tlc, scratch, guarded, MachineryError

common.add_repo_path()
YAOCHU = [k for k in range(34) if k >= 27 or k % 9 in (0, 8)]


def structured(R, n):
    """A complete hand of the size, with a few tiles exchanged."""
    sets = (n - 1) // 3
    for _ in range(50):
        h = [0] * 34
        form = R.random()
        if n >= 13 and form < 0.15:
            for k in R.sample(range(34), 7):
                h[k] = 2
        elif n >= 13 and form < 0.3:
            for k in YAOCHU:
                h[k] = 1
            h[R.choice(YAOCHU)] += 1
        else:
            suits = R.choice([[0], [1], [0, 1], [2, 3], [3], [0, 1, 2, 3]])
            for _ in range(sets):
                s = R.choice(suits)
                if s == 3 or R.random() < 0.4:
                    k = R.randrange(9 * s, 34 if s == 3 else 9 * s + 9)
                    h[k] += 3
                else:
                    k = 9 * s + R.randrange(7)
                    for j in range(3):
                        h[k + j] += 1
            h[R.randrange(34)] += 2
        while sum(h) > n:
            k = R.randrange(34)
            if h[k]:
                h[k] -= 1
        if max(h) > 4:
            continue
        for _ in range(R.choice([0, 0, 1, 1, 2, 3, 4])):
            a = R.choice([k for k in range(34) if h[k]])
            b = R.choice([k for k in range(34) if h[k] < 4])
            h[a] -= 1
            h[b] += 1
        return h
    return h


def lumpy(R, n, pool):
    """Many tiles of few kinds."""
    h = [0] * 34
    for _ in range(200):
        k = R.choice(pool)
        h[k] = min(h[k] + R.choice([4, 4, 3, 2, 1]), 4, h[k] + n - sum(h))
        if sum(h) == n:
            return h
    return h


def quads(R, n):
    """Kinds held four times, then sets, pairs and beginnings of sets."""
    h = [0] * 34
    for k in R.sample(range(34), min(n // 4, R.choice([1, 2, 2, 3, 3]))):
        h[k if R.random() < 0.5 else R.randrange(27, 34)] = 4
    for _ in range(300):
        left = n - sum(h)
        if left == 0:
            return h
        part = R.choice([[0, 1, 2], [0, 0, 0], [0, 1], [0, 2], [0, 0]] if left > 1 else [[0]])
        k = R.randrange(27)
        if len(part) <= left and k % 9 + max(part) < 9 and all(h[k + j] + part.count(j) <= 4 for j in set(part)):
            for j in part:
                h[k + j] += 1
    return h


def shapes(n, most=4, kinds=7):
    """Ways to hold up to n honours: descending counts of the kinds."""
    yield []
    if kinds:
        for c in range(min(n, most), 0, -1):
            for rest in shapes(n - c, c, kinds - 1):
                yield [c] + rest


def honours(R):
    """Every way to hold honours, with a few suit parts for the rest of the hand."""
    for n in (13, 14, 10, 11, 7, 8, 4, 5):
        for shape in shapes(n):
            rest = n - sum(shape)
            for i in range(q(1, 12) if rest else 1):
                h = [0] * 34
                for k, c in zip(R.sample(range(27, 34), len(shape)), shape):
                    h[k] = c
                form, tries = R.random(), 0
                while rest and sum(h) < n and tries < 200:
                    tries += 1
                    k = R.randrange(27)
                    part = R.choice([[0], [0, 0], [0, 0, 0], [0, 1], [0, 2], [0, 1, 2], [0, 1, 2], [0] * 4])
                    if form < 0.3:
                        part = [0, 1, 2]
                    if k % 9 + max(part) < 9 and len(part) <= n - sum(h) and \
                            all(h[k + j] + part.count(j) <= 4 for j in set(part)):
                        for j in part:
                            h[k + j] += 1
                    if tries > 50:
                        form = 1
                if sum(h) == n:
                    yield h


def hands():
    R = random.Random("c21-%d" % SEED)
    out = []
    for k in range(34):
        out.append([int(i == k) for i in range(34)])
    for a, b in itertools.combinations_with_replacement(range(34), 2):
        h = [0] * 34
        h[a] += 1
        h[b] += 1
        out.append(h)
    pools = [range(34), range(9), range(18), range(24, 34), range(27, 34), YAOCHU, None, None]
    sizes = [13, 13, 13, 14, 14, 14, 10, 11, 7, 8, 4, 5]
    out += honours(R)
    for _ in range(q(2400, 24000)):
        pool = R.choice([range(34), range(27, 34), range(9), range(18), range(24, 34), YAOCHU,
                         R.sample(range(34), 6)])
        n = R.choice(sizes)
        h = lumpy(R, n, list(pool)) if R.random() < 0.5 else quads(R, n)
        if sum(h) == n:
            out.append(h)
    for _ in range(q(6000, 160000)):
        n = R.choice(sizes)
        if R.random() < 0.5:
            out.append(structured(R, n))
            continue
        pool = R.choice(pools)
        pool = R.sample(range(34), R.choice([4, 5, 7])) if pool is None else list(pool)
        tiles = [k for k in pool for _ in range(4)]
        h = [0] * 34
        for k in R.sample(tiles, min(n, len(tiles))):
            h[k] += 1
        if sum(h) == n:
            out.append(h)
    return out


def one(args):
    chunk, seed = args
    import numpy as np
    from MahjongAI.utils.shanten import ShantenSolver
    R = random.Random(seed)
    solver = ShantenSolver()
    out = []

    def solve(a, fresh):
        s = ShantenSolver() if fresh else solver
        s._init(a)
        return s.solve()
    for h in chunk:
        a = np.array(h + [0, 0, 0], dtype=R.choice([np.float32, np.float32, float, int]))
        keep = a.copy()
        d, err = guarded(solve, 60, a, R.random() < 0.5)
        try:
            dd = int(d) if not err and float(d) == int(d) else -999
        except Exception as e:
            dd, err = -999, repr(e)
        out.append({"v": h, "d": dd, "same": bool(np.array_equal(a, keep)), "err": err})
    return out


def run(check):
    check.model("MCDistance")
    if TIER == "thorough":
        check.model("MCDistance", "MCDistanceTwo", timeout=7200)
    hs = hands()
    R = random.Random("c21s-%d" % SEED)
    R.shuffle(hs)
    parts = pmap(one, [(hs[i:i + 500], i) for i in range(0, len(hs), 500)])
    rows = [x for p in parts for x in p]
    d = scratch("dist")
    try:
        p = os.path.join(d, "t.json")
        with open(p, "w") as f:
            json.dump({"hands": rows}, f)
        r = tlc("TraceDistance", env={"TRACE": p}, timeout=q(600, 7200))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "TraceDistance")
    vs = [v for v in r.printed if "verdict" in v]
    if not r.ok or len(vs) != (len(rows) - 1) // 50 + 1:
        raise MachineryError("TraceDistance: %s %s" % (r.violated, r.error or r.out[-3000:]))
    check.traces = len(rows)
    sizes = {}
    for x in rows:
        k = "%d tiles" % sum(x["v"])
        sizes[k] = sizes.get(k, 0) + 1
    check.details["hands_by_size"] = sizes
    ds = {}
    for x in rows:
        ds[x["d"]] = ds.get(x["d"], 0) + 1
    check.details["distances"] = ds
    for v in sorted(vs, key=lambda v: v["verdict"]):
        for b in sorted(v["bad"], key=lambda b: b[1]):
            x = rows[b[1] - 1]
            check.violate(b[0], {"hand (counts per kind)": x["v"], "returned": x["d"],
                                 "error": x["err"], "distance": b[2]})
    check.sample(rows[0])
    check.sample(rows[-1])
