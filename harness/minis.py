"""Tiny rounds that enumerate situations exhaustively."""
import itertools, random
import gen
from mjlog import ev, pon_code, ankan_code, kakan_code, chi_code, minkan_code

RED = (16, 52, 88)


def is_five(k):
    return k < 27 and k % 9 == 4


def ctx_of(R):
    rounds = R.choice([4, 8])
    rn = R.randrange(0, 8)
    return {"dealer": rn % 4, "round": rn, "rounds": rounds, "honba": 0}


def complete_deal(R, hands, used, avoid_near=None):
    """Fill hands to 13 from the rest; returns the rest."""
    rest = [t for t in range(136) if t not in used and all(t not in h for h in hands.values())]
    R.shuffle(rest)
    for s in range(4):
        h = hands[s]
        if avoid_near is not None and s in avoid_near:
            k = avoid_near[s]
            good = [t for t in rest if t // 4 // 9 != k // 9 or k >= 27 and t // 4 != k]
            while len(h) < 13:
                t = good.pop()
                rest.remove(t)
                h.append(t)
        else:
            while len(h) < 13:
                h.append(rest.pop())
    return rest


def mk(R, ctx, hands, dora, events):
    return {"ctx": ctx, "hands": [sorted(hands[s]) for s in range(4)], "dora": dora,
            "scores": [250] * 4, "pot": 0, "ev": events}


def call_patterns(k, red):
    """All relevant holdings around a discard of kind k (red: the red five)."""
    opts = []
    if k < 27:
        for off in (-2, -1, 1, 2):
            q = k + off
            if q < 0 or q // 9 != k // 9:
                continue
            if is_five(q):
                opts.append([[], [4 * q + 1], [4 * q], [4 * q, 4 * q + 2]])
            else:
                opts.append([[], [4 * q + 2]])
    same = []
    if is_five(k):
        blacks = [4 * k + 1, 4 * k + 2, 4 * k + 3]
        if red:
            same = [blacks[:n] for n in range(4)]
        else:
            same = [blacks[1:1 + n] + r for n in range(3) for r in ([], [4 * k])]
    else:
        same = [[4 * k + 1, 4 * k + 2, 4 * k + 3][:n] for n in range(4)]
    opts.append(same)
    for combo in itertools.product(*opts):
        yield [t for part in combo for t in part]


def thick(R, k, red):
    """A holding with many copies of the neighbours of a discard of kind k."""
    pat = []
    for off in R.sample((-2, -1, 1, 2), 4):
        q = k + off
        if k < 27 and 0 <= q < 27 and q // 9 == k // 9:
            n = min(R.choice([0, 2, 3, 3, 3, 4]), 10 - len(pat))
            pat += R.sample(range(4 * q, 4 * q + 4), n)
    held = [4 * k + i for i in (1, 2, 3)] if red or not is_five(k) else [4 * k, 4 * k + 2, 4 * k + 3]
    return pat + R.sample(held, R.choice([0, 1, 2, 3]))


def call_minis(seed, tail=True, more=6):
    """Every discard with every holding of neighbours, for the next seat."""
    R = random.Random("cm%s" % seed)
    out = []
    for k in range(34):
        for red in ((False, True) if is_five(k) else (False,)):
            d = 4 * k if (red or not is_five(k)) else 4 * k + 1
            for pat in itertools.chain(call_patterns(k, red), (thick(R, k, red) for _ in range(more))):
                if not is_five(k):
                    # discard any copy, hold others
                    sh = R.sample(range(4), 4)
                    d2 = 4 * k + sh[0]
                    pat = [4 * k + sh[1 + pat_i] if t // 4 == k else t
                           for pat_i, t in [(len([x for x in pat[:i] if x // 4 == k]), t)
                                            for i, t in enumerate(pat)]]
                else:
                    d2 = d
                ctx = ctx_of(R)
                a = ctx["dealer"]
                where = 1 if R.random() < .8 else R.choice([2, 3])
                b = (a + where) % 4
                hands = {s: [] for s in range(4)}
                hands[b] = list(pat)
                drawn = R.random() < .5
                used = {d2}
                if not drawn:
                    hands[a].append(d2)
                rest = complete_deal(R, hands, used, {b: k})
                dora = rest.pop()
                x = d2 if drawn else rest.pop()
                evs = [ev("T", a, x), ev("D", a, d2), ev("END")]
                out.append(mk(R, ctx, hands, dora, evs))
    return out


def kan_minis(seed):
    """Concealed and added kans of every kind, all red placements."""
    R = random.Random("km%s" % seed)
    out = []
    for k in range(34):
        four = [4 * k + i for i in range(4)]
        for held in (3, 4):
            ctx = ctx_of(R)
            a = ctx["dealer"]
            hands = {s: [] for s in range(4)}
            R.shuffle(four)
            hands[a] = four[:held]
            rest = complete_deal(R, hands, set(four), None)
            dora = rest.pop()
            x = four[3] if held == 3 else rest.pop()
            out.append(mk(R, ctx, hands, dora, [ev("T", a, x), ev("END")]))
        # added kan: which tile is claimed, which one comes last
        for claimed, last in itertools.permutations(range(4), 2) if is_five(k) else [
                tuple(R.sample(range(4), 2))]:
            for early in (True, False):
                ctx = ctx_of(R)
                a = ctx["dealer"]
                rel = R.choice([1, 2, 3])
                b = (a + rel) % 4
                hands = {s: [] for s in range(4)}
                c, l = 4 * k + claimed, 4 * k + last
                own = [4 * k + i for i in range(4) if i not in (claimed, last)]
                hands[b] = list(own) + ([l] if early else [])
                used = {4 * k + i for i in range(4)}
                rest = complete_deal(R, hands, used, None)
                dora = rest.pop()
                code = pon_code(own + [c], c, (a - b) % 4)
                junk = R.choice([t for t in hands[b] if t // 4 != k])
                evs = [ev("T", a, c), ev("D", a, c), ev("N", b, 0, code), ev("D", b, junk)]
                s = (b + 1) % 4
                while s != b:
                    t = rest.pop()
                    evs += [ev("T", s, t), ev("D", s, t)]
                    s = (s + 1) % 4
                x = rest.pop() if early else l
                evs.append(ev("T", b, x))
                kk = kakan_code(code, l)
                evs += [ev("N", b, 0, kk), ev("T", b, rest.pop()), ev("DORA", 0, rest.pop())]
                evs.append(ev("END"))
                out.append(mk(R, ctx, hands, dora, evs))
    return out


def riichi_minis(seed, n):
    """Hands around one tile from complete, right after the first draw."""
    R = random.Random("rm%s" % seed)
    out = []
    while len(out) < n:
        p = gen.plan_sets(R)
        if not p["v"]:
            continue
        tiles = []
        for k in range(34):
            c = R.sample(range(4), p["v"][k])
            tiles += [4 * k + i for i in c]
        for _ in range(R.choice([0, 1, 1, 1, 1, 2])):
            tiles.remove(R.choice(tiles))
            if R.random() < .5:      # a near miss: an extra copy of a held kind
                c = [t for u in tiles for t in range(u // 4 * 4, u // 4 * 4 + 4) if t not in tiles]
            else:
                c = [t for t in range(136) if t not in tiles]
            tiles.append(R.choice(c))
        R.shuffle(tiles)
        ctx = ctx_of(R)
        a = ctx["dealer"]
        hands = {s: [] for s in range(4)}
        hands[a] = tiles[:13]
        rest = complete_deal(R, hands, {tiles[13]}, None)
        rd = mk(R, ctx, hands, rest.pop(), [ev("T", a, tiles[13]), ev("END")])
        rd["scores"] = [250] * 4
        rd["scores"][a] = R.choice([250, 250, 250, 9, 10, 11])
        out.append(rd)
    return out
