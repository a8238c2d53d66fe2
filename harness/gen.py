"""Generator of legal rounds, directed at rare situations.

It plays with its own bookkeeping and with the rules as the third-party
mahjong library has them; nothing of the code under test is used.  Whether a
generated round is a behaviour of the specification is decided by TLC
(TraceRound: a round that is not gets the verdict INPUT and is not used).
"""
import random
from mahjong.shanten import Shanten
from mahjong.agari import Agari
from mahjong.hand_calculating.hand import HandCalculator
from mahjong.hand_calculating.hand_config import HandConfig, OptionalRules
from mahjong.meld import Meld
from mjlog import ev, chi_code, pon_code, kakan_code, minkan_code, ankan_code, code_type

YAO = [0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33]
OPT = OptionalRules(has_open_tanyao=True, has_aka_dora=True, fu_for_open_pinfu=True,
                    fu_for_pinfu_tsumo=False)
HC = HandCalculator()


def kinds34(tiles):
    v = [0] * 34
    for t in tiles:
        v[t // 4] += 1
    return v


def is_complete(v):
    n = sum(v)
    if n % 3 != 2:
        return False
    return Agari.is_agari(v)


def shanten(v):
    return Shanten.calculate_shanten(v)


# ------------------------------------------------------------------ plans
def pick_pool(R):
    m = R.choice(["any", "any", "suit", "two", "yao", "hon", "quad", "simple"])
    if m == "any":
        return list(range(34))
    if m == "suit":
        s = R.randrange(3)
        return list(range(9 * s, 9 * s + 9)) + ([27, 28, 29, 30, 31, 32, 33] if R.random() < .4 else [])
    if m == "two":
        return list(range(18))
    if m == "yao":
        return list(YAO)
    if m == "hon":
        return list(range(27, 34)) + list(range(9 * R.randrange(3), 9 * R.randrange(3) + 9))
    if m == "quad":
        return R.sample(range(34), 7)
    return [k for k in range(27) if k % 9 not in (0, 8)]


def plan_sets(R):
    """A complete hand as (sets with open flag, pair) or a special hand."""
    for _ in range(200):
        ks = pick_pool(R) or list(range(34))
        r = R.random()
        if r < 0.06:
            if len(ks) < 7:
                continue
            v = [0] * 34
            for k in R.sample(ks, 7):
                v[k] = 2
            return {"v": v, "open": []}
        if r < 0.09:
            v = [0] * 34
            for k in YAO:
                v[k] = 1
            v[R.choice(YAO)] += 1
            return {"v": v, "open": []}
        sets = []
        for _ in range(4):
            if R.random() < 0.55:
                c = [k for k in ks if k < 27 and k % 9 <= 6 and k + 1 in ks and k + 2 in ks]
                k = R.choice(c) if c else R.choice([k for k in range(27) if k % 9 <= 6])
                sets.append(("R", k))
            else:
                sets.append(("T", R.choice(ks)))
        if R.random() < 0.25:
            n = R.randrange(7)
            s = 9 * R.randrange(3)
            sets[:3] = R.choice([[("R", n), ("R", n + 9), ("R", n + 18)],
                                 [("T", n), ("T", n + 9), ("T", n + 18)],
                                 [("R", s), ("R", s + 3), ("R", s + 6)],
                                 [("R", s + n), ("R", s + n), ("R", s + (n + 1) % 7)]])
            R.shuffle(sets)
        pair = R.choice(ks)
        v = [0] * 34
        for ty, k in sets:
            for x in ([k] * 3 if ty == "T" else [k, k + 1, k + 2]):
                v[x] += 1
        v[pair] += 2
        if max(v) > 4:
            continue
        nm = R.choice([0, 0, 0, 1, 1, 2, 3, 4])
        opened = [(ty, k, R.random() < 0.3) for ty, k in sets[:nm]]
        return {"v": v, "open": opened, "pair": pair}
    return {"v": None, "open": []}


class Style:
    def __init__(self, R, name=None):
        self.name = name or R.choice(
            ["natural", "plan", "plan", "plan", "quads", "quads", "reds", "runs", "tenpai",
             "kanmaker", "kanmaker", "kanmaker", "late"])
        n = self.name
        self.p_good = {"natural": .1, "plan": .35, "quads": .4, "reds": .2, "runs": .2,
                       "tenpai": .3, "kanmaker": .5, "late": 0, "busy": .3,
                       "four": .4}[n]
        self.p_feed = R.choice([0, .2, .5])
        self.p_pon = R.choice([0, .3, 1]) if n != "plan" else .15
        self.p_chi = R.choice([0, .3, .8]) if n != "plan" else .1
        self.p_minkan = R.choice([0, .3, .8])
        self.p_ankan = R.choice([0, .5, 1])
        self.p_kakan = R.choice([.3, 1])
        self.p_riichi = R.choice([0, .5, 1])
        self.p_win = R.choice([0, 0, .15, .5, 1])
        self.p_end = R.choice([0, 0, 0, .01, .03])
        self.p_tsumogiri = R.choice([.1, .3, .6])
        self.p_win_kan = R.choice([self.p_win, 1, 1])
        self.p_win_last = R.choice([self.p_win, 1])
        self.smart = R.random() < (.9 if n in ("plan", "tenpai", "late") else .3)
        self.max_kans = R.choice([2, 3, 3, 3, 4])
        if n == "kanmaker":
            self.p_pon, self.p_minkan, self.p_kakan, self.p_ankan = 1, 0, 1, R.choice([0, 1])
            self.p_win, self.p_feed, self.p_tsumogiri = R.choice([0, 0, .1]), .45, .95
            self.p_chi = 0
            self.p_win_kan = R.choice([0, 1, 1])
        if n == "four":
            # everybody declares riichi
            self.p_win = self.p_end = self.p_pon = self.p_chi = self.p_minkan = self.p_feed = 0
            self.p_riichi, self.smart, self.p_ankan = 1, True, R.choice([0, .5])
        if n == "busy":
            # as many events as a round can have
            self.p_win = self.p_end = 0
            self.p_pon = self.p_chi = self.p_kakan = self.p_minkan = 1
            self.p_win_last, self.p_feed, self.smart = .5, .5, False
            self.p_tsumogiri, self.p_riichi, self.max_kans = .9, R.choice([0, .5]), R.choice([0, 3])
            self.p_ankan = R.choice([0, .5])
            self.p_win_kan = 0
        if n == "late":
            self.p_win, self.p_end, self.p_feed = 0, 0, 0
            self.p_win_last = R.choice([.5, 1, 1])
            self.p_tsumogiri = .9
            self.p_riichi = R.choice([0, .02, .02])
            self.p_pon = self.p_chi = self.p_minkan = R.choice([0, .02])
            self.p_ankan = self.p_kakan = 0


class Gen:
    def __init__(self, R, style=None, ctx=None, max_draws=70):
        self.R = R
        self.st = Style(R, style)
        if ctx is None:
            rounds = R.choice([4, 8])
            rn = R.randrange(0, 12 if rounds == 8 else 8)
            ctx = {"dealer": rn % 4, "round": rn, "rounds": rounds, "honba": R.choice([0, 0, 1, 2, 7, 15])}
        self.ctx = ctx
        self.max_draws = max_draws
        self.events = []
        self.hands = [[] for _ in range(4)]
        self.melds = [[] for _ in range(4)]      # (type, tiles, code)
        self.river = [[] for _ in range(4)]
        self.riichi = [False] * 4
        self.riichi_tiles = [None] * 4
        self.closed = [True] * 4
        self.scores = [R.choice([250, 250, 250, 9, 10, 11, 19, 20, 1, 500, 0, 703, 1006]) for _ in range(4)]
        self.pot = R.choice([0, 0, 1, 3, 8])
        self.left = 70
        self.draws = 0
        self.owed = 0
        self.kan_seats = []
        self.plans = [None] * 4
        self.over = False
        self.hit = None
        self.deal()

    # ---------------------------------------------------------------- deal
    def deal(self):
        R, st = self.R, self.st
        pool = list(range(136))
        R.shuffle(pool)
        free = set(pool)

        def take_kind(k, prefer_red=None):
            c = [t for t in range(4 * k, 4 * k + 4) if t in free]
            if not c:
                return None
            t = R.choice(c)
            free.discard(t)
            return t

        order = list(range(4))
        R.shuffle(order)
        n_plans = {"plan": R.choice([1, 2, 3, 4]), "tenpai": R.choice([1, 2, 4]),
                   "late": R.choice([2, 4]), "four": 4}.get(st.name, 0)
        self.keep = [set() for _ in range(4)]
        self.robbed = None
        if st.name == "kanmaker":
            # order[0] will pon and add k; order[1] waits on k with a run
            k = R.choice([4, 13, 22, R.randrange(27), R.randrange(27), R.randrange(34)])
            plan = None
            for _ in range(60):
                p = plan_sets(R)
                if p["v"] and k < 27 and p["v"][k] == 1 and 0 < sum(
                        p["v"][x] for x in (k - 1, k + 1) if 0 <= x < 34):
                    plan = p
                    break
            mine = [take_kind(k), take_kind(k)]
            self.robbed = (order[1], k) if plan else None
            self.hands[order[0]] = mine
            self.keep[order[0]] = {k}
            if plan:
                plan["open"] = []
                self.plans[order[1]] = plan
                h = []
                for x in range(34):
                    for _ in range(plan["v"][x] if x != k else 0):
                        t = take_kind(x)
                        if t is not None:
                            h.append(t)
                self.hands[order[1]] = h[:13]
                self.keep[order[1]] = {t // 4 for t in h}
        for idx, s in enumerate(order):
            h = []
            if st.name == "kanmaker":
                h = self.hands[s]
            elif idx < n_plans:
                p = plan_sets(R)
                if p["v"]:
                    want = list(p["v"])
                    if st.name in ("tenpai", "late", "four"):
                        p["open"] = []
                    # of an open set only part is held at the start
                    for ty, k, iskan in p["open"]:
                        if ty == "T":
                            want[k] -= 0 if iskan and R.random() < .5 else 1
                        else:
                            want[k + R.randrange(3)] -= 1
                    for k in range(34):
                        for _ in range(max(0, want[k])):
                            t = take_kind(k)
                            if t is not None:
                                h.append(t)
                    drop = 1 if st.name in ("tenpai", "late", "four") else R.choice([0, 0, 1, 1, 2, 3])
                    R.shuffle(h)
                    for t in h[len(h) - drop:] if drop else []:
                        free.add(t)
                    h = h[:len(h) - drop] if drop else h
                    self.plans[s] = p
            elif st.name == "quads":
                ks = R.sample(range(34), 5)
                if R.random() < .6:
                    ks[0] = R.choice([4, 13, 22])
                for k in ks:
                    for _ in range(R.choice([2, 3, 3, 4])):
                        t = take_kind(k)
                        if t is not None:
                            h.append(t)
            elif st.name == "reds":
                su = R.randrange(3)
                for k in R.sample(range(9 * su + 1, 9 * su + 8), 5):
                    for _ in range(R.choice([1, 2, 2, 3])):
                        t = take_kind(k)
                        if t is not None:
                            h.append(t)
            elif st.name == "runs":
                su = R.randrange(3)
                for k in range(9 * su, 9 * su + 9):
                    for _ in range(R.choice([1, 1, 2])):
                        t = take_kind(k)
                        if t is not None:
                            h.append(t)
            while len(h) > 13:
                free.add(h.pop())
            self.hands[s] = h
        rest = sorted(free)
        R.shuffle(rest)
        for s in range(4):
            while len(self.hands[s]) < 13:
                self.hands[s].append(rest.pop())
        if R.random() < .15:
            reds = [t for t in rest if t in (16, 52, 88)]
            if reds:
                t = R.choice(reds)
                rest.remove(t)
                rest.append(t)
        self.dora = rest.pop()
        self.pool = rest
        self.start = {"ctx": self.ctx, "hands": [sorted(h) for h in self.hands],
                      "dora": self.dora, "scores": list(self.scores), "pot": self.pot}

    # ---------------------------------------------------------------- rules
    def melds_lib(self, s):
        out = []
        for ty, tiles, code in self.melds[s]:
            out.append(Meld(meld_type=Meld.CHI if ty == "chi" else Meld.PON if ty == "pon" else Meld.KAN,
                            tiles=sorted(tiles), opened=ty != "ankan"))
        return out

    def wind(self, s):
        return 27 + (s - self.ctx["dealer"]) % 4

    def can_win(self, s, tile, tsumo, flag):
        h = self.hands[s] if tsumo else self.hands[s] + [tile]
        v = kinds34(h)
        if not is_complete(v):
            return False
        if not tsumo:
            base = kinds34(self.hands[s])
            for t in self.river[s]:
                k = t // 4
                if base[k] < 4:
                    base[k] += 1
                    c = is_complete(base)
                    base[k] -= 1
                    if c:
                        return False
        if flag or self.riichi[s]:
            return True
        allt = list(h)
        for _, tiles, _ in self.melds[s]:
            allt += tiles
        try:
            r = HC.estimate_hand_value(
                allt, tile, melds=self.melds_lib(s), dora_indicators=[],
                config=HandConfig(is_tsumo=tsumo, player_wind=self.wind(s),
                                  round_wind=27 + self.ctx["round"] // 4, options=OPT))
        except Exception:
            return False
        return r.error is None and r.yaku is not None and any(
            y.name not in ("Dora", "Aka Dora") for y in r.yaku)

    def p_take(self, after_kan):
        return (self.st.p_win_last if self.left == 0 else
                self.st.p_win_kan if after_kan else self.st.p_win)

    def any_calls(self):
        return any(self.melds[s] for s in range(4))

    # ---------------------------------------------------------------- draws
    def wanted(self, s):
        v = kinds34(self.hands[s])
        p = self.plans[s]
        out = []
        if p:
            have = list(v)
            for _, tiles, _ in self.melds[s]:
                for t in tiles[:3]:
                    have[t // 4] += 1
            out += [k for k in range(34) if p["v"][k] > have[k]]
        if self.st.name == "kanmaker" and self.keep[s] and p is None:
            return list(self.keep[s])
        out += [k for k in range(34) if v[k] == 3]
        for ty, tiles, _ in self.melds[s]:
            if ty == "pon":
                out.append(tiles[0] // 4)
        return out

    def draw_tile(self, s):
        R = self.R
        x = R.random()
        if self.st.name == "busy" and x < .8:
            # a tile that another seat can call
            c = [t for t in self.pool if any(
                o != s and len(self.melds[o]) < 4 and not self.riichi[o]
                and sum(y // 4 == t // 4 for y in self.hands[o]) == 2 for o in range(4))]
            if c:
                t = R.choice(c)
                self.pool.remove(t)
                return t
        if self.left == 1 and R.random() < .8:
            # the last draw: a tile somebody waits for
            v4 = [kinds34(h) for h in self.hands]
            c = []
            for t in self.pool:
                for v in v4:
                    if v[t // 4] < 4:
                        v[t // 4] += 1
                        if is_complete(v):
                            c.append(t)
                        v[t // 4] -= 1
            if c:
                t = R.choice(sorted(set(c)))
                self.pool.remove(t)
                return t
        target = None
        if self.robbed and s == self.robbed[0]:
            pass
        elif x < self.st.p_good:
            target = s
        elif x < self.st.p_good + self.st.p_feed:
            target = R.randrange(4)
        if target is not None:
            w = self.wanted(target)
            c = [t for t in self.pool if t // 4 in w]
            if not c and target == s:
                v = kinds34(self.hands[s])
                if sum(v) % 3 == 1 and shanten(v) == 0:
                    c = []
                    for t in self.pool:
                        v[t // 4] += 1
                        if is_complete(v):
                            c.append(t)
                        v[t // 4] -= 1
            if c:
                t = R.choice(c)
                self.pool.remove(t)
                return t
        if self.robbed and s == self.robbed[0]:
            c = [t for t in self.pool if t // 4 != self.robbed[1]]
            if c:
                t = R.choice(c)
                self.pool.remove(t)
                return t
        return self.pool.pop(R.randrange(len(self.pool)))

    # ---------------------------------------------------------------- choice of discard
    def choose_discard(self, s, drawn, need_tenpai=False):
        R, h = self.R, self.hands[s]
        if need_tenpai:
            v = kinds34(h)
            c = []
            for t in h:
                v[t // 4] -= 1
                if shanten(v) == 0:
                    c.append(t)
                v[t // 4] += 1
            return R.choice(c) if c else None
        if drawn is not None and R.random() < self.st.p_tsumogiri:
            return drawn
        if self.st.name == "late" and drawn is not None and self.left > 0 and R.random() < .97:
            return drawn
        if self.st.name == "busy":
            v = kinds34(h)
            c = [t for t in h if v[t // 4] == 1] or h
            return R.choice(c)
        if self.keep[s]:
            c = [t for t in h if t // 4 not in self.keep[s]]
            if c:
                return drawn if drawn in c else R.choice(c)
        p = self.plans[s]
        if p:
            have = kinds34(h)
            for _, tiles, _ in self.melds[s]:
                for t in tiles[:3]:
                    have[t // 4] += 1
            extra = [t for t in h if have[t // 4] > p["v"][t // 4]]
            if extra:
                return R.choice(extra)
            return R.choice(h)
        if self.st.smart:
            v = kinds34(h)
            best, bt = 99, []
            for t in set(h):
                v[t // 4] -= 1
                x = shanten(v)
                v[t // 4] += 1
                if x < best:
                    best, bt = x, [t]
                elif x == best:
                    bt.append(t)
            return R.choice(sorted(bt))
        c = kinds34(h)
        single = [t for t in h if c[t // 4] == 1]
        if single and self.st.name == "quads" and R.random() < .8:
            return R.choice(single)
        return R.choice(h)

    # ---------------------------------------------------------------- events
    def reveal(self, prob):
        if self.owed and self.R.random() < prob and self.pool:
            t = self.pool.pop(self.R.randrange(len(self.pool)))
            self.owed -= 1
            self.events.append(ev("DORA", 0, t))

    def finish(self):
        self.events.append(ev("END"))
        self.over = True

    def kan_allowed(self, s):
        if self.left == 0 or len(self.kan_seats) >= self.st.max_kans:
            return False
        return len(self.kan_seats) < 3 or set(self.kan_seats) == {s}

    def run(self):
        R = self.R
        turn = (self.ctx["dealer"] + 3) % 4
        nxt, after_kan = (turn + 1) % 4, False
        while not self.over:
            if self.draws >= self.max_draws or self.left == 0:
                self.finish()
                break
            nxt, after_kan = self.one_turn(nxt, after_kan)
        rd = dict(self.start)
        rd["ev"] = self.events
        return rd

    def one_turn(self, s, after_kan):
        """Draw of seat s up to the next draw; returns who draws next."""
        R = self.R
        t = self.draw_tile(s)
        self.hands[s].append(t)
        self.left -= 1
        self.draws += 1
        self.events.append(ev("T", s, t))
        self.reveal(.5)
        flag = after_kan or self.left == 0 or (not self.any_calls() and self.draws <= 4)
        if self.can_win(s, t, True, flag) and R.random() < self.p_take(after_kan):
            self.events.append(ev("WIN", s, t))
            self.finish()
            return s, False
        if R.random() < self.st.p_end:
            self.finish()
            return s, False
        h = self.hands[s]
        v = kinds34(h)
        # kans on the own turn
        opts = []
        if self.kan_allowed(s):
            for k in range(34):
                if v[k] == 4 and R.random() < self.st.p_ankan and (not self.riichi[s] or k == t // 4):
                    opts.append(("ankan", k, None))
            if not self.riichi[s]:
                for i, (ty, tiles, code) in enumerate(self.melds[s]):
                    if ty == "pon" and v[tiles[0] // 4] and R.random() < self.st.p_kakan:
                        opts.append(("kakan", tiles[0] // 4, i))
        if opts:
            ty, k, i = R.choice(opts)
            self.kan_seats.append(s)
            if ty == "ankan":
                code = ankan_code(4 * k + R.choice([0, 0, 1, 2, 3]))
                for x in range(4 * k, 4 * k + 4):
                    h.remove(x)
                self.melds[s].append(("ankan", list(range(4 * k, 4 * k + 4)), code))
                self.events.append(ev("N", s, 0, code))
                self.owed += 1
                self.reveal(.6)
                return s, True
            x = [y for y in h if y // 4 == k][0]
            code = kakan_code(self.melds[s][i][2], x)
            h.remove(x)
            tiles = self.melds[s][i][1] + [x]
            del self.melds[s][i]
            self.melds[s].append(("kakan", tiles, code))
            self.events.append(ev("N", s, 0, code))
            self.owed += 1
            won = False
            if any(is_complete(kinds34(self.hands[o] + [x])) for o in range(4) if o != s):
                self.hit = "robbed"
            for j in range(1, 4):
                o = (s + j) % 4
                if self.can_win(o, x, False, True) and R.random() < self.st.p_win_kan:
                    self.events.append(ev("WIN", o, x))
                    won = True
            if won:
                self.finish()
                return s, False
            self.reveal(.2)
            if self.st.name == "kanmaker" and R.random() < .5:
                self.st.p_end = .5
            return s, True
        if self.riichi[s]:
            d = t
        else:
            d = None
            if (self.closed[s] and self.left >= 4 and self.scores[s] >= 10
                    and R.random() < self.st.p_riichi and shanten(v) <= 0):
                d = self.choose_discard(s, t, need_tenpai=True)
            if d is not None:
                self.events.append(ev("R1", s))
                return self.discard(s, d, True)
            d = self.choose_discard(s, t)
        return self.discard(s, d, False)

    def discard(self, s, d, declared):
        R = self.R
        self.hands[s].remove(d)
        self.river[s].append(d)
        self.events.append(ev("D", s, d))
        won = False
        for j in range(1, 4):
            o = (s + j) % 4
            first = not self.any_calls() and (o - self.ctx["dealer"]) % 4 >= self.draws
            if self.can_win(o, d, False, self.left == 0 or first) and R.random() < self.p_take(False):
                self.events.append(ev("WIN", o, d))
                won = True
        if won:
            self.finish()
            return s, False
        if declared:
            self.events.append(ev("R2", s))
            self.riichi[s] = True
            self.scores[s] -= 10
            self.pot += 1
        self.reveal(.3)
        if self.left == 0 or all(self.riichi):
            self.finish()
            return s, False
        # calls
        k = d // 4
        for j in range(1, 4):
            o = (s + j) % 4
            if self.riichi[o]:
                continue
            same = [x for x in self.hands[o] if x // 4 == k]
            plan = self.plans[o]
            boost = 0
            if plan:
                done = [(ty if ty == "chi" else "pon", min(tt) // 4) for ty, tt, _ in self.melds[o]]
                for ty, kk, _ in plan["open"]:
                    if ty == "T" and kk == k and ("pon", k) not in done:
                        boost = .9
            if len(same) == 3 and self.kan_allowed(o) and R.random() < self.st.p_minkan:
                code = minkan_code(d, (s - o) % 4)
                self.kan_seats.append(o)
                for x in same:
                    self.hands[o].remove(x)
                self.melds[o].append(("minkan", same + [d], code))
                self.closed[o] = False
                self.events.append(ev("N", o, 0, code))
                self.owed += 1
                self.reveal(.3)
                return o, True
            if len(same) >= 2 and R.random() < max(self.st.p_pon, boost):
                use = R.sample(same, 2)
                code = pon_code(use + [d], d, (s - o) % 4)
                return self.claim(o, "pon", use, d, code)
        o = (s + 1) % 4
        if k < 27 and not self.riichi[o]:
            c = []
            for pos in range(3):
                b = k - pos
                if b < 0 or b // 9 != k // 9 or b % 9 > 6:
                    continue
                need = [x for x in (b, b + 1, b + 2) if x != k]
                a1 = [x for x in self.hands[o] if x // 4 == need[0]]
                a2 = [x for x in self.hands[o] if x // 4 == need[1]]
                if a1 and a2:
                    plan = self.plans[o]
                    boost = 0
                    if plan and ("R", b) in [(ty, kk) for ty, kk, _ in plan["open"]]:
                        boost = .9
                    if R.random() < max(self.st.p_chi, boost):
                        c.append([R.choice(a1), R.choice(a2)])
            if c:
                use = R.choice(c)
                return self.claim(o, "chi", use, d, chi_code(use + [d], d))
        return (s + 1) % 4, False

    def claim(self, o, ty, use, d, code):
        for x in use:
            self.hands[o].remove(x)
        self.melds[o].append((ty, use + [d], code))
        self.closed[o] = False
        self.events.append(ev("N", o, 0, code))
        return self.discard(o, self.choose_discard(o, None), False)


class Probe(Gen):
    """One seat is led to a chosen hand and is then shown chosen tiles.

    The plan says which sets are called; the tiles for the calls come from the
    draws of the others.  If the hand stays concealed, another seat's call ends
    the first turn before the seat is shown a tile, in most probes.
    """

    def deal(self):
        R = self.R
        while True:
            self.plan = plan_sets(R)
            if self.plan["v"]:
                break
        free = set(range(136))

        def take(k):
            c = [t for t in range(4 * k, 4 * k + 4) if t in free]
            t = R.choice(c)
            free.discard(t)
            return t

        s = self.target = R.randrange(4)
        want = list(self.plan["v"])
        self.todo = []
        for ty, k, iskan in self.plan["open"]:
            if ty == "T":
                full = self.plan["v"][k] == 3
                kind = R.choice(["pon", "pon", "minkan", "ankan", "kakan"]) if iskan and full else "pon"
                if kind == "pon":
                    want[k] -= 1
                elif kind == "kakan":
                    want[k] -= 1
                elif kind == "ankan":
                    pass
                self.todo.append((kind, k))
            else:
                miss = R.randrange(3)
                want[k + miss] -= 1
                self.todo.append(("chi", k, k + miss))
        R.shuffle(self.todo)
        h = [take(k) for k in range(34) for _ in range(max(0, want[k]))]
        held = []
        n = 13
        R.shuffle(h)
        # the tile waited for stays outside, unless calls already left room
        short = len(h) - n
        self.wait_kind = None
        if short > 0:
            closed = [t for t in h if not any(
                t // 4 in ([td[1]] if td[0] != "chi" else [td[1], td[1] + 1, td[1] + 2])
                for td in self.todo)] or h
            for t in R.sample(closed, short):
                h.remove(t)
                free.add(t)
        self.hands = [[] for _ in range(4)]
        self.hands[s] = h
        rest = sorted(free)
        R.shuffle(rest)
        # a pair for a seat that ends the first turn
        self.breaker = None
        if not self.todo and R.random() < .85:
            b = (s + R.choice([1, 2, 3])) % 4
            ks = [k for k in range(34) if sum(1 for t in rest if t // 4 == k) >= 3]
            k = R.choice(ks)
            two = [t for t in rest if t // 4 == k][:2]
            for t in two:
                rest.remove(t)
                self.hands[b].append(t)
            self.breaker = (b, k)
        # others get no tile that the target still needs
        need = {k for k in range(34) if self.plan["v"][k]}
        rest.sort(key=lambda t: (t // 4 in need) and R.random() < .7)
        junk = rest
        for q in list(range(4)):
            while len(self.hands[q]) < 13:
                self.hands[q].append(junk.pop(0))
        R.shuffle(rest)
        self.dora = rest.pop()
        self.pool = rest
        self.wait_last = self.st.name == "late"
        self.start = {"ctx": self.ctx, "hands": [sorted(x) for x in self.hands],
                      "dora": self.dora, "scores": list(self.scores), "pot": self.pot}

    def draw_kind(self, k):
        c = [t for t in self.pool if t // 4 == k]
        if not c:
            return None
        t = self.R.choice(c)
        self.pool.remove(t)
        return t

    def do_draw(self, s, t):
        self.hands[s].append(t)
        self.left -= 1
        self.draws += 1
        self.events.append(ev("T", s, t))

    def do_discard(self, s, t):
        self.hands[s].remove(t)
        self.river[s].append(t)
        self.events.append(ev("D", s, t))

    def junk(self, s):
        """Least useful tile of the target."""
        have = kinds34(self.hands[s])
        for _, tiles, _ in self.melds[s]:
            for t in tiles[:3]:
                have[t // 4] += 1
        c = [t for t in self.hands[s] if have[t // 4] > self.plan["v"][t // 4]]
        return self.R.choice(c or self.hands[s])

    def run(self):
        R, s = self.R, self.target
        turn = self.ctx["dealer"]
        guard = 0
        shows = R.choice([1, 2, 3, 4])
        while not self.over and guard < 140 and self.left > 0:
            guard += 1
            td = self.todo[0] if self.todo else None
            br = self.breaker
            # what is drawn
            t = None
            if td and turn != s:
                if td[0] in ("pon", "minkan"):
                    t = self.draw_kind(td[1])
                    if t is None:
                        break
                elif td[0] == "kakan" and not any(m[0] == "pon" and m[1][0] // 4 == td[1]
                                                  for m in self.melds[s]):
                    t = self.draw_kind(td[1])
                    if t is None:
                        break
                elif td[0] == "chi" and (turn + 1) % 4 == s:
                    t = self.draw_kind(td[2])
                    if t is None:
                        break
            if td and turn == s and td[0] == "kakan" and any(
                    m[0] == "pon" and m[1][0] // 4 == td[1] for m in self.melds[s]):
                t = self.draw_kind(td[1])
            if td and turn == s and td[0] == "ankan":
                t = self.draw_kind(td[1])
            if not td and br and turn != br[0]:
                t = self.draw_kind(br[1])
                if t is None:
                    break
            showing = not td and not br
            if showing and self.wait_last and self.left > 1:
                # nobody gets a tile the target waits for until the last draw
                v = kinds34(self.hands[s])
                bad = set()
                if sum(v) % 3 == 1:
                    for k in range(34):
                        if v[k] < 4:
                            v[k] += 1
                            if is_complete(v):
                                bad.add(k)
                            v[k] -= 1
                c = [x for x in self.pool if x // 4 not in bad]
                t = R.choice(c or self.pool)
                self.pool.remove(t)
                self.do_draw(turn, t)
                self.do_discard(turn, t)
                turn = (turn + 1) % 4
                continue
            if showing:
                shows -= 1
                if self.left == 1:
                    shows = 1
                v = kinds34(self.hands[s])
                waits = []
                if sum(v) % 3 == 1:
                    for k in range(34):
                        if v[k] < 4:
                            v[k] += 1
                            if is_complete(v):
                                waits.append(k)
                            v[k] -= 1
                c = [x for x in self.pool if x // 4 in waits]
                if c and R.random() < .85:
                    t = R.choice(c)
                    self.pool.remove(t)
            if t is None:
                t = self.pool.pop(R.randrange(len(self.pool)))
            self.do_draw(turn, t)
            self.reveal(.5)
            if self.left == 0:
                h = self.hands[s] + ([t] if turn != s else [])
                if is_complete(kinds34(h)) and self.can_win(s, t, turn == s, True):
                    self.hit = ("last own" if turn == s else "last other") + (
                        "" if self.can_win(s, t, turn == s, False) else " bare")
            # own turn of the target
            if turn == s:
                if td and td[0] in ("ankan", "kakan") and len(self.kan_seats) < 3:
                    k = td[1]
                    four = [x for x in self.hands[s] if x // 4 == k]
                    if td[0] == "ankan" and len(four) == 4:
                        code = ankan_code(R.choice(four))
                        for x in four:
                            self.hands[s].remove(x)
                        self.melds[s].append(("ankan", four, code))
                    elif td[0] == "kakan" and four and any(
                            m[0] == "pon" and m[1][0] // 4 == k for m in self.melds[s]):
                        i = [i for i, m in enumerate(self.melds[s])
                             if m[0] == "pon" and m[1][0] // 4 == k][0]
                        x = four[0]
                        code = kakan_code(self.melds[s][i][2], x)
                        self.hands[s].remove(x)
                        tiles = self.melds[s][i][1] + [x]
                        del self.melds[s][i]
                        self.melds[s].append(("kakan", tiles, code))
                    else:
                        code = None
                    if code is not None:
                        self.events.append(ev("N", s, 0, code))
                        self.kan_seats.append(s)
                        self.owed += 1
                        self.todo.pop(0)
                        self.reveal(.5)
                        continue
                flag = self.left == 0 or (not self.any_calls() and self.draws <= 4)
                if self.can_win(s, t, True, flag) and R.random() < .5:
                    self.events.append(ev("WIN", s, t))
                    self.finish()
                    break
                if showing and shows <= 0:
                    break
                if showing and self.can_win(s, t, True, True) and R.random() < .6:
                    d = t        # not taken: the tile is now an own discard
                else:
                    d = self.junk(s) if R.random() < .8 else R.choice(self.hands[s])
                self.do_discard(s, d)
                self.reveal(.3)
                turn = (s + 1) % 4
                continue
            d = t if (td or br or showing) and R.random() < .95 else R.choice(self.hands[turn])
            self.do_discard(turn, d)
            first = not self.any_calls() and (s - self.ctx["dealer"]) % 4 >= self.draws
            if self.can_win(s, d, False, self.left == 0 or first) and R.random() < .4:
                self.events.append(ev("WIN", s, d))
                self.finish()
                break
            if showing and shows <= 0:
                break
            self.reveal(.3)
            k = d // 4
            if br and turn != br[0] and k == br[1]:
                b = br[0]
                use = [x for x in self.hands[b] if x // 4 == k][:2]
                if len(use) == 2:
                    self.breaker = None
                    self.call(b, "pon", use, d, pon_code(use + [d], d, (turn - b) % 4))
                    x = R.choice(self.hands[b])
                    self.do_discard(b, x)
                    turn = (b + 1) % 4
                    continue
            if td:
                same = [x for x in self.hands[s] if x // 4 == td[1]]
                if td[0] in ("pon", "kakan") and k == td[1] and len(same) >= 2 and not any(
                        m[0] == "pon" and m[1][0] // 4 == k for m in self.melds[s]):
                    use = R.sample(same, 2)
                    if td[0] == "pon":
                        self.todo.pop(0)
                    self.call(s, "pon", use, d, pon_code(use + [d], d, (turn - s) % 4))
                    self.do_discard(s, self.junk(s))
                    turn = (s + 1) % 4
                    continue
                if td[0] == "minkan" and k == td[1] and len(same) == 3 and len(self.kan_seats) < 3:
                    self.todo.pop(0)
                    self.kan_seats.append(s)
                    self.call(s, "minkan", same, d, minkan_code(d, (turn - s) % 4))
                    self.owed += 1
                    self.reveal(.3)
                    turn = s
                    continue
                if td[0] == "chi" and (turn + 1) % 4 == s and k == td[2]:
                    use = []
                    for q in (td[1], td[1] + 1, td[1] + 2):
                        if q != k:
                            c = [x for x in self.hands[s] if x // 4 == q]
                            if c:
                                use.append(R.choice(c))
                    if len(use) == 2:
                        self.todo.pop(0)
                        self.call(s, "chi", use, d, chi_code(use + [d], d))
                        self.do_discard(s, self.junk(s))
                        turn = (s + 1) % 4
                        continue
            turn = (turn + 1) % 4
        if not self.over:
            self.finish()
        rd = dict(self.start)
        rd["ev"] = self.events
        return rd

    def call(self, s, ty, use, d, code):
        for x in use:
            self.hands[s].remove(x)
        self.melds[s].append((ty, use + [d], code))
        self.closed[s] = False
        self.events.append(ev("N", s, 0, code))


class Claims(Gen):
    """Several seats wait for, or can call, the tile another seat throws."""

    def __init__(self, R, **kw):
        super().__init__(R, "natural", max_draws=R.choice([4, 8, 8, 16, 30]), **kw)

    def deal(self):
        R, st = self.R, self.st
        st.p_win = R.choice([0, .3, .6, .9])
        st.p_pon, st.p_chi, st.p_minkan = [R.choice([0, 0, .4, 1]) for _ in range(3)]
        st.p_riichi = R.choice([0, .5, 1])
        st.p_tsumogiri, st.smart, st.p_feed, st.p_good = .9, True, 0, 0
        self.keep, self.robbed = [set() for _ in range(4)], None
        left = [4] * 34
        k = self.bait = R.choice([4, 13, 22, R.randrange(27), R.randrange(27), R.randrange(34)])
        left[k] = 3
        order = R.sample(range(4), 4)
        self.source = order[3]
        waiters = order[:R.choice([1, 2, 2, 3])]
        want = {s: [] for s in range(4)}
        for s in waiters:
            for _ in range(200):
                p = plan_sets(R)
                if p["v"] and p["v"][k] and all(
                        p["v"][x] - (x == k) <= left[x] for x in range(34)):
                    p["v"][k] -= 1
                    for x in range(34):
                        left[x] -= p["v"][x]
                        want[s] += [x] * p["v"][x]
                    self.keep[s] = set(want[s])
                    break
        for s in order[:3]:
            if s not in waiters:
                near = [k] * R.choice([0, 2, 2, 3])
                if k < 27:
                    near += [x for x in (k - 2, k - 1, k + 1, k + 2) if x >= 0 and x // 9 == k // 9
                             and R.random() < .7]
                for x in near:
                    if left[x]:
                        left[x] -= 1
                        want[s].append(x)
                self.keep[s] = set(want[s])
        free = list(range(136))
        R.shuffle(free)
        self.hands = [[] for _ in range(4)]
        for s in range(4):
            for x in want[s]:
                t = [t for t in free if t // 4 == x][0]
                free.remove(t)
                self.hands[s].append(t)
        # the bait stays for later
        self.bait_tile = [t for t in free if t // 4 == k][0]
        free.remove(self.bait_tile)
        for s in range(4):
            while len(self.hands[s]) < 13:
                self.hands[s].append(free.pop())
        self.wait = R.choice([0, 0, 3, 6, 12])
        self.dora = free.pop()
        self.pool = free + [self.bait_tile]
        self.start = {"ctx": self.ctx, "hands": [sorted(h) for h in self.hands],
                      "dora": self.dora, "scores": list(self.scores), "pot": self.pot}

    def draw_tile(self, s):
        if self.bait_tile in self.pool:
            if s == self.source and self.draws >= self.wait and self.R.random() < .8:
                self.pool.remove(self.bait_tile)
                return self.bait_tile
            rest = [t for t in self.pool if t != self.bait_tile]
            t = self.R.choice(rest)
            self.pool.remove(t)
            return t
        return super().draw_tile(s)

    def choose_discard(self, s, drawn, need_tenpai=False):
        if self.bait_tile in self.hands[s] and not need_tenpai and self.R.random() < .95:
            return self.bait_tile
        return super().choose_discard(s, drawn, need_tenpai)


class Kans(Gen):
    """One seat makes as many kans as there are, and play goes on to the end
    of the wall, where the others can call what is thrown."""

    def __init__(self, R, **kw):
        super().__init__(R, "natural", **kw)

    def deal(self):
        R, st = self.R, self.st
        st.max_kans = R.choice([3, 4, 4, 4])
        st.p_win, st.p_end, st.p_good, st.p_feed, st.p_riichi = 0, 0, 0, 0, R.choice([0, 0, .05])
        st.p_pon, st.p_chi, st.p_minkan = 0, R.choice([0, 0, .02]), 1
        st.p_ankan = st.p_kakan = 1
        st.p_tsumogiri, st.smart, st.p_win_kan, st.p_win_last = .97, False, 0, R.choice([0, .5])
        self.keep, self.robbed = [set() for _ in range(4)], None
        self.maker = R.randrange(4)
        su = 9 * R.randrange(3)
        low = list(range(su, su + 9))           # kept for those who could call
        ks = R.sample([k for k in range(34) if k not in low], 4)
        free = set(range(136))
        hands = [[] for _ in range(4)]

        def take(s, k, n):
            for t in R.sample(range(4 * k, 4 * k + 4), 4):
                if n and t in free:
                    free.discard(t)
                    hands[s].append(t)
                    n -= 1
        for k in ks:
            take(self.maker, k, 3)
        self.fourth = [t for t in sorted(free) if t // 4 in ks]
        self.keep[self.maker] = set(ks)
        # one of the others may be ready without a yaku
        self.ready, self.wait = None, set()
        if R.random() < .6:
            self.ready = (self.maker + R.randint(1, 3)) % 4
            runs = [a for a in range(27) if a % 9 < 7 and not {a, a + 1, a + 2} & set(ks)]
            for a in [R.choice([x for x in runs if x % 9 in (0, 6)] or runs)] + R.sample(runs, 3):
                for k in (a, a + 1, a + 2):
                    take(self.ready, k, 1)
            if len(hands[self.ready]) == 12:
                take(self.ready, R.choice([k for k in range(34) if k not in ks]), 1)
        for s in range(4):
            if s != self.maker and s != self.ready:
                for k in R.sample(low, R.choice([3, 4])):
                    take(s, k, 2)
                self.keep[s] = set(low)
        if self.ready is not None:
            v = kinds34(hands[self.ready])
            for k in range(34):
                v[k] += 1
                if is_complete(v):
                    self.wait.add(k)
                v[k] -= 1
            self.keep[self.ready] = set(range(34))
            st.p_tsumogiri, st.p_riichi = 1, 0
        rest = sorted(free - set(self.fourth))
        R.shuffle(rest)
        # tiles of the suit the others hold come last
        rest.sort(key=lambda t: t // 4 in low)
        for s in range(4):
            while len(hands[s]) < 13:
                hands[s].append(rest.pop(0))
        self.hands = hands
        self.dora = rest.pop(0)
        self.pool = rest + self.fourth
        self.start = {"ctx": self.ctx, "hands": [sorted(h) for h in self.hands],
                      "dora": self.dora, "scores": list(self.scores), "pot": self.pot}

    def draw_tile(self, s):
        R = self.R
        c = [t for t in self.fourth if t in self.pool]
        if c and self.draws > 3 and R.random() < (.7 if s == self.maker else .1):
            t = R.choice(c)
        else:
            c = [t for t in self.pool if t not in self.fourth and t // 4 not in self.wait] or self.pool
            # (the first ones early, what the others want late)
            t = c[0] if self.left > 16 and R.random() < .95 else R.choice(c)
            if self.left < 6:
                held = [kinds34(self.hands[o]) for o in range(4) if o != s]
                w = [x for x in c if any(v[x // 4] >= 2 for v in held)]
                t = R.choice(w or [t])
            w = [x for x in self.pool if x // 4 in self.wait]
            if self.left == 1 and s != self.ready and w:
                t = R.choice(w)
        self.pool.remove(t)
        return t

    def kan_allowed(self, s):
        return s == self.maker and super().kan_allowed(s)


class Options(Gen):
    """Nearly every discard can be called, hardly any is."""

    def __init__(self, R, **kw):
        super().__init__(R, "natural", **kw)

    def deal(self):
        R, st = self.R, self.st
        st.p_win, st.p_end, st.p_good, st.p_feed, st.p_riichi = 0, 0, 0, 0, 0
        st.p_pon = st.p_chi = st.p_minkan = R.choice([0, 0, .02])
        st.p_ankan = st.p_kakan = 0
        st.p_tsumogiri, st.smart, st.p_win_kan, st.p_win_last = 1, False, 0, R.choice([0, .5])
        self.keep, self.robbed = [set() for _ in range(4)], None
        free = set(range(136))
        hands = [[] for _ in range(4)]

        def take(s, k, n):
            c = [t for t in range(4 * k, 4 * k + 4) if t in free]
            if len(c) >= n and len(hands[s]) + n <= 13:
                for t in R.sample(c, n):
                    free.discard(t)
                    hands[s].append(t)
        first = R.sample(range(3), 3)
        for s in range(4):
            suits = [first[(s + i) % 3] for i in range(R.choice([1, 1, 1, 2]))]
            for u in suits:
                for n in (1, 2, 3, 5, 6, 7):
                    take(s, 9 * u + n, 1)
        for s in R.sample(range(4), 4):
            for k in R.sample(range(27), 27) + R.sample(range(27, 34), 7):
                if not any(t // 4 == k for t in hands[s]):
                    take(s, k, 2)
        rest = sorted(free)
        R.shuffle(rest)
        for s in range(4):
            while len(hands[s]) < 13:
                hands[s].append(rest.pop())
        self.hands = hands
        self.dora = rest.pop(0)
        self.pool = rest
        self.start = {"ctx": self.ctx, "hands": [sorted(h) for h in self.hands],
                      "dora": self.dora, "scores": list(self.scores), "pot": self.pot}

    def callers(self, s, t):
        k, n = t // 4, 0
        for o in range(4):
            if o == s or self.riichi[o]:
                continue
            v = kinds34(self.hands[o])
            chi = k < 27 and o == (s + 1) % 4 and any(
                all(0 <= k + d < 27 and (k + d) // 9 == k // 9 and v[k + d] for d in p)
                for p in ((-2, -1), (-1, 1), (1, 2)))
            n += v[k] >= 2 or chi
        return n

    def draw_tile(self, s):
        R = self.R
        c = self.pool
        if R.random() < .9:
            n = [(self.callers(s, t), t) for t in self.pool]
            # (those that several can call rather late)
            m = max(m for m, _ in n) if R.random() < (.1 if self.left > 26 else .9) else 1
            c = [t for x, t in n if x == m] or [t for x, t in n if x] or c
        t = R.choice(c)
        self.pool.remove(t)
        return t


class Furiten(Gen):
    """Two seats wait for several kinds of tiles from the start; each throws
    one of them at some moment, and the others throw them before and after."""

    def __init__(self, R, **kw):
        super().__init__(R, "natural", **kw)

    def deal(self):
        R, st = self.R, self.st
        st.p_win, st.p_end, st.p_good, st.p_feed, st.p_riichi = 0, 0, 0, 0, R.choice([0, 0, .01])
        st.p_pon = st.p_chi = st.p_minkan = st.p_ankan = st.p_kakan = 0
        st.p_tsumogiri, st.smart, st.p_win_kan, st.p_win_last = 1, False, 0, R.choice([0, .5])
        self.keep, self.robbed = [set() for _ in range(4)], None
        free = set(range(136))
        hands = [[] for _ in range(4)]
        self.waits, self.when = {}, {}
        for s in R.sample(range(4), 2):
            special = R.random() < .4
            for _ in range(1500):
                v = plan_sets(R)["v"]
                if not v or sum(v) != 14:
                    continue
                v = list(v)
                v[R.choice([k for k in range(34) if v[k]])] -= 1
                w = set()
                for k in range(34):
                    v[k] += 1
                    if v[k] < 5 and is_complete(v):
                        w.add(k)
                    v[k] -= 1
                if len(w) < 2 or special and not any(k > 26 for k in w) or any(
                        sum(t in free for t in range(4 * k, 4 * k + 4)) < v[k] for k in range(34)):
                    continue
                for k in range(34):
                    c = [t for t in range(4 * k, 4 * k + 4) if t in free]
                    for t in R.sample(c, v[k]):
                        free.discard(t)
                        hands[s].append(t)
                self.waits[s], self.when[s] = w, R.randint(2, 66)
                break
        rest = sorted(free)
        R.shuffle(rest)
        wanted = set().union(*self.waits.values()) if self.waits else set()
        rest.sort(key=lambda t: t // 4 in wanted)
        for s in range(4):
            while len(hands[s]) < 13:
                hands[s].append(rest.pop(0))
        self.hands = hands
        self.dora = rest.pop(0)
        self.pool = rest
        self.start = {"ctx": self.ctx, "hands": [sorted(h) for h in self.hands],
                      "dora": self.dora, "scores": list(self.scores), "pot": self.pot}

    def draw_tile(self, s):
        R, pool = self.R, self.pool
        own = self.waits.get(s, set())
        other = set().union(*(w for o, w in self.waits.items() if o != s))
        if s in self.when and self.left <= self.when[s]:
            c = [t for t in pool if t // 4 in own]
            if c:
                del self.when[s]
        else:
            c = [t for t in pool if t // 4 in other - own] if R.random() < .12 else \
                [t for t in pool if t // 4 not in own]
        t = R.choice(c or pool)
        pool.remove(t)
        return t


class First(Gen):
    """The first turns of a round: ready hands, kans and calls among them."""

    def __init__(self, R, **kw):
        super().__init__(R, "natural", max_draws=R.choice([1, 2, 3, 4, 4, 5, 6, 9]), **kw)

    def deal(self):
        R, st = self.R, self.st
        st.p_win, st.p_end, st.p_good, st.p_feed = R.choice([0, 0, .3, 1]), 0, 0, 0
        st.p_riichi = R.choice([0, .5, 1])
        st.p_pon, st.p_chi = R.choice([0, 0, 0, .5]), R.choice([0, 0, 0, .5])
        st.p_minkan, st.p_ankan, st.p_kakan = R.choice([0, 0, 1]), R.choice([0, .7, 1, 1]), 1
        st.p_tsumogiri, st.smart, st.p_win_kan, st.p_win_last = .8, False, R.choice([0, 1]), 0
        self.keep, self.robbed = [set() for _ in range(4)], None
        free = set(range(136))
        hands = [[] for _ in range(4)]
        self.waits = {}
        seats = R.sample(range(4), 4)
        for s in seats[:R.choice([1, 1, 2])]:
            for _ in range(200):
                if R.random() < .6:
                    # mostly without a yaku: runs with an edge, a single tile
                    v = [0] * 34
                    c = [a for a in range(27) if a % 9 < 7]
                    for a in [R.choice([x for x in c if x % 9 in (0, 6)])] + R.sample(c, 3):
                        for k in (a, a + 1, a + 2):
                            v[k] += 1
                    v[R.randrange(34)] += 2
                else:
                    v = plan_sets(R)["v"]
                if not v or sum(v) != 14 or max(v) > 4:
                    continue
                v = list(v)
                v[R.choice([k for k in range(34) if v[k]])] -= 1
                if any(sum(t in free for t in range(4 * k, 4 * k + 4)) < v[k] for k in range(34)):
                    continue
                for k in range(34):
                    for t in R.sample([t for t in range(4 * k, 4 * k + 4) if t in free], v[k]):
                        free.discard(t)
                        hands[s].append(t)
                w = set()
                for k in range(34):
                    v[k] += 1
                    if v[k] < 5 and is_complete(v):
                        w.add(k)
                    v[k] -= 1
                self.waits[s] = w
                self.keep[s] = set(range(34))
                break
        self.fourth = set()
        for s in [s for s in seats if s not in self.waits]:
            for k in R.sample(range(34), R.choice([1, 2, 3])):
                c = [t for t in range(4 * k, 4 * k + 4) if t in free]
                n = R.choice([2, 3, 4, 4])
                if len(c) == 4 and len(hands[s]) + n <= 13:
                    for t in R.sample(c, n):
                        free.discard(t)
                        hands[s].append(t)
                    self.fourth |= {t for t in c if t in free}
        rest = sorted(free)
        R.shuffle(rest)
        wanted = set().union(*self.waits.values()) if self.waits else set()
        rest.sort(key=lambda t: t // 4 in wanted or t in self.fourth)
        for s in range(4):
            while len(hands[s]) < 13:
                hands[s].append(rest.pop(0))
        self.hands = hands
        self.dora = rest.pop(0)
        self.pool = rest
        self.start = {"ctx": self.ctx, "hands": [sorted(h) for h in self.hands],
                      "dora": self.dora, "scores": list(self.scores), "pot": self.pot}

    def draw_tile(self, s):
        R, pool, x = self.R, self.pool, self.R.random()
        other = set().union(set(), *(w for o, w in self.waits.items() if o != s))
        c = []
        if x < (.7 if self.events and self.events[-1]["e"] in ("N", "DORA") else .35):
            c = [t for t in pool if t // 4 in other]
        elif x < .45:
            c = [t for t in pool if t // 4 in self.waits.get(s, set())]
        elif x < .7:
            c = [t for t in pool if t in self.fourth]
        t = R.choice(c or pool)
        pool.remove(t)
        return t


class Replacement(Gen):
    """A seat one tile from complete declares a kan late in the wall and draws
    the replacement it waits for, often the last tile of the wall."""

    def deal(self):
        R = self.R
        while True:
            plan = plan_sets(R)
            v = plan["v"]
            if not v or not plan.get("pair") or sum(v) != 14:
                continue
            ks = [k for k in range(34) if v[k] == 3 and all(
                v[x] == 0 for x in (k - 2, k - 1, k + 1, k + 2)
                if k < 27 and 0 <= x < 27 and x // 9 == k // 9)]
            if ks:
                break
        self.k = k = R.choice(ks)
        self.kind = R.choice(["ankan", "minkan", "kakan"])
        s = self.target = R.randrange(4)
        want = [x for x in range(34) for _ in range(v[x]) if x != k]
        R.shuffle(want)
        self.win_kind = want.pop()
        free = list(range(136))
        R.shuffle(free)

        def take(x):
            t = [t for t in free if t // 4 == x][0]
            free.remove(t)
            return t
        self.hands = [[] for _ in range(4)]
        n = {"ankan": 3, "minkan": 3, "kakan": 2}[self.kind]
        self.hands[s] = [take(x) for x in want + [k] * n]
        self.fourth = [take(k) for _ in range(4 - n)]
        self.win_tile = take(self.win_kind)
        # nobody gets what completes the hand before its time
        base = [0] * 34
        for x in want:
            base[x] += 1
        self.bad = set()
        for x in range(34):
            base[x] += 1
            if is_complete(base):
                self.bad.add(x)
            base[x] -= 1
        free.sort(key=lambda t: t // 4 in self.bad)
        for q in range(4):
            while len(self.hands[q]) < 13:
                self.hands[q].append(free.pop(0))
        self.dora = free.pop(0)
        self.pool = free
        self.when = R.choice([1, 1, 1, 2, 40, 60])     # draws left when the kan is declared
        self.start = {"ctx": self.ctx, "hands": [sorted(x) for x in self.hands],
                      "dora": self.dora, "scores": list(self.scores), "pot": self.pot}

    def put(self, s, t):
        self.hands[s].append(t)
        self.left -= 1
        self.draws += 1
        self.events.append(ev("T", s, t))

    def throw(self, s, t):
        self.hands[s].remove(t)
        self.river[s].append(t)
        self.events.append(ev("D", s, t))

    def meld(self, s, ty, use, d, code):
        for x in use:
            self.hands[s].remove(x)
        self.melds[s].append((ty, use + [d], code))
        self.events.append(ev("N", s, 0, code))

    def run(self):
        R, s, k = self.R, self.target, self.k
        turn = self.ctx["dealer"]
        ponned = self.kind != "kakan"
        while self.left > self.when + 4 or not ponned or not (
                turn == s and self.left == self.when + 1 if self.kind != "minkan"
                else turn != s and self.left == self.when + 1):
            if self.left <= self.when + (0 if ponned else 1) or not self.pool:
                break
            t = None
            if not ponned and turn != s:
                t = self.fourth.pop()
            else:
                c = [x for x in self.pool[:40] if x // 4 not in self.bad] or self.pool
                t = R.choice(c)
                self.pool.remove(t)
            self.put(turn, t)
            self.throw(turn, t)
            if not ponned and turn != s:
                use = [x for x in self.hands[s] if x // 4 == k]
                self.meld(s, "pon", use, t, pon_code(use + [t], t, (turn - s) % 4))
                ponned = True
                junk = [x for x in self.hands[s] if x // 4 == k] or [
                    x for x in self.hands[s] if x // 4 not in self.bad] or self.hands[s]
                need = [x for x in junk if self.extra(s, x)]
                self.throw(s, R.choice(need or junk))
                turn = (s + 1) % 4
                continue
            turn = (turn + 1) % 4
        if self.left == self.when + 1 and self.fourth:
            self.kan(turn)
        self.finish()
        rd = dict(self.start)
        rd["ev"] = self.events
        return rd

    def extra(self, s, t):
        """Whether the hand is still one tile from complete without t."""
        v = kinds34(self.hands[s])
        v[t // 4] -= 1
        v[self.win_kind] += 1
        return is_complete(v)

    def kan(self, turn):
        R, s, k = self.R, self.target, self.k
        f = self.fourth.pop()
        self.put(turn, f)
        if self.kind == "minkan":
            self.throw(turn, f)
            use = [x for x in self.hands[s] if x // 4 == k]
            self.meld(s, "minkan", use, f, minkan_code(f, (turn - s) % 4))
        elif self.kind == "ankan":
            four = [x for x in self.hands[s] if x // 4 == k]
            self.meld(s, "ankan", four[1:], four[0], ankan_code(R.choice(four)))
            self.hands[s].remove(four[0])
        else:
            code = kakan_code(self.melds[s][0][2], f)
            self.hands[s].remove(f)
            self.melds[s][0] = ("kakan", self.melds[s][0][1] + [f], code)
            self.events.append(ev("N", s, 0, code))
        self.owed += 1
        if self.kind == "ankan":
            self.reveal(1)
        self.put(s, self.win_tile)
        self.hit = "replacement"
        self.reveal(.5)
        x = R.random()
        if x < .6:
            self.events.append(ev("WIN", s, self.win_tile))
            return
        self.throw(s, R.choice(self.hands[s]))


WINDS = (27, 28, 29, 30)


def plan_yaku(R, ctx, s):
    """A complete hand built around one yaku, or just missing it, with the way
    each called set is made."""
    seat, rnd = 27 + (s - ctx["dealer"]) % 4, 27 + ctx["round"] // 4
    five = R.random() < .4

    def num(lo, hi):
        return R.choice([x for x in (4, 3, 2) if lo <= x <= hi] or [lo]) if five and R.random() < .6 \
            else R.randint(lo, hi)

    def rnd_set():
        if R.random() < .55:
            return ("R", 9 * R.randrange(3) + num(0, 6))
        return ("T", 9 * R.randrange(3) + num(0, 8)) if R.random() < .75 else ("T", R.randrange(27, 34))

    for _ in range(400):
        y = R.choice(["value", "value", "toitoi", "runs3", "trips3", "straight", "ends", "ends", "half",
                      "full", "simple", "simple", "kans", "conc", "twice", "pinfu", "any", "fives", "fives", "seven",
                      "orphans"])
        n, su = num(0, 6), R.randrange(3)
        sets, pair = [rnd_set() for _ in range(4)], R.randrange(34)
        if y == "value":
            sets[0] = ("T", R.choice([31, 32, 33, seat, rnd, R.choice(WINDS)]))
        elif y == "toitoi":
            sets = [("T", 9 * R.randrange(3) + num(0, 8)) for _ in range(4)]
            if R.random() < .3:
                sets[3] = rnd_set()
        elif y == "runs3":
            sets[:3] = [("R", n), ("R", n + 9), ("R", n + 18)]
        elif y == "trips3":
            sets[:3] = [("T", n), ("T", n + 9), ("T", n + 18)]
        elif y == "straight":
            sets[:3] = [("R", 9 * su), ("R", 9 * su + 3), ("R", 9 * su + 6)]
        elif y == "ends":
            sets = [R.choice([("R", 9 * R.randrange(3)), ("R", 9 * R.randrange(3) + 6),
                              ("T", R.choice(YAO))]) for _ in range(4)]
            pair = R.choice(YAO)
        elif y in ("half", "full"):
            sets = [(t, 9 * su + x % 9) for t, x in sets]
            sets = [(t, x if t == "T" else min(x, 9 * su + 6)) for t, x in sets]
            pair = 9 * su + num(0, 8)
            if y == "half":
                sets[R.randrange(4)] = ("T", R.choice(WINDS))
                pair = R.choice([pair, R.choice(WINDS)])
        elif y == "simple":
            sets = [("R", 9 * R.randrange(3) + num(1, 5)) if R.random() < .6 else
                    ("T", 9 * R.randrange(3) + num(1, 7)) for _ in range(4)]
            pair = 9 * R.randrange(3) + num(1, 7)
        elif y in ("kans", "conc"):
            sets[:3] = [("T", 9 * R.randrange(3) + num(0, 8)) for _ in range(3)]
        elif y == "twice":
            sets[1] = sets[0] = ("R", 9 * su + n)
        elif y == "fives":
            sets[0] = ("T", 9 * su + 4)
            if R.random() < .5:
                sets[1] = ("T", R.choice([31, 32, 33, seat, rnd]))
            elif R.random() < .5:
                sets[1:] = [("R", 9 * R.randrange(3) + num(1, 5)) for _ in range(3)]
                pair = 9 * R.randrange(3) + num(1, 7)
        elif y == "pinfu":
            sets = [("R", 9 * R.randrange(3) + num(0, 6)) for _ in range(4)]
        v = [0] * 34
        called = []
        if y == "seven":
            for k in R.sample(range(34), 7):
                v[k] = 2
        elif y == "orphans":
            for k in YAO:
                v[k] = 1
            v[R.choice(YAO)] = 2
        else:
            if y not in ("any", "value", "kans", "conc") and R.random() < .25:     # a near miss
                t, k = sets[0]
                sets[0] = R.choice([("T", R.randrange(34)), ("R", 9 * R.randrange(3) + R.randrange(7))])
            if y != "fives":
                R.shuffle(sets)
            nm = 0 if y in ("twice", "pinfu") and R.random() < .8 else R.choice([0, 1, 1, 2, 2, 3, 4])
            if y == "kans":
                nm = R.choice([3, 3, 3, 4])
            if y == "fives":
                nm = R.choice([1, 2, 3])
            for i, (t, k) in enumerate(sets):
                if i < nm:
                    kind = "chi"
                    if t == "T" and y == "fives" and i == 0:
                        kind = "pon"
                    elif t == "T":
                        kind = R.choice(["minkan", "ankan", "kakan"]) if y == "kans" and R.random() < .85 else \
                            R.choice(["ankan", "ankan", "minkan"]) if y == "conc" and R.random() < .5 else \
                            R.choice(["pon", "pon", "pon", "minkan", "ankan", "kakan"])
                    called.append((kind, k))
                    for x in ([k, k + 1, k + 2] if kind == "chi" else [k] * (3 if kind == "pon" else 4)):
                        v[x] += 1
                else:
                    for x in ([k] * 3 if t == "T" else [k, k + 1, k + 2]):
                        v[x] += 1
            v[pair] += 2
        if max(v) > 4:
            continue
        closed = list(v)
        for kind, k in called:
            for x in ([k, k + 1, k + 2] if kind == "chi" else [k] * (3 if kind == "pon" else 4)):
                closed[x] -= 1
        return {"name": y, "closed": closed, "called": called}
    return plan_yaku(R, ctx, s)


class Yaku(Probe):
    """A hand built around one yaku is shown what it waits for, by the others
    and by its own draw.  Called sets of fives have the red one or not."""

    def deal(self):
        R = self.R
        s = self.target = R.randrange(4)
        while True:
            p = self.plan = plan_yaku(R, self.ctx, s)
            left = [list(range(4 * k, 4 * k + 4)) for k in range(34)]
            for k in (4, 13, 22):
                if R.random() < .5:
                    left[k] = left[k][1:] + left[k][:1]
            for k in range(34):
                if k not in (4, 13, 22):
                    R.shuffle(left[k])
            self.todo, hand = [], []
            for kind, k in p["called"]:
                if kind == "chi":
                    tiles = [left[x].pop(0) for x in (k, k + 1, k + 2)]
                    R.shuffle(tiles)
                    self.todo.append(("chi", tiles[:2], tiles[2:]))
                else:
                    tiles = [left[k].pop(0) for _ in range(3 if kind == "pon" else 4)]
                    R.shuffle(tiles)
                    own = 2 if kind in ("pon", "kakan") else 3
                    self.todo.append((kind, tiles[:own], tiles[own:]))
            R.shuffle(self.todo)
            base = list(p["closed"])
            out = R.choice([k for k in range(34) for _ in range(base[k])])
            base[out] -= 1
            hand = [left[k].pop() for k in range(34) for _ in range(base[k])]
            self.waits = []
            for k in range(34):
                if base[k] < 4:
                    base[k] += 1
                    if is_complete(base):
                        self.waits.append(k)
                    base[k] -= 1
            # others of the tiles waited for
            self.shows = [left[k].pop() for k in self.waits for _ in range(3) if left[k]][:5]
            if self.shows:
                break
        R.shuffle(self.shows)
        for kind, own, _ in self.todo:
            hand += own
        rest = [t for c in left for t in c]
        R.shuffle(rest)
        rest.sort(key=lambda t: t // 4 in self.waits)
        self.fill = [rest.pop(0) for _ in range(13 - len(hand))]
        self.hands = [[] for _ in range(4)]
        self.hands[s] = hand + self.fill
        for q in range(4):
            while len(self.hands[q]) < 13:
                self.hands[q].append(rest.pop(0))
        self.dora = rest.pop(0)
        self.pool = rest
        self.start = {"ctx": self.ctx, "hands": [sorted(x) for x in self.hands],
                      "dora": self.dora, "scores": list(self.scores), "pot": self.pot}

    def junk_tile(self):
        return self.pool.pop(0)

    def throw(self, s, t):
        self.do_discard(s, t)
        self.reveal(.5)

    def run(self):
        R, s = self.R, self.target
        turn = self.ctx["dealer"]
        # draws before anything else happens
        idle = R.choice([0, 0, 4, 5, 6, 7])
        after_kan = False
        while self.left > 10 and (self.todo or self.shows):
            td = self.todo[0] if self.todo else None
            if idle > 0:
                td = None
            if turn == s:
                if td and td[0] in ("ankan", "kakan") and (td[0] == "ankan" or len(td[1]) == 3):
                    t = td[2][0]
                    self.do_draw(s, t)
                    self.reveal(.5)
                    if td[0] == "ankan":
                        four = td[1] + [t]
                        code = ankan_code(R.choice(four))
                        for x in four:
                            self.hands[s].remove(x)
                        self.melds[s].append(("ankan", four, code))
                    else:
                        code = kakan_code(td[3], t)
                        self.hands[s].remove(t)
                        i = [i for i, m in enumerate(self.melds[s]) if m[2] == td[3]][0]
                        self.melds[s][i] = ("kakan", self.melds[s][i][1] + [t], code)
                    self.events.append(ev("N", s, 0, code))
                    self.owed += 1
                    self.todo.pop(0)
                    self.reveal(1 if td[0] == "ankan" else .5)
                    after_kan = True
                    continue
                showing = not td and idle <= 0 and (
                    len(self.shows) == 1 or R.random() < (.4 if after_kan else .8))
                after_kan = False
                t = self.shows.pop() if showing else self.junk_tile()
                self.do_draw(s, t)
                self.reveal(.5)
                flag = not self.any_calls() and self.draws <= 4
                if showing:
                    if self.can_win(s, t, True, flag) and R.random() < .5:
                        self.events.append(ev("WIN", s, t))
                        break
                d = t
                self.throw(s, d)
                idle -= 1
                turn = (s + 1) % 4
                continue
            call = td and (td[0] in ("pon", "minkan") or td[0] == "kakan" and len(td[1]) == 2
                           or td[0] == "chi" and (turn + 1) % 4 == s)
            showing = not td and idle <= 0 and len(self.shows) > 1 and R.random() < .8
            t = td[2][0] if call else self.shows.pop() if showing else self.junk_tile()
            self.do_draw(turn, t)
            self.reveal(.5)
            self.do_discard(turn, t)
            idle -= 1
            if call:
                self.reveal(.5)
                code = {"chi": lambda: chi_code(td[1] + [t], t),
                        "minkan": lambda: minkan_code(t, (turn - s) % 4)}.get(
                    td[0], lambda: pon_code(td[1] + [t], t, (turn - s) % 4))()
                self.call(s, "pon" if td[0] == "kakan" else td[0], td[1], t, code)
                self.todo.pop(0)
                if td[0] == "minkan":
                    self.owed += 1
                    self.reveal(.3)
                    turn = s
                    after_kan = True
                    continue
                if td[0] == "kakan":
                    self.todo.append(("kakan", td[1] + [t], td[2][1:], code))
                f = self.fill.pop()
                self.throw(s, f)
                turn = (s + 1) % 4
                continue
            if showing:
                flag = not self.any_calls() and (s - self.ctx["dealer"]) % 4 >= self.draws
                if self.can_win(s, t, False, flag) and R.random() < .15:
                    self.events.append(ev("WIN", s, t))
                    break
            self.reveal(.3)
            turn = (turn + 1) % 4
        self.finish()
        rd = dict(self.start)
        rd["ev"] = self.events
        return rd


def generate(seed, style=None, **kw):
    R = random.Random(seed)
    if style == "replacement":
        for _ in range(60):
            g = Replacement(R, "natural", **kw)
            rd = g.run()
            if g.hit:
                break
        return rd
    if style == "busy":
        # the longest of several
        rds = [Gen(R, "busy", **kw).run() for _ in range(50)]
        return max(rds, key=lambda rd: sum(e["e"] != "T" for e in rd["ev"]))
    if style == "four":
        for _ in range(30):
            g = Gen(R, "four", **kw)
            rd = g.run()
            if all(g.riichi):
                break
        return rd
    if style == "fourkans":
        for _ in range(30):
            g = Kans(R, **kw)
            rd = g.run()
            last = [e["s"] for e in rd["ev"] if e["e"] == "T"][-1:]
            if len(g.kan_seats) >= g.st.max_kans and g.left == 0 and last != [g.ready]:
                break
        return rd
    if style == "first":
        return First(R, **kw).run()
    if style == "furiten":
        return Furiten(R, **kw).run()
    if style == "options":
        return Options(R, **kw).run()
    if style == "yaku":
        return Yaku(R, "natural", **kw).run()
    if style == "claims":
        return Claims(R, **kw).run()
    if style == "probe":
        return Probe(R, "natural", **kw).run()
    if style in ("lastprobe", "robbed"):
        # repeated until the rare situation is there
        want = "robbed" if style == "robbed" else R.choice(["last own", "last other"]) + (
            " bare" if R.random() < .6 else "")
        for _ in range(60):
            g = Probe(R, "late", **kw) if style == "lastprobe" else Gen(R, "kanmaker", **kw)
            rd = g.run()
            if g.hit == want:
                break
        return rd
    return Gen(R, style, **kw).run()
