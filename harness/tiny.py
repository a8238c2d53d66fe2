"""Very short games that can be told apart."""
import random
import mjlog


def round_(R, ident=0):
    """A deal, one or two draws and discards, and a drawn round."""
    tiles = list(range(136))
    R.shuffle(tiles)
    hands = [sorted(tiles[13 * s:13 * s + 13]) for s in range(4)]
    rest = tiles[52:]
    d = R.randrange(4)
    evs = []
    s = d
    for _ in range(R.choice([1, 2])):
        t = rest.pop()
        evs += [mjlog.ev("T", s, t), mjlog.ev("D", s, t)]
        s = (s + 1) % 4
    evs.append(mjlog.ev("END"))
    return {"ctx": {"dealer": d, "round": d, "rounds": 8, "honba": ident}, "hands": hands,
            "dora": rest.pop(), "scores": [250] * 4, "pot": 0, "ev": evs}


def game(R, ident=0, gtype=169, rounds=1):
    return mjlog.game_xml([round_(R, ident) for _ in range(rounds)], gtype)
