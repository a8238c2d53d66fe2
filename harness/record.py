"""Recorder: runs the implementation on a log and writes down all it recorded.

The recorder only reads; it knows the attributes of the recorded objects and
nothing about what they should contain.  Values are interned, so that a trace
file holds each distinct value once.
"""
import os, io, contextlib
import common
from common import guarded

common.add_repo_path()

NOTINT = -999
RAW_RIVERS = False       # also write down the discard tensors as they are


def num(x):
    try:
        f = float(x)
        return int(f) if f == int(f) else NOTINT
    except Exception:
        return NOTINT


def nums(a):
    return [num(x) for x in list(a)]


class Interner:
    def __init__(self):
        self.vals, self.index = [], {}

    def __call__(self, v):
        key = repr(v)
        i = self.index.get(key)
        if i is None:
            self.vals.append(v)
            i = self.index[key] = len(self.vals)     # 1-based
        return i


def state_tuple(s, it):
    sut = s.sutehai_tensors
    vals = [
        nums(s.hand_tensor), nums(s.remaining_tiles_pov), nums(s.remaining_tiles),
        [[i for i in range(len(sut[p])) if num(sut[p][i]) != 0] for p in range(4)],
        nums(s.is_menzen), nums(s.double_reaches), nums(s.reaches), nums(s.ippatsu),
        [[num(m.naki_code) for m in ms] for ms in s.melds],
        nums(s.scores),
        [num(s.kyotaku), num(s.honba), num(s.rounds_remaining), num(s.remaining_tsumo),
         num(s.remaining_turns), num(s.player)],
        nums(s.dora), nums(s.parent_tensor), nums(s.parent_rounds_remaining),
    ]
    if len(sut) != 4 or len(s.melds) != 4:
        raise ValueError("not four seats")
    if RAW_RIVERS:
        vals.append([nums(sut[p]) for p in range(4)])
    return [it(v) for v in vals]


def options(lists):
    """Options of one player: [wins, riichis, calls]."""
    return [[[num(d.player), int(bool(d.executed))] for d in lists[0]],
            [[num(d.player), int(bool(d.executed))] for d in lists[1]],
            [[num(d.player), int(bool(d.executed)), num(d.naki.naki_code)] for d in lists[2]]]


def record_halfturn(h, it):
    from MahjongAI.turn import DuringTurn, DiscardTurn, PostTurn
    if isinstance(h, DuringTurn):
        return {"k": "U", "p": num(h.player), "n": num(h.encoding_idx),
                "s": state_tuple(h.stateObj, it), "o": options(h.decisions), "t": -1}
    if isinstance(h, DiscardTurn):
        return {"k": "D", "p": num(h.player), "n": num(h.encoding_idx),
                "s": state_tuple(h.stateObj, it), "o": [], "t": num(h.discarded_tile)}
    if isinstance(h, PostTurn):
        return {"k": "P", "p": num(h.player), "n": num(h.encoding_idx),
                "s": [state_tuple(x, it) for x in h.stateObjs],
                "o": [options(h.decisions[p]) for p in range(4)], "t": -1}
    return {"k": "?", "p": -1, "n": -1, "s": [], "o": [], "t": -1}


def run_process(path):
    from MahjongAI.process_xml import process
    with contextlib.redirect_stdout(io.StringIO()):
        return process(path)


def record_result(res, it):
    halfturns, tokens = res
    if len(halfturns) != len(tokens):
        raise ValueError("rounds and histories differ in number")
    return [{"rec": [record_halfturn(h, it) for h in hs], "tok": nums(tk)}
            for hs, tk in zip(halfturns, tokens)]


def record_log(path, it, seconds=60):
    """([rounds: {rec, tok}], error)"""
    res, err = guarded(run_process, seconds, path)
    if err:
        return None, err
    return guarded(record_result, seconds, res, it)
