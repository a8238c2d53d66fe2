"""C01-C03: all call codes and all call descriptions."""
import json, os, shutil
import common
from common import scratch, tlc, MachineryError, guarded

common.add_repo_path()
NAMES = ["chi", "pon", "kakan", "minkan", "ankan"]


def record_code(Naki, m):
    x = {"rejected": True, "types": [], "own": [], "claimed": -1, "rel": -1, "canon": -1,
         "number": -1}
    try:
        n = Naki(m)
        own, claimed = n.get_exposed()
    except Exception:
        return x
    x["rejected"] = False
    try:
        x["types"] = [t for t in NAMES if bool(getattr(n, "is_" + t)())]
        x["own"] = [int(t) for t in own] if own is not None else []
        x["claimed"] = -1 if claimed is None else int(claimed)
        x["rel"] = int(n.from_who())
        x["canon"] = int(n.convenient_naki_code)
    except Exception:
        x["types"].append("error")
    try:
        own_turn = x["types"] in (["ankan"], ["kakan"])
        x["number"] = int(n.get_during_turn_filter_idx() if own_turn
                          else n.get_post_turn_filter_idx())
    except Exception:
        x["number"] = -2
    return x


def five(k):
    return k < 27 and k % 9 == 4


def descriptions():
    """(choice, constructor, arguments)"""
    for s in range(3):
        for n in range(7):
            for pos in range(3):
                i5 = 4 - n                       # place of the five in the run
                uses = ["none"]
                if 0 <= i5 <= 2:
                    uses.append("claimed" if i5 == pos else "own")
                for u in uses:
                    yield (["chi", 9 * s + n, pos, 3, u], "from_chi_info", (s, n, pos, u != "none"))
    for k in range(34):
        for rel in (1, 2, 3):
            for u in (["none", "own", "claimed"] if five(k) else ["none"]):
                yield (["pon", k, 0, rel, u], "from_pon_info",
                       (k, 1 if u == "own" else 0, u != "none", rel))
            for u in (["own", "claimed"] if five(k) else ["none"]):
                yield (["minkan", k, 0, rel, u], "from_minkan_info",
                       (k, rel, 0 if u == "claimed" else 1))
        for u in (["own", "none"] if five(k) else ["none"]):
            yield (["kakan", k, 0, 0, u], "from_kakan_info", (k, 1 if five(k) and u == "none" else 0))
        yield (["ankan", k, 0, 0, "own" if five(k) else "none"], "from_ankan_info", (k,))


def run(check):
    from MahjongAI.draw import Naki
    prop = check.prop
    codes = [record_code(Naki, m) for m in range(65536)]
    built = []
    for choice, ctor, args in descriptions():
        try:
            built.append({"choice": choice, "err": "",
                          "canon": int(getattr(Naki, ctor)(*args).convenient_naki_code)})
        except Exception as e:
            built.append({"choice": choice, "err": repr(e)[:80], "canon": -1})
    check.model("MCCalls", name="MCCalls: codes, choices and numbers of all calls")
    d = scratch("calls")
    try:
        p = os.path.join(d, "t.json")
        json.dump({"codes": codes, "built": built}, open(p, "w"))
        r = tlc("TraceCalls", env={"TRACE": p}, heap="12g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "TraceCalls")
    if not r.ok:
        raise MachineryError("TraceCalls: %s" % (r.error or r.violated))
    check.traces = 65536 + len(built)
    check.exhaustive = True
    check.details["codes_recorded"] = 65536
    check.details["codes_accepted"] = sum(not c["rejected"] for c in codes)
    check.details["descriptions_built"] = len(built)
    for m in (3 + 4 + 8, 0x4c69, 1024, 15497, 32):
        check.sample({"code": m, "recorded": codes[m]})
    for v in r.printed:
        for b in v.get("bad", []):
            if b[0] == prop:
                check.violate("%s %s" % (b[1], b[2]),
                              {"clause": b[1], "code or tile": b[2],
                               "recorded": codes[b[2]] if isinstance(b[2], int) and b[0] == "C01" else None})
    check.assumptions.append("the codes a four-player log can contain are those of Calls.Code, KakanCode and AnkanCode")
