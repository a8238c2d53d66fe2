"""Game logs: call codes, writing logs, reading them back as abstract events."""
import xml.etree.ElementTree as ET

RED = (16, 52, 88)


# ---- the log's code of a call (mirrors Calls.tla; checked there by Decode) ----
def chi_code(tiles, claimed):
    ts = sorted(tiles)
    k = [t // 4 for t in ts]
    suit, num = k[0] // 9, k[0] % 9
    pos = ts.index(claimed)
    return (3 + 4 + 8 * (ts[0] % 4) + 32 * (ts[1] % 4) + 128 * (ts[2] % 4)
            + 1024 * (3 * (7 * suit + num) + pos))


def pon_code(tiles, claimed, rel):
    ts = sorted(tiles)
    k = ts[0] // 4
    unused = ({0, 1, 2, 3} - {t % 4 for t in ts}).pop()
    return rel + 8 + 32 * unused + 512 * (3 * k + ts.index(claimed))


def kakan_code(pon, added):
    k = added // 4
    which, rel = (pon >> 9) % 3, pon & 3
    return rel + 16 + 32 * (added % 4) + 512 * (3 * k + which)


def minkan_code(claimed, rel):
    return rel + 256 * claimed


def ankan_code(shown):
    return 256 * shown


def code_type(m):
    if m & 4:
        return "chi"
    if m & 8:
        return "pon"
    if m & 16:
        return "kakan"
    if m & 0x3c == 0:
        return "minkan" if m & 3 else "ankan"
    return "none"


# ---- rounds: {ctx, hands, dora, scores, pot, ev} ----
# ev: list of dicts e/s/t/m as in TraceRound.tla
def ev(e, s=0, t=0, m=0):
    return {"e": e, "s": s, "t": t, "m": m}


def round_xml(rd, ending_sc="250,0,250,0,250,0,250,0"):
    c = rd["ctx"]
    seed = "%d,%d,%d,%d,%d,%d" % (c["round"], c["honba"], rd["pot"], 1, 2, rd["dora"])
    out = ['<INIT seed="%s" ten="%s" oya="%d" %s/>' % (
        seed, ",".join(map(str, rd["scores"])), c["dealer"],
        " ".join('hai%d="%s"' % (i, ",".join(map(str, h))) for i, h in enumerate(rd["hands"])))]
    last_from = 0
    for e in rd["ev"]:
        k = e["e"]
        if k == "T":
            out.append("<%s%d/>" % ("TUVW"[e["s"]], e["t"]))
            last_from = e["s"]
        elif k == "D":
            out.append("<%s%d/>" % ("DEFG"[e["s"]], e["t"]))
            last_from = e["s"]
        elif k == "N":
            out.append('<N who="%d" m="%d" />' % (e["s"], e["m"]))
            last_from = e["s"]
        elif k == "R1":
            out.append('<REACH who="%d" step="1"/>' % e["s"])
        elif k == "R2":
            out.append('<REACH who="%d" ten="%s" step="2"/>' % (e["s"], "250,250,250,250"))
        elif k == "DORA":
            out.append('<DORA hai="%d" />' % e["t"])
        elif k == "WIN":
            out.append('<AGARI ba="0,0" hai="" machi="%d" ten="30,1000,0" yaku="1,1" doraHai="%d" '
                       'who="%d" fromWho="%d" sc="%s" />' % (e.get("t", 0), rd["dora"], e["s"],
                                                             last_from, ending_sc))
        elif k == "END":
            if len(rd["ev"]) < 2 or rd["ev"][-2]["e"] != "WIN":
                out.append('<RYUUKYOKU ba="0,0" sc="%s" />' % ending_sc)
    return "\n".join(out)


def game_xml(rounds, gtype=169, head='<UN n0="a" n1="b" n2="c" n3="d" dan="1,1,1,1" '
             'rate="1500,1500,1500,1500" sx="M,M,M,M"/><TAIKYOKU oya="0"/>', shuffle=True):
    body = "\n".join(round_xml(r) for r in rounds)
    return ('<mjloggm ver="2.3">%s<GO type="%d" lobby="0"/>%s%s</mjloggm>' % (
        '<SHUFFLE seed="x" ref=""/>' if shuffle else "", gtype, head, body))


def game_rounds(gtype):
    return 8 if gtype & 8 else 4


def parse(xml_bytes):
    """A log as (type, rounds); only what play consists of."""
    root = ET.fromstring(xml_bytes)
    gtype, rounds, cur = None, [], None
    for el in root.iter():
        t, a = el.tag, el.attrib
        if t == "GO":
            gtype = int(a["type"])
        elif t == "INIT":
            sd = list(map(int, a["seed"].split(",")))
            cur = {"ctx": {"dealer": int(a["oya"]), "round": sd[0], "rounds": 0, "honba": sd[1]},
                   "hands": [list(map(int, a["hai%d" % i].split(","))) for i in range(4)],
                   "dora": sd[5], "scores": list(map(int, a["ten"].split(","))), "pot": sd[2],
                   "ev": []}
            rounds.append(cur)
        elif cur is None:
            continue
        elif t == "N":
            cur["ev"].append(ev("N", int(a["who"]), 0, int(a["m"])))
        elif t == "REACH":
            cur["ev"].append(ev("R" + a["step"], int(a["who"])))
        elif t == "DORA":
            cur["ev"].append(ev("DORA", 0, int(a["hai"])))
        elif t == "AGARI":
            cur["ev"].append(ev("WIN", int(a["who"])))
        elif t == "RYUUKYOKU":
            cur["ev"].append(ev("END"))
        elif t[0] in "TUVW" and t[1:].isdigit():
            cur["ev"].append(ev("T", "TUVW".index(t[0]), int(t[1:])))
        elif t[0] in "DEFG" and t[1:].isdigit():
            cur["ev"].append(ev("D", "DEFG".index(t[0]), int(t[1:])))
    for r in rounds:
        r["ctx"]["rounds"] = game_rounds(gtype)
        if not r["ev"] or r["ev"][-1]["e"] != "END":
            r["ev"].append(ev("END"))
    return gtype, rounds
