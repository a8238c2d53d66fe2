"""C22: log acquisition (spec/Acquire.tla).

The two scripts run as an unprivileged user in a scratch folder that the check
creates and removes; the download gets a requests module that answers from a
plan.  Contents stand in the traces as labels of their exact bytes.
"""
import gzip, hashlib, json, os, random, shutil, subprocess, sys
import common
from common import q, SEED, pmap, tlc, scratch, MachineryError

NOBODY = 65534
DATA = os.path.join(common.REPO, "MahjongAI", "data")


def bodies(R):
    base = [b"", b"x", b"<mjloggm ver=\"2.3\"></mjloggm>", b"a\r\nb\r\n", b"a\nb", b"\x00\xff\xfe\x80",
            "\u6771\u5357\u897f\u5317 \u3042".encode(), "\u6771\u5357".encode("shift_jis"),
            gzip.compress(b"packed", mtime=0), b" lead and trail \n\n", b"\xef\xbb\xbfbom",
            b"&lt;&amp;%20", R.randbytes(R.choice([1000, 70000, 300000]))]
    return base


class Place:
    """A scratch folder of the unprivileged user, with what may not change around."""

    def __init__(self):
        self.dir = scratch("acq")
        os.chmod(self.dir, 0o755)
        self.work = os.path.join(self.dir, "work")
        for d in ("raw/2021", "raw/2020", "raw/2021x", "processed/2021", "processed/2020", "other"):
            os.makedirs(os.path.join(self.work, d))
        for p in ("raw/2020/sca1.html", "raw/2020/scc1.html.gz", "raw/2021x/sca1.html", "raw/sca.txt",
                  "raw/scc.gz", "processed/2020/a.log", "other/a.gz", "sca.html", "scc.html.gz"):
            self.put(p, b"keep " + p.encode())

    def put(self, p, data):
        with open(os.path.join(self.work, p), "wb") as f:
            f.write(data)

    def own(self):
        for r, ds, fs in os.walk(self.dir):
            os.chown(r, NOBODY, NOBODY)
            for f in fs:
                os.chown(os.path.join(r, f), NOBODY, NOBODY)

    def snapshot(self):
        out = {}
        for r, ds, fs in os.walk(self.work):
            for d in ds:
                out[os.path.relpath(os.path.join(r, d), self.work) + "/"] = None
            for f in fs:
                p = os.path.join(r, f)
                try:
                    with open(p, "rb") as h:
                        out[os.path.relpath(p, self.work)] = h.read()
                except OSError:
                    out[os.path.relpath(p, self.work)] = b"?"
        return out

    def run(self, cmd, env=None):
        e = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": self.dir, "TMPDIR": self.dir,
             "PYTHONDONTWRITEBYTECODE": "1"}
        e.update(env or {})
        p = subprocess.Popen(cmd, cwd=self.work, env=e, user=NOBODY, group=NOBODY, extra_groups=[],
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, start_new_session=True)
        try:
            err = p.communicate(timeout=60)[1].decode("utf-8", "replace")
            return p.returncode, err
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            return None, "hang"

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def script(place, name):
    d = os.path.join(place.dir, "prog")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    shutil.copyfile(os.path.join(DATA, name), p)
    os.chmod(p, 0o755)
    os.chmod(d, 0o755)
    return p


# what may be interrupted: the STOPth command of these kills the whole run,
# before, after, or in the midst of what it does
WRAPPER = """#!/bin/bash
me=$(/usr/bin/basename "$0")
n=$(($(/usr/bin/cat "$ACQ_COUNT") + 1)); echo $n > "$ACQ_COUNT"
if [ $n -ne "$ACQ_STOP" ]; then exec "/usr/bin/$me" "$@"; fi
last="${@: -1}"
case "$ACQ_HOW" in
part) case "$last" in *.gz) /usr/bin/gzip -tq -- "$last" && /usr/bin/zcat -- "$last" 2>/dev/null | /usr/bin/head -c "$ACQ_PART" > "${last%.gz}";; esac;;
after) "/usr/bin/$me" "$@";;
esac
kill -9 0
"""


def interrupted(R, place, prog):
    """A run that is killed (its own process group) at one of its commands."""
    d = os.path.join(place.dir, "bin")
    os.makedirs(d)
    for c in ("rm", "gunzip", "gzip", "zcat", "mv", "cp"):
        with open(os.path.join(d, c), "w") as f:
            f.write(WRAPPER)
        os.chmod(os.path.join(d, c), 0o755)
    cnt = os.path.join(place.dir, "count")
    with open(cnt, "w") as f:
        f.write("0")
    place.own()
    place.run([prog], {"PATH": d + ":/usr/bin:/bin", "ACQ_COUNT": cnt, "ACQ_STOP": str(R.randint(1, 12)),
                       "ACQ_HOW": R.choice(["before", "part", "part", "after"]),
                       "ACQ_PART": str(R.choice([0, 1, 2, 500]))})


STEMS = ["scc20210101", "scc2021010100.html", "scc", "scc x.html", "scc[1].html", "scc*", "scc?a", "scc-1",
         "scc.scb.html", "sccscb", "scc$HOME", "scc;ls", "scc'q", "sccx.tar",
         "sca20210101", "scb2021010100.log", "scd.html", "sce2021", "scf", "sc", "SCC2021.html", "Scc1",
         "ascc.html", "xscc1", "sc c1.html", "-rf", "-", "--", "readme.txt", "index.html", "a b scc.html",
         "*", "scb[0-9]", "sc*", "~", "scbscc.html", "2021scc", "s", "css1.html"]


def filter_case(seed):
    R = random.Random("c22f-%d-%d" % (SEED, seed))
    place = Place()
    try:
        bs = bodies(R)
        before, taken, labels = [], set(), {b: "b%d" % i for i, b in enumerate(bs)}
        stems = R.sample(STEMS, R.choice([0, 1, 1, 2, 3, 6, 12, len(STEMS)]))
        if seed % 7 == 0:
            stems = [s for s in stems if not s.startswith("scc")]
        if seed % 7 == 1:
            stems = [s for s in stems if s.startswith("scc")]
        for s in stems:
            for packed in R.sample(["no", "gzip", "broken"], R.choice([1, 1, 1, 2, 3])):
                stem = s if packed == "no" else s + R.choice(["", "", ".v"])
                if packed == "broken":
                    stem += "!"
                if stem in taken or (packed != "no" and stem.endswith("-")):
                    continue
                taken.add(stem)
                k = R.randrange(len(bs))
                name = stem + ("" if packed == "no" else ".gz")
                if packed == "gzip":
                    data = gzip.compress(bs[k], R.choice([1, 6, 9]), mtime=0)
                elif packed == "broken":
                    data = R.choice([b"not packed", b"\x1f\x8b\x08", b"<html>"]) + bs[k][:50]
                else:
                    data = bs[k]
                place.put("raw/2021/" + name, data)
                if packed == "broken":
                    labels.setdefault(data, "broken " + hashlib.sha1(data).hexdigest()[:8])
                before.append({"name": name, "body": labels[data] if packed == "broken" else "b%d" % k,
                               "packed": packed})
                if packed == "gzip" and R.random() < 0.15:
                    # what an interrupted run or an older archive left
                    part = R.choice([b"", bs[k][:len(bs[k]) // 2], b"older", bs[k]])
                    labels.setdefault(part, "left " + hashlib.sha1(part).hexdigest()[:8])
                    place.put("raw/2021/" + stem, part)
                    before.append({"name": stem, "body": labels[part], "packed": "no", "left": True})
        if R.random() < 0.4:
            for d in R.sample(["sccdir", "dir", "scb.d"], 2):
                os.makedirs(os.path.join(place.work, "raw/2021", d))
                place.put("raw/2021/%s/sca.html" % d, b"inside")
                place.put("raw/2021/%s/scc.html.gz" % d, b"inside")
        # bodies that occur twice have one label
        for f in before:
            if not f.pop("left", False) and f["packed"] != "broken":
                f["body"] = labels[bs[int(f["body"][1:])]]
        prog = script(place, "filter_raw.sh")
        place.own()
        s0 = place.snapshot()
        for _ in range(R.choice([0, 0, 1, 2])):
            if R.random() < 0.8:
                interrupted(R, place, prog)
                shutil.rmtree(os.path.join(place.dir, "bin"), ignore_errors=True)
            else:
                place.run([prog])
        code, err = place.run([prog])
        s1 = place.snapshot()
        after = []
        inside = lambda p: p.startswith("raw/2021/") and p.count("/") == 2 and not p.endswith("/")
        for p, data in s1.items():
            if inside(p):
                name = p.split("/")[-1]
                packed = "no"
                if name.endswith(".gz"):
                    packed = "gzip"
                    try:
                        data = gzip.decompress(data)
                    except Exception:
                        packed = "broken"
                after.append({"name": name, "body": labels.get(data, "?"), "packed": packed})
        outside = sorted({p for p in set(s0) | set(s1)
                          if not inside(p) and (p not in s0 or p not in s1 or s0[p] != s1[p])})
        return {"before": before, "after": after, "outside": outside,
                "err": [err] if err == "hang" else []}
    finally:
        place.remove()


def gid(R):
    return "%d%02d%02d%02dgm-%s-0000-%08x" % (R.choice([2009, 2021, 2023]), R.randint(1, 12), R.randint(1, 28),
                                              R.randint(0, 23), R.choice(["00a9", "0029", "00e1"]),
                                              R.getrandbits(32))


def anchor(R, url):
    quote = R.choice(['"', '"', "'"])
    pre = R.choice(["", "", "", 'target="_blank" ', "class='x' ", 'id=a rel="b c" ', "\n"])
    post = R.choice(["", "", ' target="_blank"', " class='y'", ' title="log"'])
    gap = R.choice([" ", " ", "  ", "\t", "\n"])
    return "<a%s%shref=%s%s%s%s>%s</a>" % (gap, pre, quote, url, quote, post,
                                           R.choice(["\u724c\u8b5c", "log", "", "<b>x</b>"]))


def page(R, urls):
    out = ["<html><head><meta charset=utf-8><link href=\"http://tenhou.net/0/?log=stylesheet\"></head><body>"]
    for u in urls:
        out.append(R.choice(["", "12:34 | 45 | \u56db\u9cf3\u5357\u559c\u8d64\u2212 | ", "http://tenhou.net/0/?log=text "]))
        out.append(anchor(R, u))
        out.append(R.choice(["", "<br>\n", " | A(+50.0) B(+1.0)<br>\r\n", "<img src=\"http://tenhou.net/0/?log=img\">"]))
    return "".join(out) + "</body></html>\n"


def download_case(seed):
    R = random.Random("c22d-%d-%d" % (SEED, seed))
    place = Place()
    try:
        bs = bodies(R)
        labels = {}
        for i, b in enumerate(bs):
            labels.setdefault(b, "b%d" % i)
        gids = [gid(R) for _ in range(R.choice([1, 2, 3, 5, 8]))]
        others = ["http://tenhou.net/3/?log=" + gids[0], "https://tenhou.net/0/?log=" + gids[0],
                  "http://tenhou.net/0/log/?" + gids[0], "/0/?log=" + gids[0], "http://tenhou.net/",
                  "mailto:a@b", "#top", "http://tenhou.net/0/?tw=1", "http://example.org/0/?log=" + gids[0],
                  "http://tenhou.net/0/", " http://tenhou.net/0/?log=" + gids[0],
                  "http://tenhou.net/0/?wg=" + gids[-1], ""]
        names = R.sample(["scc2021.html", "a.html", "x y.html", "scc1.htm", "b.txt", "c.html.gz", "d.html.bak",
                          "html", ".html.log", "e.HTML2", "scc2.html", "scc3.html", "scc4.html"],
                         R.choice([1, 2, 3, 5]))
        if not any(n.endswith(".html") for n in names):
            names.append("scc9.html")
        pages = []
        for n in names:
            links = []
            for _ in range(R.choice([0, 1, 2, 4, 8, 12])):
                links.append("http://tenhou.net/0/?log=" + R.choice(gids) if R.random() < 0.7
                             else R.choice(others))
            pages.append({"name": n, "links": links})
            place.put("raw/2021/" + n, page(R, links).encode())
        plan = {}
        for g in gids:
            plan["https://tenhou.net/0/log/?" + g] = [
                [R.choice([200, 200, 200, 200, 404, 500, 503, 403, 302, 429, 0]), R.randrange(len(bs))]
                for _ in range(R.choice([1, 1, 2, 3]))]
        pd = os.path.join(place.dir, "plan")
        os.makedirs(pd)
        for i, b in enumerate(bs):
            with open(os.path.join(pd, "body%d" % i), "wb") as f:
                f.write(b)
        json.dump(plan, open(os.path.join(pd, "plan.json"), "w"))
        open(os.path.join(pd, "requests.jsonl"), "w").close()
        before = []
        for g in R.sample(gids, R.choice([0, 0, 1]) if len(gids) > 1 else 0) + ["old"]:
            place.put("processed/2021/%s.log" % g, b"earlier " + g.encode())
            labels[b"earlier " + g.encode()] = "earlier " + g
            before.append([g, "earlier " + g])
        prog = script(place, "scrape_data.py")
        shutil.copytree(os.path.join(common.VERIF, "harness", "stubs", "requests"),
                        os.path.join(place.dir, "stubs", "requests"))
        place.own()
        s0 = place.snapshot()
        code, err = place.run([sys.executable, prog],
                              {"PYTHONPATH": os.path.join(place.dir, "stubs"), "ACQUIRE_PLAN": pd})
        s1 = place.snapshot()
        requests = [json.loads(l) for l in open(os.path.join(pd, "requests.jsonl"))]
        requests = [{"url": u, "status": s, "body": labels[bs[b]]} for u, s, b in requests]
        inside = lambda p: p.startswith("processed/2021/") and p.endswith(".log") and p.count("/") == 2
        after = [[p.split("/")[-1][:-4], labels.get(b, "?")] for p, b in s1.items() if inside(p)]
        outside = sorted({p for p in set(s0) | set(s1)
                          if not inside(p) and (p not in s0 or p not in s1 or s0[p] != s1[p])})
        return {"pages": pages, "before": before, "requests": requests, "after": after,
                "outside": outside,
                "err": [] if code == 0 else ["exit %s: %s" % (code, err[-300:])]}
    finally:
        place.remove()


def run(check):
    check.model("MCAcquire")
    check.model("MCFilter")
    fs = pmap(filter_case, range(q(240, 4000)))
    ds = pmap(download_case, range(q(320, 6000)))
    d = scratch("acqt")
    try:
        p = os.path.join(d, "t.json")
        with open(p, "w") as f:
            json.dump({"filters": fs, "downloads": ds}, f)
        r = tlc("TraceAcquire", env={"TRACE": p})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check.add_tlc(r, "TraceAcquire")
    vs = [v for v in r.printed if "verdict" in v]
    if not r.ok or len(vs) != len(fs) + len(ds):
        raise MachineryError("TraceAcquire: %s %s" % (r.violated, r.error or r.out[-3000:]))
    check.traces = len(fs) + len(ds)
    check.details.update(filter_runs=len(fs), files_filtered=sum(len(f["before"]) for f in fs),
                         download_runs=len(ds), requests=sum(len(x["requests"]) for x in ds))
    for v in sorted(vs, key=lambda v: v["verdict"]):
        c = v["verdict"]
        for b in v["bad"]:
            check.violate(b[0], {"what": b, "run": fs[c - 1] if c <= len(fs) else ds[c - 1 - len(fs)]})
    check.sample(fs[0])
    check.sample(ds[0])
