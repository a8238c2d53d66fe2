"""Shared machinery: environment, TLC runs, evidence, known findings."""
import json, os, re, subprocess, sys, tempfile, time, shutil, signal, random, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
# evidence and replays; elsewhere when another tree than /repo is examined
RESULTS = VERIF if REPO == "/repo" else os.environ.get("VERIF_RESULTS", "/tmp/verif-results")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


def q(quick, thorough):
    return thorough if TIER == "thorough" else quick


class MachineryError(Exception):
    pass


def add_repo_path():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ.setdefault("OMP_NUM_THREADS", "1")


class TLCResult:
    def __init__(self):
        self.out = ""
        self.generated = 0
        self.distinct = 0
        self.violated = None      # name of a violated invariant or property
        self.printed = []         # JSON values printed
        self.ok = False
        self.error = None
        self.seconds = 0.0
        self.diameter = 0


def scratch(prefix="verif"):
    return tempfile.mkdtemp(prefix=prefix + ".")


def tlc(module, cfg=None, env=None, workers=CORES, heap="6g", timeout=800, extra=(),
        consts=None):
    """Run TLC on spec/<module>.tla in a private directory; total result."""
    r = TLCResult()
    d = scratch("tlc")
    t0 = time.time()
    try:
        cfgpath = os.path.join(SPEC, (cfg or module) + ".cfg")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE",
               "-config", cfgpath, *extra, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        of = open(os.path.join(d, "out"), "w+")
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=of, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            r.error = "timeout"
        of.flush()
        of.seek(0)
        r.out = of.read()
        of.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r.seconds = time.time() - t0
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    if m:
        r.generated = int(m[-1][0].replace(",", ""))
        r.distinct = int(m[-1][1].replace(",", ""))
    m = re.search(r"number of states generated: ([\d,]+)", r.out)
    if m and "-simulate" in extra:
        r.generated = int(m.group(1).replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.diameter = int(m.group(1))
    m = re.search(r"Error: (?:Invariant|Action property|Temporal property) (\S+) is violated", r.out)
    if m:
        r.violated = m.group(1)
    elif "Temporal properties were violated" in r.out:
        r.violated = "temporal"
    elif "Deadlock reached" in r.out:
        r.violated = "deadlock"
    r.ok = "Model checking completed. No error has been found" in r.out or \
           ("-simulate" in extra and r.error is None and "Error:" not in r.out)
    if not r.ok and not r.violated and not r.error:
        i = r.out.find("Error:")
        r.error = r.out[i:i + 1500] if i >= 0 else r.out[-1500:]
    for line in r.out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                r.printed.append(json.loads(json.loads(line)))
            except ValueError:
                try:
                    s = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
                    r.printed.append(json.loads(s))
                except ValueError:
                    pass
    return r


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


class Check:
    """Collects what one check did and turns it into a verdict and evidence."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.details = {}
        self.violations = []      # (key, replay dict)
        self.assumptions = []
        self.exhaustive = False

    def add_tlc(self, r, name):
        self.states += r.distinct
        self.transitions += max(r.generated - 0, 0)
        self.details.setdefault("tlc", []).append(
            {"model": name, "distinct_states": r.distinct, "states_generated": r.generated,
             "depth": r.diameter, "seconds": round(r.seconds, 1)})

    def model(self, module, cfg=None, name=None, **kw):
        """A model that has to satisfy its properties, whatever the code does."""
        r = tlc(module, cfg, **kw)
        self.add_tlc(r, name or (cfg or module))
        if not r.ok:
            raise MachineryError("model %s: %s %s\n%s" % (cfg or module, r.violated, r.error,
                                                          r.out[-3000:]))
        return r

    def violate(self, key, replay):
        self.violations.append((key, replay))

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def finish(self):
        known = {f["key"]: f for f in known_findings() if f["property"] == self.prop}
        new = [(k, rp) for k, rp in self.violations if k not in known]
        seen = sorted({k for k, _ in self.violations if k in known})
        for k in seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["no trace"], "exhaustive": self.exhaustive}
        cov.update(self.details)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(RESULTS, "evidence"), exist_ok=True)
        tmp = os.path.join(RESULTS, "evidence", self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, tmp[:-4])
        if not new:
            print("OK property=%s states=%d traces=%d wall=%.1fs" % (
                self.prop, self.states, self.traces, time.time() - self.t0))
            return 0
        os.makedirs(os.path.join(RESULTS, "out"), exist_ok=True)
        path = os.path.join(RESULTS, "out", "%s.replay.json" % self.prop)
        with open(path, "w") as f:
            json.dump({"property": self.prop, "seed": SEED, "tier": TIER,
                       "violations": [{"key": k, "replay": rp} for k, rp in new[:20]],
                       "total": len(new)}, f, indent=1, default=str)
        for k, rp in new[:5]:
            print("  broken: %s" % k)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


class Timeout(BaseException):
    pass


def guarded(fn, seconds, *a):
    """Call fn; returns (result, error string). SystemExit and hangs are errors too."""
    def onalarm(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(seconds)
    try:
        return fn(*a), ""
    except Timeout:
        return None, "hang"
    except SystemExit as e:
        return None, "exit %s" % e.code
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return None, "%s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def pmap(fn, items, procs=CORES):
    import multiprocessing as mp
    items = list(items)
    if len(items) <= 1 or procs == 1:
        return [fn(x) for x in items]
    with mp.get_context("fork").Pool(min(procs, len(items))) as pool:
        return pool.map(fn, items, chunksize=max(1, len(items) // (procs * 4)))
