#!/usr/bin/env python3
"""Decides one property: run.py PROPERTY | --setup | --list

Stages of a property (see PROPS):
  mc   model-check a specification module on its own (small constants);
       an error here is an error of the machinery, never a violation
  tv   harness command records traces of the real code, TLC validates them
       against the trace module: an event it does not allow is a violation
  gen  TLC generates behaviours of a module (ndjson), harness replays them
       on the real code: a mismatch is a violation
  sp   harness records a scenario, TLC turns it into symbolic programs,
       harness evaluates them against the recorded values
Environment: VERIF_SEED, VERIF_TIER, VERIF_REPO (default /repo), VERIF_KEEP.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LEVEL = "model_checking"

import sp  # noqa: E402
from props import PROPS  # noqa: E402


class Machinery(Exception):
    pass


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.text, self.replay = text, replay


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GO111MODULE="on")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "")
    e["VERIF_SEED"] = str(SEED)
    e["VERIF_TIER"] = TIER
    return e


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.stats = {}
        self.bin = None

    # ---------------------------------------------------------------- build
    def build(self):
        mod = os.path.join(self.dir, "go.mod")
        with open(os.path.join(HERE, "harness/go.mod")) as f:
            text = f.read().replace("=> /repo", "=> " + REPO)
        with open(mod, "w") as f:
            f.write(text)
        open(os.path.join(self.dir, "go.sum"), "w").close()
        self.bin = os.path.join(self.dir, "vharness")
        self.cmd(["go", "build", "-modfile", mod, "-o", self.bin, "."],
                 cwd=os.path.join(HERE, "harness"), what="building the harness")

    def build_race(self):
        """The harness with the race detector in, where that is possible."""
        out = os.path.join(self.dir, "vharness-race")
        p = subprocess.run(["go", "build", "-race", "-modfile", os.path.join(self.dir, "go.mod"),
                            "-o", out, "."], cwd=os.path.join(HERE, "harness"),
                           env=dict(goenv(), CGO_ENABLED="1"), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        ok = p.returncode == 0 and subprocess.run(
            [out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 4
        self.stats["race_detector"] = int(ok)
        if ok:
            self.bin = out

    def races(self, d):
        """Reported races in the code under test become events no specification allows."""
        reports = []
        for f in sorted(os.listdir(d)):
            if f.startswith("race."):
                reports += open(os.path.join(d, f)).read().split("==================")
        reports = [r for r in reports if "DATA RACE" in r]
        for r in reports:
            # the innermost frames of the two accesses
            if "nlpodyssey/goslide" not in r:
                raise Machinery("a race in the harness:\n" + r[:3000])
        if reports:
            path = os.path.join(d, "traces.json")
            traces = json.load(open(path))
            traces[-1]["ev"].append({"op": "race", "report": reports[0][:4000]})
            json.dump(traces, open(path, "w"))

    def build_main(self):
        """The real program, with the trace hooks on."""
        out = os.path.join(self.dir, "goslide")
        if not os.path.exists(out):
            self.cmd(["go", "build", "-tags", "verif", "-o", out, "."], cwd=REPO,
                     what="building goslide")
        return out

    def cmd(self, argv, cwd, what):
        p = subprocess.run(argv, cwd=cwd, env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise Machinery("%s failed:\n%s" % (what, p.stdout[-3000:]))
        return p.stdout

    # -------------------------------------------------------------- harness
    def harness(self, command, sub):
        d = os.path.join(self.dir, sub)
        os.makedirs(d, exist_ok=True)
        env = goenv()
        env["VERIF_PROPERTY"] = self.prop
        env["GORACE"] = "halt_on_error=0 exitcode=0 log_path=" + os.path.join(d, "race")
        env["VERIF_GOSLIDE"] = os.path.join(self.dir, "goslide")
        p = subprocess.run([self.bin, command, d], env=env, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
        for line in p.stdout.splitlines():
            if line.startswith("STAT "):
                for k, v in re.findall(r"(\w+)=(\d+)", line):
                    self.stats[k] = self.stats.get(k, 0) + int(v)
            elif line.startswith("SAMPLE "):
                if len(self.samples) < 6:
                    self.samples.append(json.loads(line[7:]))
        for line in p.stdout.splitlines():
            if line.startswith("MISMATCH "):
                raise Violation("the real code disagrees with the specification: " + line[9:1200],
                                {"stage": command, "mismatch": json.loads(line[9:])})
        if p.returncode == 3:
            raise Violation("a call does not return: " + p.stdout[-500:],
                            {"stage": command, "hang": p.stdout[-500:]})
        if p.returncode == 2 and re.search(r"^(panic|fatal error|runtime)", p.stderr, re.M):
            raise Violation("the code under test crashes: " + p.stderr[:600],
                            {"stage": command, "crash": p.stderr[:6000]})
        if p.returncode != 0:
            raise Machinery("harness %s exits with %d\n%s%s" %
                            (command, p.returncode, p.stdout[-1000:], p.stderr[-3000:]))
        return d

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, d, cfg=None, workers="8", extra=(), heap="8g", timeout=3000):
        for f in os.listdir(os.path.join(HERE, "spec")):
            shutil.copy(os.path.join(HERE, "spec", f), d)
        meta = os.path.join(d, "states-" + module)
        argv = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JAR,
                "-Djava.io.tmpdir=" + d,
                "tlc2.TLC", "-workers", workers, "-metadir", meta, "-seed", str(SEED),
                "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
        try:
            p = subprocess.run(argv, cwd=d, text=True, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC %s: timeout" % module)
        shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
            self.models.append({"module": module, "cfg": cfg or module,
                                "distinct_states": int(m[-1][1]), "generated": int(m[-1][0])})
        else:
            m = re.findall(r"(\d+) states checked, (\d+) traces generated", out.replace(",", ""))
        return p.returncode, out

    def mc(self, module, cfg=None, **kw):
        d = os.path.join(self.dir, "mc-" + (cfg or module))
        os.makedirs(d, exist_ok=True)
        rc, out = self.tlc(module, d, cfg, **kw)
        if rc != 0 or "No error has been found" not in out:
            raise Machinery("model checking %s:\n%s" % (module, out[-4000:]))

    def tv(self, command, module, d=None, tracefile="traces.json"):
        d = d or self.harness(command, command)
        path = os.path.join(d, tracefile)
        traces = json.load(open(path))
        if not traces:
            raise Machinery("no traces from " + command)
        self.traces += len(traces)
        self.events += sum(len(t["ev"]) for t in traces)
        if len(self.samples) < 6:
            t = traces[len(traces) // 2]
            s = json.dumps({"cfg": t["cfg"], "ev": t["ev"][:4]})
            self.samples.append(json.loads(s) if len(s) < 1500 else s[:1500])
        rc, out = self.tlc(module, d)
        self.judge(rc, out, traces, command, module)

    def judge(self, rc, out, traces, command, module):
        if "No error has been found" in out and rc == 0:
            return
        bad = last_state(out)
        if "Deadlock reached" in out or ("Invariant" in out and "is violated" in out):
            if bad is None:
                raise Machinery("TLC %s: no state in its report\n%s" % (module, out[:3000]))
            tr, l = bad
            t = traces[tr - 1]
            l = min(l, len(t["ev"]))
            raise Violation(
                "trace %d of %s: the specification %s does not allow event %d: %s" %
                (tr, command, module, l, json.dumps(t["ev"][l - 1])[:600]),
                {"stage": command, "module": module, "cfg": t["cfg"], "failing_event": l,
                 "events": t["ev"][:l]})
        # An evaluation error happens when the code answers something of a
        # shape no specified answer has (a missing row, say): find the event.
        m = re.search(r"Error: .*", out)
        if bad is not None and ("evaluat" in out or "Attempted" in out):
            tr, l = bad
            t = traces[tr - 1]
            if l <= len(t["ev"]) and os.environ.get("VERIF_EVALERR") != "machinery":
                raise Violation(
                    "trace %d of %s: %s cannot explain event %d: %s" %
                    (tr, command, module, l, json.dumps(t["ev"][l - 1])[:600]),
                    {"stage": command, "module": module, "cfg": t["cfg"], "failing_event": l,
                     "tlc": out[:3000], "events": t["ev"][:l]})
        raise Machinery("TLC %s:\n%s" % (module, out[-5000:]))

    def sp(self, command, module, d=None):
        """Recorded scenario -> (TLC) symbolic program -> comparison."""
        d = d or self.harness(command, command)
        traces = json.load(open(os.path.join(d, "traces.json")))
        if not traces:
            raise Machinery("no traces from " + command)
        self.traces += len(traces)
        self.events += sum(len(t["ev"]) for t in traces)
        if len(self.samples) < 6:
            s = json.dumps(traces[len(traces) // 2]["ev"][:2])
            self.samples.append(json.loads(s) if len(s) < 1500 else s[:1500])
        prog = os.path.join(d, "prog.ndjson")
        if os.path.exists(prog):
            os.unlink(prog)
        rc, out = self.tlc(module, d, workers="1")
        self.judge(rc, out, traces, command, module)
        if not os.path.exists(prog):
            raise Machinery("%s emitted nothing\n%s" % (module, out[-2000:]))
        try:
            it = sp.run(prog, os.path.join(d, "values.json"))
        except sp.Bad as b:
            what = b.args[1]
            m = re.match(r"o\w*/(\d+)/(\d+)", what)
            rep = {"stage": command, "module": module, "observation": what, "detail": b.args[0]}
            if m:
                t = traces[int(m.group(1)) - 1]
                rep["cfg"], rep["events"] = t["cfg"], t["ev"][:int(m.group(2))]
            raise Violation("%s: %s (names: spec/%s.tla)" % (command, b.args[0], module), rep)
        except KeyError as k:
            raise Machinery("%s: %s" % (module, k))
        if it.checked < 10 * it.skipped or it.checked == 0:
            raise Machinery("%s: only %d expectations decided, %d skipped" %
                            (module, it.checked, it.skipped))
        self.stats["expectations"] = self.stats.get("expectations", 0) + it.checked
        self.stats["expectations_skipped"] = self.stats.get("expectations_skipped", 0) + it.skipped

    def gen(self, module, outfile, d, cfg=None, extra=(), **kw):
        """TLC writes behaviours into d/outfile (CSVWrite appends)."""
        rc, out = self.tlc(module, d, cfg, extra=extra, **kw)
        if rc != 0 or not os.path.exists(os.path.join(d, outfile)):
            raise Machinery("generating behaviours of %s:\n%s" % (module, out[-4000:]))
        return out

    def replay(self, module, command, num, depth):
        """Behaviours drawn by TLC (simulation), replayed by the harness."""
        d = self.sub(command)
        out = self.gen(module, "prog.ndjson", d, workers="1",
                       extra=["-deadlock", "-simulate", "num=%d" % num, "-depth", str(depth)])
        m = re.search(r"(\d+) states checked", out.replace(",", ""))
        if m:
            self.states += int(m.group(1))
        n = sum(1 for _ in open(os.path.join(d, "prog.ndjson")))
        self.harness(command, command)
        if n < num * 0.8:
            raise Machinery("%s: only %d behaviours" % (module, n))
        self.traces += n

    def nodes(self, cfg, num, depth=160):
        """Behaviours of NodeOps drawn by TLC, replayed on real neurons."""
        d = self.sub("nodes-" + cfg)
        out = self.gen("NodeOps", "prog.ndjson", d, cfg=cfg, workers="1",
                       extra=["-deadlock", "-simulate", "num=%d" % num, "-depth", str(depth)])
        m = re.search(r"(\d+) states checked", out.replace(",", ""))
        if m:
            self.states += int(m.group(1))
        self.harness("nodes", "nodes-" + cfg)
        try:
            n, checked, skipped = sp.run_behaviours(os.path.join(d, "prog.ndjson"),
                                                    os.path.join(d, "values.ndjson"))
        except sp.Bad as b:
            raise Violation("nodes: %s (names: spec/NodeOps.tla)" % b.args[0],
                            {"stage": "nodes", "detail": b.args[0], **b.args[2]})
        except KeyError as k:
            raise Machinery("NodeOps: %s" % k)
        if n < num * 0.8 or checked < 10 * skipped:
            raise Machinery("NodeOps: %d behaviours, %d expectations, %d skipped" % (n, checked, skipped))
        self.traces += n
        for k, v in (("expectations", checked), ("expectations_skipped", skipped)):
            self.stats[k] = self.stats.get(k, 0) + v

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ------------------------------------------------------------- evidence
    def evidence(self, violations):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"],
               "trace_events": self.events, "models": self.models}
        for k, v in self.stats.items():
            cov["harness_" + k] = v
        cov["what"] = PROPS[self.prop]["what"]
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": LEVEL, "coverage": cov,
              "assumptions": PROPS[self.prop].get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def last_state(out):
    tr = re.findall(r"^/\\ tr = (\d+)", out, re.M)
    l = re.findall(r"^/\\ l = (\d+)", out, re.M)
    if not tr or not l:
        return None
    return int(tr[-1]), int(l[-1])


def main():
    if sys.argv[1:] == ["--list"]:
        print(" ".join(PROPS))
        return 0
    if sys.argv[1:] == ["--setup"]:
        r = Run("setup")
        try:
            r.build()
            r.build_main()
        finally:
            shutil.rmtree(r.dir, ignore_errors=True)
        print("setup ok")
        return 0
    prop = sys.argv[1]
    r = Run(prop)
    keep = os.environ.get("VERIF_KEEP")
    try:
        r.build()
        PROPS[prop]["run"](r, THOROUGH)
        r.evidence(0)
        print("OK property=%s states=%d traces=%d events=%d %s wall=%.1fs" % (
            prop, r.states, r.traces, r.events,
            " ".join("%s=%d" % kv for kv in r.stats.items()), time.time() - r.t0))
        return 0
    except Violation as v:
        r.evidence(1)
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, SEED))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": SEED, "tier": TIER, "what": v.text,
                       "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/run.py %s" % (SEED, TIER, prop),
                       **v.replay}, f, indent=1)
        print(v.text)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    except Machinery as e:
        print("ERROR of the check %s: %s" % (prop, e))
        return 2
    finally:
        if keep:
            print("kept", r.dir)
        else:
            shutil.rmtree(r.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
