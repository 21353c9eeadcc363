"""Interprets the symbolic programs TLC emits (spec/Terms.tla) over doubles.

Every value carries a bound on its rounding error, so that a comparison is
exactly as tolerant as the arithmetic requires (any order of summation) and
no more. A term whose bound is useless is skipped and counted."""
import json, math

EPS = 4e-16
SLACK = 64.0        # times the propagated bound
FLOOR = 1e-290


class Bad(Exception):
    pass


class Unsure(Exception):
    pass


class Interp:
    def __init__(self, values):
        self.values = values
        self.defs = {}
        self.checked = self.skipped = 0
        self.groups = {}
        for k, v in values.items():
            if k[0] == "o":
                p = k.split("/", 4)
                if len(p) == 5:
                    self.groups.setdefault("o/" + "/".join(p[1:4]), {})[p[0] + "/" + p[4]] = v

    def leaf(self, name):
        if name in self.defs:
            return self.defs[name]
        if name in self.values:
            v = self.values[name]
            return (float(v), 0.0)
        raise KeyError("the program mentions %s, which was not recorded" % name)

    def ev(self, t):
        if isinstance(t, str):
            if t[0] == "#":
                n, _, d = t[1:].partition("/")
                return (int(n) / int(d or 1), 0.0) if not d else (int(n) / int(d), EPS * abs(int(n) / int(d)))
            r = self.leaf(t)
            if r is None:
                raise Unsure()
            return r
        op = t[0]
        if op == "gate":            # gate(c, x): x if c > 0, else 0
            c, ec = self.ev(t[1])
            if abs(c) <= SLACK * ec and ec > 0:
                raise Unsure()
            return self.ev(t[2]) if c > 0 else (0.0, 0.0)
        args = [self.ev(a) for a in t[1:]]
        if op == "+":
            s = math.fsum(a for a, _ in args)
            mag = math.fsum(abs(a) for a, _ in args)
            return s, math.fsum(e for _, e in args) + EPS * mag * max(1, len(args) - 1)
        if op == "*":
            v, e = args[0]
            for b, eb in args[1:]:
                v, e = v * b, abs(v) * eb + abs(b) * e + e * eb + EPS * abs(v * b)
            return v, e
        if op == "-":
            (a, ea), (b, eb) = args
            return a - b, ea + eb + EPS * abs(a - b)
        if op == "neg":
            return -args[0][0], args[0][1]
        if op == "/":
            (a, ea), (b, eb) = args
            if abs(b) <= 4 * eb or b == 0:
                raise Unsure()
            q = a / b
            return q, (ea + abs(q) * eb) / (abs(b) - eb) + EPS * abs(q)
        if op == "relu":
            a, e = args[0]
            return max(a, 0.0), e if a > -e else 0.0
        if op == "max":
            return max(a for a, _ in args), max(e for _, e in args)
        if op == "exp":
            a, e = args[0]
            if e > 0.01:
                raise Unsure()
            try:
                v = math.exp(a)
            except OverflowError:
                raise Unsure()
            return v, v * (2 * e + 2 * EPS)
        if op == "sqrt":
            a, e = args[0]
            if a < 0:
                if a < -e:
                    raise Unsure()
                a = 0.0
            s = math.sqrt(a)
            d = min(math.sqrt(e), e / s) if s > 0 else math.sqrt(e)
            return s, d + EPS * s
        if op == "pow":
            (a, ea), (b, eb) = args
            v = math.pow(a, b)
            return v, abs(v) * (abs(b) * (ea / abs(a) if a else 0) + 4 * EPS)
        raise KeyError(op)

    def line(self, it):
        if "d" in it:
            try:
                v = self.ev(it["e"])
                if not (math.isfinite(v[0]) and math.isfinite(v[1])):
                    v = None
            except (Unsure, OverflowError):
                v = None
            self.defs[it["d"]] = v
            return
        if "same" in it:
            a, b = self.groups[it["same"]], self.groups[it["as"]]
            if a.keys() != b.keys():
                raise KeyError("different observations %s %s" % (it["same"], it["as"]))
            for k in a:
                self.checked += 1
                if a[k] != b[k] and not (a[k] != a[k] and b[k] != b[k]):
                    raise Bad("%s of %s is %r, which must be as it was, %r" %
                              (k, it["same"], a[k], b[k]), it["same"])
            return
        self.expect(it)
        if "x" in it and isinstance(it["e"], str) and it["e"] in self.defs:
            # judged (or undecidable): later terms build on what was seen,
            # so that rounding errors do not pile up over a history
            self.defs[it["e"]] = (float(self.values[it["x"]]), 0.0)

    def expect(self, it):
        try:
            v, e = self.ev(it["e"])
        except (Unsure, OverflowError):
            self.skipped += 1
            return
        if "x" in it:
            got, eg = float(self.values[it["x"]]), 0.0
            what = it["x"]
        else:
            what = json.dumps(it["y"])[:300]
            try:
                got, eg = self.ev(it["y"])
            except (Unsure, ZeroDivisionError):
                got, eg = math.nan, 0.0
        if not (math.isfinite(v) and math.isfinite(e)):
            self.skipped += 1
            return
        tol = SLACK * (e + eg + EPS * abs(v)) + FLOOR
        if tol > 1e-3 * abs(v) and tol > it.get("tol", 1e-6):
            self.skipped += 1
            return
        self.checked += 1
        if not (abs(got - v) <= tol):
            raise Bad("%s is %r, specified %r (+-%.2g)" % (what, got, v, tol), what)


def num(v):
    return float(v) if not isinstance(v, str) else float(v.replace("+Inf", "inf").replace("-Inf", "-inf"))


def run(prog, values):
    it = Interp({k: num(v) for k, v in json.load(open(values)).items()})
    for line in open(prog):
        if not line.strip():
            continue
        for x in json.loads(json.loads(line)):
            it.line(x)
    return it


def run_behaviours(prog, values):
    """Generated behaviours (NodeOps): every one with its own values."""
    checked = skipped = n = 0
    with open(prog) as fp, open(values) as fv:
        for lp, lv in zip(fp, fv):
            b = json.loads(json.loads(lp))
            it = Interp({k: num(v) for k, v in json.loads(lv).items()})
            n += 1
            try:
                for x in b["start"]:
                    it.line(x)
                for op in b["ops"]:
                    for x in op["prog"]:
                        it.line(x)
            except Bad as e:
                q = int(e.args[1].split("/")[2])
                for op in b["ops"]:
                    op.pop("prog")
                raise Bad("behaviour %d step %d: %s" % (n, q, e.args[0]), e.args[1],
                          {"kind": b["kind"], "ops": b["ops"][:q],
                           "values": {k: v for k, v in it.values.items() if k[0] != "o"}})
            checked += it.checked
            skipped += it.skipped
    return n, checked, skipped
