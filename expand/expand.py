#!/usr/bin/env python3
"""C14: expansions of mockall's macros under simulated worlds.

A world fixes everything a macro could pick up besides the item it is given:
the seeds of every randomised hash table, the clock, the process id, the
environment, the working directory, and which items the same compiler process
expanded before (order, omissions, repetitions, failed expansions).  Every item
must expand to the same code, and fail with the same messages, in every world.
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LT = ["'a", "'b", "'c", "'d", "'e", "'f", "'g"]
TY = ["T", "U", "V", "W"]


NOASLR = ["setarch", "-R"] if shutil.which("setarch") and subprocess.run(
    ["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0 else []
TOKEN = re.compile(r"[A-Za-z0-9_]+|[^A-Za-z0-9_\s]")


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def sub(self, xs, lo=0, hi=None):
        xs = list(xs)
        k = self.r.randint(lo, min(len(xs), hi if hi is not None else len(xs)))
        return self.r.sample(xs, k)

    def ty(self, lts, tys, depth=0):
        r = self.r.randrange(15 if depth < 2 else 7)
        t = lambda: self.ty(lts, tys, depth + 1)
        if r < 2 or (r < 5 and not lts and not tys):
            return self.pick(["u32", "String", "i64", "bool"])
        if r < 4 and lts:
            return "&%s %s" % (self.pick(lts), self.pick(["u32", "str", "X0"]))
        if r < 6 and tys:
            return self.pick(tys)
        if r == 6 and lts:
            return "X2<%s, %s>" % (self.pick(lts), self.pick(lts))
        if r == 7:
            return "Vec<%s>" % t()
        if r == 8:
            return "Option<%s>" % t()
        if r == 9:
            return "(%s, %s)" % (t(), t())
        if r == 10 and lts:
            return "Box<dyn Tr1<%s> + %s>" % (self.pick(lts), self.pick(lts))
        if r == 11 and lts:
            return "Box<dyn Tr2<%s> + %s>" % (t(), self.pick(lts))
        if r == 12 and lts:
            return "X3<%s>" % ", ".join(self.pick(lts) for _ in range(3))
        if r == 13:
            return "[%s; 3]" % t()
        if r == 14 and lts and self.chance(.1):
            return "fn(&%s u32) -> %s" % (self.pick(lts), "u32")
        return "u32"

    def ret(self, lts, tys, recv):
        r = self.r.randrange(10)
        if r < 2:
            return ""
        if r < 4 and recv:
            return " -> &u32" if r == 2 else (" -> &mut X0" if recv.startswith("&mut") else " -> &str")
        if r == 4:
            return " -> &'static str"
        if r == 5:
            return " -> impl Iterator<Item = %s>" % self.ty([], [])
        if r == 6 and lts:
            return " -> %s" % self.ty(lts, tys)
        if r == 7:
            return " -> Box<dyn FnOnce(u32) -> %s>" % self.ty([], []) if self.chance(.1) else " -> Box<dyn Tr2<%s>>" % self.ty([], [])
        if r == 8 and lts:
            return " -> X3<%s>" % ", ".join(self.pick(lts) for _ in range(3))
        return " -> %s" % self.ty([], tys)

    def bound(self, lts):
        return self.pick(["Clone + 'static", "'static", "AsRef<str> + 'static", "Fn(u32) -> u32 + Send + 'static",
                          "FnMut(u32) + 'static", "std::fmt::Debug + Send + 'static", "Tr0 + Tr3 + 'static"])

    def method(self, body, static=None, olts=(), otys=(), outs="pub "):
        name = self.name("m")
        lts = self.sub(LT[1 if olts else 0:], 0, self.pick([0, 1, 3, 6]))
        lts = [l for l in lts if l not in olts]
        tys = self.sub([t for t in TY if t not in otys], 0, self.pick([0, 0, 1, 3]))
        where, gen = [], []
        for i, l in enumerate(lts):
            gen.append(l if i == 0 or self.chance(.7) else "%s: %s" % (l, lts[0]))
        for t in tys:
            if self.chance(.5):
                gen.append("%s: %s" % (t, self.bound(lts)))
            else:
                gen.append(t)
                where.append("%s: %s" % (t, self.bound(lts)))
        if lts and self.chance(.3):
            where.append("%s: %s" % (lts[-1], self.pick(lts)))
        recv = "" if (static if static is not None else self.chance(.25)) else self.pick(
            ["&self", "&self", "&mut self", "self", "mut self", "self: Box<Self>"] +
            (["&%s self" % lts[0]] if lts else []))
        alts, atys = list(lts) + list(olts), list(tys) + list(otys)
        args = []
        for i in range(self.r.randint(0, 5)):
            k = self.r.randrange(9)
            pat = "mut a%d" % i if self.chance(.1) and not body == ";" else "a%d" % i
            if k == 0 and self.chance(.04):
                t = "impl Fn(u32) -> u32 + 'static"
            elif k == 1:
                t = "&[%s]" % (self.pick(atys) if atys else "u8")
            elif k == 2:
                t = "&mut %s" % (self.pick(atys) if atys else "String")
            elif k == 3:
                t = "&%s" % (self.pick(atys) if atys else "str")
            else:
                t = self.ty(alts, atys)
            args.append("%s: %s" % (pat, t))
        attrs = []
        if tys and self.chance(.3):
            attrs.append("#[concretize]" if self.chance(.5) else "#[mockall::concretize]")
        for a in ("#[must_use]", "#[allow(dead_code)]", "/// documented", "#[inline]", "#[cfg(test)]", "#[cfg(not(feature = \"x\"))]"):
            if self.chance(.08):
                attrs.append(a)
        s = "%sfn %s%s(%s)%s%s" % (
            "async " if self.chance(.06) else "", name,
            "<%s>" % ", ".join(gen) if gen else "",
            ", ".join(([recv] if recv else []) + args),
            self.ret(alts, atys, recv),
            " where %s" % ", ".join(where) if where else "")
        return "%s %s%s%s" % (" ".join(a + ("\n" if a.startswith("///") else "") for a in attrs), outs, s, body)

    def methods(self, body, **k):
        return "\n        ".join(self.method(body, **k) for _ in range(self.r.randint(1, 4)))

    def generics(self):
        lts = self.sub(LT[:3], 0, self.pick([0, 0, 2]))
        tys = self.sub(TY[:2], 0, self.pick([0, 1, 2]))
        g = lts + ["%s: %s" % (t, self.bound([])) if self.chance(.5) else t for t in tys]
        w = ["%s: 'static" % t for t in tys]
        return (lts, tys, "<%s>" % ", ".join(g) if g else "",
                "<%s>" % ", ".join(lts + tys) if g else "",
                " where %s" % ", ".join(w) if w and self.chance(.5) else "")

    def item(self):
        k = self.r.randrange(8)
        if k < 2:
            n = self.name("Foo")
            lts, tys, g, _, w = self.generics()
            ats = self.sub(["Key", "Val", "Err", "Out"], 0, self.pick([0, 2, 4]))
            attr = ", ".join("type %s=%s;" % (a, self.pick(["u32", "String", "Vec<u8>"])) for a in ats).replace(";, ", "; ")
            decl = " ".join("type %s%s;" % (a, self.pick(["", ": Clone"])) for a in ats)
            uses = " ".join("fn %s(&self, k: &Self::%s) -> Option<Self::%s>;" % (self.name("u"), self.pick(ats), self.pick(ats))
                            for _ in ats)
            return "#[automock(%s)]\n    pub trait %s%s%s%s {\n        %s %s\n        %s\n    }" % (
                attr, n, g, self.pick(["", "", ": Tr0"]), w, decl, uses,
                self.methods(";", olts=lts, otys=tys, outs=""))
        if k == 2:
            n = self.name("Bar")
            lts, tys, g, u, w = self.generics()
            return "pub struct %s%s(%s);\n    #[automock]\n    impl%s %s%s%s {\n        %s\n    }" % (
                n, g, ", ".join(["&%s u32" % l for l in lts] + tys), g, n, u, w,
                self.methods(" { todo!() }", olts=lts, otys=tys))
        if k < 6:
            n = self.name("Baz")
            lts, tys, g, u, w = self.generics()
            s = "mock! {\n        pub %s%s%s {\n        %s\n        }" % (
                n, g, w, self.methods(";", olts=lts, otys=tys))
            for _ in range(self.r.randint(0, 3)):
                s += "\n        impl%s %s for %s%s%s {\n        %s\n        %s}" % (
                    g, self.pick(["Clone", "Tr0", "Tr2<u32>", "Iterator", "Tr4"]), n, u, w,
                    self.pick(["", "type Item = u32;", "const N: usize = 3;"]),
                    self.methods(";", olts=lts, otys=tys, outs=""))
            return s + "\n    }"
        if k == 6:
            n = self.name("md")
            if self.chance(.4):
                return "pub mod %s {\n use super::*;\n #[automock(mod %s;)]\n extern \"C\" {\n        %s\n    } }" % (
                    n, self.name("ffi"), self.methods(";", static=True))
            return "#[automock]\n    pub mod %s {\n        use super::*;\n        %s\n    }" % (
                n, self.methods(" { todo!() }", static=True))
        a = self.name("S")
        return "mod %s { pub struct %s; pub struct Mock%s; pub struct MockQ; pub struct Q; }\n    #[mockall_double::double]\n    use %s::%s;" % (
            a.lower(), a, a, a.lower(), self.pick([a, "{%s, Q}" % a, "{Q as R}", "%s as Y" % a]))


PRELUDE = """#![allow(warnings)]
pub mod pre {
    pub struct X0; pub struct X2<'x, 'y>(pub &'x u32, pub &'y u32); pub struct X3<'x, 'y, 'z>(pub &'x u32, pub &'y u32, pub &'z u32);
    pub trait Tr0 {} pub trait Tr1<'x> {} pub trait Tr2<T> {} pub trait Tr3 {} pub trait Tr4 {}
}
"""


def wrap(k, text):
    return "pub mod item_%d {\n    use mockall::*; use super::pre::*;\n    %s\n}\n" % (k, text)


REP = 1000  # the r-th repetition of item k is called k + REP * r


class Rig:
    def __init__(self, cfg):
        self.cfg = cfg
        self.tmp = tempfile.mkdtemp(prefix="expand.")
        self.n = 0

    def expand(self, items, world, tag):
        """Expand the items of `world` and give {item: (code, messages)}."""
        d = os.path.join(self.tmp, tag)
        os.mkdir(d)
        lines, src = [], PRELUDE
        for slot, k in enumerate(world["order"]):
            key = k + REP * world["order"][:slot].count(k)
            start = src.count("\n") + 1
            src += wrap(key, items[k])
            lines.append((start, src.count("\n"), key))
        path = os.path.join(d, "corpus.rs")
        open(path, "w").write(src)
        cwd = os.path.join(d, world["cwd"])
        os.makedirs(cwd, exist_ok=True)
        env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": self.cfg["preload"], "WORLD_SEED": str(world["seed"])}
        env.update(world["env"])
        try:
            p = subprocess.run(
                NOASLR + [self.cfg["rustc"], "--edition", "2021", "--crate-type", "lib", "--crate-name", "corpus",
                 "-Zunpretty=expanded", "--error-format=json", path, "-o", os.path.join(d, "out.rs"),
                 "-L", "dependency=" + self.cfg["deps"], "--extern", "mockall=" + self.cfg["mockall"],
                 "--extern", "mockall_double=" + self.cfg["double"]],
                cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                stderr=subprocess.PIPE, timeout=120)
            err = p.stderr.decode("utf-8", "replace")
            out = open(os.path.join(d, "out.rs")).read() if os.path.exists(os.path.join(d, "out.rs")) else None
        except subprocess.TimeoutExpired:
            out, err = None, "timeout"
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if out is None:
            return None, err
        res = {}
        for m in re.finditer(r"^pub mod item_(\d+) \{\n(.*?)^\}$", out, re.S | re.M):
            # (the pretty-printer's layout depends on what surrounds the item)
            res[int(m.group(1))] = ["".join(m.group(2).split()), [], m.group(2)]
        for l in err.splitlines():
            if not l.startswith("{"):
                continue
            j = json.loads(l)
            if j.get("level") != "error" or not j.get("spans"):
                continue
            at = j["spans"][0]["line_start"]
            for a, b, k in lines:
                if a <= at <= b and k in res:
                    res[k][1].append([j["message"]] + [c["message"] for c in j.get("children", [])
                                                       if c["message"].startswith("message:")])
        return res, err


def world(r, items):
    n = len(items)
    order = list(range(n))
    faults = ["hash_reseed", "clock_and_pid", "addresses", "environment_seen_by_macros"]
    k = r.randrange(4)
    if k:
        r.shuffle(order)
        faults.append("reordered")
    if k > 1:
        order = order[: r.randint(max(1, n // 2), n)]
        faults.append("history_truncated")
    if r.randrange(3) == 0:
        for _ in range(r.randint(1, 3)):
            order.insert(r.randint(0, len(order)), order[r.randrange(len(order))])
        faults.append("repeated")
    if r.randrange(24) == 0:
        k = min(r.sample(order, min(3, len(order))), key=lambda k: len(items[k]))
        at = r.randint(0, len(order))
        order[at:at] = [k] * min(r.choice([30, 70, 140, 270]), 40000 // len(items[k]))
        faults.append("repeated_often")
    env = {}
    for e, vs in (("MOCKALL_DEBUG", ["1"]), ("HOME", ["/", "/nonexistent"]), ("LANG", ["C", "tr_TR.UTF-8"]),
                  ("TZ", ["UTC", "Asia/Tokyo"]), ("USER", ["alice", "bob"]), ("CARGO_PKG_NAME", ["p", "q"]),
                  ("CARGO_MANIFEST_DIR", ["/nonexistent/x"]), ("RUST_BACKTRACE", ["0", "1"]),
                  ("CARGO_PKG_VERSION", ["0.1.0", "9.9.9"]), ("OUT_DIR", ["/nonexistent/o"])):
        if r.random() < .3:
            env[e] = vs[r.randrange(len(vs))]
    if env:
        faults.append("environment")
    cwd = "w%d" % r.randrange(1000)
    faults.append("working_directory")
    return {"seed": r.getrandbits(48), "order": order, "env": env, "cwd": cwd}, faults


def diff(a, b, k):
    """How expansions of item k in world b differ from its first in world a, or None."""
    if k not in a:
        return None
    for q in [k] + [q for q in a if q > k and q % REP == k]:
        d = differ(a[k], a[q])
        if d:
            return d
    for q in b:
        d = differ(a[k], b[q]) if q % REP == k else None
        if d:
            return d
    return None


def differ(x, y):
    a, b, k = [x], [y], 0
    if a[k][0] != b[k][0]:
        x, y = TOKEN.findall(a[k][2]), TOKEN.findall(b[k][2])
        i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
        lo = max(0, i - 25)
        return "code differs at token %d: %s  |||  %s" % (i, " ".join(x[lo:i + 15]), " ".join(y[lo:i + 15]))
    if sorted(map(str, a[k][1])) != sorted(map(str, b[k][1])):
        return "messages differ: %s ||| %s" % (a[k][1], b[k][1])
    return None


def disagree(rig, items, w1, w2, k, tag):
    """Expand in both worlds and compare item k (an int), or every item."""
    a, ea = rig.expand(items, w1, tag + "a")
    b, eb = rig.expand(items, w2, tag + "b")
    if a is None or b is None:
        return None
    return diff(a, b, k)


def minimise(rig, items, w1, w2, k):
    """Shrink the two histories, the environment and then the item's methods."""
    t, seen, end = [0], {}, time.time() + 120

    def one(it, w):
        key = json.dumps([w, sorted((q, it[q]) for q in set(w["order"]))], sort_keys=True)
        if key not in seen:
            t[0] += 1
            seen[key] = rig.expand(it, w, "m%d" % t[0])[0]
        return seen[key]

    def bad(it, a, b):
        if time.time() > end:
            return False
        a, b = one(it, a), one(it, b)
        return a is not None and b is not None and diff(a, b, k) is not None
    for only in ([k],):
        a, b = dict(w1, order=only), dict(w2, order=only)
        if bad(items, a, b):
            w1, w2 = a, b
    for w in (0, 1):
        step = max(1, len((w1, w2)[w]["order"]) // 2)
        while step:
            i = 0
            while i < len((w1, w2)[w]["order"]):
                cur = (w1, w2)[w]
                o = cur["order"][:i] + cur["order"][i + step:]
                c = dict(cur, order=o)
                pair = (c, w2) if w == 0 else (w1, c)
                if k in o and bad(items, *pair):
                    w1, w2 = pair
                else:
                    i += step
            step //= 2
    for e in list(w1["env"]) + list(w2["env"]):
        a = dict(w1, env={x: y for x, y in w1["env"].items() if x != e})
        b = dict(w2, env={x: y for x, y in w2["env"].items() if x != e})
        if bad(items, a, b):
            w1, w2 = a, b
    for same in ("seed", "cwd"):
        b = dict(w2, **{same: w1[same]})
        if bad(items, w1, b):
            w2 = b
    # drop methods: whole lines holding a `fn`
    lines = items[k].split("\n")
    i = 0
    while i < len(lines):
        if re.search(r"\bfn \w", lines[i]) and lines[i].strip().endswith((";", "}")) and lines[i].count("{") == lines[i].count("}"):
            it = dict(items)
            it[k] = "\n".join(lines[:i] + lines[i + 1:])
            if bad(it, w1, w2):
                lines, items = lines[:i] + lines[i + 1:], it
                continue
        i += 1
    keep = set(w1["order"]) | set(w2["order"])
    return {q: items[q] for q in keep}, w1, w2


def check(cfg, seed, tier, limit, batches, evidence, replays):
    t0 = time.time()
    rig = Rig(cfg)
    try:
        return check_(rig, seed, tier, limit, batches, evidence, replays, t0)
    finally:
        shutil.rmtree(rig.tmp, ignore_errors=True)


def check_(rig, seed, tier, limit, batches, evidence, replays, t0):
    W = 4

    def batch(i):
        if time.time() - t0 > limit:
            return None
        r = random.Random("expand %d %d" % (seed, i))
        N = r.choice([3, 6, 6, 6, 12])
        items = {k: Gen(random.Random("item %d %d %d" % (seed, i, k))).item() for k in range(N)}
        base = {"seed": 1, "order": list(range(N)), "env": {}, "cwd": "w"}
        ref, err = rig.expand(items, base, "%d.0" % i)
        if ref is None:
            return {"error": "rustc gave no expansion: " + err[-2000:]}
        st = {"runs": 1, "evals": len(ref), "faults": {}, "bad": [], "simclock": 0,
              "digests": set(), "clean": 0, "failed": 0, "sample": None, "why": []}
        for k in ref:
            h = hashlib.sha256(ref[k][0].encode()).hexdigest()[:16]
            if any("panicked" in m[0] or len(m) > 1 for m in ref[k][1]):
                st["failed"] += 1
                st["why"] += [m for m in ref[k][1]]
            elif "checkpoint" in ref[k][0] or "double" in items[k]:
                st["clean"] += 1
                st["digests"].add(h)
                st["sample"] = items[k]
        for j in range(1, W):
            w, fs = world(r, items)
            got, err = rig.expand(items, w, "%d.%d" % (i, j))
            if got is None:
                return {"error": "rustc gave no expansion: " + err[-2000:]}
            st["runs"] += 1
            st["evals"] += len(got)
            for f in fs:
                st["faults"][f] = st["faults"].get(f, 0) + 1
            if any("panicked" in m[0] for k in got for m in ref[k % REP][1]):
                st["faults"]["expansion_failed_beforehand"] = st["faults"].get("expansion_failed_beforehand", 0) + 1
            for k in sorted(set(w["order"])):
                if k in ref and k not in got:
                    d = "item vanished from the expansion"
                else:
                    d = diff(ref, got, k)
                if d:
                    st["bad"].append((k, base, w, d, items))
        return st

    tot = {"runs": 0, "evals": 0, "failed": 0, "faults": {}}
    digests, samples, bad = set(), [], []
    with ThreadPoolExecutor(8) as ex:
        i = 0
        while i < batches and time.time() - t0 < limit and not bad:
            for st in ex.map(batch, range(i, min(batches, i + 64))):
                if st is None:
                    continue
                if "error" in st:
                    print("ERROR:", st["error"])
                    return 2
                tot["runs"] += st["runs"]
                tot["evals"] += st["evals"]
                tot["failed"] += st["failed"]
                digests |= st["digests"]
                for f, c in st["faults"].items():
                    tot["faults"][f] = tot["faults"].get(f, 0) + c
                if st["sample"] and len(samples) < 4:
                    samples.append(st["sample"])
                bad += st["bad"]
            i += 64
    viol = 0
    if bad:
        k, w1, w2, d, items = bad[0]
        if any(disagree(rig, items, w1, w2, k, "again%d" % t) for t in range(3)):
            items, w1, w2 = minimise(rig, items, w1, w2, k)
            d = disagree(rig, items, w1, w2, k, "final") or d
        else:
            print("(seen once: it depends on something the worlds do not control)")
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, "C14-%d.json" % seed)
        json.dump({"property": "C14", "seed": seed, "item": k, "difference": d,
                   "items": {str(q): t for q, t in items.items()}, "worlds": [w1, w2]},
                  open(path, "w"), indent=1)
        print("the same item expands differently in two worlds:\n%s\n%s" % (items[k], d))
        print("VIOLATION property=C14 replay=%s" % path)
        viol = 1
    wall = time.time() - t0
    ev = {"property": "C14", "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1),
          "violations": viol,
          "coverage": {
              "evaluations": tot["evals"],
              "distinct_nontrivial": len(digests),
              "rule": "an evaluation is one item expanded in one world; items are generated traits, impls, mock! "
                      "structs, modules, foreign blocks and #[double] imports; an item is non-trivial if it expanded "
                      "without error to a mock, and distinct by the digest of its reference expansion",
              "samples": samples,
              "simulated_runs": tot["runs"],
              "seeds": tot["runs"],
              "runs_per_hour": int(tot["runs"] * 3600 / max(wall, .001)),
              "items_that_failed_to_expand": tot["failed"],
              "faults_injected": tot["faults"],
              "simulated_time": "the clock of every world starts at its own instant between 2001 and 2030 and "
                                "advances 1 us per reading",
              "distinct_interleavings": "not applicable: macro expansion is single-threaded; the nondeterminism is "
                                        "hash seeds, history and environment",
              "real_components": ["rustc", "mockall_derive", "mockall_double", "syn/quote/proc-macro2"],
              "stubs": ["getrandom", "getentropy", "clock_gettime", "gettimeofday", "getpid",
                        "getenv (as called by the macros)", "address layout" if NOASLR else "(no control of addresses)"],
          },
          "assumptions": ["rustc's pretty-printer gives different text for different token streams",
                          "rustc's own expansion is deterministic"]}
    json.dump(ev, open(evidence, "w"), indent=1)
    print("C14: %d worlds, %d expansions, %d distinct items, %d failed, %.0f s" % (
        tot["runs"], tot["evals"], len(digests), tot["failed"], wall))
    return 1 if viol else 0


def replay(cfg, path):
    j = json.load(open(path))
    rig = Rig(cfg)
    try:
        d = disagree(rig, {int(k): t for k, t in j["items"].items()}, j["worlds"][0], j["worlds"][1], j["item"], "r")
    finally:
        shutil.rmtree(rig.tmp, ignore_errors=True)
    if d:
        print(d)
        print("VIOLATION property=C14 replay=%s" % path)
        return 1
    print("held")
    return 0


if __name__ == "__main__":
    cfg = json.load(open(os.path.join(V, "target", "expand", "cfg.json")))
    if sys.argv[1] == "check":
        seed, tier = int(sys.argv[2]), sys.argv[3]
        lim = float(os.environ.get("VERIF_TIME", "600" if tier == "thorough" else "25"))
        sys.exit(check(cfg, seed, tier, lim, 10**9 if tier == "thorough" else int(os.environ.get("VERIF_RUNS", "1000")),
                       "evidence/C14.json", "replays"))
    elif sys.argv[1] == "show":
        for k in range(int(sys.argv[3])):
            print(Gen(random.Random("item %s 0 %d" % (sys.argv[2], k))).item())
    else:
        sys.exit(replay(cfg, sys.argv[2]))
