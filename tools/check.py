#!/usr/bin/env python3
"""Decide one property: model check the specification, replay its behaviours on
the implementation built from /repo, and report.

  python3 tools/check.py P01          (VERIF_TIER, VERIF_SEED from the environment)
"""
import concurrent.futures, json, os, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
ENV.pop("RUSTFLAGS", None)

FEATURES = {
    "full": "std,error,owned,seq,sval,serde,test,i128,strl",
    "docs": "std,error,owned,seq,sval,serde,test",
    "str": "std,error,owned,seq,sval,serde,test,i128,str",
    "min": "",
    "sval": "alloc,sval,seq",
    "serde": "serde,seq",
    "owned": "owned,seq,i128",
    "err": "error,owned,str",
}
ALL = list(FEATURES)


class ToolError(Exception):
    pass


class Crash(Exception):
    """The code under test took the whole process down."""


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: " + " ".join(cmd))


# ---------------------------------------------------------------- tools

def tlc(module, cfg, out, scratch, workers=8, extra=(), timeout=800):
    """Model check; returns (states generated, distinct states)."""
    name = os.path.basename(cfg)[:-4]
    meta = os.path.join(scratch, "meta_" + name)
    cmd = ["java", "-Xmx3g", "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + scratch, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=SPEC, timeout=timeout, env=ENV)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + name)
    shutil.rmtree(meta, ignore_errors=True)
    gen = dist = None
    with open(out) as f:
        tail = [l for l in f if not l.startswith('"')]
    for l in tail:
        if "states generated," in l and "distinct states found" in l:
            w = l.replace(",", "").split()
            gen, dist = int(w[0]), int(w[3])
    if p.returncode != 0:
        raise ToolError("TLC failed on %s:\n%s" % (name, "".join(tail[-40:])))
    if gen is None:
        raise ToolError("no TLC statistics for " + name)
    return gen, dist


def build(config, prop):
    """Build the harness against /repo's working tree; returns the binary."""
    profile = "dev" if os.environ.get("VERIF_TIER", "quick") == "quick" and prop not in HEAVY else "deep"
    target = os.path.join(BUILD, "t_" + config)
    cmd = ["cargo", "build", "--offline", "--locked", "--no-default-features", "--features", FEATURES[config]]
    if profile != "dev":
        cmd += ["--profile", profile]
    p = sh(cmd, 800, cwd=os.path.join(VERIF, "harness"), env=dict(ENV, CARGO_TARGET_DIR=target))
    if p.returncode != 0:
        raise ToolError("harness does not build (%s):\n%s" % (config, p.stdout[-3000:]))
    return os.path.join(target, "debug" if profile == "dev" else profile, "bag-replay")


def drive(cmd, timeout=None):
    timeout = timeout or (300 if os.environ.get("VERIF_TIER", "quick") == "quick" else 3000)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        raise Crash("no result after %d s (normally well under a minute) from %s" % (timeout, " ".join(cmd)))
    if p.returncode < 0:
        raise Crash("signal %d from %s\n%s" % (-p.returncode, " ".join(cmd), p.stdout[-2000:]))
    if p.returncode != 0:
        raise ToolError("replay failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))


# ---------------------------------------------------------------- checks

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = os.path.join(BUILD, "run_%s_%d" % (prop, os.getpid()))
        os.makedirs(self.scratch)
        self.states = self.transitions = self.traces = 0
        self.samples, self.bad, self.detail = [], [], {}
        self.lock = threading.Lock()

    def parallel(self, jobs):
        errs = []

        def go(f):
            try:
                f()
            except Exception as e:          # reported by the caller
                errs.append(e)
        ts = [threading.Thread(target=go, args=(j,)) for j in jobs]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for e in errs:
            if not isinstance(e, Crash):
                raise e
        for e in errs:
            self.bad.append({"props": [self.prop], "op": "crash", "expected": "the process survives", "got": str(e)})

    def bag(self, configs, args, deep=(), srcs="AllSrcs", defer=False):
        """Spec state graph of each configuration, replayed on a build of it."""
        bins, digests = {}, {}

        def graph(c):
            cfg = "Bag_%s%s.cfg" % (c, "_deep" if c in deep else "")
            own = os.path.join(self.scratch, cfg)
            with open(os.path.join(SPEC, cfg)) as f, open(own, "w") as g:
                for line in f:
                    if line.startswith("INVARIANTS") and self.tier == "quick":
                        mine = [i for i in line.split()[1:] if i in ("TypeOK", "PrintState") or i.rstrip("b") == self.prop]
                        line = "INVARIANTS " + " ".join(mine) + "\n"
                    g.write(line.replace("SrcSet <- AllSrcs", "SrcSet <- " + srcs).replace("Defer = FALSE", "Defer = %s" % str(defer).upper()))
            gen, dist = tlc("BagMC.tla", own, os.path.join(self.scratch, c + ".graph"), self.scratch,
                            workers=8 if len(configs) < 4 else 4)
            with self.lock:
                self.states += dist
                self.transitions += gen
                self.detail[cfg] = {"states": dist, "transitions": gen}

        def make(c):
            bins[c] = build(c, self.prop)
        def replay(c):
            rep = os.path.join(self.scratch, c + ".json")
            dig = os.path.join(self.scratch, c + ".digest")
            cmd = [bins[c], "walk", os.path.join(self.scratch, c + ".graph"), rep, "--seed", str(self.seed), *args]
            cmd += ["--prop", self.prop]
            if self.prop == "P23":
                cmd += ["--digest", dig]
            try:
                drive(cmd)
            except Crash as e:
                self.bad.append({"props": [self.prop], "config": c, "op": "crash", "expected": "the process survives",
                                 "got": str(e), "command": " ".join(cmd)})
                return
            r = json.load(open(rep))
            os.remove(os.path.join(self.scratch, c + ".graph"))
            if r["unsupported"]:
                raise ToolError("routes the harness does not know: %s" % r["unsupported"][:3])
            if not r["captures"]:
                raise ToolError("nothing replayed for " + c)
            with self.lock:
                self.traces += r["traces"]
                if len(self.samples) < 6:
                    self.samples += r["samples"][:3]
                self.detail["replay_" + c] = {k: r[k] for k in ("sources", "captures", "observed", "traces", "faults")}
                self.detail["replay_" + c]["comparisons"] = sum(r["checks"].values())
                for m in r["mismatches"]:
                    if self.prop in m["props"]:
                        m["config"] = c
                        self.bad.append(m)
                digests[c] = dig

        turn = threading.Semaphore(2)

        def one(c):
            self.parallel([lambda: graph(c), lambda: make(c)])
            with turn:
                replay(c)
        self.parallel([lambda c=c: one(c) for c in configs])
        if self.prop == "P23":
            self.compare({c: digests[c] for c in configs if c in digests})

    def share(self, configs, graphs, steps, runs):
        """Lifetime graphs covered on every route of each build; concurrent histories validated."""
        bins, outs = {}, {}

        def graph(g):
            outs[g] = os.path.join(self.scratch, g + ".graph")
            gen, dist = tlc("ShareMC.tla", "Share_%s.cfg" % g, outs[g], self.scratch, workers=2)
            with self.lock:
                self.states += dist
                self.transitions += gen
                self.detail["Share_" + g] = {"states": dist, "transitions": gen}

        def make(c):
            bins[c] = os.path.join(os.path.dirname(build(c, self.prop)), "bag-share")
        self.parallel([lambda g=g: graph(g) for g in graphs] + [lambda c=c: make(c) for c in configs])
        jobs, done = [], {c: {"steps": 0, "edges": 0, "covered": 0, "checks": 0, "routes": 0, "runs": 0} for c in configs}
        for c in configs:
            for line in sh([bins[c], "routes"], 60).stdout.split("\n"):
                if line:
                    jobs += [(c, *line.split(), g) for g in graphs]

        def one(job):
            c, route, mode, g = job
            if mode not in graphs[g]:
                return
            out = os.path.join(self.scratch, "%s-%s-%s.json" % (c, route, g))
            cmd = [bins[c], "walk", outs[g], out, "--route", route, "--seed", str(self.seed)]
            if steps.get(g):
                cmd += ["--steps", str(steps[g])]
            try:
                drive(cmd)
                r = json.load(open(out))
            except Crash as e:
                r = {"mismatches": [{"props": ["P14", "P15"], "route": route, "op": "crash", "expected": "the process survives", "got": str(e)}]}
            with self.lock:
                for m in r["mismatches"]:
                    if self.prop in m["props"]:
                        self.bad.append(dict(m, config=c, graph=g, command=" ".join(cmd)))
                if "steps" in r:
                    for k in ("steps", "edges", "covered", "checks", "runs"):
                        done[c][k] += r[k]
                    done[c]["routes"] += 1
                    self.traces += r["runs"]
                    if len(self.samples) < 4:
                        self.samples += r["samples"][:1]

        def trace(c):
            hist = os.path.join(self.scratch, c + ".ndjson")
            with open(hist, "w") as h:
                for _, route, mode, g in [j for j in jobs if j[0] == c]:
                    if g != list(graphs)[0]:
                        continue
                    out = hist + "-" + route
                    drive([bins[c], "trace", out, "--route", route, "--seed", str(self.seed), "--runs", str(runs[mode])])
                    with open(out) as f:        # the closing reset opens the next history
                        h.writelines(f.readlines()[:-1])
                h.write('{"e":"reset","mode":"share"}\n')
            self.validate("ShareTrace", hist, c, sum(runs[j[2]] for j in jobs if j[0] == c and j[3] == list(graphs)[0]))

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        self.parallel([lambda c=c: trace(c) for c in configs])
        for c in configs:
            self.detail["share_" + c] = done[c]

    def text(self, configs, graphs, styles):
        """Every pattern of writes, on every route of each build."""
        bins, outs = {}, {}

        def graph(g):
            outs[g] = os.path.join(self.scratch, g + ".text")
            gen, dist = tlc("Text.tla", "Text_%s.cfg" % g, outs[g], self.scratch, workers=2)
            with self.lock:
                self.states += dist
                self.transitions += gen
                self.detail["Text_" + g] = {"states": dist, "transitions": gen}

        def make(c):
            bins[c] = os.path.join(os.path.dirname(build(c, self.prop)), "bag-text")
        self.parallel([lambda g=g: graph(g) for g in graphs] + [lambda c=c: make(c) for c in configs])
        for c in configs:
            for g in graphs:
                out = os.path.join(self.scratch, "text-%s-%s.json" % (c, g))
                cmd = [bins[c], outs[g], out, "--seed", str(self.seed), "--styles", str(styles)]
                try:
                    drive(cmd)
                except Crash as e:
                    self.bad.append({"props": [self.prop], "config": c, "op": "crash", "expected": "the process survives", "got": str(e)})
                    continue
                r = json.load(open(out))
                self.traces += r["traces"]
                self.detail["text_%s_%s" % (c, g)] = {k: r[k] for k in ("cases", "traces", "checks")}
                self.bad += [dict(m, config=c, graph=g) for m in r["mismatches"]]

    def validate(self, module, hist, c, n):
        """Recorded histories must be behaviours of the specification."""
        out = os.path.join(self.scratch, "%s_%s.out" % (module, c))
        with open(hist) as f:
            events = f.read().split("\n")
        cmd = ["java", "-Xmx3g", "-Xss64m", "-Djava.io.tmpdir=" + self.scratch, "-cp", JARS, "tlc2.TLC", "-workers", "1", "-noGenerateSpecTE",
               "-metadir", os.path.join(self.scratch, "meta_%s_%s" % (module, c)), "-config", module + ".cfg", module + ".tla"]
        with open(out, "w") as f:
            subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=SPEC, timeout=800, env=dict(ENV, HISTORY=hist))
        text = open(out).read()
        far = [l for l in text.split("\n") if l.startswith('"FAR ')]
        if not far:
            raise ToolError("history validation failed to run:\n" + text[-2000:])
        at, total = int(far[-1].split()[1]), int(far[-1].split()[3].strip('"'))
        with self.lock:
            self.detail["%s_%s" % (module, c)] = {"events": total - 1, "accepted": at - 1, "histories": n}
            self.traces += n
            if at < total:
                start = max(i for i in range(at) if '"reset"' in events[i])
                self.bad.append({"props": [self.prop], "config": c, "op": "recorded history", "src": module,
                                 "path": "\n".join(events[start:at]), "expected": "a behaviour of the specification",
                                 "got": "no step of the specification explains event %d: %s" % (at - start, events[at - 1])})

    GROUPS = ["conversions, formatting, visiting", "text", "serde", "sval", "sequences", "errors"]

    def compare(self, digests):
        """The same behaviour in every build: one expectation, one outcome."""
        rows, pairs = {}, 0
        for c, f in digests.items():
            for line in open(f):
                key, *cells = line.rstrip("\n").split("\t")
                for g, cell in enumerate(cells):
                    e, got = cell.split(":")
                    if e == "0":
                        continue            # not part of this build
                    seen = rows.setdefault((key, g, e), (got, c))
                    pairs += seen[1] != c
                    if seen[0] != got and len(self.bad) < 200:
                        self.bad.append({"props": ["P23"], "op": self.GROUPS[g], "src": key, "config": c,
                                         "expected": "as in build '%s'" % seen[1], "got": "different outcome"})
        self.detail["compared_between_builds"] = pairs
        if not pairs:
            raise ToolError("nothing compared between builds")


HEAVY = {"P04", "P06", "P10", "P11", "P12", "P13", "P16", "P23"}   # built with optimisation
SRCS = {"P07": "AllSrcs", "P08": "AllSrcs", "P09": "StructSrcs", "P13": "AllSrcs", "P17": "StructSrcs", "P16": "TextSrcs",
        "P18": "OddSrcs", "P19": "OddSrcs", "P20": "OddSrcs", "P22": "OddSrcs"}
PLAIN = {"P01", "P02", "P03", "P05", "P06"}


def decide(run):
    p, quick = run.prop, run.tier == "quick"
    if p == "P23":
        if quick:
            run.bag(ALL, ["--modes", "0..2", "--random", "0"], srcs="BaseSrcs")
        else:
            run.bag(ALL, ["--modes", "0..2", "--random", "2"], deep=("full", "docs"))
        return
    if p in {"P14", "P15"}:
        both, sh = ("borrow", "share"), ("share",)
        if quick:
            run.share(["full", "docs"], {"two": both, "three": both, "four": sh}, {"three": 20000}, {"share": 12, "borrow": 3})
        else:
            run.share(["full", "docs", "str", "owned", "err"], {"two": both, "three": both, "four": sh, "five": sh},
                      {}, {"share": 60, "borrow": 20})
        return
    if p == "P16":
        run.text(["full", "docs", "str"] + ([] if quick else ["owned", "err"]), ["lengths", "quick" if quick else "deep"], 2 if quick else 6)
    configs = ["full", "docs"]
    if p in PLAIN:
        configs.append("min")
    if p in {"P16"}:
        configs.append("str")
    srcs = SRCS.get(p, "BaseSrcs")
    if quick:
        run.bag(configs, ["--modes", "0..2" if p in HEAVY else "0..4", "--random", "1"], srcs=srcs, defer=p == "P11")
    else:
        run.bag(configs + [c for c in ALL if c not in configs],
                ["--modes", "0..8", "--random", "3", "--len", "14"], deep=("full", "docs"), srcs=srcs, defer=True)


def setup():
    """Build every configuration once, so that checks start warm."""
    os.makedirs(BUILD, exist_ok=True)
    try:
        for c in ALL:
            build(c, "")
    except ToolError as e:
        print("ERROR setup: %s" % e)
        return 2
    print("built " + " ".join(ALL))
    return 0


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    run = Run(prop, tier, seed)
    try:
        decide(run)
    except ToolError as e:
        print("ERROR %s: %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(run.scratch, ignore_errors=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {"states": run.states, "transitions": run.transitions,
                     "traces_validated_against_impl": run.traces, "samples": run.samples[:6],
                     "exhaustive": True, "detail": run.detail},
        "assumptions": [
            "the specification distinguishes values by class (Lattice.tla); one or more concrete values stand for each class",
            "third-party formatters and serializers (core::fmt, serde, sval) behave as recorded in DESIGN.md",
        ],
        "violations": len(run.bad), "wall_s": round(time.time() - t0, 1),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not run.bad:
        print("%s held: %d states, %d transitions, %d traces replayed, %.1f s" % (
            prop, run.states, run.transitions, run.traces, time.time() - t0))
        return 0
    path = os.path.join(VERIF, "evidence", "replay-%s.json" % prop)
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier,
                   "how": "build/t_<config>/debug/bag-replay walk <graph> out.json --only <src> --route <route>",
                   "violations": run.bad[:50]}, f, indent=1)
    for m in run.bad[:5]:
        print("  ", json.dumps({k: m.get(k) for k in ("config", "src", "route", "mode", "path", "op", "expected", "got")}))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
