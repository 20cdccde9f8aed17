#!/usr/bin/env python3
"""Show that the binding is not vacuous: a falsified expectation or history is rejected.

  python3 tools/selftest.py
"""
import collections, json, os, random, re, shutil, subprocess, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

FLIPS = [
    # (what, pattern in a printed state, replacement)
    ("an integer conversion", r'\\"u64\\":1', r'\\"u64\\":0'),
    ("a text conversion", r'\\"str\\":1', r'\\"str\\":0'),
    ("emptiness", r'\\"empty\\":0', r'\\"empty\\":1'),
    ("a downcast", r'\\"down\\":\\"no\\"', r'\\"down\\":\\"src\\"'),
    ("debug text", r'\\"dbg\\":\\"D\\"', r'\\"dbg\\":\\"None\\"'),
    ("a callback", r'\\"visit\\":\\"char\\"', r'\\"visit\\":\\"empty\\"'),
    ("a serializer call", r'\\"toks\\":\[\\"bool\\"\]', r'\\"toks\\":[\\"char\\"]'),
    ("an outcome", r'\\"res\\":\\"ok\\"', r'\\"res\\":\\"err\\"'),
    ("supplier runs", r'\\"runs\\":1', r'\\"runs\\":0'),
    ("a token", r'\\"token\\":\\"bool\\"', r'\\"token\\":\\"char\\"'),
]


def main():
    scratch = os.path.join(check.BUILD, "selftest")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    rng = random.Random(1)
    bad = 0
    exe = check.build("full", "")

    # the graph: which actions and routes occur, and which observations are compared
    cfg = os.path.join(scratch, "g.cfg")
    with open(os.path.join(check.SPEC, "Bag_full.cfg")) as f, open(cfg, "w") as g:
        g.write(f.read().replace("SrcSet <- AllSrcs", "SrcSet <- BaseSrcs"))
    graph = os.path.join(scratch, "g.graph")
    check.tlc("BagMC.tla", cfg, graph, scratch)
    with open(graph) as f:
        lines = f.readlines()
    acts = collections.Counter(a for l in lines for a in re.findall(r'\\"a\\":\\"(\w+)\\"', l))
    routes = collections.Counter(a for l in lines if l.startswith('"S') for a in re.findall(r'\\"r\\":\\"(\w+)\\"', l))
    print("transitions by action:", dict(acts))
    print("capture routes: %d" % len(routes))

    def walk(path):
        out = os.path.join(scratch, "o.json")
        check.drive([exe, "walk", path, out, "--modes", "0..1", "--random", "0"])
        return json.load(open(out))

    r = walk(graph)
    print("comparisons by operation:", r["checks"])
    if r["mismatches"]:
        print("FAIL: the graph does not match to begin with")
        bad += 1
    for what, pat, rep in FLIPS:
        at = [i for i, l in enumerate(lines) if l.startswith('"N') and "ety" not in l and 'key\\":\\"bag.' in l and re.search(pat, l)]
        hits = 0
        for i in rng.sample(at, 3):
            false = os.path.join(scratch, "f.graph")
            with open(false, "w") as f:
                f.writelines(re.sub(pat, rep, l, count=1) if k == i else l for k, l in enumerate(lines))
            hits += len(walk(false)["mismatches"]) > 0
        print("falsified %s: %d of 3 rejected" % (what, hits))
        bad += hits < 3

    # histories: drop, repeat and exchange events
    share = os.path.join(os.path.dirname(exe), "bag-share")
    route = [l.split()[0] for l in check.sh([share, "routes"], 60).stdout.split("\n") if l.endswith("share")][0]
    hist = os.path.join(scratch, "h.ndjson")
    check.drive([share, "trace", hist, "--route", route, "--seed", "1", "--runs", "3"])
    events = open(hist).read().split("\n")

    def last_op(ev, k):
        t = json.loads(ev[k])["t"]
        return next(e["op"] for e in map(json.loads, reversed(ev[:k])) if e["e"] == "b" and e["t"] == t)

    def accepted(ev):
        run = check.Run("P15", "quick", 1)
        try:
            with open(hist, "w") as f:
                f.write("\n".join(ev))
            run.validate("ShareTrace", hist, "x", 1)
            return not run.bad
        except check.ToolError:  # names a holder that does not exist
            return False
        finally:
            shutil.rmtree(run.scratch, ignore_errors=True)
    if not accepted(events):
        print("FAIL: a recorded history is rejected")
        bad += 1
    drops = [i for i, e in enumerate(events) if e and "reset" not in e]
    for what in ("dropped", "repeated", "falsified"):
        hits = 0
        for _ in range(12):
            i = rng.choice(drops)
            ev = list(events)
            if what == "dropped":
                del ev[i]
            elif what == "repeated":
                ev.insert(i, ev[i])
            else:
                i = rng.choice([k for k in drops if '"e":"e"' in ev[k] and last_op(ev, k) == "observe"])
                ev[i] = re.sub(r'"v":(\d+)', lambda m: '"v":%d' % (int(m.group(1)) + 1), ev[i])
            hits += not accepted(ev)
        print("histories with an event %s: %d of 12 rejected" % (what, hits))
        bad += hits < 12
    shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
