"""Does the judge notice?  Takes executions recorded by the last run of the checks, changes one
leaf of what was observed in each (a byte, a number, a flag, an outcome, an element more or
less) and has Trace.tla judge them.  Prints, per property and kind of execution, how many of
the corrupted records were reported.  Not part of any check.

    python3 tools/corrupt.py [PROPERTY ...]
"""
import glob
import json
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check  # noqa: E402

# the observed part of an execution (the rest is its input)
OBSERVED = {"enc": ["out", "rt", "used"], "dec": ["out"], "stream": ["calls"], "rd": ["ops"], "wr": ["out"],
            "prim": ["r", "rest"], "code": ["r"], "serde": ["out"], "relay": ["chain"], "ack": ["p", "enc"],
            "cut": ["runs"], "chunk": ["classes"], "prompt": ["calls"], "hand": ["calls"],
            "level": ["top", "low", "again", "same"], "share": ["calls"], "same": ["r"], "none": ["r"]}
# narrower where a property judges only part of it
NARROW = {("C01", "enc"): ["rt", "used"], ("C02", "enc"): ["out"], ("C03", "enc"): ["out"], ("C06", "enc"): ["out"],
          ("C16", "enc"): ["out"]}
JUDGED = {("C02", "enc"): lambda p: p[-1] in ("k", "b", 0, 1),         # header, lengths
          ("C06", "enc"): lambda p: p == ["out", "k"],
          ("C07", "stream"): lambda p: p[-1] in ("pos", "more"),
          ("C08", "stream"): lambda p: p[2:3] == ["out"],
          ("C10", "stream"): lambda p: p[-1] in ("pos", "k"),
          ("C10", "dec"): lambda p: p == ["out", "k"]}


def leaves(x, path):
    if isinstance(x, dict):
        for k in x:
            if k in ("op", "n", "cut", "f", "how", "v", "t", "dflt", "q", "u", "at"):
                continue
            yield from leaves(x[k], path + [k])
    elif isinstance(x, list):
        if path and path[-1] in ("b", "x", "rest", "payload"):
            yield path
        for k, y in enumerate(x):
            yield from leaves(y, path + [k])
    else:
        yield path


def corrupt(prop, ev, r):
    roots = [k for k in NARROW.get((prop, ev["e"]), OBSERVED[ev["e"]]) if k in ev]
    if ev["e"] == "prim" and ev["r"]["k"] != "ok":
        roots = ["r"]       # what an error leaves behind is nobody's business
    if ev["e"] == "chunk":
        c = json.loads(json.dumps(ev["classes"][0]))
        c["how"] = "corrupted"
        ev["classes"].append(c)
        spots = list(leaves(c, ["classes", len(ev["classes"]) - 1]))
    elif ev["e"] == "cut":
        spots = [["runs", r.randrange(len(ev["runs"])), "k"]] if ev["runs"] else []
    else:
        spots = [p for k in roots for p in leaves(ev[k], [k])]
    if ev["e"] == "ack":
        spots = [p for p in spots if p[:2] != ["enc", "p"]]
    judged = JUDGED.get((prop, ev["e"]))
    spots = [p for p in spots if judged is None or judged(p)]
    if not spots:
        return False
    path = r.choice(spots)
    at = ev
    for k in path[:-1]:
        at = at[k]
    k, x = path[-1], at[path[-1]]
    ev["_"] = [path, x]
    if isinstance(x, bool):
        at[k] = not x
    elif isinstance(x, int):
        at[k] = x ^ (1 << r.randrange(8)) if x < 256 else x - 1
    elif isinstance(x, list):
        if x and r.random() < 0.5:
            del x[r.randrange(len(x))]
        else:
            x.insert(r.randrange(len(x) + 1), 7)
    elif x in ("ok", "err") and prop == "C10":
        at[k] = "panic"
    elif x == "ok":
        at[k] = "err"
        at.pop("p", None), at.pop("b", None)
        if "x" in at and path[-1] == "k":
            at.pop("x")
    elif x == "err":
        at[k] = "ok" if ev["e"] == "cut" else "panic"
    elif x in ("yes", "no"):
        at[k] = "no" if x == "yes" else "yes"
    else:
        return False
    return True


def main(props):
    for prop in props or sorted(check.PLAN):
        r = random.Random(7)
        by = {}
        for f in sorted(glob.glob(os.path.join(check.BUILD, "run", prop, "[0-9]*.nd"))):
            with open(f) as fh:
                lines = [x for x in fh if len(x) < 3000]
            for line in r.sample(lines, min(len(lines), 150)):
                ev = json.loads(line)
                if ev["e"] in OBSERVED and corrupt(prop, ev, r):
                    by.setdefault(ev["e"], []).append(ev)
        work = os.path.join(check.BUILD, "run", "corrupt")
        os.makedirs(work, exist_ok=True)
        for kind, evs in sorted(by.items()):
            path = os.path.join(work, "c.nd")
            with open(path, "w") as f:
                f.writelines(json.dumps({k: x for k, x in e.items() if k != "_"}) + "\n" for e in evs)
            seen, _ = check.validate(prop, work, "corrupt", path, 8)
            n = {v: sum(1 for x in seen.values() if x[0] == v) for v in ("bad", "ok", "skip")}
            print("%s %-7s corrupted %4d  reported %4d  not judged %4d  unnoticed %4d" % (
                prop, kind, len(evs), n["bad"], n["skip"], n["ok"]), flush=True)
            if "-v" in sys.argv:
                for k, x in seen.items():
                    if x[0] == "ok":
                        print("   ", json.dumps(evs[k - 1]["_"])[:300], json.dumps(evs[k - 1])[:600])


if __name__ == "__main__":
    main([x for x in sys.argv[1:] if not x.startswith("-")])
