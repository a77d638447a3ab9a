#!/usr/bin/env python3
"""check.py C01            decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
check.py --setup          build the conformance harness
check.py --replay FILE    run the executions of a replay file again on the current code

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself failed."""
import concurrent.futures
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN, MODELS  # noqa: E402

REPO = os.environ.get("MQTT_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JARS = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])
VERDICT = re.compile(r'^"?V\|(\d+)\|(ok|bad|skip)\|(.*?)"?$', re.M)


SCREENED = []


class Broken(Exception):
    """the check cannot give an answer"""


def note(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
def digest(folder):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(folder):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, folder).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def harness(serde=False):
    """builds the harness against /repo's working tree and returns its path"""
    kind = "serde" if serde else "plain"
    target = os.path.join(BUILD, kind)
    os.makedirs(target, exist_ok=True)
    binary = os.path.join(target, "release", "mqtt-conform")
    stamp = os.path.join(target, "stamp")
    want = digest(REPO) + digest(os.path.join(ROOT, "harness"))
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have == want and os.path.exists(binary):
        return binary
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    src = os.path.join(ROOT, "harness")
    if have.strip():
        # do not trust time stamps of files that were copied about
        for crate in ("mqtt_packet_3_5", "mqtt-conform"):
            subprocess.run(["cargo", "clean", "--release", "--offline", "-p", crate], cwd=src, env=env,
                           capture_output=True, text=True)
    cmd = ["cargo", "build", "--release", "--offline"] + (["--features", "serde"] if serde else [])
    r = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("the harness does not build:\n" + r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(want)
    return binary


# ---------------------------------------------------------------- executing
def dictionary(work):
    """numbers and texts of the source of the code under test: boundaries worth trying"""
    nums, texts = set(), set()
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(base, f), errors="replace") as fh:
                src = fh.read()
            src = re.sub(r"//[^\n]*", "", src)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', src):
                t = m.group(1)
                if len(t) <= 24 and "\\" not in t and "{" not in t:
                    texts.add(t)
            for m in re.finditer(r"'([^'\\\n])'", src):
                texts.add(m.group(1))
                nums.add(ord(m.group(1)))
            src = re.sub(r'"(?:[^"\\\n]|\\.)*"', "", src)
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)", src):
                try:
                    x = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    continue
                if x < 1 << 40:
                    nums.add(x)
    texts = sorted(texts)
    if len(texts) > 160:          # keep the rarest kind: short words first
        texts = sorted(texts, key=lambda t: (len(t.split()), len(t), t))[:160]
    path = os.path.join(work, "dict.nd")
    with open(path, "w") as f:
        for x in sorted(nums):
            f.write(json.dumps(x) + "\n")
        for t in texts:
            f.write(json.dumps(t, ensure_ascii=False) + "\n")
    return path


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_suite(binary, work, idx, suite, limit, pool, gen=None):
    """executes one suite; returns the file of recorded events"""
    out = os.path.join(work, "%02d-%s.nd" % (idx, re.sub(r"[^A-Za-z0-9]+", "_", suite)))
    cmd = [binary, suite, out, "--seed", str(SEED), "--limit", str(limit), "--pool", str(pool)]
    if gen:
        cmd += ["--gen", gen]
    if TIER == "thorough":
        cmd += ["--deep"]
    words = os.path.join(work, "dict.nd")
    if os.path.exists(words):
        cmd += ["--dict", words]
    r = subprocess.run(cmd, capture_output=True, text=True, preexec_fn=limits, timeout=1800)
    if r.returncode == 0:
        m = re.search(r"SCREENED (\d+)", r.stdout)
        SCREENED.append(int(m.group(1)) if m else 0)
        return out, 0
    if r.returncode == 2 or r.returncode == 101:
        raise Broken("suite %s: %s" % (suite, r.stderr[-2000:]))
    # the code under test aborted or hangs: run again, noting every execution before it starts
    log = out + ".careful"
    r2 = subprocess.run(cmd + ["--careful", log], capture_output=True, text=True, preexec_fn=limits, timeout=3000)
    if r2.returncode == 0:
        raise Broken("suite %s: exit %d that does not repeat" % (suite, r.returncode))
    with open(log) as f:
        last = f.read().strip().splitlines()[-1]
    kind = "hang" if r2.returncode == 70 else "abort"
    with open(out, "w") as f:
        f.write(json.dumps({"e": kind, "was": json.loads(last)}) + "\n")
    return out, 1


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, work, tag, workers=8, env=None, heap="5g", extra=()):
    meta = os.path.join(work, "meta-" + tag)
    log = os.path.join(work, tag + ".log")
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noTE", "-cleanup",
           *extra, module]
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})))
    shutil.rmtree(meta, ignore_errors=True)
    with open(log, errors="replace") as f:
        text = f.read()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", text)
    return {"rc": r.returncode, "text": text, "log": log,
            "transitions": int(m.group(1)) if m else 0, "states": int(m.group(2)) if m else 0,
            "done": bool(m) and "Finished in" in text}


def validate(prop, work, tag, events, workers):
    """judges recorded executions with the specification: {n: (verdict, text)}"""
    r = tlc("Trace.tla", "Trace.cfg", work, tag, workers, {"EVENTS": events, "PROP": prop})
    with open(events) as f:
        total = sum(1 for _ in f)
    seen = {}
    for m in VERDICT.finditer(r["text"]):
        seen[int(m.group(1))] = (m.group(2), m.group(3))
    if not r["done"] or len(seen) != total:
        err = [x for x in r["text"].splitlines() if "Error" in x or "error" in x][:5]
        missing = [n for n in range(1, total + 1) if n not in seen][:5]
        raise Broken("TLC on %s: exit %d, %d of %d judged (missing %s) %s, see %s" % (
            events, r["rc"], len(seen), total, missing, err, r["log"]))
    return seen, r


# ---------------------------------------------------------------- findings
def known(prop):
    """entries  known: property=<id> {json}: an execution has all the given fields"""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (\{.*\})\s*(.*)$", line)
            if m and m.group(1) == prop:
                out.append((json.loads(m.group(2)), m.group(3)))
    return out


def listed(ev, verdict, entries):
    """a known finding: the execution has all the fields, and the specification the verdict"""
    ev = dict(ev, verdict=verdict)
    for fields, what in entries:
        if all(ev.get(k) == v for k, v in fields.items()):
            return what or json.dumps(fields)
    return None


def brief(ev, n=700):
    t = json.dumps(ev, separators=(",", ":"))
    return json.loads(t) if len(t) <= n else t[:n] + "..."


# executions and bytes judged by one run of TLC
PORTION = (30000, 25 << 20)


# ---------------------------------------------------------------- a check
def check(prop):
    t0 = time.time()
    plan = PLAN[prop]
    work = os.path.join(BUILD, "run", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    binary = harness(plan.get("serde", False))
    dictionary(work)
    states = transitions = validated = 0
    models = {}
    given = []          # executions generated from the specification
    # 1. the properties on the specification itself
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        jobs = []
        for name in plan.get("models", []):
            m = MODELS[name]
            if m.get("tier") == "thorough" and TIER != "thorough":
                continue
            env = dict(m.get("env", {}))
            env.update(m.get(TIER, {}))
            env = {k: str(v).replace("$WORK", work).replace("$SEED", str(SEED)) for k, v in env.items()}
            jobs.append((name, m, env, ex.submit(
                tlc, m["module"], m["cfg"], work, "model-" + name, m.get("workers", 4), env)))
        for name, m, env, j in jobs:
            r = j.result()
            bad = m.get("expect") == "violation"
            violated = "is violated" in r["text"]
            if bad != violated or (not bad and (not r["done"] or r["rc"] != 0)):
                raise Broken("model %s: exit %d, see %s\n%s" % (name, r["rc"], r["log"], r["text"][-1500:]))
            states += r["states"]
            transitions += r["transitions"]
            models[name] = {"states": r["states"], "transitions": r["transitions"],
                            "expected": m.get("expect", "holds")}
            if "gives" in m:
                path = os.path.join(work, "gen-%s.nd" % name)
                n = 0
                with open(path, "w") as f:
                    for x in re.finditer(r'^"?GEN (.*?)"?$', r["text"], re.M):
                        line = x.group(1).replace('\\"', '"').replace("\\\\", "\\")
                        f.write(line + "\n")
                        n += 1
                if n == 0:
                    raise Broken("model %s generated nothing, see %s" % (name, r["log"]))
                models[name]["generated"] = n
                for suite in m["gives"] if isinstance(m["gives"], list) else [m["gives"]]:
                    given.append((suite, path))
    # 2. executions of the real code
    suites = []
    for suite, quick, thorough in plan["suites"]:
        limit = thorough if TIER == "thorough" else quick
        if limit:
            suites.append((suite, limit, limit * (12 if TIER == "thorough" else 5), None))
    wanted = plan.get("given")
    for suite, path in given:
        if wanted is None or suite in wanted:
            suites.append((suite, 10 ** 9, 1, path))
    files = []
    dead = 0
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        jobs = [(s, ex.submit(run_suite, binary, work, k, s[0], s[1], s[2], s[3])) for k, s in enumerate(suites)]
        for s, j in jobs:
            f, d = j.result()
            files.append((s[0], f))
            dead += d
    # 3. each execution against the specification, in portions
    groups, cur, count, weight = [], [], 0, 0
    for suite, f in files:
        with open(f) as fh:
            lines = fh.readlines()
        if not lines:
            raise Broken("suite %s recorded nothing" % suite)
        at = 0
        while at < len(lines):
            end = at
            while end < len(lines) and count < PORTION[0] and (weight < PORTION[1] or count == 0):
                count += 1
                weight += len(lines[end])
                end += 1
            if end > at:
                cur.append((suite, lines[at:end]))
            at = end
            if at < len(lines):
                groups.append(cur)
                cur, count, weight = [], 0, 0
    groups.append(cur)
    tally = {}
    samples = []
    violations = []
    entries = known(prop)
    found = {}
    recorded = 0
    silent = {}

    def judge(k, group):
        path = os.path.join(work, "events-%d.nd" % k)
        with open(path, "w") as f:
            for _, lines in group:
                f.writelines(lines)
        return validate(prop, work, "trace-%d" % k, path, 8 if len(groups) == 1 else 4)

    with concurrent.futures.ThreadPoolExecutor(max_workers=3) as ex:
        results = list(ex.map(lambda a: judge(*a), enumerate(groups)))
    for group, (seen, r) in zip(groups, results):
        states += r["states"]
        transitions += r["transitions"]
        n = 0
        for suite, lines in group:
            for line in lines:
                n += 1
                recorded += 1
                verdict, text = seen[n]
                tally[(suite, verdict, text if verdict != "bad" else "bad")] = \
                    tally.get((suite, verdict, text if verdict != "bad" else "bad"), 0) + 1
                if verdict == "ok":
                    validated += 1
                    if silent.setdefault((suite, text), 0) < 1 and len(samples) < 6 and len(line) < 1500:
                        samples.append({"suite": suite, "verdict": text, "execution": brief(json.loads(line))})
                    silent[(suite, text)] += 1
                elif verdict == "bad":
                    ev = json.loads(line)
                    what = listed(ev, text, entries)
                    if what:
                        found[what] = found.get(what, 0) + 1
                    else:
                        violations.append({"suite": suite, "what": text, "event": ev})
    for what, c in sorted(found.items()):
        note("KNOWN-FINDING: property=%s %s (%d executions)" % (prop, what, c))
    evidence = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions,
            "traces_validated_against_impl": validated,
            "samples": samples[:6],
            "executions_recorded": recorded,
            "executions_screened": sum(SCREENED),
            "executions_without_bearing": sum(v for k, v in tally.items() if k[1] == "skip"),
            "models": models,
            "by_suite": {},
        },
        "assumptions": plan.get("assumptions", []) + [
            "the abstraction function harness/src/model.rs maps library values to specification records faithfully",
            "TLC evaluates the specification correctly"],
        "known_findings": found,
        "violations": len(violations),
        "wall_s": round(time.time() - t0, 1),
    }
    by = evidence["coverage"]["by_suite"]
    for (suite, verdict, text), c in sorted(tally.items()):
        by.setdefault(suite, {})[verdict + (": " + text if text and verdict != "bad" else "")] = c
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if violations:
        rd = os.path.join(ROOT, "build", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": SEED, "tier": TIER, "count": len(violations),
                       "violations": violations[:50]}, f, indent=1)
        kinds = {}
        for v in violations:
            kinds.setdefault(v["what"], []).append(v)
        for what, vs in list(kinds.items())[:8]:
            note("  %d x %s, e.g. %s" % (len(vs), what, json.dumps(brief(vs[0]["event"], 1500))))
        note("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    note("%s: held on %d executions (%d recorded), %d states, %.1f s" % (
        prop, validated, recorded, states, time.time() - t0))
    return 0


# ---------------------------------------------------------------- replay
def replay(path):
    with open(path) as f:
        data = json.load(f)
    prop = data["property"]
    work = os.path.join(BUILD, "run", "replay-" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    binary = harness(PLAN[prop].get("serde", False))
    again = {}
    fixed = []
    for v in data["violations"]:
        ev = v["event"]
        ev = ev.get("was", ev)
        suite = {"enc": "enc-given", "dec": "dec-given", "relay": "relay-given", "stream": "stream-given",
                 "cut": "cut-given", "prim": "prim-given", "chunk": "chunk-given", "rd": "rd-given", "wr": "wr-given", "serde": "serde-given",
                 "prompt": "prompt-given", "mem": "mem-given", "work": "work-given", "share": "share-given",
                 "level": "level-given", "hand": "hand-given"}.get(ev["e"])
        if ev["e"] == "stream":
            pk = [x["b"] for x in ev.get("iso", [])]
            ev = {"vs": ev["vs"], "pk": pk, "b": ev["b"][sum(map(len, pk)):]}
        if ev["e"] == "hand" and "iso" in ev:
            ev = {"vs": ev["vs"], "pk": [x["b"] for x in ev["iso"]], "b": ev["tail"], "how": ev["how"]}
        (again.setdefault(suite, []) if suite else fixed).append(ev)
    rc = 0
    for k, (suite, evs) in enumerate(again.items()):
        gen = os.path.join(work, "given-%d.nd" % k)
        with open(gen, "w") as f:
            f.writelines(json.dumps(e) + "\n" for e in evs)
        out, _ = run_suite(binary, work, k, suite, 10 ** 9, 1, gen)
        seen, _ = validate(prop, work, "replay-%d" % k, out, 4)
        for n, (verdict, text) in sorted(seen.items()):
            note(suite, n, verdict, text)
            rc = rc or (verdict == "bad")
    for ev in fixed:
        note("only recorded:", json.dumps(brief(ev)))
    return int(rc)


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        harness(False)
        harness(True)
        note("harness built")
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) != 2 or sys.argv[1] not in PLAN:
        print(__doc__)
        return 2
    return check(sys.argv[1])


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        note("CHECK-ERROR:", e)
        sys.exit(2)
