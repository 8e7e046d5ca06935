"""V layer: extracts the functions a property depends on from /repo's current source, joins them with their contracts, runs Verus."""
import json, os, re, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import compose
from plan import PLAN
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(HERE, "target")

def sh(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -999, b"", "timeout"

def extract(env, workdir):
    """current source -> records.  (records or None, log)"""
    e = dict(env, RUSTC_BOOTSTRAP="1")
    rc, out, err = sh(["cargo", "rustc", "--offline", "-p", "fawkes-crypto", "--lib", "--", "-Zunpretty=expanded"], os.path.join(HERE, "harness"), e, 600)
    if rc != 0 or not out.strip():
        return None, "expansion failed: " + err[-2000:]
    exp = os.path.join(workdir, "expanded.rs")
    open(exp, "wb").write(out)
    e = dict(env, CARGO_TARGET_DIR=os.path.join(TARGET, "vx"))
    rc, o, err = sh(["cargo", "build", "--offline"], os.path.join(HERE, "vx"), e, 600)
    if rc != 0:
        return None, "extractor: " + err[-2000:]
    res = os.path.join(workdir, "records.json")
    rc, o, err = sh([os.path.join(TARGET, "vx", "debug", "vx"), exp, res], HERE, env, 120)
    if rc != 0:
        return None, "extraction failed: " + err[-2000:]
    return {r["key"]: r for r in json.load(open(res))}, ""

def trusted_scan(text):
    """every unchecked assumption in a composed file"""
    t = []
    for m in re.finditer(r"\baxiom fn (\w+)[^;{]*", text): t.append("axiom " + re.sub(r"\s+", " ", m.group(0)[9:])[:160])
    for m in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*)?(pub\s+)?(fn|struct|proof fn|spec fn)\s+(\w+)", text): t.append("trusted %s %s" % (m.group(2), m.group(3)))
    for m in re.finditer(r"\b(assume|admit)\s*\(", text): t.append("UNEXPECTED " + m.group(1))
    return t

def run(prop, tier, env, workdir):
    """dict(status=none|ok, areas=[...], failed={key: text}, undecided={key: reason}, verified=[keys], ...)"""
    if prop not in PLAN:
        return {"status": "none"}
    os.makedirs(workdir, exist_ok=True)
    recs, log = extract(env, workdir)
    r = dict(status="ok", verified=[], failed={}, undecided={}, smt_ms=0, items=0, items_ok=0, wall=0.0, trusted=[], cmds=[], vacuous=[], reports={})
    if recs is None:
        r["undecided"]["*"] = log
        return r
    out = {}
    def work(area, rx):
        try:
            a = compose.load(area)
            only = [k for k in a.fns if rx is None or re.search(rx, k)]
            out[area] = compose.decide(area, recs, workdir, only=only, timeout=500 if tier == "quick" else 2000), only
            if tier == "thorough":
                c = compose.compose(area, recs, out[area][0]["demote"], vacuity=True, only=only)
                v = compose.run_verus(c.text, os.path.join(workdir, area + "_vacuity.rs"), 2000)
                bad = set(compose.owner(c.lines, e) for e in v["errors"])
                ex = compose.load(area).opts.get("novacuity", [])
                out[area][0]["vacuous"] = [k for k in out[area][0]["verified"] if k not in bad and not any(x in k for x in ex)]
        except Exception as x:
            import traceback
            out[area] = None, [traceback.format_exc()]
    def lemmas(area):
        # the lemmas of an area some contract file includes: proved here, in the same run
        try:
            c = compose.compose(area, recs, {}, only=[])
            v = compose.run_verus(c.text, os.path.join(workdir, area + "_lemmas.rs"), 500 if tier == "quick" else 2000)
            und = {}
            if v["status"] != "ok" or "verified" not in v["results"]: und["lemmas of " + area] = v["status"] + " " + v["raw"][-300:]
            elif v["errors"]: und["lemmas of " + area] = v["errors"][0]["text"][:400]
            out["lemmas of " + area] = dict(verified=[], failed={}, undecided=und, composed=c, run=v), []
        except Exception:
            import traceback
            out["lemmas of " + area] = None, [traceback.format_exc()]
    todo = [a for a, _ in PLAN[prop]]
    plan = dict(PLAN[prop])
    if tier == "thorough":
        # also every function the planned ones are checked against: the contracts they assume of their callees
        more = list(todo)
        while more:
            for i in compose.load(more.pop()).includes:
                if i not in plan or plan[i] is not None:
                    if i not in plan: more.append(i)
                    plan[i] = None
        for a in list(plan):
            if not compose.load(a).fns: del plan[a]
        todo = list(plan)
    jobs, seen = [], set(plan)
    while todo:
        for i in compose.load(todo.pop()).includes:
            if i in seen: continue
            seen.add(i); todo.append(i)
            if "proof fn" in compose.load(i).raw: jobs.append(i)
    ts = [threading.Thread(target=work, args=ar) for ar in plan.items()] + [threading.Thread(target=lemmas, args=(i,)) for i in jobs]
    for t in ts: t.start()
    for t in ts: t.join()
    for area, (d, only) in out.items():
        if d is None:
            r["undecided"]["area " + area] = only[0][-500:]
            continue
        fl = dict(d["failed"])
        if "?lemma" in fl:
            for e in fl.pop("?lemma"): r["undecided"]["lemma in " + area] = e["msg"]
        r["verified"] += d["verified"]
        r["undecided"].update(d["undecided"])
        for k, es in fl.items(): r["failed"][k] = "\n".join(e["text"] for e in es)
        vr = d["run"].get("results", {})
        r["items"] += vr.get("verified", 0) + vr.get("errors", 0)
        r["items_ok"] += vr.get("verified", 0)
        r["smt_ms"] += d["run"].get("times", {}).get("smt", {}).get("total", 0) if isinstance(d["run"].get("times", {}).get("smt"), dict) else 0
        r["wall"] += d["run"]["wall"]
        r["trusted"] += trusted_scan(d["composed"].text)
        r["vacuous"] += d.get("vacuous", [])
        r["cmds"].append("verus %s.rs --rlimit 30" % area.replace("lemmas of ", "lemmas_"))
    r["trusted"] = sorted(set(r["trusted"]))
    return r
