#!/usr/bin/env python3
"""Decides one property of /repo.   check.py <id> [quick|thorough]

Layers (see DESIGN.md):
  V  contracts on functions extracted from /repo's current source, discharged by Verus
  E  the same contracts evaluated on the real compiled code (failing inputs; bounded stand-in where V does not reach)
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: the tree could not be built at all.
"""
import fcntl, glob, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "v"))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(HERE, "out")
E_TIMEOUT = {"quick": 600, "thorough": 7200}
MODS = {"C01": "p_num", "C02": "p_num", "C03": "p_num", "C04": "p_bits", "C05": "p_bits", "C06": "p_hash", "C07": "p_hash",
        "C08": "p_curve", "C09": "p_curve", "C10": "p_curve", "C11": "p_curve", "C12": "p_curve", "C13": "p_curve",
        "C14": "p_sig", "C15": "p_sig", "C16": "p_conv", "C17": "p_conv", "C18": "p_groth", "C19": "p_groth",
        "C20": "all", "C21": "p_comp", "C22": "p_comp", "C23": "p_params", "C26": "p_params"}

ASSUME = ["machine integers: overflow of usize counters is checked by Verus; field elements are abstract (axioms of a field)",
          "panics are rejections: a function that panics makes no promise; when the prover is honest it must not panic",
          "termination of mutually dependent trait methods is not proved"]

def level_of(prop):
    try:
        return json.load(open(os.path.join(HERE, "levels.json")))[prop]["level"]
    except Exception:
        return "exploration"

def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUSTFLAGS="--cap-lints allow", CARGO_TERM_COLOR="never")
    e.pop("RUSTC_WRAPPER", None)
    return e

def run(cmd, timeout=None, cwd=None, e=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode(errors="replace")

def build_harness(prop):
    """returns (binary or None, log). Falls back to the modules this property needs when the whole does not build."""
    os.makedirs(TARGET, exist_ok=True)
    h = os.path.join(HERE, "harness")
    rc, log = run(["cargo", "build", "--offline"], cwd=h, timeout=700)
    if rc != 0:
        rc, log2 = run(["cargo", "build", "--offline", "--no-default-features", "--features", MODS[prop]], cwd=h, timeout=700)
        log += log2
    b = os.path.join(TARGET, "debug", "fxharness")
    return (b if rc == 0 and os.path.exists(b) else None), log

def literals():
    """integer literals of the source, tried as inputs alongside random and boundary values"""
    s = set()
    for f in glob.glob(REPO + "/src/**/*.rs", recursive=True) + glob.glob(REPO + "/fawkes-crypto_derive/src/**/*.rs", recursive=True):
        try:
            t = open(f, errors="replace").read()
        except OSError:
            continue
        for m in re.finditer(r"\b0x[0-9a-fA-F_]+|\b0b[01_]+|\b\d[\d_]*", t):
            try:
                s.add(int(m.group(0).replace("_", ""), 0 if m.group(0)[:2] in ("0x", "0b") else 10))
            except ValueError:
                pass
    p = os.path.join(OUT, "lits.%d.txt" % os.getpid())
    open(p, "w").write("\n".join(str(x) for x in sorted(s) if x < 1 << 600) + "\n")
    return p

def explore(prop, tier, seed):
    b, log = build_harness(prop)
    if b is None:
        return {"status": "unbuilt", "log": log[-6000:]}
    # run a private copy: another check may rebuild the binary meanwhile
    mine = os.path.join(OUT, "fxharness.%s.%d" % (prop, os.getpid()))
    subprocess.run(["cp", b, mine], check=True)
    o = os.path.join(OUT, "%s.explore.%d.json" % (prop, os.getpid()))
    lits = literals()
    try:
        rc, txt = run([mine, prop, tier, str(seed), o, lits], timeout=E_TIMEOUT[tier])
        if rc == -999:
            return {"status": "hang", "log": txt[-3000:]}
        try:
            r = json.load(open(o))
        except Exception:
            return {"status": "crash", "log": "exit %s\n%s" % (rc, txt[-3000:])}
        r["status"] = "ok" if r["ok"] else "fail"
        return r
    finally:
        for f in (mine, o, lits):
            try:
                os.unlink(f)
            except OSError:
                pass

def prove(prop, tier):
    """contracts discharged by Verus on the functions extracted from the current tree"""
    try:
        import layer
        return layer.run(prop, tier, env(), os.path.join(OUT, "v.%s.%d" % (prop, os.getpid())))
    except Exception:
        import traceback
        return {"status": "error", "undecided": {"*": traceback.format_exc()[-1500:]}}

def obligations_text(v):
    return "".join("failed obligation in %s:\n%s\n" % (k, t) for k, t in v.get("failed", {}).items())

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(re.sub(r"\D", "", os.environ.get("VERIF_SEED", "1")) or 1) % (1 << 32)
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    vres = prove(prop, tier)
    ex = explore(prop, tier, seed)
    replay = os.path.join(OUT, "%s.replay.txt" % prop)
    viol, note, code = None, "", 0
    if ex["status"] == "fail":
        viol = "failing input"
        open(replay, "w").write("property %s\nwhat fails: %s\nfailing input: %s\nreproduce: cd /verif && python3 check.py %s %s   (VERIF_SEED=%d)\n%s" % (
            prop, ex["what"], ex["input"], prop, tier, seed, obligations_text(vres)))
    elif ex["status"] in ("hang", "crash"):
        viol = "no input"
        open(replay, "w").write("property %s\nthe code under test did not come back (%s) while its contracts were evaluated\n%s\n" % (prop, ex["status"], ex["log"]))
    elif vres.get("failed"):
        viol = "no input"
        open(replay, "w").write("property %s\n%sno failing input was found by evaluating the contracts on the real code\n" % (prop, obligations_text(vres)))
    elif ex["status"] == "unbuilt":
        note = ex["log"]
        code = 2
    cov = {
        "evaluations": ex.get("evaluations", 0),
        "distinct_nontrivial": ex.get("nontrivial", 0),
        "rule": "inputs enumerated over tiny fields and sampled (boundary values, source literals, random) over the real ones; non-trivial: the input satisfies the contract's precondition, so the contract decides it",
        "samples": ex.get("samples", []),
        "constraint_systems_enumerated_completely": ex.get("exhausted_r1cs", 0),
        "constraint_systems_truncated": ex.get("truncated_r1cs", 0),
        "notes": ex.get("notes", []),
    }
    level, assume = "exploration", []
    if vres.get("status") == "ok":
        und = vres["undecided"]
        cov.update(functions_under_contract=len(vres["verified"]) + len(vres["failed"]) + len(und), functions_verified=sorted(vres["verified"]), functions_failed=sorted(vres["failed"]),
            functions_undecided=und, obligations=vres["items"], discharged=vres["items_ok"], back_end="Verus 0.2026.09.13 / Z3", solver_ms=vres["smt_ms"],
            checker_cmd=" ; ".join(vres["cmds"]), trusted_base=vres["trusted"], vacuity_checked=tier == "thorough", vacuous_contracts=vres["vacuous"])
        if not und and not vres["failed"] and vres["verified"]: level = level_of(prop)
        assume = ASSUME + ["%s: not proved on this tree (%s); decided by bounded evaluation only" % kv for kv in und.items()]
    elif vres.get("status") == "error":
        assume = ["the deductive layer failed to run: " + vres["undecided"]["*"]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assume, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    subprocess.run(["rm", "-rf", os.path.join(OUT, "v.%s.%d" % (prop, os.getpid()))])
    if viol:
        if ex.get("what"):
            print(ex["what"])
            print("input:", ex["input"][:2000])
        elif vres.get("failed"): print(obligations_text(vres)[:3000])
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if viol == "failing input" else " no-failing-input-found"))
        sys.exit(1)
    if code == 2:
        print("could not build the checks against this tree:\n" + note)
        sys.exit(2)
    print("%s held: %d functions proved, %d undecided, %d evaluations, %.1f s" % (prop, len(vres.get("verified", [])), len(vres.get("undecided", {})), cov["evaluations"], time.time() - t0))
    for k, w in list(vres.get("undecided", {}).items())[:5]: print("  undecided:", k, w[:300])

if __name__ == "__main__": main()
