#!/usr/bin/env python3
"""Runs the check of one property: contracts discharged by Verus on the text of /repo's current
source (deciding), then the same contracts executed against the real crates (bounded replay).

usage: check.py PROPERTY [--thorough] [--replay FILE] [--no-harness] [--no-proof]
exit:  0 held on everything explored; 1 with a VIOLATION line; 2 the check itself could not run.
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import vgen
from rsx import Lost
from props import PROPS

TOOLCHAIN = "nightly-2026-02-15"
BUILD = os.path.join(VERIF, "build")


def lock_path():
    return os.path.join(VERIF, "spec", "structure.json")


def limit():
    g = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (g, g))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


# ------------------------------------------------------------------ proof tier
def run_verus(name, probe=None, rlimit=30):
    """One Verus run over a freshly generated file. Returns a dict."""
    out = os.path.join(BUILD, "verus", f"{name}_{probe or 'main'}.rs")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = {"template": name, "file": out, "status": "ok", "errors": [], "verified": 0, "failed": 0, "smt_ms": 0, "functions": [], "notes": []}
    try:
        g = vgen.generate(REPO, name + ".vrs", out, probe)
    except Lost as e:
        r.update(status="undecided", notes=[f"lost anchor: {e}"])
        return r
    r["gen"] = g
    r["functions"] = g.functions
    cmd = ["verus", os.path.basename(out), "--multiple-errors", "40", "--rlimit", str(rlimit), "--output-json", "--time-expanded", "--num-threads", "4", "--error-format=json"]
    r["cmd"] = " ".join(cmd)
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(out), capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        r.update(status="undecided", notes=["verifier timeout"])
        return r
    try:
        j = json.loads(p.stdout[p.stdout.index("{") :])
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    for l in p.stderr.split("\n"):
        if not l.startswith("{"):
            continue
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error" or m["message"].startswith("aborting due to"):
            continue
        # the function under contract that owns the error: prefer spans inside it
        own, probe_hit, line = None, None, None
        for s in sorted(m["spans"], key=lambda s: not s["is_primary"]):
            n = s["line_start"]
            if s["is_primary"] and n in g.probes:
                probe_hit = g.probes[n]
            if own is None and 0 < n <= len(g.map) and g.map[n - 1]:
                own = g.map[n - 1]
                line = n
        r["errors"].append({"msg": m["message"], "fn": own, "line": line, "probe": probe_hit, "rendered": m.get("rendered", "")[:3000], "code": (m.get("code") or {}).get("code") if m.get("code") else None})
    r["verified"], r["failed"] = vr.get("verified", 0), vr.get("errors", 0)
    t = j.get("times-ms", {}).get("smt", {})
    r["smt_ms"] = t.get("smt-run", 0)
    r["breakdown"] = {f["function"]: f["time"] for mod in t.get("smt-run-module-times", []) for f in mod.get("function-breakdown", [])}
    if "verified" not in vr or vr.get("encountered-vir-error") or (vr.get("verified", 0) + vr.get("errors", 0) == 0):
        r["status"] = "undecided"
        r["notes"] += ["not accepted by the verifier's front end: " + (r["errors"][0]["msg"] if r["errors"] else p.stderr[-300:])]
    elif r["failed"] or not vr.get("success", False):
        r["status"] = "failed"
    return r


def trusted_items(path):
    t = open(path, encoding="utf-8").read()
    out = []
    for m in re.finditer(r"assume_specification(?:<[^(;]*?>)?\s*\[\s*((?:(?!\]\s*\().)+?)\s*\]\s*\(", t, re.S):
        out.append("assumed contract: " + re.sub(r"\s+", " ", m.group(1)))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?!\s*/\*IMPORTED-FN)\s*(/\*TRUSTED-FN\*/)?(?:\s*#\[[^\]]*\])*\s*((?:pub(?:\([^)]*\))?\s+)?(?:broadcast\s+)?(?:axiom\s+|proof\s+)?(?:exec\s+)?(?:fn|struct)\s+\w+)", t):
        out.append(("contract assumed for a function of /repo: " if m.group(1) else "trusted model: ") + re.sub(r"\s+", " ", m.group(2)))
    for m in re.finditer(r"#\[verifier::external_type_specification\].*?struct\s+\w+[^;{]*", t, re.S):
        out.append("external type: " + re.sub(r"\s+", " ", m.group(0))[-80:])
    for m in re.finditer(r"\baxiom\s+fn\s+(\w+)", t):
        out.append("axiom: " + m.group(1))
    for w in ("admit()", "assume("):
        n = len(re.findall(r"(?<![\w:])" + re.escape(w), t))
        if n:
            out.append(f"{n} x {w}")
    seen, res = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


def proof_tier(names):
    """(verdict, info): verdict in ok | failed | undecided | none."""
    if not names:
        return "none", {}
    with cf.ThreadPoolExecutor(6) as ex:
        jobs = {(n, p): ex.submit(run_verus, n, p) for n in names for p in (None, "body", "loop")}
        res = {k: f.result() for k, f in jobs.items()}
    lock = {}
    if os.path.exists(lock_path()):
        lock = json.load(open(lock_path()))
    info = {"files": {}, "failed": [], "undecided": [], "trusted": [], "rewrites": [], "functions": [], "assumed_functions": [], "imported": [], "obligations": 0, "discharged": 0, "smt_ms": 0, "vacuity_probes": 0, "vacuity_probes_refuted": 0, "changed": [], "breakdown": {}}
    info["cmd"] = " ; ".join(res[(n, None)].get("cmd", "") for n in names)
    verdict = "ok"
    for n in names:
        m = res[(n, None)]
        if "gen" in m:
            g = m["gen"]
            info["rewrites"] += [r for r in g.rewrites if r not in info["rewrites"]]
            info["functions"] += [f for f in g.functions if f not in g.trusted_fns and f not in info["functions"]]
            info["assumed_functions"] += [f for f in g.trusted_fns if f not in info["assumed_functions"]]
            info["imported"] += [f for f in g.imported_fns if f not in info["imported"]]
            info["trusted"] += [x for x in trusted_items(m["file"]) if x not in info["trusted"]]
            for f, st in g.struct.items():
                if f in lock and lock[f]["text"] != hashlib.sha256(st["text"].encode()).hexdigest()[:16] and f not in info["changed"]:
                    info["changed"].append(f)
        info["obligations"] += m["verified"] + m["failed"]
        info["discharged"] += m["verified"]
        info["smt_ms"] += m["smt_ms"]
        info["breakdown"].update({k: v for k, v in m.get("breakdown", {}).items() if v >= 100})
        if m["status"] == "undecided":
            info["undecided"] += [f"{n}: {x}" for x in m["notes"]]
            info.setdefault("front_end_errors", []).extend(e["rendered"] for e in m["errors"][:3])
            verdict = "undecided" if verdict == "ok" else verdict
            continue
        if m["status"] == "failed":
            g = m["gen"]
            lostfns = {f for f, _ in g.lost}
            for e in m["errors"]:
                f = e["fn"]
                why = None
                if "Resource limit" in e["msg"] or "rlimit" in e["msg"]:
                    why = "resource limit"
                elif f is None:
                    why = "obligation outside the extracted functions"
                elif f in lostfns:
                    why = "a proof hint lost its anchor"
                elif f in lock and f in g.struct and [x for x in lock[f]["loops"]] != g.struct[f]["loops"]:
                    why = "the loops of the function are no longer those its invariants were written for"
                elif f in lock and f in g.struct and lock[f]["text"] == hashlib.sha256(g.struct[f]["text"].encode()).hexdigest()[:16] and not info["changed"]:
                    why = "the function is unchanged and no other extracted function changed"
                if why:
                    info["undecided"].append(f"{f}: {e['msg']} ({why})")
                else:
                    info["failed"].append({"fn": f, "obligation": e["msg"], "at": e["rendered"]})
            if info["failed"]:
                verdict = "failed"
            elif verdict == "ok":
                verdict = "undecided"
        # vacuity: every probe must be refuted
        for pr in ("body", "loop"):
            v = res[(n, pr)]
            if "gen" not in v or v["status"] == "undecided":
                if m["status"] == "ok" and (v.get("gen") is None or v["gen"].probes):
                    info["undecided"].append(f"{n}: vacuity run {pr} failed: {v['notes']}")
                    verdict = "undecided" if verdict == "ok" else verdict
                continue
            want = set(v["gen"].probes.values())
            got = {e["probe"] for e in v["errors"] if e["probe"]}
            info["vacuity_probes"] += len(want)
            info["vacuity_probes_refuted"] += len(want & got)
            miss = want - got
            if miss and m["status"] == "ok":
                info["undecided"].append(f"{n}: vacuous contract or unreachable code at {sorted(miss)[:4]}")
                verdict = "undecided" if verdict == "ok" else verdict
    return verdict, info


# ------------------------------------------------------------------ bounded replay tier
def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


def build_harness(crate):
    d = os.path.join(VERIF, "harness", crate)
    p = subprocess.run(["cargo", "build", "--offline"], cwd=d, env=cargo_env(), capture_output=True, text=True)
    return (p.returncode == 0, p.stderr[-4000:], os.path.join(BUILD, "target", "debug", f"h-{crate}"))


def known_findings(prop):
    ks = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                ks.append((m.group(2), m.group(3)))
    return ks


def run_harness(binary, prop, seed, thorough, extra=(), timeout=700):
    cmd = [binary, prop, "--seed", str(seed)] + (["--thorough"] if thorough else []) + list(extra)
    for k, _ in known_findings(prop):
        cmd += ["--known", k]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, preexec_fn=limit, cwd=BUILD)
    except subprocess.TimeoutExpired as e:
        return {"kind": "timeout", "cmd": cmd}
    r = {"kind": "crash", "rc": p.returncode, "stderr": p.stderr[-2000:], "cmd": cmd, "known": [], "out": p.stdout}
    for l in p.stdout.split("\n"):
        if l.startswith("DONE ") and p.returncode == 0:
            r["kind"] = "done"
            r["done"] = json.loads(l[5:])
        elif l.startswith("FAIL ") and p.returncode == 10:
            r["kind"] = "fail"
            r["fail"] = json.loads(l[5:])
        elif l.startswith("HANG"):
            r["hang"] = True
        elif l.startswith("KNOWN "):
            r["known"].append(json.loads(l[6:]))
    return r


def locate_crash(binary, prop, seed, thorough):
    """Re-runs with a journal; the last journalled case is the one that crashed or hung."""
    jp = os.path.join(BUILD, f"journal-{prop}-{os.getpid()}.txt")
    r = run_harness(binary, prop, seed, thorough, ["--journal", jp])
    last = None
    try:
        with open(jp, errors="replace") as f:
            for l in f:
                if l.endswith("\n"):
                    last = l
        os.unlink(jp)
    except OSError:
        pass
    return r, (json.loads(last) if last else None)


# ------------------------------------------------------------------ driver
def write_replay(prop, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{h}.json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1, ensure_ascii=False)
    return p


def main():
    a = sys.argv[1:]
    prop = a[0]
    thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    if "--replay" in a:
        return replay(prop, a[a.index("--replay") + 1])
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(build_harness, cfg["harness"]) if cfg.get("harness") and "--no-harness" not in a else None
        pv = ex.submit(proof_tier, cfg.get("verus", []) if "--no-proof" not in a else [])
        hres = None
        if hb:
            ok, err, binary = hb.result()
            if not ok:
                hres = {"kind": "nobuild", "err": err}
            else:
                hres = run_harness(binary, prop, seed, thorough)
                if hres["kind"] in ("crash", "timeout"):
                    r2, case = locate_crash(binary, prop, seed, thorough)
                    if r2["kind"] in ("fail", "done"):
                        hres = r2
                    else:
                        hres = dict(r2, case=case)
        verdict, info = pv.result()
        # an obligation failed and the quick replay found no input: look further while there is time
        if verdict == "failed" and hres and hres["kind"] == "done" and not thorough:
            left = min(480, 780 - (time.time() - t0))
            if left > 20:
                deep = run_harness(binary, prop, seed, True, timeout=left)
                if deep["kind"] == "fail":
                    hres = deep

    violation, exit_code, notes = None, 0, []
    if hres:
        if hres["kind"] == "fail":
            f = hres["fail"]
            violation = {"property": prop, "kind": "failing input", "input": f["input"], "why": f["why"], "replay_args": [prop, "--seed", str(f["seed"])] + (["--thorough"] if f["thorough"] else []) + ["--only", f"{f['family']}:{f['idx']}"], "harness": cfg["harness"]}
        elif hres["kind"] in ("crash", "timeout"):
            c = hres.get("case") or {}
            violation = {"property": prop, "kind": "crash or hang", "input": c.get("input"), "why": ("no progress for 30 s" if hres.get("hang") or hres["kind"] == "timeout" else f"process ended with {hres.get('rc')}") + " " + hres.get("stderr", "")[-600:], "replay_args": [prop, "--seed", str(seed)] + (["--thorough"] if thorough else []) + (["--only", f"{c['family']}:{c['idx']}"] if c else []), "harness": cfg["harness"]}
        elif hres["kind"] == "nobuild":
            notes.append("the replay harness does not build against this tree: " + hres["err"][-1500:])
    if verdict == "failed":
        fo = info["failed"]
        if violation:
            violation["failed_obligations"] = fo
        else:
            violation = {"property": prop, "kind": "failed obligation", "no_failing_input_found": True, "failed_obligations": fo, "verifier": info.get("cmd")}
    if hres and hres["kind"] == "nobuild" and verdict != "failed":
        exit_code = 2
    if verdict == "undecided" and not hres:
        exit_code = 2
    if verdict == "undecided":
        notes += ["proof tier undecided on this tree: " + x for x in info["undecided"][:8]]

    hd = (hres or {}).get("done", {})
    cov = {}
    if info:
        cov.update(
            obligations=info["obligations"],
            discharged=info["discharged"],
            checker_cmd=info["cmd"] + "   (Verus 0.2026.09.13 with its bundled Z3)",
            trusted_base=info["trusted"] + [f"extraction drops attributes and comments; declared rewrite: {r}" for r in info["rewrites"]],
            functions_under_contract=info["functions"],
            contracts_discharged_by_other_checks=info["imported"],
            contracts_assumed_bounded_only=info["assumed_functions"] + cfg.get("bounded_functions", []),
            smt_ms=info["smt_ms"],
            vacuity_probes=info["vacuity_probes"],
            vacuity_probes_refuted=info["vacuity_probes_refuted"],
            functions_changed_since_spec_was_written=info["changed"],
            slow_functions_ms=info["breakdown"],
            proof_verdict=verdict,
        )
    if hres:
        cov.update(
            evaluations=hd.get("cases", 0),
            bounded_families=hd.get("families", {}),
            rule=cfg.get("rule", "bounded replay of the contracts against the real crate: exhaustive small scope, then seeded random cases"),
            bounded_outcome=hres["kind"],
        )
    if notes:
        cov["notes"] = notes
    if not cov:
        cov["explanation"] = "nothing ran"
    level = cfg["level"]
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level, "coverage": cov, "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)

    for k, d in known_findings(prop):
        if hres and k in hres.get("known", []):
            print(f"KNOWN-FINDING: property={prop} {d}")
    for n in notes:
        print("note:", n[:600])
    if info:
        print(f"proof: {info['discharged']}/{info['obligations']} obligations discharged, {len(info['functions'])} functions under contract, {info['vacuity_probes_refuted']}/{info['vacuity_probes']} vacuity probes refuted, smt {info['smt_ms']} ms, verdict {verdict}")
    if hres:
        print(f"replay: {hres['kind']} {json.dumps(hd)}")
    if violation:
        p = write_replay(prop, violation)
        print("failing input:", str(violation.get("input"))[:800], "|", str(violation.get("why"))[:800])
        for o in violation.get("failed_obligations", [])[:5]:
            print("failed obligation:", o["fn"], "-", o["obligation"])
        print(f"VIOLATION property={prop} replay={p}" + (" no-failing-input-found" if violation.get("no_failing_input_found") else ""))
        return 1
    return exit_code


def replay(prop, path):
    v = json.load(open(path))
    if v.get("replay_args"):
        ok, err, binary = build_harness(v["harness"])
        if not ok:
            print(err)
            return 2
        return subprocess.run([binary] + v["replay_args"]).returncode
    print(json.dumps(v, indent=1))
    verdict, info = proof_tier(PROPS[prop].get("verus", []))
    print(verdict, json.dumps(info["failed"], indent=1))
    return 1 if verdict == "failed" else 0


def write_lock():
    """Records loop headers and text hashes of the functions under contract on the current tree."""
    d = {}
    for p, c in PROPS.items():
        for n in c.get("verus", []):
            g = vgen.generate(REPO, n + ".vrs", os.path.join(BUILD, "lock.rs"))
            for f, st in g.struct.items():
                d[f] = {"loops": st["loops"], "text": hashlib.sha256(st["text"].encode()).hexdigest()[:16]}
    with open(lock_path(), "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    if sys.argv[1] == "--lock":
        os.makedirs(BUILD, exist_ok=True)
        write_lock()
        sys.exit(0)
    sys.exit(main())
