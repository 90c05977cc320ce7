#!/usr/bin/env python3
"""Decide one property: usage check.py PID [quick|thorough] (or VERIF_TIER)."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from props import PROPS

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, "build")
EVID = os.path.join(V, "evidence")
ENV = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_") and k not in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER")}
ENV["CARGO_NET_OFFLINE"] = "true"
for k in ("CARGO_HOME",):
    if k in os.environ:
        ENV[k] = os.environ[k]
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout=600, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")


def src_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(REPO, "crates")):
        ds.sort()
        ds[:] = [x for x in ds if x != "target"]
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def fresh(target, h):
    """cargo goes by file times; forget its fingerprints whenever the content differs from the last build"""
    stamp = os.path.join(target, "src-hash")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    for d, ds, fs in os.walk(target):
        if os.path.basename(d) == ".fingerprint":
            for x in ds:
                if x.startswith(("numeric", "native")):
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            ds[:] = []
    os.makedirs(target, exist_ok=True)
    open(stamp, "w").write(h)


# ------------------------------------------------------------------ native
def native(pid, tier, seed, h, secs):
    """bounded differential check / counterexample search on the real crates"""
    binn = pid.lower()
    nd = os.path.join(V, "native")
    def one(mode):
        tgt = os.path.join(nd, "target", mode)
        fresh(tgt, h)
        cmd = ["cargo", "build", "--offline", "--bin", binn, "--target-dir", tgt] + (["--release"] if mode == "rel" else [])
        rc, o, e = run(cmd, cwd=nd, timeout=500)
        if rc != 0:
            return dict(error="build failed: " + e[-3000:])
        exe = os.path.join(tgt, "release" if mode == "rel" else "debug", binn)
        out = os.path.join(BUILD, f"{pid}-{mode}-{seed}.json")
        if os.path.exists(out):
            os.remove(out)
        env = dict(ENV)
        env["NATIVE_SECS"] = str(secs)
        cmd = ["bash", "-c", f"ulimit -v 12000000; exec {exe} {pid} {seed} {tier} {out}"]
        rc, o, e = run(cmd, timeout=secs * 3 + 150, env=env)
        if os.path.exists(out):
            r = json.load(open(out))
            r["cmd"] = f"{exe} {pid} {seed} {tier} OUT.json"
            return r
        # died: find the last case
        rc2, o, e = run(["bash", "-c", f"ulimit -v 12000000; exec {exe} {pid} {seed} {tier} {out} trace 2>&1 | tail -c 4000"], timeout=secs * 6 + 250, env=env)
        last = [l for l in o.splitlines() if l.startswith("CASE")][-1:] or ["?"]
        return dict(cases=0, fails=[dict(op=last[0][:200], input=last[0], want="an answer", got=f"process ended with {rc}: {e[-300:]}")], cmd=exe)
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.map(one, ["dbg", "rel"])
    return {"debug": a, "release": b}


# ------------------------------------------------------------------ extraction + Verus
def ensure_vx():
    exe = os.path.join(V, "vx/target/release/vx")
    src = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(os.path.join(V, "vx/src")) for f in fs)
    if not os.path.exists(exe) or os.path.getmtime(exe) < src:
        rc, o, e = run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "vx"))
        if rc != 0:
            raise RuntimeError("vx build failed: " + e[-2000:])
    return exe


def expand(crate, h):
    """macro-expanded source of one crate, from /repo's current tree"""
    d = os.path.join(BUILD, "exp")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, f"{crate}-{h}.rs")
    if os.path.exists(out):
        return out
    tgt = os.path.join(BUILD, "exp-target")
    fresh(tgt, h)
    rc, o, e = run(["cargo", "+nightly", "rustc", "--offline", "-p", f"numeric-{crate}", "--lib", "--target-dir", tgt, "--", "-Zunpretty=expanded"], cwd=REPO)
    if rc != 0:
        raise RuntimeError(f"expansion of {crate} failed: " + e[-2000:])
    open(out + ".tmp", "w").write(o)
    os.replace(out + ".tmp", out)
    return out


LB = {"u8": (8, "0x100"), "u16": (16, "0x10000"), "u32": (32, "0x1_0000_0000"), "u64": (64, "0x1_0000_0000_0000_0000"),
      "usize": (64, "0x1_0000_0000_0000_0000"), "u128": (128, "(0x1_0000_0000_0000_0000int*0x1_0000_0000_0000_0000int)")}


WIDE = {"u8": "u16", "u16": "u32", "u32": "u64", "u64": "u128", "usize": "u128", "u128": "u128"}


def verus_job(pid, vx, exp, template, modules, limb, debug, rlimit=30, defs=(), probe=None):
    tag = f"{template}-{limb}{'' if debug else '-rel'}" + (f"-{probe}" if probe else "")
    wd = os.path.join(BUILD, "verus", pid, tag)
    os.makedirs(wd, exist_ok=True)
    out, mp = os.path.join(wd, "out.rs"), os.path.join(wd, "map.json")
    sigs = os.path.join(V, "specs", "sigs", f"{template}-{limb}.json")
    drops, notes, tries = set(), [], 0
    res = dict(tag=tag, functions=0, discharged=0, failed=[], undecided=[], lost=[], soft=[], smt_ms=0, assumed=[], contracts=[], msgs={}, frontend=None)
    seed_opt = []
    while True:
        tries += 1
        cmd = [vx, "--repo", REPO, "--template", os.path.join(V, "specs", template + ".vrs"), "--out", out, "--map", mp, "--sigs", sigs, "--known", os.path.join(V, "specs", "known_fns.json"),
               "--limb", limb, "--def", f"LIMB={limb}", "--def", f"LBITS={LB[limb][0]}", "--def", f"LBASE={LB[limb][1]}", "--def", f"WIDE={WIDE[limb]}", "--def", f"DEBUG={1 if debug else 0}"]
        for d in defs:
            cmd += ["--def", d]
        if probe:
            cmd += ["--probe", probe]
        if not debug:
            cmd += ["--release"]
        if os.environ.get("VX_WRITE_SIGS"):
            cmd += ["--write-sigs"]
        for k, f in exp.items():
            cmd += ["--expanded", f"{k}={f}"]
        for d in sorted(drops):
            cmd += ["--drop", d]
        rc, o, e = run(cmd)
        if rc != 0:
            res["frontend"] = "extraction failed: " + e[-2000:]
            return res
        fmap = json.load(open(mp))
        cmd = ["verus", "out.rs", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--num-threads", "4", "--multiple-errors", "6"] + seed_opt
        for m in modules:
            cmd += ["--verify-only-module", m] if m != "root" else ["--verify-root"]
        rc, o, e = run(cmd, cwd=wd, timeout=800)
        try:
            js = json.loads(o[o.index("{"):])
        except Exception:
            js = None
        vr = (js or {}).get("verification-results") or {}
        open(os.path.join(wd, "verus.err"), "w").write(e)
        if not js or vr.get("encountered-vir-error") or "verified" not in vr or not (js.get("times-ms") or {}).get("smt") or re.search(r"^error\[E\d+\]", e, re.M):
            # the front end rejected something: which extracted functions?
            fe = "\n".join(b for b in re.split(r"\n(?=error|note|warning)", e) if b.startswith("error[E")) or e
            lines = [int(x) for x in re.findall(r"--> out\.rs:(\d+)", fe)]
            # the verifier's own diagnostics name further places of the same kind in the margin
            for b in re.split(r"\n(?=error|note|warning)", fe):
                if b.startswith("error:") and "not supported" in b:
                    lines += [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", b, re.M)]
            hit = {f["id"] for f in fmap for l in lines if f["out_lines"][0] <= l <= f["out_lines"][1]}
            new = hit - drops - {f["id"] for f in fmap if f["status"].startswith("error")}
            if os.environ.get("VERBOSE"):
                log(tag, "front end:", e[-4000:])
            if new and tries < 14:
                for n in new:
                    notes.append((n, "not accepted by the verifier's front end"))
                drops |= new
                continue
            res["frontend"] = "verifier front end rejected the extraction: " + "\n".join(l for l in e.splitlines() if l.startswith("error"))[:1500]
            return res
        break
    mods = js["times-ms"]["smt"].get("smt-run-module-times") or []
    funcs = {}
    for m in mods:
        for f in m.get("function-breakdown") or []:
            n = f["function"]
            ok = f.get("success", False)
            funcs[n] = funcs.get(n, True) and ok
    ok_n = sum(funcs.values())
    res["functions"] = len(funcs)
    res["discharged"] = ok_n
    res["verified"] = vr.get("verified", 0)
    res["errors"] = vr.get("errors", 0)
    res["smt_ms"] = js["times-ms"]["smt"].get("total", 0)
    res["verus_ms"] = js["times-ms"].get("total", 0)
    # diagnostics by extracted function
    blocks = re.split(r"\n(?=error|note|warning)", e)
    rl = set()
    for b in blocks:
        if not b.startswith("error"):
            continue
        ls = [int(x) for x in re.findall(r"(?:-->|:::) out\.rs:(\d+)", b)]
        gut = [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", b, re.M)]
        ids = [f["id"] for l in ls + gut for f in fmap if f["out_lines"][0] <= l <= f["out_lines"][1]]
        if not ls:
            continue
        where = ids[0] if ids else f"{out_fn(out, ls[0])}"
        if "esource limit" in b or "rlimit" in b or "took longer" in b:
            rl.add(where)
        res["msgs"].setdefault(where, []).append(b[:1800])
    failed = set(res["msgs"]) - rl
    if vr.get("errors", 0) and not res["msgs"]:
        failed.add("?")
    # a function whose loops were rewritten, or that had a helper extracted, no longer carries the annotations
    # its proof was written for: a failure there is not evidence against the code, the function is undecided
    soft = {f["id"] for f in fmap if f["loops_changed"] or f["inlined"]}
    res["soft"] = sorted(failed & soft)
    res["inlined"] = {f["id"]: f["inlined"] for f in fmap if f["inlined"]}
    res["failed"] = sorted(failed - soft)
    res["undecided"] = sorted(rl)
    res["lost"] = [dict(id=f["id"], why=f["status"]) for f in fmap if f["status"].startswith("error")] + [dict(id=n, why=w) for n, w in notes]
    txt = open(out).read()
    at = module_of_lines(txt)
    if probe:
        # an `assert(false)` sits in every function: each one the verifier accepts is unreachable under its contract
        marks = {i + 1 for i, l in enumerate(txt.splitlines()) if "// vx-probe" in l and at[i] in modules}
        bad = {int(x) for x in re.findall(r"-->\s*out\.rs:(\d+)", e)}
        res["probes"] = len(marks)
        res["unreachable"] = sorted(f["id"] for f in fmap for l in marks - bad if f["out_lines"][0] <= l <= f["out_lines"][1])
        return res
    res["contracts"] = [f["id"] for f in fmap if f["status"] == "ok" and at[f["out_lines"][0] - 1] in modules]
    res["map"] = {f["id"]: dict(file=f["file"], path=f["path"], src_lines=f["src_lines"], hash=f["hash"]) for f in fmap}
    specs = re.findall(r"assume_specification(?:<[^\[]*>)?\s*\[\s*(.+?)\s*\]\s*\(", txt)
    rest = re.sub(r"//.*|assume_specification.*", "", txt)
    used = [x for x in specs if re.search(r"\b%s\s*(?:::<[^(]*>)?\(" % re.escape(x.split("::")[-1]), rest)]
    res["assumed"] = sorted(set(re.findall(r"external_body\]\s*(?:pub )?(?:const )?(?:proof )?fn (\w+)", txt)) | {"spec of " + x for x in used})
    body = re.sub(r"//.*", "", txt)
    res["assume_count"] = len(re.findall(r"\bassume\s*\(|\badmit\s*\(", body)) - len(drops) - sum(f["status"].startswith("error") for f in fmap)
    return res


def module_of_lines(txt):
    """the top-level module each line of the generated file lies in"""
    at, depth, depth0, cur = [], 0, 0, "root"
    for l in txt.splitlines():
        m = re.match(r"(?:pub )?mod (\w+) \{", l)
        if m and cur == "root":
            cur, depth0 = m.group(1), depth
        at.append(cur)
        c = re.sub(r"//.*|'[{}]'|\"[^\"]*\"", "", l)
        depth += c.count("{") - c.count("}")
        if cur != "root" and depth <= depth0:
            cur = "root"
    return at


def out_fn(path, line):
    """name of the lemma/function around a line of the generated file"""
    ls = open(path).read().splitlines()
    for i in range(min(line, len(ls)) - 1, -1, -1):
        m = re.search(r"\bfn (\w+)", ls[i])
        if m:
            return "lemma " + m.group(1)
    return "?"


# ------------------------------------------------------------------ main
def prepare():
    h = src_hash()
    for m in ("dbg", "rel"):
        t = os.path.join(V, "native", "target", m)
        if os.path.isdir(t):
            open(os.path.join(t, "src-hash"), "w").write(h)
    need = set()
    for cfg in PROPS.values():
        for t, *_ in cfg.get("verus", []):
            need |= template_crates(t)
    for c in sorted(need):
        expand(c, h)


def main():
    if sys.argv[1] == "--prepare":
        prepare()
        return
    pid = sys.argv[1]
    tier = (sys.argv[2:] or [os.environ.get("VERIF_TIER") or "quick"])[0]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    cfg = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    h = src_hash()
    secs = 4 if tier == "quick" else 90
    ex = cf.ThreadPoolExecutor(8)
    f_nat = ex.submit(native, pid, tier, seed, h, secs) if cfg.get("native", True) else None
    vres, errors = [], []
    try:
        vx = ensure_vx() if cfg.get("verus") else None
        exp = {}
        need = set()
        for t, *_ in cfg.get("verus", []):
            need |= template_crates(t)
        for c in sorted(need):
            exp[c] = expand(c, h)
        jobs = []
        pool = cf.ThreadPoolExecutor(4)
        for ent in cfg.get("verus", []):
            t, mods, confs = ent[:3]
            if tier == "thorough" and len(ent) > 3:
                confs = ent[3]
            for limb, dbg, *defs in confs:
                jobs.append(pool.submit(verus_job, pid, vx, exp, t, mods, limb, dbg, 30 if tier == "quick" else 120, defs))
        probes = []
        if tier == "thorough":
            for ent in cfg.get("verus", []):
                limb, dbg, *defs = ent[2][0]
                probes += [pool.submit(verus_job, pid, vx, exp, ent[0], ent[1], limb, dbg, 30, defs, pr) for pr in ("entry", "exit")]
        vres = [j.result() for j in jobs]
        cfg["probes"] = [dict(config=r["tag"], functions=r.get("probes"), unreachable=r.get("unreachable"), frontend=r["frontend"]) for r in (j.result() for j in probes)]
        for r in cfg["probes"]:
            if r["unreachable"]:
                log("NOTE: not reachable under its contract:", r["config"], r["unreachable"])
    except RuntimeError as x:
        errors.append(str(x))
    nat = f_nat.result() if f_nat else {}
    for m, r in nat.items():
        if r.get("error"):
            errors.append(f"native {m}: {r['error']}")

    # an obligation failed and the quick search has no failing input: search longer for one; less long when a function
    # is undecided and the native run alone judges it
    hard = any(r["failed"] for r in vres)
    weak = any(r["soft"] or r["undecided"] or r["lost"] or r["frontend"] for r in vres)
    if tier == "quick" and nat and not any(r.get("fails") for r in nat.values()) and (hard or weak):
        for base, secs in ((101, 40), (202, 40)) if hard else ((101, 25),):
            with cf.ThreadPoolExecutor(3) as ex:
                more = list(ex.map(lambda k: native(pid, "thorough", seed + base + k, h, secs), range(3)))
            found = [n2 for n2 in more if any(r.get("fails") for r in n2.values())]
            if found:
                nat = found[0]
                break

    # ---- verdict
    viol = []
    nat_fails = [dict(mode=m, cmd=r.get("cmd"), **f) for m, r in nat.items() for f in r.get("fails", [])]
    proof_fails = []
    for r in vres:
        for fid in r["failed"]:
            proof_fails.append(dict(config=r["tag"], function=fid, source=r.get("map", {}).get(fid), verifier_output=r["msgs"].get(fid, [])[:3]))
    undecided = [f"{r['tag']}: {x} (loops or helpers rewritten, annotations no longer fit)" for r in vres for x in r["soft"]] + [f"{r['tag']}: {x}" for r in vres for x in r["undecided"]] + [f"{r['tag']}: {x['id']} ({x['why']})" for r in vres for x in r["lost"]] + [f"{r['tag']}: {r['frontend']}" for r in vres if r["frontend"]]
    replay = os.path.join(EVID, f"replay_{pid}.json")
    if nat_fails or proof_fails:
        json.dump(dict(property=pid, seed=seed, tier=tier, failing_inputs=nat_fails, failed_obligations=proof_fails,
                       how_to_replay="each failing_inputs entry is one call on the crates built from /repo; run its cmd to see it again"), open(replay, "w"), indent=1)
    elif os.path.exists(replay):
        os.remove(replay)
    violated = bool(nat_fails or proof_fails)
    concrete = bool(nat_fails)
    write_evidence(pid, tier, seed, cfg, vres, nat, undecided, errors, violated, nat_fails, proof_fails)
    if os.environ.get("VERBOSE"):
        for r in vres:
            log(r["tag"], "functions", r["functions"], "discharged", r["discharged"], "failed", r["failed"], "undecided", r["undecided"], "lost", r["lost"], r["frontend"] or "", "smt_ms", r["smt_ms"])
            for k, v in r["msgs"].items():
                for b in v[:2]:
                    log("   ", k, b)
    for u in undecided[:20]:
        log("UNDECIDED (bounded stand-in only this run):", u[:300])
    if violated:
        for f in nat_fails[:3]:
            log(f"  failing input [{f['mode']}] {f['op']}: {f['input'][:300]} want {f['want'][:200]} got {f['got'][:200]}")
        for f in proof_fails[:5]:
            log(f"  failed obligation [{f['config']}] {f['function']}")
        log(f"VIOLATION property={pid} replay={replay}" + ("" if concrete else " no-failing-input-found"))
        sys.exit(1)
    if errors:
        for x in errors:
            log("ERROR", x[:3000])
        sys.exit(2)
    total = sum(r["functions"] for r in vres)
    if cfg.get("verus") and all(r["functions"] == 0 and not r["frontend"] for r in vres):
        log("ERROR no obligations were generated")
        sys.exit(2)
    log(f"OK property={pid} obligations={total} native_cases={sum(r.get('cases', 0) for r in nat.values())} wall={time.time()-T0:.1f}s")
    sys.exit(0)


def template_crates(t):
    """crates whose expanded source a template refers to"""
    seen, todo, crates = set(), [t + ".vrs"], set()
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        s = open(os.path.join(V, "specs", f)).read()
        todo += re.findall(r"^//%include (\S+)", s, re.M)
        crates |= set(re.findall(r"^\s*//@fn \S+ @(\S+)", s, re.M))
    return {c for c in crates if "$" not in c}


def write_evidence(pid, tier, seed, cfg, vres, nat, undecided, errors, violated, nf, pf):
    ob = sum(r["functions"] for r in vres)
    assumed = sorted({a for r in vres for a in r["assumed"]})
    cov = dict(
        obligations=ob,
        discharged=sum(r["discharged"] for r in vres),
        checker_cmd="verus out.rs --output-json --time-expanded (generated by vx from /repo on this run)",
        trusted_base=["Verus 0.2026.09.13 and Z3", "rustc -Zunpretty=expanded (macro expansion)", "vx rewrite rules (DESIGN.md, Extraction)"] + [f"assumed: {a}" for a in assumed],
        verus=[{k: r.get(k) for k in ("tag", "functions", "discharged", "verified", "errors", "smt_ms", "verus_ms", "failed", "undecided", "lost", "frontend", "assume_count")} for r in vres],
        functions_under_contract=sorted({c for r in vres for c in r["contracts"]}),
        bounded_stand_in=dict(note="differential run of the real crates against an independent reference; bounded, never counted as proved", **{m: dict(cases=r.get("cases"), distinct_sampled=r.get("distinct_sampled"), ops=r.get("ops"), samples=(r.get("samples") or [])[:4]) for m, r in nat.items()}),
        vacuity_probes=cfg.get("probes") or "thorough tier: assert(false) placed at the entry and at the end of every function under contract must be refuted",
        undecided_this_run=undecided,
        explanation=cfg.get("note", ""),
    )
    lvl = cfg.get("level", "proof")
    if lvl == "exploration":
        cov["evaluations"] = sum(r.get("cases", 0) for r in nat.values())
        cov["distinct_nontrivial"] = sum(r.get("distinct_sampled", 0) or 0 for r in nat.values())
        cov["rule"] = "edge-weighted random and exhaustive small operands; distinct counted on the rendered subset of cases"
        cov["samples"] = [s for r in nat.values() for s in (r.get("samples") or [])][:8]
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov,
              assumptions=cfg.get("assumptions", []) + ["sequence lengths stay below 2^54 digits (addressable memory)"] + [e[:300] for e in errors],
              wall_s=round(time.time() - T0, 2), violations=len(nf) + len(pf))
    json.dump(ev, open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
