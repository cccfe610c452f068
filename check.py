#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--tier quick|thorough]

Runs the property's Kani harnesses (symbolic execution of the real code of
/repo, decided by CBMC's SAT back end), replays every counterexample natively
and rewrites evidence/<ID>.json.  Exit 0: held; 1: violation; 2: no verdict.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, CRATES, COMMON_ASSUMPTIONS

V = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(V, "target")
REPO = "/repo"
MEM_KB = 14_000_000      # address space of one solver process


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER",
              "CARGO_TARGET_DIR", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUST_BACKTRACE"] = "0"
    return e


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def refresh(tdir, want):
    """Cargo decides staleness by mtime; decide it by content instead."""
    stamp = os.path.join(tdir, ".repo_hash")
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old == want:
        return
    for root, dirs, files in os.walk(tdir):
        for d in list(dirs):
            if re.match(r"(lib)?(measured|core_h|ext_h|proto_h|tokio_h|process_h)", d):
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs.remove(d)
        for f in files:
            if re.match(r"(lib)?(measured|core_h|ext_h|proto_h|tokio_h|process_h)", f):
                try: os.remove(os.path.join(root, f))
                except OSError: pass
    os.makedirs(tdir, exist_ok=True)
    open(stamp, "w").write(want)


def harnesses(crate, pid, tier):
    """[(module, name)] of a property, by naming convention cNN_*."""
    out = []
    src = os.path.join(V, "h", crate, "src")
    for f in sorted(os.listdir(src)):
        if not f.endswith(".rs"): continue
        mod = f[:-3]
        for m in re.finditer(r"fn (%s_\w+)\(\)" % pid.lower(), open(os.path.join(src, f)).read()):
            n = m.group(1)
            if tier == "quick" and n.endswith("_thorough"): continue
            out.append((mod, n))
    return out


def sh(cmd, cwd, timeout, mem=None, e=None):
    pre = "ulimit -v %d; " % mem if mem else ""
    p = subprocess.Popen(["bash", "-c", pre + 'exec "$@"', "x"] + cmd, cwd=cwd, env=e or env(),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True,
                         text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 124, out


def kani(crate, hs, timeout, extra=(), jobs=8, js=None):
    cfg = CRATES[crate]
    cmd = ["cargo", "kani", "--target-dir", os.path.join(TARGET, "kani-" + crate),
           "-Z", "stubbing", "-Z", "unstable-options", "--no-overflow-checks",
           "--no-memory-safety-checks", "--no-assertion-reach-checks",
           "--harness-timeout", str(max(10, int(timeout) - 20)) + "s"] + (["--exact"] if hs else [])
    for m, n in hs:
        cmd += ["--harness", "%s::%s::h" % (m, n)]
    if js: cmd += ["--export-json", js]
    if jobs: cmd += ["-j", str(jobs), "--output-format", "terse"]
    cmd += list(extra)
    if cfg.get("cbmc") and "--only-codegen" not in extra: cmd += ["--cbmc-args"] + cfg["cbmc"]
    e = env()
    e.update(cfg.get("env", {}))
    return cmd, sh(cmd, os.path.join(V, "h", crate), timeout, MEM_KB, e)


def classify(res, covers_expected_never=False):
    fails, unwind, undet, never, unsat = [], [], [], [], []
    for c in res.get("checks", []):
        d, st, cat = c.get("description", ""), c.get("status", ""), c.get("category", "")
        if cat == "cover" or st in ("Satisfied", "Unsatisfiable"):
            if "NEVER: " in d:
                if st == "Satisfied": never.append(c)
                elif st not in ("Unsatisfiable", "Unreachable"): undet.append(c)
            elif st != "Satisfied":
                unsat.append(c)
        elif st == "Failure":
            (unwind if cat == "unwind" or "unwinding assertion" in d else fails).append(c)
        elif st not in ("Success", "Unreachable"):
            undet.append(c)
    return fails, unwind, undet, never, unsat


def replay_build(crate, want):
    outs = []
    tdir = os.path.join(TARGET, "replay-" + crate)
    refresh(tdir, want)
    for prof in ([], ["--release"]):
        e = env(); e["RUSTUP_TOOLCHAIN"] = "1.85.0"
        e.update(CRATES[crate].get("replay_env", {}))
        rc, out = sh(["cargo", "build", "--bins", "--target-dir", tdir] + prof,
                     os.path.join(V, "h", crate, "replay"), 600, None, e)
        if rc: raise RuntimeError("replay build failed:\n" + out[-3000:])
        outs.append(os.path.join(tdir, "release" if prof else "debug", "replay"))
    return outs


def playback(crate, h, unwind, timeout):
    """All counterexamples of one harness as lists of byte strings."""
    extra = ["-Z", "concrete-playback", "--concrete-playback=print"]
    if unwind: extra += ["--unwind", str(unwind)]
    _, (rc, out) = kani(crate, [h], timeout, extra, jobs=None)
    vecs = []
    for blk in re.split(r"Concrete playback unit test", out)[1:]:
        kind = "cover" if "cover" in blk.split("```")[0] else "check"
        body = blk.split("```")[1] if "```" in blk else blk
        if "concrete_vals" not in body: continue
        vals = []
        for line in body.splitlines():
            m = re.match(r"\s*vec!\[([0-9, ]*)\],?\s*$", line)
            if m: vals.append(bytes(int(x) for x in m.group(1).replace(" ", "").split(",") if x).hex())
        vecs.append(vals)
    return vecs, out


def known():
    p = os.path.join(V, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\w+) harness=(\S+)\s*(.*)", l.strip())
            if m: out.append((m.group(1), m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    budget = 840 if tier == "quick" else 3 * 3600
    P = PROPS[pid]
    want = repo_hash()
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rdir = os.path.join(V, "evidence", "replays"); os.makedirs(rdir, exist_ok=True)
    ev_h, violations, problems, cmds, funcs = [], [], [], [], set()
    nchecks = ndis = ncover = ntr = 0
    left = lambda: max(10, budget - (time.time() - t0))
    todo = []
    for crate in P["crates"]:
        hs = harnesses(crate, pid, tier)
        if hs: todo.append((crate, hs))
    if not todo: print("no harness for", pid); return 2
    for crate, hs in todo:
        tdir = os.path.join(TARGET, "kani-" + crate)
        refresh(tdir, want)
        rounds = [(hs, None, P.get("jobs", 8))]
        while rounds:
            batch, uw, jobs = rounds.pop(0)
            js = os.path.join(TARGET, "%s-%d.json" % (pid, os.getpid()))
            if os.path.exists(js): os.remove(js)
            cmd, (rc, out) = kani(crate, batch, left(), ["--unwind", str(uw)] if uw else [], jobs, js)
            cmds.append(" ".join(cmd[:12]) + " ...")
            if not os.path.exists(js):
                print(out[-4000:])
                problems.append("kani produced no result for %s (rc %s)" % (crate, rc))
                break
            d = json.load(open(js)); os.remove(js)
            stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d.get("cbmc", [])}
            results = {r["harness_id"]: r for r in d["verification_results"]["results"]}
            again, alone = [], []
            for h in batch:
                hid = "%s::%s::h" % h
                r = results.get(hid)
                if jobs > 1 and (r is None or not r.get("checks")):
                    alone.append(h); continue      # ran out of memory: once more by itself
                if r is None:
                    problems.append("%s: no result" % hid); continue
                fails, unw, undet, never, unsat = classify(r)
                rejects = "_rejects" in h[1]
                st = stats.get(hid, {})
                checks = r.get("checks", [])
                cov = [c for c in checks if c.get("status") in ("Satisfied", "Unsatisfiable")]
                nchecks += len(checks) - len(cov); ncover += len(cov)
                ndis += sum(1 for c in checks if c.get("status") in ("Success", "Unreachable"))
                for c in checks:
                    f = c.get("function", "")
                    if "measured" in f: funcs.add(re.sub(r"<.*", "", f)[:120] if f.count("<") > 6 else f[:160])
                ev_h.append({"harness": hid, "crate": crate, "status": r["status"],
                             "checks": len(checks) - len(cov), "covers": len(cov), "unwind": uw,
                             "solver_s": round((st.get("runtime_solver_s") or 0), 3),
                             "symex_s": round((st.get("runtime_symex_s") or 0), 3),
                             "ssa_steps": st.get("size_program_expression"),
                             "vccs": st.get("vccs_remaining")})
                real_fails = [] if rejects else fails
                if real_fails or never:
                    violations.append((crate, h, real_fails, never, uw, rejects)); continue
                if unw:
                    again.append(h); continue
                if jobs > 1 and undet and not rejects and not fails:
                    alone.append(h); continue
                if not checks or (undet and not rejects):
                    problems.append("%s: no verdict (%s)" % (hid, (undet or [{}])[0].get("description", r["status"])))
                    continue
                if unsat and not rejects:
                    problems.append("%s: vacuous, witness not reachable: %s" % (hid, unsat[0].get("description")))
                if r["status"] != "Success" and not rejects:
                    problems.append("%s: %s" % (hid, r["status"]))
            if alone: rounds.append((alone, uw, 1))
            if again:
                nu = {None: 12, 12: 24}.get(uw)
                if nu: rounds.append((again, nu, jobs))
                else:
                    for h in again: problems.append("%s::%s: loop bound not sufficient" % h)
    # ---- replay
    confirmed = []
    kn = dict((h, t) for p, h, t in known() if p == pid)
    for crate, h, fails, never, uw, rejects in violations:
        if any(c[0] not in kn for c in confirmed): break   # one is enough
        hid = "%s::%s" % h
        what = (fails or never)[0].get("description", "")
        P_replay = CRATES[crate]
        try:
            bins = replay_build(crate, want)
        except RuntimeError as x:
            print(x); problems.append("replay build failed"); break
        ok = None
        vecs, out = playback(crate, h, uw, left())
        vecs = vecs or [[]]
        for vals in vecs[:12]:
            for b in bins:
                # a counterexample of a concurrent harness is replayed under
                # contention and may need several rounds
                rc, o = sh([b, hid, ",".join(vals)], V, 120)
                ntr += 1
                if rc == (10 if rejects else 11) or rc == 124 or rc < 0 or rc in (134, 139):
                    ok = (vals, b, rc, o); break
            if ok: break
        if ok:
            path = os.path.join(rdir, "%s-%s.json" % (pid, h[1]))
            json.dump({"property": pid, "harness": hid, "inputs": ok[0], "binary": ok[1],
                       "exit": ok[2], "output": ok[3][-2000:],
                       "failed_checks": [c.get("description") for c in (fails or never)][:10],
                       "rerun": "%s %s %s" % (ok[1], hid, ",".join(ok[0]))}, open(path, "w"), indent=1)
            confirmed.append((hid, what, path))
        else:
            problems.append("%s: counterexample (%s) does not reproduce natively" % (hid, what))
    new = []
    for hid, what, path in confirmed:
        if hid in kn: print("KNOWN-FINDING: property=%s %s" % (pid, kn[hid]))
        else: new.append((hid, what, path))
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": P.get("level", "other"), "wall_s": round(wall, 1),
          "coverage": {
              "explanation": "bounded symbolic execution of the compiled Rust code (Kani -> CBMC); every check below was decided by the SAT solver for all values of the symbolic inputs within the bounds",
              "harnesses": ev_h, "bounds": P["bounds"],
              "functions_encoded": sorted(funcs), "entry_points": P.get("functions", []),
              "queries_decided": nchecks, "queries_discharged": ndis,
              "vacuity_witnesses": ncover,
              "solver_s": round(sum(h["solver_s"] for h in ev_h), 2),
              "symex_s": round(sum(h["symex_s"] for h in ev_h), 2),
              "native_replays": ntr, "outside_bounds": P.get("outside", ""),
              "commands": cmds, "problems": problems},
          "assumptions": COMMON_ASSUMPTIONS + P.get("assumptions", []),
          "violations": len(new)}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for hid, what, path in new:
        print("counterexample in %s: %s" % (hid, what))
    for p in problems: print("PROBLEM:", p)
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, new[0][2]))
        return 1
    if problems: return 2
    print("OK property=%s harnesses=%d checks=%d solver=%.1fs wall=%.1fs" %
          (pid, len(ev_h), nchecks, ev["coverage"]["solver_s"], wall))
    return 0


def setup():
    want = repo_hash()

    def one(crate):
        refresh(os.path.join(TARGET, "kani-" + crate), want)
        _, (rc, out) = kani(crate, [], 1500, ["--only-codegen"], jobs=None)
        print(crate, "kani build", rc)
        if rc:
            print(out[-3000:])
            return 1
        replay_build(crate, want)
        print(crate, "replay build 0")
        return 0
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        return max(ex.map(one, CRATES))


if __name__ == "__main__":
    sys.exit(setup() if sys.argv[1:] == ["--setup"] else main())
