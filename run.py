#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough          decide one property on /repo's working tree
   run.py PROPERTY --replay FILE           re-run one reported violation
Exit 0: held on everything explored (listed known findings aside); 1: violated; 2: the check could not run."""
import concurrent.futures, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
ALL = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
PARTS = {"2026_07_28": 3, "draft": 3, "2025_11_25": 3, "2025_06_18": 3, "2025_03_26": 2, "2024_11_05": 2}
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", HOME=os.environ.get("HOME", "/root"))
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)

# versions each property is decided on (default: all six), and whether it is worth splitting over processes
CONF = json.load(open(os.path.join(HERE, "checks.json")))


def die(msg):
    print("ERROR:", msg, file=sys.stderr)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    for root in ("src", "Cargo.toml"):
        p = os.path.join(REPO, root)
        files = [p] if os.path.isfile(p) else [os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs]
        for f in sorted(files):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def sh(cmd, timeout, cwd, env=ENV):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")


def build(version, thorough, stamp, extra=""):
    """one harness binary, built against /repo's current tree with one schema version"""
    td = os.path.join(TARGET, ("opt_" if thorough else "") + version + extra.replace(",", "_"))
    os.makedirs(td, exist_ok=True)
    sf = os.path.join(td, "source.sha256")
    mc = os.path.join(HERE, "mc")
    old = open(sf).read() if os.path.exists(sf) else ""
    prof = ["--profile", "thorough"] if thorough else []
    if old and old != stamp:
        # cargo sees changes by mtime only; what changed since the last build must be compiled again
        sh(["cargo", "clean", "--offline", "-p", "rust-mcp-schema", "--target-dir", td] + prof, 120, mc)
    r = sh(["cargo", "build", "--offline", "-q", "--features", "v" + version + ("," + extra if extra else ""), "--target-dir", td] + prof, 800, mc)
    if r.returncode != 0:
        raise RuntimeError(f"harness for {version} does not build:\n{r.stdout[-6000:]}")
    open(sf, "w").write(stamp)
    return os.path.join(td, "thorough" if thorough else "debug", "mc")


def explore(binary, prop, tier, version, part, parts, only=None):
    out = os.path.join(TARGET, f"out_{prop}_{version}_{part}.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [binary, prop, tier, out, "--part", str(part), str(parts)]
    if only:
        cmd += ["--only", only]
    dead = None
    try:
        r = sh(cmd, 14400 if tier == "thorough" else 500, HERE)
        if r.returncode < 0 and r.returncode not in (-9, -15):
            dead = f"the process died with signal {-r.returncode}: {r.stdout[-300:]}"
    except subprocess.TimeoutExpired:
        dead = "no end after the time limit; a whole exploration takes seconds"
    if dead:
        # the code under test ended or hung the process (a stack overflow, an abort, a loop without end)
        at = open(out + ".at").read() if os.path.exists(out + ".at") else ""
        return version, {"states": 1, "transitions": 1, "replays": 1, "outcomes": {}, "bounds": {}, "samples": [], "capped": True, "digests": {},
                         "violations": [{"key": "the code under test does not return", "count": 1, "case": {"last case": at}, "detail": dead}]}
    if r.returncode != 0 or not os.path.exists(out):
        raise RuntimeError(f"exploration of {prop} on {version} failed ({r.returncode}): {r.stdout[-3000:]}")
    return version, json.load(open(out))


def known(prop):
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    return [k for k in kf["findings"] if k["property"] == prop]


def merge(reports):
    """per version sums; violations keyed by (version, key)"""
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True}
    outcomes, bounds, per, viols, digests = {}, {}, {}, {}, {}
    for v, r in reports:
        cov["states"] += r["states"]
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["replays"]
        p = per.setdefault(v, {"states": 0, "transitions": 0, "replays": 0})
        for k in p:
            p[k] += r[k]
        for src, dst in ((r["outcomes"], outcomes), (r["bounds"], bounds)):
            for k, n in src.items():
                dst[k] = dst.get(k, 0) + n
        if r["samples"] and len(cov["samples"]) < 6:
            s = r["samples"][0]
            t = json.dumps(s)
            cov["samples"].append({"version": v, "case": s if len(t) < 1500 else t[:1500]})
        if r["capped"]:
            cov["exhaustive"] = False
        for x in r["violations"]:
            k = (v, x["key"])
            if k in viols:
                viols[k]["count"] += x["count"]
            else:
                viols[k] = dict(x, version=v)
        for k, d in r.get("digests", {}).items():
            digests.setdefault(k, {})[v] = d
    cov.update(per_version=per, outcomes=dict(sorted(outcomes.items())), bounds=dict(sorted(bounds.items())))
    return cov, viols, digests


def setup():
    """compiles everything once; every check builds again what changed"""
    stamp = tree_hash()
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda v: build(v, False, stamp), sorted(ALL, key=lambda v: -PARTS.get(v, 1))))
    except (RuntimeError, subprocess.TimeoutExpired) as e:
        die(str(e))
    return 0


def main():
    if sys.argv[1:] == ["setup"]:
        os.makedirs(TARGET, exist_ok=True)
        return setup()
    if len(sys.argv) < 3:
        die(__doc__)
    prop = sys.argv[1]
    if prop not in CONF:
        die(f"unknown property {prop}")
    conf = CONF[prop]
    t0 = time.time()
    os.makedirs(TARGET, exist_ok=True)
    only = None
    if sys.argv[2] == "--replay":
        case = json.load(open(sys.argv[3]))
        tier, versions, only = case["tier"], case["versions"], case["key"]
    else:
        tier, versions = sys.argv[2], conf.get("versions", ALL)
    thorough = tier == "thorough"
    if conf.get("driver") == "combos":
        import combos
        try:
            cov, viols = combos.run(REPO, TARGET, ENV, sh, thorough, HERE, build, explore, tree_hash())
        except (RuntimeError, subprocess.TimeoutExpired) as e:
            die(str(e))
    else:
        stamp = tree_hash()
        try:
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                # the slow ones first
                order = sorted(versions, key=lambda v: -PARTS.get(v, 1))
                bins = dict(zip(order, ex.map(lambda v: build(v, thorough, stamp), order)))
                jobs = []
                for v in order:
                    n = PARTS.get(v, 1) if conf.get("split", False) else 1
                    if thorough and conf.get("split", False):
                        n = n * 3
                    jobs += [ex.submit(explore, bins[v], prop, tier, v, i, n, only) for i in range(n)]
                # what the other checks see of the versions that are to be alike
                also = {}
                if conf.get("compare") and not (only and only[:1] != "C"):
                    for c in conf["also"][tier]:
                        if not only or only.startswith(c + ": "):
                            n = 3 if CONF[c].get("split") else 1
                            also[c] = {v: [ex.submit(explore, bins[v], c, tier if c in conf["also"]["quick"] else "quick", v, i, n) for i in range(n)] for v in conf["compare"]}
                reports = [j.result() for j in jobs]
                also = {c: {v: [j.result()[1] for j in js] for v, js in d.items()} for c, d in also.items()}
        except (RuntimeError, subprocess.TimeoutExpired) as e:
            die(str(e))
        cov, viols, digests = merge(reports)
        if conf.get("compare"):
            a, b = conf["compare"]
            for k, d in sorted(digests.items()):
                if a in d and b in d:
                    cov["transitions"] += 1
                    if d[a] != d[b]:
                        # the first few in detail
                        x, y = ([d[a]], [d[b]]) if len(viols) > 4 else (json.loads(r["digests"][k]) if (r := explore(bins[v], prop, tier, v, 0, 1, k)[1])["digests"].get(k, "").startswith("[") else [d[v]]
                                for v in (a, b))
                        first = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                        case = {v: l[first] if first < len(l) else None for v, l in ((a, x), (b, y))}
                        viols[(a + "~" + b, k)] = {"key": k, "count": sum(p != q for p, q in zip(x, y)) or 1, "version": a + "~" + b,
                                                  "detail": "the two versions behave differently", "case": case}
                else:
                    viols[(a + "~" + b, k)] = {"key": k, "count": 1, "version": a + "~" + b, "detail": "exists in only one of the two versions", "case": d}
            for c, d in sorted(also.items()):
                seen = {v: {x["key"]: x for r in rs for x in r["violations"]} for v, rs in d.items()}
                ends = {v: {} for v in d}
                for v, rs in d.items():
                    for r in rs:
                        cov["states"] += r["states"]
                        cov["transitions"] += r["transitions"]
                        cov["traces_validated_against_impl"] += r["replays"]
                        for k, n in r["outcomes"].items():
                            ends[v][k] = ends[v].get(k, 0) + n
                for k in sorted(set(seen[a]) ^ set(seen[b])):
                    x = seen[a].get(k) or seen[b][k]
                    viols[(a + "~" + b, f"{c}: {k}")] = dict(x, key=f"{c}: {k}", version=a + "~" + b, detail=f"only in {a if k in seen[a] else b}: {x['detail']}")
                if ends[a] != ends[b] and seen[a].keys() == seen[b].keys():
                    k = sorted(k for k in set(ends[a]) | set(ends[b]) if ends[a].get(k) != ends[b].get(k))
                    viols[(a + "~" + b, f"{c}: outcomes")] = {"key": f"{c}: outcomes", "count": len(k), "version": a + "~" + b, "detail": "the same operations end differently",
                                                             "case": {x: [ends[v].get(x, 0) for v in (a, b)] for x in k[:5]}}
            cov["also_compared"] = {c: sum(r["replays"] for rs in d.values() for r in rs) for c, d in also.items()}
    listed = known(prop)
    findings, fresh = {}, []
    for (v, key), x in sorted(viols.items()):
        k = next((k for k in listed if k["key"] == key and v in k["versions"]), None)
        if k:
            findings[k["what"]] = k
        else:
            fresh.append(x)
    for what in sorted(findings):
        print(f"KNOWN-FINDING: property={prop} {what}")
    cov["known_findings_seen"] = len(findings)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": conf.get("level", "model_checking"),
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
          "assumptions": conf.get("assumptions", [])}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: states={cov['states']} transitions={cov['transitions']} replayed={cov['traces_validated_against_impl']} "
          f"exhaustive={cov['exhaustive']} violations={len(fresh)} in {ev['wall_s']} s")
    if not fresh:
        return 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for i, x in enumerate(fresh[:8]):
        path = os.path.join(HERE, "replays", f"{prop}-{i}.json")
        vs = x["version"].split("~")
        json.dump({"property": prop, "tier": tier, "versions": vs, "key": x["key"], "count": x["count"], "detail": x["detail"], "case": x["case"],
                   "rerun": f"python3 run.py {prop} --replay {path}"}, open(path, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {x['version']}: {x['key'][:300]} ({x['count']} cases): {str(x['detail'])[:300]}")
    if len(fresh) > 8:
        print(f"  and {len(fresh) - 8} more")
    return 1


if __name__ == "__main__":
    sys.exit(main())
