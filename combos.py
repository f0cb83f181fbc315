"""C26: every documented combination of cargo features is built against a probe that states what must be visible, and
every version is observed alone and together with the others."""
import concurrent.futures, itertools, json, os, re, shutil, subprocess

OLD = ["2024_11_05", "2025_03_26", "2025_06_18"]
ROOT = ["2025_11_25", "2026_07_28", "draft"]
NAME = {v: v.replace("_", "-") for v in OLD + ROOT}


def spec(repo, v):
    """the version name each module must report: its own; the draft has a working name of its own"""
    return NAME[v]


def probe(versions, utils, root):
    src = ["#![allow(dead_code, unused_imports)]",
           "const fn eq(a: &str, b: &str) -> bool { let (a, b) = (a.as_bytes(), b.as_bytes()); if a.len() != b.len() { return false; }",
           "  let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }",
           "fn versions() -> Vec<rust_mcp_schema::ProtocolVersion> { rust_mcp_schema::ProtocolVersion::supported_versions(true) }"]
    for v in versions:
        m = "rust_mcp_schema::mcp_" + v
        if v != "draft":
            src.append(f'const _: () = assert!(eq({m}::LATEST_PROTOCOL_VERSION, "{NAME[v]}"), "{m} reports another version");')
        src.append(f'const _: () = assert!(eq({m}::JSONRPC_VERSION, "2.0"), "{m} has another JSON-RPC version");')
        src.append(f"fn t_{v}() where {m}::RequestId: serde::Serialize + serde::de::DeserializeOwned + Clone, {m}::CallToolResult: serde::Serialize + serde::de::DeserializeOwned {{}}")
        if utils:
            u = m + "::schema_utils"
            src.append(f"fn u_{v}(m: {u}::ClientMessage) -> ({u}::ClientMessages, Option<{u}::ServerMessage>) where {u}::SdkError: std::error::Error {{ ({u}::ClientMessages::from(m), None) }}")
            src.append(f"fn v_{v}(m: {u}::ServerMessage) -> {m}::RpcError {{ use {u}::RpcMessage; let _ = m.jsonrpc(); {m}::RpcError::internal_error() }}")
    if root:
        m = "rust_mcp_schema::mcp_" + root
        src.append(f"fn r(x: rust_mcp_schema::RequestId) -> {m}::RequestId {{ x }}")
        src.append(f"const _: () = assert!(eq(rust_mcp_schema::LATEST_PROTOCOL_VERSION, {m}::LATEST_PROTOCOL_VERSION));")
        if utils:
            src.append(f"fn ru(x: rust_mcp_schema::schema_utils::ClientMessage) -> {m}::schema_utils::ClientMessage {{ x }}")
    # types of different versions are different types
    for a, b in itertools.combinations(versions, 2):
        src.append(f"mod d_{a}_{b} {{ trait T {{}} impl T for rust_mcp_schema::mcp_{a}::Tool {{}} impl T for rust_mcp_schema::mcp_{b}::Tool {{}} }}")
    return "\n".join(src) + "\n"


def configs():
    out = []
    for n in range(len(OLD) + 1):
        for olds in itertools.combinations(OLD, n):
            for root in [None] + ROOT:
                for utils in (True, False):
                    feats = list(olds) + ([root] if root else []) + (["schema_utils"] if utils else [])
                    out.append((list(olds) + ([root] if root else []), utils, root, feats, False))
    out.append((["2026_07_28"], True, "2026_07_28", None, True))
    out.append((["2026_07_28"], False, "2026_07_28", ["latest"], False))
    out.append((["2025_06_18", "2026_07_28"], True, "2026_07_28", ["2025_06_18"], True))
    return out


def check(repo, target, env, sh, here, work, cfg):
    versions, utils, root, feats, default = cfg
    d = os.path.join(target, "combos", f"w{work}")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    shutil.copy(os.path.join(here, "mc", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(f'[package]\nname = "probe"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
                f'rust-mcp-schema = {{ path = "{repo}", default-features = {str(default).lower()}, features = {json.dumps(feats or [])} }}\n'
                f'serde = {{ version = "1.0", features = ["derive"] }}\n')
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write(probe(versions, utils, root))
    name = ("default " if default else "") + "+".join(feats or []) or "no features"
    r = sh(["cargo", "check", "--offline", "-q", "--target-dir", os.path.join(d, "target")], 600, d, dict(env, RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="0"))
    if r.returncode == 0:
        return name, None
    if r.returncode < 0 or re.search(r"no matching package|failed to (load|select|read|get)|couldn't read|No space left|Blocking", r.stdout):
        raise RuntimeError(f"probe for {name} cannot be built: {r.stdout[-1500:]}")
    errs = [l for l in r.stdout.splitlines() if l.startswith("error")]
    where = [l.strip() for l in r.stdout.splitlines() if l.strip().startswith("-->")]
    return name, (errs[:3] + where[:2])


def run(repo, target, env, sh, thorough, here, build, explore, stamp):
    todo = configs()
    cov = {"states": len(todo), "transitions": len(todo), "traces_validated_against_impl": 0, "samples": [{"features": c[3]} for c in todo[::17]],
           "exhaustive": True, "bounds": {"feature combinations": len(todo)}, "outcomes": {}}
    viols = {}

    def lane(i):
        return [check(repo, target, env, sh, here, i, c) for c in todo[i::8]]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for part in ex.map(lane, range(8)):
            for name, bad in part:
                cov["traces_validated_against_impl"] += 1
                k = "builds and shows what it must" if bad is None else "refused"
                cov["outcomes"][k] = cov["outcomes"].get(k, 0) + 1
                if bad is not None:
                    key = f"features {name}"
                    viols[("all", key)] = {"key": key, "count": 1, "version": "all", "detail": "; ".join(bad), "case": {"features": name}}
    shutil.rmtree(os.path.join(target, "combos"), ignore_errors=True)
    if viols:
        return cov, viols
    # each version alone and with every version it may be combined with: with the helpers, everything observable
    versions = ROOT + OLD
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        more = {v: ["together"] if v in ROOT else ["together," + w for w in (NEWER if thorough else NEWER[:1])] for v in versions}
        jobs = {(v, x): ex.submit(build, v, False, stamp, x) for v in versions for x in [""] + more[v]}
        slims = {f: ex.submit(slim, repo, target, env, sh, here, i, *f) for i, f in enumerate(slim_configs())}
        bins = {k: j.result() for k, j in jobs.items()}
        obs = {(k, i): ex.submit(explore, b, "C25", "quick" if thorough else "brief", k[0] + str((["", *more[k[0]]]).index(k[1])), i, 2)
               for k, b in bins.items() for i in range(2)}
        obs = {k: j.result()[1] for k, j in obs.items()}
        slims = {k: j.result() for k, j in slims.items()}
    for v in versions:
        for x, i in itertools.product(more[v], range(2)):
            a, b = obs[((v, ""), i)], obs[((v, x), i)]
            cov["states"] += a["states"]
            cov["transitions"] += a["transitions"]
            cov["traces_validated_against_impl"] += a["replays"] + b["replays"]
            k = "observed alone and together"
            cov["outcomes"][k] = cov["outcomes"].get(k, 0) + a["replays"]
            for r in (a, b):
                for w in r["violations"]:
                    viols[(v, w["key"])] = dict(w, version=v)
            for k, d in a["digests"].items():
                if b["digests"].get(k) != d:
                    key = f"{v}: {k} depends on other versions being enabled"
                    viols[(v, key)] = {"key": key, "count": 1, "version": v, "detail": f"another outcome with the features {x} too", "case": {"operation": k}}
    # and the reading and writing of every published type, with and without the helpers
    first = {}
    for (vs, utils), seen in slims.items():
        name = "+".join(vs) + (" with" if utils else " without") + " schema_utils"
        if seen is None:
            key = f"features {name}: observing does not end well"
            viols[("all", key)] = {"key": key, "count": 1, "version": "all", "detail": "the process died", "case": {"features": name}}
            continue
        for k, d in seen.items():
            cov["transitions"] += d[1]
            cov["traces_validated_against_impl"] += d[1]
            cov["outcomes"]["read with and without schema_utils"] = cov["outcomes"].get("read with and without schema_utils", 0) + d[1]
            other, was = first.setdefault(k, (name, d))
            if other == name:
                cov["states"] += d[1]
            if was != d:
                key = f"{k} depends on the features enabled"
                viols[("all", key)] = {"key": key, "count": 1, "version": k.split(":")[0], "detail": f"{name}: another outcome than {other}", "case": {"operation": k}}
    cov["bounds"]["feature sets observed"] = sum(1 + len(m) for m in more.values()) + len(slims)
    return cov, viols


NEWER = ["newest", "newest_before", "newest_draft"]


def slim_configs():
    out = [((v,), False) for v in ROOT + OLD]
    return out + [(tuple(OLD + [r]), u) for r in ROOT for u in (True, False)]


def slim(repo, target, env, sh, here, lane, versions, utils):
    """what reading every published type gives with these features; None when the process dies"""
    d = os.path.join(here, "mc", "slim")
    t = os.path.join(target, "slim", f"s{lane}")
    os.makedirs(t, exist_ok=True)
    feats = ",".join(["v" + v for v in versions] + (["utils"] if utils else []))
    try:
        r = sh(["cargo", "build", "--offline", "-q", "--features", feats, "--target-dir", t], 800, d, dict(env, RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="0"))
        if r.returncode != 0:
            raise RuntimeError(f"the reader for {feats} does not build:\n{r.stdout[-3000:]}")
        out = os.path.join(t, "out.json")
        r = sh([os.path.join(t, "debug", "slim"), out], 500, d, env)
        if r.returncode < 0 and r.returncode not in (-9, -15):
            return None
        if r.returncode != 0:
            raise RuntimeError(f"the reader for {feats} failed ({r.returncode}): {r.stdout[-1000:]}")
        return json.load(open(out))
    finally:
        shutil.rmtree(t, ignore_errors=True)
