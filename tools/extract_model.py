#!/usr/bin/env python3
"""One-off: lift the JSON schema that the upstream MCP specification attaches to every type (kept by the
generator in the doc comment of that type) plus the Rust shape of the type into model/<version>.json.
The result is committed and is the reference model; no check runs this script."""
import json, re, sys, os
SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/src/generated_schema"
OUT = sys.argv[2] if len(sys.argv) > 2 else "/verif/model"
for v in ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]:
    lines = open(f"{SRC}/{v}/mcp_schema.rs").read().split("\n")
    types = {}
    i = 0
    schema = None
    while i < len(lines):
        l = lines[i]
        if l.strip() == "/// ```json" and not l.startswith(" "):
            j = i + 1
            buf = []
            while lines[j].strip() != "/// ```":
                buf.append(re.sub(r"^///", "", lines[j])); j += 1
            try:
                schema = json.loads("\n".join(buf))
            except Exception as e:
                print(v, "bad json at", i, e); schema = None
            i = j
        m = re.match(r"pub (struct|enum) (\w+)", l)
        if m:
            types[m.group(2)] = {"kind": m.group(1), "schema": schema, "line": i + 1}
            schema = None
        i += 1
    def strip(s):
        if isinstance(s, dict):
            return {k: strip(x) for k, x in s.items() if k != "description" or not isinstance(x, str)}
        if isinstance(s, list):
            return [strip(x) for x in s]
        return s
    for t in types.values():
        t["schema"] = strip(t["schema"]); del t["line"]
    json.dump(types, open(f"{OUT}/{v}.json", "w"), indent=1, sort_keys=True)
    print(v, len(types), sum(1 for t in types.values() if t["schema"] is None))
    refs=set(re.findall(r'"\$ref": "#/(?:\$defs|definitions)/(\w+)"', json.dumps(types)))
    print("  refs without rust type:", sorted(r for r in refs if r not in types))
