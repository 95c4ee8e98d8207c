"""Which families, clauses and amounts decide each property."""
import json
import random

import run
from run import log, Violation, ToolError
import families
import macro

COMMON_FAMILY = ["total", "doors", "same_value", "verdict", "serde_verdict", "value", "error", "emit", "roundtrip", "extra", "ser", "ser_back", "wrapper"]

open_port = lambda c: c["port"] == "Allow"
free = lambda c: c["local"] == "Allow" or c["altl"] == "Allow" and c.get("ipv4", "Allow") == "Allow"
EVERY = {f: 500 for f in families.BUILDERS}

CHECKS = {
    "C01": {"fams": EVERY, "lite": 24, "cap": 4000, "clauses": ["doors", "same_value", "serde_in", "serde_only"]},
    "C02": {"fams": EVERY, "lite": 24, "cap": 4000, "clauses": ["total"], "twice": True},
    "C03": {"fams": {f: 500 for f in ("ip", "ipv4", "ipv6", "host", "domain", "email", "mac_address", "uuid", "url", "http_url", "http_ftp_url", "json", "semver", "semver_req")}, "lite": 60, "clauses": ["emit", "roundtrip", "extra"]},
    "C04": {"fams": EVERY, "lite": 24, "cap": 4000, "clauses": ["ser", "ser_back", "serde_in", "serde_only"]},
    "C05": {"fams": EVERY, "lite": 24, "cap": 4000, "clauses": ["wrapper"]},
    "C07": {"fams": EVERY, "lite": 24, "cap": 4000, "clauses": ["error"]},
    "C08": {"fams": {"ip": 800, "ipv4": 500, "ipv6": 800, "host": 1500, "domain": 1500, "email": 800, "http_url": 800, "http_ftp_url": 500}, "clauses": ["verdict", "value", "error", "doors"],
            "only": {"ip": open_port, "ipv4": open_port, "ipv6": open_port, "host": open_port, "domain": open_port,
                     "email": lambda c: c["comment"] == c["non_ascii"] == "Allow"}},
    "C09": {"fams": {"ip": 1500, "ipv4": 1500, "ipv6": 1500, "host": 2000, "domain": 2000}, "clauses": COMMON_FAMILY,
            "only": {"host": free, "domain": free}},
    "C10": {"fams": {"ip": 1500, "ipv4": 1500, "ipv6": 1500}, "clauses": COMMON_FAMILY},
    "C11": {"fams": {"host": 4000}, "clauses": COMMON_FAMILY},
    "C12": {"fams": {"domain": 3000}, "clauses": COMMON_FAMILY},
    "C13": {"fams": {"email": 3000}, "clauses": COMMON_FAMILY,
            "only": {"email": lambda c: c["local"] == "Allow" and c["altl"] == "Allow" or c["comment"] == c["ip"] == "Disallow" or c["local"] == c["altl"] == "Must"}},
    "C14": {"fams": {"email": 3000}, "clauses": COMMON_FAMILY, "only": {"email": lambda c: c["non_ascii"] == "Allow"}},
    "C15": {"fams": {"http_url": 1500, "http_ftp_url": 1500}, "clauses": COMMON_FAMILY},
    "C16": {"fams": {"base32": 1500, "base64": 1500, "base64_url": 1500}, "clauses": COMMON_FAMILY},
    "C17": {"fams": {"base32_decoded": 1500, "base64_decoded": 1500, "base64_url_decoded": 1500}, "clauses": [c for c in COMMON_FAMILY if c != "ser_back"]},
    "C18": {"fams": {"mac_address": 4000}, "clauses": COMMON_FAMILY},
    "C19": {"fams": {"uuid": 4000}, "clauses": COMMON_FAMILY},
    "C20": {"fams": {"signed_integer": 400, "unsigned_integer": 400}, "clauses": COMMON_FAMILY},
    "C21": {"fams": {"number": 800}, "clauses": COMMON_FAMILY},
    "C22": {"fams": {"text": 1500, "line": 1500}, "clauses": COMMON_FAMILY},
    "C23": {"fams": {"length": 300}, "clauses": COMMON_FAMILY},
    "C24": {"fams": {"boolean": 1000}, "clauses": COMMON_FAMILY},
    "C25": {"fams": {"byte": 1200, "bit": 1200}, "clauses": COMMON_FAMILY},
    "C26": {"fams": {"json": 2500}, "clauses": [c for c in COMMON_FAMILY if c != "ser_back"]},
    "C27": {"fams": {"phone": 3000}, "clauses": [c for c in COMMON_FAMILY if c not in ("ser_back", "ser")]},
    "C06": {"fams": {"ip": 800, "ipv4": 500, "ipv6": 500, "host": 1500, "domain": 1500, "email": 1500, "mac_address": 1500, "uuid": 1500, "http_url": 800, "http_ftp_url": 800, "base32": 800, "base32_decoded": 800,
                     "base64": 800, "base64_decoded": 800, "base64_url": 800, "base64_url_decoded": 800, "number": 400}, "clauses": ["partition", "default"]},
    "C29": {"macro": True, "fams": {f: 60 for f in families.BUILDERS}, "terse": 3, "cap": 1200, "clauses": ["total", "verdict", "value", "error", "serde_verdict", "emit"]},
    "C30": {"fams": {f: 300 for f in families.BUILDERS}, "lite": 12, "cap": 3000, "features": ("rocket", "axum"), "clauses": ["doors", "same_value", "wrapper", "web"]},
    "C28": {"fams": {"regex": 1000, "url": 1500, "semver": 1500, "semver_req": 1500}, "clauses": COMMON_FAMILY},
}






def as_bytes(points):
    """The bytes a typed text stands for: itself where it fits into bytes."""
    return points if all(c < 256 for c in points) else list("".join(map(chr, points)).encode())


def run_trace(pid, spec, tier, seed, work, ev):
    scale = 1 if tier == "quick" else spec.get("thorough", 8)
    fams = [families.BUILDERS[f]() for f in spec["fams"]]
    only = spec.get("only", {})
    fams = [f.only(only[f.name]) if f.name in only else f for f in fams]
    if "lite" in spec:
        fams = [f.lite(spec["lite"]) for f in fams]
    if "terse" in spec:
        fams = [f.terse(spec["terse"]) for f in fams]
    where = run.build(fams, spec.get("key", pid.lower()), spec.get("features", ()))
    plan = {f: n * scale for f, n in spec["fams"].items()}
    inputs, gen_states = run.generate(plan, seed, work)
    kinds = {f.name: f.kinds for f in fams}
    if "cap" in spec and tier == "quick":
        # some of the inputs of every family
        by_fam = {}
        for x in inputs:
            by_fam.setdefault(x["f"], []).append(x)
        inputs = []
        for xs in by_fam.values():
            random.Random(seed).shuffle(xs)
            inputs += xs[:spec["cap"]]
    todo = []
    for x in inputs:
        for k in kinds[x["f"]] if x["k"] == "text" else (x["k"],):
            todo.append({"i": len(todo), "f": x["f"], "k": k, "in": as_bytes(x["in"]) if k == "bytes" else x["in"]})
    log(f"{len(todo)} inputs")
    records, dead = run.observe(where, todo, work, {"VERIF_TWICE": "1"} if spec.get("twice") else None)
    log(f"{len(records)} sessions recorded, {len(dead)} inputs did not come back")
    tables = {f.name: f.table() for f in fams}
    fails, val_states = run.validate(records, tables, spec["clauses"], work)
    log(f"{val_states} trace states, {len(fails)} sessions outside the specification")
    by_id = {}
    need = {f["i"] for f in fails}
    pairs, accepted = 0, 0
    for line in records:
        r = json.loads(line)
        pairs += sum(len(g["c"]) for g in r["g"])
        accepted += sum(len(g["c"]) for g in r["g"] if "v" in g["r"])
        if r["i"] in need:
            by_id[r["i"]] = r
    violations = []
    known = run.known_findings()
    hit = {}
    for x, how in dead:
        violations.append((how, {"family": x["f"], "kind": x["k"], "input": x["in"], "text": run.text_of(x)}))
    for f in sorted(fails, key=lambda f: len(by_id[f["i"]]["in"])):
        r = by_id[f["i"]]
        clauses = [c for c in f["clauses"]]
        left = []
        for c in clauses:
            k = next((k for k in known if k["property"] == pid and k["family"] == f["f"] and k["clause"] == c
                      and KNOWN[k["match"]](f, r, tables)), None)
            if k:
                hit.setdefault(k["what"], k)
            else:
                left.append(c)
        if left:
            cfg = tables[f["f"]][f["cfg"] - 1]
            obs = r["g"][f["group"] - 1]["r"] if f["group"] else [g for g in r["g"]]
            violations.append((",".join(left), {"family": f["f"], "config": cfg, "kind": r["k"], "input": r["in"],
                                                "text": run.text_of(r), "oracle": r["o"], "observed": obs}))
    for k in known:
        if k["property"] == pid:
            print(f"KNOWN-FINDING: property={pid} {k['what']}" + ("" if k["what"] in hit else " (not met in this run)"))
    cov = ev["coverage"]
    cov["states"] = cov.get("states", 0) + gen_states + val_states
    cov["transitions"] = cov.get("transitions", 0) + gen_states + val_states
    cov["traces_validated_against_impl"] = cov.get("traces_validated_against_impl", 0) + pairs
    cov["inputs"] = cov.get("inputs", 0) + len(todo)
    cov["accepted_sessions"] = cov.get("accepted_sessions", 0) + accepted
    cov["configurations"] = cov.get("configurations", 0) + sum(len(t) for t in tables.values())
    cov.setdefault("samples", [])
    for x in todo[:: max(1, len(todo) // 5)][:6]:
        cov["samples"].append({"family": x["f"], "kind": x["k"], "input": run.text_of(x)})
    cov["clauses"] = sorted(spec["clauses"])
    return violations


def ways(f, r, tables, sb, sp):
    """Whether every way back ended as the finding says, and no other."""
    o = r["g"][f["group"] - 1]["r"]
    return f["group"] and set(o["sb"].split("/")) <= sb and set(o["sp"].split("/")) <= sp


def known_json(f, r, tables):
    ty = tables[f["f"]][f["cfg"] - 1]["ty"]
    end = {"neq"} if ty in ("value", "string") else {"err"}
    return ways(f, r, tables, end, end)


# what a listed finding looks like; anything else is a violation
KNOWN = {
    "json_text_as_string": known_json,
    "decoded_bytes": lambda f, r, t: ways(f, r, t, {"err"}, {"err", "neq"}),
    "phone_fields": lambda f, r, t: ways(f, r, t, {"err"}, {"err"}),
}


def run_check(pid, tier, seed, work, ev):
    spec = CHECKS[pid]
    violations = []
    if spec.get("macro"):
        violations += macro.run_macro(tier, seed, work, ev)
    if "fams" in spec:
        violations += run_trace(pid, spec, tier, seed, work, ev)
    ev["violations"] = len(violations)
    if violations:
        return run.report(pid, work, violations)
    print(f"{pid}: held on everything explored")
    return 0


NOT_APPLICABLE = {}
NOTE = ("Every explored input is typed by TLC from the specification (complete enumeration of the exact templates, seeded sampling of the "
        "loose ones) and run through every configuration of the families named; TLC then decides for each recorded session whether the "
        "specification allows it. Exhaustive only within those templates; trusts TLC, rustc and the dependency libraries used as oracles.")
