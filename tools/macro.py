"""C29: declarations written by the specification's authors (spec/MacroGen.tla), compiled by the
real macro and compiler, and judged by the specification (spec/MacroTrace.tla)."""
import json
import os
import random
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

import run
from run import log, ToolError

PRELUDE = """#![allow(unused, non_camel_case_types, non_snake_case)]
pub mod pre {
    pub use std::collections::{HashMap, HashSet};
    pub use std::net::*;
    pub use validators::byte_unit::{Bit, Byte};
    pub use validators::models::{Host, Protocol};
    pub use validators::phonenumber::{PhoneNumber, country::Id};
    pub use validators::semver::{Version, VersionReq};
    pub use validators::url::Url;
    pub struct Plain;
}
"""


EVERY = ("base32 base32_decoded base64 base64_decoded base64_url base64_url_decoded bit boolean byte domain email host http_url http_ftp_url ip ipv4 ipv6 json "
         "length line mac_address number phone regex semver semver_req signed_integer text unsigned_integer url uuid").split()


def lit(v):
    t, s = v["t"], v["s"]
    if t == "str":
        return json.dumps(s)
    if t == "byte":
        return f"b'{s}'"
    return ("-" if v["neg"] else "") + s


def item(m):
    k = m["k"]
    if k == "path":
        return m["n"]
    if k == "lit":
        return lit(m["v"])
    if k == "nv":
        return f"{m['n']} = {lit(m['v'])}"
    if k == "nvrange":
        return f"{m['n']} = {item(m['l'][0])}"
    if k == "range":
        return lit(m["l"][0]["v"]) + m["n"] + lit(m["l"][1]["v"])
    return f"{m['n']}({', '.join(map(item, m['l']))})"


def attribute(d):
    inner = d["v"] + (f"({', '.join(map(item, d['ps']))})" if d["ps"] else "")
    one = f"#[validator({inner})]"
    return {"one": one, "none": "", "path": "#[validator]", "twice": one + " " + one, "value": f'#[validator = "{d["v"]}"]',
            "named": f'#[validator({d["v"]} = "x")]', "other": f"#[validator({inner}, {inner})]"}[d["wrap"]]


BOUND = {"Serialize": "validators::serde::Serialize", "Deserialize": "validators::serde::de::DeserializeOwned",
         "FromParam": "for<'a> validators::rocket::request::FromParam<'a>", "FromFormField": "for<'a> validators::rocket::form::FromFormField<'a>"}


def body(d):
    fs = d["fields"]
    named = any(f["n"] for f in fs) or d["shape"] == "named"
    listing = ("{ " + ", ".join(f"{f['n']}: {f['t']}" for f in fs) + " }") if named else "(" + ", ".join(f["t"] for f in fs) + ")"
    shape = d["shape"]
    if shape == "unit":
        return "pub struct Decl;"
    if shape == "enum":
        return f"pub enum Decl {{ A{listing} }}"
    if shape == "union":
        return "pub union Decl { " + ", ".join(f"{f['n'] or 'a%d' % i}: std::mem::ManuallyDrop<{f['t']}>" for i, f in enumerate(fs)) + " }"
    head = "pub struct Decl<const N: usize>" if shape == "generic" else "pub struct Decl"
    return head + listing + ("" if named else ";")


def render(n, d):
    """One line of source, so that an error's line says which declaration it is about."""
    need = "".join(f" const _: fn() = || {{ fn has<T: {BOUND[t]}>() {{}} has::<Decl>(); }};" for t in d["need"])
    return f"mod m{n} {{ use crate::pre::*; use validators::prelude::*; #[derive(Validator)] {attribute(d)} {body(d)}{need} }}"


def compile_all(decls, feats, key, work):
    """For each declaration, whether it compiles."""
    top = os.path.join(run.BUILD, "m-" + key)
    parts = [list(range(k, len(decls), run.NPROC)) for k in range(run.NPROC)]
    validators = ["all-validators"] if "serde" in feats else [v for v in EVERY if v != "json"]      # json brings serde with it
    want = ["std", "derive"] + validators + list(feats)
    run.write_if_changed(os.path.join(top, "Cargo.toml"), "[workspace]\nresolver = \"2\"\nmembers = [" + ", ".join(f'"g{k}"' for k in range(run.NPROC)) + "]\n")
    if not os.path.exists(os.path.join(top, "Cargo.lock")):
        shutil.copy(os.path.join(run.ROOT, "harness", f"Cargo.lock{'.web' if 'rocket' in feats else ''}"), os.path.join(top, "Cargo.lock"))
    name = [f"macro-{key}-g{k}" for k in range(run.NPROC)]
    for k in range(run.NPROC):
        run.write_if_changed(os.path.join(top, f"g{k}", "Cargo.toml"), f"""[package]
name = "{name[k]}"
version = "0.1.0"
edition = "2024"
publish = false

[dependencies]
validators = {{ path = "{run.REPO}/validators", default-features = false, features = {json.dumps(want)} }}
""")
    ok = [True] * len(decls)
    src = [render(n, d) for n, d in enumerate(decls)]
    dirty = set(range(run.NPROC))
    rounds = 0
    head = PRELUDE.count("\n")
    while dirty:
        rounds += 1
        if rounds > 12:
            raise ToolError("the declarations do not settle")
        for k in dirty:
            run.write_if_changed(os.path.join(top, f"g{k}", "src", "lib.rs"), PRELUDE + "".join((src[n] if ok[n] else "") + "\n" for n in parts[k]))
        r = run.sh(["cargo", "check", "--offline", "--keep-going", "--message-format", "json"], cwd=top, env=run.cargo_env())
        failed, told = set(), set()
        for line in r.stdout.splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m.get("reason") != "compiler-message":
                continue
            msg = m["message"]
            if not msg["level"].startswith("error"):
                continue
            who = m["target"]["name"].replace("_", "-")
            if who not in name:
                raise ToolError("the library does not build:\n" + (msg.get("rendered") or "")[:3000])
            k = name.index(who)
            failed.add(k)
            for s in spans(msg):
                if s["file_name"].endswith("src/lib.rs") and f"g{k}" in s["file_name"]:
                    for at in range(s["line_start"], s["line_end"] + 1):
                        if at > head and at - head <= len(parts[k]):
                            n = parts[k][at - head - 1]
                            if ok[n]:
                                told.add(k)
                                ok[n] = False
        if r.returncode != 0 and not failed:
            raise ToolError("the declarations cannot be compiled:\n" + r.stderr[-3000:])
        if failed - told:
            raise ToolError("an error without a place:\n" + r.stdout[-3000:])
        dirty = failed
    log(f"{len(decls)} declarations ({key}) compiled in {rounds} rounds, {sum(ok)} of them accepted")
    return ok, src


def spans(msg):
    for s in msg["spans"]:
        while s:
            yield s
            s = (s.get("expansion") or {}).get("span")


def author(feats, samples, seed, work):
    w = os.path.join(work, "author")
    os.makedirs(w, exist_ok=True)
    json.dump(sorted(feats), open(os.path.join(w, "feats.json"), "w"))
    json.dump({"samples": samples}, open(os.path.join(w, "plan.json"), "w"))
    rc, out = run.tlc("MacroGen.tla", "MacroGen.cfg", w, {"PLAN": os.path.join(w, "plan.json"), "FEATS": os.path.join(w, "feats.json")}, ["-seed", str(seed)])
    if rc != 0 or "Error:" in out:
        raise ToolError("writing declarations failed:\n" + out[-3000:])
    seen, decls = set(), []
    for d in run.printed(out, "DECL"):
        s = json.dumps(d, sort_keys=True)
        if s not in seen:
            seen.add(s)
            decls.append(d)
    return decls, run.tlc_stats(out)[1]


def judge(decls, ok, feats, work):
    chunks = [list(range(k, len(decls), run.NPROC)) for k in range(run.NPROC)]

    def one(k):
        w = os.path.join(work, f"j{k}")
        os.makedirs(w, exist_ok=True)
        json.dump(sorted(feats), open(os.path.join(w, "feats.json"), "w"))
        with open(os.path.join(w, "trace.ndjson"), "w") as f:
            for n in chunks[k]:
                f.write(json.dumps({"id": n, "d": decls[n], "ok": ok[n]}) + "\n")
        rc, out = run.tlc("MacroTrace.tla", "MacroTrace.cfg", w, {"TRACE": os.path.join(w, "trace.ndjson"), "FEATS": os.path.join(w, "feats.json")})
        if rc != 0 or "Error:" in out:
            raise ToolError("judging declarations failed:\n" + out[-3000:])
        return run.printed(out, "MISMATCH"), run.tlc_stats(out)[1]

    bad, states = [], 0
    with ThreadPoolExecutor(run.NPROC) as ex:
        for b, s in ex.map(one, [k for k in range(run.NPROC) if chunks[k]]):
            bad += b
            states += s
    return bad, states


def run_macro(tier, seed, work, ev):
    thorough = tier != "quick"
    violations = []
    cov = ev["coverage"]
    cov.update(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    plans = [("full", ["serde", "full"], 12000 if thorough else 1500, None),
             ("rocket", ["serde", "full", "rocket"], 2000 if thorough else 200, None if thorough else 900),
             ("bare", [], 2000 if thorough else 200, None if thorough else 900)]
    for key, feats, samples, cap in plans:
        decls, states = author(feats, samples, seed, os.path.join(work, key))
        if cap:
            random.Random(seed).shuffle(decls)
            decls = decls[:cap]
        ok, src = compile_all(decls, feats, key, work)
        bad, more = judge(decls, ok, feats, os.path.join(work, key))
        for b in bad:
            violations.append(("accepted-but-incoherent" if b["compiled"] else "coherent-but-rejected", {"features": feats, "declaration": decls[b["id"]], "source": src[b["id"]]}))
        cov["states"] += states + more
        cov["transitions"] += states + more
        cov["traces_validated_against_impl"] += len(decls)
        cov["accepted_" + key], cov["rejected_" + key] = sum(ok), len(ok) - sum(ok)
        for n in range(0, len(decls), max(1, len(decls) // 4)):
            cov["samples"].append({"features": feats, "source": src[n], "compiled": ok[n]})
    return violations
