#!/usr/bin/env python3
"""bin/check ID [quick|thorough]: decides one property.

1. generates the harness crate for the families concerned, builds it against /repo's working tree;
2. lets TLC enumerate and sample behaviours of the typing specification (spec/Gen.tla): the inputs;
3. the harness runs every input through every configuration and records the sessions;
4. TLC validates every recorded session against the specification (spec/Trace.tla);
5. TLC explores the session state machine itself (spec/Session.tla) for the property's invariants.
Exit 0: held.  1: VIOLATION line printed.  2: the check itself failed."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8
sys.path.insert(0, HERE)
import families  # noqa: E402


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


# ---------------------------------------------------------------- the harness
def cargo_env():
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    return env


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def weight(fam):
    per = {"signed_integer": 11, "unsigned_integer": 11, "json": 20, "domain": 9, "email": 9, "host": 8, "byte": 10, "bit": 11, "phone": 8}
    return len(fam.configs) * per.get(fam.name, 7)


def groups(fams):
    """The families dealt out to crates which are built side by side."""
    n = min(NPROC, max(1, sum(weight(f) for f in fams) // 150))
    bins = [[] for _ in range(n)]
    for f in sorted(fams, key=weight, reverse=True):
        min(bins, key=lambda b: sum(weight(x) for x in b)).append(f)
    return [b for b in bins if b]


def build(fams, key, features=()):
    """The harness binaries for these families: {family: binary}."""
    top = os.path.join(BUILD, "h-" + key)
    base = os.path.join(ROOT, "harness")
    toml = open(os.path.join(base, "Cargo.toml")).read().replace("/repo/validators", os.path.join(REPO, "validators"))
    head, profile = toml.split("[workspace]")[0], "[profile.dev]" + toml.split("[profile.dev]")[1]
    deps = "[dependencies]" + toml.split("[dependencies]")[1].split("[profile.dev]")[0]
    if features:
        more = ", ".join(f'"{f}"' for f in features)
        deps = deps.replace('"full"]', f'"full", {more}]').replace("web = []", 'default = ["web"]\nweb = []')
    parts = groups(fams)
    write_if_changed(os.path.join(top, "Cargo.toml"), "[workspace]\nresolver = \"2\"\nmembers = [" + ", ".join(f'"g{n}"' for n in range(len(parts))) + "]\n\n" + profile)
    if not os.path.exists(os.path.join(top, "Cargo.lock")):
        shutil.copy(os.path.join(base, "Cargo.lock.web" if features else "Cargo.lock"), os.path.join(top, "Cargo.lock"))
    where = {}
    for n, part in enumerate(parts):
        name = f"harness-{key}-g{n}"
        src = os.path.join(top, f"g{n}", "src")
        write_if_changed(os.path.join(top, f"g{n}", "Cargo.toml"), head.replace('name = "harness"', f'name = "{name}"') + deps)
        for f in os.listdir(os.path.join(base, "src")):
            write_if_changed(os.path.join(src, f), open(os.path.join(base, "src", f)).read())
        for fam in part:
            write_if_changed(os.path.join(src, "families", fam.name + ".rs"), fam.rust())
            where[fam.name] = os.path.join(BUILD, "target", "debug", name)
        write_if_changed(
            os.path.join(src, "families", "mod.rs"),
            "#[allow(unused)]\npub use crate::core::*;\n#[allow(unused)]\npub use crate::oracles::*;\n#[allow(unused)]\n"
            "pub use validators::{prelude::*, traits::*};\n"
            + "\n".join(f"mod {f.name};" for f in part) + "\npub fn families() -> Vec<Family> {\n    vec![" + ", ".join(f"{f.name}::family()" for f in part) + "]\n}\n",
        )
    t = time.time()
    r = sh(["cargo", "build", "--offline", "--message-format", "short"], cwd=top, env=cargo_env())
    if r.returncode != 0:
        errors = [l for l in r.stderr.splitlines() if "error" in l]
        ours = [l for l in errors if "src/families/" in l]
        if ours and not any(l.startswith(REPO) or "could not compile `validators" in l for l in errors):
            # the library builds, and a declaration of a validator does not
            raise Violation("declaration-does-not-compile", {"errors": ours[:20]})
        raise ToolError("the harness does not build:\n" + r.stderr[-4000:])
    log(f"built {key} in {time.time() - t:.1f}s")
    return where


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, workdir, env=None, extra=(), timeout=800, heap="3g", workers=1):
    meta = os.path.join(workdir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(workdir, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module} {cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def printed(out, tag):
    """The JSON values TLC printed after this tag."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " "):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res


# families whose users type alike
ALIKE = {"ipv4": "ip", "ipv6": "ip", "http_url": "url", "http_ftp_url": "url", "base32_decoded": "base32", "base64_decoded": "base64", "base64_url_decoded": "base64_url",
         "unsigned_integer": "signed_integer", "line": "text", "bit": "byte"}


def generate(plan, seed, work, exact=True):
    """Inputs typed by the specification's user: plan is {family: samples}."""
    users = {}
    for f in plan:
        users.setdefault(ALIKE.get(f, f), []).append(f)
    inputs, states = generate_for({u: sum(plan[f] for f in fs) for u, fs in users.items()}, seed, work, exact)
    return [{**x, "f": f} for x in inputs for f in users[x["f"]]], states


def generate_for(plan, seed, work, exact):
    jobs = []
    for f in plan:
        if exact:
            jobs.append((f, "GenExact", 0, 0))
    # samples in parallel chunks, each with a seed of its own
    total = sum(plan.values())
    chunk = max(1, min(NPROC, total // 3000 + 1))
    for k in range(chunk):
        part = [{"f": f, "n": (n + chunk - 1) // chunk} for f, n in plan.items() if n]
        if part:
            jobs.append((part, "GenLoose", k, sum(p["n"] for p in part)))

    def one(job):
        what, cfg, k, n = job
        name = f"{cfg}-{what if isinstance(what, str) else k}"
        w = os.path.join(work, name)
        os.makedirs(w, exist_ok=True)
        p = os.path.join(w, "plan.json")
        part = [{"f": what, "n": 0}] if isinstance(what, str) else what
        json.dump(part, open(p, "w"))
        extra = [] if isinstance(what, str) else ["-seed", str(seed * 1000 + k + 1), "-simulate", "num=1", "-depth", str(n + 2)]
        rc, out = tlc("Gen.tla", cfg + ".cfg", w, {"PLAN": p}, extra)
        got = printed(out, "INPUT")
        if rc != 0 or "Error:" in out:
            raise ToolError(f"input generation failed: {name}\n{out[-3000:]}")
        return got, tlc_stats(out)

    inputs, seen, states = [], set(), 0
    with ThreadPoolExecutor(NPROC) as ex:
        for got, (gen, dist) in ex.map(one, jobs):
            states += dist
            for x in got:
                key = (x["f"], x["k"], tuple(x["in"]))
                if key not in seen:
                    seen.add(key)
                    inputs.append(x)
    return inputs, states


def observe(where, inputs, work, env=None):
    """Runs the inputs through the real library; returns records and what did not come back."""
    # several processes rather than threads: some libraries lock what they share
    jobs = []
    for b in dict.fromkeys(where[x["f"]] for x in inputs):
        mine = [x for x in inputs if where[x["f"]] == b]
        n = NPROC if len(mine) > 200 else 1
        jobs += [(b, mine[k::n], work, {"VERIF_ONE_THREAD": "1", **(env or {})}, f"{len(jobs)}-{k}") for k in range(n)]
    records, dead = [], []
    with ThreadPoolExecutor(NPROC) as ex:
        for r, d in ex.map(lambda n: observe_one(*n), jobs):
            records += r
            dead += d
    return records, dead


def observe_one(binary, inputs, work, env, k):
    inp, outp = os.path.join(work, f"in{k}.ndjson"), os.path.join(work, f"out{k}.ndjson")
    e = dict(os.environ)
    e.update(env or {})
    todo, dead = list(inputs), []
    for _ in range(8):
        with open(inp, "w") as f:
            for x in todo:
                f.write(json.dumps(x, separators=(",", ":")) + "\n")
        r = subprocess.run([binary, inp, outp], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=800, env=e)
        if r.returncode == 0:
            # a kind of input which no configuration takes gives no session
            return [l for l in open(outp).read().splitlines() if not l.endswith('"g":[]}')], dead
        m = re.search(r"HANG (\d+)", r.stderr)
        if m:
            n, how = int(m.group(1)), "hang"
        else:
            # which input is it?  one at a time
            prog = os.path.join(work, f"progress{k}")
            r2 = subprocess.run([binary, inp, outp, prog], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=800, env=e)
            if r2.returncode == 0:
                raise ToolError("harness died once and not again: " + r.stderr[-2000:])
            n, how = int(open(prog).read()), "abort"
            if r2.returncode > 0:
                raise ToolError("harness failed: " + r2.stderr[-2000:])
        dead.append((todo[n], how))
        # an input of the same kind would die the same way: keep the others
        todo = todo[:n] + todo[n + 1:]
    return [], dead


def validate(records, tables, clauses, work, spec="Trace.tla", cfg="Trace.cfg"):
    """TLC: is every record a behaviour of the specification?"""
    cfgs = os.path.join(work, "cfgs.json")
    json.dump(tables, open(cfgs, "w"))
    cl = os.path.join(work, "clauses.json")
    json.dump(sorted(clauses), open(cl, "w"))
    nproc = NPROC if len(records) > 200 else 2
    # largest first, round robin: chunks of about equal cost, small enough for a young heap
    order = sorted(records, key=len, reverse=True)
    size = sum(map(len, order))
    pieces = nproc * max(1, size // (nproc * 24_000_000) + 1, )
    chunks = [order[k::pieces] for k in range(pieces)]
    log(f"{size >> 20} MB of records in {pieces} chunks")

    def one(k):
        if not chunks[k]:
            return [], (0, 0)
        w = os.path.join(work, f"v{k}")
        os.makedirs(w, exist_ok=True)
        t = os.path.join(w, "trace.ndjson")
        with open(t, "w") as f:
            f.write("\n".join(chunks[k]) + "\n")
        rc, out = tlc(spec, cfg, w, {"TRACE": t, "CFGS": cfgs, "CLAUSES": cl})
        if rc != 0 or "Error:" in out:
            keep = os.path.join(BUILD, "last-tlc-error.txt")
            open(keep, "w").write(out)
            raise ToolError(f"trace validation failed to run:\n{out[-3000:]}")
        os.remove(t)
        return printed(out, "FAIL"), tlc_stats(out)

    fails, states = [], 0
    with ThreadPoolExecutor(nproc) as ex:
        for f, (gen, dist) in ex.map(one, range(pieces)):
            fails += f
            states += dist
    return fails, states


START = time.time()


def log(s):
    print(f"# {time.time() - START:5.1f}s {s}", flush=True)


# ---------------------------------------------------------------- known findings
def known_findings():
    res = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                m = re.match(r"known: property=(\S+) family=(\S+) clause=(\S+) match=(\S+) (.*)", line.strip())
                if not m:
                    raise ToolError("known-findings.txt: " + line)
                res.append(dict(zip(("property", "family", "clause", "match", "what"), m.groups())))
    return res


def text_of(x):
    try:
        return "".join(map(chr, x["in"]))
    except (ValueError, TypeError):
        return str(x["in"])


def main():
    import checks
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = os.path.join(BUILD, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {}, "wall_s": 0.0}
    rc = 2
    try:
        rc = checks.run_check(pid, tier, seed, work, ev)
    except Violation as v:
        rc = report(pid, work, [(v.what, v.data)])
        ev["violations"] = 1
    except ToolError as e:
        print(f"ERROR: {e}")
        rc = 2
    ev["wall_s"] = round(time.time() - t0, 2)
    if not ev["coverage"]:
        ev["coverage"] = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def report(pid, work, violations):
    if os.environ.get("VERIF_DEBUG"):
        json.dump(violations, open(os.path.join(BUILD, "all-violations.json"), "w"))
    """Prints the VIOLATION lines; what to replay is kept beside the build."""
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    for n, (what, data) in enumerate(violations[:10]):
        p = os.path.join(d, f"{pid}-{n}.json")
        with open(p, "w") as f:
            json.dump({"property": pid, "broken": what, **data}, f, indent=1)
        print(f"VIOLATION property={pid} replay={p}")
        print(f"#   {what}: {json.dumps(data)[:600]}")
    return 1


if __name__ == "__main__":
    main()
