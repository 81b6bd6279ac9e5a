#!/usr/bin/env python3
"""Property checks of /repo (ed448-goldilocks). See DESIGN.md.

  run.py check C01      one property; VERIF_TIER=quick|thorough, VERIF_SEED=n
  run.py replay FILE    runs a recorded input again (exit 1 if it still violates its property)
  run.py setup          builds everything and checks the reference model (exit 2 if that is wrong)
  run.py literals       prints the integer literals of /repo/src (used to make literals.json)

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not be carried out
"""
import glob, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
BACKENDS = {"fiat": "fiat_u64", "u32b": "u32"}
FALLBACK = [["hooks", "twisted"], ["hooks"], ["twisted"], []]
OUT = sys.stdout

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class Unable(Exception):
    pass

# ------------------------------------------------------------------ building from /repo's current tree
def tool_env():
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e

# copies are expanded into loops, so that their addresses are seen
TRACE_FLAGS = ["-Cpasses=pre-isel-intrinsic-lowering,sancov-module", "-Cllvm-args=-mem-intrinsic-expand-size=0"] + ["-Cllvm-args=-sanitizer-coverage-" + x for x in ("level=3", "trace-pc-guard", "trace-loads", "trace-stores")]

def host():
    r = subprocess.run(["rustc", "-vV"], env=tool_env(), capture_output=True, text=True, timeout=60)
    m = re.search(r"^host: (\S+)", r.stdout, re.M)
    if not m:
        raise Unable("rustc -vV: " + r.stderr)
    return m.group(1)

def object_file(name):
    """the SanitizerCoverage callbacks that the instrumented builds link"""
    obj = os.path.join(TARGET, f"{name}.{os.getpid()}.{threading.get_ident()}.o")
    r = subprocess.run(["gcc", "-O2", "-fPIC", "-fno-builtin", "-c", os.path.join(VERIF, "harness", "ct", name + ".c"), "-o", obj], capture_output=True, text=True, timeout=120)
    if r.returncode:
        raise Unable(f"cc {name}.c: " + r.stderr)
    os.replace(obj, os.path.join(TARGET, name + ".o"))

def cargo_build(backend, feats, profile):
    traced = profile.startswith("traced")
    tdir = os.path.join(TARGET, backend + ("-" + profile if traced or profile in ("guided", "plain") else ""))
    # the library is always compiled again: cargo goes by modification times, which a restored tree may not change
    for p in glob.glob(os.path.join(tdir, "**", ".fingerprint", "ed448-goldilocks-*"), recursive=True):
        shutil.rmtree(p, ignore_errors=True)
    e = tool_env()
    e["CARGO_TARGET_DIR"] = tdir
    if "hooks" in feats:
        e["RUSTFLAGS"] = "--cfg verif_hooks"
    cmd = ["cargo", "build", "--offline", "--profile", profile, "--features", ",".join([backend] + feats)]
    path = os.path.join(tdir, profile, "harness")
    if traced:  # --target keeps the flags away from build scripts and procedural macros
        e["RUSTFLAGS"] = " ".join(TRACE_FLAGS + ["-Clink-arg=" + os.path.join(TARGET, "trace.o")])
        cmd += ["--target", HOST]
        path = os.path.join(tdir, HOST, profile, "harness")
    if profile == "guided":
        if backend == "fiat":  # as in a user's release build; the others run with overflow checks and debug assertions
            for pkg in ("ed448-goldilocks", "fiat-crypto"):
                for k in ("overflow-checks", "debug-assertions"):
                    cmd += ["--config", f"profile.guided.package.{pkg}.{k}=false"]
        e["RUSTC_WRAPPER"] = os.path.join(VERIF, "harness", "ct", "wrap.sh")
        e["RUSTFLAGS"] = (e.get("RUSTFLAGS", "") + " -Clink-arg=" + os.path.join(TARGET, "cov.o")).strip()
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e, capture_output=True, text=True, timeout=700)
    return r.returncode, r.stderr, path

def build(profile="release", backends=tuple(BACKENDS), legs="all"):
    """-> {backend: (binary, features)} with the legs of one property; drops optional parts of the harness that no longer compile"""
    global HOST
    res, err = {}, {}
    wanted = [["ct"]] if profile.startswith("traced") else [f + ["guided"] * (profile == "guided") + [legs.lower()] for f in FALLBACK]
    os.makedirs(TARGET, exist_ok=True)
    if profile.startswith("traced"):
        HOST = host()
        object_file("trace")
    if profile == "guided":
        object_file("cov")
    def one(b):
        last = ""
        for feats in wanted:
            code, text, path = cargo_build(b, feats, profile)
            if code == 0:
                dst = os.path.join(TARGET, f"harness-{b}-{profile}")
                tmp = dst + f".{os.getpid()}"
                shutil.copy2(path, tmp)
                os.replace(tmp, dst)
                res[b] = (dst, feats)
                return
            last = last or text
        err[b] = last
    ts = [threading.Thread(target=one, args=(b,)) for b in backends]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for b in backends:
        if b not in res:
            raise Unable(f"cannot build the harness with {b}:\n" + "\n".join(err.get(b, "").splitlines()[-40:]))
        if res[b][1] != wanted[0]:
            log(f"note: {b} built without {sorted(set(wanted[0]) - set(res[b][1]))}")
    return res

# ------------------------------------------------------------------ literals that the pinned tree does not have
def literals():
    out = set()
    for path in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)):
        try:
            text = open(path, encoding="utf-8", errors="replace").read()
        except OSError:
            continue
        text = re.sub(r"//[^\n]*", "", text)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?=(?:[iu](?:8|16|32|64|128|size))?(?!\w))|\"([0-9a-fA-F]{4,})\"", text):
            try:
                if m.group(2):
                    v = int(m.group(2), 16)
                    out.add(v)
                    if len(m.group(2)) % 2 == 0:
                        out.add(int.from_bytes(bytes.fromhex(m.group(2)), "little"))
                else:
                    out.add(int(m.group(1).replace("_", ""), 0))
            except ValueError:
                pass
    return out

def new_literals(dst):
    try:
        known = {int(x, 16) for x in json.load(open(os.path.join(VERIF, "literals.json")))}
    except (OSError, ValueError):
        known = set()
    fresh = sorted(v for v in literals() - known if 0 < v < 1 << 448)[:64]
    json.dump([v.to_bytes((v.bit_length() + 7) // 8, "little").hex() for v in fresh], open(dst, "w"))
    return len(fresh)

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """lines `known: property=<id> leg=<leg> input=<json> <what fails>`; `fixed:` lines suppress nothing"""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) leg=(\S+) input=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), json.loads(m.group(3)), m.group(4).strip()))
    except OSError:
        pass
    return out

# ------------------------------------------------------------------ one property
def run_bin(binary, args, env, timeout):
    p = subprocess.Popen([binary] + args, env=env, stdout=subprocess.PIPE, stderr=None, text=True, cwd=VERIF, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        raise Unable(f"{binary} {' '.join(args)}: no end within {timeout} s")
    return p.returncode, out

def build_all(legs, *profiles):
    """builds for several profiles at the same time; the plain one for the u32 back end only (fiat has it in the guided search)"""
    got = {}
    def one(p):
        try:
            got[p] = build(p, ("u32b",) if p == "plain" else tuple(BACKENDS), legs)
        except Exception as e:
            got[p] = e
    ts = [threading.Thread(target=one, args=(p,)) for p in profiles]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for p in profiles:
        if isinstance(got[p], Exception) and p != "guided":
            raise got[p]
    return [got[p] for p in profiles]

def peer(prop, b, profile):
    """the build that a run asks for a second answer: the other back end, or for C22 the unoptimised build"""
    if prop == "C22":
        return os.path.join(TARGET, f"harness-{b}-traced0")
    return os.path.join(TARGET, f"harness-{'u32b' if b == 'fiat' else 'fiat'}-{profile}")

GUIDED_SHARDS = 4   # per back end

def guided_search(prop, tier, seed, bins, env, replays):
    """coverage-guided search: one process per shard, the legs' own oracles; -> (legs, violations)"""
    jobs = []
    for b in BACKENDS:
        for k in range(GUIDED_SHARDS):
            if prop == "C16" and b != "fiat":
                continue
            out = os.path.join(TARGET, f"out-{prop}-{b}-guided-{k}.json")
            if os.path.exists(out):
                os.unlink(out)
            rdir = os.path.join(replays, f"guided-{b}-{k}")
            args = ["run", "--prop", prop, "--tier", tier, "--seed", str(seed), "--shard", str(k if b == "fiat" else k + GUIDED_SHARDS), "--scale", str(1 / 24), "--out", out, "--replay-dir", rdir]
            jobs.append((b, k, out, args, dict(env, HARNESS_PEER=peer(prop, b, "release"))))
    got = {}
    def one(j):
        b, k, out, args, e = j
        try:
            code, text = run_bin(bins[b][0], args, e, 600 if tier == "quick" else 20000)
            got[b, k] = (code, text, json.load(open(out)) if code in (0, 1) else {"legs": []})
        except (Unable, OSError, ValueError) as x:
            got[b, k] = (2, str(x), {"legs": []})
    ts = [threading.Thread(target=one, args=(j,)) for j in jobs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    merged, bad = {}, []
    for b, k, out, args, e in jobs:
        code, text, doc = got[b, k]
        if code == 4:
            bad.append((re.search(r"HANG (\S+)", text).group(1), {}))
        elif code not in (0, 1):
            raise Unable(f"guided search ended with {code}: {text[-400:]}")
        for l in doc["legs"]:
            if "failure" in l:
                src = l["failure"]["replay"]
                dst = os.path.join(replays, os.path.basename(src).replace(".json", "-guided.json"))
                os.replace(src, dst)
                bad.append((dst, l))
            m = merged.setdefault((l["leg"], b), dict(l, profile="guided", evaluations=0, nontrivial=0, distinct_nontrivial=0, labels={}, samples=[], features=0, wall_s=0))
            for f in ("evaluations", "nontrivial", "distinct_nontrivial"):
                m[f] += l[f]
            for f in ("features", "wall_s"):
                m[f] = max(m[f], l[f])
            for x, n in l["labels"].items():
                m["labels"][x] = m["labels"].get(x, 0) + n
            m["samples"] += l["samples"][:1]
    for b in BACKENDS:
        for k in range(GUIDED_SHARDS):
            shutil.rmtree(os.path.join(replays, f"guided-{b}-{k}"), ignore_errors=True)
    return list(merged.values()), bad[:1]

def check(prop, tier, seed):
    t0 = time.time()
    log(f"{prop} {tier} seed {seed}")
    guided = None
    if prop == "C22":
        bins, _ = build_all("all", "traced", "traced0")
    else:
        bins, guided, plain = build_all(prop, "release", "guided", "plain")
        if isinstance(guided, Exception):
            log("note: no guided search:", str(guided)[-600:])
            guided = None
    t_build = time.time() - t0
    env = tool_env()
    dict_path = os.path.join(TARGET, f"dict-{prop}.json")
    n_new = new_literals(dict_path)
    env["HARNESS_DICT"] = dict_path
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    violations, legs, regress_n = [], [], 0
    runs = [(b, bins[b], "traced" if prop == "C22" else "release") for b in BACKENDS]
    if prop != "C22":
        if tier == "thorough":
            plain.update(build("plain", ("fiat",), prop))
        runs += [(b, plain[b], "plain") for b in plain]
    threads = str(os.cpu_count() or 4)
    for b, (binary, feats), profile in runs:
        if violations:
            break
        short = tier == "quick" and profile == "plain"
        if prop == "C16" and b != "fiat":
            if not short:
                continue  # one run compares both builds
            b, binary = "fiat", bins["fiat"][0]
        env["HARNESS_PEER"] = peer(prop, b, profile if not short or prop == "C16" else "release")
        # recorded inputs first
        for f in sorted(glob.glob(os.path.join(VERIF, "regress", prop + "-*.json"))):
            code, out = run_bin(binary, ["replay", f], env, 120)
            regress_n += 1
            if code == 1:
                log(f"  recorded input {os.path.basename(f)} [{BACKENDS[b]}]: {out.strip()[:400]}")
                violations.append((f, {}))
                break
        if violations:
            break
        out_file = os.path.join(TARGET, f"out-{prop}-{b}-{profile}.json")
        if os.path.exists(out_file):
            os.unlink(out_file)
        # the plain profile of the thorough tier gets other cases
        s = seed + 1_000_003 if profile == "plain" else seed
        args = ["run", "--prop", prop, "--tier", tier, "--seed", str(s), "--out", out_file, "--replay-dir", replays, "--threads", threads]
        if short:
            args += ["--scale", "0.25"]
        code, out = run_bin(binary, args, env, 840 if tier == "quick" else 20000)
        if code == 4:  # a case that never returns
            violations.append((re.search(r"HANG (\S+)", out).group(1), {}))
            break
        if code not in (0, 1) or not os.path.exists(out_file):
            raise Unable(f"{binary} ended with {code}")
        doc = json.load(open(out_file))
        for l in doc["legs"]:
            l["profile"] = profile
            legs.append(l)
            if "failure" in l:
                violations.append((l["failure"]["replay"], l))
    if guided and not violations:
        t1 = time.time()
        more, bad = guided_search(prop, tier, seed, guided, env, replays)
        legs += more
        violations += bad
        log(f"  guided search: {sum(l['evaluations'] for l in more)} cases in {time.time() - t1:.1f} s")
    known, fresh = known_findings(prop), []
    for path, l in violations:
        try:
            rep = json.load(open(path))
        except (OSError, ValueError):
            rep = {}
        hit = [w for leg, inp, w in known if leg == rep.get("leg") and inp == rep.get("input")]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[0]}", flush=True)
        else:
            fresh.append(path)
    rules = {}
    for l in legs:
        rules.setdefault(l["leg"], l["rule"])
    samples = []
    for l in legs:
        samples += [{"leg": l["leg"], "backend": l["backend"], "input": x} for x in l["samples"][:2]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(l["evaluations"] for l in legs),
            "distinct_nontrivial": sum(l["distinct_nontrivial"] for l in legs),
            "rule": "Inputs from proptest strategies (seeded), enumerated lists and coverage-guided mutation of generated inputs (profile guided), run on both back ends; distinct_nontrivial counts distinct inputs per leg and back end that satisfy the leg's rule. "
                    + " | ".join(f"{k}: {v}" for k, v in rules.items()),
            "samples": samples[:24],
            "legs": [{k: l[k] for k in ("leg", "backend", "profile", "evaluations", "nontrivial", "distinct_nontrivial", "labels", "enumerated", "features", "wall_s")} for l in legs],
            "recorded_inputs_replayed": regress_n,
            "new_literals_in_source": n_new,
            "hooks": {b: bins[b][1] for b in bins},
        },
        "assumptions": [
            "the reference model (harness/src/bn.rs, refcurve.rs) is right: checked by setup against Python integers and RFC 7748, 8032 and 9496 vectors",
            "inputs not generated are not covered",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    path = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(ev, open(path + ".tmp", "w"), indent=1)
    os.replace(path + ".tmp", path)
    log(f"{prop}: {ev['coverage']['evaluations']} cases, build {t_build:.1f} s, total {ev['wall_s']} s, {len(fresh)} violations")
    for f in fresh[:1]:
        print(f"VIOLATION property={prop} replay={f}", flush=True)
    return 1 if fresh else 0

def replay(path):
    doc = json.load(open(path))
    runs = [("traced", build_all("all", "traced", "traced0")[0])] if doc["property"] == "C22" else [(p, build(p, legs=doc["property"])) for p in ("release", "plain")]
    env = tool_env()
    worst = 0
    for profile, b, bins in [(p, b, bins) for p, bins in runs for b in BACKENDS]:
        if doc["property"] == "C16" and b != "fiat":
            continue
        env["HARNESS_PEER"] = peer(doc["property"], b, "release")
        code, out = run_bin(bins[b][0], ["replay", os.path.abspath(path)], env, 300)
        print(out.strip())
        if code == 1:
            print(f"VIOLATION property={doc['property']} replay={os.path.abspath(path)}")
            worst = max(worst, 1)
        elif code:
            worst = 2
    return worst

def setup():
    bins = build()
    for profile in ("guided", "plain", "traced", "traced0"):  # only to have the dependencies compiled
        try:
            build(profile, legs="c01")
        except Unable as e:
            log("note:", str(e)[-300:])
    for b in BACKENDS:
        code, out = run_bin(bins[b][0], ["selftest"], tool_env(), 300)
        print(b, out.strip())
        if code:
            return 2
    r = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "refcheck.py"), bins["fiat"][0]])
    return 2 if r.returncode else 0

def main():
    try:
        cmd = sys.argv[1]
        if cmd == "check":
            tier = os.environ.get("VERIF_TIER", "quick")
            if len(sys.argv) > 3:
                tier = sys.argv[3]
            if tier not in ("quick", "thorough"):
                tier = "quick"
            return check(sys.argv[2], tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        if cmd == "replay":
            return replay(sys.argv[2])
        if cmd == "setup":
            return setup()
        if cmd == "literals":
            json.dump(sorted((hex(v) for v in literals()), key=lambda x: int(x, 16)), sys.stdout, indent=0)
            return 0
        print(__doc__)
        return 2
    except Unable as e:
        log("ERROR:", e)
        return 2
    except (subprocess.TimeoutExpired, OSError, ValueError, KeyError, IndexError) as e:
        log("ERROR:", repr(e))
        return 2

if __name__ == "__main__":
    sys.exit(main())
