"""Builds the explorers from /repo's current tree, runs them, judges, writes evidence. See bin/check."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MC = os.path.join(VERIF, "mc")
TARGET = os.path.join(MC, "target")
KNOWN = os.path.join(VERIF, "known_findings.txt")
JOBS = os.cpu_count() or 4
GB = 1 << 30

# What decides each property: (binary, profiles it is run in)
NATIVE = {f"M{k:02d}": ["release"] for k in range(1, 40) if k not in (24, 25, 26)}
NATIVE["M03"] = ["release", "plain"]

# interpreted: property -> tier -> [(target, coordinate bits, portable, size, flags)]; /plain: without overflow checks
HOST = "x86_64-unknown-linux-gnu"
PLAIN = HOST + "/plain"
NOALIAS = "-Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"
TREE = "-Zmiri-ignore-leaks -Zmiri-tree-borrows"
FAST = NOALIAS + " -Zmiri-disable-validation -Zmiri-disable-data-race-detector"
MIRI = {
    "M24": {
        "quick": [(PLAIN, 64, 0, 0, NOALIAS)],
        "thorough": [(PLAIN, 64, 0, 3, NOALIAS), (HOST, 64, 0, 3, NOALIAS), (HOST, 64, 0, 0, TREE), ("i686-unknown-linux-gnu", 32, 1, 0, NOALIAS)],
    },
    "M25": {
        "quick": [("s390x-unknown-linux-gnu", 64, 1, 0, FAST), ("i686-unknown-linux-gnu", 32, 1, 0, FAST)],
        "thorough": [
            ("s390x-unknown-linux-gnu", 64, 1, 3, FAST),
            ("i686-unknown-linux-gnu", 32, 1, 3, FAST),
            ("powerpc-unknown-linux-gnu", 32, 1, 3, FAST),
        ],
    },
}
ASSUME = [
    "The Rust compiler, the standard library and nalgebra's Vector2/Vector3 are correct.",
    "Exhaustive within the stated bounds: complete node sets where marked complete_space, otherwise the enumerated structured families of DESIGN.md.",
]


class Broken(Exception):
    """The check could not be carried out"""


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def log(*a):
    print(*a, flush=True)


def sources_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(MC, "src")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "build.rs")] + [os.path.join(MC, f) for f in ("Cargo.toml", "Cargo.lock")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
            h.update(b"\0")
    return h.hexdigest()


def run(cmd, env=None, timeout=None, mem=None, cwd=MC):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "RUSTC_WRAPPER", "RUST_BACKTRACE"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})

    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode(errors="replace"), err.decode(errors="replace")


def stale(area):
    """Cargo trusts modification times; this does not. Forget what was built from other sources."""
    stamp = os.path.join(TARGET, f".sources-{area}")
    now = sources_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    return stamp, now, old is not None and old != now or old is None


def forget(area, dirs):
    """dirs: directories with .fingerprint"""
    stamp, now, is_stale = stale(area)
    if is_stale:
        for d in dirs:
            fp = os.path.join(d, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if re.match(r"(mc|morton-index)-[0-9a-f]{16}$", n):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    return stamp, now


def build(binary, profile):
    d = {"dev": "debug"}.get(profile, profile)
    os.makedirs(TARGET, exist_ok=True)
    stamp, now = forget(profile, [os.path.join(TARGET, d)])
    cmd = ["cargo", "build", "--offline", "--profile", profile, "--target-dir", TARGET]
    if isinstance(binary, list):
        cmd += ["--keep-going"]
    for b in binary if isinstance(binary, list) else [binary]:
        cmd += ["--bin", b]
    rc, out, err = run(cmd, timeout=1500)
    if rc != 0:
        raise Broken(f"building {binary} ({profile}) failed:\n" + err[-6000:])
    open(stamp, "w").write(now)
    return os.path.join(TARGET, d)


def known_for(prop):
    """Lines `known: property=<id> unit#item <what fails>`"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) \"([^\"]+)\" (.*)", l.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def replay_file(prop, k, data):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{k}.json")
    data["property"] = prop
    data["how"] = f"bin/check --replay {p}"
    json.dump(data, open(p, "w"), indent=1)
    return p


def scratch():
    d = os.path.join(TARGET, "scratch", str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def crashed(rc):
    return rc is None or rc < 0 or rc not in (0, 1, 2)


def native(prop, binary, profile, tier, extra=()):
    """Run one explorer. Returns its report; violations are in it."""
    exe = os.path.join(build(binary, profile), binary)
    sc = scratch()
    out = os.path.join(sc, f"{binary}.{profile}.json")
    if os.path.exists(out):
        os.remove(out)
    base = [exe, "--tier", tier, "--jobs", str(JOBS)]
    for k in known_for(prop):
        base += ["--known", k]
    limit = 840 if tier == "quick" else 4 * 3600
    rc, so, se = run(base + ["--out", out, *extra], timeout=limit, mem=26 * GB)
    if rc in (0, 1) and os.path.exists(out):
        rep = json.load(open(out))
        if (rc == 1) != bool(rep["violations"]):
            raise Broken(f"{binary}: exit code {rc} does not match its report")
        rep["profile"] = profile
        return rep
    if rc == 2:
        raise Broken(f"{binary}: {se[-2000:]}")
    if rc is None:
        raise Broken(f"{binary} ({profile}) did not finish within {limit} s")
    # The process died. Find the item: run again with a journal, then every candidate on its own.
    log(f"{binary} ({profile}) ended with {rc}; looking for the item")
    if rc == 101:
        m = re.findall(r"panicked at (\S+):\d+:\d+", se)
        if not any(x.startswith(REPO + "/") for x in m):
            raise Broken(f"{binary}: panic outside the library: {se[-2000:]}")
        return dict(prop=prop, profile=profile, violations=[dict(unit="setup", item=0, msg=se[-800:])], dead=True)
    for jobs in (JOBS, 1):
        j = os.path.join(sc, "journal")
        rc2, _, se2 = run([exe, "--tier", tier, "--jobs", str(jobs), "--journal", j], timeout=limit, mem=26 * GB)
        if not crashed(rc2):
            continue
        cands = []
        for line in open(j, "rb").read().replace(b"\0", b" ").decode().splitlines():
            f = line.split()
            if len(f) == 2:
                cands.append((int(f[0]), int(f[1])))
        for u, i in cands:
            rc3, so3, se3 = run([exe, "--tier", tier, "--replay", f"@{u}#{i}"], timeout=300, mem=8 * GB)
            if crashed(rc3):
                m = re.search(r"^UNIT (.*)$", so3, re.M)
                unit = m.group(1) if m else f"@{u}"
                how = f"the process ended with signal {-rc3}" if rc3 is not None and rc3 < 0 else f"the process did not survive ({rc3})"
                return dict(prop=prop, profile=profile, violations=[dict(unit=unit, item=i, msg=how + " " + se3[-400:].strip())], dead=True)
    raise Broken(f"{binary} ({profile}) ended with {rc}, and no item reproduces it:\n{se[-2000:]}")


def decide_native(prop, tier):
    reps = []
    for profile in NATIVE[prop]:
        rep = native(prop, prop.lower(), profile, tier)
        reps.append(rep)
        if rep["violations"]:
            break
    return reps


def coverage_of(reps):
    live = [r for r in reps if not r.get("dead")]
    s = lambda k: sum(r.get(k, 0) for r in live)
    cov = dict(
        states=s("states"),
        transitions=s("transitions") + s("evaluations"),
        traces_validated_against_impl=s("items"),
        samples=[x for r in live[:1] for x in r.get("samples", [])] or ["none"],
        exhaustive=True,
        rule="every item of every unit is executed on the real code in lock step with the model; a state is one model state (node, word, byte vector, slice) the implementation was put into, a transition one operation on it compared with the model, a trace one item run from scratch",
        bounds=[dict(unit=u["unit"], items=u["items"], complete_space=u["complete_space"]) for r in live[:1] for u in r.get("units", [])][:400],
        runs=[dict(profile=r.get("profile"), wall_s=r.get("wall_s"), items=r.get("items")) for r in live],
    )
    return cov


# --- M26 -------------------------------------------------------------------------------------------------------------

def read_digests(p):
    r = {}
    unit = None
    for l in open(p):
        if l.startswith("U "):
            unit = l[2:].rsplit(" ", 1)[0]
            k = 0
        else:
            r[(unit, k)] = l.strip()
            k += 1
    return r


def decide_profiles(prop, tier):
    profiles = ["release", "plain", "dev"]
    reps, digs = [], []
    for p in profiles:
        f = os.path.join(scratch(), f"digests.{p}")
        rep = native(prop, "m26", p, tier, ("--digests", f))
        if rep["violations"]:
            # a crash or an unexpected panic in one profile: does it happen in all of them?
            rep["digests_missing"] = True
        reps.append(rep)
        digs.append(read_digests(f) if os.path.exists(f) else None)
    good = [i for i in range(3) if digs[i] is not None and not reps[i]["violations"]]
    names = {"release": "optimised with overflow checks and debug assertions", "plain": "optimised without checks", "dev": "unoptimised"}
    viol = []
    compared = 0
    if len(good) in (1, 2):
        i = next(k for k in range(3) if k not in good)
        v = reps[i]["violations"][0]
        viol.append(dict(unit=v["unit"], item=v["item"], msg=f"only the build '{names[profiles[i]]}' fails here: {v['msg']}"))
    for i in good[1:]:
        a, b = digs[good[0]], digs[i]
        if set(a) != set(b):
            raise Broken("the profiles explored different items")
        for k in a:
            compared += 1
            if a[k] != b[k]:
                viol.append(dict(unit=k[0], item=k[1], msg=f"results differ between '{names[profiles[good[0]]]}' ({a[k]}) and '{names[profiles[i]]}' ({b[k]})"))
                break
    known = known_for(prop)
    out = reps[0]
    out["known"] = [f"{v['unit']}#{v['item']}" for v in viol if f"{v['unit']}#{v['item']}" in known]
    for r in reps:
        r["violations"] = []
    out["violations"] = [v for v in viol if f"{v['unit']}#{v['item']}" not in known]
    for r in reps:
        r["profile"] = profiles[reps.index(r)]
    out["compared"] = compared
    return reps


# --- M24 / M25 -------------------------------------------------------------------------------------------------------

def miri_env(target, flags):
    return {
        # a sysroot per target, in its own directory: concurrent set-ups do not meet
        "XDG_CACHE_HOME": os.path.join(TARGET, "miri-cache", target.split("/")[0]),
        "CARGO_TARGET_DIR": os.path.join(TARGET, "miri", target.split("/")[0]),
        "MIRIFLAGS": flags,
    }


def miri_build(target):
    env = miri_env(target, NOALIAS)
    td = env["CARGO_TARGET_DIR"]
    os.makedirs(td, exist_ok=True)
    base, _, profile = target.partition("/")
    d = profile or "debug"
    stamp, now = forget("miri-" + target.replace("/", "-"), [os.path.join(td, x) for x in (d, f"{base}/{d}", f"miri/{base}/{d}", f"miri/{d}")])
    rc, out, err = run(["cargo", "+nightly", "miri", "setup", "--target", base], env=env, timeout=1500)
    if rc != 0:
        raise Broken(f"miri sysroot for {target}: {err[-3000:]}")
    rc, out, err = run(miri_cmd(target, [64 if "64" in target or "s390x" in target else 32, 1, 0, 10**9, 0]), env=env, timeout=1500)
    if rc != 0 or "END" not in out:
        raise Broken(f"building for {target} failed: {err[-4000:]}")
    open(stamp, "w").write(now)


def miri_builds(targets):
    """The profiles of a platform share their directories: one after the other"""
    bases = {}
    for t in sorted(targets):
        bases.setdefault(t.split("/")[0], []).append(t)
    with cf.ThreadPoolExecutor(len(bases)) as ex:
        for f in [ex.submit(lambda l: [miri_build(t) for t in l], l) for l in bases.values()]:
            f.result()


def miri_cmd(target, args):
    base, _, profile = target.partition("/")
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--bin", "mini", "--target", base,
            *(["--profile", profile] if profile else []), "--", *map(str, args)]


def parse(out):
    r = {}
    obs = None
    for l in out.splitlines():
        if l.startswith("R "):
            n, d = l[2:].rsplit(" ", 1)
            r[n] = d
        elif l.startswith("END "):
            obs = int(l.split()[1])
    return r, obs


UB = re.compile(r"error: Undefined Behavior: (.*)|(unsafe precondition\(s\) violated.*)")


def shard(target, coord, portable, size, flags, k, of):
    env = miri_env(target, flags)
    rc, out, err = run(miri_cmd(target, [coord, portable, k, of, size, "trace"]), env=env, timeout=780 if size == 0 else 4 * 3600)
    return rc, out, err


def decide_miri(prop, tier):
    runs = MIRI[prop][tier]
    targets = sorted({r[0] for r in runs})
    miri_builds(targets)
    ref_exe = os.path.join(build("mini", "release"), "mini")
    reps = []
    viol = []
    of = JOBS * 2
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [(r, k, ex.submit(shard, *r, k, of)) for r in runs for k in range(of)]
        results = [(r, k, f.result()) for r, k, f in futs]
    known = known_for(prop)
    knowns = []
    for r in runs:
        target, coord, portable, size, flags = r
        t0 = time.time()
        ref = {}
        rc, out, err = run([ref_exe, str(coord), str(portable), "0", "1", str(size)], timeout=600, mem=8 * GB)
        ref_ok = rc == 0 and "END" in out
        if ref_ok:
            ref, _ = parse(out)
        got, obs = {}, 0
        for r2, k, (rc, out, err) in results:
            if r2 is not r:
                continue
            d, o = parse(out)
            got.update(d)
            obs += o or 0
            if rc == 0 and o is not None:
                continue
            m = UB.search(err)
            if rc is None:
                raise Broken(f"{target}: shard {k} did not finish in time")
            if not m:
                raise Broken(f"{target}: shard {k} ended with {rc}: {err[-3000:]}")
            # every item is announced before it is executed
            last = [l[2:] for l in out.splitlines() if l.startswith("B ")]
            item = last[-1] if last else f"shard {k}"
            where = re.search(r"-->\s*(\S*?/?src/\S+)", err)
            msg = next(x for x in m.groups() if x) + (f" at {where.group(1)}" if where else "")
            stack = [l.strip() for l in err.splitlines() if "inside `" in l][:6]
            what = dict(unit=f"{target}: {item}", item=0, msg=msg + "; " + " ".join(stack), args=[coord, portable, k, of, size], target=target, flags=flags, probe=item)
            if f"{target}: {item}" in known:
                knowns.append(f"{target}: {item}")
            else:
                viol.append(what)
        compared = 0
        if prop == "M25" and ref_ok:
            for n in sorted(got):
                compared += 1
                if n not in ref:
                    raise Broken(f"{target} explores {n}, which the reference platform does not")
                if ref[n] != got[n]:
                    u = f"{target}: {n}"
                    if u in known:
                        knowns.append(u)
                        continue
                    viol.append(dict(unit=u, item=0, msg=f"results differ: {got[n]} here, {ref[n]} on x86_64", args=[coord, portable, 0, 1, size], target=target, flags=flags, probe=n))
                    break
        reps.append(dict(prop=prop, profile=f"miri {target} {flags}", violations=[], states=len(got), evaluations=obs, items=len(got), compared=compared,
                         wall_s=round(time.time() - t0, 1), samples=[f"{target}: {n} -> {got[n]}" for n in list(got)[:: max(1, len(got) // 6)][:6]],
                         units=[dict(unit=f"{target}, coordinates of {coord} bits, size {size}", items=len(got), complete_space=False)]))
    if not reps:
        raise Broken("nothing was run")
    reps[0]["violations"] = viol
    reps[0]["known"] = knowns
    return reps


# ---------------------------------------------------------------------------------------------------------------------

def check(prop, tier):
    t0 = time.time()
    if prop in NATIVE:
        reps = decide_native(prop, tier)
    elif prop in MIRI:
        reps = decide_miri(prop, tier)
    elif prop == "M26":
        reps = decide_profiles(prop, tier)
    else:
        raise Broken(f"unknown property {prop}")
    viol = [(r, v) for r in reps for v in r["violations"]]
    known = known_for(prop)
    for r in reps:
        for k in r.get("known", []):
            key = k.split(": ")[0] if prop in NATIVE else k
            log(f"KNOWN-FINDING: property={prop} {known.get(key, k)}")
    cov = coverage_of(reps)
    if prop in ("M24", "M25", "M26", "M39"):
        cov["rule"] = {
            "M24": "every item of the probe is executed by the Miri interpreter, which checks every memory access; a state is one item (a node, a bit range, a conversion, ... with all operations on it), a transition one observed result",
            "M25": "every item of the probe is executed by the Miri interpreter for the foreign platform and natively, and the digests of everything observed are compared item by item",
            "M26": "every item of the probe is executed in every build profile and the digests of everything observed are compared item by item",
            "M39": "a state is a machine instruction of a first operation at which a second one is let in, a transition one execution of the second, a trace one controlled schedule of the two executed on the real code with both results compared, an evaluation one pair of operations",
        }[prop]
        cov["digests_compared"] = sum(r.get("compared", 0) for r in reps)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
              assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    for k, (r, v) in enumerate(viol[:20]):
        p = replay_file(prop, k, dict(tier=tier, profile=r.get("profile"), **v))
        log(f"{v['unit']}#{v['item']}: {v['msg']}")
        log(f"VIOLATION property={prop} replay={p}")
    log(f"{prop} {tier}: {'VIOLATED' if viol else 'held'}; states={cov['states']} transitions={cov['transitions']} items={cov['traces_validated_against_impl']} wall={ev['wall_s']}s")
    return 1 if viol else 0


def replay(path):
    d = json.load(open(path))
    prop, tier = d["property"], d["tier"]
    if prop in MIRI:
        miri_build(d["target"])
        rc, out, err = shard(d["target"], d["args"][0], d["args"][1], d["args"][4], d["flags"], d["args"][2], d["args"][3])
        got, _ = parse(out)
        log(out[-500:], err[-3000:])
        if rc != 0:
            return 1
        ref_exe = os.path.join(build("mini", "release"), "mini")
        _, out, _ = run([ref_exe, str(d["args"][0]), str(d["args"][1]), "0", "1", str(d["args"][4])])
        ref, _ = parse(out)
        n = d["probe"]
        log(f"{n}: {got.get(n)} on {d['target']}, {ref.get(n)} on x86_64")
        return int(prop == "M25" and got.get(n) != ref.get(n))
    if prop == "M26":
        seen = set()
        for p in ("release", "plain", "dev"):
            exe = os.path.join(build("m26", p), "m26")
            rc, out, err = run([exe, "--tier", tier, "--replay", f"{d['unit']}#{d['item']}"], mem=8 * GB)
            m = re.search(r"digest (\w+)", out)
            log(p, rc, m.group(1) if m else out)
            seen.add((rc, m.group(1) if m else out))
        return int(len(seen) > 1)
    exe = os.path.join(build(prop.lower(), d["profile"]), prop.lower())
    rc, out, err = run([exe, "--tier", tier, "--replay", f"{d['unit']}#{d['item']}"], mem=8 * GB)
    log(out, err)
    return 0 if rc == 0 else 1


def setup():
    """Builds everything in advance. What does not build here is left to the check that needs it."""
    bins = sorted({p.lower() for p in NATIVE} | {"m26", "mini"})
    for f in (
        lambda: build(bins, "release"),
        lambda: build(["m03", "m26"], "plain"),
        lambda: build(["m26"], "dev"),
        lambda: miri_builds([PLAIN, "s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"]),
    ):
        try:
            f()
        except Broken as e:
            print(f"setup: {e}", file=sys.stderr, flush=True)
    return 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i : i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        if argv[:1] == ["--setup"]:
            return setup()
        if argv[:1] == ["--replay"]:
            return replay(argv[1])
        if len(argv) != 1:
            print("usage: check <property> [--tier quick|thorough] | --replay <file> | --setup", file=sys.stderr)
            return 2
        return check(argv[0], tier)
    except Broken as e:
        print(f"ERROR: {e}", file=sys.stderr, flush=True)
        return 2
    finally:
        shutil.rmtree(os.path.join(TARGET, "scratch", str(os.getpid())), ignore_errors=True)
