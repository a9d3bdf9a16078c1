#!/usr/bin/env python3
"""Build the explorers from /repo's working tree and run one property's exploration.

  run.py setup                    build everything once
  run.py check PROP [quick|thorough]
  run.py replay FILE              show the recorded execution again, step by step
  run.py list PROP [tier]
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, "target")
CONFIGS = {
    "epoll": "",
    "poll": "--cfg polling_test_poll_backend",
    "epoll-pipe": "--cfg polling_test_epoll_pipe",
}
# The crate as other systems compile it, against the simulated kernels of mcstd/src/kq.rs.
OTHER = {"freebsd": "freebsd", "netbsd": "netbsd", "illumos": "illumos", "windows": "windows",
         "espidf": "espidf", "hermit": "hermit", "vita": "vita", "haiku": "haiku", "redox": "redox"}
# Which of these a property is about; the others are explored on CONFIGS.
ABOUT = {"C20": ["freebsd", "netbsd"], "C21": ["freebsd", "netbsd"], "C22": ["freebsd", "netbsd"], "C23": ["illumos"],
         "C18": list(CONFIGS) + ["freebsd", "netbsd", "illumos", "redox"],
         "C24": ["windows"], "C25": ["windows"], "C26": ["windows"], "C27": ["espidf", "hermit", "vita", "haiku", "redox"],
         "C28": list(CONFIGS) + ["freebsd", "netbsd", "illumos", "windows", "espidf"]}
JOBS = min(8, os.cpu_count() or 8)
ENV = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC", "CARGO_BUILD_RUSTFLAGS")}
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"

ASSUMPTIONS = [
    "The scheduler explores sequentially consistent interleavings of locks, condition variables, atomics and system calls; weaker memory orderings are not modelled.",
    "System calls of the crate are executed by the real Linux kernel of this machine; clocks, timers and blocking are virtual (the kernel decides readiness, the explorer decides when a blocked call returns).",
    "C18, C20-C23: the kernels behind kqueue and event ports are simulated (mcstd/src/kq.rs, after the manual pages); the readiness of a source is that of the real descriptor.",
    "C24-C26: completion ports, AFD polls, waitable objects and the thread pool are simulated (mcstd/src/win.rs, after the documentation and what wepoll relies on); the state of a socket is that of a real Linux socket.",
    "C27: what eventfds do on ESP-IDF, pipes on Vita, and the calls of Hermit, follow the comments in src/poll.rs and hermit-abi's documentation (mcstd/src/sysc.rs).",
    "C28: memory is what the crate's code allocates on the heap; the kernel's own memory is not seen.",
    "Bounds (threads, operations per thread, preemptions, sequence length, alphabet) are those named in each item.",
]


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def forget(target, crates):
    """Make cargo rebuild these crates whatever the file times say."""
    d = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(d):
        for n in os.listdir(d):
            if n.rsplit("-", 1)[0] in crates:
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def build_mcstd():
    t = os.path.join(T, "mcstd")
    env = dict(ENV, CARGO_TARGET_DIR=t)
    rc, out = sh(["cargo", "build", "--offline", "-q"], env, os.path.join(V, "mcstd"))
    if rc:
        raise BuildError("mcstd:\n" + out)
    return os.path.join(t, "debug", "libmcstd.rlib")


def write(path, text):
    """Only if it is something else: cargo goes by the file times."""
    if not os.path.exists(path) or open(path).read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)


def conditions(text, to):
    """Replace words within cfg(...) and cfg_attr(...)."""
    out, at = [], 0
    for m in re.finditer(r"\bcfg(_attr)?\(", text):
        if m.start() < at:
            continue
        depth, i = 1, m.end()
        while i < len(text) and depth:
            depth += {"(": 1, ")": -1}.get(text[i], 0)
            i += 1
        out += [text[at:m.end()], re.sub(r"\b(" + "|".join(to) + r")\b", lambda x: to[x.group(1)], text[m.end():i])]
        at = i
    return "".join(out) + text[at:]


WINDOWS_DEPS = f"""concurrent-queue = {{ path = "{V}/shim/concurrent-queue" }}
pin-project-lite = "0.2.9"

[dependencies.windows-sys]
version = "0.59"
features = ["Wdk_Foundation", "Wdk_Storage_FileSystem", "Win32_Foundation", "Win32_Networking_WinSock", "Win32_Security",
    "Win32_Storage_FileSystem", "Win32_System_IO", "Win32_System_LibraryLoader", "Win32_System_Threading",
    "Win32_System_WindowsProgramming"]
"""


def generate(cfg):
    """The crate's sources as the compiler would select them on another system: the conditions on
    the operating system are replaced by their outcome there. Nothing else changes."""
    g = os.path.join(T, "gen", cfg)
    src = "/repo/src"
    keep = set()
    for d, _, files in os.walk(src):
        for n in files:
            a = os.path.join(d, n)
            b = os.path.join(g, "polling", "src", os.path.relpath(a, src))
            text = open(a).read()
            text = re.sub(r'target_os\s*=\s*"(\w+)"', lambda m: "all()" if m.group(1) == OTHER[cfg] else "any()", text)
            text = re.sub(r'target_vendor\s*=\s*"\w+"', "any()", text)
            if cfg == "windows":
                text = conditions(text, {"windows": "all()", "unix": "any()"})
            if cfg == "hermit":
                text = conditions(text, {"unix": "any()"})
            write(b, text)
            keep.add(b)
    for d, _, files in os.walk(os.path.join(g, "polling", "src")):
        for n in files:
            if os.path.join(d, n) not in keep:
                os.unlink(os.path.join(d, n))
    write(os.path.join(g, "polling", "Cargo.toml"), f"""[package]
name = "polling"
version = "3.7.4"
edition = "2021"

[dependencies]
cfg-if = "1"
tracing = {{ version = "0.1.37", default-features = false }}
""" + (WINDOWS_DEPS if cfg == "windows" else 'hermit-abi = "0.5.0"\n' if cfg == "hermit" else f"""rustix = {{ package = "rustix-shim", path = "{V}/shim/rustix" }}
"""))
    mc = open(os.path.join(V, "mc", "Cargo.toml")).read()
    mc = mc.replace('path = "/repo"', 'path = "../polling"')
    mc = mc.replace("[workspace]\n", f'[workspace]\n\n[[bin]]\nname = "mc"\npath = "{V}/mc/src/main.rs"\n')
    write(os.path.join(g, "mc", "Cargo.toml"), mc)
    lock = os.path.join(V, "shim", "Cargo.lock")
    if os.path.exists(lock):
        write(os.path.join(g, "mc", "Cargo.lock"), open(lock).read())
    return os.path.join(g, "mc")


def build_cfg(cfg, rlib, digest, crate="mc"):
    t = os.path.join(T, cfg)
    env = dict(ENV, CARGO_TARGET_DIR=t, MCSTD_RLIB=rlib, RUSTC_WRAPPER=os.path.join(V, "tools", "wrap.sh"))
    flags = CONFIGS[cfg] if cfg in CONFIGS else f'--cfg mcbk="{cfg}"'
    env["RUSTFLAGS"] = (flags + f' --cfg mch="h{digest}" -Awarnings').strip()
    forget(t, {"polling", "concurrent-queue", crate})
    rc, out = sh(["cargo", "build", "--offline", "-q"], env, os.path.join(V, crate) if cfg in CONFIGS else generate(cfg))
    if rc:
        raise BuildError(f"{cfg}:\n" + out)
    return os.path.join(t, "debug", crate)


def build(cfgs=None):
    rlib = build_mcstd()
    digest = hashlib.sha256(open(rlib, "rb").read()).hexdigest()[:16]
    cfgs = cfgs or list(CONFIGS) + list(OTHER)
    with ThreadPoolExecutor(len(cfgs)) as ex:
        return dict(zip(cfgs, ex.map(lambda c: build_cfg(c, rlib, digest), cfgs)))


def known_findings(prop):
    """Lines of known-findings.txt that suppress: `known: property=<id> item=<regex> msg=<regex> -- text`."""
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) item=(\S+) msg=(.*?) -- (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


PROCS = set()
PLOCK = threading.Lock()


def run_job(binp, prop, tier, idx, share, secs):
    cmd = [binp, "run", prop, tier, str(idx), share, str(secs)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, start_new_session=True)
    with PLOCK:
        PROCS.add(p)
    try:
        out, err = p.communicate(timeout=secs + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return None, f"no answer after {secs + 120} s: {' '.join(cmd)}\n{err[-2000:]}"
    finally:
        with PLOCK:
            PROCS.discard(p)
    if p.returncode != 0:
        return None, f"exit {p.returncode}: {' '.join(cmd)}\n{err[-3000:]}"
    try:
        return json.loads(out.strip().splitlines()[-1]), None
    except Exception as e:
        return None, f"bad output ({e}): {' '.join(cmd)}\n{out[-1000:]}\n{err[-1000:]}"


def check(prop, tier):
    t0 = time.time()
    budget = float(os.environ.get("MC_BUDGET", 600 if tier == "quick" else 6 * 3600))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        bins = build(ABOUT.get(prop, list(CONFIGS)))
    except BuildError as e:
        print(f"ERROR: cannot build the explorer for {prop}\n{e}")
        return 2
    built = time.time() - t0
    jobs = []
    for cfg, b in bins.items():
        rc, out = sh([b, "list", prop, tier])
        if rc:
            print(f"ERROR: {b} list {prop}: {out}")
            return 2
        for idx, line in enumerate(out.splitlines()):
            shards, name = line.split("\t", 1)
            for i in range(int(shards)):
                jobs.append((int(shards), cfg, b, idx, f"{i}/{shards}", name))
    if not jobs:
        print(f"ERROR: nothing to explore for {prop}")
        return 2
    jobs.sort(key=lambda j: -j[0])
    known = known_findings(prop)
    results, errors, violations, hits = [], [], [], []
    stop = threading.Event()
    waiting = [len(jobs)]

    def one(j):
        _, cfg, b, idx, share, name = j
        if stop.is_set():
            return
        left = budget - (time.time() - t0)
        if left < 1:
            results.append({"item": name, "execs": 0, "pruned": 0, "states": 0, "transitions": 0, "depth": 0,
                            "outcomes": 0, "nontrivial": 0, "capped": True, "secs": 0, "counters": {}, "cfg": cfg})
            return
        # A long item may take several times its share of what is left, but not all of it.
        with PLOCK:
            share_of = left * JOBS / max(1, waiting[0])
            waiting[0] -= 1
        r, err = run_job(b, prop, tier, idx, share, int(min(left, max(left / 4, 6 * share_of))))
        if err:
            errors.append(err)
            stop.set()
            return
        r["cfg"] = cfg
        results.append(r)
        v = r.get("violation")
        if v:
            if not v["reproduced"]:
                errors.append(f"{name}: a violation did not reproduce: {v['msg']}")
                return
            for ri, rm, text in known:
                if ri.search(name) and rm.search(v["msg"]):
                    hits.append(text)
                    return
            violations.append((name, v))
            stop.set()

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    wall = time.time() - t0
    by = {}
    for r in results:
        d = by.setdefault(r["item"], {"execs": 0, "pruned": 0, "states": 0, "transitions": 0, "depth": 0, "outcomes": 0,
                                      "capped": False, "secs": 0.0})
        for k in ("execs", "pruned", "states", "transitions", "secs"):
            d[k] += r[k]
        d["depth"] = max(d["depth"], r["depth"])
        d["outcomes"] = max(d["outcomes"], r["outcomes"])
        d["capped"] |= r["capped"]
    counters = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    samples = []
    for r in sorted(results, key=lambda r: hashlib.sha256((str(seed) + r["item"]).encode()).hexdigest()):
        if r.get("sample") and len(samples) < 4:
            samples.append({"item": r["item"], "execution": r["sample"][:80]})
    tot = lambda k: sum(r[k] for r in results)
    capped = sorted({r["item"] for r in results if r["capped"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("states"),
            "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("execs"),
            "executions_cut_by_partial_order_reduction": tot("pruned"),
            "executions_nontrivial": tot("nontrivial"),
            "longest_execution": max((r["depth"] for r in results), default=0),
            "programs": len(by),
            "exhaustive": not capped and not errors and not violations,
            "capped_items": capped,
            "counters": counters,
            "rule": "Every execution runs the crate compiled from /repo (no model stands between): 'states' are distinct "
                    "decision points reached, 'transitions' the visible operations executed, and each execution is one complete "
                    "trace of the implementation compared with the reference model / history rules. Non-trivial: a wait returned "
                    "or an event was delivered.",
            "samples": samples,
            "items": {k: {a: (round(b, 2) if a == "secs" else b) for a, b in v.items()} for k, v in sorted(by.items())}
            if len(by) <= 400 else {"count": len(by)},
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(by)} items, {tot('execs')} executions (+{tot('pruned')} cut), {tot('states')} states, "
          f"{tot('transitions')} transitions, {len(capped)} capped; build {built:.1f} s, total {wall:.1f} s")
    for text in sorted(set(hits)):
        print(f"KNOWN-FINDING: property={prop} {text}")
    if violations:
        d = os.path.join(V, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        violations.sort(key=lambda x: (len(x[1]["log"]), x[0]))
        name, v = violations[0]
        h = hashlib.sha256((name + str(v["trail"])).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "item": name, "message": v["msg"], "trail": v["trail"],
                       "bound": v["bound"], "execution": v["log"]}, f, indent=1)
        print(f"{name}: {v['msg']}")
        for l in v["log"][-60:]:
            print("   ", l)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR:", e)
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    cfg = d["item"].split("/")[0]
    b = build([cfg])[cfg]
    return subprocess.call([b, "replay", d["property"], d["tier"], d["item"], ",".join(map(str, d["trail"])), str(d["bound"])])


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        try:
            build()
        except BuildError as e:
            print(e)
            return 1
        return 0
    if a[:1] == ["check"]:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], tier)
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["list"]:
        for cfg, b in build(ABOUT.get(a[1], list(CONFIGS))).items():
            subprocess.call([b, "list", a[1], a[2] if len(a) > 2 else "quick"])
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    finally:
        for p in list(PROCS):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
    sys.exit(rc)
