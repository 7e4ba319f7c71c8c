#!/usr/bin/env python3
"""Runs one property's check:  run_check.py C01 [--tier quick|thorough]
Replays one case:             run_check.py C01 --replay FILE [--san]

Builds the harness from /repo's working tree, generates the cases in parallel
shards, shrinks a failure, confirms it three times in fresh processes, prints
"VIOLATION property=<id> replay=<path>" and exits 1; exits 0 when every case
held.  Any other exit status is an error of the check itself.
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MONAA_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)
from checks import CHECKS

T0 = time.monotonic()
WORKERS = min(8, os.cpu_count() or 1)


def say(*a):
    print(*a, flush=True)


def die(msg):
    say("ERROR:", msg)
    sys.exit(2)


# ---- build -------------------------------------------------------------------
VARIANTS = {
    "fast": ["-O1", "-g0"],
    "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
}
BASE = ["-std=c++20", "-w", "-DBOOST_GRAPH_USE_SPIRIT_PARSER",
        '-DMONAA_VERSION="check"', f'-DPROJECT_ROOT_DIR="{REPO}"']


def run_all(cmds):
    """Runs commands in parallel; returns the first failure's output."""
    errs, lock, it = [], threading.Lock(), iter(cmds)

    def work():
        while True:
            with lock:
                c = next(it, None)
            if c is None:
                return
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                with lock:
                    errs.append(" ".join(c) + "\n" + r.stdout[-6000:])

    ts = [threading.Thread(target=work) for _ in range(WORKERS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return errs[0] if errs else None


def build(pid, spec, variants):
    """Returns {variant: harness path}, {tool: path}."""
    d = os.path.join(BUILD, pid)
    shutil.rmtree(d, ignore_errors=True)
    gen = os.path.join(d, "gen")
    os.makedirs(gen)
    for cmd in (["flex", "-o", f"{gen}/tre_lexer.yy.cc", f"{REPO}/monaa/tre_lexer.l"],
                ["bison", "-d", "-o", f"{gen}/tre_parser.tab.cc", f"{REPO}/monaa/tre_parser.yy"]):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            die("cannot build the parser\n" + r.stdout)
    # the parser header is included under either name
    inc = ["-I", f"{REPO}/monaa", "-I", f"{REPO}/libmonaa", "-I", gen,
           "-I", f"{HERE}/harness", "-I", "/usr/include/eigen3", "-I", REPO]
    mains = {"monaa": f"{REPO}/monaa/main.cc", "tre2ta": f"{REPO}/monaa/tre2ta.cc"}
    lib = sorted(glob.glob(f"{REPO}/libmonaa/*.cc") + glob.glob(f"{REPO}/monaa/*.cc"))
    lib = [f for f in lib if f not in mains.values()]
    lib += [f"{gen}/tre_lexer.yy.cc", f"{gen}/tre_parser.tab.cc"]
    harness = f"{HERE}/harness/{spec['harness']}.cc" if spec.get("harness") else None
    cmds, links = [], []
    exes, tools = {}, {}
    for v in variants:
        fl = ["g++"] + BASE + VARIANTS[v] + inc
        objs = []
        od = os.path.join(d, v)
        os.makedirs(od)
        for s in lib:
            o = os.path.join(od, os.path.basename(s) + ".o")
            objs.append(o)
            cmds.append(fl + ["-c", s, "-o", o])
        if harness:
            o = os.path.join(od, "harness.o")
            cmds.insert(0, fl + ["-c", harness, "-o", o])
            exe = os.path.join(d, "harness." + v)
            links.append(["g++"] + VARIANTS[v] + [o] + objs + ["-Wl,--wrap=exit", "-o", exe] + spec.get("libs", []))
            exes[v] = exe
        if v == variants[0] or v in spec.get("tool_variants", []):
            for t in spec.get("tools", []):
                o = os.path.join(od, t + ".main.o")
                cmds.insert(0, fl + ["-c", mains[t], "-o", o])
                exe = os.path.join(d, t + "." + v)
                links.append(["g++"] + VARIANTS[v] + [o] + objs + ["-lboost_program_options", "-o", exe])
                tools[t + "." + v] = exe
    for part in (cmds, links):
        e = run_all(part)
        if e:
            die("build failed\n" + e)
    return exes, tools


# ---- run ---------------------------------------------------------------------
def env_for(spec, tools):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=77"
    e["LC_ALL"] = "C"
    for k, p in tools.items():
        e["TOOL_" + k.replace(".", "_").upper()] = p
    return e


def campaign(pid, spec, exe, variant, cases, seed, soft, env, work):
    """Runs the shards; returns (stats, hashes, replay or None, exe)."""
    os.makedirs(work, exist_ok=True)
    per = max(1, cases // WORKERS)
    procs = []
    for sh in range(WORKERS):
        tag = f"{work}/{variant}{sh}"
        for suffix in (".json", ".hashes", ".replay"):
            if os.path.exists(tag + suffix):
                os.remove(tag + suffix)
        cmd = [exe, "--mode", "run", "--seed", str(seed), "--shard", str(sh + (100 if variant == "san" else 0)),
               "--cases", str(per), "--soft", f"{soft:.1f}", "--cpu", str(spec.get("cpu", 120)),
               "--out", tag + ".json", "--hashes", tag + ".hashes", "--replay", tag + ".replay"]
        log = open(tag + ".log", "w")
        procs.append((tag, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env,
                                            cwd=work, start_new_session=True)))
    failed, broken = None, None
    pending = dict(enumerate(procs))
    while pending and not failed:
        for k in list(pending):
            tag, p = pending[k]
            rc = p.poll()
            if rc is None:
                continue
            del pending[k]
            if rc == 3:
                failed = tag + ".replay"
                break
            if rc != 0:
                broken = f"shard {k} ended with status {rc}: " + open(tag + ".log").read()[-800:]
        time.sleep(0.05)
    for tag, p in pending.values():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    if broken and not failed:
        die(broken)
    st = {"evaluations": 0, "nontrivial": 0, "discarded": 0, "unstable": 0, "soft_stop": False, "labels": {}, "samples": []}
    hashes = set()
    for tag, _ in procs:
        try:
            j = json.load(open(tag + ".json"))
        except (OSError, ValueError):
            continue
        for k in ("evaluations", "nontrivial", "discarded", "unstable"):
            st[k] += j[k]
        st["soft_stop"] = st["soft_stop"] or j["soft_stop"]
        for k, n in j["labels"].items():
            st["labels"][k] = st["labels"].get(k, 0) + n
        st["samples"] += j["samples"][:2]
        hashes.update(l.strip() for l in open(tag + ".hashes"))
    return st, hashes, failed


def confirm(exe, replay, env, times=3):
    for _ in range(times):
        r = subprocess.run([exe, "--mode", "replay", "--replay", replay], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, env=env)
        if r.returncode != 3:
            return False
    return True


def shrink(exe, replay, out, env, seconds):
    p = subprocess.Popen([exe, "--mode", "shrink", "--replay", replay, "--out", out],
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, start_new_session=True)
    try:
        p.wait(timeout=seconds)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGTERM)
        p.wait()
    return os.path.exists(out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--san", action="store_true")
    a = ap.parse_args()
    pid = a.property
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    phases = spec[a.tier]          # [(variant, cases, soft seconds)]
    if a.replay:
        v = "san" if a.san else "fast"
        exes, tools = build(pid, spec, [v])
        r = subprocess.run([exes[v], "--mode", "replay", "--replay", a.replay], env=env_for(spec, tools))
        sys.exit(1 if r.returncode == 3 else 0)
    variants = []
    for v, _, _ in phases:
        if v not in variants:
            variants.append(v)
    exes, tools = build(pid, spec, variants)
    built = time.monotonic() - T0
    say(f"{pid}: built in {built:.0f} s")
    env = env_for(spec, tools)
    work = os.path.join(BUILD, pid, "work")
    total, hashes, per_variant, violation = None, set(), {}, None
    limit = spec.get("wall", {}).get(a.tier, 780 if a.tier == "thorough" else 400)
    for v, cases, soft in phases:
        soft = min(soft, max(5.0, limit - (time.monotonic() - T0)))
        t = time.monotonic()
        st, hs, failed = campaign(pid, spec, exes[v], v, cases, seed, soft, env, work)
        per_variant[v] = {"evaluations": st["evaluations"], "discarded": st["discarded"],
                          "seconds": round(time.monotonic() - t, 1), "soft_stop": st["soft_stop"]}
        say(f"{pid}: {v}: {st['evaluations']} cases, {st['nontrivial']} non-trivial, "
            f"{st['discarded']} discarded, {time.monotonic() - t:.0f} s" + (" (time limit)" if st["soft_stop"] else ""))
        hashes |= hs
        if total is None:
            total = st
        else:
            for k in ("evaluations", "nontrivial", "discarded", "unstable"):
                total[k] += st[k]
            for k, n in st["labels"].items():
                total["labels"][k] = total["labels"].get(k, 0) + n
            total["samples"] += st["samples"]
        if failed:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            dst = os.path.join(HERE, "replays", f"{pid}-{v}-seed{seed}.txt")
            small = failed + ".small"
            if os.path.exists(small):
                os.remove(small)
            ok = confirm(exes[v], failed, env)
            if not ok:
                # never reported: a verdict has to be reproducible
                total["unstable"] += 1
                say(f"{pid}: a failure did not reproduce: {failed}")
                continue
            left = max(20.0, min(120.0, 840 - (time.monotonic() - T0)))
            if shrink(exes[v], failed, small, env, left) and confirm(exes[v], small, env, 2):
                shutil.copy(small, dst)
            else:
                shutil.copy(failed, dst)
            with open(dst, "a") as f:
                f.write(f"variant: {v}\nrerun: python3 {HERE}/run_check.py {pid} --replay {dst}"
                        + (" --san" if v == "san" else "") + "\n")
            violation = dst
            break
    samples = [s for s in total["samples"] if s][:6]
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": len(hashes),
            "rule": spec["rule"],
            "samples": samples,
            "classes": dict(sorted(total["labels"].items())),
            "discarded": total["discarded"],
            "unreproduced_failures": total["unstable"],
            "variants": per_variant,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.monotonic() - T0, 1),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    known = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(known):
        for line in open(known):
            m = re.match(r"finding: property=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                say(f"KNOWN-FINDING: property={pid} {m.group(2).strip()}")
    if violation:
        say(open(violation).read()[:3000])
        say(f"VIOLATION property={pid} replay={violation}")
        sys.exit(1)
    say(f"{pid}: held on {total['evaluations']} cases ({len(hashes)} distinct non-trivial), "
        f"{time.monotonic() - T0:.0f} s")
    if os.environ.get("KEEP_BUILD") is None:
        shutil.rmtree(os.path.join(BUILD, pid), ignore_errors=True)
    sys.exit(0)


if __name__ == "__main__":
    main()
