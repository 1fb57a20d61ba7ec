#!/usr/bin/env python3
"""matrix.py ID TIER SEED STARTED: type-checks /repo (through the witness crate, which names the interface every
configuration must offer) under every feature subset, without std on bare-metal targets and under the fuzzing cfg.
Deciding step: the compiler's name resolution and type checking; nothing is linked or run."""
import itertools, json, os, queue, subprocess, sys, threading, time
ID, tier, seed, started = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t0 = time.time()
FEATS = ["std", "alloc", "io", "bitcoin-io", "small-hash", "serde", "schemars"]
BARE = ["alloc", "io", "bitcoin-io", "small-hash", "serde"]
def subsets(l): return [list(c) for n in range(len(l) + 1) for c in itertools.combinations(l, n)]
jobs = []  # (lane, label, toolchain, target, features, rustflags)
# neighbours in this order share their dependencies
for i, f in enumerate(sorted(subsets(FEATS), key=lambda f: [x in f for x in ("schemars", "serde", "std", "alloc", "bitcoin-io", "io", "small-hash")])):
    jobs.append((i // 32, "host", None, None, f, ""))
fz = subsets(FEATS) if tier == "thorough" else [[], ["std"], ["alloc"], ["std", "io"], ["small-hash"], ["std", "serde"], ["std", "schemars"], FEATS]
for f in fz: jobs.append((4, "host, cfg(hashes_fuzz)", None, None, f, "--cfg hashes_fuzz"))
targets = ["thumbv7em-none-eabi", "thumbv6m-none-eabi", "x86_64-unknown-none"] + (["riscv32i-unknown-none-elf"] if tier == "thorough" else [])
quick = [[], ["alloc"], ["io"], ["alloc", "io"], ["serde"], ["alloc", "serde"], ["small-hash"], ["bitcoin-io"], BARE]
for n, t in enumerate(targets):
    for f in (subsets(BARE) if tier == "thorough" else quick): jobs.append((5 + n, t, "+nightly", t, f, ""))
lanes = {}
for j in jobs: lanes.setdefault(j[0], []).append(j)
bad, good, errs, lock = [], [], [], threading.Lock()
def features_line(f): return ",".join(f) or "(none)"
def run(lane, js):
    for _, label, tc, target, f, flags in js:
        cmd = ["cargo"] + ([tc] if tc else []) + ["check", "-q", "--offline", "--no-default-features", "--features", ",".join(f), "--message-format=short"]
        if target: cmd += ["--target", target, "-Zbuild-std=core,alloc"]
        env = dict(os.environ, CARGO_TARGET_DIR=f"{here}/out/matrix/{lane}", CARGO_INCREMENTAL="0", RUSTFLAGS=(flags + " -Awarnings").strip())
        r = subprocess.run(cmd, cwd=f"{here}/witness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with lock:
            if r.returncode == 0: good.append((label, f))
            elif "error" in r.stdout and ("/repo/" in r.stdout or "src/lib.rs" in r.stdout): bad.append((label, f, r.stdout))
            else: errs.append((label, f, r.stdout))
# never trust timestamps: always re-check the crate itself
for lane in lanes:
    subprocess.run(f"rm -rf {here}/out/matrix/{lane}/*/.fingerprint/chf-* {here}/out/matrix/{lane}/*/*/.fingerprint/chf-* {here}/out/matrix/{lane}/*/.fingerprint/witness-* {here}/out/matrix/{lane}/*/*/.fingerprint/witness-* {here}/out/matrix/{lane}/*/build/chf {here}/out/matrix/{lane}/*/build/witness {here}/out/matrix/{lane}/*/*/build/chf {here}/out/matrix/{lane}/*/*/build/witness", shell=True)
ths = [threading.Thread(target=run, args=(l, js)) for l, js in lanes.items()]
[t.start() for t in ths]; [t.join() for t in ths]
per = {}
for l, _ in good: per[l] = per.get(l, 0) + 1
os.makedirs(f"{here}/evidence", exist_ok=True); os.makedirs(f"{here}/out/replay", exist_ok=True)
path = f"{here}/out/replay/{ID}.txt"
json.dump({"property": ID, "tier": tier, "seed": seed, "level": "other", "coverage": {
    "explanation": "the compiler's own static analysis (name resolution, type checking, lints) of /repo's current tree under each configuration, through a crate that uses the interface every configuration must offer; nothing is linked or executed",
    "rule": "the crate and the user of its always-available interface type-check in the configuration",
    "configurations": len(jobs), "accepted": len(good), "rejected": len(bad), "not_checked": len(errs), "accepted_per_target": per,
    "not_checked_list": [f"{l}: {features_line(f)}" for l, f, _ in errs][:20],
    "samples": [f"{l}: {features_line(f)}" for l, f in sorted(good)[:: max(1, len(good) // 6)]],
    "trusted_base": ["rustc", "cargo's feature resolution"]}, "assumptions": ["the toolchains installed here; older compilers are not available offline"],
    "wall_s": round(time.time() - t0 + started, 2), "violations": len(bad)}, open(f"{here}/evidence/{ID}.json", "w"), indent=1)
print(f"{ID} [{tier}]: {len(jobs)} configurations, {len(good)} accepted, {len(bad)} rejected, {len(errs)} not checked, {time.time() - t0:.1f} s")
for l, f, o in errs[:3]: print(f"  not checked: {l}: {features_line(f)}: {o.strip()[-300:]}")
if bad:
    bad.sort(key=lambda b: (len(b[1]), b[0]))
    with open(path, "w") as w:
        w.write(f"property {ID}: {len(bad)} configuration(s) rejected by the compiler\n")
        for l, f, o in bad: w.write(f"\n== {l}; features {features_line(f)}\ncargo check --no-default-features --features '{','.join(f)}'\n{o}")
    l, f, o = bad[0]
    print(f"rejected: {l}; features {features_line(f)}")
    print("\n".join(x for x in o.splitlines() if "error" in x)[:1500])
    print(f"VIOLATION property={ID} replay={path}")
    sys.exit(1)
if os.path.exists(path): os.remove(path)
if len(good) < len(jobs) * 0.9: sys.exit(2)
