#!/usr/bin/env python3
# The interpreted part of C05. miri.py TIER: run it and add what it covered to the evidence.
# miri.py --replay FILE: run one history again.
import json, os, subprocess, sys, time
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
out = os.environ.get("MC_VERIF", root)
BASE = "-Zmiri-ignore-leaks"
PLAIN, TREE = BASE + " -Zmiri-disable-stacked-borrows", BASE + " -Zmiri-tree-borrows"
def cmd(*a):
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(root, "miri/Cargo.toml"), "--", *map(str, a)]
def env(flags):
    e = dict(os.environ, MIRIFLAGS=flags, CARGO_NET_OFFLINE="true")
    e.pop("RUSTFLAGS", None); e.pop("RUSTC_BOOTSTRAP", None)
    return e
def engine(m):
    print("ENGINE ERROR: " + m, file=sys.stderr); sys.exit(2)
def ub(txt):
    ls = [l for l in txt.splitlines() if "Undefined Behavior" in l]
    return ls[0].strip() if ls else None
if sys.argv[1] == "--replay":
    f = dict(l.split("=", 1) for l in open(sys.argv[2]) if "=" in l)
    r = subprocess.run(cmd(f["type"].strip(), "--", *f["history"].split()), env=env(f["flags"].strip()), capture_output=True, text=True)
    print(r.stdout); print("\n".join(l for l in r.stderr.splitlines() if not l.startswith("warning"))[-6000:])
    if ub(r.stderr):
        print(f"VIOLATION property=C05 replay={sys.argv[2]}"); sys.exit(1)
    sys.exit(0)
tier = sys.argv[1]
t0 = time.time()
r = subprocess.run(cmd(0, 1, 0), env=env(PLAIN), capture_output=True, text=True)
if r.returncode != 0:
    print(r.stderr[-3000:], file=sys.stderr); engine("building the interpreted part failed")
stages = [(PLAIN, 2)] if tier == "quick" else [(TREE, 2), (PLAIN, 3)]
limit = 400 if tier == "quick" else 14000
cov = []
for flags, depth in stages:
    N = 8
    tmp = os.path.join(root, "miri/target")
    ps = []
    for p in range(N):
        err = open(f"{tmp}/err.{p}", "w")
        ps.append((p, subprocess.Popen(cmd(p, N, depth), env=env(flags), stdout=subprocess.PIPE, stderr=err, text=True)))
    execs = ops = 0; bad = None; odd = None
    for p, pr in ps:
        try:
            so, _ = pr.communicate(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            for _, q in ps: q.kill()
            engine("the interpreted part did not end in time")
        d = [l.split() for l in so.splitlines() if l.startswith("DONE")]
        if d:
            execs += int(d[0][1]); ops += int(d[0][2]); continue
        lines = open(f"{tmp}/err.{p}").read().splitlines()
        last = [l for l in lines if l.startswith("@")]
        txt = "\n".join(lines)
        if ub(txt) and last:
            w = last[-1][1:].split()
            k = (len(w), w)
            if bad is None or k < bad[0]:
                i = next(i for i, l in enumerate(lines) if "Undefined Behavior" in l)
                bad = (k, w, "\n".join(lines[i:i + 30]))
        else:
            odd = (p, "\n".join(l for l in lines[-30:] if not l.startswith("@")))
    if bad:
        os.makedirs(f"{out}/replays", exist_ok=True)
        path = f"{out}/replays/C05-miri-{os.getpid()}.replay"
        with open(path, "w") as f:
            f.write(f"property=C05\nflags={flags}\ntype={bad[1][0]}\nhistory={' '.join(bad[1][1:])}\n# replay: python3 tools/miri.py --replay THIS\n\n{bad[2]}\n")
        print(bad[2])
        print(f"VIOLATION property=C05 replay={path}")
        sys.exit(1)
    if odd:
        # stopped by something that is not a memory error (an abort, say): other checks judge that
        print("interpreted part stopped early:", odd[1][-1500:], file=sys.stderr)
        engine("an interpreted history neither ended nor showed undefined behaviour")
    cov.append(dict(depth=depth, flags=flags, histories=execs, operations=ops))
    print(f"C05 interpreted: {execs} histories, {ops} operations, depth {depth}, flags {flags}, {time.time()-t0:.0f} s")
p = f"{out}/evidence/C05.json"
if os.path.exists(p) and "MC_EVIDENCE_DIR" not in os.environ:
    e = json.load(open(p))
    e["coverage"]["interpreted"] = cov
    e["coverage"]["transitions"] += sum(c["operations"] for c in cov)
    e["coverage"]["traces_validated_against_impl"] += sum(c["histories"] for c in cov)
    e["wall_s"] = round(e["wall_s"] + time.time() - t0, 2)
    json.dump(e, open(p, "w"), indent=1)
