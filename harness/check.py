#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--secs N] [--seed N]   decide one property on /repo's working tree
   check.py --replay FILE                                             run one replay file again"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

ASSUME = [
    "OpenSSL's AES, SM4, SM3 and AES-GCM and the textbook GHASH/CBC/FF1/FF3 code in harness/oracle.cpp are right (checked on published vectors before every run)",
    "gcc 13 on x86-64, the sources compiled as in CMakeLists.txt (-O3 -fopenmp) and with AddressSanitizer and array-bounds checks",
    "time() and rand() are replaced by generated values; everything else is the code of /repo as it is",
]

def known_findings():
    """known_findings.txt: 'known: property=<id> id=<tag> <what fails>' and 'fixed: property=<id> <commit> <what failed>'"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out

def run(binary, prop, seed, workers, secs, hard, thorough, known, scratch, out, extra=()):
    cmd = [binary, "--prop", prop, "--seed", str(seed), "--workers", str(workers), "--secs", str(secs), "--hard", str(hard),
           "--out", out, "--scratch", scratch, "--known", ",".join(known)] + (["--thorough"] if thorough else []) + list(extra)
    return subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=ENV)

ENV = dict(os.environ)
ENV.pop("ASAN_OPTIONS", None); ENV.pop("UBSAN_OPTIONS", None); ENV.pop("OMP_NUM_THREADS", None); ENV.pop("MALLOC_PERTURB_", None)
ENV["TZ"] = "UTC"

def replay(path):
    r = json.load(open(path))
    d = B.build()
    tmp = tempfile.mkdtemp(prefix="pbtr")
    try:
        kn = ",".join(k[1] for k in known_findings())
        cmd = [f"{d}/pbt_{r['build']}", "--prop", r["property"], "--seed", str(r["seed"]), "--scratch", tmp + "/s", "--known", kn]
        if r.get("tier") == "thorough":
            cmd.append("--thorough")
        if r["build"] == "cov":
            cmd.append("--cov")
        if r["history"]:
            cmd += ["--history", f"{r['worker']}:{r['from']}:{r['to']}"]
        else:
            open(tmp + "/tape", "w").write(" ".join(map(str, r["tape"])))
            cmd += ["--tape", tmp + "/tape"]
        return subprocess.run(cmd, env=ENV).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--secs", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    thorough = a.tier == "thorough"
    d = B.build()
    secs = a.secs if a.secs else (480 if thorough else 22)
    hard = max(secs * 1.5, secs + 200)
    known = known_findings()
    ids = [k[1] for k in known]
    tmp = tempfile.mkdtemp(prefix=f"pbt_{a.prop}_")
    try:
        ncpu = os.cpu_count() or 4
        wr = max(1, min(16, ncpu // 2)); wc = max(1, min(6, ncpu // 4)); wa = max(1, min(6, ncpu - wr - wc))
        if a.prop == "P32":   # the threads of each case are workers too; most of the search is in the build that can stop them anywhere
            wr, wa, wc = max(3, ncpu * 3 // 8), 1, ncpu * 3 // 2
        procs = [(v, run(f"{d}/pbt_{v}", a.prop, a.seed, w, secs, hard, thorough, ids, f"{tmp}/{v}", f"{tmp}/{v}.json",
                           ["--cov"] if v == "cov" else []))
                 for v, w in (("rel", wr), ("asan", wa), ("cov", wc))]
        res = []
        for v, p in procs:
            try:
                _, err = p.communicate(timeout=hard + 400)
            except subprocess.TimeoutExpired:
                p.kill(); _, err = p.communicate()
            if p.returncode not in (0, 1):
                sys.stderr.write(f"{a.prop}: the {v} driver ended with {p.returncode}\n{err[-3000:]}\n")
                return 2
            res.append(json.load(open(f"{tmp}/{v}.json")))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    labels, samples, viol = {}, [], []
    for r in res:
        for k, n in r["labels"].items():
            labels[k] = labels.get(k, 0) + n
        samples += r["samples"][:8]
        for v in r["violations"]:
            viol.append(dict(v, build=r["build"]))
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in res),
            "distinct_nontrivial": sum(r["distinct"] for r in res),
            "rule": "cases are drawn from a recorded choice tape; non-trivial: " + res[0]["rule"],
            "samples": samples or ["(no description recorded)"],
            "per_build": {r["build"]: {"evaluations": r["evaluations"], "nontrivial": r["nontrivial"], "discarded": r["discarded"],
                                       "not_repeated": r["flaky"], **({"guided": r["guided"]} if "guided" in r else {})} for r in res},
            "labels": dict(sorted(labels.items(), key=lambda x: -x[1])[:80]),
            "known_findings_seen": {k["id"]: k["n"] for r in res for k in r["known"]},
        },
        "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    with open(f"{ROOT}/evidence/{a.prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for p, i, what in known:
        if p == a.prop:
            print(f"KNOWN-FINDING: property={p} {what}")
    print(f"{a.prop}: {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s")
    for v in viol:
        os.makedirs(f"{ROOT}/replays", exist_ok=True)
        path = f"{ROOT}/replays/{a.prop}_{v['build']}.json"
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, tier=a.tier, build=v["build"], kind=v["kind"], message=v["msg"], note=v["note"], history=v["history"], seed=v["seed"],
                           worker=v["worker"], **{"from": v["from"]}, to=v["to"], tape=v["tape"], how=f"python3 harness/check.py --replay {path}"), f, indent=1)
        print(f"  {v['build']}: {v['kind']}: {v['msg'][:1200]} ({v['note']})")
        print(f"VIOLATION property={a.prop} replay={path}")
    return 1 if viol else 0

if __name__ == "__main__":
    sys.exit(main())
