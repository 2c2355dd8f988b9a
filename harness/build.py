#!/usr/bin/env python3
"""Build the test driver from /repo's current working tree (and nothing else), in three variants:
rel  - gcc -O3 -fopenmp, as the project itself is built
asan - gcc -O1 with AddressSanitizer and -fsanitize=bounds
cov  - gcc -O1 with coverage callbacks, for coverage-guided generation
The result is keyed by the content of every input file, so an unchanged tree is not rebuilt."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), "build"))
BIG = 400_000  # generated table files: compiled without optimisation or instrumentation

def lib_sources():
    s = sorted(glob.glob(f"{REPO}/WBMatrix/src/*.c") + glob.glob(f"{REPO}/src/*/*.c") + glob.glob(f"{REPO}/src/*.c"))
    return s

def all_inputs():
    pats = ["WBMatrix/**/*.[ch]", "src/**/*.[ch]", "include/**/*.h", "udf/*.cpp", "udf/*.h"]
    f = []
    for p in pats:
        f += glob.glob(f"{REPO}/{p}", recursive=True)
    f += glob.glob(f"{HERE}/*.cpp") + glob.glob(f"{HERE}/*.h") + [os.path.abspath(__file__)]
    return sorted(set(f))

def digest():
    h = hashlib.sha256()
    for f in all_inputs():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]

VARIANTS = {
    "rel": dict(cc="gcc", cxx="g++", c=["-O3"], cxxf=["-O1"], link=[]),
    "asan": dict(cc="gcc", cxx="g++", c=["-O1", "-g1", "-fsanitize=address,bounds", "-fno-omit-frame-pointer"],
                 cxxf=["-O1", "-g1", "-fsanitize=address"], link=["-fsanitize=address,undefined"]),
    # the library with coverage callbacks (pbt.cpp), the harness as in rel
    "cov": dict(cc="gcc", cxx="g++", c=["-O1", "-fsanitize-coverage=trace-pc,trace-cmp"], cxxf=[], link=[]),
}
WRAP = ["-Wl,--wrap=time", "-Wl,--wrap=rand", "-Wl,--wrap=srand", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]
INC = [f"-I{REPO}/include", f"-I{REPO}/WBMatrix/include", "-I/usr/include/mysql"]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, " ".join(cmd) + "\n" + p.stdout

def build(variants=("rel", "asan", "cov")):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(OUT, digest())
        need = [v for v in variants if not os.path.exists(f"{d}/pbt_{v}")]
        if "cov" in need and "rel" not in need:
            need = ["rel"] + need
        if not need:
            os.utime(d)
            return d
        # keep the two most recent trees
        old = sorted((x for x in glob.glob(f"{OUT}/*") if os.path.isdir(x) and x != d), key=os.path.getmtime)
        for x in old[:-2]:
            shutil.rmtree(x, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        jobs, objs = [], {v: [] for v in need}
        for v in need:
            V = VARIANTS[v]
            for s in lib_sources():
                o = f"{d}/{v}_" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
                fl = V["c"]
                if os.path.getsize(s) > BIG:
                    fl = ["-O0"]
                omp = ["-fopenmp"]
                cmd = [V["cc"], "-std=c99", "-w", "-fcommon"] + omp + fl + INC + ["-c", s, "-o", o]
                jobs.append((os.path.getsize(s), cmd)); objs[v].append(o)
            for s in sorted(glob.glob(f"{HERE}/*.cpp")):
                if v == "cov":
                    objs[v].append(f"{d}/rel_h_" + os.path.basename(s) + ".o")
                    continue
                o = f"{d}/{v}_h_" + os.path.basename(s) + ".o"
                cmd = [V["cxx"], "-std=c++17", "-Wall", "-Wno-unused-function", "-fopenmp"] + V["cxxf"] + INC + ["-c", s, "-o", o]
                jobs.append((10**6 + os.path.getsize(s), cmd)); objs[v].append(o)
            for mv, extra in (("8", []), ("5", ["-Dmy_bool=bool", "-Dfpe=fpe5", "-Dfpe_init=fpe5_init", "-Dfpe_deinit=fpe5_deinit"])):
                s = f"{REPO}/udf/mysql{mv}.cpp"
                if mv == "5":  # both variants in one program: a namespace keeps their helpers apart
                    w = f"{d}/{v}_udf5.cpp"
                    with open(w, "w") as f:
                        f.write(f'#include <bits/stdc++.h>\n#include <mysql.h>\n#include <wbcrypto/fpe_app.h>\nnamespace udf5 {{\n#include "{s}"\n}}\n')
                    s = w
                o = f"{d}/{v}_udf{mv}.o"
                cmd = [V["cxx"], "-std=c++17", "-w"] + V["c"] + INC + extra + ["-c", s, "-o", o]
                jobs.append((50000, cmd)); objs[v].append(o)
        jobs.sort(key=lambda j: -j[0])
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            res = list(ex.map(lambda j: (run(j[1]), j), jobs))
        for (rc, out), j in res:
            if rc:
                sys.stderr.write(out)
                # a property file that no longer fits the headers takes only its own properties with it
                base = os.path.basename(j[1][-3])
                if base.startswith("p_") and base.endswith(".cpp"):
                    for v in need:
                        objs[v] = [o for o in objs[v] if o != j[1][-1]]
                    continue
                raise SystemExit(2)
        def link(v):
            V = VARIANTS[v]
            return run([V["cxx"], "-o", f"{d}/pbt_{v}.part"] + objs[v] + WRAP + ["-Wl,--no-demangle", "-fopenmp"] + V["link"] + ["-lssl", "-lcrypto", "-lm", "-lpthread"])
        for v in need:
            rc, out = link(v)
            if rc:
                # likewise a property file that calls a function which is gone
                gone = set(re.findall(r"undefined reference to [`']([^']+)'", out))
                def lacks(o):
                    return "_h_p_" in o and gone & set(x.split()[-1] for x in run(["nm", "-u", o])[1].splitlines()[1:] if x.split())
                drop = [o for o in objs[v] if lacks(o)]
                if drop:
                    sys.stderr.write(f"{v}: without {sorted(gone)}: left out {[os.path.basename(o) for o in drop]}\n")
                    objs[v] = [o for o in objs[v] if o not in drop]
                    rc, out = link(v)
            if rc:
                sys.stderr.write(out[-6000:])
                raise SystemExit(2)
            os.rename(f"{d}/pbt_{v}.part", f"{d}/pbt_{v}")
        for o in glob.glob(f"{d}/*.o") + glob.glob(f"{d}/*_udf5.cpp"):
            os.unlink(o)
        return d

if __name__ == "__main__":
    print(build(tuple(sys.argv[1:]) or ("rel", "asan", "cov")))
