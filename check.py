#!/usr/bin/env python3
"""Builds and runs the check of one property.

  check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--only SUB] [--scale X] [--build-only]

Everything is compiled from the working tree of the repository (DLAF_REPO, default /repo) into
build/ (ignored by git); nothing is taken from an earlier build of the repository.
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DLAF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))

sys.path.insert(0, ROOT)
import checks_def  # noqa: E402


def sh_quote(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def write_ninja(ids):
    """One build.ninja for the given checks. Objects are shared by (source, flags)."""
    os.makedirs(BUILD, exist_ok=True)
    ccache = "ccache " if shutil.which("ccache") else ""
    out = [
        "ninja_required_version = 1.3",
        "rule cxx",
        f"  command = {ccache}$cxx $flags -MMD -MF $out.d -c $in -o $out",
        "  depfile = $out.d",
        "  deps = gcc",
        "  description = CXX $out",
        "rule link",
        "  command = $cxx $in $libs -o $out",
        "  description = LINK $out",
    ]
    seen = {}
    targets = []
    for cid in ids:
        c = checks_def.CHECKS[cid]
        objs = []
        for src in c["sources"]:
            extra = ""
            if isinstance(src, tuple):
                src, extra = src
            path = os.path.join(ROOT, src.replace("@REPO@", REPO))
            flags = (c["flags"] + " " + extra).replace("@REPO@", REPO).replace("@ROOT@", ROOT)
            key = hashlib.sha1((c["cxx"] + flags + path).encode()).hexdigest()[:10]
            obj = os.path.join(BUILD, "obj", f"{os.path.basename(path)}.{key}.o")
            if obj not in seen:
                seen[obj] = True
                out += [f"build {sh_quote(obj)}: cxx {sh_quote(path)}", f"  cxx = {c['cxx']}", f"  flags = {flags}"]
            objs.append(obj)
        exe = os.path.join(BUILD, "bin", cid)
        libs = []
        if "shared" in c:  # a library that the check loads several times: one copy per simulated process
            n, sources, sflags, slibs = c["shared"]
            sobjs = []
            for src in sources:
                extra = ""
                if isinstance(src, tuple):
                    src, extra = src
                path = os.path.join(ROOT, src.replace("@REPO@", REPO))
                flags = f"{sflags} {extra}".rstrip().replace("@REPO@", REPO).replace("@ROOT@", ROOT)
                key = hashlib.sha1((c["cxx"] + flags + path).encode()).hexdigest()[:10]
                obj = os.path.join(BUILD, "obj", f"{os.path.basename(path)}.{key}.o")
                if obj not in seen:
                    seen[obj] = True
                    out += [f"build {sh_quote(obj)}: cxx {sh_quote(path)}", f"  cxx = {c['cxx']}",
                            f"  flags = {flags}"]
                sobjs.append(obj)
            for k in range(n):
                lib = f"{exe}.{k}.so"
                libs.append(lib)
                out += [f"build {sh_quote(lib)}: link {' '.join(map(sh_quote, sobjs))}", f"  cxx = {c['cxx']}",
                        f"  libs = -shared {slibs}"]
        out += [f"build {sh_quote(exe)}: link {' '.join(map(sh_quote, objs))}", f"  cxx = {c['cxx']}",
                f"  libs = {c['libs']}",
                f"build {cid}: phony {sh_quote(exe)} {' '.join(map(sh_quote, libs))}"]
        targets.append(cid)
    path = os.path.join(BUILD, f"build-{ids[0] if len(ids) == 1 else 'all'}.ninja")
    new = "\n".join(out) + "\n"
    old = open(path).read() if os.path.exists(path) else None
    if old != new:
        with open(path, "w") as f:
            f.write(new)
    return path, targets


def build(ids, keep_going=False):
    ids = [i for i in ids if "script" not in checks_def.CHECKS[i]]
    if not ids:
        return True
    nf, targets = write_ninja(ids)
    env = dict(os.environ)
    env.setdefault("CCACHE_DIR", os.path.join(BUILD, "ccache"))
    env.setdefault("CCACHE_MAXSIZE", "4G")
    jobs = env.get("VERIF_JOBS", str(os.cpu_count() or 4))
    t0 = time.time()
    # one log per build file, so that builds of different checks do not share state files
    bdir = os.path.join(BUILD, "nj-" + (ids[0] if len(ids) == 1 else "all"))
    os.makedirs(bdir, exist_ok=True)
    cmd = ["ninja", "-f", nf, "-C", bdir, "-j", jobs] + (["-k", "0"] if keep_going else []) + targets
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-12000:])
        print(f"build of {' '.join(ids)} failed")
        return False
    print(f"built {' '.join(ids)} in {time.time() - t0:.1f} s", flush=True)
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale")
    ap.add_argument("--max-seconds")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    ids = a.ids or (list(checks_def.CHECKS) if a.all else [])
    if not ids:
        ap.error("no property given")
    if a.build_only:
        return 0 if build(ids, keep_going=True) else 70
    rc = 0
    for cid in ids:
        if not build([cid]):
            rc = max(rc, 70)
            continue
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        exe = os.path.join(BUILD, "bin", cid)
        env = dict(os.environ)
        env.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "OMP_DYNAMIC": "false", "LC_ALL": "C"})
        for k in list(env):
            if k.startswith("DLAF_"):
                del env[k]
        cmd = [exe, "--property", cid]
        if "script" in checks_def.CHECKS[cid]:
            python = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
            cmd = [python, os.path.join(ROOT, checks_def.CHECKS[cid]["script"]), "--repo", REPO, "--property", cid]
            env["PYTHONHASHSEED"] = "0"
        if a.replay:
            cmd += ["--replay", os.path.abspath(a.replay)]
        else:
            cmd += ["--tier", a.tier, "--seed", str(int(a.seed) % (1 << 62)),
                    "--evidence", os.path.join(ROOT, "evidence", f"{cid}.json"),
                    "--replay-dir", os.path.join(ROOT, "replays")]
            for k in ("only", "scale", "max_seconds"):
                v = getattr(a, k)
                if v:
                    cmd += ["--" + k.replace("_", "-"), v]
        r = subprocess.run(cmd, env=env, cwd=ROOT)
        for line in checks_def.CHECKS[cid].get("known", []):
            print(line)
        rc = max(rc, r.returncode if r.returncode >= 0 else 71)
    return rc


sys.exit(main())
