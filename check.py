#!/usr/bin/env python3
"""Builds and runs the check of one property.

  check.py C01                 quick tier (VERIF_TIER / VERIF_SEED honoured)
  check.py C01 --tier thorough
  check.py C01 --replay FILE   re-run one saved failing case
  check.py --build-all         what setup_cmd runs

Everything of /repo that a check needs is compiled here, from /repo's working
tree, with the sanitizers on; build products live in /verif/.build (ignored).
"""
import glob, hashlib, json, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
CXX = "clang++"
BASE = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w",
        "-I" + REPO, "-I" + REPO + "/webm_parser/include",
        "-I" + REPO + "/webm_parser", "-D__STDC_CONSTANT_MACROS",
        "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


def sources(pattern, exclude=()):
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, pattern))):
        name = os.path.basename(f)
        if name.endswith(("_test.cc", "_tests.cc", "_main.cc")):
            continue
        if name in exclude:
            continue
        out.append(f)
    return out


def libs():
    return {
        "mux": sources("mkvmuxer/*.cc"),
        "mkv": sources("mkvparser/*.cc"),
        "webm": sources("webm_parser/src/*.cc"),
        "common": sources("common/*.cc"),
        "m2ts": sources("m2ts/*.cc"),
        "vtt": sources("webvtt/*.cc"),
        "sample": [REPO + "/sample_muxer_metadata.cc"],
    }


with open(os.path.join(HERE, "checks.json")) as f:
    CHECKS = json.load(f)


def ninja_file(path):
    L = libs()
    lines = ["ninja_required_version = 1.5", "builddir = " + BUILD,
             "rule cc", "  command = $cxx $flags -MD -MF $out.d -c $in -o $out",
             "  depfile = $out.d", "  deps = gcc",
             "  description = CXX $in",
             "rule link", "  command = $cxx $flags $in -o $out $libs",
             "  description = LINK $out",
             "rule ar", "  command = rm -f $out && ar crs $out $in",
             "  description = AR $out", ""]
    objs = {}
    # The build trusts file contents, not time stamps: a digest of the source
    # and of every header goes into the command line.
    hh = hashlib.sha256()
    for d in (REPO, os.path.join(HERE, "lib")):
        for f in sorted(glob.glob(d + "/**/*.h", recursive=True)):
            hh.update(f.encode())
            with open(f, "rb") as fd:
                hh.update(fd.read())

    def digest(src):
        h = hh.copy()
        with open(src, "rb") as fd:
            h.update(fd.read())
        return h.hexdigest()[:16]

    def obj(src, variant):
        flags = BASE + SAN
        if variant == "fuzz":
            flags = flags + ["-fsanitize=fuzzer-no-link"]
        if variant == "app":  # a program of the repository, called in-process
            stem = os.path.splitext(os.path.basename(src))[0]
            flags = flags + ["-Dmain=%s_main" % stem]
        if variant == "own":
            flags = [x for x in BASE if not x.startswith("-I" + REPO)] + \
                ["-I" + HERE + "/lib"] + SAN + \
                ["-I" + REPO, "-I" + REPO + "/webm_parser/include"]
        key = (src, variant)
        if key not in objs:
            rel = src.strip("/").replace("/", "_")
            o = f"{BUILD}/obj/{variant}/{rel}.o"
            objs[key] = o
            lines.append(f"build {o}: cc {src}")
            lines.append(f"  cxx = {CXX}")
            lines.append("  flags = " + " ".join(flags) +
                         " -DVERIF_DIGEST=0x" + digest(src))
        return objs[key]

    archives = {}

    def archive(lib):
        if lib not in archives:
            archives[lib] = f"{BUILD}/lib{lib}.a"
            lines.append(f"build {archives[lib]}: ar " +
                         " ".join(obj(s, "lib") for s in L[lib]))
        return archives[lib]

    own = [obj(os.path.join(HERE, "lib", f), "own")
           for f in ("pbt.cc", "ebml.cc")]
    for cid, c in sorted(CHECKS.items()):
        ins = list(own)
        ins.append(obj(os.path.join(HERE, "checks", c["source"]), "own"))
        for extra in c.get("own", []):
            ins.append(obj(os.path.join(HERE, "lib", extra), "own"))
        arch = [archive(lib) for lib in
                dict.fromkeys(c["libs"] + ["mux", "mkv", "common"])]
        for app in c.get("apps", []):
            ins.append(obj(os.path.join(REPO, app), "app"))
        lines.append(f"build {BUILD}/bin/{cid}: link " + " ".join(ins) +
                     " | " + " ".join(arch))
        lines.append(f"  cxx = {CXX}")
        lines.append("  flags = " + " ".join(SAN))
        lines.append("  libs = -Wl,--start-group " + " ".join(arch) +
                     " -Wl,--end-group -lpthread")
    os.makedirs(BUILD, exist_ok=True)
    text = "\n".join(lines) + "\n"
    old = None
    if os.path.exists(path):
        with open(path) as f:
            old = f.read()
    if old != text:
        with open(path, "w") as f:
            f.write(text)


def build(targets):
    nf = os.path.join(BUILD, "build.ninja")
    ninja_file(nf)
    cmd = ["ninja", "-f", nf, "-j", "8"] + targets
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-8000:])
        print("BUILD FAILED")
        return False
    return True


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build-all":
        ok = build([f"{BUILD}/bin/{c}" for c in sorted(CHECKS)])
        return 0 if ok else 2
    cid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    extra = []
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = args.pop(0)
        else:
            extra.append(a)
    try:
        seed = int(seed) & 0x7FFFFFFFFFFFFFFF
    except ValueError:
        seed = 1
    c = CHECKS[cid]
    if not build([f"{BUILD}/bin/{cid}"]):
        return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cmd = [f"{BUILD}/bin/{cid}", "--tier", tier, "--seed", str(seed)]
    if "--replay" not in extra:
        budget = 300 if tier == "quick" else 5400
        cmd += ["--evidence", os.path.join(HERE, "evidence", cid + ".json"),
                "--replaydir", os.path.join(HERE, "replays"),
                "--budget", str(budget),
                "--jobs", str(max(2, min(8, os.cpu_count() or 2)))]
    cmd += extra
    env = dict(os.environ, VERIF_DIR=HERE, VERIF_REPO=REPO)
    env.pop("ASAN_OPTIONS", None)
    env.pop("UBSAN_OPTIONS", None)
    env["ASAN_SYMBOLIZER_PATH"] = "/usr/bin/llvm-symbolizer-18"
    r = subprocess.run(cmd, env=env, cwd=HERE)
    return r.returncode if r.returncode in (0, 1) else 2


sys.exit(main())
