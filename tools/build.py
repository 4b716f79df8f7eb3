"""Builds, from /repo's current working tree, the encoded library (LLVM bitcode) and the replay library (native)."""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SNN_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin/"
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sources():
    src = os.path.join(REPO, "src")
    out = []
    for d in ("tools", "data", "neural_network"):
        for root, _, files in os.walk(os.path.join(src, d)):
            out += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
    return sorted(out)


def include_dirs():
    src = os.path.join(REPO, "src")
    dirs = [os.path.join(REPO, "include")]
    for root, ds, _ in os.walk(os.path.join(REPO, "include", "snn")):
        dirs.append(root)
    dirs += [os.path.join(src, "external_library", d) for d in ("boost_1_80_0_minimal", "bitmap", "cpp-static-block")]
    return ["-I" + d for d in dirs]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def headers():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "include")):
        out += [os.path.join(root, f) for f in files]
    src = os.path.join(REPO, "src")
    for d in ("tools", "data", "neural_network", "external_library/bitmap", "external_library/cpp-static-block"):
        for root, _, files in os.walk(os.path.join(src, d)):
            out += [os.path.join(root, f) for f in files if not f.endswith(".cpp")]
    return out


def own_headers(harness=False):
    out = []
    for d in ("sym", "common") + (("harness",) if harness else ()):
        for root, _, files in os.walk(os.path.join(VERIF, d)):
            out += [os.path.join(root, f) for f in files if not f.endswith(".cpp")]
    return out


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed: %s\n%s" % (what, " ".join(cmd), r.stdout[-4000:]))


def atomic(out, make):
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    make(tmp)
    os.replace(tmp, out)
    return out


STD = ["-std=c++20", "-w"]
BC_FLAGS = STD + ["-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-gline-tables-only", "-fno-access-control",
                  "-I" + os.path.join(VERIF, "sym"), "-I" + os.path.join(VERIF, "common"), "-I" + os.path.join(VERIF, "harness")]
NATIVE = {
    # plain: the library's numerics without -ffast-math, with the same in-memory archive as the encoding
    "plain": STD + ["-O0", "-fno-access-control", "-c", "-I" + os.path.join(VERIF, "sym"), "-I" + os.path.join(VERIF, "common"), "-I" + os.path.join(VERIF, "harness")],
    # asan: memory and undefined-behaviour errors become aborts
    "asan": STD + ["-O1", "-g1", "-fno-access-control", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-c",
                   "-I" + os.path.join(VERIF, "sym"), "-I" + os.path.join(VERIF, "common"), "-I" + os.path.join(VERIF, "harness")],
}
PASSES = "sroa,early-cse,simplifycfg"


def pool(jobs):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(j) for j in jobs]
        res = [f.result() for f in futs]
    return res


def base_hash():
    return tree_hash(headers() + own_headers())


def pch(flags, name):
    """Precompiled standard headers; they contain nothing of the code under test."""
    h = os.path.join(VERIF, "common", "snn_pch.h")
    key = hashlib.sha256((tree_hash(own_headers()) + " ".join(flags)).encode()).hexdigest()[:24]

    def make(tmp):
        f = [x for x in flags if x not in ("-c", "-emit-llvm")]
        run([LLVM + "clang++"] + f + ["-x", "c++-header", h, "-o", tmp], "precompiled header")
    return atomic(os.path.join(BUILD, "pch", name + "-" + key + ".pch"), make)


def compile_bc(src, base, pch):
    key = hashlib.sha256((base + src + tree_hash([src]) + " ".join(BC_FLAGS)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "bc", key + ".bc")

    def make(tmp):
        run([LLVM + "clang++"] + BC_FLAGS + ["-include-pch", pch] + include_dirs() + [src, "-o", tmp], "encoding " + src)
    return atomic(out, make)


def compile_native(src, base, mode, pch):
    flags = NATIVE[mode]
    key = hashlib.sha256((base + src + tree_hash([src]) + " ".join(flags)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "obj-" + mode, key + ".o")

    def make(tmp):
        run([LLVM + "clang++"] + flags + ["-include-pch", pch] + include_dirs() + [src, "-o", tmp], "native build of " + src)
    return atomic(out, make)


def rt(name):
    return os.path.join(VERIF, "rt", name)


def engine():
    out = os.path.join(BUILD, "engine-" + tree_hash(glob.glob(os.path.join(VERIF, "engine", "*")))[:16])
    exe = os.path.join(out, "snnsym")
    if not os.path.exists(exe):
        run(["make", "-s", "-j2", "-C", os.path.join(VERIF, "engine"), "OUT=" + out], "engine")
    return exe


def link_bc(parts, out):
    def make(tmp):
        run([LLVM + "llvm-link", "-o", tmp + ".l"] + parts, "llvm-link")
        run([LLVM + "opt", "-passes=" + PASSES, tmp + ".l", "-o", tmp], "opt")
        os.unlink(tmp + ".l")
    return atomic(out, make)


def prepare(harness, native=True, modes=("plain",)):
    """Returns (engine, bitcode, {mode: executable}) for one harness source."""
    base = base_hash()
    srcs = sources()
    hsrc = os.path.join(VERIF, "harness", harness)
    hbase = base + tree_hash(own_headers(True))
    bs = lambda u: hbase if u == hsrc else base
    modes = tuple(modes) if native else ()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        eng = ex.submit(engine)
        hs = [ex.submit(pch, BC_FLAGS, "bc")] + [ex.submit(pch, NATIVE[m], m) for m in modes]
        hs = [h.result() for h in hs]
        slow = lambda p: 0 if "StraightforwardNeuralNetwork" in p or p == hsrc else 1
        bcs = [ex.submit(compile_bc, u, bs(u), hs[0]) for u in sorted(srcs + [rt("rt.cpp"), rt("files.cpp"), hsrc], key=slow)]
        objs = {m: [ex.submit(compile_native, u, bs(u), m, h) for u in sorted(srcs + [rt("native.cpp"), rt("files.cpp"), hsrc], key=slow)] for m, h in zip(modes, hs[1:])}
        bcs = [f.result() for f in bcs]
        key = hashlib.sha256(" ".join(sorted(bcs)).encode()).hexdigest()[:20]
        bc = link_bc(bcs, os.path.join(BUILD, "link", key + ".bc"))
        natives = {m: link_native([f.result() for f in o], m) for m, o in objs.items()}
        return eng.result(), bc, natives


def link_native(objs, mode):
    key = hashlib.sha256(" ".join(sorted(objs)).encode()).hexdigest()[:20]
    extra = ["-fsanitize=address,undefined"] if mode == "asan" else []

    def make(tmp):
        run([LLVM + "clang++"] + extra + objs + ["-o", tmp, "-rdynamic", "-ldl", "-lpthread"], "native link")
    return atomic(os.path.join(BUILD, "bin-" + mode, key), make)


def native(harness, mode):
    base = base_hash()
    h = pch(NATIVE[mode], mode)
    hsrc = os.path.join(VERIF, "harness", harness)
    hbase = base + tree_hash(own_headers(True))
    units = sources() + [rt("native.cpp"), rt("files.cpp"), hsrc]
    objs = pool([lambda u=u: compile_native(u, hbase if u == hsrc else base, mode, h) for u in units])
    return link_native(objs, mode)


if __name__ == "__main__":
    print(prepare(sys.argv[1], native=len(sys.argv) > 2))
