"""Builds the library from /repo's working tree together with a harness.

Everything goes to /verif/build/<variant>/; objects are keyed by a hash of
their inputs, so nothing stale can be linked.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

VARIANTS = {
    # -D_GLIBCXX_ASSERTIONS turns container misuse into an abort the harness reports
    "plain": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
}
COMMON = ["-std=c++17", "-w"]


def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def readb(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if not f.endswith(".cc") or f.endswith("_test.cc") or f.endswith(".pb.cc"):
                continue
            if f == "raft_test_util.cc":
                continue
            out.append(os.path.join(root, f))
    return sorted(out)


def header_digest():
    hs = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".proto", ".inc")):
                p = os.path.join(root, f)
                hs.append((p, readb(p)))
    hs.sort()
    return sh256(*[x for p, b in hs for x in (p, b)])


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


def build(harness, sources, variant="plain", extra_flags=(), link_flags=(), jobs=None,
          plain_sources=()):
    """Returns the path of the binary `harness` built from harness `sources`.

    plain_sources: harness sources compiled without the sanitizer flags."""
    jobs = jobs or os.cpu_count() or 4
    vd = os.path.join(BUILD, variant)
    gen = os.path.join(BUILD, "gen")
    obj = os.path.join(vd, "obj")
    for d in (vd, gen, obj):
        os.makedirs(d, exist_ok=True)
    proto = os.path.join(REPO, "src/raftpb/raft.proto")
    stamp = os.path.join(gen, "stamp")
    key = sh256(readb(proto))
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        run(["protoc", "--cpp_out=" + gen, "-I", REPO, proto])
        with open(stamp, "w") as f:
            f.write(key)
    flags = COMMON + VARIANTS[variant]
    inc = ["-I", gen, "-I", REPO, "-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "harness")]
    hd = header_digest()
    hh = sh256(*[readb(p) for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))])
    tasks, objs = [], []

    def add(src, fl, hdr):
        k = sh256(src, readb(src), " ".join(fl), hdr)
        o = os.path.join(obj, os.path.basename(src).replace(".cc", "") + "-" + k + ".o")
        objs.append(o)
        if not os.path.exists(o):
            tasks.append((os.path.getsize(src), ["g++"] + fl + inc + ["-c", src, "-o", o + ".tmp"], o))

    pbflags = [f for f in flags if f != "-O2"] + (["-O1"] if "-O2" in flags else [])
    add(os.path.join(gen, "src/raftpb/raft.pb.cc"), pbflags, hd)
    for s in lib_sources():
        add(s, flags + list(extra_flags), hd)
    for s in sources:
        add(os.path.join(VERIF, "harness", s), flags, hd + hh)
    for s in plain_sources:
        add(os.path.join(VERIF, "harness", s), [f for f in flags if not f.startswith("-fsanitize")], hd + hh)
    tasks.sort(reverse=True)

    def work(t):
        run(t[1])
        os.replace(t[2] + ".tmp", t[2])

    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(work, t) for t in tasks]:
            f.result()
    k = sh256(*(objs + list(link_flags)))
    binp = os.path.join(vd, harness + "-" + k)
    if not os.path.exists(binp):
        lf = [f for f in flags if f.startswith("-fsanitize")] if variant == "asan" else []
        run(["g++", "-o", binp + ".tmp"] + lf + objs + list(link_flags) + ["-lprotobuf", "-lpthread"])
        os.replace(binp + ".tmp", binp)
    # keep the build directory small: drop outputs of other source states
    keep = set(objs)
    for p in glob.glob(os.path.join(vd, harness + "-*")):
        if p != binp and not p.endswith(".tmp"):
            os.unlink(p)
    return binp


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2].split(","), *sys.argv[3:4]))
