"""Builds /repo's current working tree (libraries and programs) plus the harnesses of
/verif/harness, in a scratch build folder outside /repo, with ninja.

Source lists are taken from /repo's Makefile.am files, so added or removed files follow.
Variants: opt (what users run: -O2 -DNDEBUG), asan (ASan + UBSan), tsan (ThreadSanitizer)."""
import os, re, subprocess, sys, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
BUILDROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

COMMON = "-pthread -include cstdint -g1 -w -DVERIF_HOOKS"
VARIANTS = {
    # c++17 for the sanitizers: at -O1 the code needs definitions of its static constexpr members
    # asan keeps NDEBUG: it watches the code as shipped, where asserts are compiled out
    "opt":  dict(cxx="g++", flags="-std=c++14 -O2 -DNDEBUG", ld=""),
    "asan": dict(cxx="g++",
                 flags="-std=c++17 -O1 -DNDEBUG -fno-omit-frame-pointer -fsanitize=address,undefined "
                       "-fno-sanitize=vptr -fno-sanitize-recover=all",
                 ld="-fsanitize=address,undefined"),
    "tsan": dict(cxx="g++", flags="-std=c++17 -O1 -DNDEBUG -fsanitize=thread", ld="-fsanitize=thread"),
}
X264 = "/usr/lib/x86_64-linux-gnu/libx264.a -lpthread -lm -ldl"

def _sources(makefile_am):
    """name -> list of sources, from a Makefile.am"""
    text = open(makefile_am).read().replace("\\\n", " ")
    res = {}
    for m in re.finditer(r"^\s*([A-Za-z0-9_]+)_SOURCES\s*\+?=(.*)$", text, re.M):
        res.setdefault(m.group(1), []).extend(m.group(2).split())
    return res

LIBS = {"util": "libalfalfautil_a", "decoder": "libalfalfadecoder_a", "encoder": "libalfalfaencoder_a",
        "input": "libalfalfainput_a", "net": "libnet_a"}
INCS = ["util", "decoder", "display", "input", "encoder", "net"]
NO_GL = {"vp8play", "salsify_receiver", "real_webcam", "display_jpeg"}

class BuildError(Exception):
    pass

def build(variant, targets, quiet=True):
    """targets: program names of /repo (vp8decode, xc-enc, ...) or h:<name> for harness/<name>.cc.
    Returns dict name -> path of executable."""
    v = VARIANTS[variant]
    bdir = os.path.join(BUILDROOT, variant)
    os.makedirs(bdir, exist_ok=True)
    src = os.path.join(REPO, "src")
    with open(os.path.join(bdir, "config.h.new"), "w") as f:
        f.write(CONFIG_H)
    _replace_if_changed(os.path.join(bdir, "config.h"))
    incs = "-I" + bdir + " " + " ".join("-I%s/%s" % (src, d) for d in INCS) + " -I" + HARNESS
    out = []
    w = out.append
    w("ninja_required_version = 1.5")
    w("rule cxx\n  command = %s %s %s %s $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out"
      % (v["cxx"], COMMON, v["flags"], incs))
    w("rule asm\n  command = yasm -f elf64 -I%s/asm/ -I%s/decoder/ $in -o $out\n  description = ASM $out" % (src, src))
    w("rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = AR $out")
    ldsel = "-fuse-ld=lld" if v["cxx"].startswith("clang") and shutil.which("ld.lld", path="/usr/bin:/usr/lib/llvm-18/bin") else ""
    w("rule link\n  command = %s %s %s -pthread -o $out $in $libs\n  description = LINK $out" % (v["cxx"], v["ld"], ldsel))
    asm_inc = [os.path.join(src, "decoder", x) for x in ("config.asm", "x86inc.asm", "x86_abi_support.asm")
               if os.path.exists(os.path.join(src, "decoder", x))]
    libs = {}
    for d, name in LIBS.items():
        lst = _sources(os.path.join(src, d, "Makefile.am")).get(name)
        if lst is None:
            raise BuildError("no %s in %s/Makefile.am" % (name, d))
        objs = []
        for s in lst:
            p = os.path.join(src, d, s)
            o = "%s/%s.o" % (d, s.replace("/", "_"))
            if s.endswith(".cc"):
                w("build %s: cxx %s" % (o, p)); objs.append(o)
            elif s.endswith(".asm") and p not in asm_inc:
                w("build %s: asm %s | %s" % (o, p, " ".join(asm_inc))); objs.append(o)
        libs[d] = "lib%s.a" % d
        w("build %s: ar %s" % (libs[d], " ".join(objs)))
    order = ["net", "encoder", "input", "decoder", "encoder", "decoder", "util"]
    liblist = " ".join(libs[d] for d in order) + " " + X264 + " -ljpeg -lz"
    deps = " ".join(sorted(set(libs.values())))
    exes = {}
    progs = {}
    for d in ("frontend", "salsify", "tests"):
        for name, lst in _sources(os.path.join(src, d, "Makefile.am")).items():
            if name in NO_GL: continue
            cc = [s for s in lst if s.endswith(".cc")]
            if cc: progs[name.replace("_", "-")] = (d, cc)
    for t in targets:
        if t.startswith("h:"):
            n = t[2:]
            p = os.path.join(HARNESS, n + ".cc")
            w("build h_%s.o: cxx %s" % (n, p))
            first = open(p).readline()
            extra = first[8:].strip() + " " if first.startswith("// LINK:") else ""
            w("build h_%s: link h_%s.o | %s\n  libs = %s%s" % (n, n, deps, extra, liblist))
            exes[t] = os.path.join(bdir, "h_" + n)
        else:
            if t not in progs: raise BuildError("no program %s in Makefile.am" % t)
            d, cc = progs[t]
            objs = []
            for s in cc:
                o = "%s/%s.o" % (d, s)
                w("build %s: cxx %s" % (o, os.path.join(src, d, s)))
                objs.append(o)
            w("build %s: link %s | %s\n  libs = %s" % (t, " ".join(objs), deps, liblist))
            exes[t] = os.path.join(bdir, t)
    w("default " + " ".join(os.path.basename(e) for e in exes.values()))
    # one ninja file per target set would invalidate logs; keep a single log, overwrite file
    nf = os.path.join(bdir, "build.ninja")
    with open(nf + ".new", "w") as f:
        f.write("\n".join(out) + "\n")
    _replace_if_changed(nf)
    r = subprocess.run(["ninja", "-C", bdir, "-f", "build.ninja"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode("utf8", "replace")[-8000:])
        raise BuildError("build of /repo failed (variant %s)" % variant)
    return exes

def _replace_if_changed(path):
    new = open(path + ".new").read()
    try: old = open(path).read()
    except OSError: old = None
    if new == old: os.unlink(path + ".new")
    else: os.replace(path + ".new", path)

CONFIG_H = """#define ARCH_X86_64 1
#define HAVE_BOOST_FUNCTIONAL_HASH_HPP 1
#define HAVE_DLFCN_H 1
#define HAVE_FCNTL_H 1
#define HAVE_GETPAGESIZE 1
#define HAVE_INTTYPES_H 1
#define HAVE_MMAP 1
#define HAVE_SSE2 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_PARAM_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "alfalfa"
#define PACKAGE_NAME "alfalfa"
#define PACKAGE_VERSION "0.1"
#define STDC_HEADERS 1
#define VERSION "0.1"
"""
if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
