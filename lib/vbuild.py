"""Builds the library from /repo's current tree together with the scenario driver.

Nothing is taken from a previous run unless the very same sources were built with the very same flags before (the objects are keyed
by the content of all sources and headers)."""
import hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
FLAVORS = {
    "plain": ["-O1", "-g0"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=shift,alignment", "-fno-sanitize-recover=undefined", "-DNO_INTERPOSE"],
}


def sources():
    cpp, all_ = [], []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if not d.startswith((".", "_")) and not (rel == "." and d in ("tests", "cmake", "doc", "resources", "build", "shim")))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(".cpp"):
                cpp.append(p)
            if f.endswith((".cpp", ".h", ".inc", ".hpp")):
                all_.append(p)
    return cpp, all_


def build(flavor="plain", log=None):
    """Returns the path of the driver executable; raises on a failing build."""
    cpp, all_ = sources()
    h = hashlib.sha256()
    for p in all_ + [os.path.join(VERIF, "harness", f) for f in ("driver.cpp", "cmds.inc")] + [os.path.join(REPO, "CMakeLists.txt"), os.path.join(VERIF, "lib", "vbuild.py")]:
        h.update(p.encode() + b"\0")
        h.update(open(p, "rb").read())
        h.update(b"\0")
    d = os.path.join(BUILD, flavor)
    exe = os.path.join(d, "driver")
    stamp = os.path.join(d, "stamp")
    key = h.hexdigest()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    os.makedirs(os.path.join(d, "shim"), exist_ok=True)
    os.makedirs(os.path.join(d, "resources"), exist_ok=True)
    if os.path.exists(stamp):
        os.remove(stamp)
    link = os.path.join(d, "shim", "tagparser")
    if not os.path.islink(link) or os.readlink(link) != REPO:
        if os.path.islink(link):
            os.remove(link)
        os.symlink(REPO, link)
    open(os.path.join(d, "shim", "tagparser-definitions.h"), "w").write("#ifndef TAG_PARSER_DEFINITIONS\n#define TAG_PARSER_DEFINITIONS\n#endif\n")
    lang = os.path.join(d, "resources", "iso_language_codes.h")
    script = os.path.join(REPO, "cmake/scripts/generate_iso_language_codes.cmake")
    if not os.path.exists(lang):
        r = subprocess.run(["cmake", "-DLANGUAGE_FILE=/usr/share/iso-codes/json/iso_639-2.json", "-DOUTPUT_PATH=" + lang, "-P", script], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("generating language codes failed: " + r.stderr)
    open(os.path.join(d, "resources", "config.h"), "w").write('#ifndef VERIF_CONFIG_H\n#define VERIF_CONFIG_H\n#define APP_NAME "Tag Parser"\n#define APP_VERSION "0.0.0"\n#define PROJECT_NAME "tagparser"\n#endif\n')
    flags = ["-std=gnu++17", "-w", "-DTAG_PARSER_STATIC", "-DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS", "-DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER", "-DNDEBUG",
             "-I" + os.path.dirname(REPO), "-I" + REPO, "-I" + d, "-isystem", "/usr/include/martchus-c++utilities", "-I" + os.path.join(d, "shim")] + FLAVORS[flavor]
    san = [f for f in FLAVORS[flavor] if f.startswith("-fsan")]
    n = ["cxxflags = " + " ".join(flags).replace("$", "$$"), "rule cc", "  command = g++ $cxxflags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = g++ -rdynamic %s $in -o $out -lmartchus-c++utilities -lz -ldl" % " ".join(san)]
    objs = []
    for p in cpp:
        o = os.path.join("obj", os.path.relpath(p, REPO)[:-4].replace("/", "_") + ".o")
        n.append("build %s: cc %s" % (o, p))
        objs.append(o)
    n.append("build obj/driver.o: cc %s | %s" % (os.path.join(VERIF, "harness/driver.cpp"), os.path.join(VERIF, "harness/cmds.inc")))
    n.append("build driver: link obj/driver.o " + " ".join(objs))
    n.append("default driver")
    open(os.path.join(d, "build.ninja"), "w").write("\n".join(n) + "\n")
    # modification times may lie (checkouts, restored copies): drop objects whose sources changed in content
    sums = os.path.join(d, "sums")
    old = dict(l.rstrip("\n").split(" ", 1)[::-1] for l in open(sums)) if os.path.exists(sums) else {}
    new = {p: hashlib.sha256(open(p, "rb").read()).hexdigest() for p in all_}
    changed = [p for p in new if old.get(p) != new[p]] + [p for p in old if p not in new]
    if any(not p.endswith(".cpp") for p in changed) or not old:
        shutil.rmtree(os.path.join(d, "obj"), ignore_errors=True)
    for p in changed:
        o = os.path.join(d, "obj", os.path.relpath(p, REPO)[:-4].replace("/", "_") + ".o")
        if os.path.exists(o):
            os.remove(o)
    os.makedirs(os.path.join(d, "obj"), exist_ok=True)
    r = subprocess.run(["ninja", "--quiet", "-k", "0", "-C", d], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("build failed:\n" + (r.stdout + r.stderr)[-8000:])
    open(sums, "w").writelines("%s %s\n" % (new[p], p) for p in sorted(new))
    open(stamp, "w").write(key)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"))
