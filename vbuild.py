"""Builds the check binaries from the current working tree of /repo.

Objects are cached in /verif/build and reused only when the compile command and
the content of every non-system file they were built from are unchanged.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

DEFS = ["-DEIGEN_HAS_CXX17_OVERALIGN=0", "-DENABLE_PROFILING",
        '-D_PROF_LOG_DIR_=".static_mapping_log"', "-Dkiss_fft_scalar=double"]
INCS = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "shim"),
        "-I" + REPO + "/third_parties", "-I" + REPO, "-I" + REPO + "/builder",
        "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/pcl-1.14",
        "-isystem", "/usr/include/vtk-9.1"]
FLAVOURS = {
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fopenmp",
             "-D_GLIBCXX_ASSERTIONS"],
    "opt": ["-O2", "-g1", "-fopenmp", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-D_OPENMP=201511", "-DEIGEN_DONT_PARALLELIZE", "-include", "omp.h", "-D_GLIBCXX_ASSERTIONS"],
}
GROUPS = {
    "common": (["common/*.cc", "common/performance/*.cc", "third_parties/pugixml/*.cc"], []),
    "data": (["builder/data/*.cc"], []),
    "pre": (["pre_processors/*.cc"], []),
    "builder": (["builder/*.cc"], []),
    "back_end": (["back_end/*.cc"], []),
    "registrators": (["registrators/*.cc"], ["icp_pointmatcher.cc"]),
    "descriptor": (["descriptor/*.cc"], []),
    "ros": (["ros_node/kitti_reader.cc", "ros_node/msg_conversion.cc"], []),
    "ros_tools": (["ros_node/playable_bag.cc", "ros_node/tf_bridge.cc", "ros_node/urdf_reader.cc"], []),
}
LIBS = ["-lglog", "-lpcl_registration", "-lpcl_sample_consensus", "-lpcl_features", "-lpcl_filters",
        "-lpcl_segmentation", "-lpcl_surface", "-lpcl_search", "-lpcl_kdtree", "-lpcl_octree",
        "-lpcl_io", "-lpcl_io_ply", "-lpcl_common", "-lgtsam", "-lGeographicLib",
        "-ltbb", "-ltbbmalloc", "-lboost_system", "-lboost_filesystem", "-lboost_iostreams",
        "-lboost_serialization", "-lboost_timer", "-lboost_thread", "-lpng", "-lz", "-lX11",
        "-lflann_cpp", "-llz4", "-lpthread", "-ldl"]


def sha(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if key not in cache:
        with open(path, "rb") as f:
            cache[key] = hashlib.sha1(f.read()).hexdigest()
    return cache[key]


def parse_dep(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    return [p for p in txt.split(":", 1)[1].split() if p]


def read_state(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


class BuildError(Exception):
    pass


def compile_one(src, obj, cmd):
    state = obj + ".state"
    st = read_state(state)
    if st and st["cmd"] == cmd and os.path.exists(obj) and all(sha(d) == h for d, h in st["deps"].items()):
        return obj, False, ""
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(state):
        os.unlink(state)
    dfile = obj + ".d"
    full = cmd + ["-MMD", "-MF", dfile, "-c", src, "-o", obj]
    for attempt in range(2):
        p = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
        if "Killed" not in p.stdout:
            break
    if p.returncode != 0:
        return obj, None, "compile failed: %s\n%s" % (src, p.stdout[-6000:])
    deps = {d: sha(d) for d in parse_dep(dfile)}
    json.dump({"cmd": cmd, "deps": deps}, open(state, "w"))
    return obj, True, ""


def objname(flavour, src):
    rel = src
    for root, tag in ((VERIF, "v"), (REPO, "r")):
        if src.startswith(root + "/"):
            rel = tag + "/" + src[len(root) + 1:]
    return os.path.join(BUILD, flavour, rel.replace("/", "__") + ".o")


def jobs():
    try:
        mem = os.sysconf("SC_PAGE_SIZE") * os.sysconf("SC_PHYS_PAGES") / 2**30
    except Exception:
        mem = 16
    return max(1, min(os.cpu_count() or 4, int(mem / 2.5)))


def build(spec_list, log=sys.stderr):
    """spec: dict(name, flavour, sources, groups, extra_flags, extra_libs). Returns {name: path or BuildError}"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        todo = {}
        plan = {}
        for sp in spec_list:
            fl = FLAVOURS[sp["flavour"]]
            base = ["g++", "-std=gnu++14", "-w", "-fPIC"] + fl + DEFS + INCS
            own, libo = [], []
            for s in sp["sources"] + ["harness/pbt.cc"]:
                src = s if s.startswith("/") else os.path.join(VERIF, s)
                o = objname(sp["flavour"], src)
                todo[o] = (src, base + sp.get("extra_flags", []))
                own.append(o)
            for g in sp["groups"]:
                pats, excl = GROUPS[g]
                for pat in pats:
                    for src in sorted(glob.glob(os.path.join(REPO, pat))):
                        if os.path.basename(src) in excl:
                            continue
                        o = objname(sp["flavour"], src)
                        todo[o] = (src, base)
                        libo.append(o)
            plan[sp["name"]] = (sp, own, libo)
        # expensive files first
        heavy = ("isam", "ndt", "icp", "map_builder", "math.cc", "cloud_types", "m2dp", "loop_")
        order = sorted(todo.items(), key=lambda kv: (not any(h in kv[1][0] for h in heavy), kv[0]))
        results = {}
        t0 = time.time()
        with concurrent.futures.ThreadPoolExecutor(jobs()) as ex:
            futs = [ex.submit(compile_one, src, o, cmd) for o, (src, cmd) in order]
            for f in futs:
                o, changed, err = f.result()
                results[o] = (changed, err)
        n = sum(1 for c, _ in results.values() if c)
        if n:
            print("compiled %d files in %.1f s" % (n, time.time() - t0), file=log)
        out = {}

        def link(name):
            sp, own, libo = plan[name]
            exe = os.path.join(BUILD, "bin", name)
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            errs = [results[o][1] for o in own if results[o][0] is None]
            if errs:
                return name, BuildError("\n".join(errs))
            good = [o for o in libo if results[o][0] is not None]
            bad = [results[o][1] for o in libo if results[o][0] is None]
            inputs = own + good
            cmd_key = json.dumps([sp["flavour"], inputs, sp.get("extra_libs", [])])
            stf = exe + ".state"
            st = read_state(stf)
            sig = {o: json.load(open(o + ".state"))["deps"] for o in inputs}
            sig = hashlib.sha1(json.dumps([cmd_key, sig], sort_keys=True).encode()).hexdigest()
            if st and st["sig"] == sig and os.path.exists(exe) and not any(results[o][0] for o in inputs):
                return name, exe
            ar = exe + ".a"
            if os.path.exists(ar):
                os.unlink(ar)
            if good:
                subprocess.run(["ar", "rcsT", ar] + good, check=True, stdout=subprocess.DEVNULL)
            cmd = (["g++"] + [f for f in FLAVOURS[sp["flavour"]] if f.startswith("-f")] + ["-o", exe] + own
                   + ([ar] if good else []) + ["-Wl,--as-needed"] + sp.get("extra_libs", []) + LIBS)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                return name, BuildError("link failed: %s\n%s\n%s" % (name, p.stdout[-4000:], "\n".join(bad)))
            json.dump({"sig": sig}, open(stf, "w"))
            return name, exe

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for name, r in ex.map(link, list(plan)):
                out[name] = r
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
