"""Builds the simulator executable from /repo's current working tree (cached by content)."""
import hashlib, os, subprocess, sys, glob, concurrent.futures, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

RENAME = """memcpy memmove memset memcmp memchr strlen
dlopen dlsym dlclose dlerror
stat lstat access opendir readdir rewinddir closedir readlink realpath getcwd getpid
sigaction signal kill raise exit _exit quick_exit
json_tokener_new json_tokener_new_ex json_tokener_free json_tokener_parse json_tokener_parse_verbose json_tokener_parse_ex json_object_put json_object_get
""".split()
STL = {
    "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_": "sim_rb_insert",
    "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_": "sim_rb_erase",
    "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base": "sim_rb_inc",
    "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base": "sim_rb_incc",
    "_ZNSt8__detail15_List_node_base7_M_hookEPS0_": "sim_list_hook",
    "_ZNSt8__detail15_List_node_base9_M_unhookEv": "sim_list_unhook",
    "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_": "sim_list_transfer",
}
PLUGINS = ["link", "sysinfo"]
CXX = "g++"
INSTR = ["-std=c++14", "-O1", "-g1", "-fsanitize=thread", "-fno-pie", "-fno-omit-frame-pointer", "-w",
         "-include", "fstream", "-DZMQ_BUILD_DRAFT_API", "-fno-gnu-unique"]
PLAIN = ["-std=c++17", "-O2", "-g1", "-fno-pie", "-fno-strict-aliasing", "-fno-tree-loop-distribute-patterns", "-w"]


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise RuntimeError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def find(root, *exts):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def incs(gen):
    # generated schema headers first: the ones in the tree are build products and may be stale
    return ["-I", gen, "-I", os.path.join(REPO, "include"), "-I", "/usr/include/json-c", "-I", os.path.join(VERIF, "sim"), "-I", os.path.join(REPO, "src")]


def repo_units():
    """(source, extra flags) of everything that runs on this platform."""
    units = []
    lp = os.path.join(REPO, "src", "lamppost")
    for f in find(lp, ".cpp", ".cc"):
        rel = os.path.relpath(f, lp)
        if "platformspecific/windows" in rel or "platformspecific/osx" in rel:
            continue
        units.append((f, []))
    for f in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
        units.append((f, ["-Dmain=lamppost_main"]))
    for d in sorted(glob.glob(os.path.join(REPO, "src", "plugins", "*"))):
        n = os.path.basename(d)
        for f in find(d, ".cpp", ".cc"):
            units.append((f, ["-DCreateInstance=%s_CreateInstance" % n, "-DCreateInfo=%s_CreateInfo" % n]))
    return units


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(verbose)


def _build(verbose):
    objd = os.path.join(BUILD, "obj")
    os.makedirs(objd, exist_ok=True)
    schemas = sorted(glob.glob(os.path.join(REPO, "schemas", "*.fbs")))
    gen = os.path.join(BUILD, "gen", digest(schemas))
    if not os.path.isdir(gen):
        tmp = gen + ".tmp%d" % os.getpid()
        os.makedirs(os.path.join(tmp, "lamppost", "schemas"))
        for s in schemas:
            sh(["flatc", "--cpp", "-o", os.path.join(tmp, "lamppost", "schemas") + "/", s])
        os.rename(tmp, gen)
    headers = [h for h in find(os.path.join(REPO, "include"), ".h", ".hpp", ".inl") if "/schemas/" not in h]
    headers += find(os.path.join(REPO, "src"), ".h", ".hpp")
    hd = digest(headers, " ".join(INSTR) + gen)
    simh = digest(find(os.path.join(VERIF, "sim"), ".h"))
    me = digest([os.path.abspath(__file__)])
    jobs = []   # (group, src, flags, key, rename)
    for f, fl in repo_units():
        jobs.append((0, f, INSTR + fl + incs(gen), digest([f], hd + me + " ".join(fl)), True))
    drivers = sorted(glob.glob(os.path.join(VERIF, "sim", "d_*.cpp")))
    img = os.path.join(VERIF, "sim", "img.cpp")
    for n in ["core"] + PLUGINS:
        fl = ["-DIMG_API=%s_IMG_api" % n]
        jobs.append((0 if n == "core" else 3, img, INSTR + fl + incs(gen), digest([img], hd + simh + me + n), True))
    for f in drivers:
        jobs.append((1, f, INSTR + incs(gen), digest([f], hd + simh + me), True))
    for f in sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp"))):
        if f in drivers or f == img:
            continue
        jobs.append((2, f, PLAIN + ["-I", os.path.join(VERIF, "sim")], digest([f], simh + me + " ".join(PLAIN)), False))

    # the shipped configurations, as they are now
    texts = []
    for n in ("server", "client"):
        try:
            texts.append(open(os.path.join(REPO, "config", "default_%s.cfg" % n), errors="replace").read())
        except OSError:
            texts.append("{}")
    src = 'extern const char* const SHIPPED[2];\nconst char* const SHIPPED[2] = {%s};\n' % ", ".join('"' + "".join(c if 31 < ord(c) < 127 and c not in '"\\?' else "\\%03o" % (ord(c) & 255) for c in t) + '"' for t in texts)
    cfg = os.path.join(BUILD, "gen", "shipped.%s.cpp" % hashlib.sha256(src.encode()).hexdigest()[:16])
    if not os.path.exists(cfg):
        with open(cfg + ".tmp", "w") as f:
            f.write(src)
        os.rename(cfg + ".tmp", cfg)
    jobs.append((2, cfg, PLAIN, digest([cfg], me + " ".join(PLAIN)), False))

    def one(job):
        _, f, fl, key, ren = job
        o = os.path.join(objd, os.path.basename(f) + "." + key + ".o")
        if not os.path.exists(o):
            t = o + ".tmp%d" % os.getpid()
            sh([CXX, "-c", f, "-o", t] + fl)
            if ren:
                cmd = ["objcopy"]
                und = {l.split()[-1] for l in sh(["nm", "-u", t]).splitlines() if l.strip()}
                for s in RENAME:
                    if s in und:
                        cmd.append("--redefine-sym=%s=sim_%s" % (s, s))
                for a, b in STL.items():
                    if a in und:
                        cmd.append("--redefine-sym=%s=%s" % (a, b))
                if len(cmd) > 1:
                    sh(cmd + [t])
            os.rename(t, o)
        else:
            os.utime(o)
        return o

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = list(ex.map(one, sorted(jobs, key=lambda j: -os.path.getsize(j[1]))))
    sjobs = sorted(jobs, key=lambda j: -os.path.getsize(j[1]))
    order = {o: j[0] for o, j in zip(objs, sjobs)}
    source = {o: j[1] for o, j in zip(objs, sjobs)}
    tag = {o: " ".join(j[2]) for o, j in zip(objs, sjobs)}
    objs.sort(key=lambda o: (order[o], os.path.basename(o)))
    lp, pl = os.path.join(REPO, "src", "lamppost") + os.sep, os.path.join(REPO, "src", "plugins") + os.sep
    core = [o for o in objs if source[o].startswith(lp) and "platformspecific" not in source[o]]
    images = []
    for n in PLUGINS:
        # one relocatable image per plugin library: its own code with a copy of the core's, as in the real libraries
        own = [o for o in objs if source[o].startswith(pl + n + os.sep) or (order[o] == 3 and "IMG_API=%s_IMG_api" % n in tag[o])]
        i = os.path.join(objd, "image-%s.%s.o" % (n, digest([], me + n + " ".join(core + own))))
        if not os.path.exists(i):
            t = i + ".tmp%d" % os.getpid()
            sh(["ld", "-r", "--force-group-allocation", "-o", t] + core + own)
            sh(["objcopy", "--wildcard", "--keep-global-symbol=%s_*" % n, t])
            os.rename(t, i)
        else:
            os.utime(i)
        images.append(i)
    objs = [o for o in objs if order[o] != 3 and not source[o].startswith(pl)] + images
    exe = os.path.join(BUILD, "simrun." + hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        t = exe + ".tmp%d" % os.getpid()
        sh([CXX, "-no-pie", "-static-libstdc++", "-static-libgcc", "-o", t] + objs + ["-lflatbuffers", "-ljson-c", "-lpthread", "-ldl"])
        os.rename(t, exe)
    else:
        os.utime(exe)
    # keep the cache small: drop what has not been used by the most recent builds
    keep = 400
    old = sorted(glob.glob(os.path.join(objd, "*.o")), key=os.path.getmtime)
    for o in old[:-keep]:
        os.unlink(o)
    for e in sorted(glob.glob(os.path.join(BUILD, "simrun.*")), key=os.path.getmtime)[:-6]:
        if e != exe:
            os.unlink(e)
    return exe


if __name__ == "__main__":
    print(build(True))
