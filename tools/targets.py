"""Build description of the harnesses: which sources of /repo each one takes, and how.
The ninja file has header dependencies (depfiles), so a change of any /repo file is seen."""
import glob, os

BASE = "-std=c++17 -include cstdint -w -O1 -fPIC"
REL = BASE + " -DNDEBUG"
DBG = BASE                    # assertions of the code under test stay on: a failing one is a violation
ASAN = BASE + " -g1 -fsanitize=address,undefined -fno-sanitize=vptr,alignment,null -fno-omit-frame-pointer"

LIBS = ["idyntree-core", "idyntree-model", "idyntree-high-level", "idyntree-modelio", "idyntree-modelio-xml",
        "idyntree-optimalcontrol"]

# property -> dict(bin, harness sources, repo sources, flags, idyntree)
def T(bin, repo=(), flags=REL, harness=None, idyn=True, hflags=None, extra_inc=(), link="", **kw):
    d = dict(bin=bin, harness=harness or [bin + ".cpp"], repo=list(repo), flags=flags, idyn=idyn,
             hflags=hflags or flags, extra_inc=list(extra_inc), link=link)
    d.update(kw)
    return d

PRIV = "src/private/*.cpp"
KIN = ["src/private/SharedKinDynComputations.cpp", "src/private/TimelySharedKinDynComputations.cpp", "src/private/QuaternionUtils.cpp"]
ES = KIN + ["src/private/ExpressionsServer.cpp", "src/private/*Expression.cpp", "src/private/*Expressions.cpp"]
TARGETS = {
    "V01": T("v01_labels", ["src/private/VariablesLabeller.cpp"]),
    "V10": T("v10_foot", ["src/RectangularFoot.cpp"]),
    "V11": T("v11_settings", ["src/Settings.cpp"]),
    "V12": T("v12_walking", ["src/PositionReferenceGenerator.cpp", "src/Utilities.cpp", "src/State.cpp", "src/Settings.cpp", "src/RectangularFoot.cpp"]),
    "V18": T("v18_state", ["src/PositionReferenceGenerator.cpp", "src/Utilities.cpp", "src/State.cpp", "src/Control.cpp", "src/Settings.cpp", "src/RectangularFoot.cpp"]),
    "V06": T("v06_kindyn", ["src/private/SharedKinDynComputations.cpp", "src/private/QuaternionUtils.cpp"]),
    "V07": T("v07_threads", ["src/private/SharedKinDynComputations.cpp", "src/private/QuaternionUtils.cpp"], wrap=True),
    "V08": T("v08_timely", ["src/private/SharedKinDynComputations.cpp", "src/private/TimelySharedKinDynComputations.cpp", "src/private/QuaternionUtils.cpp"]),
    "V09": T("v09_expressions", ES, flags=DBG),
    "V02": T("v02_values", harness=["v02_values.cpp", "levi_typed.cpp"], flags=DBG),
    "V03": T("v03_derivatives", harness=["v03_derivatives.cpp", "levi_typed.cpp"], flags=DBG),
    "V04": T("v04_caches", flags=DBG),
    "V05": T("v05_squeeze", flags=DBG),
    **{v: T("v16_components", [PRIV], flags=DBG) for v in ("V16", "V17", "V19", "V20", "V21", "V22", "V23")},
    **{v: T("v14_solver", [PRIV, "src/*.cpp", "!src/Logger.cpp", "!src/Visualizer.cpp"], flags=DBG) for v in ("V14", "V15", "V24")},
    "V25": T("v25_compiled", ["extern/levi/deps/sharedlibpp/src/*.cpp", "extern/levi/deps/zupply/zupply.cpp"], flags=DBG),
    "V13": T("v13_reference", ["src/PositionReferenceGenerator.cpp"]),
}

GEN_CONFIG = {
    "shlibpp/config.h": "#ifndef SHAREDLIBPP_CONFIG_H\n#define SHAREDLIBPP_CONFIG_H\n#define SHLIBPP_POINTER_SIZE 8\n#define SHLIBPP_SHAREDLIBRARYCLASSAPI_PADDING (30-2*(SHLIBPP_POINTER_SIZE/4))\n#endif\n",
}

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)

WRAP_SYS = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock",
            "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock", "sched_yield"]

def write_wrap(gen):
    """Trampolines: every call from the code under test into iDynTree passes through a scheduling point."""
    import subprocess
    syms = set()
    for l in ("core", "model", "high-level"):
        out = subprocess.run(["nm", "-D", "--defined-only", "/opt/vp/deps/idyntree/lib/libidyntree-%s.so" % l], stdout=subprocess.PIPE, text=True).stdout
        syms |= {x.split()[2] for x in out.splitlines() if len(x.split()) == 3 and x.split()[1] == "T" and "8iDynTree" in x}
    syms = sorted(syms)
    a = [".text"]
    for x in syms:
        a.append("""
.globl __wrap_{0}
.type __wrap_{0}, @function
__wrap_{0}:
  cmpb $0, mc_inside(%rip)
  jne 1f
  jmp __real_{0}@PLT
1: push %rdi
  push %rsi
  push %rdx
  push %rcx
  push %r8
  push %r9
  push %rax
  sub $128, %rsp
  movups %xmm0, (%rsp)
  movups %xmm1, 16(%rsp)
  movups %xmm2, 32(%rsp)
  movups %xmm3, 48(%rsp)
  movups %xmm4, 64(%rsp)
  movups %xmm5, 80(%rsp)
  movups %xmm6, 96(%rsp)
  movups %xmm7, 112(%rsp)
  call mc_point
  movups (%rsp), %xmm0
  movups 16(%rsp), %xmm1
  movups 32(%rsp), %xmm2
  movups 48(%rsp), %xmm3
  movups 64(%rsp), %xmm4
  movups 80(%rsp), %xmm5
  movups 96(%rsp), %xmm6
  movups 112(%rsp), %xmm7
  add $128, %rsp
  pop %rax
  pop %r9
  pop %r8
  pop %rcx
  pop %rdx
  pop %rsi
  pop %rdi
  jmp __real_{0}@PLT""".format(x))
    a.append('.section .note.GNU-stack,"",@progbits\n')
    write_if_changed(os.path.join(gen, "wrap.S"), "\n".join(a))
    write_if_changed(os.path.join(gen, "wrap.opts"), "\n".join("-Wl,--wrap=" + x for x in syms + WRAP_SYS) + "\n")

def write_ninja(verif, repo, bdir):
    gen = os.path.join(bdir, "gen")
    path_h = open(os.path.join(repo, "extern/levi/cmake/Path.auto")).read()
    auto = os.path.join(gen, "levi/autogenerated")
    path_h = path_h.replace("@CMAKE_CURRENT_SOURCE_DIR@", os.path.join(repo, "extern/levi")).replace("@LEVI_AUTOGENERATED_DIR@", auto)
    write_if_changed(os.path.join(auto, "Path.h"), path_h)
    write_if_changed(os.path.join(auto, "CMakeLists.auto"), open(os.path.join(repo, "extern/levi/cmake/CMakeLists.auto")).read())
    for k, v in GEN_CONFIG.items():
        write_if_changed(os.path.join(gen, k), v)
    ver = open(os.path.join(repo, "extern/levi/deps/sharedlibpp/src/shlibpp/version.h.in")).read()
    import re
    write_if_changed(os.path.join(gen, "shlibpp/version.h"), re.sub(r"@[A-Za-z_]*VERSION(_[A-Z]*)?@", "0", ver))
    inc = ["-I" + os.path.join(repo, "include"), "-I/usr/include/eigen3", "-I" + os.path.join(repo, "extern/levi/include"), "-I" + gen,
           "-I" + os.path.join(repo, "extern/levi/deps/zupply/include"), "-I" + os.path.join(repo, "extern/levi/deps/sharedlibpp/src"),
           "-isystem /opt/vp/deps/idyntree/include", "-I" + os.path.join(verif, "harness")]
    o = ["builddir = " + bdir,
         "rule cxx\n  command = g++ $flags $inc -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n",
         "rule link\n  command = g++ -o $out $in $ldflags\n"]
    done = {}
    binseen = set()
    for prop, t in sorted(TARGETS.items()):
        if t["bin"] in binseen:
            continue
        binseen.add(t["bin"])
        objs = []
        def obj(src, flags, key, extra):
            name = os.path.join("obj", key, src.strip("/").replace("/", "_") + ".o")
            sig = (src, flags, extra)
            if name not in done:
                done[name] = sig
                o.append("build %s: cxx %s\n  flags = %s\n  inc = %s\n" % (name, src, flags, extra + " " + " ".join(inc)))
            objs.append(name)
        import hashlib
        ex = " ".join("-I" + os.path.join(verif, e) for e in t["extra_inc"])
        rkey = hashlib.md5((t["flags"] + ex).encode()).hexdigest()[:6]
        srcs = []
        for pat in t["repo"]:
            neg = pat.startswith("!")
            m = sorted(glob.glob(os.path.join(repo, pat.lstrip("!"))))
            srcs = [s for s in srcs if s not in m] if neg else srcs + [s for s in m if s not in srcs]
        for s in srcs:
            obj(s, t["flags"], rkey, ex)
        hf = t["hflags"] + ' -DVERIF_DIR=\\"%s\\" -DREPO_DIR=\\"%s\\" -DGEN_DIR=\\"%s\\"' % (verif, repo, gen)
        hkey = "h_" + t["bin"]
        for h in t["harness"]:
            obj(os.path.join(verif, "harness", h), hf, hkey, ex)
        if t.get("wrap"):
            write_wrap(gen)
            o.append("build %s: cxx %s\n  flags = -fPIC\n  inc =\n" % (os.path.join("obj", hkey, "wrap.o"), os.path.join(gen, "wrap.S")))
            objs.append(os.path.join("obj", hkey, "wrap.o"))
        ld = ("@" + os.path.join(gen, "wrap.opts") + " " if t.get("wrap") else "") + t["link"] + " " + ("-fsanitize=address,undefined " if "-fsanitize=address" in t["flags"] else "")
        if t["idyn"]:
            ld += "-L/opt/vp/deps/idyntree/lib -Wl,-rpath,/opt/vp/deps/idyntree/lib -Wl,--start-group " + " ".join("-l" + l for l in LIBS) + " -Wl,--end-group "
        ld += "-lpthread -ldl"
        o.append("build %s: link %s\n  ldflags = %s\n" % (os.path.join(bdir, "bin", t["bin"]), " ".join(objs), ld))
    write_if_changed(os.path.join(bdir, "build.ninja"), "\n".join(o))
