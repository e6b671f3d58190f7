"""Incremental build of what a check needs from /repo's working tree.

One ninja file of our own includes the one /opt/vp/generate.py writes for /repo
(so that objects, libraries and managers are built by the repository's own rules and
shared with /opt/vp/build.sh), and adds
  * libcasual-common.so / libcasual-unittest.so linked from the same objects except the
    two that the stock build compiles without base64 (cppcodec is not installed): those are
    compiled in full against harness/shim/cppcodec,
  * the drivers of /verif/harness/drivers.
Everything of ours ends up in /verif/build.
"""
import os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OUT = os.environ.get("VF_OUT", VERIF + "/build")
MW = REPO + "/middleware"

COMMON = ["casual-common", "casual-unittest"]

def bins(*names):
    return [MW + "/" + n for n in names]

SM = "service/bin/casual-service-manager"
TM = "transaction/bin/casual-transaction-manager"
DM = "domain/bin/casual-domain-manager"
DD = "domain/bin/casual-domain-discovery"
GW = "gateway/bin/casual-gateway-"
DOMLIB = ["casual-domain-unittest", "casual-domain-discovery", "casual-domain-common", "casual-serviceframework",
          "casual-configuration"]

# driver: (libraries, manager binaries of /repo that the driver starts, extra static objects/archives)
DRIVERS = {
    "service": (DOMLIB, [SM, "service/bin/casual-service-forward"], []),
    "application": (DOMLIB + ["casual-xatmi"], [], []),
    "transaction": (DOMLIB, [TM], []),
    "gateway_in": (DOMLIB + ["casual-gateway-common", "casual-queue-common"], [GW + "inbound-group", GW + "group-tcp-logical-connect"], []),
    "gateway_out": (DOMLIB + ["casual-gateway-common", "casual-queue-common"], [GW + "outbound-group", GW + "group-tcp-logical-connect"], []),
    "transport": (DOMLIB, [], []),
    "queue_forward": (DOMLIB + ["casual-gateway-common", "casual-queue-common"], ["queue/bin/casual-queue-forward-group"], []),
    "discovery": (DOMLIB + ["casual-gateway-common", "casual-queue-common"], [DD], []),
    "queue_manager": (DOMLIB + ["casual-gateway-common", "casual-queue-common"], ["queue/bin/casual-queue-manager", "queue/bin/casual-queue-group"], []),
    "domain": (DOMLIB + ["casual-gateway-common", "casual-queue-common"], [DM, DD], []),
    "queue": (DOMLIB + ["casual-queue-common"], [DM, DD, "queue/bin/casual-queue-group"], []),
}

def _includes():
    inc = ["-I" + VERIF + "/harness/drivers"]
    for c in ["administration", "configuration", "xatmi", "serviceframework", "common", "domain", "service", "queue",
              "transaction", "gateway", "tools", "cli", "buffer", "event", "http"]:
        for s in ["include", "unittest/include"]:
            p = f"{MW}/{c}/{s}"
            if os.path.isdir(p):
                inc.append("-I" + p)
    inc.append("-I" + REPO + "/thirdparty/database/include")
    inc.append("-I/usr/src/googletest/googletest/include")
    return " ".join(inc)

def _libdirs():
    dirs = open(REPO + "/_build/library_path").read().strip().split(":")
    return dirs

def _write():
    text = open(REPO + "/_build/build.ninja").read()
    out = ["include " + REPO + "/_build/build.ninja", "",
           "vincludes = " + _includes(),
           "rule vcxx",
           "  command = cd " + MW + " && $cxx $cxxflags -DCASUAL_VERIF $vdirective $vincludes -MMD -MF $out.d -c $in -o $out",
           "  depfile = $out.d", "  deps = gcc", "  description = verif compile $in",
           "rule vexe",
           "  command = $cxx -pthread -o $out $in $vlibs",
           "  description = verif link $out", ""]
    shim = "-I" + VERIF + "/harness/shim"
    repl = {
        REPO + "/_build/obj/middleware/common/source/transcode.cpp.o": (MW + "/common/source/transcode.cpp", OUT + "/obj/transcode.o"),
        REPO + "/_build/obj/middleware/common/source/unittest/log.cpp.o": (MW + "/common/source/unittest/log.cpp", OUT + "/obj/unittest_log.o"),
    }
    for o, (src, dst) in repl.items():
        out += [f"build {dst}: vcxx {src}", f"  vdirective = {shim}"]
    for lib in COMMON:
        m = re.search(r"^build %s/common/bin/lib%s\.so: shared (.*)\n  libs = (.*)$" % (MW, lib), text, re.M)
        ins, _, deps = m.group(1).partition("|")
        objs = [repl[o][1] if o in repl else o for o in ins.split()]
        deps = deps.replace(f"{MW}/common/bin/", f"{OUT}/lib/")
        libs = m.group(2)
        if lib != "casual-common":
            libs = f"-L{OUT}/lib " + libs
        out += [f"build {OUT}/lib/lib{lib}.so: shared {' '.join(objs)} | {deps.strip('| ')}", f"  libs = {libs}"]
    dirs = _libdirs()
    ldirs = f"-L{OUT}/lib " + " ".join("-L" + d for d in dirs)
    rpath = "-Wl,-rpath-link," + ":".join([OUT + "/lib"] + dirs)
    where = {}
    for m in re.finditer(r"^build (\S+/lib(\S+?)\.(so|a)): ", text, re.M):
        where[m.group(2)] = m.group(1)
    for name, (libs, mans, extra) in DRIVERS.items():
        out.append(f"build {OUT}/obj/drv_{name}.o: vcxx {VERIF}/harness/drivers/{name}.cpp")
        deps = [f"{OUT}/lib/lib{l}.so" for l in COMMON] + [where[l] for l in libs if l in where]
        ls = " ".join("-l" + l for l in libs + COMMON)
        out += [f"build {OUT}/bin/drv_{name}: vexe {OUT}/obj/drv_{name}.o | {' '.join(deps)}",
                f"  vlibs = {ldirs} -Wl,--start-group {' '.join(extra)} {ls} -lgtest -lsqlite3 -Wl,--end-group {rpath}"]
        out.append(f"build v_{name}: phony {OUT}/bin/drv_{name} " + " ".join(MW + "/" + b for b in mans))
    new = "\n".join(out) + "\n"
    path = OUT + "/build.ninja"
    if not os.path.exists(path) or open(path).read() != new:
        open(path, "w").write(new)

def ensure(drivers, log=None):
    """build the given drivers and the managers they start; returns seconds. Raises on failure."""
    import time
    t = time.time()
    for d in ["lib", "obj", "bin"]:
        os.makedirs(OUT + "/" + d, exist_ok=True)
    env = dict(os.environ, LC_ALL="C.UTF-8", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", TMPDIR="/tmp")
    if not os.path.exists(REPO + "/_build/gtest/lib/libgtest_main.so"):
        subprocess.run(["bash", "/opt/vp/build.sh"], env=env, check=True, stdout=subprocess.DEVNULL)
    subprocess.run(["python3", "-B", "/opt/vp/generate.py"], env=env, check=True, stdout=subprocess.DEVNULL)
    _write()
    r = subprocess.run(["ninja", "-f", OUT + "/build.ninja"] + ["v_" + d for d in drivers], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise RuntimeError("build failed")
    return time.time() - t

def environment(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith("CASUAL")}
    env.update(LC_ALL="C.UTF-8", LANG="C.UTF-8", CASUAL_MAKE_SOURCE_ROOT=REPO,
               CASUAL_RESOURCE_CONFIGURATION_FILE=MW + "/example/resources/resources.yaml",
               CASUAL_LOG="(error|warning)", CASUAL_LOG_PATH=scratch + "/casual.log",
               LD_LIBRARY_PATH=":".join([OUT + "/lib"] + _libdirs()),
               PATH=MW + "/tools/bin:" + os.environ["PATH"], TMPDIR=scratch)
    return env

if __name__ == "__main__":
    print("%.1fs" % ensure(sys.argv[1:] or list(DRIVERS)))
