"""Builds the engine and the harnesses.  Everything goes to /verif/build (git-ignored)."""
import hashlib, os, subprocess, sys, shutil, time, fcntl, contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(VERIF, "engine")
HARN = os.path.join(VERIF, "harness")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CXX = "/usr/bin/clang++-18"
CC = "/usr/bin/clang-18"
NOVEC = ["-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops"]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), r.stdout[:3000]))
        raise RuntimeError("build failed: " + cmd[-1])
    return r.stdout


def file_hash(*paths, extra=""):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    h.update(extra.encode())
    return h.hexdigest()[:20]


@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "." + name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def engine():
    """plugin + runtimes; returns (plugin, rt.o, native.o)"""
    with lock("engine"):
        srcs = [os.path.join(ENGINE, f) for f in ("vtpass.cpp", "vtrt.cpp", "vtnative.cpp", "vt.h")]
        d = os.path.join(BUILD, "engine-" + file_hash(*srcs))
        out = (d + "/vtpass.so", d + "/vtrt.o", d + "/vtnative.o")
        if not all(os.path.exists(o) for o in out):
            os.makedirs(d, exist_ok=True)
            cmds = [
                [CXX, "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-I/usr/lib/llvm-18/include", srcs[0], "-o", d + "/p.tmp"],
                [CXX, "-std=c++17", "-O2", "-g", "-fno-pie", "-I" + Z3 + "/include", "-I" + ENGINE, "-c", srcs[1], "-o", d + "/r.tmp"],
                [CXX, "-std=c++17", "-O1", "-g", "-fno-pie", "-I" + ENGINE, "-c", srcs[2], "-o", d + "/n.tmp"],
            ]
            ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in cmds]
            for p, c in zip(ps, cmds):
                o = p.communicate()[0]
                if p.returncode:
                    raise RuntimeError("engine build failed: %s\n%s" % (" ".join(c), o[-3000:]))
            for a, b in zip(("p.tmp", "r.tmp", "n.tmp"), out):
                os.rename(d + "/" + a, b)
        return out


def gen_include():
    """The headers the project's configure step generates, made from /repo's current tree."""
    src = os.path.join(REPO, "include/cppad/cg/model/threadpool")
    files = ["pthread_pool.c", "pthread_pool.h", "openmp.c", "openmp.h"]
    conf = os.path.join(REPO, "include/cppad/cg/configure.hpp.in")
    with lock("gen"):
        d = os.path.join(BUILD, "gen-" + file_hash(*[os.path.join(src, f) for f in files], conf))
        t = os.path.join(d, "cppad/cg/model/threadpool")
        if not os.path.exists(os.path.join(d, "done")):
            os.makedirs(t, exist_ok=True)
            for f in files:
                base, ext = f.split(".")
                var = "CPPADCG_%s_%s_FILE" % (base.upper(), ext.upper())
                txt = open(os.path.join(src, f)).read()
                with open(os.path.join(t, "%s_%s.hpp" % (base, ext)), "w") as o:
                    o.write('const char %s[] = R"*=*(%s)*=*";\n\nconst size_t %s_SIZE = %d;\n' % (var, txt, var, len(txt)))
            c = open(conf).read().replace("@cppadcg_version@", "verif")
            open(os.path.join(d, "cppad/cg/configure.hpp"), "w").write(c)
            open(os.path.join(d, "done"), "w").close()
        return d


def includes():
    return ["-I" + ENGINE, "-I" + HARN, "-I" + REPO + "/include", "-I" + gen_include(), "-isystem", "/usr/include/eigen3"]


def model_cc(plugin):
    """compiler wrappers handed to the library under test for the generated C"""
    with lock("cc"):
        d = os.path.join(BUILD, "cc-" + hashlib.sha256(plugin.encode()).hexdigest()[:10])
        os.makedirs(d, exist_ok=True)
        for name, body in (
            ("vtcc", "#!/bin/sh\nVT_EXTERN_INSTR='*' exec %s -fpass-plugin=%s -w %s \"$@\" -O1\n" % (CC, plugin, " ".join(NOVEC))),
            ("natcc", "#!/bin/sh\nexec %s -w \"$@\" -O1\n" % CC),
        ):
            p = os.path.join(d, name)
            if not os.path.exists(p):
                with open(p + ".tmp", "w") as f:
                    f.write(body)
                os.chmod(p + ".tmp", 0o755)
                os.rename(p + ".tmp", p)
        return d


LINKZ3 = ["-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib"]
LINK = ["-ldl", "-lpthread", "-lcppad_lib"]


def _pre(src, base):
    pre = subprocess.run(base + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise RuntimeError("%s does not preprocess:\n%s" % (src, pre.stderr.decode()[-3000:]))
    return pre.stdout


class Harness:
    """One harness source; .sym() is the instrumented executable, .nat() the plain one.
    Both are rebuilt whenever the preprocessed source (i.e. /repo's current code) differs."""

    def __init__(self, name, defs=(), std="gnu++14", ldflags=(), skip=""):
        self.name = name
        self.defs = list(defs)
        self.plugin, self.rt, self.natrt = engine()
        self.src = os.path.join(HARN, name)
        self.base = [CXX, "-std=" + std, "-w"] + self.defs + includes()
        self.skip = skip
        self.ld = list(ldflags)
        h = hashlib.sha256(_pre(self.src, self.base))
        h.update(repr((self.defs, std, self.ld, skip, file_hash(self.plugin, self.rt, self.natrt))).encode())
        self.key = h.hexdigest()[:20]
        self.tag = name.replace(".", "_").replace("/", "_")
        self.dir = os.path.join(BUILD, "h-%s-%s" % (self.tag, self.key))
        self.build_s = 0.0

    def sym(self):
        out = os.path.join(self.dir, "sym")
        with lock("h-" + self.tag):
            if not os.path.exists(out):
                t0 = time.time()
                os.makedirs(self.dir, exist_ok=True)
                env = dict(os.environ, VT_SKIP=self.skip, VT_EXTERN_INSTR="cppadcg_thpool,vtx_")
                bc, o = self.dir + "/s.bc", self.dir + "/s.o"
                sh(self.base + ["-O1", "-fno-pie", "-mllvm", "-inline-threshold=20"] + NOVEC + ["-fpass-plugin=" + self.plugin, "-emit-llvm", "-c", self.src, "-o", bc], env=env)
                sh(["llc-18", "-O0", "-disable-verify", "-relocation-model=static", "-filetype=obj", bc, "-o", o])
                sh([CXX, "-no-pie", "-rdynamic", o, self.rt, "-o", out + ".tmp"] + LINKZ3 + LINK + self.ld)
                os.remove(bc)
                os.remove(o)
                os.rename(out + ".tmp", out)
                self.build_s += time.time() - t0
        return out

    def nat(self):
        out = os.path.join(self.dir, "nat")
        with lock("hn-" + self.tag):
            if not os.path.exists(out):
                os.makedirs(self.dir, exist_ok=True)
                o = self.dir + "/n.o"
                sh(self.base + ["-O0", "-g1", "-fno-pie", "-c", self.src, "-o", o])
                sh([CXX, "-no-pie", "-rdynamic", o, self.natrt, "-o", out + ".tmp"] + LINK + self.ld)
                os.remove(o)
                os.rename(out + ".tmp", out)
        return out
