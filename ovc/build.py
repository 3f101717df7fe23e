"""Rebuild, from /repo's working tree, everything a check looks at: mirror, generated code, LLVM IR, replay binaries."""
import os, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("OVC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8")


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise BuildError("%s: exit %d\n%s" % (" ".join(cmd)[:200], r.returncode, r.stdout.decode(errors="replace")[-3000:]))
    return r.stdout.decode(errors="replace")


class Tree:
    """A private copy of /repo's sources with the project's own generators run on it."""

    def __init__(self, name):
        self.dir = os.path.join(HERE, "build", name)
        self.src = os.path.join(self.dir, "src")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        shutil.copytree(os.path.join(REPO, "src"), self.src, symlinks=True)
        # what git ignores in these folders is generated; generate it again from the sources
        for d in ("parsers", "hash"):
            for f in os.listdir(os.path.join(self.src, d)):
                if f.endswith(".h") or f == "language_hash.c":
                    os.unlink(os.path.join(self.src, d, f))
        self.made = set()

    def hash(self):
        if "hash" not in self.made:
            sh(["bash", "./generate_headers"], cwd=os.path.join(self.src, "hash"))
            for f in os.listdir(os.path.join(self.src, "hash")):
                p = os.path.join(self.src, "hash", f)
                if f.endswith(".h") and os.path.getsize(p) == 0:
                    raise BuildError("gperf failed on %s" % f)
            self.made.add("hash")

    def parsers(self):
        if "parsers" not in self.made:
            sh(["bash", "./compile"], cwd=os.path.join(self.src, "parsers"))
            self.made.add("parsers")

    def ir(self, stems):
        """stem -> path of the LLVM IR of src/<stem>.c (-O0, debug info, nothing optimised away)"""
        self.hash()
        if "parser" in stems:
            self.parsers()
        out = {}

        def one(s):
            o = os.path.join(self.dir, s.replace("/", "_") + ".ll")
            sh(["clang-18", "-w", "-O0", "-g", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone", "-I.",
                "-emit-llvm", "-S", s + ".c", "-o", o], cwd=self.src)
            return s, o
        with ThreadPoolExecutor(8) as ex:
            for s, o in ex.map(one, stems):
                out[s] = o
        return out

    def replay(self, harness, stems, extra=()):
        """compile a replay harness with the real sources under the sanitizers"""
        self.hash()
        if "parser" in stems:
            self.parsers()
        o = os.path.join(self.dir, "replay_" + os.path.basename(harness))
        cc = ["clang-18", "-w", "-g", "-O0", "-fsanitize=address,undefined",
              "-fno-sanitize=function,shift,signed-integer-overflow,pointer-overflow", "-fno-sanitize-recover=all", "-I" + self.src,
              "-I" + os.path.join(HERE, "replay")] + list(extra)
        cfiles = [os.path.join(HERE, "replay", harness + ".c")] + [os.path.join(self.src, s + ".c") for s in stems]

        def one(c):
            obj = os.path.join(self.dir, "obj_%s.o" % os.path.basename(c)[:-2])
            sh(cc + ["-c", c, "-o", obj], cwd=self.src)
            return obj
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, cfiles))
        sh(cc + objs + ["-lpcre", "-lmagic", "-lm", "-o", o], cwd=self.src)
        return o

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)
