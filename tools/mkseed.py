"""Make and confirm a seeded bug:  mkseed.py spec.py...   (spec defines ID, PROPERTY, EDITS=[(file,old,new)], NEEDS, BREAKS,
DEMO_C (program, exits 0/1) or DEMO_SH).  Applies the change to /repo, builds, runs the stable tests and the demo, undoes it."""
import json, os, runpy, subprocess, sys
RUN = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
o=_build/out/src
gcc -w -I_build/tree/src "$here/demo.c" $o/loc.o $o/parsed_language.o $o/sourcefile.o $o/parser.o $o/detector.o $o/licenses.o \\
  $o/diff.o $o/log.o $o/hash/language_hash.o -lpcre -lmagic -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
"""
R = "/repo"


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def demo(d):
    return sh("bash", d + "/demo.sh", cwd=R).returncode


def tests():
    r = sh("bash", "/opt/vp/build.sh")
    if r.returncode:
        return "does not build: " + r.stdout[-300:]
    sh("bash", "/opt/vp/test.sh", "/tmp/mkseed.json")
    b = json.load(open("/opt/vp/BASELINE.json"))
    t = set(json.load(open("/tmp/mkseed.json"))["passed"])
    bp = set([b[x] for x in b if isinstance(b[x], list)][0])
    return "tests fail: %s" % sorted(bp - t)[:3] if bp - t else None


def main():
    base = {}
    for spec in sys.argv[1:]:
        S = runpy.run_path(spec)
        d = "/verif/seeded/" + S["ID"]
        assert sh("git", "-C", R, "status", "--porcelain").stdout == ""
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in S["EDITS"]:
                p = R + "/" + f
                s = open(p, encoding="latin1", newline="").read()
                assert s.count(old) == 1, (S["ID"], f, s.count(old), old)
                open(p, "w", encoding="latin1", newline="").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", R, "diff", "--binary"], stdout=subprocess.PIPE).stdout
            open(d + "/patch.diff", "wb").write(diff)
            open(d + "/demo.sh", "w").write(S.get("DEMO_SH", RUN))
            if "DEMO_C" in S:
                open(d + "/demo.c", "w").write(S["DEMO_C"])
            json.dump({"property": S["PROPERTY"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
            bad = tests()
            if not bad:
                rc = demo(d)
                if rc == 0 or rc == 3:
                    bad = "demo exits %d with the patch" % rc
        finally:
            sh("git", "-C", R, "checkout", "--", ".")
        print(S["ID"], "changed tree:", bad or "ok", flush=True)
        base[S["ID"]] = d
    sh("bash", "/opt/vp/build.sh")
    for i, d in base.items():
        print(i, "unchanged tree: demo exits", demo(d))


main()
