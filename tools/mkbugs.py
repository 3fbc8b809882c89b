# Writes the planted changes into seeded/<id>/ (run by hand). Each entry: id, property, [(file, old, new)], needs, what it breaks, demonstration (C++ body of main).
# usage: mkbugs.py            writes all directories
#        mkbugs.py verify ID.. builds scratch copies and confirms each one (patch applies, builds, stable tests pass, demo 0 / nonzero)
#        mkbugs.py catch ID..  runs the property's quick check against each one, in a scratch copy
import os, sys, subprocess, json, shutil, tempfile, re
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); OUT = os.path.join(VERIF, "seeded")
PRE = '''#include <delynoi/models/Mesh.h>
#include <delynoi/models/Region.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/noise/noise.h>
#include <delynoi/models/basic/Angle.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/triangulation/DelaunayTriangulationGenerator.h>
#include <delynoi/voronoi/TriangleVoronoiGenerator.h>
#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
#include <delynoi/utilities/convexHull.h>
#include <delynoi/utilities/geometryFunctions.h>
#include <delynoi/config/DelynoiConfig.h>
#include <cstdio>
#include <cmath>
#include <set>
#include <sstream>
#define NEED(c) do { if (!(c)) { printf("broken: %s\\n", #c); return 1; } } while (0)
typedef std::vector<Point> VP;
static double areaOf(std::vector<Point> p, std::vector<int> i) { double a = 0; for (size_t k = 0; k < i.size(); ++k) { Point& u = p[i[k]]; Point& v = p[i[(k + 1) % i.size()]]; a += u.getX() * v.getY() - v.getX() * u.getY(); } return a / 2; }
template <class T> static double total(Mesh<T>& m) { double a = 0; for (auto& e : m.getPolygons()) a += areaOf(m.getPoints().getList(), e.getPoints()); return a; }
static bool near(double a, double b, double t = 1e-6) { return std::abs(a - b) < t; }
static std::string home(const std::string& f) { return std::string(getenv("HOME")) + "/" + f; }
static void put(const std::string& f, const std::string& t) { std::ofstream o(home(f)); o << t; }
static std::string got(const std::string& f) { std::ifstream i(home(f)); std::stringstream s; s << i.rdbuf(); return s.str(); }
'''
DEMO = '''#!/bin/bash
# exit 0 when the demonstrated behaviour is right
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
libs="$(find "$r/_build" -name liblibdelynoi.a | head -1) $(find "$r/_build" -name libtriangle.a | head -1) $(find "$r/_build" -name liblibutilities.a | head -1)"
g++ -std=gnu++14 -w -D_USE_MATH_DEFINES -I"$r/delynoi/include" -I"$r/lib/utilities/include" "$d/demo.cpp" $libs -o "$t/demo" || exit 3
cd "$t" && HOME="$t" timeout 60 ./demo
'''
B = []
def bug(i, prop, edits, needs, breaks, demo): B.append((i, prop, edits, needs, breaks, demo))
D = "delynoi/src/"
exec(open(os.path.join(HERE, "bugs.txt")).read())
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def write(b):
    i, prop, edits, needs, breaks, demo = b; d = os.path.join(OUT, i); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(); sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x" % (t, t))
    for f, old, new in edits:
        p = os.path.join(t, f); s = open(p).read(); assert s.count(old) == 1, (i, f, s.count(old), old); open(p, "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % t).stdout); shutil.rmtree(t)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write(PRE + "int main() {\n" + demo.strip("\n") + "\n    return 0;\n}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def blame(b):
    bad = []
    for l in open(os.path.join(OUT, b[0], "patch.diff")):
        if l.startswith("--- a/"): f = l[6:].strip(); mine = set()
        if l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1; continue
        if l.startswith(("---", "+++", "diff", "index")): continue
        if l.startswith("+"): continue
        n += 1
        if l.startswith("-"):
            o = sh("cd /repo && git blame -s -L %d,%d %s" % (n, n, f)).stdout
            if not o.startswith("^13c1cbd"): bad.append(o.strip())
    return bad
def verify(b):
    i = b[0]; d = os.path.join(OUT, i); msg = []; bl = blame(b)
    if bl: msg.append("changes own lines: %s" % bl)
    t = "/tmp/bugcopy-" + i
    sh("rm -rf %s; cp -a /repo %s" % (t, t)); r = sh("cd %s && bash %s/demo.sh" % ("/repo", d)); msg += [] if r.returncode == 0 else ["demo fails on clean: " + r.stdout + r.stderr]
    sh("cd %s && git apply %s/patch.diff" % (t, d))
    sh("rm -rf {0}/_build {0}.h; cp -a /opt/vp {0}.h; sed -i 's#/repo\\b#{0}#g; s#/opt/vp#{0}.h#g' {0}.h/build.sh {0}.h/test.sh {0}.h/harness/CMakeLists.txt".format(t))
    bt = sh("bash %s.h/build.sh" % t)
    if bt.returncode: msg.append("build: " + (bt.stdout + bt.stderr)[-500:])
    tt = sh("bash %s.h/test.sh /tmp/t-%s.json" % (t, i))
    try: res = json.load(open("/tmp/t-%s.json" % i)); stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]; f = [x for x in stable if x not in res.get("passed", [])]; msg += ["tests fail: %s" % f] if f else []
    except Exception as e: msg.append("tests: %r %s" % (e, tt.stderr[-300:]))
    r = sh("cd %s && bash %s/demo.sh" % (t, d))
    if r.returncode in (0, 3): msg.append("demo on patched gives %d %s" % (r.returncode, r.stdout + r.stderr[:300]))
    else: msg.append("ok (%s)" % r.stdout.strip()[:100])
    sh("rm -rf {0} {0}.h /tmp/t-{1}.json".format(t, i)); return i, msg
if __name__ == "__main__":
    sel = [b for b in B if len(sys.argv) <= 2 or b[0] in sys.argv[2:]]
    if len(sys.argv) == 1:
        for b in B: write(b)
        print(len(B), "written"); sys.exit()
    for b in sel: write(b)
    if sys.argv[1] == "verify":
        for b in sel: print(*verify(b), flush=True)
    if sys.argv[1] == "catch":
        for b in sel:
            t = "/tmp/catch-" + b[0]; sh("rm -rf %s %s.b; mkdir %s; git -C /repo archive HEAD | tar x -C %s; cd %s && git apply %s/patch.diff; cp -a %s/.build %s.b" % (t, t, t, t, t, os.path.join(OUT, b[0]), VERIF, t))
            # the cache is keyed by source paths, so the scratch copy builds from scratch
            props = [b[1]] if not os.environ.get("ALLP") else ["P%02d" % k for k in range(1, 26)]
            got = []
            for p in props:
                r = sh("cd %s && DELYNOI_REPO=%s VERIF_BUILD=%s.b python3 run.py %s %s" % (VERIF, t, t, p, os.environ.get("TIER", "quick")))
                v = [l for l in r.stdout.splitlines() if l.startswith(("failure", "VIOLATION", "check"))]
                got.append((p, r.returncode, v[0][:230] if v else r.stderr[-200:]))
            for g in got:
                if g[1] or len(props) == 1: print(b[0], *g, flush=True)
            sh("rm -rf %s %s.b" % (t, t))
