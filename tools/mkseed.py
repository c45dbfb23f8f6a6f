"""mk(id, prop, edits, demo, needs, breaks): writes seeded/<id> (patch made against /repo's working tree)."""
import difflib, json, os, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = '''#!/bin/sh
# exit 0: the property holds on this input; non-zero: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -w -I. -I_build/sdk/include -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" \\
  -L_build/sdk/lib -lalmath -Wl,-rpath,"$PWD/_build/sdk/lib" || exit 3
cd "$T" && timeout 60 ./demo
'''
HEAD = '''#include <cstdio>
#include <cstdlib>
#include <cmath>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "failed: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)
'''


def mk(id, prop, edits, demo, needs, breaks):
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    patch = ''
    files = {}
    for f, a, b in edits:
        s = files.get(f) or open('/repo/' + f).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        files[f] = s.replace(a, b)
    for f, new in files.items():
        old = open('/repo/' + f).read()
        patch += ''.join(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n' for l in
                         difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.sh', 'w').write(RUN)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(HEAD + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
