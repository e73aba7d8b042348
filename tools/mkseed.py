"""seed(id, property, [(file, old, new), ...], needs, breaks, demo): writes /verif/seeded/<id>/."""
import difflib, json, os
SH = '''#!/bin/bash
# Builds and runs demo.cpp against the library in the current directory (/repo, already built).
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 1
trap 'find "$T" -mindepth 1 -delete; rmdir "$T"' EXIT
g++ -DRAPIDJSON_NOMEMBERITERATORCLASS -DSIMDB_ENABLED=0 -I"$R/sparta" -std=gnu++17 -O1 -w "$D/demo.cpp" "$R/_build/libsparta.a" -o "$T/demo" \\
    -lhdf5 -lsqlite3 -lyaml-cpp -lz -lboost_date_time -lboost_iostreams -lboost_serialization -lboost_timer -lboost_program_options -lrt -lpthread -ldl 2> "$T/err" ||
g++ -DRAPIDJSON_NOMEMBERITERATORCLASS -DSIMDB_ENABLED=0 -I"$R/sparta" -std=gnu++17 -O1 -w "$D/demo.cpp" "$R/_build/libsparta.a" -o "$T/demo" \\
    -lyaml-cpp -lz -lboost_date_time -lboost_iostreams -lboost_serialization -lboost_timer -lboost_program_options -lrt -lpthread -ldl || exit 2
cd "$T" && timeout 120 ./demo
'''
HEAD = '''#include <cstdio>
#include <cstdlib>
#define CHECK(x) do { if(!(x)) { std::printf("FAILED line %d: %s\\n", __LINE__, #x); std::fflush(stdout); std::_Exit(1); } } while(0)
'''


def seed(sid, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    patch = ''
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open('/repo/' + f).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches in %s for %r' % (sid, s.count(old), f, old))
        files[f] = s.replace(old, new)
    for f, s in files.items():
        patch += ''.join(difflib.unified_diff(open('/repo/' + f).read().splitlines(True), s.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.cpp', 'w').write(HEAD + demo)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
