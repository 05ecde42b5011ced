#!/usr/bin/env python3
"""plant.py SPEC.py [--notest] [--check]: makes /verif/seeded/<id>/ from an edit description and confirms it in a scratch copy.
SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (C++ text), optional flags/libs."""
import os, subprocess, sys, shutil, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/plant'; R = S + '/repo'; B = S + '/b'
def sh(c, **k): return subprocess.run(c, shell=True, **k)
def prep():
    if not os.path.isdir(R):
        os.makedirs(S, exist_ok=True)
        sh('git clone -q /repo %s' % R, check=True)
    sh('git -C %s checkout -q -f . && git -C %s fetch -q origin && git -C %s reset -q --hard origin/HEAD' % (R, R, R), check=True)
DEMO_SH = '''#!/bin/bash
# run in the repository's root after its build; exit 0 when the behaviour is right
set -e
here="$(cd "$(dirname "$0")" && pwd)"; root="$(pwd)"; d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/gen/liblevenshtein/proto"
protoc --proto_path="$root/proto" --cpp_out="$d/gen/liblevenshtein/proto" "$root/proto/liblevenshtein.proto"
cd "$d"
find "$root/src/liblevenshtein" -name '*.cpp' > srcs; echo "$root/third-party/MurmurHash2.cpp" >> srcs; echo "$d/gen/liblevenshtein/proto/liblevenshtein.pb.cc" >> srcs; echo "$here/demo.cpp" >> srcs
n=0; while read -r f; do n=$((n+1)); echo "$f $n.o"; done < srcs | xargs -P 8 -L 1 sh -c 'g++ -std=c++20 -O1 -w %(flags)s -I"'"$root"'/src" -I"'"$root"'/third-party" -I"'"$d"'/gen" -c "$0" -o "$1"'
g++ %(flags)s *.o -o demo -lprotobuf -lpthread
timeout 200 ./demo
'''
def main():
    spec = {}; exec(open(sys.argv[1]).read(), spec)
    d = VERIF + '/seeded/' + spec['id']; os.makedirs(d, exist_ok=True)
    prep()
    open(d + '/demo.cpp', 'w').write(spec['demo']); open(d + '/demo.sh', 'w').write(DEMO_SH % {'flags': spec.get('flags', '')}); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, cwd=R); print('demo on the unchanged tree:', r.returncode)
    ok = r.returncode == 0
    for f, a, b in spec['edits']:
        p = R + '/' + f; t = open(p).read()
        if t.count(a) != 1: print('edit does not apply once:', f, t.count(a), repr(a)); return 1
        open(p, 'w').write(t.replace(a, b))
    sh('git -C %s diff > %s/patch.diff' % (R, d))
    r = sh('bash %s/demo.sh' % d, cwd=R); print('demo with the change:', r.returncode); ok &= r.returncode != 0
    if '--notest' not in sys.argv:
        env = dict(os.environ, PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        r = sh('cmake -S %s -B %s -G Ninja -DCMAKE_CXX_COMPILER=g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo -DProtobuf_DIR=/opt/vp/cmake -DBUILD_TESTS=ON --no-warn-unused-cli > %s/log 2>&1 && ninja -C %s --quiet >> %s/log 2>&1' % (R, B, S, B, S), env=env)
        print('build:', r.returncode); ok &= r.returncode == 0
        o = sh('cd %s/test && timeout 600 ./test-liblevenshtein 2>&1 | tail -15' % B, capture_output=True, env=env).stdout.decode(); print(o[-600:])
        ok &= 'PASSED' in o and 'FAILED' not in o
    print('KEEP' if ok else 'NOT OK')
    if '--check' in sys.argv:
        for p in [spec['property']] + spec.get('also', []):
            r = sh('VERIF_REPO=%s python3 %s/bin/check.py %s' % (R, VERIF, p)); print('check', p, 'exit', r.returncode)
    sh('git -C %s checkout -q -f .' % R)
    return 0 if ok else 1
sys.exit(main())
