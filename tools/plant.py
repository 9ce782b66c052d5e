#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes seeded/<id>/ from a list of planted changes and tries each out against /repo:
builds, runs the repository's stable tests, the demonstration (must fail with, pass without the change) and the check.
SPEC.py defines SEEDS = [dict(id, pid, edits=[(file, old, new)], libs, demo, needs, breaks)]."""
import json, os, subprocess, sys, runpy
V = '/verif'
def sh(c, t=900, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
DEMO = '''#!/bin/bash
# Builds the demonstration against the libraries of this tree (run in the repository after its build) and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"; tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -I"$repo/src" "$here/demo.cpp" %s -o "$tmp/demo" -L"$repo/_build/lib" %s -Wl,-rpath,"$repo/_build/lib" -lpthread || exit 3
cd "$tmp" && timeout 120 ./demo
'''
PRE = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#define CHECK( x ) do { if( !( x ) ) { std::printf( "failed: %s (line %d)\\n", #x, __LINE__ ); return 1; } } while( 0 )
template<class F> static bool throws( F f ) { try { f(); } catch( std::exception const & ) { return true; } return false; }
'''
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    for s in seeds:
        if only and s['id'] not in only:
            continue
        d = '%s/seeded/%s' % (V, s['id'])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s['edits']:
                p = '/repo/' + f
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            open(d + '/demo.cpp', 'w').write(s['demo'].replace('//PRE\n', PRE))
            libs = ' '.join('-l' + (l if l.startswith('boost') else l) for l in s['libs'].split())
            open(d + '/demo.sh', 'w').write(DEMO % (s.get('srcs', ''), libs))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=s['pid'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            b = sh('bash /opt/vp/build.sh')
            if b.returncode:
                print(s['id'], 'BUILD FAILED', b.stdout[-1500:]); continue
            sh('bash /opt/vp/test.sh /tmp/plant.json')
            lost = sorted(stable - set(json.load(open('/tmp/plant.json'))['passed']))
            bad = sh('bash %s/demo.sh' % d, cwd='/repo')
            c = sh('VERIF_OUT=/tmp/plant_out bin/check %s quick' % s['pid'], cwd=V)
            caught = c.returncode == 1 and 'VIOLATION property=%s' % s['pid'] in c.stdout
            why = [l for l in c.stdout.split('\n') if 'is no step' in l or 'Sanitizer' in l or 'harness' in l][-1:] if caught else c.stdout[-600:]
        finally:
            sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
        good = sh('bash %s/demo.sh' % d, cwd='/repo')
        ok = not lost and bad.returncode not in (0, 3) and good.returncode == 0
        print(s['id'], 'OK' if ok else 'UNUSABLE', 'caught' if caught else 'MISSED', 'lost=%s' % lost[:3] if lost else '', 'demo with: %d %s' % (bad.returncode, bad.stdout.strip()[-160:]), 'without: %d %s' % (good.returncode, good.stdout.strip()[-200:] if good.returncode else ''), '\n    ', str(why)[:600], flush=True)
main()
