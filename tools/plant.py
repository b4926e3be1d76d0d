#!/usr/bin/env python3
"""Plants bugs: python3 tools/plant.py [-c] ID...  (reads tools/plants/ID.py)
Writes /verif/seeded/ID after confirming that the change builds, passes the stable tests and that the demonstration
tells the changed tree from the unchanged one; -c also runs the property's check on the changed tree; -k skips validation."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, 'tools', 'plants')
SH = '''#!/bin/bash
# run with cwd = the repository, after its build; exit 0: behaves as specified, else: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -depth -delete' EXIT
I="-I$D -I$D/inc -Isource/girgs/include -Isource/hypergirgs/include -DGIRGS_STATIC_DEFINE -DHYPERGIRGS_STATIC_DEFINE"
g++ -std=c++14 -O2 -w -fopenmp %(flags)s $I "$D/demo.cpp" %(libs)s -o "$T/demo" || exit 3
%(cli)scd "$T" || exit 3
timeout 250 ./demo
'''
CLI = 'g++ -std=c++14 -O2 -w -DNDEBUG -fopenmp $I source/cli/%s/main.cpp source/%s/source/*.cpp -o "$T/tool" || exit 3\n'
def run(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def load(i):
    d = {}
    exec(open(os.path.join(P, i + '.py')).read(), d)
    return d
def main():
    args = sys.argv[1:]
    check = '-c' in args
    ids = [a for a in args if a[0] != '-'] or sorted(f[:-3] for f in os.listdir(P) if f.endswith('.py'))
    for i in ids:
        d = load(i)
        tmp = '/tmp/plant_' + i
        run('rm -rf ' + tmp)
        run(['cp', '-a', '/repo', tmp])
        try:
            one(i, d, tmp, check)
        finally:
            run('rm -rf ' + tmp)
def one(i, d, tmp, check):
    for f, old, new in d['edits']:
        p = os.path.join(tmp, f)
        s = open(p).read()
        cnt = s.count(old)
        assert cnt == 1, (i, f, old, cnt)
        open(p, 'w').write(s.replace(old, new))
    diff = run('git -C %s diff' % tmp).stdout
    dst = os.path.join(V, 'seeded', i)
    work = '/tmp/plantout_' + i
    run('rm -rf ' + work)
    os.makedirs(work + '/inc/girgs'); os.makedirs(work + '/inc/hypergirgs')
    shutil.copy(V + '/stubs/girgs/girgs_api.h', work + '/inc/girgs/')
    shutil.copy(V + '/stubs/hypergirgs/hypergirgs_api.h', work + '/inc/hypergirgs/')
    if d.get('cli'):
        vh = '''#pragma once
#define GIRGS_NAME_VERSION "demo"
#define GIRGS_PROJECT_DESCRIPTION "demo"
#define GIRGS_AUTHOR_ORGANIZATION "demo"
#define GIRGS_AUTHOR_DOMAIN "demo"
#define GIRGS_AUTHOR_MAINTAINER "demo"
'''
        open(work + '/inc/girgs/girgs-version.h', 'w').write(vh)
    shutil.copy(P + '/demo.h', work)
    open(work + '/patch.diff', 'w').write(diff)
    open(work + '/demo.cpp', 'w').write(d['demo'].lstrip())
    libs = d.get('libs', '')
    libs = ' '.join('source/%s/source/*.cpp' % l for l in libs.split())
    cli = CLI % (d['cli'], {'gengirg': 'girgs', 'genhrg': 'hypergirgs'}[d['cli']]) if d.get('cli') else ''
    open(work + '/demo.sh', 'w').write(SH % dict(flags=d.get('flags', '-DNDEBUG'), libs=libs, cli=cli))
    os.chmod(work + '/demo.sh', 0o755)
    open(work + '/meta.json', 'w').write(json.dumps({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, indent=1) + '\n')
    ok = True
    # build and tests of the changed tree, out of the way of /repo: configured afresh
    run('rm -rf %s/_build' % tmp)
    for f in ('env', 'build', 'test'):
        x = open('/opt/vp/%s.sh' % f).read().replace('/opt/vp/env.sh', '/tmp/pl_env_%s.sh' % i).replace('/repo', tmp)
        open('/tmp/pl_%s_%s.sh' % (f, i), 'w').write(x)
    b = run('bash /tmp/pl_build_%s.sh' % i)
    if b.returncode: print(i, 'BUILD FAILED', b.stdout[-1500:]); ok = False
    t = run('bash /tmp/pl_test_%s.sh /tmp/pt_%s.json' % (i, i))
    try:
        r = json.load(open('/tmp/pt_%s.json' % i))
        failed = r.get('failed', r.get('fail', []))
        print(i, 'tests: passed', len(r.get('passed', [])), 'failed', failed)
        if failed or len(r.get('passed', [])) < 61: ok = False
    except Exception as e:
        print(i, 'TESTS?', e, t.stdout[-800:]); ok = False
    u = run(['bash', work + '/demo.sh'], cwd='/repo')
    p = run(['bash', work + '/demo.sh'], cwd=tmp)
    print(i, 'demo unchanged', u.returncode, 'patched', p.returncode, p.stdout.strip()[-200:])
    if u.returncode != 0 or p.returncode in (0, 3):
        ok = False; print('   unchanged output:', u.stdout[-400:])
    if ok:
        run('rm -rf ' + dst); shutil.copytree(work, dst)
    print(i, 'KEPT' if ok else 'REJECTED')
    if check:
        c = run(['python3', V + '/check.py', d['property']], cwd=V, env=dict(os.environ, VERIF_REPO=tmp, VERIF_SEED='1', VERIF_TIER='quick'))
        print(i, 'CHECK', d['property'], 'exit', c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l][:1] or c.stdout[-300:])
    sys.stdout.flush()
    run('rm -rf ' + work)
main()
