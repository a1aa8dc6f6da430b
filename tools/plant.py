"""Plants bugs described in tools/bugs/*.py: writes /verif/seeded/<id>/ and confirms build, stable tests, demo and check.

  python3-vt tools/plant.py FILE.py [ID ...]     plant (all or the named ones)
Each FILE.py defines BUGS, a list of dict(id, prop, edits=[(path, old, new)], needs, breaks, demo (C++ text), srcs (repo sources), mpi)
"""
import importlib.util, json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 on the unchanged tree, nonzero when the property is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader \\
  OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_ess_singleton_isolated=1 OMPI_MCA_orte_tmpdir_base="$tmp"
inc="-I$repo/src/error_handling -I$repo/src/geometry -I$repo/src/mesh -I$repo/src/mesh/mesh_simple -I$repo/src/mesh/mesh_factory -I$repo/src/statemanager"
flags="-std=c++11 -O1 -w -DNDEBUG -DJali_HAVE_METIS -DJali_HAVE_ZOLTAN -DOMPI_SKIP_MPICXX -I/usr/include/trilinos -isystem /usr/lib/x86_64-linux-gnu/openmpi/include"
pids=(); objs=()
for s in "$here/demo.cc" %(srcs)s; do
  o="$tmp/$(basename "$s").o"; objs+=("$o")
  g++ $flags $inc -c "$s" -o "$o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 3; done
g++ "${objs[@]}" -o "$tmp/demo" %(libs)s || exit 3
cd "$tmp" && timeout 120 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def clean():
    sh('git -C /repo checkout -- .')
    assert not sh('git -C /repo status --porcelain').stdout.strip()


def plant(b, check=True):
    d = os.path.join(HERE, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    clean()
    try:
        with open(d + '/demo.cc', 'w') as f:
            f.write(b['demo'])
        srcs = b.get('srcs', [])
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO % dict(srcs=' '.join('"$repo/%s"' % s for s in srcs), libs='-lmetis -ltrilinos_zoltan -lmpi -lmpi_cxx' if b.get('mpi') else ''))
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/meta.json', 'w') as f:
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), f, indent=1)
        r0 = sh(d + '/demo.sh', cwd=REPO)
        for path, old, new in b['edits']:
            p = os.path.join(REPO, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT matches', s.count(old), 'times in', path)
                return
            open(p, 'w').write(s.replace(old, new))
        with open(d + '/patch.diff', 'wb') as f:
            f.write(subprocess.check_output(['git', '-C', '/repo', 'diff']))
        t = sh('bash /opt/vp/test.sh /tmp/plant.json')
        ok = False
        try:
            res = json.load(open('/tmp/plant.json'))
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            ok = set(stable) <= set(res['passed'])
        except Exception as e:
            print(e)
        r1 = sh(d + '/demo.sh', cwd=REPO)
        verdict = 'counts' if r0.returncode == 0 and r1.returncode not in (0, 3) and ok else 'DOES NOT COUNT'
        print(b['id'], verdict, 'demo clean', r0.returncode, 'demo bug', r1.returncode, 'tests', ok, flush=True)
        if verdict != 'counts':
            print(r0.stdout[-600:].decode(), r1.stdout[-600:].decode(), t.stdout[-600:].decode() if not ok else '')
        elif check:
            c = sh('python3-vt check.py %s quick' % b['prop'], cwd=HERE)
            print('   check exit', c.returncode, [l for l in c.stdout.decode().splitlines() if 'VIOLATION' in l][:4], flush=True)
    finally:
        clean()


def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv) == 2 or b['id'] in sys.argv[2:]:
            plant(b)
    sh('bash /opt/vp/build.sh')


main()
