"""Builds a C++ driver together with the real sources of /repo (nothing of /repo's build tree is used) and runs it."""
import os, shutil, subprocess, tempfile, re, time
from concurrent.futures import ThreadPoolExecutor
from .ast import REPO, INCDIRS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ERR = ['src/error_handling/errors.cc', 'src/error_handling/exceptions.cc']
GEOM = ['src/geometry/' + f for f in ('BoxRegion.cc', 'Domain.cc', 'GeometricModel.cc', 'Geometry.cc', 'LabeledSetRegion.cc',
                                      'LogicalRegion.cc', 'PlaneRegion.cc', 'PointRegion.cc', 'PolygonRegion.cc', 'Region.cc')]
MESH = ['src/mesh/' + f for f in ('Mesh.cc', 'MeshSet.cc', 'MeshTile.cc', 'block_partition.cc')]
SIMPLE = ['src/mesh/mesh_simple/Mesh_simple.cc']
FACTORY = ['src/mesh/mesh_factory/MeshFactory.cc']
STATE = ['src/statemanager/JaliState.cc', 'src/statemanager/JaliStateVector.cc']
ALLSRC = ERR + GEOM + MESH + SIMPLE + FACTORY + STATE
LIBS = ['-lmetis', '-ltrilinos_zoltan', '-lmpi', '-lmpi_cxx']


def mpi_env(tmp):
    e = dict(os.environ)
    e.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1',
             OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_plm='isolated', OMPI_MCA_btl='self,vader',
             OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_mpi_yield_when_idle='1',
             OMPI_MCA_ess_singleton_isolated='1', TMPDIR=tmp, OMPI_MCA_orte_tmpdir_base=tmp)
    return e


def run_driver(src, repo_sources, args=(), timeout=300, opt='-O1', extra=(), mpi=False, sanitize=False, env=None):
    """returns dict(built, fails=[(key,text)], cases, samples, out, seconds, build_error)"""
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='cxvdrv')
    try:
        inc = ['-I%s/%s' % (REPO, d) for d in INCDIRS] + ['-I' + os.path.join(HERE, 'drivers')]
        flags = ['-std=c++11', opt, '-w', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-DJali_HAVE_METIS', '-DJali_HAVE_ZOLTAN', '-DOMPI_SKIP_MPICXX',
                 '-I/usr/include/trilinos', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include'] + list(extra)
        if sanitize:
            flags += ['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
        srcs = [os.path.join(HERE, 'drivers', src)] + [os.path.join(REPO, s) for s in repo_sources]

        def comp(a):
            k, s = a
            o = os.path.join(tmp, 'o%d.o' % k)
            p = subprocess.run(['g++'] + flags + inc + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            return o, p
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(comp, enumerate(srcs)))
        for o, p in rs:
            if p.returncode != 0:
                return dict(built=False, build_error=p.stderr.decode(errors='replace')[:3000], fails=[], cases=0, samples=[], out='', seconds=time.time() - t0)
        exe = os.path.join(tmp, 'drv')
        p = subprocess.run(['g++'] + flags + [o for o, _ in rs] + ['-o', exe] + (LIBS if mpi else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            return dict(built=False, build_error=p.stderr.decode(errors='replace')[:3000], fails=[], cases=0, samples=[], out='', seconds=time.time() - t0)
        tb = time.time() - t0
        e = mpi_env(tmp)
        e.update(env or {})
        e['ASAN_OPTIONS'] = 'detect_leaks=0:detect_container_overflow=0'
        try:
            p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=tmp)
            out, err, rc, hung = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace'), p.returncode, False
        except subprocess.TimeoutExpired as ex:
            out, err, rc, hung = (ex.stdout or b'').decode(errors='replace'), (ex.stderr or b'').decode(errors='replace'), -99, True
        fails, cases, samples, dist = [], 0, [], 0
        done = False
        for l in out.split('\n'):
            m = re.match(r'^FAIL key=(\S+) (.*)$', l)
            if m:
                fails.append((m.group(1), m.group(2)))
            m = re.match(r'^CASES (\d+)(?: DISTINCT (\d+))?', l)
            if m:
                cases = int(m.group(1))
                dist = int(m.group(2) or m.group(1))
                done = True
            if l.startswith('SAMPLE '):
                samples.append(l[7:])
        if not done and not fails:
            # no verdict: the driver neither finished nor reported
            return dict(built=True, fails=[], cases=cases, samples=samples, out=out[-3000:], err=err[-3000:], rc=rc, hung=hung, finished=False,
                        seconds=time.time() - t0, distinct=dist)
        return dict(built=True, fails=fails, cases=cases, distinct=dist, samples=samples, out=out[-6000:], err=err[-2000:], rc=rc, hung=hung, finished=done,
                    seconds=time.time() - t0, build_s=tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
