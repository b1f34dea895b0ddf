#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--seeds N] [--replay FILE] [--seed N] [--verbose]

Stage 0: prepares a private scratch directory and environment, compiles the
disk seam, then runs sim/engine.py under the repository's Python and removes
everything afterwards.
exit 0 held on everything explored, 1 violation, 3 no answer.
"""
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')


def setup():
    # nothing is kept: every check compiles the disk seam itself; this only shows the tools are there
    with tempfile.TemporaryDirectory(prefix='verif-') as d:
        r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', os.path.join(d, 'x.so'), os.path.join(HERE, 'sim', 'simdisk.c'), '-ldl'])
        return r.returncode or subprocess.run([PY, '-c', 'import numpy, h5py, numba']).returncode


def main():
    if '--setup' in sys.argv:
        return setup()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    limit = 840 if tier == 'quick' else 6 * 3600
    if '--replay' in sys.argv:
        i = sys.argv.index('--replay') + 1
        sys.argv[i] = os.path.abspath(sys.argv[i])
    base = tempfile.mkdtemp(prefix='verif-', dir='/tmp')
    try:
        so = os.path.join(base, 'simdisk.so')
        r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', so, os.path.join(HERE, 'sim', 'simdisk.c'), '-ldl'])
        if r.returncode:
            print('ERROR: cannot compile the disk seam')
            return 3
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'VERIF_SEED', 'VERIF_TIER', 'VERIF_JOBS', 'VERIF_DEBUG')}
        env.update(
            LD_PRELOAD=so, VERIF_SO=so, VERIF_BASE=base, VERIF_REPO=REPO,
            NUMBA_CACHE_DIR=os.environ.get('VERIF_NUMBA_CACHE') or os.path.join(base, 'numba'),
            PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1',
            PYTHONHASHSEED=os.environ.get('VERIF_HASHSEED', '0'), NUMBA_OPT='1', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(base, 'mpl'),
            # reproducible contents for memory the code forgot to initialise
            MALLOC_PERTURB_='165', MALLOC_ARENA_MAX='1',
            OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
            NUMBA_NUM_THREADS=os.environ.get('VERIF_NUMBA_THREADS', '4'), NUMBA_THREADING_LAYER='workqueue',
            TMPDIR=os.path.join(base, 'tmp'), HDF5_USE_FILE_LOCKING='FALSE', TZ='UTC',
        )
        os.mkdir(env['TMPDIR'])
        p = subprocess.Popen([PY, '-X', 'faulthandler', os.path.join(HERE, 'sim', 'engine.py')] + sys.argv[1:], env=env, cwd=base, start_new_session=True)

        def end(*_):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        signal.signal(signal.SIGTERM, lambda *a: (end(), sys.exit(3)))
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            end()
            p.wait()
            print('ERROR: the check did not finish in time')
            return 3
        except KeyboardInterrupt:
            end()
            return 3
        end()
        return rc if rc in (0, 1) else 3
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
