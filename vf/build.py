"""A build of /repo's current tree that native replays can import.

Extension modules that /repo's own build made from exactly the current sources
(its stamp holds their hash) are reused; the others are compiled in a scratch
directory, in the background."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'
KEYS = r'''
cd "$1" || exit 1
meta=$(sha256sum setup.py pyproject.toml 2>&1 | sha256sum | cut -d' ' -f1)
common=$(find src \( -name '*.pxd' -o -name '*.pxi' -o -name '*.h' \) -type f | LC_ALL=C sort | xargs -r sha256sum)
find src -name '*.pyx' -type f | LC_ALL=C sort | while IFS= read -r pyx; do
  key=$( { echo "$meta $common"; sha256sum "$pyx"; } | sha256sum | cut -d' ' -f1)
  echo "$pyx $key"
done
'''


def keys():
    r = subprocess.run(['bash', '-c', KEYS, 'keys', REPO], capture_output=True, text=True)
    return dict(l.split() for l in r.stdout.splitlines() if l.strip())


def sos(base):
    return glob.glob(base + '.cpython-*.so')


def start():
    d = tempfile.mkdtemp(prefix='vf_build_')
    b = {'dir': d, 'proc': None, 'key': {}, 'missing': []}
    shutil.copytree(os.path.join(REPO, 'src', 'eventio'), os.path.join(d, 'src', 'eventio'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__', '*.pyc'))
    for x in os.listdir(REPO):
        p = os.path.join(REPO, x)
        if os.path.isfile(p) and os.path.getsize(p) < 1 << 18 and not x.startswith('.git'):
            shutil.copy(p, os.path.join(d, x))
    if not os.path.exists(os.path.join(d, 'src', 'eventio', '_version.py')):
        with open(os.path.join(d, 'src', 'eventio', '_version.py'), 'w') as f:
            f.write("__version__ = version = '1.0.0'\n__version_tuple__ = version_tuple = (1, 0, 0)\n")
    cache = os.environ.get('VF_CACHE')
    for pyx, key in keys().items():
        base = pyx[:-4]
        src = os.path.join(REPO, base)
        stamp = os.path.join(REPO, 'build', 'vp-stamps', base.replace('/', '_'))
        have = None
        if os.path.exists(stamp) and open(stamp).read().strip() == key and sos(src):
            have = sos(src)[0]
        elif cache and glob.glob(os.path.join(cache, key + '*.so')):
            have = glob.glob(os.path.join(cache, key + '*.so'))[0]
        if have:
            name = os.path.basename(have)
            if cache and have.startswith(cache):
                name = os.path.basename(base) + name[len(key):]
            shutil.copy2(have, os.path.join(d, os.path.dirname(base), name))
        else:
            b['missing'].append((base, key))
    if b['missing']:
        env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='1.0.0', PYTHONDONTWRITEBYTECODE='1')
        env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
        # newer than their sources: only the missing ones are compiled
        for base, _ in [(k[:-4], v) for k, v in keys().items()]:
            for so in sos(os.path.join(d, base)):
                os.utime(so)
        code = '''
import sys
import setuptools
from Cython.Build import cythonize
import numpy as np
names = sys.argv[1].split(',')
sys.argv = ['setup.py', 'build_ext', '--inplace', '-j', '4']
kw = dict(include_dirs=[np.get_include()], define_macros=[("NPY_NO_DEPRECATED_API", "NPY_1_7_API_VERSION"), ("NPY_TARGET_VERSION", "NPY_1_21_API_VERSION")], extra_compile_args=['-O1'])
setuptools.setup(name='eventio', package_dir={'': 'src'}, packages=[], ext_modules=cythonize([setuptools.Extension(n[4:].replace('/', '.'), sources=[n + '.pyx'], **kw) for n in names], nthreads=0))
'''
        run = os.path.join(d, 'vf_setup.py')
        with open(run, 'w') as f:
            f.write(code)
        os.rename(os.path.join(d, 'pyproject.toml'), os.path.join(d, 'pyproject.off')) if os.path.exists(os.path.join(d, 'pyproject.toml')) else None
        b['proc'] = subprocess.Popen([PY, 'vf_setup.py', ','.join(x for x, _ in b['missing'])], cwd=d, env=env,
                                     stdout=open(os.path.join(d, 'build.log'), 'w'), stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL)
    return b


def finish(b, timeout=500):
    """Path to put on sys.path, or None if the build failed."""
    if b['proc'] is not None:
        try:
            rc = b['proc'].wait(timeout)
        except subprocess.TimeoutExpired:
            b['proc'].kill()
            return None
        if rc != 0:
            return None
        cache = os.environ.get('VF_CACHE')
        for base, key in b['missing']:
            s = sos(os.path.join(b['dir'], base))
            if not s:
                return None
            if cache:
                os.makedirs(cache, exist_ok=True)
                shutil.copy2(s[0], os.path.join(cache, key + os.path.basename(s[0])[len(os.path.basename(base)):]))
    return os.path.join(b['dir'], 'src')


def clean(b):
    if b['proc'] is not None and b['proc'].poll() is None:
        b['proc'].kill()
        b['proc'].wait()
    shutil.rmtree(b['dir'], ignore_errors=True)


if __name__ == '__main__':
    import time
    t = time.time()
    b = start()
    print(b['missing'], finish(b), time.time() - t)
    clean(b)
