"""Builds the code of /repo for the checks, outside /repo."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BOOZ_REPO', '/repo')
WORK = os.environ.get('BOOZ_WORK', os.path.join(ROOT, '.work'))
PY = '/opt/boozenv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class BuildError(Exception):
    pass

def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        if os.path.isfile(p):
            h.update(p.encode() + b'\0')
            with open(p, 'rb') as f:
                h.update(f.read())
    return h.hexdigest()

def files_under(d):
    return [os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs if '__pycache__' not in a and '.egg-info' not in a]

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
    return r.stdout

def stamp_ok(stamp, want, outputs):
    return os.path.exists(stamp) and open(stamp).read() == want and all(os.path.exists(o) for o in outputs)

def build():
    """Library, Python package, C++ driver, Java overrides, and helpers in C. Returns the environment."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _java(); _helpers(); _library()
    return WORK

def _java():
    src = glob.glob(ROOT + '/java/boozspec/*.java')
    out = WORK + '/classes'
    want = digest(src)
    if stamp_ok(WORK + '/classes.stamp', want, [out + '/boozspec/Real.class']):
        return
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    sh(['javac', '-cp', JARS, '-d', out] + src)
    open(WORK + '/classes.stamp', 'w').write(want)

def _helpers():
    src = glob.glob(ROOT + '/harness/c/*.c')
    want = digest(src)
    outs = [WORK + '/' + os.path.basename(s)[:-2] + '.so' for s in src]
    if stamp_ok(WORK + '/helpers.stamp', want, outs):
        return
    for s, o in zip(src, outs):
        sh(['gcc', '-O1', '-g', '-Wall', '-fPIC', '-shared', '-o', o, s, '-ldl', '-lpthread'])
    open(WORK + '/helpers.stamp', 'w').write(want)

def _library():
    src = files_under(REPO + '/src') + [REPO + '/CMakeLists.txt', REPO + '/pyproject.toml', REPO + '/setup.py', REPO + '/README.md']
    src += [f for f in files_under(REPO + '/external') if f.endswith('.txt')] if os.path.isdir(REPO + '/external') else []
    par = ROOT + '/harness/cxx/par.cpp'
    want = digest(src + [par])
    bld, pkg, stamp = WORK + '/build', WORK + '/pkg/booz_xform', WORK + '/library.stamp'
    if stamp_ok(stamp, want, [pkg + '/__init__.py', bld + '/xbooz_xform']):
        return
    # Start from nothing: file times in copies of the tree prove nothing.
    if os.path.exists(stamp):
        os.remove(stamp)
    shutil.rmtree(bld, ignore_errors=True)
    shutil.rmtree(WORK + '/pkg', ignore_errors=True)
    # A helper that runs several objects at the same time becomes part of the extension module.
    inc = subprocess.run([PY, '-m', 'pybind11', '--includes'], stdout=subprocess.PIPE, text=True).stdout.split()
    try: sh(['g++', '-std=c++17', '-O1', '-fPIC', '-fopenmp', '-fvisibility=hidden'] + inc +
            ['-I' + d for d in [REPO + '/src/_booz_xform'] + glob.glob(REPO + '/externalPackages/*')] + ['-c', par, '-o', WORK + '/par.o'])
    except BuildError as e: link = []; print(e, file=sys.stderr)
    else: link = ['-DCMAKE_MODULE_LINKER_FLAGS=' + WORK + '/par.o']
    version = re.search(r'^version\s*=\s*"([^"]*)"', open(REPO + '/pyproject.toml').read(), re.M)
    sh(['cmake', '-S', REPO, '-B', bld, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release', '-DCMAKE_CXX_FLAGS=-DBOOZ_XFORM_VERIF',
        '-DBOOZ_XFORM_REQUIRE_OPENMP=ON', '-DPython_EXECUTABLE=' + PY, '-DPYTHON_EXECUTABLE=' + PY] + link
       + (['-DBOOZ_XFORM_VERSION=' + version[1]] if version else []))
    sh(['cmake', '--build', bld, '--target', '_booz_xform', 'xbooz_xform'])
    os.makedirs(pkg)
    for f in glob.glob(REPO + '/src/booz_xform/*.py'):
        shutil.copy(f, pkg)
    so = [f for f in files_under(bld) if re.search(r'_booz_xform[^/]*\.so$', f)]
    if len(so) != 1:
        raise BuildError('extension module not found: %r' % so)
    shutil.copy(so[0], pkg)
    open(stamp, 'w').write(want)

if __name__ == '__main__':
    build()
