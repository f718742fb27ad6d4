"""Builds the compiled simulator from the current source: with symbolic numbers ('sym') or with doubles ('plain')."""
import fcntl
import hashlib
import os
import subprocess
import sysconfig

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(REPO, 'projectq', 'backends', '_sim')
OUT = os.path.join(HERE, 'build')
VARIANTS = {'sym': ['-DINTRIN'], 'sym-portable': ['-DNOINTRIN', '-DSimulator=PortableSimulator'], 'plain': ['-DINTRIN', '-mavx2', '-mfma'], 'plain-portable': ['-DNOINTRIN', '-DSimulator=PortableSimulator']}


def digest(kind):
    h = hashlib.sha256()
    files = []
    for root in (SIM, os.path.join(HERE, 'cpp')):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs if f.endswith(('.hpp', '.cpp', '.h'))]
    for f in sorted(files) + [os.path.abspath(__file__)]:
        h.update(f.encode())
        with open(f, 'rb') as s:
            h.update(s.read())
    return h.hexdigest()[:16]


def build(kind):
    """path of the extension module; it is named _cppsim as in the package"""
    import pybind11
    d = os.path.join(OUT, kind + '-' + digest(kind))
    so = os.path.join(d, '_cppsim' + sysconfig.get_config_var('EXT_SUFFIX'))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        sym = kind.startswith('sym')
        cmd = ['g++', '-std=c++17', '-O1', '-fPIC', '-shared', '-fvisibility=hidden', '-DNDEBUG', '-w', '-I', sysconfig.get_paths()['include'],
               '-I', pybind11.get_include(), '-I', os.path.join(HERE, 'cpp'), '-DVF_SOURCE="%s"' % os.path.join(SIM, '_cppsim.cpp')]
        cmd += VARIANTS[kind]
        if sym:
            cmd += ['-I', os.path.join(HERE, 'cpp', 'fake')]
        cmd += [os.path.join(HERE, 'cpp', 'sim_%s.cpp' % ('sym' if sym else 'plain')), '-o', so + '.tmp']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('the simulator does not build (%s): %s' % (kind, r.stderr[-2000:]))
        os.replace(so + '.tmp', so)
    return so


if __name__ == '__main__':
    import sys
    for k in sys.argv[1:] or VARIANTS:
        print(build(k))
