"""Re-extracts the intermediate representation of every source the real build compiles,
from /repo's current working tree, on every run."""
import json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PILLOW_REPO', '/repo')
QT = '/usr/include/x86_64-linux-gnu/qt5'

class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, extraction failure)."""

def extractor():
    out = os.path.join(VERIF, 'build', 'pillow-extract')
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    if not (os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src)):
        r = subprocess.run([os.path.join(VERIF, 'extractor', 'build.sh'), out], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken('extractor does not build: ' + r.stderr[-800:])
    return out

def build_sources():
    """the SOURCES of pillowcore.pro (the file the build uses)"""
    pro = os.path.join(REPO, 'pillowcore', 'pillowcore.pro')
    txt = open(pro).read().replace('\\\n', ' ')
    srcs = []
    for m in re.finditer(r'SOURCES\s*\+?=\s*([^\n]*)', txt):
        srcs += m.group(1).split()
    if len(srcs) < 8:
        raise AnalysisBroken('cannot read SOURCES from pillowcore.pro')
    return srcs

def flags(incdir, c):
    f = ['-DPILLOW_ZLIB', '-DPILLOWCORE_BUILD', '-DQT_NO_DEBUG', '-DQT_NETWORK_LIB', '-DQT_SCRIPT_LIB', '-DQT_CORE_LIB', '-D_REENTRANT', '-fPIC',
         '-I' + incdir, '-I' + os.path.join(REPO, 'pillowcore'), '-I' + QT, '-I' + QT + '/QtNetwork', '-I' + QT + '/QtScript', '-I' + QT + '/QtCore',
         '-I/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w']
    if not c:
        f = ['-std=c++11', '-DQT_ANNOTATE_ACCESS_SPECIFIER(a)=__attribute__((annotate(#a)))', '-DQT_ANNOTATE_FUNCTION(a)=__attribute__((annotate(#a)))',
             '-include', os.path.join(REPO, 'pillowcore', 'pch.h')] + f
    else:
        f = ['-std=gnu11'] + f
    return f

def extract_all(only=None):
    exe = extractor()
    root = os.path.join(REPO, 'pillowcore')
    srcs = build_sources()
    if only: srcs = [s for s in srcs if os.path.basename(s) in only]
    tmp = tempfile.mkdtemp(prefix='pillow-inc-')
    try:
        for s in srcs:
            p = os.path.join(root, s)
            if not os.path.exists(p): raise AnalysisBroken('source listed in pillowcore.pro is missing: ' + s)
            for m in re.finditer(r'#\s*include\s*"([\w]+\.moc)"', open(p, errors='replace').read()):
                open(os.path.join(tmp, m.group(1)), 'w').close()
        def one(s):
            c = s.endswith('.c')
            r = subprocess.run([exe, root, os.path.join(root, s), '--'] + flags(tmp, c), capture_output=True, cwd=tmp)
            if r.returncode != 0:
                raise AnalysisBroken('cannot extract %s: %s' % (s, r.stderr.decode(errors='replace')[-1500:]))
            return s, json.loads(r.stdout)
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, srcs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    import time
    t = time.time(); u = extract_all(set(sys.argv[1:]) or None)
    for s, d in u.items(): print(s, len(d['functions']), len(d['callees']), len(d['records']))
    print('%.1fs' % (time.time() - t))
