"""Loads the facts of /repo's current source: builds the extractor when needed,
runs it on every translation unit, and returns a merged program."""
import hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CLOX_REPO', '/repo')
CACHE = os.environ.get('CLOX_CACHE', os.path.join(VERIF, '_cache'))
LLVM = '/usr/lib/llvm-18'

class AnalysisError(Exception):
    pass

def extractor():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'extract-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cmd = ['g++', '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions', '-I' + LLVM + '/include',
           '-D__STDC_LIMIT_MACROS', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D_GNU_SOURCE',
           src, '-o', tmp, '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError('extractor does not build: ' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out

CONFIGS = {
    'release': ['-DNDEBUG'],
    'debug': [],
}
BASE_FLAGS = ['-std=c99', '-I.', '-Ivendor', '-pthread', '-DNAN_TAGGING', '-DCOMPUTED_GOTO', '-D_GNU_SOURCE', '-w',
              '-resource-dir', LLVM + '/lib/clang/18']

def sources():
    out = []
    for d in ('', 'vendor'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.c'):
                out.append(os.path.join(d, f))
    return out

def tree_hash():
    h = hashlib.sha256()
    for d in ('', 'vendor'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(('.c', '.h', '.inc')):
                h.update(f.encode()); h.update(b'\0')
                h.update(open(os.path.join(p, f), 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:20]

def extract(config='release'):
    ex = extractor()
    srcs = sources()
    tmp = tempfile.mkdtemp(prefix='cloxfacts.')
    try:
        def one(s):
            out = os.path.join(tmp, s.replace('/', '_') + '.json')
            r = subprocess.run([ex, REPO, s, out, '--'] + BASE_FLAGS + ['-DLX_BUILT_DIR=' + REPO] + CONFIGS[config],
                               cwd=REPO, capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(out):
                raise AnalysisError('cannot analyse %s: %s' % (s, (r.stderr + r.stdout)[-1500:]))
            return s, json.load(open(out))
        with ThreadPoolExecutor(8) as p:
            return dict(p.map(one, srcs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def macros(config='release'):
    """object-like macros of the headers, as text"""
    hs = [f for f in sorted(os.listdir(REPO)) if f.endswith('.h')]
    src = ''.join('#include "%s"\n' % h for h in hs)
    r = subprocess.run(['clang', '-dM', '-E', '-x', 'c', '-'] + BASE_FLAGS[:-2] + CONFIGS[config], cwd=REPO, input=src, capture_output=True, text=True)
    out = {}
    for l in r.stdout.splitlines():
        p = l.split(None, 2)
        if len(p) == 3 and p[0] == '#define' and '(' not in p[1]: out[p[1]] = p[2]
    return out
