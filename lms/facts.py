"""Facts step: (re)export every translation unit of /repo/src whose sources changed, then load the program."""
import hashlib, json, os, subprocess, sys, glob, pickle, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LMS_REPO', '/repo')
CACHE = os.environ.get('LMS_CACHE', os.path.join(VERIF, '.cache'))
SRC = os.path.join(REPO, 'src')


class AnalysisBroken(Exception):
    pass


# sources of the library that the build in this sandbox leaves out (they need live555 / FFmpeg 2.x);
# they are parsed against the declarations in /verif/stubs
def is_stubbed(rel):
    if rel == 'PipelineManager.cpp':
        return True
    if rel.startswith('modules/transmitter/'):
        return not rel.endswith('.c')
    return rel.split('/')[1:2] and rel.split('/')[1] in ('receiver', 'audioDecoder', 'audioEncoder', 'videoDecoder', 'headDemuxer')


def flags(rel):
    S = os.path.join(VERIF, 'stubs')
    if rel.endswith('.c'):
        return ['-x', 'c', '-std=gnu17', '-w', '-D__STDC_CONSTANT_MACROS', '-I' + SRC, '-isystem', S + '/opencv', '-isystem', '/usr/include/opencv4']
    f = ['-std=c++11', '-w', '-D__STDC_CONSTANT_MACROS', '-ferror-limit=0']
    if is_stubbed(rel):
        f += ['-I' + SRC, '-isystem', S + '/ffmpeg', '-isystem', S + '/live555']
        f += ['-include', S + '/ffmpeg/oldffmpeg.h']
    f += ['-isystem', S + '/opencv', '-isystem', '/usr/include/opencv4', '-include', 'string']
    return f


def sha(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return 'missing'


def tus():
    out = []
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.cpp') or f.endswith('.c'):
                out.append(os.path.relpath(os.path.join(root, f), SRC))
    return sorted(out)


def export_one(rel, toolsum):
    d = os.path.join(CACHE, 'facts')
    key = rel.replace('/', '__')
    outp = os.path.join(d, key + '.json')
    dep = os.path.join(d, key + '.dep')
    fl = flags(rel)
    try:
        with open(dep) as f:
            D = json.load(f)
        if D['tool'] == toolsum and D.get('src') == SRC and D['flags'] == fl and all(sha(p) == h for p, h in D['files'].items()) and os.path.exists(outp):
            return rel, D['errors'], False, ''
    except (OSError, ValueError, KeyError):
        pass
    tool = os.path.join(CACHE, 'bin', 'lmsfacts')
    tmp = outp + '.%d' % os.getpid()
    r = subprocess.run([tool, '--root=' + SRC, '-o', tmp, os.path.join(SRC, rel), '--'] + fl,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd='/')
    if not os.path.exists(tmp):
        return rel, -1, True, r.stdout[-2000:]
    with open(tmp) as f:
        J = json.load(f)
    files = {p: sha(p) for p in J['files'] if not p.startswith('/usr/')}
    files[os.path.join(SRC, rel)] = sha(os.path.join(SRC, rel))
    os.replace(tmp, outp)
    with open(dep + '.tmp%d' % os.getpid(), 'w') as f:
        json.dump({'src': SRC, 'tool': toolsum, 'flags': fl, 'files': files, 'errors': J['errors']}, f)
    os.replace(dep + '.tmp%d' % os.getpid(), dep)
    return rel, J['errors'], True, r.stdout[-2000:]


def ensure():
    os.makedirs(os.path.join(CACHE, 'facts'), exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([os.path.join(VERIF, 'tool', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, LMS_CACHE=CACHE))
        if r.returncode:
            raise AnalysisBroken('exporter does not build:\n' + r.stdout[-3000:])
        toolsum = open(os.path.join(CACHE, 'bin', 'lmsfacts.sum')).read().strip()
        todo = tus()
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda t: export_one(t, toolsum), todo))
        bad = [(t, e, o) for t, e, _, o in res if e and not (is_stubbed(t) and e > 0)]
        if bad:
            raise AnalysisBroken('translation units that do not parse: ' + '; '.join('%s (%d errors) %s' % b for b in bad[:3]))
        return {'tus': [t for t, _, _, _ in res], 'reexported': [t for t, _, x, _ in res if x],
                'errors': {t: e for t, e, _, _ in res if e}}


def load_all():
    info = ensure()
    sig = hashlib.sha256()
    d = os.path.join(CACHE, 'facts')
    for t in info['tus']:
        p = os.path.join(d, t.replace('/', '__') + '.json')
        st = os.stat(p)
        sig.update(('%s %d %d;' % (t, st.st_mtime_ns, st.st_size)).encode())
    sig.update(sha(os.path.join(VERIF, 'lms', 'ir.py')).encode())
    pk = os.path.join(CACHE, 'prog.pickle')
    try:
        with open(pk, 'rb') as f:
            s, P = pickle.load(f)
        if s == sig.hexdigest():
            P.info = info
            return P
    except Exception:
        pass
    from . import ir
    P = ir.Program()
    for t in info['tus']:
        with open(os.path.join(d, t.replace('/', '__') + '.json')) as f:
            P.add(t, json.load(f))
    P.finish()
    P.info = info
    try:
        with open(pk + '.%d' % os.getpid(), 'wb') as f:
            pickle.dump((sig.hexdigest(), P), f, protocol=4)
        os.replace(pk + '.%d' % os.getpid(), pk)
    except Exception:
        pass
    return P
