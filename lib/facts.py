"""Runs the fact extractor over /repo's current sources and loads the result."""
import glob, json, os, re, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TOOL = os.path.join(VERIF, 'tool', 'bin', 'kfacts')
MODE_DEFS = {'release': ['-D__RELEASE_MODE__'], 'debug': ['-D__DEBUG_MODE__']}

class AnalysisBroken(Exception):
    pass

def source_files(repo):
    fs = sorted(glob.glob(os.path.join(repo, 'src', '**', '*.cpp'), recursive=True))
    return fs

def flags(repo, mode):
    return ['-std=c++17', '-include', 'array', '-I', os.path.join(repo, 'src', 'libkiter'), '-I/usr/include/libxml2',
            '-w', '-Wno-everything', '-ferror-limit=0'] + MODE_DEFS[mode]

def system_pch(repo, mode, tmp):
    """precompiles the system headers the project's headers name (speed only; the extraction works without)"""
    base = os.path.join(repo, 'src', 'libkiter'); names = set()
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in fs:
            if f.endswith(('.h', '.hpp')):
                for m in re.finditer(r'^\s*#\s*include\s*<([^>]+)>', open(os.path.join(d, f), errors='replace').read(), re.M):
                    if not os.path.exists(os.path.join(base, m.group(1))) and not os.path.exists(os.path.join(d, m.group(1))): names.add(m.group(1))
    h = os.path.join(tmp, 'system.h')
    with open(h, 'w') as fh: fh.write(''.join('#if __has_include(<%s>)\n#include <%s>\n#endif\n' % (n, n) for n in sorted(names)))
    pch = os.path.join(tmp, 'system.pch')
    r = subprocess.run(['clang++'] + flags(repo, mode) + ['-x', 'c++-header', h, '-o', pch], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return pch if r.returncode == 0 and os.path.exists(pch) else None

def extract(repo, mode='release', only=None, jobs=8):
    try: return extract1(repo, mode, only, jobs, True)
    except AnalysisBroken: return extract1(repo, mode, only, jobs, False)

def extract1(repo, mode, only, jobs, usepch):
    if not os.path.exists(TOOL):
        r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(TOOL):
            raise AnalysisBroken('extractor not built (setup_cmd is tool/build.sh): %s' % r.stdout.decode(errors='replace')[-2000:])
    files = source_files(repo)
    if only: files = [f for f in files if any(o in f for o in only)]
    if not files: raise AnalysisBroken('no sources below %s/src' % repo)
    files.sort(key=lambda f: -os.path.getsize(f))
    groups = [[] for _ in range(min(jobs, len(files)))]
    load = [0] * len(groups)
    for f in files:
        i = load.index(min(load)); groups[i].append(f); load[i] += 60000 + os.path.getsize(f)
    tmp = tempfile.mkdtemp(prefix='kfacts.')
    try:
        pch = system_pch(repo, mode, tmp) if usepch else None
        extra = ['-include-pch', pch] if pch else []
        procs = []
        for i, g in enumerate(groups):
            out = os.path.join(tmp, '%d.jsonl' % i)
            err = open(os.path.join(tmp, '%d.err' % i), 'w')
            procs.append((subprocess.Popen([TOOL, os.path.join(repo, 'src'), out] + g + ['--'] + flags(repo, mode) + extra, stdout=err, stderr=err, cwd=tmp), out, err, g))
        recs = []; 
        for p, out, err, g in procs:
            p.wait(); err.close()
            if p.returncode != 0:
                raise AnalysisBroken('extractor failed on %s:\n%s' % (g, open(err.name).read()[-3000:]))
        seen = set()
        for p, out, err, g in procs:
            with open(out) as fh:
                for line in fh:
                    k = line[:0]
                    r = json.loads(line)
                    key = (r['rec'], r.get('key') or r.get('file'))
                    if r['rec'] == 'var': key = (r['rec'], r['key'], r['file'], r['line'], r.get('def'))
                    if key in seen: continue
                    seen.add(key); recs.append(r)
        return files, recs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    t = time.time()
    files, recs = extract(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    print(len(files), len(recs), time.time() - t)
    import collections
    print(collections.Counter(r['rec'] for r in recs))
    print(sum(len(r.get('nodes', ())) for r in recs))
