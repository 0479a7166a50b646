#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.
usage: build.py [plain|tsan]   prints the path of the binary"""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('SIM_REPO', '/repo')
B = os.environ.get('SIM_BUILD', os.path.join(V, 'build'))
CXX = os.environ.get('CXX', 'g++')

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def rd(p):
    with open(p, 'rb') as f: return f.read()

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + p.stdout[-6000:] + '\n')
        raise SystemExit(2)

def build(flavour='plain'):
    os.makedirs(B + '/obj', exist_ok=True)
    hdrs = sorted(glob.glob(R + '/libmonaa/*.hh') + glob.glob(R + '/monaa/*.hh') + glob.glob(R + '/libmonaa/*.h') + glob.glob(R + '/monaa/*.h'))
    gram = [R + '/monaa/tre_parser.yy', R + '/monaa/tre_lexer.l']
    repoKey = sha(*[os.path.relpath(p, R).encode() + b'\0' + rd(p) for p in hdrs + gram])
    gen = f'{B}/gen-{repoKey}'
    if not os.path.exists(gen + '/ok'):
        t = tempfile.mkdtemp(dir=B)
        run(['bison', '-o', t + '/tre_parser.tab.cc', gram[0]])
        run(['flex', '-o' + t + '/tre_lexer.yy.cc', gram[1]])
        open(t + '/ok', 'w').close()
        try: os.rename(t, gen)
        except OSError: shutil.rmtree(t)
    simh = sorted(glob.glob(V + '/sim/*.hh'))
    simKey = sha(*[rd(p) for p in simh])
    common = ['-std=c++20', '-g1', '-D_GLIBCXX_ASSERTIONS', '-w', '-pipe', '-fno-omit-frame-pointer', f'-DPROJECT_ROOT_DIR="{R}"']
    inc = [f'-I{R}/libmonaa', f'-I{R}/monaa', f'-I{gen}', '-I/usr/include/eigen3', f'-I{V}/sim']
    ropt = ['-O2']
    if flavour == 'tsan': ropt += ['-fsanitize=thread', '-DSIM_TSAN']
    jobs = []
    def add(src, extra, key):
        k = sha(CXX, flavour, *common, *ropt, *extra, key, rd(src), os.path.basename(src))
        jobs.append((src, extra, f'{B}/obj/{os.path.basename(src)}-{k}.o'))
    repoSrc = sorted(glob.glob(R + '/libmonaa/*.cc') + glob.glob(R + '/monaa/*.cc'))
    mains = {'main.cc': 'monaa_main', 'tre2ta.cc': 'tre2ta_main'}
    # the slow ones first
    for n in ('lib_monaa.cc', 'lib_dollar.cc', 'lib_nnd.cc', 'lib_common.cc', 'lib_words.cc'):
        if os.path.exists(f'{V}/sim/{n}'): add(f'{V}/sim/{n}', ropt + inc, repoKey + simKey)
    for s in sorted(repoSrc, key=lambda p: os.path.basename(p) != 'main.cc'):
        b = os.path.basename(s)
        if flavour == 'tsan' and b in mains: continue
        add(s, ropt + inc + ([f'-Dmain={mains[b]}'] if b in mains else []), repoKey)
    conv = R + '/utils/ascii2bin.c'
    if flavour != 'tsan' and os.path.exists(conv): add(conv, ropt + ['-x', 'c', '-Dmain=ascii2bin_main'], 'conv')
    for s in (gen + '/tre_parser.tab.cc', gen + '/tre_lexer.yy.cc'): add(s, ropt + inc, repoKey)
    for s in sorted(glob.glob(V + '/sim/*.cc')):
        b = os.path.basename(s)
        if b.startswith('lib_'): continue
        add(s, ['-O2', f'-I{V}/sim'] + (['-DSIM_TSAN'] if flavour == 'tsan' else []), simKey)
    def one(j):
        src, extra, obj = j
        if not os.path.exists(obj):
            tmp = obj + f'.{os.getpid()}.tmp'
            flags = [f for f in common if not f.startswith('-std')] if src.endswith('.c') else common
            run([CXX] + flags + extra + ['-c', src, '-o', tmp])
            os.rename(tmp, obj)
        else: os.utime(obj)
        return obj
    with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex: objs = list(ex.map(one, jobs))
    exe = f'{B}/sim-{flavour}-{sha(*objs)}'
    if not os.path.exists(exe):
        tmp = exe + f'.{os.getpid()}.tmp'
        run([CXX, '-g1', '-o', tmp] + objs + ['-lboost_program_options', '-lboost_graph', '-lboost_regex', '-ldl', '-lpthread'])
        os.rename(tmp, exe)
    # bound the cache
    olds = sorted(glob.glob(B + '/obj/*.o') + glob.glob(B + '/sim-*'), key=os.path.getmtime)
    while len(olds) > 300:
        try: os.unlink(olds.pop(0))
        except OSError: pass
    return exe

if __name__ == '__main__':
    print(build(sys.argv[1] if len(sys.argv) > 1 else 'plain'))
