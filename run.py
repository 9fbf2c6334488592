#!/usr/bin/env python3
"""Builds the library from /repo's working tree and one check's explorer, and runs it.

   python3 run.py C01 [--tier quick|thorough] [--task N] [--list]
   python3 run.py --build-all          (setup: builds everything once, as a smoke test)
"""
import glob, hashlib, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
ALLOC = ['malloc', 'calloc', 'realloc', 'free', 'reallocarray', 'aligned_alloc', 'memalign', 'posix_memalign', 'strdup']
MEM = ['memcpy', 'memmove', 'memset', 'memcmp']
# check -> (source file, library variant)
CHECKS = {'C%02d' % i: ('c%02d.cpp' % i, 'std') for i in range(1, 22)}
CHECKS['C02'] = ('c02.cpp', 'asan')
CHECKS['C15'] = ('c15.cpp', 'hook')

VARIANT = {
    # allocator calls renamed, writable data in sections of its own
    'std':  dict(cc=['gcc', '-O2', '-g'], cxx=['g++', '-O2', '-g', '-std=c++17']),
    # sanitizers, native allocator
    'asan': dict(cc=['gcc', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment,float-cast-overflow,float-divide-by-zero', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                 cxx=['g++', '-O1', '-g', '-std=c++17', '-DMC_ASAN', '-fsanitize=address,undefined', '-fno-sanitize=alignment,float-cast-overflow,float-divide-by-zero', '-fno-sanitize-recover=all']),
    # every memory access of the library is a call to a hook (our own runtime, not ThreadSanitizer's)
    'hook': dict(cc=['gcc', '-O1', '-g', '-fsanitize=thread'], cxx=['g++', '-O2', '-g', '-std=c++17', '-DMC_HOOK']),
}

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stdout.write('build failed: %s\n%s\n' % (' '.join(cmd), r.stdout))
        sys.exit(2)
    return r.stdout

def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def digest_contents(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths, key=os.path.basename):
        h.update(os.path.basename(p).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def lib_sources():
    return sorted(glob.glob(REPO + '/src/*.c'))

def build_lib(variant):
    v = VARIANT[variant]
    srcs = lib_sources()
    deps = srcs + glob.glob(REPO + '/src/*.h') + glob.glob(REPO + '/include/*.h') + [HERE + '/cfg/config.h', HERE + '/run.py']
    out = os.path.join(BUILD, 'lib-%s-%s.o' % (variant, digest(deps, v)))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    procs, objs = [], []
    for s in srcs:
        o = os.path.join(tmp, os.path.basename(s) + '.o')
        objs.append(o)
        cmd = v['cc'] + ['-fno-pie', '-w', '-DHAVE_CONFIG_H', '-I' + HERE + '/cfg', '-I' + REPO + '/include', '-I' + REPO + '/src', '-c', s, '-o', o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, p in procs:
        t = p.communicate()[0]
        if p.returncode:
            sys.stdout.write('build failed: %s\n%s\n' % (' '.join(cmd), t)); sys.exit(2)
    r = os.path.join(tmp, 'all.o')
    sh(['ld', '-r', '-o', r] + objs)
    if variant != 'asan':
        ren = ALLOC + (MEM if variant == 'hook' else [])
        oc = ['objcopy'] + ['--redefine-sym=%s=mc_%s' % (a, a) for a in ren]
        for sec in ('.data', '.data.rel.local', '.data.rel', '.tdata'):
            if sec == '.data': oc += ['--rename-section', '.data=mc_data']
        oc += ['--rename-section', '.bss=mc_bss']
        sh(oc + [r])
    os.rename(r, out)
    shutil.rmtree(tmp)
    return out

def build_check(cid):
    src, variant = CHECKS[cid]
    v = VARIANT[variant]
    lib = build_lib(variant)
    inc = [HERE + '/golden/coeffs.h', REPO + '/include/samplerate.h']
    deps = glob.glob(HERE + '/src/*.hpp') + [HERE + '/src/' + src] + inc
    obj = os.path.join(BUILD, '%s-%s.o' % (cid, digest_contents(deps, v)))
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        sh(v['cxx'] + ['-Wall', '-fno-pie', '-I' + HERE + '/src', '-I' + HERE + '/golden', '-I' + REPO + '/include', '-c', HERE + '/src/' + src, '-o', tmp])
        os.rename(tmp, obj)
    out = os.path.join(BUILD, '%s-%s' % (cid, digest_contents([obj, lib], v)))
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        sh(v['cxx'] + ['-no-pie', obj, lib, '-o', tmp, '-lm', '-lpthread'])
        os.rename(tmp, out)
    return out

def main():
    a = sys.argv[1:]
    os.chdir(HERE)
    if a and a[0] == '--build-all':
        for c in sorted(CHECKS):
            if os.path.exists(os.path.join(HERE, 'src', CHECKS[c][0])):
                print(c, os.path.basename(build_check(c)))
        return 0
    exe = build_check(a[0])
    os.makedirs('evidence', exist_ok=True)
    # address layout fixed, so that every run explores the same states
    cmd = ['setarch', '-R', exe] if subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0 else [exe]
    r = subprocess.run(cmd + a[1:])
    return r.returncode if r.returncode in (0, 1) else 2

sys.exit(main())
