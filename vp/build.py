"""Builds IR (for the solver) and native programs (for replay) from /repo's current working tree."""
import os, subprocess, glob, hashlib, concurrent.futures as cf, re

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = next((c for c in ('/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++-18', '/usr/bin/clang++') if os.path.exists(c)), 'clang++')
OPT = next((c for c in ('/usr/bin/opt-18', '/usr/lib/llvm-18/bin/opt', '/usr/bin/opt') if os.path.exists(c)), 'opt')
LINK = next((c for c in ('/usr/bin/llvm-link-18', '/usr/lib/llvm-18/bin/llvm-link', '/usr/bin/llvm-link') if os.path.exists(c)), 'llvm-link')
COMMON = ['-std=c++11', '-include', 'cassert', '-include', 'cstdint', '-w']
CFLAGS = COMMON + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-math-errno', '-ffp-contract=off',
          '-fno-builtin', '-fno-threadsafe-statics', '-fno-rtti']
PASSES = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,dce)'


def incs():
    return ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + HERE + '/harness', '-I' + HERE + '/harness/stub_inc']


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def sources():
    return sorted(glob.glob(REPO + '/src/*.cpp'))


class BuildError(Exception):
    pass


def ir_text(harness, included, tmp, defs=(), extra_inc=()):
    """harness: path of the harness .cpp; included: basenames of repo sources it #includes itself"""
    srcs = [s for s in sources() if os.path.basename(s) not in included]
    jobs = []
    inc = list(extra_inc) + incs()

    def one(src, out, ds=()):
        rc, o = run([CLANG] + CFLAGS + inc + ['-D' + d for d in ds] + ['-emit-llvm', '-c', src, '-o', out])
        return src, out, rc, o
    outs = []
    hb = os.path.join(tmp, 'harness_%s.bc' % hashlib.md5((harness + str(defs)).encode()).hexdigest()[:8])
    with cf.ThreadPoolExecutor(8) as ex:
        fh = ex.submit(one, harness, hb, defs)
        fs = []
        for s in srcs:
            b = os.path.join(tmp, os.path.basename(s) + '.bc')
            if os.path.exists(b):
                outs.append(b)
            else:
                fs.append(ex.submit(one, s, b))
        src, out, rc, o = fh.result()
        if rc:
            raise BuildError('harness does not compile:\n' + o[-3000:])
        for f in fs:
            src, out, rc, o = f.result()
            if rc == 0:
                outs.append(out)
            elif os.path.basename(src) != 'sz_compress_cp_preserve_3d.cpp':
                raise BuildError('%s does not compile:\n%s' % (src, o[-2000:]))
    linked = hb + '.linked.bc'
    rc, o = run([LINK, hb, '--only-needed'] + sorted(outs) + ['-o', linked])
    if rc:
        # duplicate symbols etc.: libs one after another
        raise BuildError('llvm-link: ' + o[-2000:])
    ll = hb + '.ll'
    rc, o = run([OPT, '-S', '-passes=' + PASSES, linked, '-o', ll])
    if rc:
        raise BuildError('opt: ' + o[-2000:])
    return open(ll).read()


def native(harness, included, tmp, asan=False, defs=(), extra_inc=()):
    out = os.path.join(tmp, 'native_%s_%d' % (hashlib.md5((harness + str(defs)).encode()).hexdigest()[:8], asan))
    if os.path.exists(out):
        return out
    srcs = [s for s in sources() if os.path.basename(s) not in included and os.path.basename(s) != 'sz_compress_cp_preserve_3d.cpp']
    fl = COMMON + ['-g'] + (['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'] if asan else ['-O2'])
    inc = list(extra_inc) + incs()
    objs = []

    def one(src, o, ds=()):
        rc, t = run(['g++'] + fl + inc + ['-D' + d for d in ds] + ['-c', src, '-o', o])
        if rc:
            raise BuildError('native build of %s failed:\n%s' % (src, t[-2000:]))
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(one, harness, out + '.h.o', defs), ex.submit(one, HERE + '/harness/vp_native.cpp', out + '.n.o')]
        for s in srcs:
            o = os.path.join(tmp, os.path.basename(s) + '.%d.o' % asan)
            if os.path.exists(o):
                objs.append(o)
            else:
                fs.append(ex.submit(one, s, o))
        objs += [f.result() for f in fs]
    lib = out + '.a'
    core = [o for o in objs if o.endswith(('.h.o', '.n.o'))]
    rest = [o for o in objs if o not in core]
    run(['ar', 'rcs', lib] + rest)
    z = zstd_flags()
    rc, t = run(['g++'] + (['-fsanitize=address'] if asan else []) + core + [lib] + z + ['-o', out])
    if rc:
        raise BuildError('native link failed:\n' + t[-2000:])
    return out


def zstd_flags():
    for l in glob.glob('/usr/lib/x86_64-linux-gnu/libzstd.so*') + glob.glob('/opt/vp/**/libzstd.*', recursive=True) + glob.glob('/usr/local/lib/libzstd.*'):
        if l.endswith('.so') or l.endswith('.a') or '.so.' in l:
            return [l, '-lm', '-lpthread']
    return ['-lzstd']
