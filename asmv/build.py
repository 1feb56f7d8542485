"""Build the assembler from /repo's current working tree, outside /repo.

Sources are copied to build/<hash of sources>/, the parser and scanner are
generated there, and one executable is made per variant:

  plain  gcc -O2                      the assembler users get
  san    clang ASan + UBSan           same program, silent corruption made visible
  msan   clang MSan             reads of memory never written made visible
  fuzz   clang libFuzzer + ASan/UBSan in-process target (fuzz/target.c)
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ASMV_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SUPPORT = os.path.join(VERIF, 'support')
FUZZ = os.path.join(VERIF, 'fuzz')

GNULIB = '''asnprintf basename-lgpl bitrotate c-ctype c-strcasecmp c-strncasecmp
dirname-lgpl exitfail getprogname gl_avltree_list gl_list gl_xlist hash printf-args
printf-parse stripslash unistd vasnprintf xalloc-die xasprintf xmalloc xsize
xvasprintf'''.split()
GENERATED = {'grammar.c', 'grammar.h', 'lex.c'}

# Undefined behaviour that is documented or harmless here (64-bit wrap-around of
# user arithmetic, shifts by user counts, out of range float casts) is not a
# memory error, and is not what the sanitized build is for.
# integer division really traps, so it is checked
SAN = ['-fsanitize=address,undefined',
       '-fno-sanitize=shift-base,signed-integer-overflow,float-cast-overflow,'
       'float-divide-by-zero,function',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
VARIANTS = {
    'plain': ('gcc', ['-g', '-O2'], []),
    'san': ('clang', ['-g', '-O1'] + SAN, []),
    'msan': ('clang', ['-g', '-O1', '-fsanitize=memory', '-fno-omit-frame-pointer'], []),
    'fuzz': ('clang', ['-g', '-O1', '-fsanitize=fuzzer-no-link', '-fno-sanitize-address-globals-dead-stripping', '-Dmain=asm6809_main', '-Dexit=fuzz_exit'] + SAN,
             ['-fsanitize=fuzzer']),
}


class BuildError(Exception):
    pass


def _sources():
    out = []
    for d in ('src', 'dt101', 'gnulib'):
        for f in sorted(glob.glob(os.path.join(REPO, d, '*'))):
            b = os.path.basename(f)
            if not b.endswith(('.c', '.h', '.y', '.l')) or not os.path.isfile(f):
                continue
            if d == 'src' and b in GENERATED:
                continue
            if d == 'gnulib' and os.path.exists(os.path.join(SUPPORT, 'gnulib', b)):
                continue
            out.append((d, b, f))
    return out


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout))


def tree_hash():
    h = hashlib.sha256()
    for d, b, f in _sources():
        with open(f, 'rb') as fh:
            h.update(('%s/%s\0' % (d, b)).encode() + hashlib.sha256(fh.read()).digest())
    for root, _, files in sorted(os.walk(SUPPORT)) + sorted(os.walk(FUZZ)):
        for b in sorted(files):
            with open(os.path.join(root, b), 'rb') as fh:
                h.update(b.encode() + hashlib.sha256(fh.read()).digest())
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def build(variant='plain'):
    """Return path of the executable for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = tree_hash()
        top = os.path.join(BUILD, h)
        src = os.path.join(top, 'tree')
        exe = os.path.join(top, 'asm6809-' + variant)
        if os.path.exists(exe):
            os.utime(top)
            return exe
        if not os.path.exists(os.path.join(src, '.ready')):
            _prune(keep=6)
            shutil.rmtree(src, ignore_errors=True)
            for d, b, f in _sources():
                os.makedirs(os.path.join(src, d), exist_ok=True)
                shutil.copyfile(f, os.path.join(src, d, b))
            shutil.copytree(SUPPORT, src, dirs_exist_ok=True)
            _run(['bison', '-y', '-d', '-o', 'grammar.c', 'grammar.y'], os.path.join(src, 'src'))
            _run(['flex', '-o', 'lex.c', 'lex.l'], os.path.join(src, 'src'))
            open(os.path.join(src, '.ready'), 'w').close()
        cc, cflags, ldflags = VARIANTS[variant]
        obj = os.path.join(top, 'obj-' + variant)
        os.makedirs(obj, exist_ok=True)
        common = [cc] + cflags + ['-w', '-DHAVE_CONFIG_H', '-I.', '-Idt101', '-Ignulib', '-Isrc']
        files = [('src/' + os.path.basename(f)) for f in sorted(glob.glob(src + '/src/*.c'))]
        files += ['dt101/' + os.path.basename(f) for f in sorted(glob.glob(src + '/dt101/*.c'))]
        files += ['gnulib/%s.c' % g for g in GNULIB]
        if variant == 'fuzz':
            shutil.copyfile(os.path.join(VERIF, 'fuzz', 'target.c'), os.path.join(src, 'fuzz_target.c'))
            files.append('fuzz_target.c')

        def cc1(f):
            own = f == 'fuzz_target.c'
            _run([c for c in common if not own or not c.startswith(('-Dexit', '-Dmain', '-fsan', '-fno-san'))]
                 + ['-c', f, '-o', os.path.join(obj, f.replace('/', '_')[:-2] + '.o')], src)

        with ThreadPoolExecutor(8) as ex:
            list(ex.map(cc1, files))
        if variant == 'fuzz':
            # writable data of the assembler in sections the target can restore
            for o in sorted(glob.glob(obj + '/*.o')):
                if not o.endswith('/fuzz_target.o'):
                    _run(['objcopy', '--rename-section', '.data=asmdata',
                          '--rename-section', '.bss=asmbss,alloc,load,data,contents', o], src)
        objs = sorted(glob.glob(obj + '/*.o'))
        san = [f for f in cflags if 'sanitize' in f and 'fuzzer' not in f]
        _run([cc] + san + ldflags + objs + ['-o', exe + '.tmp', '-lm'], src)
        os.rename(exe + '.tmp', exe)
        shutil.rmtree(obj, ignore_errors=True)
        return exe


def _prune(keep):
    dirs = [d for d in glob.glob(BUILD + '/*') if os.path.isdir(d) and len(os.path.basename(d)) == 20]
    dirs.sort(key=os.path.getmtime, reverse=True)
    for d in dirs[keep:]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain']:
        print(build(v))
