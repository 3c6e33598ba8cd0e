#!/usr/bin/env python3
"""Generates and runs the ninja build of the simulator binary from /repo's current working tree.

Real code: every mstdlib .c file of the shipped build, plus the static OpenSSL, c-ares and SQLite libraries.
Their references to system calls, threads, clocks and the allocator are renamed (objcopy --redefine-syms) to the
simulator's __wrap_ functions.  Output: /verif/build (ignored by git)."""
import os, re, subprocess, sys, glob, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MSTDSIM_REPO', '/repo')
BUILD = os.environ.get('MSTDSIM_BUILD', os.path.join(VERIF, 'build'))
SYSLIB = '/usr/lib/x86_64-linux-gnu'
MODS = ['backtrace', 'base', 'thread', 'io', 'tls', 'net', 'log', 'sql', 'text', 'formats']

def sources():
    out = []
    listed = [l.strip() for l in open(f'{VERIF}/sim/config/sources.txt') if l.strip()]
    for s in listed:
        if os.path.exists(f'{REPO}/{s}'):
            out.append(s)
    # files added to a module since the list was made: built when the module's build description names them
    have = set(listed)
    for m in MODS:
        try:
            cm = open(f'{REPO}/{m}/CMakeLists.txt').read()
        except OSError:
            continue
        for root, dirs, files in os.walk(f'{REPO}/{m}'):
            for f in sorted(files):
                rel = os.path.relpath(os.path.join(root, f), REPO)
                if f.endswith('.c') and rel not in have and re.search(r'(?<![\w.])' + re.escape(os.path.relpath(rel, m)) + r'(?![\w.])', cm):
                    if re.search(r'(jni|win|mac|apple|ios|android|iocp|kqueue|_w32|mysql|odbc|postgres|hid_|ble_|mfi_)', rel):
                        continue
                    out.append(rel)
    return out

def wraps():
    names = set()
    for f in glob.glob(f'{VERIF}/sim/core/*.cc'):
        for m in re.finditer(r'\b__wrap_(\w+)\s*\(', open(f).read()):
            names.add(m.group(1))
    return sorted(names)

def write_if_changed(p, s):
    try:
        if open(p).read() == s:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(s)

def generate():
    os.makedirs(f'{BUILD}/obj', exist_ok=True)
    w = wraps()
    alloc = {'malloc', 'free', 'calloc', 'realloc'}
    write_if_changed(f'{BUILD}/redef_mst.txt', ''.join(f'{x} __wrap_{x}\n' for x in w))
    write_if_changed(f'{BUILD}/redef_third.txt', ''.join(f'{x} __wrap_{x}\n' for x in w if x not in alloc))
    S = '-fsanitize=address -fno-omit-frame-pointer -fno-pie -g1'
    COV = '-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores -femulated-tls'
    D = '-D_GNU_SOURCE -D_POSIX_C_SOURCE=199309L -D_XOPEN_SOURCE=600 -DNDEBUG -DMSTDLIB_SQL_STATIC_SQLITE -DMSTDSIM'
    n = []
    n.append('ninja_required_version = 1.5\nbuilddir = %s\n' % BUILD)
    n.append(f'rule cc\n command = clang -std=gnu11 -w -O1 {S} {COV} {D} $inc -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n')
    n.append(f'rule cxx\n command = clang++ -std=gnu++17 -Wall -Wno-unused-function -Wno-unknown-warning-option -O1 {S} $flags -D_GNU_SOURCE -I{VERIF}/sim/core -I{VERIF}/sim/config -I{REPO}/include -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n')
    n.append('rule ar\n command = rm -f $out $out.tmp && ar crsD $out.tmp @$out.rsp && objcopy --redefine-syms=$redef $out.tmp $out && rm -f $out.tmp\n rspfile = $out.rsp\n rspfile_content = $in\n')
    n.append('rule third\n command = objcopy --redefine-syms=$redef $in $out\n')
    n.append(f'rule link\n command = clang++ {S} -no-pie -fuse-ld=lld -o $out @$out.rsp -ldl -lm -lpthread -Wl,-z,norelro\n rspfile = $out.rsp\n rspfile_content = $objs -Wl,--start-group $libs -Wl,--end-group\n')
    objs = []
    for s in sources():
        mod = s.split('/')[0]
        if s.startswith('sql/oracle'):
            continue
        inc = f'-I{VERIF}/sim/config -I{REPO}/include -I{REPO}/{mod} -I{REPO} -I{REPO}/base'
        if s == 'net/m_net_http_simple.c':
            inc += ' -DNET_HTTP_VERSION=\\"1.24.0\\"'
        o = f'{BUILD}/obj/' + s.replace('/', '_') + '.o'
        n.append(f'build {o}: cc {REPO}/{s}\n inc = {inc}\n')
        objs.append(o)
    n.append(f'build {BUILD}/mst.a: ar {" ".join(objs)} | {BUILD}/redef_mst.txt\n redef = {BUILD}/redef_mst.txt\n')
    libs = [f'{BUILD}/mst.a']
    for l in ['libssl', 'libcrypto', 'libsqlite3', 'libcares_static']:
        n.append(f'build {BUILD}/{l}.a: third {SYSLIB}/{l}.a | {BUILD}/redef_third.txt\n redef = {BUILD}/redef_third.txt\n')
        libs.append(f'{BUILD}/{l}.a')
    so = []
    for f in sorted(glob.glob(f'{VERIF}/sim/core/*.cc') + glob.glob(f'{VERIF}/sim/worlds/*.cc')):
        o = f'{BUILD}/obj/sim_' + os.path.basename(f)[:-3] + '.o'
        n.append(f'build {o}: cxx {f}\n flags = {"-fno-sanitize=address" if 0 else ""}\n')
        so.append(o)
    n.append(f'build {BUILD}/mstdsim: link {" ".join(so)} {" ".join(libs)}\n objs = {" ".join(so)}\n libs = {" ".join(libs)}\n')
    n.append(f'default {BUILD}/mstdsim\n')
    write_if_changed(f'{BUILD}/build.ninja', '\n'.join(n))

def build(quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(f'{BUILD}/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        generate()
        r = subprocess.run(['ninja', '-C', BUILD, '-f', f'{BUILD}/build.ninja'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not quiet:
            sys.stderr.write(r.stdout[-8000:])
        return r.returncode

if __name__ == '__main__':
    sys.exit(build(False))
