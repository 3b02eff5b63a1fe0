#!/usr/bin/env python3
"""usage: clk.py OUTDIR FILE.cl...
Compiles OpenCL C kernels to native code for the simulated device: one shared
object per source text (named by its hash) and a list of the kernels' signatures.
A source that is not valid OpenCL C gets HASH.err instead."""
import os, re, subprocess, sys
def fnv(b):
    h = 0xcbf29ce484222325
    for c in b: h = ((h ^ c) * 0x100000001b3) & 0xffffffffffffffff
    return '%016x' % h
CL = ['clang', '-x', 'cl', '-cl-std=CL1.2', '-target', 'x86_64-pc-linux-gnu', '-Xclang', '-finclude-default-header']
SZ = {'char': 1, 'uchar': 1, 'bool': 1, 'short': 2, 'ushort': 2, 'int': 4, 'uint': 4, 'float': 4, 'long': 8, 'ulong': 8, 'double': 8, 'size_t': 8, 'unsigned': 4}
def build(src, out):
    src = src.rstrip(b'\0')
    base = os.path.join(out, fnv(src))
    if os.path.exists(base + '.so') or os.path.exists(base + '.err'): return
    tmp = base + '.%d' % os.getpid()
    with open(tmp + '.cl', 'wb') as f: f.write(src)
    def bad(msg):
        with open(tmp + '.err', 'w') as f: f.write(msg)
        os.rename(tmp + '.err', base + '.err'); os.unlink(tmp + '.cl')
    pp = subprocess.run(['clang', '-x', 'cl', '-cl-std=CL1.2', '-target', 'x86_64-pc-linux-gnu', '-E', '-P', tmp + '.cl'], capture_output=True, text=True)
    if pp.returncode: return bad(pp.stderr)
    sigs, wrap = [], '\n'
    for m in re.finditer(r'\b(?:__kernel|kernel)\s+(?:__attribute__\s*\(\(.*?\)\)\s*)*void\s+(?:__attribute__\s*\(\(.*?\)\)\s*)*(\w+)\s*\(([^()]*)\)\s*\{', pp.stdout, re.S):
        name, sig, args = m.group(1), '', []
        for i, a in enumerate([a.strip() for a in m.group(2).split(',') if a.strip() not in ('', 'void')]):
            t = re.sub(r'\b(const|restrict|volatile|__const|__restrict|__private)\b', ' ', a)
            if '*' in a:
                space = 'local' if re.search(r'\b(__)?local\b', a) else 'constant' if re.search(r'\b(__)?constant\b', a) else 'global'
                ty = re.sub(r'\b(__)?(global|local|constant)\b', ' ', t.split('*')[0]).split()
                sig += 'l' if space == 'local' else 'p'
                args.append('(__%s %s *)a[%d]' % (space, ' '.join(ty), i))
            else:
                w = t.split()[:-1]
                ty = ' '.join(w)
                s = max([SZ.get(x, 0) for x in w] + [0])
                if not s: return bad('cannot pass argument "%s"' % a)
                sig += str(s)
                args.append('*(__global %s *)(a + %d)' % (ty, i))
        sigs.append(name + ' ' + sig)
        wrap += 'void simk_%s(__global ulong *a) { %s(%s); }\n' % (name, name, ', '.join(args))
    with open(tmp + '.cl', 'ab') as f: f.write(wrap.encode())
    r = subprocess.run(CL + ['-fPIC', '-O1', '-g1', '-ffp-contract=off', '-fsanitize=thread', '-Wno-everything', '-c', tmp + '.cl', '-o', tmp + '.o'], capture_output=True, text=True)
    if r.returncode: return bad(r.stderr)
    r = subprocess.run(['gcc', '-shared', '-o', tmp + '.so', tmp + '.o'], capture_output=True, text=True)
    if r.returncode: return bad(r.stderr)
    with open(tmp + '.txt', 'w') as f: f.write('\n'.join(sigs) + '\n')
    os.rename(tmp + '.txt', base + '.txt'); os.rename(tmp + '.so', base + '.so')
    os.unlink(tmp + '.o'); os.unlink(tmp + '.cl')
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
for p in sys.argv[2:]: build(open(p, 'rb').read(), out)
