"""Front end for the compiled kernels: C++ source -> LLVM IR -> parsed functions.

The four kernels and the Python wrapper are compiled (not linked into a
program, never executed) with clang, linked as IR and inlined into the four
entry points the extension module exports.
"""
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile
import ast

LLVM = ['/usr/lib/llvm-18/bin/', '']


class BuildError(Exception):
    pass


class Broken(Exception):
    """The analysis cannot be carried out (anchor gone, source unreadable)"""


def tool(name):
    for d in LLVM:
        p = d + name
        if d and os.path.exists(p):
            return p
    return shutil.which(name) or shutil.which(name + '-18') or name


def extension_sources(repo):
    """C++ files of the extension, read from the build script (syntax only)"""
    d = os.path.join(repo, 'src/lib/pytornado/aero')
    names = []
    try:
        tree = ast.parse(open(os.path.join(repo, 'setup.py')).read())
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) == 'Extension':
                for k in n.keywords:
                    if k.arg == 'sources':
                        for c in ast.walk(k.value):
                            if isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value.endswith(('.cpp', '.cc', '.c')):
                                names.append(os.path.basename(c.value))
    except (OSError, SyntaxError):
        pass
    if not names:
        names = sorted(os.path.basename(x) for x in glob.glob(d + '/*.cpp'))
    return [os.path.join(d, n) for n in names]


def includes():
    incs = []
    for pat in ('/opt/venv/lib/python3*/site-packages/numpy/core/include', '/opt/venv/lib/python3*/site-packages/numpy/_core/include',
                '/opt/veriftools/pyvenv/lib/python3*/site-packages/numpy/_core/include'):
        g = glob.glob(pat)
        if g:
            incs.append(g[0])
            break
    for p in glob.glob('/usr/include/python3*'):
        if os.path.exists(p + '/Python.h'):
            incs.append(p)
            break
    return incs


# reference counting stays visible as calls (the inline versions branch on the count)
SHIM = """
#include <Python.h>
extern "C" void verif_incref(PyObject*);
extern "C" void verif_decref(PyObject*);
#undef Py_INCREF
#undef Py_XINCREF
#undef Py_DECREF
#undef Py_XDECREF
#undef Py_CLEAR
#undef Py_NewRef
#undef Py_XNewRef
#undef Py_RETURN_NONE
#define Py_INCREF(op) verif_incref((PyObject*)(op))
#define Py_XINCREF(op) verif_incref((PyObject*)(op))
#define Py_DECREF(op) verif_decref((PyObject*)(op))
#define Py_XDECREF(op) verif_decref((PyObject*)(op))
#define Py_CLEAR(op) do { PyObject* verif_old = (PyObject*)(op); (op) = NULL; verif_decref(verif_old); } while (0)
static inline PyObject* verif_newref(PyObject* o) { verif_incref(o); return o; }
#define Py_NewRef(op) verif_newref((PyObject*)(op))
#define Py_XNewRef(op) verif_newref((PyObject*)(op))
#define Py_RETURN_NONE return Py_None
"""


def prepare_ir(path):
    """The loops of the marshalling code (tables of keys and fields) are unrolled"""
    t = open(path).read()
    if 'PyArg_ParseTuple' in t:
        t = re.sub(r'\bnoinline\b', '', t)
        open(path, 'w').write(t)
        passes = ('inline,function(sroa,simplifycfg,early-cse,loop-simplify,lcssa,loop(loop-rotate,indvars),loop-unroll<full-unroll-max=64;O3>,'
                  'sroa,early-cse,simplifycfg)')
        r = subprocess.run([tool('opt'), '-S', '-passes=' + passes, '-inline-threshold=1000000000', '-unroll-threshold=100000', path, '-o', path + '.u'],
                           capture_output=True, text=True)
        if r.returncode == 0:
            t = open(path + '.u').read()
        elif os.environ.get('VERIF_DEBUG'):
            print(r.stderr[-500:])
    open(path, 'w').write(t)


def compile_ir(repo, keep=None):
    srcs = extension_sources(repo)
    missing = [s for s in srcs if not os.path.exists(s)]
    if missing:
        raise Broken(f'C++ sources missing: {missing}')
    tmp = tempfile.mkdtemp(prefix='llir')
    try:
        shim = os.path.join(tmp, 'shim.h')
        open(shim, 'w').write(SHIM)
        lls = []
        procs = []
        for s in srcs:
            o = os.path.join(tmp, os.path.basename(s) + '.ll')
            cmd = [tool('clang++'), '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-w', '-fno-exceptions', '-S', '-emit-llvm',
                   *['-I' + i for i in includes()], '-include', shim, s, '-o', o]
            procs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            lls.append(o)
        for s, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                raise BuildError(f'{s} does not compile:\n{out[-2000:]}')
        for o in lls:
            prepare_ir(o)
        allf = os.path.join(tmp, 'all.ll')
        subprocess.run([tool('llvm-link'), '-S', *lls, '-o', allf], check=True, capture_output=True)
        t = open(allf).read()
        t = re.sub(r'\bnoinline\b', '', t)
        t = re.sub(r'\boptnone\b', '', t)
        open(allf, 'w').write(t)
        optf = os.path.join(tmp, 'opt.ll')
        passes = ('inline,function(sroa,simplifycfg),inline,function(sroa,early-cse,jump-threading,simplifycfg,'
                  'early-cse,jump-threading,simplifycfg,loop-simplify)')
        r = subprocess.run([tool('opt'), '-S', '-passes=' + passes, '-inline-threshold=1000000000', allf, '-o', optf],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken('opt failed: ' + r.stderr[-1000:])
        text = open(optf).read()
        if keep:
            open(keep, 'w').write(text)
        return text, srcs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ IR text
class Ins:
    __slots__ = ('res', 'op', 'txt', 'dbg', 'ty', 'x')

    def __repr__(self):
        return f'{self.res} = {self.txt}'


class Block:
    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.term = None
        self.succ = []
        self.pred = []


class Func:
    def __init__(self, name, params):
        self.name = name
        self.params = params
        self.blocks = {}
        self.order = []


def split_top(s, sep=','):
    out, depth, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                depth += 1
            elif ch in ')]}>':
                depth -= 1
            elif ch == sep and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Module:
    def __init__(self, text):
        self.text = text
        self.types = {}
        self.strings = {}
        self.globals = {}
        self.funcs = {}
        self.dbg = {}
        self.parse()

    def parse(self):
        cur = None
        blk = None
        for line in self.text.splitlines():
            if cur is None:
                m = re.match(r'(%[\w."$-]+) = type (.*)', line)
                if m:
                    self.types[m.group(1)] = m.group(2)
                    continue
                m = re.match(r'(@[\w."$-]+) = .*?(?:constant|global) (\[\d+ x i8\]) c"(.*)"', line)
                if m:
                    self.strings[m.group(1)] = unesc(m.group(3))
                    continue
                m = re.match(r'(@[\w."$-]+) = (.*)', line)
                if m:
                    self.globals[m.group(1)] = m.group(2)
                    continue
                m = re.match(r'(![0-9]+) = (.*)', line)
                if m:
                    self.dbg[m.group(1)] = m.group(2)
                    continue
                m = re.match(r'define .*?(@[\w.$"-]+)\((.*?)\)[^()]*\{', line)
                if m:
                    params = []
                    for p in split_top(m.group(2)):
                        mm = re.search(r'(%[\w.]+)$', p)
                        if mm:
                            params.append((mm.group(1), p.split()[0]))
                    cur = Func(m.group(1), params)
                    self.funcs[cur.name] = cur
                    blk = Block('%' + str(len(params)))
                    cur.blocks[blk.name] = blk
                    cur.order.append(blk.name)
                continue
            if line.startswith('}'):
                self.finish(cur)
                cur = None
                continue
            s = line.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^([\w.$-]+):', line)
            if m:
                blk = Block('%' + m.group(1))
                if not cur.blocks[cur.order[0]].ins and not cur.blocks[cur.order[0]].term and len(cur.order) == 1:
                    cur.blocks = {}
                    cur.order = []
                cur.blocks[blk.name] = blk
                cur.order.append(blk.name)
                continue
            if blk.term is not None and blk.term.op == 'switch' and blk.term.txt.endswith('['):
                blk.term.txt += ' ' + s
                if s.startswith(']'):
                    blk.term.txt = blk.term.txt.rstrip()
                else:
                    continue
                blk.term.txt = blk.term.txt + ' '
                continue
            if blk.term is not None and blk.term.op == 'switch' and '[' in blk.term.txt and ']' not in blk.term.txt:
                blk.term.txt += ' ' + s
                continue
            i = Ins()
            dm = re.search(r', !dbg (!\d+)', s)
            i.dbg = dm.group(1) if dm else None
            s = re.sub(r', ![\w.]+ ![\w.]+', '', s)
            s = re.sub(r',? #\d+$', '', s)
            m = re.match(r'(%[\w.]+) = (.*)', s)
            i.res, body = (m.group(1), m.group(2)) if m else (None, s)
            body = re.sub(r'^(tail |musttail |notail )', '', body)
            i.txt = body
            i.op = body.split()[0]
            i.x = None
            if i.op == 'phi':
                blk.phis.append(i)
            elif i.op in ('br', 'ret', 'switch', 'unreachable', 'invoke', 'resume'):
                blk.term = i
            else:
                if 'llvm.dbg.' in body:
                    continue
                blk.ins.append(i)

    def finish(self, f):
        for b in f.blocks.values():
            t = b.term
            if t is None:
                continue
            b.succ = re.findall(r'label (%[\w.$-]+)', t.txt)
            for s in b.succ:
                f.blocks[s].pred.append(b.name)

    def line(self, dbg):
        """file:line of a debug location"""
        d = self.dbg.get(dbg, '')
        m = re.search(r'line: (\d+)', d)
        ln = m.group(1) if m else '?'
        sc = re.search(r'scope: (!\d+)', d)
        fn = fl = None
        seen = 0
        s = sc.group(1) if sc else None
        while s and seen < 10:
            dd = self.dbg.get(s, '')
            if 'DISubprogram' in dd:
                mm = re.search(r'name: "([^"]*)"', dd)
                fn = mm.group(1) if mm else None
            mf = re.search(r'file: (!\d+)', dd)
            if mf and not fl:
                ff = self.dbg.get(mf.group(1), '')
                mm = re.search(r'filename: "([^"]*)"', ff)
                fl = os.path.basename(mm.group(1)) if mm else None
            if fn:
                break
            ms = re.search(r'scope: (!\d+)', dd)
            s = ms.group(1) if ms else None
            seen += 1
        return f'{fl or "?"}:{ln}' + (f' ({fn})' if fn else '')

    # ---- layouts
    def sizeof(self, ty):
        return self.layout(ty)[0]

    def layout(self, ty):
        ty = ty.strip()
        if ty.endswith('*') or ty == 'ptr':
            return 8, 8
        m = re.fullmatch(r'i(\d+)', ty)
        if m:
            b = max(1, int(m.group(1)) // 8)
            return b, b
        if ty == 'double':
            return 8, 8
        if ty == 'float':
            return 4, 4
        m = re.fullmatch(r'[\[<](\d+) x (.*)[\]>]', ty)
        if m:
            s, a = self.layout(m.group(2))
            return int(m.group(1)) * s, a
        if ty.startswith('%'):
            body = self.types.get(ty)
            if body is None:
                raise KeyError(ty)
            return self.layout(body)
        if ty.startswith('{'):
            off, al = 0, 1
            for f in split_top(ty[1:-1]):
                s, a = self.layout(f)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise KeyError(ty)

    def field(self, ty, k):
        """(offset, type) of the k-th field"""
        body = ty
        while body.startswith('%'):
            body = self.types[body]
        off = 0
        fs = split_top(body.strip()[1:-1])
        for i, f in enumerate(fs):
            s, a = self.layout(f)
            off = (off + a - 1) // a * a
            if i == k:
                return off, f
            off += s
        raise KeyError((ty, k))


def unesc(s):
    s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s.rstrip('\0')
