"""Source loader.  Parses modules of the package from the current tree.  Cython modules are first
normalised to Python syntax, mechanically and line by line:

  dropped   : cimport lines, `cdef extern` blocks (the names become externals), ctypedef lines,
              `nogil`/`noexcept`/`except ...` clauses, `cdef` field declarations of a class
              (kept as class-level annotations)
  rewritten : `cdef class C(B):` -> `class C(B):`
              `cdef T f(T x):`   -> `def f(x: 'T') -> 'T':`
              `cdef T x, y`      -> `x: 'T'` / `y: 'T'`          (a store to x converts to T)
              `cdef T x = e, y`  -> `x: 'T' = e; y: 'T'`
              `<T>e`             -> `__cast_T__ ** e`            (same precedence)
"""
import ast, os, re

CT = r'(?:unsigned\s+)?(?:long\s+double|long\s+long|double_t|double|float|int|long|short|char|bint|bool_t|object|Py_ssize_t|size_t|tuple|list|dict|str)'


class Unsupported(Exception):
    pass


def _args(s):
    out = []
    depth = 0
    cur = ''
    for ch in s:
        if ch in '([{':
            depth += 1
        if ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    res = []
    for a in out:
        a = a.strip()
        m = re.match(r'^(%s)\s+(\w+)\s*(=.*)?$' % CT, a)
        if m:
            res.append("%s: %r %s" % (m.group(2), re.sub(r'\s+', '_', m.group(1)), m.group(3) or ''))
        else:
            res.append(a)
    return ', '.join(res)


def _declarators(s):
    """'x, y = f(a, b)' -> [('x', ''), ('y', 'f(a, b)')], or None"""
    parts, cur, depth, quote = [], '', 0, ''
    for ch in s:
        if quote:
            quote = '' if ch == quote else quote
        elif ch in '"\'':
            quote = ch
        elif ch == '#':
            break
        elif ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0 and not quote:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    parts.append(cur)
    out = []
    for p in parts:
        m = re.match(r'^\s*(\w+)\s*(?:=(?!=)\s*(.+?)\s*)?$', p)
        if not m:
            return None
        out.append((m.group(1), m.group(2) or ''))
    return out


def normalise(text):
    """Cython text -> Python text with the same line numbers."""
    text = text.lstrip('\ufeff')
    lines = text.split('\n')
    out = []
    drop_indent = None
    for line in lines:
        stripped = line.strip()
        indent = len(line) - len(line.lstrip())
        if drop_indent is not None:
            if stripped == '' or indent > drop_indent:
                out.append('')
                continue
            drop_indent = None
        if stripped.startswith('#') or stripped == '':
            out.append(line)
            continue
        pad = line[:indent]
        if re.match(r'^(from\s+\S+\s+cimport\b|cimport\b)', stripped) or stripped.startswith('ctypedef '):
            out.append('')
            continue
        if re.match(r'^cdef\s+extern\b', stripped):
            drop_indent = indent
            out.append('')
            continue
        m = re.match(r'^cdef\s+class\s+(.*)$', stripped)
        if m:
            out.append(pad + 'class ' + m.group(1))
            continue
        m = re.match(r'^(?:cdef|cpdef)\s+(?:inline\s+)?(?:(%s|void)\s+)?(\w+)\s*\((.*)\)\s*(?:nogil|noexcept|except\s*[-?*+\w]*|\s)*:\s*(#.*)?$' % CT, stripped)
        if m:
            ret = m.group(1)
            out.append(pad + 'def %s(%s)%s:' % (m.group(2), _args(m.group(3)),
                       " -> %r" % re.sub(r'\s+', '_', ret) if ret else ''))
            continue
        m = re.match(r'^cdef\s+(%s)\s+(\w.*)$' % CT, stripped)
        decl = _declarators(m.group(2)) if m else None
        if decl:
            t = re.sub(r'\s+', '_', m.group(1))
            out.append(pad + _casts('; '.join('%s: %r%s' % (n, t, ' = ' + e if e else '') for n, e in decl)))
            continue
        if re.match(r'^(cdef|cpdef)\b', stripped):
            raise Unsupported('Cython declaration not understood: ' + stripped)
        m = re.match(r'^def\s+(\w+)\s*\((.*)\)\s*:\s*$', stripped)
        if m and re.search(r'\b%s\s+\w' % CT, m.group(2)):
            out.append(pad + 'def %s(%s):' % (m.group(1), _args(m.group(2))))
            continue
        out.append(_casts(line))
    return '\n'.join(out)


def _casts(line):
    return re.sub(r'<\s*(%s)\s*>' % CT, lambda m: '__cast_%s__ ** ' % re.sub(r'\s+', '_', m.group(1)), line)


class Module:
    def __init__(self, root, relpath):
        self.relpath = relpath
        self.path = os.path.join(root, relpath)
        with open(self.path, encoding='utf-8-sig') as f:
            text = f.read()
        self.source = text
        if relpath.endswith('.pyx'):
            text = normalise(text)
        try:
            self.tree = ast.parse(text)
        except SyntaxError as e:
            raise Unsupported('%s does not normalise to Python: %s' % (relpath, e))
        self.name = os.path.splitext(relpath)[0].replace('/', '.')
        self.pkg = self.name.rsplit('.', 1)[0] if not relpath.endswith('__init__.py') else self.name.rsplit('.', 1)[0]
