"""C functions of the repository, translated mechanically to the interpreted language on every run.

The preprocessed source (gcc -E, system headers replaced by the declarations in cstubs) is parsed by pycparser;
every function becomes a function of the interpreter (pyexec), statement by statement.  A pointer variable p is
a pair: the array it points into (p) and the offset in elements (p__o).  Arrays have the logical shape given by
the contract; an access at a flat offset is resolved into one index per dimension, and each index being inside
its dimension is an obligation.  Kept out: machine arithmetic (integers and reals are mathematical), aliasing of
distinct arrays (the contract's arrays are distinct), freed memory is only checked on straight-line code."""
import ast
import itertools
import keyword
import os
import subprocess
import types

from . import term as T
from . import solver as S
from . import arr as A
from .term import Poly, P, B, const, ZERO, Unsupported, mk_sum, fresh_index, beq, blt, band
from .arr import Arr, conc

HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, 'cstubs')
SIZES = {'double': 8, 'int': 4, 'float': 4, 'char': 1, 'long': 8}
_cache = {}


def parse(path):
    import pycparser
    key = path
    if key not in _cache:
        src = subprocess.run(['gcc', '-E', '-nostdinc', '-I', STUBS, '-I', os.path.dirname(path), path], capture_output=True, text=True)
        if src.returncode:
            raise Unsupported('preprocessing %s: %s' % (path, src.stderr[:300]))
        _cache[key] = tree = pycparser.CParser().parse(src.stdout, path)
        for y in walk(tree):
            for at in ('name', 'declname'):
                v = getattr(y, at, None)
                if isinstance(v, str) and keyword.iskeyword(v):
                    setattr(y, at, v + '_')
    return _cache[key]


class Translator:
    """one function -> python source lines with the C line of each"""

    def __init__(self, node, fname):
        self.node = node
        self.fname = fname
        self.out = []
        self.ind = 0
        self.types = {}        # name -> ('int'|'double'|'ptr:double'|'arr:double'|...)
        self.cells = set()
        self.count = 0
        self.line = node.coord.line

    # -- output
    def emit(self, s):
        self.out.append(('    ' * self.ind + s, self.line))

    def uniq(self, base):
        self.count += 1
        return '%s__%d' % (base, self.count)

    # -- types
    def decl_type(self, t):
        n = type(t).__name__
        if n == 'TypeDecl':
            if type(t.type).__name__ == 'IdentifierType':
                nm = ' '.join(t.type.names)
                if 'double' in nm or 'float' in nm:
                    return 'double'
                if nm in ('int', 'long', 'char', '_Bool', 'unsigned int', 'size_t', 'npy_intp', 'short', 'unsigned', 'long int', 'Py_ssize_t', 'long long', 'unsigned char'):
                    return 'int'
                return nm
            return 'struct'
        if n in ('PtrDecl', 'ArrayDecl'):
            inner = self.decl_type(t.type)
            return 'ptr:' + inner
        if n == 'FuncDecl':
            return 'func'
        raise Unsupported('declaration %s' % n)

    def function(self):
        f = self.node.decl
        ps = []
        for p in (f.type.args.params if f.type.args else []):
            if type(p).__name__ == 'EllipsisParam' or p.name is None:
                continue
            self.types[p.name] = self.decl_type(p.type)
            ps.append(p.name)
        self.find_cells(self.node.body)
        self.emit('def %s(%s):' % (f.name, ', '.join(ps)))
        self.ind += 1
        for p in ps:
            if self.is_ptr(p):
                self.emit('%s, %s__o = C_arg(%s)' % (p, p, p))
            elif p in self.cells:
                raise Unsupported('address of a parameter')
        self.block(self.node.body)
        self.emit('return None')
        self.ind -= 1
        return self.out

    def is_ptr(self, nm):
        return self.types.get(nm, '') in ('ptr:double', 'ptr:int', 'ptr:ptr:double')

    def find_cells(self, node):
        """scalars whose address is taken"""
        for c in walk(node):
            if type(c).__name__ == 'UnaryOp' and c.op == '&' and type(c.expr).__name__ == 'ID':
                self.cells.add(c.expr.name)

    # -- statements
    def block(self, node):
        n0 = len(self.out)
        items = node.block_items if type(node).__name__ == 'Compound' else [node]
        pragmas = []
        for st in items or []:
            if type(st).__name__ == 'Pragma':
                pragmas.append(st.string)
                continue
            self.stmt(st, pragmas)
            pragmas = []
        if len(self.out) == n0:
            self.emit('pass')

    def stmt(self, st, pragmas=()):
        n = type(st).__name__
        if getattr(st, 'coord', None):
            self.line = st.coord.line
        if pragmas:
            return self.parallel(st, pragmas)
        getattr(self, 's_' + n, self.unsupported)(st)

    def unsupported(self, st):
        raise Unsupported('C statement %s at %s' % (type(st).__name__, st.coord))

    def s_Compound(self, st):
        self.block(st)

    def s_EmptyStatement(self, st):
        pass

    def s_DeclList(self, st):
        for d in st.decls:
            self.stmt(d)

    def s_Decl(self, d):
        t = self.decl_type(d.type)
        old = self.types.get(d.name)
        if old is not None and old != t:
            raise Unsupported('%s declared twice' % d.name)
        self.types[d.name] = t
        if type(d.type).__name__ == 'ArrayDecl':
            dims = []
            x = d.type
            while type(x).__name__ == 'ArrayDecl':
                if x.dim is None:
                    raise Unsupported('array of unknown size')
                dims.append(self.ev(x.dim))
                x = x.type
            self.emit('%s, %s__o = C_local(%r, %r, %s), 0' % (d.name, d.name, d.name, t.split(':')[-1], ' * '.join('(%s)' % y for y in dims)))
            if d.init is not None:
                if type(d.init).__name__ != 'InitList':
                    raise Unsupported('initialiser')
                vals = [self.ev(e) for e in d.init.exprs]
                self.emit('C_fill(%s, %s, [%s])' % (d.name, ' * '.join('(%s)' % y for y in dims), ', '.join(vals)))
            return
        if d.name in self.cells:
            self.emit('%s = C_cell(%r)' % (d.name, d.name))
        if d.init is not None:
            self.assign_name(d.name, d.init)
        elif d.name not in self.cells and not self.is_ptr(d.name):
            pass

    def assign_name(self, nm, e):
        if nm in self.cells:
            self.emit('C_setcell(%s, %s)' % (nm, self.ev(e)))
        elif self.is_ptr(nm):
            self.emit('%s, %s__o = C_arg(%s)' % (nm, nm, self.pointer(e)))
        else:
            v = self.ev(e)
            if self.types.get(nm) == 'int' and self.typ(e) == 'double':
                v = 'C_trunc(%s)' % v
            self.emit('%s = %s' % (nm, v))

    def s_Assignment(self, st):
        lv, op = st.lvalue, st.op
        n = type(lv).__name__
        if type(st.rvalue).__name__ == 'Assignment':
            # a = b = e: the inner one first; its value is what the inner place then holds
            import pycparser.c_ast as ca
            self.s_Assignment(st.rvalue)
            return self.s_Assignment(ca.Assignment(op, lv, st.rvalue.lvalue, st.coord))
        if n == 'ID':
            if op == '=':
                return self.assign_name(lv.name, st.rvalue)
            o = op[:-1]
            if self.is_ptr(lv.name):
                if o not in '+-':
                    raise Unsupported('pointer %s' % op)
                return self.emit('%s__o = %s__o %s (%s)' % (lv.name, lv.name, o, self.ev(st.rvalue)))
            return self.emit('%s = %s' % (lv.name, self.binop(o, lv, st.rvalue)))
        base, off = self.place(lv)
        if op == '=':
            self.emit('C_st(%s, %s, %s)' % (base, off, self.ev(st.rvalue)))
        else:
            self.emit('C_up(%s, %s, %r, %s)' % (base, off, op[:-1], self.ev(st.rvalue)))

    def s_UnaryOp(self, st):
        if st.op in ('p++', '++', 'p--', '--'):
            s = '+' if '+' in st.op else '-'
            x = st.expr
            if type(x).__name__ == 'ID':
                nm = x.name + '__o' if self.is_ptr(x.name) else x.name
                return self.emit('%s = %s %s 1' % (nm, nm, s))
            base, off = self.place(x)
            return self.emit('C_up(%s, %s, %r, 1)' % (base, off, s))
        self.emit(self.ev(st))

    def s_FuncCall(self, st):
        self.emit(self.ev(st))

    def s_Cast(self, st):
        self.emit(self.ev(st))

    def s_If(self, st):
        self.emit('if %s:' % self.cond(st.cond))
        self.ind += 1
        self.block(st.iftrue)
        self.ind -= 1
        if st.iffalse is not None:
            self.emit('else:')
            self.ind += 1
            self.block(st.iffalse)
            self.ind -= 1

    def s_Return(self, st):
        self.emit('return %s' % (self.ev(st.expr) if st.expr is not None else 'None'))

    def s_Break(self, st):
        self.emit('break')

    def s_Continue(self, st):
        self.emit('continue')

    def s_While(self, st):
        """while (i < n) { ...; i++; } is a counted loop"""
        items = list(st.stmt.block_items or []) if type(st.stmt).__name__ == 'Compound' else [st.stmt]
        if items and type(st.cond).__name__ == 'BinaryOp' and type(st.cond.left).__name__ == 'ID' and self.types.get(st.cond.left.name) == 'int':
            import pycparser.c_ast as ca
            v = st.cond.left.name
            step = self.step(items[-1], v)
            if step is not None and not any(assigns(x, v) for x in items[:-1]) and not any(type(y).__name__ in ('Continue',) for x in items for y in walk(x)):
                return self.counted(v, None, st.cond, step, ca.Compound(items[:-1], st.coord), st)
        self.emit('while %s:' % self.cond(st.cond))
        self.ind += 1
        self.block(st.stmt)
        self.ind -= 1

    def step(self, e, v):
        n = type(e).__name__
        if n == 'UnaryOp' and e.op in ('p++', '++', 'p--', '--') and type(e.expr).__name__ == 'ID' and e.expr.name == v:
            return 1 if '+' in e.op else -1
        if n == 'Assignment' and type(e.lvalue).__name__ == 'ID' and e.lvalue.name == v:
            r = e.rvalue
            if e.op in ('+=', '-=') and type(r).__name__ == 'Constant':
                return int(r.value) * (1 if e.op == '+=' else -1)
            if e.op == '=' and type(r).__name__ == 'BinaryOp' and r.op in '+-' and type(r.left).__name__ == 'ID' and r.left.name == v and type(r.right).__name__ == 'Constant':
                return int(r.right.value) * (1 if r.op == '+' else -1)
        return None

    def s_For(self, st):
        init, cond, nxt = st.init, st.cond, st.next
        if type(init).__name__ == 'DeclList' and len(init.decls) == 1:
            v, e0 = init.decls[0].name, init.decls[0].init
            self.types[v] = self.decl_type(init.decls[0].type)
        elif type(init).__name__ == 'Assignment' and init.op == '=' and type(init.lvalue).__name__ == 'ID':
            v, e0 = init.lvalue.name, init.rvalue
        else:
            return self.unsupported(st)
        extra = []
        if type(nxt).__name__ == 'ExprList':
            own = [x for x in nxt.exprs if self.step(x, v) is not None]
            if len(own) != 1:
                return self.unsupported(st)
            extra = [x for x in nxt.exprs if x is not own[0]]
            nxt = own[0]
        step = self.step(nxt, v)
        if step is None or assigns(st.stmt, v) or any(assigns(x, v) for x in extra):
            return self.unsupported(st)
        body = st.stmt
        if extra:
            import pycparser.c_ast as ca
            if any(type(y).__name__ == 'Continue' for y in walk(body)):
                return self.unsupported(st)
            body = ca.Compound([body] + extra, st.coord)
        if type(cond).__name__ == 'BinaryOp' and cond.op == '&&' and step == 1 and type(cond.left).__name__ == 'BinaryOp' \
                and (type(body).__name__ == 'EmptyStatement' or type(body).__name__ == 'Compound' and not body.block_items):
            # for (...; v < n && !c; v++) {}  looks for the first v with c
            import pycparser.c_ast as ca
            body = ca.If(ca.UnaryOp('!', cond.right, st.coord), ca.Break(st.coord), None, st.coord)
            cond = cond.left
        self.counted(v, e0, cond, step, body, st)

    def counted(self, v, e0, cond, step, body, st):
        if type(cond).__name__ != 'BinaryOp' or type(cond.left).__name__ != 'ID' or cond.left.name != v:
            return self.unsupported(st)
        lo = self.ev(e0) if e0 is not None else v
        hi = self.ev(cond.right)
        for y in walk(cond.right):
            if type(y).__name__ == 'ID' and assigns(body, y.name):
                return self.unsupported(st)
        if cond.op == '<=':
            hi = '(%s) + 1' % hi
        elif cond.op == '>=':
            hi = '(%s) - 1' % hi
        elif not (cond.op == '<' and step > 0 or cond.op == '>' and step < 0 or cond.op == '!=' and abs(step) == 1):
            return self.unsupported(st)
        if (step > 0) != (cond.op in ('<', '<=') or cond.op == '!=' and step > 0):
            return self.unsupported(st)
        # search loops: for (...) { if (c) { x = e; break; } }
        s = self.search(v, lo, hi, step, body)
        if s:
            return
        lo_, hi_ = self.uniq('lo'), self.uniq('hi')
        self.emit('%s, %s = C_range(%s, %s)' % (lo_, hi_, lo, hi))
        ind = self.inductions(body)
        if ind and step == 1:
            saved = {}
            for nm, inc in ind:
                saved[nm] = self.uniq(nm)
                self.emit('%s = %s' % (saved[nm], nm))
        elif ind:
            ind = []
        self.emit('for %s in range(%s, %s%s):' % (v, lo_, hi_, ', %d' % step if step != 1 else ''))
        self.ind += 1
        for nm, inc in ind:
            self.emit('%s = %s + C_sum(lambda %s: %s, %s, %s)' % (nm, saved[nm], v, inc, lo_, v))
        self.block(body)
        for nm, inc in ind:
            self.emit('C_same(%r, %s, %s + C_sum(lambda %s: %s, %s, %s + 1))' % (nm, nm, saved[nm], v, inc, lo_, v))
        self.ind -= 1
        for nm, inc in ind:
            self.emit('%s = %s + C_sum(lambda %s: %s, %s, %s)' % (nm, saved[nm], v, inc, lo_, hi_))
        self.emit('%s = C_after(%s, %s, %d)' % (v, lo_, hi_, step))

    def search(self, v, lo, hi, step, body):
        items = list(body.block_items or []) if type(body).__name__ == 'Compound' else [body]
        if len(items) != 1 or type(items[0]).__name__ != 'If' or items[0].iffalse is not None or step != 1:
            return False
        then = items[0].iftrue
        inner = list(then.block_items or []) if type(then).__name__ == 'Compound' else [then]
        if not inner or type(inner[-1]).__name__ not in ('Break', 'Return'):
            return False
        f, at = self.uniq('found'), v
        self.emit('%s, %s = C_search(lambda %s: %s, %s, %s)' % (f, at, v, self.cond(items[0].cond), lo, hi))
        self.emit('if %s:' % f)
        self.ind += 1
        for st in inner[:-1]:
            self.stmt(st)
        if type(inner[-1]).__name__ == 'Return':
            self.stmt(inner[-1])
        self.emit('pass')
        self.ind -= 1
        return True

    def inductions(self, body):
        """integers and pointers moved by the same known amount in every iteration: [(python name, increment)]"""
        names = {}
        for y in walk(body):
            nm = None
            if type(y).__name__ == 'UnaryOp' and y.op in ('p++', '++', 'p--', '--') and type(y.expr).__name__ == 'ID':
                nm = y.expr.name
            if type(y).__name__ == 'Assignment' and type(y.lvalue).__name__ == 'ID' and y.op in ('+=', '-='):
                nm = y.lvalue.name
            if nm and (self.is_ptr(nm) or self.types.get(nm) == 'int'):
                names[nm] = True
        loopvars = {self.loopvar(y) for y in walk(body) if type(y).__name__ == 'For'}
        out = []
        for nm in names:
            if nm in loopvars:
                continue
            try:
                inc = self.increment(body, nm)
            except ValueError:
                continue
            if inc is not None:
                out.append((nm + '__o' if self.is_ptr(nm) else nm, inc))
        return out

    def loopvar(self, st):
        i = st.init
        if type(i).__name__ == 'DeclList':
            return i.decls[0].name
        if type(i).__name__ == 'Assignment' and type(i.lvalue).__name__ == 'ID':
            return i.lvalue.name

    def increment(self, st, nm):
        """expression for the total change of nm by the statement; ValueError if it is not of that kind"""
        n = type(st).__name__
        if not moves(st, nm):
            return None
        if n == 'Compound':
            parts = [self.increment(x, nm) for x in st.block_items or []]
            parts = [p for p in parts if p]
            return ' + '.join('(%s)' % p for p in parts) or None
        if n == 'UnaryOp' and st.op in ('p++', '++', 'p--', '--') and type(st.expr).__name__ == 'ID':
            return '1' if '+' in st.op else '-1'
        if n == 'Assignment' and type(st.lvalue).__name__ == 'ID' and st.op in ('+=', '-='):
            ids = {y.name for y in walk(st.rvalue) if type(y).__name__ == 'ID'}
            if nm in ids:
                raise ValueError
            return ('%s' if st.op == '+=' else '-(%s)') % self.ev(st.rvalue)
        if n == 'For':
            v = self.loopvar(st)
            if v is None or self.step(st.next, v) != 1 or st.cond.op not in ('<', '<='):
                raise ValueError
            e0 = st.init.decls[0].init if type(st.init).__name__ == 'DeclList' else st.init.rvalue
            inc = self.increment(st.stmt, nm)
            if any(type(y).__name__ in ('Break', 'Continue') for y in walk(st.stmt)):
                raise ValueError
            hi = self.ev(st.cond.right) + (' + 1' if st.cond.op == '<=' else '')
            return 'C_sum(lambda %s: %s, %s, %s)' % (v, inc, self.ev(e0), hi)
        raise ValueError

    def parallel(self, st, pragmas):
        """omp parallel: the region is run by one thread on its own copies of what it declares; every variable declared
        outside must not be assigned inside (but for the loop counter of an omp for, which is private)"""
        p = ' '.join(pragmas)
        words = p.split()
        words = [w for w in words if not w.startswith('schedule(')]
        if words[:1] != ['omp'] or any('(' in w for w in words):
            raise Unsupported('pragma %s' % p)
        if 'parallel' in words:
            self.outside = set(self.types)
            self.emit('C_parallel()')
            shared = [a for a in assigned(st) if a in self.types]
            counters = {self.loopvar(y) for y in omp_loops(st)}
            for a in sorted(set(shared) - counters):
                self.emit('C_shared(%r)' % a)
            if words[1:] == ['parallel', 'for']:
                return self.omp_for(st)
            self.stmt(st)
        elif words[1:] == ['for']:
            self.omp_for(st)
        else:
            raise Unsupported('pragma %s' % p)

    def omp_for(self, st):
        if type(st).__name__ != 'For':
            return self.unsupported(st)
        v = self.loopvar(st)
        if self.step(st.next, v) != 1 or st.cond.op != '<' or type(st.cond.left).__name__ != 'ID' or st.cond.left.name != v or assigns(st.stmt, v):
            return self.unsupported(st)
        e0 = st.init.decls[0].init if type(st.init).__name__ == 'DeclList' else st.init.rvalue
        if type(st.init).__name__ == 'DeclList':
            self.types[v] = 'int'
        self.emit('%s = C_iteration(%s, %s)' % (v, self.ev(e0), self.ev(st.cond.right)))
        self.stmt(st.stmt)
        self.emit('C_iterated()')

    # -- expressions
    def typ(self, e):
        n = type(e).__name__
        if n == 'Constant':
            return 'double' if e.type in ('double', 'float') else e.type if e.type == 'string' else 'int'
        if n == 'ID':
            return self.types.get(e.name, 'int')
        if n == 'ArrayRef':
            t = self.typ(e.name)
            return t.split(':', 1)[1] if ':' in t else t
        if n == 'Cast':
            return self.decl_type(e.to_type.type)
        if n == 'BinaryOp':
            if e.op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
                return 'int'
            a, b = self.typ(e.left), self.typ(e.right)
            if a.startswith('ptr'):
                return a
            return 'double' if 'double' in (a, b) else 'int'
        if n == 'UnaryOp':
            if e.op == '*':
                t = self.typ(e.expr)
                return t.split(':', 1)[1] if ':' in t else t
            if e.op == 'sizeof':
                return 'int'
            return self.typ(e.expr)
        if n == 'TernaryOp':
            return 'double' if 'double' in (self.typ(e.iftrue), self.typ(e.iffalse)) else self.typ(e.iftrue)
        if n == 'FuncCall':
            nm = e.name.name if type(e.name).__name__ == 'ID' else None
            return 'int' if nm in ('is_gamma', 'abs', 'omp_get_thread_num', 'strcmp') else RET.get(nm, 'double')
        return 'int'

    def cond(self, e):
        n = type(e).__name__
        if n == 'BinaryOp' and e.op in ('&&', '||'):
            return '(%s %s %s)' % (self.cond(e.left), {'&&': 'and', '||': 'or'}[e.op], self.cond(e.right))
        if n == 'UnaryOp' and e.op == '!':
            return '(not %s)' % self.cond(e.expr)
        if n == 'BinaryOp' and e.op in ('<', '>', '<=', '>=', '==', '!='):
            return '(%s %s %s)' % (self.ev(e.left), e.op, self.ev(e.right))
        return '(%s)' % self.ev(e)

    def binop(self, op, a, b):
        x, y = self.ev(a), self.ev(b)
        if op == '/' and 'double' not in (self.typ(a), self.typ(b)):
            return 'C_idiv(%s, %s)' % (x, y)
        if op == '%':
            return 'C_imod(%s, %s)' % (x, y)
        if op in '+-*/':
            if op == '/':
                return 'C_div(%s, %s)' % (x, y)
            return '(%s %s %s)' % (x, op, y)
        raise Unsupported('C operator %s' % op)

    def ev(self, e):
        n = type(e).__name__
        if n == 'Constant':
            if e.type == 'string':
                return e.value
            if e.type == 'char':
                return e.value
            v = e.value.rstrip('fFlLuU') if not e.value.lower().startswith('0x') else str(int(e.value.rstrip('uUlL'), 16))
            return 'C_num(%r)' % v if self.typ(e) == 'double' else str(int(v, 0) if not (v.startswith('0') and v.isdigit() and len(v) > 1) else int(v, 8))
        if n == 'ID':
            if e.name in self.cells:
                return 'C_getcell(%s)' % e.name
            if self.is_ptr(e.name):
                return 'C_ptr(%s, %s__o)' % (e.name, e.name)
            return e.name
        if n == 'ArrayRef' or n == 'UnaryOp' and e.op == '*':
            if n == 'ArrayRef' and type(e.name).__name__ == 'FuncCall':
                return 'C_item(%s, %s)' % (self.ev(e.name), self.ev(e.subscript))
            if n == 'UnaryOp' and not self.typ(e.expr).startswith('ptr:'):
                return self.ev(e.expr)          # (*function pointer)
            return 'C_ld(%s, %s)' % self.place(e)
        if n == 'BinaryOp':
            if e.op in ('&&', '||', '<', '>', '<=', '>=', '==', '!='):
                return self.cond(e)
            if self.typ(e).startswith('ptr:'):
                return self.pointer(e)
            return self.binop(e.op, e.left, e.right)
        if n == 'UnaryOp':
            if e.op == '-':
                return '(-(%s))' % self.ev(e.expr)
            if e.op == '+':
                return self.ev(e.expr)
            if e.op == '!':
                return self.cond(e)
            if e.op == 'sizeof':
                x = e.expr
                t = self.decl_type(x.type) if type(x).__name__ == 'Typename' else self.typ(x)
                if t not in SIZES:
                    raise Unsupported('sizeof %s' % t)
                return str(SIZES[t])
            if e.op == '&':
                x = e.expr
                if type(x).__name__ == 'ID':
                    if x.name in self.cells:
                        return x.name
                    return x.name
                return 'C_ptr(%s, %s)' % self.place(x)
            raise Unsupported('C operator %s' % e.op)
        if n == 'TernaryOp':
            return '(%s if %s else %s)' % (self.ev(e.iftrue), self.cond(e.cond), self.ev(e.iffalse))
        if n == 'Cast':
            t = self.decl_type(e.to_type.type)
            if t.startswith('ptr:') or t not in ('int', 'double'):
                return self.ev(e.expr)
            if t == 'int' and self.typ(e.expr) == 'double':
                return 'C_trunc(%s)' % self.ev(e.expr)
            return self.ev(e.expr)
        if n == 'FuncCall':
            f = e.name
            if type(f).__name__ == 'UnaryOp' and f.op == '*':
                f = f.expr
            nm = f.name if type(f).__name__ == 'ID' else None
            if nm is None:
                raise Unsupported('call of an expression')
            args = [self.ev(a) for a in (e.args.exprs if e.args else [])]
            return '%s(%s)' % (BUILTIN.get(nm, nm), ', '.join(args))
        raise Unsupported('C expression %s at %s' % (n, e.coord))

    def pointer(self, e):
        """expression of pointer type"""
        n = type(e).__name__
        if n == 'ID' and self.is_ptr(e.name):
            return 'C_ptr(%s, %s__o)' % (e.name, e.name)
        if n == 'BinaryOp' and e.op in '+-':
            if self.typ(e.left).startswith('ptr:'):
                return 'C_move(%s, %s(%s))' % (self.pointer(e.left), '' if e.op == '+' else '-', self.ev(e.right))
            return 'C_move(%s, %s)' % (self.pointer(e.right), self.ev(e.left))
        if n == 'Cast':
            return self.pointer(e.expr)
        return self.ev(e)

    def place(self, e):
        """(base, offset) of an element"""
        n = type(e).__name__
        if n == 'UnaryOp' and e.op == '*':
            return self.base_off(e.expr, None)
        if n == 'ArrayRef':
            return self.base_off(e.name, e.subscript)
        raise Unsupported('C lvalue %s' % n)

    def base_off(self, e, sub):
        k = self.ev(sub) if sub is not None else None
        if type(e).__name__ == 'ID' and self.is_ptr(e.name):
            return e.name, e.name + '__o' if k is None else '%s__o + (%s)' % (e.name, k)
        p = self.pointer(e)
        return 'C_base(%s)' % p, 'C_off(%s)%s' % (p, '' if k is None else ' + (%s)' % k)


RET = {}
BUILTIN = dict(cos='C_m_cos', sin='C_m_sin', exp='C_m_exp', sqrt='C_m_sqrt', fabs='C_m_fabs', round='C_m_round', copysign='C_m_copysign', pow='C_m_pow', floor='C_m_floor',
               rint='C_m_round', memset='C_memset', memcpy='C_memcpy', malloc='C_malloc', calloc='C_calloc', free='C_free', printf='C_printf')


def walk(node):
    yield node
    for _, c in node.children():
        yield from walk(c)


def assigned(node):
    """names of variables assigned in the statement and not declared in it"""
    own = {y.name for y in walk(node) if type(y).__name__ == 'Decl'}
    out = []
    for y in walk(node):
        if type(y).__name__ == 'Assignment' and type(y.lvalue).__name__ == 'ID':
            out.append(y.lvalue.name)
        if type(y).__name__ == 'UnaryOp' and y.op in ('p++', '++', 'p--', '--', '&') and type(y.expr).__name__ == 'ID':
            out.append(y.expr.name)
    return [x for x in out if x not in own]


def assigns(node, nm):
    for y in walk(node):
        if type(y).__name__ == 'Assignment' and type(y.lvalue).__name__ == 'ID' and y.lvalue.name == nm:
            return True
        if type(y).__name__ == 'UnaryOp' and y.op in ('p++', '++', 'p--', '--', '&') and type(y.expr).__name__ == 'ID' and y.expr.name == nm:
            return True
    return False


moves = assigns


def omp_loops(node):
    """loops under an omp for pragma"""
    out = []
    for y in walk(node):
        if type(y).__name__ == 'Compound':
            prev = None
            for st in y.block_items or []:
                if prev is not None and type(st).__name__ == 'For':
                    out.append(st)
                prev = st if type(st).__name__ == 'Pragma' else None
    return out


# ---------------------------------------------------------------------------------------------- run time
class CArr:
    """an array seen from C: logical shape, row-major"""

    def __init__(self, name, arr, what='given'):
        self.name = name
        self.arr = arr
        self.what = what
        self.freed = False

    @property
    def dims(self):
        return [P(s) for s in self.arr.vshape]

    def strides(self):
        s, out = const(1), []
        for d in reversed(self.dims):
            out.append(s)
            s = s * d
        return list(reversed(out))

    def total(self):
        r = const(1)
        for d in self.dims:
            r = r * d
        return r


class CMixed(CArr):
    """an array to be written: one buffer for each setting of the indices of known size"""

    def __init__(self, name, shape, fn, kind='f', what='given'):
        self.name, self.what, self.freed, self.kind = name, what, False, kind
        self.shape = [P(s) for s in shape]
        self.known = [k for k, d in enumerate(self.shape) if conc(d) is not None]
        self.parts = {}
        for key in itertools.product(*[range(conc(self.shape[k])) for k in self.known]):
            self.parts[key] = A.mk([d for k, d in enumerate(self.shape) if k not in self.known], lambda *i, key=key: fn(*self.join(key, i)), kind)

    def join(self, key, rest):
        key, rest = iter(key), iter(rest)
        return [const(next(key)) if k in self.known else next(rest) for k in range(len(self.shape))]

    @property
    def dims(self):
        return self.shape

    def parts_of(self, idx):
        """[(part, indices in it, condition)]"""
        cs = [conc(idx[k]) for k in self.known]
        rest = [P(x) for k, x in enumerate(idx) if k not in self.known]
        if all(c is not None for c in cs):
            return [(self.parts[tuple(cs)], rest, None)]
        out = []
        for key, p in self.parts.items():
            if all(c is None or c == x for c, x in zip(cs, key)):
                out.append((p, rest, band(*[beq(idx[k], x) for k, x, c in zip(self.known, key, cs) if c is None])))
        return out

    def get(self, *idx):
        r = self.parts_of(idx)
        if r[0][2] is None:
            return r[0][0].at(*r[0][1])
        return sum((c.poly() * p.at(*i) for p, i, c in r), ZERO)

    @property
    def arr(self):
        return CMixedView(self)


class CMixedView:
    """the part with given leading indices and, in the next dimension, from `start` on"""

    def __init__(self, m, idx=(), shape=None, start=None):
        self.m, self.idx, self.start = m, [P(i) for i in idx], start
        self.vshape = tuple(m.shape[len(self.idx):] if shape is None else [P(s) for s in shape])
        self.kind = m.kind

    def full(self, i):
        i = [P(x) for x in i]
        if self.start is not None:
            i[0] = i[0] + self.start
        return self.idx + i

    def at(self, *i):
        return self.m.get(*self.full(i))

    def lift(self):
        return A.mk(self.vshape, self.at, self.kind)

    copy = lift

    def store(self, fn):
        """the whole view = fn(indices)"""
        m = self.m
        vals = []
        for key, p in m.parts.items():
            b = p.buf
            syms = [A.index_of(nm, s) for nm, s in zip(b.names, b.shape)]
            i = m.join(key, syms)
            g = T.TRUE
            for k, x in enumerate(self.idx):
                g = band(g, beq(i[k], x))
            j = i[len(self.idx):]
            if self.start is not None:
                j[0] = j[0] - self.start
                g = band(g, T.bge(j[0], 0), blt(j[0], self.vshape[0]))
            if g.op == 'const' and not g.a:
                continue
            vals.append((b, T.ite(g, P(fn(*j)), b.body)))
        for b, v in vals:
            b.set(v)

    def where(self, idx):
        return self.m.parts_of(self.full(idx))


class CLocal(CArr):
    """a small array: one scalar per element"""

    run = None

    def __init__(self, name, n, kind, fresh):
        self.name, self.what, self.freed, self.kind = name, 'local', False, kind
        self.n = n
        self.elems = [fresh('%s%d' % (name, k), (), kind) for k in range(n)]
        for x in self.elems:
            x.buf.tag = 'scratch'

    @property
    def dims(self):
        return [const(self.n)]

    @property
    def arr(self):
        e = [x.at() for x in self.elems]
        return A.mk((self.n,), lambda i: e[conc(i)] if conc(i) is not None else sum((beq(i, k).poly() * v for k, v in enumerate(e)), ZERO), self.kind)

    def get(self, i):
        return self.arr.at(i) if conc(i) is None else self.elems[conc(i)].at()

    def put(self, i, v):
        c = conc(i)
        if c is not None:
            if self.run is not None and self.run.naming:
                v = self.run.name(v)
            return self.elems[c].store(lambda: v)
        for k, x in enumerate(self.elems):
            old = x.at()
            x.store(lambda: T.ite(beq(i, k), v, old))


def view(arr, idx, start, shape):
    """the part of a whole array with the given leading indices (and first index of the next dimension)"""
    if isinstance(arr, CMixedView):
        return CMixedView(arr.m, list(arr.idx) + list(idx), shape, start)
    assert arr.whole()
    dims = [('fix', P(i)) for i in idx]
    for k in range(len(shape)):
        dims.append(('ax', P(start) if k == 0 and start is not None else ZERO, 1, k))
    return Arr(arr.buf, tuple(dims), tuple(shape))


def make(name, shape, fn=None, what='given', kind='f'):
    """an array to be written (arbitrary content unless given)"""
    shape = [P(s) for s in shape]
    if fn is None:
        d = T.ArrDecl('undef_%d_%s' % (next(A._ids), name.split()[0]), len(shape), 'real' if kind == 'f' else 'int')
        fn = d
    k = 1
    for s in shape:
        if conc(s) is not None:
            k *= conc(s)
    if 1 < k <= 300:
        return CMixed(name, shape, fn, kind, what)
    return CArr(name, A.mk(shape, fn, kind), what)


class CPtr:
    def __init__(self, base, off):
        self.base, self.off = base, P(off)


class Cell:
    def __init__(self, name):
        self.name = name
        self.v = None


def quotient(p, s):
    """terms of p divisible by the stride s -> (quotient, rest)"""
    c = conc(s)
    if c is not None:
        if c == 1:
            return p, ZERO
        q, r = ZERO, ZERO
        for m, k in p.t.items():
            t = Poly({m: k})
            if not m:
                fl = int(k // c) if k.denominator == 1 else 0
                q = q + const(fl)
                r = r + t - const(fl * c)
            elif (k / c).denominator == 1:
                q = q + t.scale(T.Fr(1, c))
            else:
                r = r + t
        return q, r
    if len(s.t) == 1:
        q, r = ZERO, ZERO
        (ms, ks), = s.t.items()
        for m, k in p.t.items():
            t = Poly({m: k})
            d = dict(m)
            if m == ms:
                f = (k / ks).__floor__()
                q = q + const(f)
                r = r + t - s.scale(f)
            elif all(d.get(a, 0) >= e for a, e in ms) and (k / ks).denominator == 1:
                q = q + t / s
            else:
                r = r + t
        return q, r
    # stride with several terms: linear in some symbol that the stride does not mention
    q, r = ZERO, p
    syms = {a for m in p.t for a, e in m if a not in {b for n in s.t for b, _ in n}}
    for a in syms:
        co = ZERO
        for m, k in r.t.items():
            d = dict(m)
            if d.get(a) == 1:
                d.pop(a)
                co = co + Poly({tuple((x, e) for x, e in m if x is not a): k})
        for m, k in s.t.items():
            if m in co.t:
                f = co.t[m] / k
                if f.denominator == 1 and co == s.scale(f):
                    q = q + Poly.atom(a).scale(f)
                    r = r - Poly.atom(a).scale(f) * s
                break
    # whole multiples of the stride itself
    for m, k in s.t.items():
        if m in r.t:
            f = r.t[m] / k
            if f.denominator == 1 and (r - s.scale(f)).isconst():
                q, r = q + const(f), r - s.scale(f)
        break
    return q, r


class CRun:
    """one set of translated files under a contract"""

    def __init__(self, it, ck, sizes=()):
        self.it, self.ck = it, ck
        self.sizes = [(P(t), s) for t, s in sizes]      # total size of allocated memory -> logical shape
        self.seen = {}
        self.mod = None
        self.env = {}
        self.allocs = []
        self.extern = {}
        self.search_terms = []
        self.naming = False
        self.parallel = False
        self.on_iteration = None
        self.names = {}
        self.memos = {}
        A.REAL[0] = False
        for n in dir(self):
            if n.startswith('C_'):
                self.env[n] = getattr(self, n)

    def load(self, *files):
        from .pyexec import ModEnv, REPO
        for f in files:
            path = os.path.join(REPO, 'c', f + '.c')
            tree = parse(path)
            self.it.used.add(path)
            src, lines = [], []
            for x in tree.ext:
                if type(x).__name__ == 'FuncDef':
                    t = type(x.decl.type.type)
                    RET[x.decl.name] = Translator(x, f).decl_type(x.decl.type.type)
            for x in tree.ext:
                if type(x).__name__ == 'FuncDef' and not x.decl.name.startswith('PyInit'):
                    try:
                        o = Translator(x, f).function()
                    except Unsupported as e:
                        o = [('def %s(*a):' % x.decl.name, x.coord.line), ('    C_unsupported(%r)' % str(e), x.coord.line)]
                    src += [a for a, _ in o]
                    lines += [b for _, b in o]
            if os.environ.get('VERIF_DEBUG_C'):
                print('\n'.join(src))
            m = ast.parse('\n'.join(src))
            for nd in ast.walk(m):
                if hasattr(nd, 'lineno'):
                    nd.lineno = lines[nd.lineno - 1]
                    nd.end_lineno = nd.lineno
            if self.mod is None:
                self.mod = types.ModuleType('c')
                self.mod.__file__ = path
                self.mod.__dict__['__package__'] = ''
                self.mod.__dict__.update(self.env)
                self.mod.__dict__.update(self.extern)
                self.menv = ModEnv(self.mod)
            self.it.block(m.body, self.menv)
        return self.mod

    def name(self, v):
        """long values of local variables get names (functions of the loop indices); `unname` puts the values back"""
        if len(v.t) < 2 or any(a.kind == 'sel' and a.name.startswith(('pre', 'undef')) for a in T.atoms_of(v)):
            return v
        ix = sorted({a.name for a in T.atoms_of(v) if a.kind == 'sym' and a.name in T.RANGES and a.name in v.free})
        nm = 'let%d' % next(A._ids)
        self.names[nm] = (ix, v)
        return T.ArrDecl(nm, len(ix), 'real')(*[Poly.atom(T.Sym(x, 'int', nonneg=True)) for x in ix])

    def unname(self, p):
        from .loops import subst_sel, mentions
        tab = {k: (lambda *a, d=d: T.subst(d[1], dict(zip(d[0], a)))) for k, d in self.names.items()}
        k = 0
        memo = self.memos
        while mentions(p, tab):
            p = subst_sel(p, tab, memo.setdefault((k, len(self.names)), {}))
            k += 1
        return p

    # -- obligations
    def line(self):
        try:
            return '%s line %d' % (self.it.cur[0], self.it.cur[1])
        except Exception:
            return ''

    def inside(self, what, i, d):
        """0 <= i < d under the facts of the path"""
        i, d = P(i), P(d)
        key = (what, i, d, tuple(S.CTX.facts))
        if key in self.seen:
            return
        self.seen[key] = True
        ci, cd = conc(i), conc(d)
        if ci is not None and cd is not None:
            if 0 <= ci < cd:
                self.ck.ok(what)
            elif not S.infeasible(2000):
                self.ck.fail(what, 'index %s of %s' % (ci, cd))
            return
        self.ck.holds(what, band(T.bge(i, 0), blt(i, d)))

    def split(self, base, off, inner=0, what=''):
        """offset -> indices of all but the last `inner` dimensions"""
        if not isinstance(base, CArr):
            raise Unsupported('access through %r' % (base,))
        rest = P(off)
        ds, ss = base.dims, base.strides()
        idx = []
        nd = len(ds) - inner
        for k in range(nd):
            last_sym = all(conc(d) is not None for d in ds[k + 1:]) and conc(ds[k]) is None
            if last_sym:
                # the remaining dimensions are of known size: all symbols belong here if they are whole multiples
                c = conc(ss[k])
                cst = P(rest.t.get((), 0)) if () in rest.t else ZERO
                sy = rest - cst
                q, r = quotient(sy, ss[k])
                if r.t and all((x / c).denominator != 1 for x in r.t.values()) and not any(conc(d) is None for d in ds[k + 1:]):
                    whole = sy.scale(T.Fr(1, c))
                    if self.intvalued(whole):
                        q, r = whole, ZERO
                q2, r2 = quotient(cst, ss[k])
                q, r = q + q2, r + r2
            else:
                q, r = quotient(rest, ss[k])
            idx.append(q)
            rest = r
        if rest.t:
            raise Unsupported('offset %s in %s%s' % (str(P(off))[:200], base.name, [str(d) for d in ds]))
        for k in range(nd):
            self.inside('%s%s: index %d of %s inside' % (what, self.line(), k, base.name), idx[k], ds[k])
        return idx

    def intvalued(self, p):
        """polynomial with rational coefficients taking whole values at whole arguments"""
        import itertools
        at = sorted({a for m in p.t for a, e in m}, key=str)
        if not all(a.kind == 'sym' for a in at) or len(at) > 4:
            return False
        deg = max([sum(e for a, e in m) for m in p.t] + [0])
        if any(e < 0 for m in p.t for a, e in m):
            return False
        for v in itertools.product(range(deg + 1), repeat=len(at)):
            d = dict(zip(at, v))
            s = 0
            for m, k in p.t.items():
                x = k
                for a, e in m:
                    x = x * d[a] ** e
                s += x
            if T.Fr(s).denominator != 1:
                return False
        return True

    # -- memory
    def C_arg(self, p):
        if isinstance(p, CPtr):
            return p.base, p.off
        if isinstance(p, CArr):
            return p, ZERO
        if p is None or (isinstance(p, (int, Poly)) and P(p) == 0):
            return None, ZERO
        return p, ZERO

    def C_ptr(self, base, off):
        return CPtr(base, off)

    def C_move(self, p, k):
        if isinstance(p, CArr):
            p = CPtr(p, ZERO)
        return CPtr(p.base, p.off + P(k))

    def C_base(self, p):
        return p.base

    def C_off(self, p):
        return p.off

    def C_item(self, v, k):
        return v[conc(k)] if isinstance(v, (list, tuple)) else v[k]

    def alive(self, base):
        if getattr(base, 'freed', False):
            self.ck.fail('%s: %s used after free' % (self.line(), base.name), '')

    def C_ld(self, base, off):
        if base is None:
            self.ck.fail('%s: null pointer' % self.line(), '')
            raise Unsupported('null pointer')
        self.alive(base)
        idx = self.split(base, off)
        return base.get(*idx) if isinstance(base, (CLocal, CMixed)) else base.arr.at(*idx)

    def C_st(self, base, off, v):
        if base is None:
            self.ck.fail('%s: null pointer' % self.line(), '')
            raise Unsupported('null pointer')
        self.alive(base)
        idx = self.split(base, off)
        if getattr(base, 'readonly', False):
            self.ck.fail('%s: %s is only to be read' % (self.line(), base.name), '')
        v = v.poly() if isinstance(v, B) else P(v)
        if isinstance(base, CLocal):
            return base.put(idx[0], v)
        if isinstance(base, CMixed):
            for p, i, c in base.parts_of(idx):
                self.put(p, i, v if c is None else T.ite(c, v, p.at(*i)))
            return
        self.put(base.arr, idx, v)

    def put(self, arr, idx, v):
        """element = v; an increment of the element itself is added to the whole under the guard"""
        old = arr.at(*idx)
        d = v - old
        own = {a for a in T.atoms_of(old) if a.kind == 'sel' and a.name.startswith('pre')}
        if own and not own & set(T.atoms_of(d)):
            b = arr.buf
            g = T.TRUE
            for nm, s, i in zip(b.names, b.shape, idx):
                g = band(g, beq(A.index_of(nm, s), i))
            b.set(b.body + g.poly() * d)
            return
        view(arr, idx, None, ()).store(lambda: v)

    def C_up(self, base, off, op, v):
        x = self.C_ld(base, off)
        v = P(v)
        if op in '*/' and not isinstance(base, CLocal):
            idx = self.split(base, off)
            f = v if op == '*' else const(1) / v
            for p, j, c in base.parts_of(idx) if isinstance(base, CMixed) else [(base.arr, idx, None)]:
                b = p.buf
                g = T.TRUE if c is None else c
                for nm, s, i in zip(b.names, b.shape, j):
                    g = band(g, beq(A.index_of(nm, s), i))
                b.set(b.body + g.poly() * (f - 1) * b.body)
            return
        self.C_st(base, off, x + v if op == '+' else x - v if op == '-' else x * v if op == '*' else x / v)

    def fresh(self, name, shape, kind='f'):
        nm = 'undef_%s_%d' % (name, next(A._ids))
        d = T.ArrDecl(nm, len(shape), {'f': 'real', 'i': 'int'}[kind])
        return A.mk(shape, lambda *i: d(*i), kind)

    def C_local(self, name, t, n):
        if conc(n) is not None and conc(n) <= 64:
            r = CLocal(name, conc(n), 'i' if t == 'int' else 'f', self.fresh)
            r.run = self
            return r
        return CArr(name, self.fresh(name, (P(n),), 'i' if t == 'int' else 'f'), 'local')

    def C_fill(self, base, n, vals):
        for k in range(conc(n)):
            self.C_st(base, const(k), P(vals[k]) if k < len(vals) else ZERO)

    def shape_of(self, total):
        for t, s in self.sizes:
            if t == total:
                return s
        if len(total.t) == 1:
            (m, k), = total.t.items()
            if all(e == 1 for a, e in m) and k.denominator == 1:
                return tuple(Poly.atom(a) for a, e in m) + ((const(k),) if k != 1 else ())
        return (total,)

    def alloc(self, nbytes, zero, name='memory'):
        n, kind = P(nbytes).scale(T.Fr(1, 8)), 'f'
        if not all(k.denominator == 1 for k in n.t.values()):
            n, kind = P(nbytes).scale(T.Fr(1, 4)), 'i'
        if not all(k.denominator == 1 for k in n.t.values()):
            raise Unsupported('allocation of %s bytes' % nbytes)
        sh = self.shape_of(n)
        c = make('memory of %s elements' % str(n), sh, (lambda *i: ZERO) if zero else None, 'allocated', kind)
        c.private = self.parallel
        self.allocs.append(c)
        self.ck.holds('%s: size of the memory allocated is positive' % self.line(), T.bge(n, 1))
        return c

    def C_malloc(self, n):
        return self.alloc(n, False)

    def C_calloc(self, n, s):
        return self.alloc(P(n) * P(s), True)

    def C_free(self, p):
        b, o = self.C_arg(p)
        if not isinstance(b, CArr):
            return None
        self.ck.true('%s: what is freed was allocated' % self.line(), b.what == 'allocated' and o == 0 and not b.freed)
        b.freed = True

    def block(self, p, shape, name='', write=True):
        """the array of the given shape that starts at the pointer"""
        b, o = self.C_arg(p)
        if not isinstance(b, CArr):
            self.ck.fail('%s is an array' % name, repr(p))
            raise Unsupported('no array')
        self.alive(b)
        if isinstance(b, CLocal) and write:
            raise Unsupported('local array %s as a block' % b.name)
        shape = [P(s) for s in shape]
        k = len(b.dims) - len(shape)
        if k < 0 or any(not (x == y or S.prove_zero(x - y)) for x, y in zip(b.dims[k:], shape)):
            # leading dimension longer than needed
            ok = k >= 0 and len(shape) and all(x == y or S.prove_zero(x - y) for x, y in zip(b.dims[k + 1:], shape[1:]))
            if not ok:
                self.ck.fail('shape of %s (%s)' % (name, b.name), '%s, needed %s' % ([str(d) for d in b.dims], [str(s) for s in shape]))
                raise Unsupported('shape of %s' % name)
            idx = self.split(b, o, len(shape) - 1, name + ' ')
            self.ck.holds('%s has the elements used' % name, T.ble(idx[-1] + shape[0], b.dims[k]))
            return view(b.arr, idx[:-1], idx[-1], shape), idx[:-1]
        idx = self.split(b, o, len(shape), name + ' ')
        return view(b.arr, idx, None, shape), idx

    def C_memset(self, p, v, nbytes):
        if conc(v) != 0:
            raise Unsupported('memset to %s' % v)
        b, o = self.C_arg(p)
        self.alive(b)
        n = P(nbytes).scale(T.Fr(1, 4 if b.arr.kind == 'i' else 8))
        if not isinstance(b, CLocal) and o == 0 and (n == b.total() or S.prove_zero(n - b.total())):
            self.ck.ok('%s: memset inside %s' % (self.line(), b.name))
            b.arr.store(lambda *i: ZERO)
            return
        c = conc(n)
        if c is not None and c < 100:
            for k in range(c):
                self.C_st(b, o + const(k), ZERO)
            return
        s = b.strides()
        for k, st in enumerate(s):
            if k and s[k - 1] == n:
                a, _ = self.block(p, b.dims[k:], 'memset ')
                a.store(lambda *i: ZERO)
                return
            m, r = quotient(n, st)
            if not r.t:          # m whole rows of dimension k
                a, _ = self.block(p, [m] + b.dims[k + 1:], 'memset')
                a.store(lambda *i: ZERO)
                return
        raise Unsupported('memset of %s elements in %s' % (n, b.name))

    def C_memcpy(self, d, s, nbytes):
        db, do = self.C_arg(d)
        sb, so = self.C_arg(s)
        n = P(nbytes).scale(T.Fr(1, 4 if db.arr.kind == 'i' else 8))
        c = conc(n)
        if c is not None and c < 100:
            for k in range(c):
                self.C_st(db, do + const(k), self.C_ld(sb, so + const(k)))
            return
        if do == 0 and so == 0 and n == db.total() == sb.total() and [str(x) for x in db.dims] == [str(x) for x in sb.dims]:
            body = sb.arr.copy()
            db.arr.store(lambda *i: body.at(*i))
            return
        raise Unsupported('memcpy')

    # -- scalars
    def C_cell(self, name):
        return Cell(name)

    def C_setcell(self, c, v):
        c.v = v

    def C_getcell(self, c):
        if c.v is None:
            raise Unsupported('%s read before it is set' % c.name)
        return c.v

    def C_num(self, s):
        return T.float_const(float(s)) if float(s) != int(float(s)) else P(int(float(s)))

    def C_range(self, lo, hi):
        lo, hi = P(lo), P(hi)
        a, b = conc(lo), conc(hi)
        return (a if a is not None else lo), (b if b is not None else hi)

    def C_after(self, lo, hi, step):
        return hi

    def C_sum(self, f, lo, hi):
        lo, hi = P(lo), P(hi)
        a, b = conc(lo), conc(hi)
        if a is not None and b is not None and b - a < 200:
            return sum((P(f(k)) for k in range(a, b)), ZERO)
        nm, y = fresh_index(hi)
        return mk_sum(nm, lo, hi, P(f(y)))

    def C_same(self, name, a, b):
        d = P(a) - P(b)
        if d.t and not S.prove_zero(d):
            self.ck.fail('%s: %s moves by the same amount in every iteration' % (self.line(), name), str(d)[:200])

    def C_search(self, f, lo, hi):
        """first k in lo..hi-1 with f(k): found or not, on separate paths"""
        lo, hi = P(lo), P(hi)
        nm, y = T.fresh_index(hi)
        ok = f(y)
        ok = ok if isinstance(ok, B) else T.TRUE if ok else T.FALSE
        found = Poly.atom(T.Sym('found%d' % next(A._ids), 'int', nonneg=True))
        none = [T.bnot(band(T.bge(P(t), lo), blt(P(t), hi), f(P(t)))) for t in self.search_terms]
        with S.assuming(*none):
            always = bool(none) and S.infeasible(2000)
        if always or A.fork_hook[0](beq(found, 1)):
            S.CTX.push(T.bge(y, lo))
            S.CTX.push(blt(y, hi))
            S.CTX.push(ok)
            return True, y
        for b in none:
            S.CTX.push(b)
        return False, hi

    def C_trunc(self, v):
        return A.cast(P(v), 'i')

    def C_div(self, a, b):
        return P(a) / P(b)

    def C_idiv(self, a, b):
        a, b = P(a), P(b)
        x, y = conc(a), conc(b)
        if x is not None and y:
            return const(int(T.Fr(x, y).__trunc__()))
        return S.idiv(a, b)

    def C_imod(self, a, b):
        return S.imod(P(a), P(b))

    def C_m_cos(self, x):
        return T.pcos(P(x))

    def C_m_sin(self, x):
        return T.psin(P(x))

    def C_m_exp(self, x):
        return A.unop(P(x), 'exp')

    def C_m_sqrt(self, x):
        return P(x).power(T.Fr(1, 2))

    def C_m_fabs(self, x):
        return T.fabs(P(x))

    def C_m_round(self, x):
        return S.rint(P(x))

    def C_m_floor(self, x):
        return A.unop(P(x), 'floor')

    def C_m_copysign(self, x, y):
        """magnitude of x, sign of y (positive at zero)"""
        m = T.fabs(P(x))
        return T.ite(T.bge(P(y), 0), m, -m)

    def C_m_pow(self, x, y):
        c = conc(y)
        if c is None:
            raise Unsupported('pow')
        return P(x).power(c)

    def C_printf(self, *a):
        return None

    def C_unsupported(self, msg):
        raise Unsupported(msg)

    def C_parallel(self):
        self.parallel = True

    def C_shared(self, name):
        self.ck.fail('variable %s of all threads not assigned in the parallel region' % name, 'assigned without synchronisation')

    def C_iteration(self, lo, hi):
        nm, y = fresh_index(P(hi))
        S.CTX.push(T.bge(y, P(lo)))
        self.iteration = (y, P(lo), P(hi))
        if self.on_iteration is not None:
            self.on_iteration()
        return y

    def C_iterated(self):
        return None
