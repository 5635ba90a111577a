"""Abstract interpretation of the Python sources: value-flow terms for what functions compute and store.

Nothing is executed: statements are interpreted over terms.  Unknown conditions merge both branches with `ite`, loops
over unknown collections become folds whose step is extracted once, attribute writes go to a symbolic store.
"""
import ast
import os
import sys

sys.setrecursionlimit(20000)


class T:
    """interned term"""
    __slots__ = ("op", "args", "free", "n", "line")
    table = {}

    def __repr__(self):
        return show(self)


def key(x):
    if isinstance(x, tuple):
        return ("t",) + tuple(key(y) for y in x)
    if isinstance(x, (bool, int, float)):
        return (type(x).__name__, repr(x))
    return x


def refsin(x):
    """objects made by the program that a term mentions"""
    seen, todo = set(), [x]
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            yield x
        elif isinstance(x, (T, tuple)) and id(x) not in seen:
            seen.add(id(x))
            todo.extend(x.args if isinstance(x, T) else x)


def frees(x):
    if isinstance(x, T):
        return x.free
    if isinstance(x, tuple):
        f = frozenset()
        for y in x:
            f |= frees(y)
        return f
    if isinstance(x, (Fold, MapBody)):
        return x.free
    return frozenset()


def mk(op, *args):
    k = (op, key(args))
    t = T.table.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        f = frozenset()
        for a in args:
            f |= frees(a)
        if op in ("elem", "phi", "loopid"):
            f |= frozenset([args[0]])
        t.free = f
        t.n = len(T.table)
        T.table[k] = t
    return t


def show(x, d=0):
    if isinstance(x, T):
        if d > 7:
            return ".."
        if x.op == "attr":
            return "%s.%s" % (show(x.args[0], d + 1), x.args[1])
        if x.op == "arg":
            return str(x.args[0])
        if x.op in ("elem", "phi"):
            return "%s%s" % (x.op, x.args[1:] if x.op == "phi" else "(%s)" % show(x.args[1], d + 1))
        if x.op == "eqn":
            return show(x.args[1], d)
        return "%s(%s)" % (x.op, ",".join(show(a, d + 1) for a in x.args))
    if isinstance(x, tuple):
        return "(%s)" % ",".join(show(a, d + 1) for a in x)
    return repr(x)


class Fold:
    """a loop: coll (term of the collection, or None with a `cond` for while loops), names of the state, init, step, stop"""
    count = 0

    def __init__(self):
        Fold.count += 1
        self.id = Fold.count
        self.grow = None

    def finish(self):
        f = frees(self.coll) | frees(tuple(self.init)) | frees(tuple(self.step)) | frees(self.stop) | frees(self.cond)
        self.free = f - frozenset([self.id])

    def __repr__(self):
        return "fold%d" % self.id


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Ref:
    """mutable object of the analysed program"""
    __slots__ = ("id", "kind", "cls")
    n = 0

    def __init__(self, kind, cls=None):
        Ref.n += 1
        self.id, self.kind, self.cls = Ref.n, kind, cls

    def __repr__(self):
        return "<%s %d %s>" % (self.kind, self.id, self.cls.name if self.cls else "")


class ClassVal:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = mod.name + "." + node.name

    def __repr__(self):
        return "class " + self.qual


class FuncVal:
    def __init__(self, mod, node, frame=None, cls=None, this=None):
        self.mod, self.node, self.frame, self.cls, self.this = mod, node, frame, cls, this
        self.qual = mod.name + "." + (cls.name + "." if cls else "") + getattr(node, "name", "<lambda>")

    def __repr__(self):
        return "func " + self.qual


class Ext:
    """something that is not Python source of the repository"""
    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("Ext", self.path))

    def __repr__(self):
        return "ext " + self.path


class BoundExt:
    """method of a value that is not a repository object"""
    def __init__(self, base, name, node):
        self.base, self.name, self.node = base, name, node


class Unsupported(Exception):
    pass


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.defs = {}


class Program:
    """the Python sources; names resolved through imports"""

    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.classes = {}
        self.resolving = set()

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        base = os.path.join(self.root, *name.split("."))
        m = None
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(p):
                src = open(p, "rb").read()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(src)
                m = Module(name, os.path.relpath(p, self.root), tree)
                m.pkg = p.endswith("__init__.py")
                break
        self.mods[name] = m
        if m:
            self.scan(m)
        return m

    def scan(self, m):
        def go(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    m.defs[s.name] = s
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                            if isinstance(n, ast.Name):
                                m.defs[n.id] = s
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        m.defs[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ""
                    if s.level:
                        parts = m.name.split(".")
                        parts = parts[:len(parts) - s.level + (1 if m.pkg else 0)]
                        base = ".".join(parts + ([s.module] if s.module else []))
                    for a in s.names:
                        if a.name == "*":
                            m.defs.setdefault("*", []).append(base)
                        else:
                            m.defs[a.asname or a.name] = ("from", base, a.name)
                elif isinstance(s, ast.If):
                    go(s.body)
                    go(s.orelse)
                elif isinstance(s, ast.Try):
                    go(s.body)
        go(m.tree.body)

    def everything(self):
        """all modules of the processing layer"""
        if not hasattr(self, "allmods"):
            for d in ("processing", "common"):
                for base, dirs, files in os.walk(os.path.join(self.root, "pymbs", d)):
                    for f in files:
                        if f.endswith(".py"):
                            rel = os.path.relpath(os.path.join(base, f), self.root)[:-3]
                            try:
                                self.module(rel.replace(os.sep, ".").replace(".__init__", ""))
                            except SyntaxError:
                                pass
            self.allmods = [m for m in self.mods.values() if m is not None]
        return self.allmods

    def tried(self):
        """attributes read where an exception is expected"""
        if not hasattr(self, "tryset"):
            self.tryset = set()
            for m in self.everything():
                for t in ast.walk(m.tree):
                    if isinstance(t, ast.Try):
                        for b in t.body:
                            self.tryset |= {x.attr for x in ast.walk(b) if isinstance(x, ast.Attribute)}
                    elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("hasattr", "getattr") and len(t.args) > 1 and isinstance(t.args[1], ast.Constant):
                        self.tryset.add(t.args[1].value)
        return self.tryset

    def assigned(self):
        """attributes that are assigned somewhere in the program"""
        if not hasattr(self, "assignedset"):
            self.assignedset = {t.attr for m in self.everything() for t in ast.walk(m.tree) if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store)}
        return self.assignedset

    def writes_params(self, name):
        """may a method of this name change the objects it is given?"""
        if not hasattr(self, "pwrites"):
            self.pwrites = {}
        if name not in self.pwrites:
            hit = False
            for m in self.everything():
                for c in ast.walk(m.tree):
                    if not isinstance(c, ast.FunctionDef) or c.name != name:
                        continue
                    ps = {a.arg for a in c.args.args[1:]}
                    for x in ast.walk(c):
                        if isinstance(x, (ast.Assign, ast.AugAssign)):
                            for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                                while isinstance(t, ast.Subscript):
                                    t = t.value
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in ps:
                                    hit = True
                        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT and isinstance(x.func.value, ast.Attribute) \
                                and isinstance(x.func.value.value, ast.Name) and x.func.value.value.id in ps:
                            hit = True
            self.pwrites[name] = hit
        return self.pwrites[name]

    def lookup(self, modname, name, depth=0):
        """value of a module attribute: ClassVal/FuncVal/Ext/("assign", module, node)/Module or None"""
        if depth > 12 or (modname, name) in self.resolving:
            return None
        m = self.module(modname)
        if m is None:
            return Ext(modname + "." + name)
        self.resolving.add((modname, name))
        try:
            d = m.defs.get(name)
            if d is None:
                sub = self.module(modname + "." + name)
                if sub is not None:
                    return sub
                for base in reversed(m.defs.get("*", [])):
                    if name.startswith("_"):
                        continue
                    if self.module(base) is None:
                        continue
                    r = self.lookup(base, name, depth + 1)
                    if r is not None:
                        return r
                for base in reversed(m.defs.get("*", [])):
                    if self.module(base) is None and (base.startswith("pymbs") or base in ("symbolics",)):
                        return Ext(base + "." + name)
                return None
            if isinstance(d, ast.ClassDef):
                return self.cls(m, d)
            if isinstance(d, ast.FunctionDef):
                return FuncVal(m, d)
            if isinstance(d, ast.Assign):
                return ("assign", m, d, name)
            if d[0] == "import":
                sub = self.module(d[1])
                return sub if sub is not None else Ext(d[1])
            base, n = d[1], d[2]
            if self.module(base) is None:
                return Ext(base + "." + n)
            r = self.lookup(base, n, depth + 1)
            return r if r is not None else Ext(base + "." + n)
        finally:
            self.resolving.discard((modname, name))

    def cls(self, m, node):
        k = (m.name, node.name)
        if k not in self.classes:
            self.classes[k] = ClassVal(m, node)
        return self.classes[k]

    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.lookup(c.mod.name, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                v = self.lookup(c.mod.name, b.value.id)
                if isinstance(v, Module):
                    r = self.lookup(v.name, b.attr)
            if isinstance(r, ClassVal):
                out.append(r)
            else:
                out.append(r)
        return out

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            if isinstance(b, ClassVal):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    def method(self, c, name):
        for k in self.mro(c):
            for s in k.node.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    return FuncVal(k.mod, s, cls=k)
        return None

    def classattr(self, c, name):
        for k in self.mro(c):
            for s in k.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return k, s
        return None

    def written(self, m):
        """names of the module its functions write"""
        if m is None:
            return ()
        w = m.__dict__.get("written")
        if w is None:
            w = m.written = frozenset(n for x in ast.walk(m.tree) if isinstance(x, ast.Global) for n in x.names)
        return w

    def get(self, modname, clsname):
        r = self.lookup(modname, clsname)
        return r if isinstance(r, ClassVal) else None


class Frame:
    def __init__(self, func, parent=None):
        self.func, self.parent, self.vars = func, parent, {}
        self.globals = frozenset()

    def copy(self):
        f = Frame(self.func, self.parent)
        f.globals = self.globals
        f.vars = dict(self.vars)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.heap = {}
        self.pc = ()

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.pc = self.pc
        return s


class Event:
    def __init__(self, kind, node, mod, data, pc, func, loops):
        self.kind, self.node, self.mod, self.data, self.pc, self.func, self.loops = kind, node, mod, data, pc, func, loops
        self.line = getattr(node, "lineno", 0)


class LoopInfo:
    pass


MUT = ("append", "extend", "remove", "reverse", "insert", "pop", "sort", "clear", "update", "setdefault", "add")
NUM = (int, float)


def isconst(v):
    return v is None or isinstance(v, (bool, int, float, str)) or isinstance(v, tuple) and all(isconst(x) for x in v)


def negate(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, T) and c.op == "not":
        return c.args[0]
    return mk("not", c)


class Interp:
    MAXDEPTH = 40

    def __init__(self, prog, models=None, opaque=(), typed=None):
        self.P = prog
        self.models = models or {}
        self.opaque = set(opaque)
        self.events = []
        self.loops = []
        self.types = {}      # term -> ClassVal
        self.typed = typed or {}   # attribute path suffix -> ClassVal
        self.stack = []
        self.loopstack = []
        self.half = set()       # (depth, name): variables that got a value on some ways only
        self.nodes = 0
        self.norder = 0
        self.intry = 0
        self.unsupported = []
        self.consts = {}
        self.inlined = set()
        self.writes = []     # (base, attr, value, line, mod, pc, loops)

    # ---------------------------------------------------------------- values
    def freeze(self, v, st, seen=()):
        if isinstance(v, Ref):
            if v in seen:
                return mk("obj", v)
            if v.kind in ("list", "matrix", "dict"):
                c = st.heap[("ref", v)]
                return self.freeze(c, st, seen + (v,))
            return mk("obj", v)
        if isinstance(v, tuple):
            return mk("tuple", *[self.freeze(x, st, seen) for x in v])
        if isinstance(v, list):
            return mk("list", *[self.freeze(x, st, seen) for x in v])
        return v

    def new_list(self, items, st):
        r = Ref("list")
        st.heap[("ref", r)] = list(items) if not isinstance(items, T) else items
        return r

    def truth(self, v, st):
        """python bool or a term"""
        if isinstance(v, Ref):
            if v.kind == "list":
                c = st.heap[("ref", v)]
                return bool(c) if isinstance(c, list) else mk("truth", c)
            if v.kind == "dict":
                return mk("truth", self.freeze(v, st))
            if v.kind == "obj":
                return True
            return mk("truth", self.freeze(v, st))
        if isinstance(v, T):
            if v.op in ("not", "cmp", "isinst", "and", "or", "truth", "in"):
                return v
            return mk("truth", v)
        if isinstance(v, (ClassVal, FuncVal, Ext, Module)):
            return True
        return bool(v)

    def ite(self, c, a, b, st):
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if isconst(a) and isconst(b) and type(a) == type(b) and a == b:
            return a
        fa, fb = self.freeze(a, st[0]), self.freeze(b, st[1])
        if isinstance(fa, T) and fa is fb:
            return fa
        return mk("ite", c, fa, fb)

    def merge(self, c, s1, s2):
        """state that is s1 where c holds and s2 elsewhere"""
        st = State()
        pair = (s1, s2)
        for f1, f2 in zip(s1.frames, s2.frames):
            f = Frame(f1.func, f1.parent)
            for k in list(f1.vars) + [k for k in f2.vars if k not in f1.vars]:
                a, b = f1.vars.get(k, UNDEF), f2.vars.get(k, UNDEF)
                if a is b or a is UNDEF or b is UNDEF:
                    if a is not b:
                        self.half.add((len(st.frames), k))
                    f.vars[k] = b if a is UNDEF else a
                else:
                    f.vars[k] = self.ite(c, a, b, pair)
            st.frames.append(f)
        for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
            a = s1.heap.get(k, UNDEF)
            b = s2.heap.get(k, UNDEF)
            if k[0] == "attr":
                if a is UNDEF:
                    a = self.initial(k)
                if b is UNDEF:
                    b = self.initial(k)
            elif a is UNDEF or b is UNDEF:
                st.heap[k] = b if a is UNDEF else a
                continue
            if a is b or isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(x is y for x, y in zip(a, b)):
                st.heap[k] = a
            elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
                st.heap[k] = [self.ite(c, x, y, pair) for x, y in zip(a, b)]
            else:
                st.heap[k] = self.ite(c, a, b, pair)
        n = 0
        while n < min(len(s1.pc), len(s2.pc)) and s1.pc[n] is s2.pc[n]:
            n += 1
        st.pc = s1.pc[:n]
        return st

    def initial(self, k):
        _, base, name = k
        if isinstance(base, Ref):
            return UNDEF
        return mk("attr", base, name)

    # ---------------------------------------------------------------- attributes
    def classof(self, v):
        if isinstance(v, Ref):
            return v.cls
        if isinstance(v, T):
            if v in self.types:
                return self.types[v]
            if v.op == "attr":
                return self.typed.get(v.args[1])
            if v.op == "elem" and isinstance(v.args[1], T):
                c = v.args[1]
                if c.op == "attr":
                    return self.typed.get(c.args[1] + "[]")
        return None

    def getattr(self, base, name, st, node):
        if isinstance(base, Module):
            return self.value_of(self.P.lookup(base.name, name), st, base.name, name)
        if isinstance(base, Ext):
            return Ext(base.path + "." + name)
        if isinstance(base, ClassVal):
            a = self.P.classattr(base, name)
            if a:
                return self.const_expr(a[0].mod, a[1].value)
            m = self.P.method(base, name)
            if m:
                return m
            return mk("attr", mk("class", base), name)
        if isinstance(base, Ref) and base.kind == "obj":
            k = ("attr", base, name)
            if k in st.heap:
                return st.heap[k]
            return self.from_class(base, base.cls, name, st, node)
        if isinstance(base, Ref):
            return BoundExt(base, name, node)
        if isinstance(base, T):
            k = ("attr", base, name)
            if k in st.heap:
                return st.heap[k]
            c = self.classof(base)
            if c is not None:
                v = self.from_class(base, c, name, st, node, leaf=True)
                if v is not None:
                    return v
            if base.op == "ite" and all(isinstance(x, T) for x in base.args[1:]):
                a, b = self.getattr(base.args[1], name, st, node), self.getattr(base.args[2], name, st, node)
                if not isinstance(a, BoundExt):
                    return self.ite(base.args[0], a, b, (st, st))
            return mk("attr", base, name)
        if isinstance(base, (str, list, tuple, int, float)) or base is None:
            return BoundExt(base, name, node)
        if isinstance(base, FuncVal):
            return mk("attr", mk("function", base), name)
        raise Unsupported("attribute %s of %s" % (name, type(base).__name__))

    def from_class(self, base, c, name, st, node, leaf=False):
        m = self.P.method(c, name)
        if m:
            for d in m.node.decorator_list:
                if isinstance(d, ast.Name) and d.id == "property":
                    return self.call(FuncVal(m.mod, m.node, cls=m.cls, this=base), [], {}, st, node)
                if isinstance(d, ast.Name) and d.id == "staticmethod":
                    return m
            return FuncVal(m.mod, m.node, cls=m.cls, this=base)
        a = self.P.classattr(c, name)
        if a and not (leaf and name in self.P.assigned()):
            return self.const_expr(a[0].mod, a[1].value)
        if leaf:
            return None
        if name == "__class__":
            return c
        k = mk("attr", mk("obj", base), name)
        return k

    def setattr(self, base, name, v, st, node):
        if isinstance(base, (T, Ref)):
            self.writes.append((base, name, v, getattr(node, "lineno", 0), self.mod(), st.pc, tuple(self.loopstack)))
            st.heap[("attr", base, name)] = v
            return
        if isinstance(base, (Module, ClassVal, Ext)):
            return
        raise Unsupported("attribute write on %r" % (base,))

    def mod(self):
        return self.stack[-1].mod if self.stack else None

    # ---------------------------------------------------------------- names
    def const_expr(self, m, node):
        k = (m.name, id(node))
        if k not in self.consts:
            self.consts[k] = None
            st = State()
            f = FuncVal(m, ast.parse("def _(): pass").body[0])
            st.frames.append(Frame(f))
            self.stack.append(f)
            try:
                v = self.eval(node, st)
                self.consts[k] = self.freeze(v, st) if isinstance(v, Ref) else v
            except Unsupported:
                self.consts[k] = mk("modconst", m.name, getattr(node, "lineno", 0))
            finally:
                self.stack.pop()
        return self.consts[k]

    def value_of(self, r, st, modname, name):
        if isinstance(r, tuple) and r and r[0] == "assign":
            _, m, d, nm = r
            for t in d.targets:
                if isinstance(t, ast.Name):
                    return self.const_expr(m, d.value)
            return mk("global", m.name, nm)
        if r is None:
            return mk("global", modname, name)
        return r

    BUILTINS = {"len", "range", "isinstance", "str", "print", "list", "dict", "tuple", "int", "float", "enumerate", "zip", "hasattr", "getattr", "setattr", "sorted", "abs",
                "min", "max", "sum", "type", "bool", "reversed", "set", "any", "all", "id", "repr", "map", "super", "issubclass", "open", "round", "format", "iter", "next", "eval", "exec", "callable",
                "property", "object", "staticmethod", "input", "filter", "pow", "divmod", "hash", "vars", "dir", "chr", "ord"}

    def name(self, n, st):
        f = st.frames[-1]
        while f is not None:
            if n in f.vars and f.vars[n] is not UNDEF:
                return f.vars[n]
            f = f.parent
        if n in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n]
        m = self.mod()
        if n in self.P.written(m):
            return self.getattr(mk("modobj", m.name), n, st, None)
        r = self.P.lookup(m.name, n)
        if r is not None:
            return self.value_of(r, st, m.name, n)
        if n in self.BUILTINS:
            return Ext("builtins." + n)
        return mk("global", m.name, n)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, st):
        self.nodes += 1
        if self.nodes > 400000:
            raise Unsupported("too much code")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("%s at line %d" % (type(e).__name__, getattr(e, "lineno", 0)))
        return m(e, st)

    def e_Constant(self, e, st):
        return e.value if not isinstance(e.value, complex) else mk("complex", repr(e.value))

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def e_Tuple(self, e, st):
        return tuple(self.items(e.elts, st))

    def items(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.concrete(self.eval(x.value, st), st)
                if v is None:
                    raise Stars("star of unknown sequence")
                out.extend(v)
            else:
                out.append(self.eval(x, st))
        return out

    def e_List(self, e, st):
        return self.new_list(self.items(e.elts, st), st)

    def e_Set(self, e, st):
        return tuple(self.items(e.elts, st))

    def e_Dict(self, e, st):
        r = Ref("dict")
        t = mk("dict")
        for k, v in zip(e.keys, e.values):
            t = mk("dset", t, self.freeze(self.eval(k, st), st), self.freeze(self.eval(v, st), st))
        st.heap[("ref", r)] = t
        return r

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.freeze(self.eval(v.value, st), st))
        if all(isinstance(p, (str, int)) for p in parts):
            return "".join(map(str, parts))
        return mk("fstr", *parts)

    def e_Lambda(self, e, st):
        return FuncVal(self.mod(), e, st.frames[-1])

    def e_IfExp(self, e, st):
        c = self.truth(self.eval(e.test, st), st)
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, st)
        return self.ite(c, self.eval(e.body, st), self.eval(e.orelse, st), (st, st))

    def e_Attribute(self, e, st):
        return self.getattr(self.eval(e.value, st), e.attr, st, e)

    def e_Starred(self, e, st):
        raise Unsupported("star")

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        st.frames[-1].vars[e.target.id] = v
        return v

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return negate(self.truth(v, st))
        if isinstance(v, NUM):
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: x, ast.Invert: lambda x: ~x}[type(e.op)](v)
        f = self.freeze(v, st)
        if isinstance(e.op, ast.USub):
            return mk("neg", f)
        if isinstance(e.op, ast.UAdd):
            return f
        raise Unsupported("unary")

    OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.Mod: "mod", ast.FloorDiv: "floordiv", ast.BitOr: "bitor", ast.BitAnd: "bitand", ast.MatMult: "matmul"}

    def e_BinOp(self, e, st):
        return self.binop(type(e.op), self.eval(e.left, st), self.eval(e.right, st), st, e)

    def binop(self, op, a, b, st, node):
        n = self.OPS.get(op)
        if n is None:
            raise Unsupported("operator")
        if isinstance(a, NUM) and isinstance(b, NUM):
            try:
                return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b, "pow": lambda: a ** b, "mod": lambda: a % b,
                        "floordiv": lambda: a // b, "bitor": lambda: a | b, "bitand": lambda: a & b}[n]()
            except Exception:
                raise Unsupported("arithmetic")
        if n == "mod" and isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            if all(isinstance(x, (str, int, float)) for x in args):
                try:
                    return a % (tuple(args))
                except Exception:
                    pass
            return mk("fmt", a, *[self.freeze(x, st) for x in args])
        if n == "add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if n == "add" and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, Ref) and a.kind == "list" or isinstance(b, Ref) and b.kind == "list":
            ca = st.heap[("ref", a)] if isinstance(a, Ref) and a.kind == "list" else a
            cb = st.heap[("ref", b)] if isinstance(b, Ref) and b.kind == "list" else b
            if n == "add":
                if isinstance(ca, list) and isinstance(cb, list):
                    return self.new_list(ca + cb, st)
                return self.new_list(mk("concat", self.freeze(ca, st), self.freeze(cb, st)), st)
            if n == "mul" and isinstance(ca, list) and isinstance(cb, int):
                return self.new_list(ca * cb, st)
            if n == "mul":
                return self.new_list(mk("repeat", self.freeze(ca, st), self.freeze(cb, st)), st)
        return mk(n, self.freeze(a, st), self.freeze(b, st))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = []
        for i, x in enumerate(e.values):
            v = self.eval(x, st)
            c = self.truth(v, st)
            if isinstance(c, bool):
                if c != isand:
                    if not vals:
                        return v
                    return mk("and" if isand else "or", *(vals + [c]))
                if i == len(e.values) - 1 and not vals:
                    return v
                continue
            vals.append(c)
        return vals[0] if len(vals) == 1 else mk("and" if isand else "or", *vals)

    CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            out.append(self.compare(self.CMP[type(op)], left, right, st))
            left = right
        res = []
        for c in out:
            if c is False:
                return False
            if c is not True:
                res.append(c)
        if not res:
            return True
        return res[0] if len(res) == 1 else mk("and", *res)

    def compare(self, op, a, b, st):
        if op in ("is not", "!=", "not in"):
            return negate(self.compare({"is not": "is", "!=": "==", "not in": "in"}[op], a, b, st))
        if isconst(a) and isconst(b) and op != "in":
            try:
                return {"is": lambda: a is b or a == b and type(a) == type(b), "==": lambda: a == b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
            except TypeError:
                raise Unsupported("comparison")
        if op == "is" or op == "==":
            if a is b and not (isinstance(a, T) and op == "=="):
                return True
            objs = (Ref, ClassVal, FuncVal, Module)
            if (a is None and isinstance(b, objs)) or (b is None and isinstance(a, objs)):
                return False
            if isinstance(a, ClassVal) and isinstance(b, (ClassVal, Ext)) or isinstance(b, ClassVal) and isinstance(a, Ext):
                return a is b
            if isinstance(a, Ref) and isinstance(b, Ref) and (a.kind == "obj" or b.kind == "obj" or op == "is"):
                return a is b
            for x, y in ((a, b), (b, a)):
                if x is None and isinstance(y, T) and y.op in ("eqn", "add", "mul", "sub", "neg", "tuple", "list", "matrix", "newvar", "dset", "dict", "call"):
                    return False
                if isinstance(x, str) and isinstance(y, (Ref, ClassVal)):
                    return False
        if op == "in":
            items = b if isinstance(b, tuple) else self.concrete(b, st)
            if items is not None:
                res = []
                for x in items:
                    c = self.compare("==", a, x, st)
                    if c is True:
                        return True
                    if c is not False:
                        res.append(c)
                if not res:
                    return False
                return res[0] if len(res) == 1 else mk("or", *res)
            if isinstance(a, str) and isinstance(b, str):
                return a in b
        return mk("cmp", op, self.freeze(a, st) if not isinstance(a, (ClassVal, Ext)) else a, self.freeze(b, st) if not isinstance(b, (ClassVal, Ext)) else b)

    def e_Subscript(self, e, st):
        base = self.eval(e.value, st)
        return self.getitem(base, self.index(e.slice, st), st)

    def index(self, s, st):
        if isinstance(s, ast.Slice):
            lo = self.eval(s.lower, st) if s.lower else None
            hi = self.eval(s.upper, st) if s.upper else None
            step = self.eval(s.step, st) if s.step else None
            return mk("slice", self.freeze(lo, st), self.freeze(hi, st), self.freeze(step, st))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, st) for x in s.elts)
        return self.eval(s, st)

    def getitem(self, base, k, st):
        c = base
        if isinstance(base, Ref):
            c = st.heap.get(("ref", base), base)
        if isinstance(c, (list, tuple)) and isinstance(k, int):
            if -len(c) <= k < len(c):
                return c[k]
            raise Unsupported("index")
        if isinstance(c, (list, tuple)) and isinstance(k, T) and k.op == "slice" and all(isconst(x) for x in k.args):
            r = c[slice(*k.args)]
            return self.new_list(r, st) if isinstance(c, list) else r
        if isinstance(c, T) and c.op in ("tuple", "list") and isinstance(k, int) and -len(c.args) <= k < len(c.args):
            return c.args[k]
        if isinstance(c, T) and c.op == "dset" and isconst(k):
            d = c
            while d.op == "dset":
                if isconst(d.args[1]):
                    if d.args[1] == k:
                        return d.args[2]
                    d = d.args[0]
                    continue
                break
        if isinstance(c, str) and isinstance(k, int):
            return c[k]
        if isinstance(c, str) and isinstance(k, T) and k.op == "slice" and all(isconst(x) for x in k.args):
            return c[slice(*k.args)]
        if isinstance(c, T) and c.op == "dset" and isinstance(k, (T, Ref)):
            kk = self.freeze(k, st)
            if c.args[1] is kk:
                return c.args[2]
        return mk("getitem", self.freeze(base, st), self.freeze(k, st))

    def setitem(self, base, k, v, st, node):
        if isinstance(base, Ref) and base.kind == "obj":
            m = self.P.method(base.cls, "__setitem__")
            if m:
                self.call(FuncVal(m.mod, m.node, cls=m.cls, this=base), [k, v], {}, st, node)
                return
            raise Unsupported("item write")
        if isinstance(base, Ref):
            c = st.heap[("ref", base)]
            if isinstance(c, list):
                if isinstance(k, int) and -len(c) <= k < len(c):
                    c = list(c)
                    c[k] = v
                    st.heap[("ref", base)] = c
                    return
                c = self.freeze(c, st)
            op = "dset" if base.kind == "dict" else "setitem"
            st.heap[("ref", base)] = mk(op, c, self.freeze(k, st), self.freeze(v, st))
            return
        if isinstance(base, T):
            self.replace(base, mk("setitem", base, self.freeze(k, st), self.freeze(v, st)), st)
            return
        raise Unsupported("item write on %r" % (base,))

    def replace(self, old, new, st):
        """a value of unknown origin was changed in place"""
        hit = False
        for f in st.frames:
            same = [n for n, v in f.vars.items() if v is old]
            if len(same) > 1 and old.op in ("zeros", "eye", "ones"):
                raise Unsupported("write to one of several equal values")
            for n in same:
                f.vars[n] = new
                hit = True
        for k, v in list(st.heap.items()):
            if v is old:
                st.heap[k] = new
                hit = True
        if old.op == "attr":
            st.heap[("attr", old.args[0], old.args[1])] = new
            hit = True
        if not hit:
            raise Unsupported("write to an unknown place")

    def concrete(self, v, st):
        """python list of the items, if the sequence is known"""
        if isinstance(v, Ref) and v.kind in ("list",):
            c = st.heap[("ref", v)]
            if isinstance(c, list):
                return list(c)
            v = c
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, T):
            if v.op in ("tuple", "list"):
                return list(v.args)
            if v.op == "range" and all(isinstance(x, int) for x in v.args):
                r = range(*v.args)
                return list(r) if len(r) <= 24 else None
            if v.op == "concat":
                a, b = self.concrete(v.args[0], st), self.concrete(v.args[1], st)
                if a is not None and b is not None:
                    return a + b
            if v.op == "enumerate":
                a = self.concrete(v.args[0], st)
                n = v.args[1] if len(v.args) > 1 else 0
                return [(i + n, x) for i, x in enumerate(a)] if a is not None and isinstance(n, int) else None
            if v.op == "zip":
                ls = [self.concrete(x, st) for x in v.args]
                return list(zip(*ls)) if all(l is not None for l in ls) else None
        return None

    def e_ListComp(self, e, st):
        return self.comp(e, st)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def comp(self, e, st):
        def gen(i, st):
            """list of (cond, value) or a term"""
            if i == len(e.generators):
                return [self.eval(e.elt, st)]
            g = e.generators[i]
            coll = self.eval(g.iter, st)
            items = self.concrete(coll, st)
            if items is None:
                f = Fold()
                el = self.element(f.id, self.freeze(coll, st), st)
                self.assign(g.target, el, st, e)
                cs = [self.truth(self.eval(c, st), st) for c in g.ifs]
                inner = gen(i + 1, st)
                if isinstance(inner, list):
                    inner = mk("list", *[self.freeze(x, st) for x in inner])
                cs = [c for c in cs if c is not True]
                cond = True if not cs else cs[0] if len(cs) == 1 else mk("and", *cs)
                return mk("flatmap", MapBody(f.id, self.freeze(coll, st), cond, inner))
            out = []
            for x in items:
                self.assign(g.target, x, st, e)
                cs = [self.truth(self.eval(c, st), st) for c in g.ifs]
                if any(c is False for c in cs):
                    continue
                r = gen(i + 1, st)
                cs = [c for c in cs if c is not True]
                if cs:
                    c = cs[0] if len(cs) == 1 else mk("and", *cs)
                    if isinstance(r, list):
                        r = mk("list", *[self.freeze(x, st) for x in r])
                    r = mk("ite", c, r, mk("list"))
                out.append(r)
            if all(isinstance(x, list) for x in out):
                return [y for x in out for y in x]
            t = mk("list")
            for x in out:
                t = mk("concat", t, mk("list", *[self.freeze(y, st) for y in x]) if isinstance(x, list) else x)
            return t
        f = st.frames[-1]
        saved = dict(f.vars)
        r = gen(0, st)
        f.vars = saved
        return self.new_list(r, st)

    def e_DictComp(self, e, st):
        raise Unsupported("dict comprehension")

    def element(self, fid, coll, st, path=()):
        """generic element of a collection; path: the part of the running element that is meant"""
        if isinstance(coll, T) and coll.op == "enumerate":
            return (mk("elem", fid, None, path + (0,)), self.element(fid, coll.args[0], st, path + (1,)))
        if isinstance(coll, T) and coll.op == "zip":
            return tuple(self.element(fid, c, st, path + (i,)) for i, c in enumerate(coll.args))
        return mk("elem", fid, coll, path) if path else mk("elem", fid, coll)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st):
        f = self.eval(e.func, st)
        stars = False
        try:
            args = self.items(e.args, st)
        except Stars:
            stars = True
            args = [("*", self.eval(x.value, st)) if isinstance(x, ast.Starred) else (None, self.eval(x, st)) for x in e.args]
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, st)
                if isinstance(v, Ref) and v.kind == "dict" and st.heap[("ref", v)].op == "dict":
                    continue
                kw["**"] = v
                continue
            kw[k.arg] = self.eval(k.value, st)
        if stars:
            if isinstance(f, (ClassVal, FuncVal)) and not (isinstance(f, FuncVal) and f.frame is not None) and not self.models.get(f.qual):
                return self.dyncall(f, args, kw, st, e)
            raise Unsupported("star of unknown sequence")
        return self.call(f, args, kw, st, e)

    def dyncall(self, f, args, kw, st, node):
        """a call whose target or arguments are known only when the values are: args are (star?, value)"""
        self.ndyn = getattr(self, "ndyn", 0) + 1
        t = mk("made", self.ndyn, tuple(mk("loopid", l.id) for l in self.loopstack))
        self.event("dyn", node, dict(func=f, args=args, kw=kw, value=t), st)
        return t

    def call(self, f, args, kw, st, node):
        if isinstance(f, BoundExt):
            return self.method(f.base, f.name, args, kw, st, node)
        if isinstance(f, FuncVal):
            m = self.models.get(f.qual) or self.models.get(f.qual.rsplit(".", 1)[-1] if f.cls is None and f.qual.startswith("pymbs.common.functions.") else None)
            if m:
                return m(self, args, kw, st, node)
            if f.qual in self.opaque or f.node.__class__ is ast.FunctionDef and f.node.name in self.opaque:
                return self.opaque_call(f, args, kw, st, node)
            return self.inline(f, args, kw, st, node)
        if isinstance(f, ClassVal):
            m = self.models.get(f.qual)
            if m:
                return m(self, args, kw, st, node)
            return self.instantiate(f, args, kw, st, node)
        if isinstance(f, Ext):
            m = self.models.get(f.path)
            if m:
                return m(self, args, kw, st, node)
            if f.path.startswith("builtins."):
                return self.builtin(f.path[9:], args, kw, st, node)
            return self.ext(f.path, args, kw, st, node)
        if isinstance(f, T):
            if f.op == "attr":
                return self.method(f.args[0], f.args[1], args, kw, st, node, f)
            if f.op == "ite":
                a = self.call(f.args[1], args, kw, st, node)
                b = self.call(f.args[2], args, kw, st, node)
                return self.ite(f.args[0], a, b, (st, st))
            if f.op == "builtin" and f.args[0] == "getattr":
                return self.dyncall(f, [(None, a) for a in args], kw, st, node)
            return mk("apply", f, *[self.freeze(a, st) for a in args])
        raise Unsupported("call of %r" % (f,))

    def opaque_call(self, f, args, kw, st, node):
        a = ([f.this] if f.this is not None else []) + list(args)
        t = mk("call", f.qual, *[self.freeze(x, st) if not isinstance(x, (ClassVal, Ext, FuncVal, Module)) else x for x in a] + [mk("kw", k, self.freeze(v, st)) for k, v in sorted(kw.items())])
        free = {}
        if f.frame is not None:
            # what a nested function sees of the functions around it
            here = f.frame
            for g in st.frames:
                if g.func is f.frame.func:
                    here = g
            for n in {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}:
                fr = here
                while fr is not None:
                    if n in fr.vars and fr.vars[n] is not UNDEF:
                        free[n] = fr.vars[n]
                        break
                    fr = fr.parent
        self.event("call", node, dict(func=f.qual, args=a, kw=kw, value=t, target=f, free=free), st)
        return t

    def event(self, kind, node, data, st):
        e = Event(kind, node, self.mod(), data, st.pc, self.stack[-1] if self.stack else None, tuple(self.loopstack))
        e.intry = self.intry > 0
        self.norder += 1
        e.order, e.entry = self.norder, dict(st.heap)
        self.events.append(e)

    def bind(self, f, args, kw, st, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if f.this is not None:
            args.insert(0, f.this)
        for n, v in zip(names, args):
            vals[n] = v
        if len(args) > len(names):
            if a.vararg:
                vals[a.vararg.arg] = tuple(args[len(names):])
            else:
                raise Unsupported("too many arguments for %s" % f.qual)
        elif a.vararg:
            vals[a.vararg.arg] = ()
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            r = Ref("dict")
            t = mk("dict")
            for k, v in extra.items():
                if k != "**":
                    t = mk("dset", t, k, self.freeze(v, st))
            st.heap[("ref", r)] = t
            vals[a.kwarg.arg] = r
        elif [k for k in extra if k != "**"]:
            raise Unsupported("unknown keyword of %s" % f.qual)
        ds = a.defaults
        for n, d in zip(names[len(names) - len(ds):], ds):
            if n not in vals:
                vals[n] = self.const_expr(f.mod, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals and d is not None:
                vals[x.arg] = self.const_expr(f.mod, d)
        for n in names:
            if n not in vals:
                raise Unsupported("argument %s of %s missing" % (n, f.qual))
        return vals

    def inline(self, f, args, kw, st, node):
        if len(self.stack) > self.MAXDEPTH or sum(1 for g in self.stack if g.node is f.node) >= 2:
            return self.opaque_call(f, args, kw, st, node)
        vals = self.bind(f, args, kw, st, node)
        self.inlined.add(f.qual)
        fr = Frame(f, f.frame)
        if f.frame is not None:
            # the frame of the enclosing function may have been copied since
            for g in st.frames:
                if g.func is f.frame.func:
                    fr.parent = g
        fr.vars.update(vals)
        depth = len(st.frames)
        st.frames.append(fr)
        self.stack.append(f)
        pc0 = st.pc
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st)
                st.frames.pop()
                return v
            outs = self.block(f.node.body, st.copy())
        finally:
            self.stack.pop()
        res = []
        for kind, s, v in outs:
            if kind == "raise":
                continue
            if kind in ("break", "continue"):
                raise Unsupported("control flow")
            res.append((s.pc[len(pc0):], s, v if kind == "return" else None))
        if not res:
            raise Dead()
        # merge the exits
        cond, s, v = res[-1]
        for c2, s2, v2 in reversed(res[:-1]):
            c = conj(c2)
            val = self.ite(c, v2, v, (s2, s)) if not (v2 is v) else v
            s = self.merge(c, s2, s)
            v = val
        s.frames = s.frames[:depth]
        st.frames[:] = s.frames
        st.heap = s.heap
        st.pc = pc0
        return v

    def instantiate(self, c, args, kw, st, node):
        r = Ref("obj", c)
        self.event("new", node, dict(cls=c, args=args, kw=kw, value=r), st)
        init = self.P.method(c, "__init__")
        if init:
            if init.qual in self.opaque:
                for k, v in self.bind(FuncVal(init.mod, init.node, cls=init.cls, this=r), args, kw, st, node).items():
                    st.heap[("attr", r, "init:" + k)] = v
            else:
                self.call(FuncVal(init.mod, init.node, cls=init.cls, this=r), args, kw, st, node)
        return r

    def ext(self, path, args, kw, st, node):
        a = [self.freeze(x, st) if not isinstance(x, (ClassVal, Ext, FuncVal, Module)) else x for x in args]
        ks = [mk("kw", k, self.freeze(v, st)) for k, v in sorted(kw.items())]
        t = mk("call", path, *(a + ks))
        self.event("call", node, dict(func=path, args=args, kw=kw, value=t), st)
        return t

    def builtin(self, n, args, kw, st, node):
        if n == "len":
            c = self.concrete(args[0], st)
            if c is not None:
                return len(c)
            if isinstance(args[0], str):
                return len(args[0])
            return mk("len", self.freeze(args[0], st))
        if n == "range":
            a = [self.freeze(x, st) for x in args]
            return mk("range", *a)
        if n == "isinstance":
            return self.isinstance(args[0], args[1], st)
        if n == "print":
            return None
        if n == "list":
            if not args:
                return self.new_list([], st)
            c = self.concrete(args[0], st)
            return self.new_list(c if c is not None else self.freeze(args[0], st), st)
        if n == "tuple":
            if not args:
                return ()
            c = self.concrete(args[0], st)
            return tuple(c) if c is not None else mk("totuple", self.freeze(args[0], st))
        if n == "dict":
            if not args:
                r = Ref("dict")
                t = mk("dict")
                for k, v in kw.items():
                    t = mk("dset", t, k, self.freeze(v, st))
                st.heap[("ref", r)] = t
                return r
            return mk("call", "dict", *[self.freeze(a, st) for a in args])
        if n in ("filter", "map") and len(args) == 2 and isinstance(args[0], FuncVal):
            src = "[$x for $x in $c if $f($x)]" if n == "filter" else "[$f($x) for $x in $c]"
            tree = ast.parse(src.replace("$", "v_of_builtin_"), mode="eval").body
            for x in ast.walk(tree):
                if hasattr(x, "lineno"):
                    x.lineno, x.col_offset = node.lineno, 0
            vs = st.frames[-1].vars
            vs["v_of_builtin_f"], vs["v_of_builtin_c"] = args
            r = self.comp(tree, st)
            st.frames[-1].vars.pop("v_of_builtin_f", None)
            st.frames[-1].vars.pop("v_of_builtin_c", None)
            return r
        if n in ("enumerate", "zip", "reversed"):
            c = [self.concrete(a, st) for a in args]
            if n == "reversed" and c[0] is not None:
                return self.new_list(list(reversed(c[0])), st)
            if n == "enumerate" and "start" in kw:
                args = list(args) + [kw["start"]]
            return mk(n, *[self.freeze(a, st) for a in args])
        if n == "str" and args and isinstance(args[0], (str, int)):
            return str(args[0])
        if n in ("hasattr", "getattr") and isinstance(args[1], str):
            if n == "getattr":
                return self.getattr(args[0], args[1], st, node)
            if isinstance(args[0], Ref) and args[0].kind == "obj":
                return ("attr", args[0], args[1]) in st.heap or self.P.method(args[0].cls, args[1]) is not None
            return mk("hasattr", self.freeze(args[0], st), args[1])
        if n == "setattr" and isinstance(args[1], str):
            self.setattr(args[0], args[1], args[2], st, node)
            return None
        if n == "setattr":
            self.event("setattr", node, dict(args=args), st)
            return None
        if n == "type":
            if args[0] is None:
                return Ext("builtins.NoneType")
            if isinstance(args[0], Ref) and args[0].cls:
                return args[0].cls
            return mk("attr", self.freeze(args[0], st), "__class__")
        if n in ("int", "float", "bool", "abs", "round") and args and isinstance(args[0], NUM):
            return {"int": int, "float": float, "bool": bool, "abs": abs, "round": round}[n](args[0])
        if n == "super":
            f = self.stack[-1]
            this = st.frames[-1].vars[f.node.args.args[0].arg]
            return SuperVal(f.cls, this)
        if n == "set" and not args:
            return self.new_list([], st)
        if n in ("sum",):
            c = self.concrete(args[0], st)
            if c is not None:
                v = args[1] if len(args) > 1 else 0
                for x in c:
                    v = self.binop(ast.Add, v, x, st, node)
                return v
        return mk("builtin", n, *[self.freeze(a, st) if not isinstance(a, (ClassVal, Ext, FuncVal, Module)) else a for a in args])

    def isinstance(self, v, c, st):
        cs = list(c) if isinstance(c, tuple) else [c]
        cs = [y for x in cs for y in (x if isinstance(x, tuple) else [x])]
        if isconst(v):
            names = {bool: ("bool", "int"), int: ("int",), float: ("float",), str: ("str",), tuple: ("tuple",), type(None): ("NoneType",)}[type(v)]
            return any(isinstance(x, Ext) and x.path in ["builtins." + n for n in names] for x in cs)
        if isinstance(v, tuple):
            return any(x == Ext("builtins.tuple") for x in cs)
        if isinstance(v, Ref):
            if v.kind == "list":
                return any(x == Ext("builtins.list") for x in cs)
            if v.kind == "dict":
                return any(x == Ext("builtins.dict") for x in cs)
            if v.kind == "matrix":
                return any(isinstance(x, Ext) and x.path.rsplit(".", 1)[-1] in ("Matrix", "CMatrix", "Basic", "CBasic") for x in cs)
            if v.kind == "obj":
                m = self.P.mro(v.cls)
                return any(x in m for x in cs if isinstance(x, ClassVal))
        if isinstance(v, (FuncVal, ClassVal, Module)):
            return False
        if any(isinstance(x, T) for x in cs):
            return mk("isinst", self.freeze(v, st), tuple(cs))
        if isinstance(v, T) and v in self.types:
            m = self.P.mro(self.types[v])
            return any(x in m for x in cs if isinstance(x, ClassVal))
        if isinstance(v, T) and v.op in ("fmt", "fstr"):
            return any(x == Ext("builtins.str") for x in cs)
        if isinstance(v, T) and v.op in ("list", "flatmap", "concat"):
            return any(x == Ext("builtins.list") for x in cs)
        return mk("isinst", self.freeze(v, st), tuple(cs))

    def method(self, base, name, args, kw, st, node, ft=None):
        if isinstance(base, SuperVal):
            for k in self.P.mro(base.cls)[1:]:
                m = self.P.method(k, name)
                if m:
                    return self.call(FuncVal(m.mod, m.node, cls=m.cls, this=base.this), args, kw, st, node)
            return None
        m = self.models.get("." + name)
        if m:
            r = m(self, base, args, kw, st, node)
            if r is not NotImplemented:
                return r
        if isinstance(base, str):
            if all(isconst(a) for a in args) and name in ("lower", "upper", "strip", "split", "replace", "startswith", "endswith", "format", "count", "find", "isdigit", "title", "capitalize", "rstrip", "lstrip", "join"):
                r = getattr(base, name)(*args)
                return self.new_list(r, st) if isinstance(r, list) else r
            if name == "join" and isinstance(args[0], Ref):
                c = self.concrete(args[0], st)
                if c is not None and all(isinstance(x, str) for x in c):
                    return base.join(c)
            return mk("strmethod", base, name, *[self.freeze(a, st) for a in args])
        if isinstance(base, Ref) and base.kind == "list":
            return self.listmethod(base, name, args, kw, st, node)
        if isinstance(base, Ref) and base.kind == "dict":
            c = st.heap[("ref", base)]
            if name in ("values", "keys", "items", "get", "copy", "has_key"):
                return mk("d" + name, c, *[self.freeze(a, st) for a in args])
            if name == "update" and args:
                st.heap[("ref", base)] = mk("dupdate", c, self.freeze(args[0], st))
                return None
            if name == "pop":
                st.heap[("ref", base)] = mk("dpop", c, *[self.freeze(a, st) for a in args])
                return mk("getitem", c, self.freeze(args[0], st))
            if name == "clear":
                st.heap[("ref", base)] = mk("dict")
                return None
        if isinstance(base, T):
            if name in MUT and name not in ("update", "setdefault"):
                f = [self.freeze(a, st) for a in args]
                new = {"append": lambda: mk("concat", base, mk("list", f[0])), "extend": lambda: mk("concat", base, f[0]), "remove": lambda: mk("lremove", base, f[0]),
                       "reverse": lambda: mk("reversed", base), "sort": lambda: mk("sorted", base), "insert": lambda: mk("linsert", base, *f),
                       "pop": lambda: mk("lpop", base, *f), "clear": lambda: mk("list"), "add": lambda: mk("concat", base, mk("list", f[0]))}[name]()
                res = mk("getitem", base, f[0] if f else -1) if name == "pop" else None
                self.replace(base, new, st)
                return res
        t = mk("method", name, self.freeze(base, st) if not isinstance(base, (ClassVal, Ext, FuncVal, Module)) else base,
               *[self.freeze(a, st) if not isinstance(a, (ClassVal, Ext, FuncVal, Module)) else a for a in args] + [mk("kw", k, self.freeze(v, st) if not isinstance(v, (ClassVal, Ext, FuncVal, Module)) else v) for k, v in sorted(kw.items())])
        late = []
        for x in list(args) + list(kw.values()):
            if isinstance(x, Ref) and x.kind == "obj" and self.P.writes_params(name):
                for k in [k for k in st.heap if k[0] == "attr" and k[1] is x and not k[2].startswith("init:")]:
                    l = mk("late", t, k[2], mk("obj", x))
                    late.append((x, k[2], l))
        self.event("method", node, dict(base=base, name=name, args=args, kw=kw, value=t, late=late), st)
        for x, n, l in late:
            st.heap[("attr", x, n)] = l
        return t

    def listmethod(self, base, name, args, kw, st, node):
        k = ("ref", base)
        c = st.heap[k]
        if isinstance(c, list):
            c = list(c)
            if name == "append" or name == "add":
                c.append(args[0])
                st.heap[k] = c
                return None
            if name == "extend":
                x = self.concrete(args[0], st)
                if x is not None:
                    st.heap[k] = c + x
                    return None
                st.heap[k] = mk("concat", self.freeze(c, st), self.freeze(args[0], st))
                return None
            if name == "reverse":
                st.heap[k] = c[::-1]
                return None
            if name == "insert" and isinstance(args[0], int):
                c.insert(args[0], args[1])
                st.heap[k] = c
                return None
            if name == "pop" and (not args or isinstance(args[0], int)):
                v = c.pop(*args)
                st.heap[k] = c
                return v
            if name == "remove":
                cs = [self.compare("==", x, args[0], st) for x in c]
                for i, q in enumerate(cs):
                    if q is True:
                        st.heap[k] = c[:i] + c[i + 1:]
                        return None
                    if q is not False:
                        break
            if name == "index":
                cs = [self.compare("==", x, args[0], st) for x in c]
                for i, q in enumerate(cs):
                    if q is True:
                        return i
                    if q is not False:
                        break
            if name == "copy":
                return self.new_list(c, st)
            if name == "clear":
                st.heap[k] = []
                return None
        f = [self.freeze(a, st) for a in args]
        t = self.freeze(c, st)
        if name in ("append", "add"):
            st.heap[k] = mk("concat", t, mk("list", f[0]))
        elif name == "extend":
            st.heap[k] = mk("concat", t, f[0])
        elif name == "reverse":
            st.heap[k] = mk("reversed", t)
        elif name == "remove":
            st.heap[k] = mk("lremove", t, f[0])
        elif name == "insert":
            st.heap[k] = mk("linsert", t, *f)
        elif name == "sort":
            st.heap[k] = mk("sorted", t)
        elif name == "clear":
            st.heap[k] = []
        elif name == "pop":
            st.heap[k] = mk("lpop", t, *f)
            return mk("getitem", t, f[0] if f else -1)
        elif name == "copy":
            return self.new_list(t, st)
        else:
            return mk("method", name, t, *f)
        return None

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st):
        """[(kind, state, value)] of executing statements from one state"""
        outs = []
        cur = st
        for i, s in enumerate(stmts):
            try:
                rs = self.stmt(s, cur)
            except Dead:
                rs = [("raise", cur, None)]
            nxt = []
            for r in rs:
                if r[0] == "next":
                    nxt.append(r[1])
                else:
                    outs.append(r)
            if not nxt:
                return outs
            cur = nxt[0]
            if len(nxt) > 1:
                raise Unsupported("internal: two continuations")
        outs.append(("next", cur, None))
        return outs

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("%s at line %d" % (type(s).__name__, s.lineno))
        return m(s, st)

    def s_Pass(self, s, st):
        return [("next", st, None)]

    s_Import = s_Nonlocal = s_Pass

    def s_Global(self, s, st):
        st.frames[-1].globals |= frozenset(s.names)
        return [("next", st, None)]

    def s_Import(self, s, st):
        for a in s.names:
            r = self.P.module(a.name if a.asname else a.name.split(".")[0])
            st.frames[-1].vars[a.asname or a.name.split(".")[0]] = r if r is not None else Ext(a.name if a.asname else a.name.split(".")[0])
        return [("next", st, None)]

    def s_ImportFrom(self, s, st):
        m = self.mod()
        base = s.module or ""
        if s.level:
            parts = m.name.split(".")
            parts = parts[:len(parts) - s.level + (1 if m.pkg else 0)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                continue
            r = self.P.lookup(base, a.name)
            st.frames[-1].vars[a.asname or a.name] = self.value_of(r, st, base, a.name) if r is not None else Ext(base + "." + a.name)
        return [("next", st, None)]

    def s_Assert(self, s, st):
        try:
            n = len(self.events)
            c = self.truth(self.eval(s.test, st), st)
            del self.events[n:]
            if c is False:
                raise Dead()
            if c is not True:
                self.event("assert", s, dict(cond=c), st)
        except Unsupported:
            pass
        return [("next", st, None)]

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("next", st, None)]
        self.eval(s.value, st)
        return [("next", st, None)]

    def s_FunctionDef(self, s, st):
        st.frames[-1].vars[s.name] = FuncVal(self.mod(), s, st.frames[-1])
        return [("next", st, None)]

    def s_ClassDef(self, s, st):
        st.frames[-1].vars[s.name] = self.P.cls(self.mod(), s)
        return [("next", st, None)]

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[-1].vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.freeze(self.index(t.slice, st), st)
                if isinstance(b, Ref) and b.kind in ("dict", "list"):
                    st.heap[("ref", b)] = mk("dpop" if b.kind == "dict" else "lpop", self.freeze(b, st), k)
                elif isinstance(b, T):
                    self.replace(b, mk("dpop", b, k), st)
        return [("next", st, None)]

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value else None
        return [("return", st, v)]

    def s_Raise(self, s, st):
        self.event("raise", s, dict(), st)
        return [("raise", st, None)]

    def s_Break(self, s, st):
        return [("break", st, None)]

    def s_Continue(self, s, st):
        return [("continue", st, None)]

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return [("next", st, None)]

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)
        return [("next", st, None)]

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            f = st.frames[-1]
            if t.id in f.globals:
                return self.setattr(mk("modobj", self.mod().name), t.id, v, st, node)
            f.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st), t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, st), self.index(t.slice, st), v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.concrete(v, st)
            n = len(t.elts)
            if c is not None and len(c) != n:
                raise Unsupported("unpacking")
            for i, x in enumerate(t.elts):
                self.assign(x, c[i] if c is not None else self.part(v, i, st), st, node)
        else:
            raise Unsupported("target")

    def part(self, v, i, st):
        f = self.freeze(v, st)
        if isinstance(f, T) and f.op == "ite":
            a = [self.concrete(x, st) for x in f.args[1:]]
            if all(x is not None and len(x) > i for x in a):
                return self.ite(f.args[0], a[0][i], a[1][i], (st, st))
        return mk("getitem", f, i)

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, st)
            setter = lambda v: self.assign(t, v, st, s)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            old = self.getattr(b, t.attr, st, t)
            setter = lambda v: self.setattr(b, t.attr, v, st, s)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            k = self.index(t.slice, st)
            old = self.getitem(b, k, st)
            setter = lambda v: self.setitem(b, k, v, st, s)
        else:
            raise Unsupported("target")
        val = self.eval(s.value, st)
        if isinstance(old, Ref) and old.kind == "list" and isinstance(s.op, ast.Add):
            self.listmethod(old, "extend", [val], {}, st, s)
            return [("next", st, None)]
        setter(self.binop(type(s.op), old, val, st, s))
        return [("next", st, None)]

    def s_If(self, s, st):
        c = self.truth(self.eval(s.test, st), st)
        if isinstance(c, bool):
            return self.block(s.body if c else s.orelse, st)
        if self.known(c, st.pc) is not None:
            return self.block(s.body if self.known(c, st.pc) else s.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + (c,)
        s2.pc = st.pc + (negate(c),)
        o1 = self.block(s.body, s1)
        o2 = self.block(s.orelse, s2) if s.orelse else [("next", s2, None)]
        n1 = [r for r in o1 if r[0] == "next"]
        n2 = [r for r in o2 if r[0] == "next"]
        rest = [r for r in o1 + o2 if r[0] != "next"]
        if n1 and n2:
            m = self.merge(c, n1[0][1], n2[0][1])
            extra = [q for q in n1[0][1].pc[len(st.pc) + 1:] + n2[0][1].pc[len(st.pc) + 1:]]
            m.pc = st.pc
            return rest + [("next", m, None)]
        if n1 or n2:
            return rest + [(n1 or n2)[0]]
        return rest

    def known(self, c, pc):
        for q in pc:
            if q is c:
                return True
            if q is negate(c):
                return False
        return None

    def s_Try(self, s, st):
        self.intry += 1
        try:
            outs = self.block(s.body, st.copy())
        finally:
            self.intry -= 1
        if all(r[0] == "raise" for r in outs) and s.handlers:
            outs = self.block(s.handlers[0].body, st)
        outs = [r for r in outs if r[0] != "raise"] or outs
        res = []
        for r in outs:
            if r[0] == "next" and (s.orelse or s.finalbody):
                res += self.block(s.orelse + s.finalbody, r[1])
            else:
                res.append(r)
        return res

    def s_With(self, s, st):
        for i in s.items:
            v = self.eval(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        return self.block(s.body, st)

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st):
        coll = self.eval(s.iter, st)
        items = self.concrete(coll, st)
        ref = coll if isinstance(coll, Ref) and coll.kind == "list" else None
        if items is not None and len(items) <= 40 and not (ref is not None and self.grows(s)):
            return self.unroll(s, items, st)
        if isinstance(coll, Ref) and coll.kind == "dict":
            coll = mk("dkeys", self.freeze(coll, st))
        coll = self.freeze(coll, st)
        if isinstance(coll, T) and coll.op == "concat":
            # items known in front or at the end are still treated generically
            pass
        return self.loop(s, coll, st, ref)

    def grows(self, s):
        """does the loop change the list it runs over (by name)?"""
        if not isinstance(s.iter, ast.Name):
            return False
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == s.iter.id and n.attr in ("append", "extend", "insert", "pop", "remove", "clear"):
                return True
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == s.iter.id:
                return True
        return False

    def unroll(self, s, items, st):
        outs = []
        cur = st
        for x in items:
            self.assign(s.target, x, cur, s)
            rs = self.block(s.body, cur)
            nxt, brk = [], []
            for r in rs:
                if r[0] in ("next", "continue"):
                    nxt.append(r[1])
                elif r[0] == "break":
                    brk.append(r[1])
                else:
                    outs.append(r)
            if brk and nxt or len(brk) > 1:
                # the rest of the rounds only where the loop was not left
                if len(brk) > 1:
                    raise Unsupported("several breaks")
                n = self.join(nxt, cur.pc)
                c = conj(brk[0].pc[len(st.pc):])
                restouts = self.unroll_rest(s, items, items.index(x) + 1 if False else None, n)
                raise Unsupported("break in an unrolled loop")
            if brk:
                return outs + [("next", brk[0], None)]
            if not nxt:
                return outs
            cur = self.join(nxt, None)
        if s.orelse:
            return outs + self.block(s.orelse, cur)
        return outs + [("next", cur, None)]

    def join(self, sts, pc):
        s = sts[-1]
        for t in reversed(sts[:-1]):
            n = 0
            while n < min(len(s.pc), len(t.pc)) and s.pc[n] is t.pc[n]:
                n += 1
            c = conj(t.pc[n:])
            p = s.pc[:n]
            s = self.merge(c, t, s)
            s.pc = p
        return s

    def s_While(self, s, st):
        return self.loop(s, None, st)

    def loop(self, s, coll, st, ref=None):
        fold = Fold()
        fold.line, fold.mod, fold.node = s.lineno, self.mod(), s
        names = []
        for n in ast.walk(ast.Module(body=s.body + ([] if coll is not None else []), type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in names:
                names.append(n.id)
            if isinstance(n, ast.NamedExpr) and n.target.id not in names:
                names.append(n.target.id)
        tnames = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)] if coll is not None else []
        fr = st.frames[-1]
        nev, nlo, nwr = len(self.events), len(self.loops), len(self.writes)
        self.norder += 1
        order = self.norder
        written = []
        carried, dropped = set(), set()
        half = self.half
        for attempt in range(8):
            self.half = set()
            del self.events[nev:], self.loops[nlo:], self.writes[nwr:]
            b = st.copy()
            b.pc = st.pc
            keys = []
            for n in names:
                if n in tnames:
                    continue
                v = fr.vars.get(n, UNDEF)
                if v is UNDEF and n not in carried:
                    b.frames[-1].vars.pop(n, None)
                    continue
                ph = mk("phi", fold.id, "var", n)
                if isinstance(v, Ref) and v.kind == "list" or isinstance(v, (FuncVal, ClassVal, Module, Ext)):
                    # rebinding of containers: keep the reference, unless it is really rebound
                    pass
                b.frames[-1].vars[n] = ph
                keys.append(("var", n))
            for k in written:
                b.heap[k] = mk("phi", fold.id, "heap", hkey(k))
                keys.append(k)
            # values changed in place through other names
            self.loopstack.append(fold)
            try:
                if coll is not None:
                    el = self.element(fold.id, coll, b)
                    self.assign(s.target, el, b, s)
                    cond = None
                else:
                    cond = self.truth(self.eval(s.test, b), b)
                before = b.copy()
                outs = self.block(s.body, b.copy())
            finally:
                self.loopstack.pop()
            new = []
            more = []
            for kind, o, v in outs:
                if kind == "raise":
                    continue
                for n, v in o.frames[-1].vars.items():
                    # changed in place
                    if n not in names and n in before.frames[-1].vars and before.frames[-1].vars[n] is not v and n not in more:
                        more.append(n)
                for k, v in o.heap.items():
                    if k in before.heap and before.heap[k] is v:
                        continue
                    if k in written or k in new:
                        continue
                    if fold.id in frees(k[1]) or k[0] == "ref" and k not in st.heap:
                        continue
                    if isinstance(k[1], Ref) and k not in st.heap and k[1].kind == "obj" and not any(kk[1] is k[1] for kk in st.heap):
                        continue
                    if k[0] == "attr" and isinstance(k[1], T) and any(r.kind == "obj" and not any(kk[1] is r for kk in st.heap) for r in refsin(k[1])):
                        # of an object that every round makes anew
                        continue
                    if k[0] == "attr" and isinstance(k[1], T) and any(x in self.innerids(nlo) for x in k[1].free):
                        continue
                    new.append(k)
                for f1, f2 in zip(o.frames[:-1], before.frames[:-1]):
                    for n, v in f1.vars.items():
                        if f2.vars.get(n) is not v:
                            k = ("outer", before.frames.index(f2), n)
                            if k not in written and k not in new:
                                raise Unsupported("loop changes a variable of the caller")
            # assigned in some rounds only: the value of an earlier round stays
            kept = {n for d, n in self.half if d == len(st.frames) - 1 and n in names and n not in tnames and fr.vars.get(n, UNDEF) is UNDEF} - carried
            ends = [o for kind, o, v in outs if kind in ("next", "continue", "break")]
            for n in names:
                if n not in tnames and fr.vars.get(n, UNDEF) is UNDEF and n not in carried and len({n in o.frames[-1].vars for o in ends}) > 1:
                    kept.add(n)
            half |= self.half
            self.half = half
            if not new and not more and not kept:
                # places that the first look at the body took for written: they were found through values that change in the loop
                stale = [k for k in written if k[0] == "attr" and isinstance(k[1], T) and k not in dropped
                         and all(o.heap.get(k) is before.heap.get(k) for kind, o, v in outs if kind != "raise")]
                if not stale:
                    break
                dropped |= set(stale)
                written = [k for k in written if k not in dropped]
                continue
            carried |= kept
            written += new
            names += more
        else:
            raise Unsupported("loop state does not settle")
        info = LoopInfo()
        info.fold, info.coll, info.elem = fold, coll, (self.element(fold.id, coll, st) if coll is not None else None)
        info.node, info.mod, info.func, info.pc = s, self.mod(), self.stack[-1], st.pc
        info.entry, info.order = dict(st.heap), order
        info.before, info.outs = before, outs
        info.loops = tuple(self.loopstack)
        npc = len(before.pc)
        nxt = [(o.pc[npc:], o) for kind, o, v in outs if kind in ("next", "continue")]
        brk = [(o.pc[npc:], o) for kind, o, v in outs if kind == "break"]
        ret = [(o.pc[npc:], o, v) for kind, o, v in outs if kind == "return"]
        alln = nxt + brk + [(c, o) for c, o, v in ret]
        if not alln:
            raise Dead()
        # one state at the end of a round
        c, e = alln[-1]
        for c2, o2 in reversed(alln[:-1]):
            e = self.merge(conj(c2), o2, e)
        stop = False
        for c2, o2 in brk + [(c, o) for c, o, v in ret]:
            stop = mk("or", stop, conj(c2)) if stop is not False else conj(c2)
        allnames = [("var", n) for n in names if n not in tnames] + [("var", n) for n in tnames] + [k for k in written]
        fold.coll, fold.cond, fold.stop = coll, cond, stop
        fold.keys = allnames
        if ref is not None and ("ref", ref) in allnames:
            # the list grows while the loop runs over it
            fold.grow = allnames.index(("ref", ref))
        fold.init, fold.step = [], []
        for k in allnames:
            if k[0] == "var":
                i0 = fr.vars.get(k[1], UNDEF)
                v = e.frames[-1].vars.get(k[1], UNDEF)
                fold.init.append(self.freeze(i0, st) if i0 is not UNDEF else UNDEF)
                fold.step.append(self.freeze(v, e) if v is not UNDEF else UNDEF)
            else:
                i0 = st.heap.get(k, self.initial(k) if k[0] == "attr" else UNDEF)
                fold.init.append(self.freeze(i0, st))
                fold.step.append(self.freeze(e.heap[k], e))
        if ret:
            fold.keys = fold.keys + [("ret",), ("retv",)]
            fold.init += [False, None]
            rc = False
            rv = None
            for c2, o2, v in reversed(ret):
                rc = mk("or", conj(c2), rc) if rc is not False else conj(c2)
                rv = self.ite(conj(c2), v, rv, (o2, o2)) if rv is not None else self.freeze(v, o2)
            fold.step += [rc, rv]
        fold.finish()
        info.end = e
        self.loops.append(info)
        out = st
        for i, k in enumerate(fold.keys):
            if fold.step[i] is UNDEF:
                continue
            r = mk("foldres", fold, i)
            if k[0] == "var":
                old = fr.vars.get(k[1], UNDEF)
                if isinstance(old, Ref) and old.kind in ("list", "dict", "matrix", "obj") and fold.step[i] is mk("phi", fold.id, "var", k[1]):
                    continue
                out.frames[-1].vars[k[1]] = r
            elif k[0] in ("ret", "retv"):
                continue
            else:
                out.heap[k] = r
        # objects made in the loop are gone; attribute writes on elements stay visible in the loop information only
        res = []
        if ret:
            i = fold.keys.index(("ret",))
            c = mk("truth", mk("foldres", fold, i))
            r1 = out.copy()
            r1.pc = out.pc + (c,)
            res.append(("return", r1, mk("foldres", fold, i + 1)))
            out.pc = out.pc + (negate(c),)
        if s.orelse and brk:
            raise Unsupported("loop else")
        if getattr(s, "orelse", None):
            return res + self.block(s.orelse, out)
        return res + [("next", out, None)]

    def innerids(self, nlo):
        return set(i.fold.id for i in self.loops[nlo:])

    # ---------------------------------------------------------------- entry
    def run(self, func, args=None, kw=None, st=None):
        """interpret a function; returns (value, state)"""
        st = st or State()
        if not st.frames:
            st.frames.append(Frame(func))
        v = self.inline(func, args or [], kw or {}, st, func.node)
        return v, st


class Stars(Unsupported):
    pass


class SuperVal:
    def __init__(self, cls, this):
        self.cls, self.this = cls, this


class MapBody:
    """list comprehension over an unknown collection"""
    def __init__(self, id, coll, cond, value):
        self.id, self.coll, self.cond, self.value = id, coll, cond, value
        self.free = (frees(coll) | frees(cond) | frees(value)) - frozenset([id])


class Dead(Exception):
    """this path raises"""


def conj(cs):
    cs = [c for c in cs if c is not True]
    if not cs:
        return True
    return cs[0] if len(cs) == 1 else mk("and", *cs)


def hkey(k):
    return tuple(x if isinstance(x, (str, T, int)) else repr(x) for x in k)
