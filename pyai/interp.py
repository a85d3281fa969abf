"""Abstract interpreter over Python syntax trees.

Flow- and context-sensitive forward analysis with trace partitioning.  The abstract
state is (heap, numeric constraints, predicate facts).  A statement maps a state to a set
of (state, outcome) pairs; partitions are joined again whenever the join is exact.
Nothing of the analysed program is executed or imported: the interpreter reads source
text only.
"""
import ast
import importlib.util
import os
import re
import sys
import time
from fractions import Fraction

from .num import (ALL, F1, atom, integral, normal, padd, patom, pconst, pmul, pneg, pscale,
                  psub, subst, witness, base_atoms, ev_poly, feasible, PZERO)
from . import num as N
from . import strs as S
from .strs import Str, Tok
from .values import *
from .values import sign_bool

STDLIB = os.path.dirname(os.__file__)
NATIVE = (type(None), bool, int, float, str, bytes, type(Ellipsis), type(NotImplemented), range, complex)

EQ0 = frozenset((0,))
NE0 = frozenset((-1, 1))
GT0 = frozenset((1,))
GE0 = frozenset((0, 1))
LT0 = frozenset((-1,))
LE0 = frozenset((-1, 0))


class GenExit(Abrupt):
    __slots__ = ("sig",)

    def __init__(self, sig):
        self.sig = sig


class Cx:
    """Static context of evaluation: scope, module, yield handler"""
    __slots__ = ("env", "mod", "file", "func", "info", "yh")

    def __init__(self, env, mod, file, func, info=None, yh=None):
        self.env, self.mod, self.file, self.func, self.info, self.yh = env, mod, file, func, info, yh

    def with_env(self, env):
        return Cx(env, self.mod, self.file, self.func, self.info, self.yh)


class FnInfo:
    __slots__ = ("locals", "nested", "gen", "params", "globals", "nonlocals", "pos", "kwonly", "vararg", "kwarg", "posonly")


_info = {}


def fninfo(node):
    i = _info.get(node)
    if i is not None:
        return i
    i = FnInfo()
    a = node.args
    i.posonly = [x.arg for x in a.posonlyargs]
    i.pos = i.posonly + [x.arg for x in a.args]
    i.kwonly = [x.arg for x in a.kwonlyargs]
    i.vararg = a.vararg.arg if a.vararg else None
    i.kwarg = a.kwarg.arg if a.kwarg else None
    loc = set(i.pos) | set(i.kwonly)
    if i.vararg:
        loc.add(i.vararg)
    if i.kwarg:
        loc.add(i.kwarg)
    i.globals, i.nonlocals = set(), set()
    i.nested = False
    i.gen = False
    body = node.body if isinstance(node.body, list) else [node.body]
    loc |= scan(body, i)
    loc -= i.globals | i.nonlocals
    i.locals = loc
    _info[node] = i
    return i


def scan(body, i):
    loc = set()

    def target(n):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                loc.add(x.id)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            loc.add(n.name)
            i.nested = True
            for d in n.decorator_list:
                walk(d)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                walk(d)
            return
        if isinstance(n, ast.ClassDef):
            loc.add(n.name)
            i.nested = True
            for b in n.bases + n.decorator_list:
                walk(b)
            return
        if isinstance(n, ast.Lambda):
            i.nested = True
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            i.nested = True
            walk(n.generators[0].iter)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    loc.add(x.target.id)
            return
        if isinstance(n, ast.Global):
            i.globals.update(n.names)
            return
        if isinstance(n, ast.Nonlocal):
            i.nonlocals.update(n.names)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            i.gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in body:
        walk(s)
    return loc


class Interp:
    def __init__(self, roots, shims, harness_dir=None, seed=1):
        """roots: {package: directory}"""
        from . import builtins as B
        self.B = B
        self.roots = roots
        self.shims = shims
        self.base = {}
        self.modules = {}          # name -> Ref, created lazily
        self.steps = 0
        self.max_steps = 80_000_000
        self.deadline = float("inf")
        self.stack = []
        self.files = {}            # file -> True (consulted)
        self.functions = set()     # (file, qual) analysed
        self.callsites = set()
        self.obls = {}
        self.events = {}
        self.frozen = 0
        self.stucks = {}
        self.soft = []             # statements of modules that are not modelled
        self.tainted = None        # ... one of them with unknown effects
        self.merges = 0
        self.splits = 0
        self.fresh_n = 0
        self.lits = {}
        self.seed = seed
        self.choice_log = {}
        self.exc_sites = {}
        self.in_harness = 0
        self.st = State(self.base)
        self.st.nxt = 1
        self.bns = B.namespace(self)
        self.set_rev = False

    # ------------------------------------------------------------------ utils
    def site(self, node, cx):
        return (rel(cx.file), getattr(node, "lineno", 0), cx.func)

    def err(self, st, name, msg, node, cx):
        """Raise a builtin exception"""
        cls = self.B.EXC[name]
        ref = st.new(Obj(cls, {"args": Tup((msg,) if msg is not None else ())}))
        return [(st, Raise(ref, self.where(node, cx)))]

    def where(self, node, cx):
        return (self.site(node, cx), tuple(self.stack[-12:]))

    def unsupported(self, st, why, node, cx):
        return [(st, Stuck(why, self.site(node, cx)))]

    # ------------------------------------------------------------------ modules
    def find_module(self, name):
        for root, d in self.roots.items():
            if name == root or name.startswith(root + "."):
                tail = name[len(root):].strip(".").split(".") if name != root else []
                p = os.path.join(d, *tail)
                for cand, pkg in ((os.path.join(p, "__init__.py"), True), (p + ".py", False)):
                    if os.path.isfile(cand):
                        return cand, pkg
        if self.shims:
            cand = os.path.join(self.shims, name.replace(".", "_") + ".py")
            if os.path.isfile(cand):
                return cand, False
            if name in ("colorsys", "bisect", "heapq", "textwrap", "keyword", "reprlib", "graphlib"):
                cand = os.path.join(STDLIB, name + ".py")
                if os.path.isfile(cand):
                    return cand, False
        return None, None

    def load(self, st, name, node=None, cx=None):
        """results of importing a module: [(st, Ref|Abrupt)]"""
        r = self.modules.get(name)
        if r is not None:
            h = st.get(r)
            if isinstance(h, ModO) and h.name == name:
                return [(st, r)]
        file, pkg = self.find_module(name)
        if file is None:
            m = self.B.stdlib_module(self, st, name)
            if m is not None:
                self.modules[name] = m
                return [(st, m)]
            if cx is None:
                raise Unsupported("no module " + name)
            if importlib.util.find_spec(name.split(".")[0]) is None and not os.path.isdir(os.path.join(os.path.dirname(os.path.dirname(cx.file)), name.split(".")[0])):
                return self.err(st, "ModuleNotFoundError", "No module named '%s'" % name, node, cx)
            return self.unsupported(st, "import of " + name, node, cx)
        # parent package first
        if "." in name:
            parent = name.rsplit(".", 1)[0]
            if parent in self.roots or any(parent.startswith(r + ".") for r in self.roots):
                out = []
                for st, p in self.load(st, parent, node, cx):
                    if isinstance(p, Abrupt):
                        out.append((st, p))
                    else:
                        out.extend(self.load1(st, name, file, pkg))
                return out
        return self.load1(st, name, file, pkg)

    def load1(self, st, name, file, pkg):
        r = self.modules.get(name)
        if r is not None:
            h = st.get(r)
            if isinstance(h, ModO) and h.name == name:
                return [(st, r)]
        with open(file, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, file)
        self.files[file] = src
        # one literal object per module and value; identifiers are interned
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                if n.value.isidentifier():
                    n.value = sys.intern(n.value)
                else:
                    n.value = self.lits.setdefault((file, n.value), n.value)
        ref = st.new(ModO(name, {"__name__": name, "__file__": file, "__doc__": None,
                                 "__package__": name if pkg else name.rpartition(".")[0]}, file))
        self.modules[name] = ref
        cx = Cx(None, ref, file, "<module>")
        outs = self.block(tree.body, st, cx)
        res = []
        for st, o in outs:
            if o is None:
                if "." in name:
                    parent, _, leaf = name.rpartition(".")
                    pr = self.modules.get(parent)
                    if pr is not None and st.get(pr) is not None:
                        st.mut(pr).ns[leaf] = ref
                res.append((st, ref))
            elif isinstance(o, Abrupt):
                res.append((st, o))
        return res

    def freeze(self, st):
        """The state after import becomes the base heap"""
        self.base.update(st.ov)
        for o in self.base.values():
            o.own = None
        st.ov = {}
        self.frozen = st.nxt

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, cx):
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for st in cur:
                for r in self.ex(s, st, cx):
                    if r[1] is None:
                        nxt.append(r[0])
                    else:
                        outs.append(r)
            cur = nxt
            if not cur:
                return outs
        if not outs and len(cur) == 1:
            return [(cur[0], None)]
        outs.extend((s, None) for s in cur)
        return outs

    def ex(self, s, st, cx):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget")
        if not self.steps & 0x1FF and time.time() > self.deadline:
            raise Budget("time budget")
        try:
            res = getattr(self, "ex_" + type(s).__name__)(s, st, cx)
        except Unsupported as e:
            res = self.unsupported(st, str(e), s, cx)
        if cx.info is None and (cx.env is None or cx.func == "<module>"):
            return self.tolerate(s, res, cx)
        return res

    def tolerate(self, s, res, cx):
        """a statement of a module that is not modelled: the names it defines are unknown"""
        if not any(isinstance(o, Stuck) for _, o in res):
            return res
        out = []
        for st, o in res:
            if not isinstance(o, Stuck):
                out.append((st, o))
                continue
            simple = isinstance(s, (ast.Import, ast.ImportFrom, ast.ClassDef, ast.FunctionDef)) or (
                isinstance(s, (ast.Assign, ast.AnnAssign)) and all(
                    isinstance(x, (ast.Name, ast.Tuple)) for x in (s.targets if isinstance(s, ast.Assign) else [s.target])))
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and any("register" in ast.dump(d) for d in s.decorator_list):
                simple = False
            self.soft.append("%s at %s:%s%s" % (o.why, o.site[0], o.site[1], "" if simple else " (effects unknown)"))
            if not simple:
                self.tainted = self.soft[-1]
            i = FnInfo()
            i.globals, i.nonlocals = set(), set()
            for n in scan([s], i):
                self.store_name(n, Unk("%s: %s" % (n, o.why)), st, cx)
            if isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names):
                self.tainted = self.soft[-1]
            out.append((st, None))
        return out

    def ex_Expr(self, s, st, cx):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(st, v if isinstance(v, Abrupt) else None) for st, v in self.ev(s.value, st, cx)]

    def ex_Pass(self, s, st, cx):
        return [(st, None)]

    def ex_Break(self, s, st, cx):
        return [(st, BRK)]

    def ex_Continue(self, s, st, cx):
        return [(st, CNT)]

    def ex_Global(self, s, st, cx):
        return [(st, None)]

    ex_Nonlocal = ex_Global

    def ex_Return(self, s, st, cx):
        if s.value is None:
            return [(st, Ret(None))]
        return [(st, v if isinstance(v, Abrupt) else Ret(v)) for st, v in self.ev(s.value, st, cx)]

    def ex_Assign(self, s, st, cx):
        out = []
        for st, v in self.ev(s.value, st, cx):
            if isinstance(v, Abrupt):
                out.append((st, v))
                continue
            cur = [(st, None)]
            for t in s.targets:
                nxt = []
                for st, o in cur:
                    if o is not None:
                        nxt.append((st, o))
                    else:
                        nxt.extend(self.assign(t, v, st, cx))
                cur = nxt
            out.extend(cur)
        return out

    def ex_AnnAssign(self, s, st, cx):
        if s.value is None:
            res = [(st, None)]
        else:
            res = []
            for st, v in self.ev(s.value, st, cx):
                if isinstance(v, Abrupt):
                    res.append((st, v))
                else:
                    res.extend(self.assign(s.target, v, st, cx))
        if cx.env is not None and isinstance(s.target, ast.Name):
            for st, o in res:
                if o is None:
                    e = st.get(cx.env)
                    if e.kind == "class":
                        e = st.mut(cx.env)
                        a = e.vars.get("__annotations__")
                        if a is None:
                            a = st.new(Obj(self.B.dict_, pk="dict", pv={}))
                            e.vars["__annotations__"] = a
                        o2 = st.mut(a)
                        o2.pv = dict(o2.pv)
                        o2.pv[("c", s.target.id)] = (s.target.id, None)
        return res

    def ex_AugAssign(self, s, st, cx):
        t = s.target
        out = []
        if isinstance(t, ast.Name):
            for st, a in self.ev_name(t.id, st, cx, t):
                if isinstance(a, Abrupt):
                    out.append((st, a))
                    continue
                for st, b in self.ev(s.value, st, cx):
                    if isinstance(b, Abrupt):
                        out.append((st, b))
                        continue
                    for st, v in self.inplace(st, s.op, a, b, cx, s):
                        if isinstance(v, Abrupt):
                            out.append((st, v))
                        else:
                            out.extend(self.assign(t, v, st, cx))
        elif isinstance(t, ast.Attribute):
            for st, o in self.ev(t.value, st, cx):
                if isinstance(o, Abrupt):
                    out.append((st, o))
                    continue
                for st, a in self.getattr_(st, o, mangle(t.attr, cx), cx, t):
                    if isinstance(a, Abrupt):
                        out.append((st, a))
                        continue
                    for st, b in self.ev(s.value, st, cx):
                        if isinstance(b, Abrupt):
                            out.append((st, b))
                            continue
                        for st, v in self.inplace(st, s.op, a, b, cx, s):
                            if isinstance(v, Abrupt):
                                out.append((st, v))
                            else:
                                out.extend(self.setattr_(st, o, mangle(t.attr, cx), v, cx, s))
        elif isinstance(t, ast.Subscript):
            for st, vs in self.ev_list([t.value, t.slice], st, cx):
                if isinstance(vs, Abrupt):
                    out.append((st, vs))
                    continue
                o, k = vs
                for st, a in self.getitem(st, o, k, cx, t):
                    if isinstance(a, Abrupt):
                        out.append((st, a))
                        continue
                    for st, b in self.ev(s.value, st, cx):
                        if isinstance(b, Abrupt):
                            out.append((st, b))
                            continue
                        for st, v in self.inplace(st, s.op, a, b, cx, s):
                            if isinstance(v, Abrupt):
                                out.append((st, v))
                            else:
                                out.extend(self.setitem(st, o, k, v, cx, s))
        return out

    INPLACE = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "BitOr": "__ior__", "BitAnd": "__iand__",
               "Div": "__itruediv__", "FloorDiv": "__ifloordiv__", "Mod": "__imod__", "Pow": "__ipow__", "BitXor": "__ixor__",
               "LShift": "__ilshift__", "RShift": "__irshift__", "MatMult": "__imatmul__"}

    def inplace(self, st, op, a, b, cx, node):
        if isinstance(a, Ref):
            o = st.get(a)
            if isinstance(o, Obj):
                name = self.INPLACE[type(op).__name__]
                f = self.class_lookup(st, o.cls, name)
                if f is not None:
                    out = []
                    for st, r in self.call(st, self.bind(st, f, a, o.cls), [b], {}, cx, node):
                        if r is NotImplemented:
                            out.extend(self.binop(st, op, a, b, cx, node))
                        else:
                            out.append((st, r))
                    return out
        return self.binop(st, op, a, b, cx, node)

    def assign(self, t, v, st, cx):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, cx)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            out = []
            for st, o in self.ev(t.value, st, cx):
                if isinstance(o, Abrupt):
                    out.append((st, o))
                else:
                    out.extend(self.setattr_(st, o, mangle(t.attr, cx), v, cx, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for st, vs in self.ev_list([t.value, t.slice], st, cx):
                if isinstance(vs, Abrupt):
                    out.append((st, vs))
                else:
                    out.extend(self.setitem(st, vs[0], vs[1], v, cx, t))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for st, items in self.to_list(st, v, cx, t):
                if isinstance(items, Abrupt):
                    out.append((st, items))
                    continue
                star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
                if star:
                    i = star[0]
                    after = len(t.elts) - i - 1
                    if len(items) < len(t.elts) - 1:
                        out.extend((s, o) for s, o in self.err(st, "ValueError", "not enough values to unpack", t, cx))
                        continue
                    mid = items[i:len(items) - after]
                    items = items[:i] + [st.new(Obj(self.B.list_, pk="list", pv=tuple(mid)))] + items[len(items) - after:]
                    targets = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
                else:
                    targets = t.elts
                if len(items) != len(targets):
                    out.extend(self.err(st, "ValueError", "wrong number of values to unpack", t, cx))
                    continue
                cur = [(st, None)]
                for tt, x in zip(targets, items):
                    nxt = []
                    for st, o in cur:
                        if o is not None:
                            nxt.append((st, o))
                        else:
                            nxt.extend(self.assign(tt, x, st, cx))
                    cur = nxt
                out.extend(cur)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, cx)
        return self.unsupported(st, "assignment target", t, cx)

    def store_name(self, name, v, st, cx):
        if cx.env is None:
            self.note_write(st, cx.mod, name, cx, None)
            st.mut(cx.mod).ns[name] = v
            return
        info = cx.info
        if info is not None:
            if name in info.globals:
                self.note_write(st, cx.mod, name, cx, None)
                st.mut(cx.mod).ns[name] = v
                return
            if name in info.nonlocals:
                env = st.get(cx.env).parent
                while env is not None:
                    e = st.get(env)
                    if name in e.vars or name in e.locals:
                        self.note_write(st, env, name, cx, None)
                        st.mut(env).vars[name] = v
                        return
                    env = e.parent
        env = cx.env
        e = st.get(env)
        while e.kind == "comp" and name not in e.locals:
            # walrus in a comprehension binds in the enclosing function
            if e.parent is None:
                st.mut(cx.mod).ns[name] = v
                return
            env = e.parent
            e = st.get(env)
        st.mut(env).vars[name] = v

    def ex_Delete(self, s, st, cx):
        cur = [(st, None)]
        for t in s.targets:
            nxt = []
            for st, o in cur:
                if o is not None:
                    nxt.append((st, o))
                    continue
                nxt.extend(self.delete(t, st, cx))
            cur = nxt
        return cur

    def delete(self, t, st, cx):
        if isinstance(t, ast.Name):
            if cx.env is None:
                ns = st.mut(cx.mod).ns
            else:
                ns = st.mut(cx.env).vars
            if t.id in ns:
                del ns[t.id]
                return [(st, None)]
            return self.err(st, "NameError", t.id, t, cx)
        if isinstance(t, ast.Attribute):
            out = []
            for st, o in self.ev(t.value, st, cx):
                if isinstance(o, Abrupt):
                    out.append((st, o))
                else:
                    out.extend(self.delattr_(st, o, mangle(t.attr, cx), cx, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for st, vs in self.ev_list([t.value, t.slice], st, cx):
                if isinstance(vs, Abrupt):
                    out.append((st, vs))
                else:
                    out.extend(self.delitem(st, vs[0], vs[1], cx, t))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [(st, None)]
            for x in t.elts:
                nxt = []
                for st, o in cur:
                    nxt.extend([(st, o)] if o is not None else self.delete(x, st, cx))
                cur = nxt
            return cur
        return self.unsupported(st, "delete target", t, cx)

    def ex_If(self, s, st, cx):
        mark = st.nxt
        res = []
        n = 0
        for st, c in self.cond(s.test, st, cx):
            n += 1
            if isinstance(c, Abrupt):
                res.append((st, c))
            elif c:
                res.extend(self.block(s.body, st, cx))
            elif s.orelse:
                res.extend(self.block(s.orelse, st, cx))
            else:
                res.append((st, None))
        if len(res) > 1:
            res = self.merge(res, mark)
        return res

    def ex_Assert(self, s, st, cx):
        out = []
        for st, c in self.cond(s.test, st, cx):
            if isinstance(c, Abrupt):
                out.append((st, c))
            elif c:
                out.append((st, None))
            elif s.msg is None:
                out.extend(self.err(st, "AssertionError", None, s, cx))
            else:
                for st, v in self.ev(s.msg, st, cx):
                    out.extend([(st, v)] if isinstance(v, Abrupt) else self.err(st, "AssertionError", v, s, cx))
        return out

    def ex_Raise(self, s, st, cx):
        if s.exc is None:
            cur = st.preds.get("__exc__")
            if cur is None:
                # re-raise: find the handled exception in the environment
                v = self.handled(st, cx)
                if v is None:
                    return self.err(st, "RuntimeError", "No active exception to reraise", s, cx)
                return [(st, Raise(v, self.exc_sites.get(v) or self.where(s, cx)))]
        out = []
        exprs = [s.exc] + ([s.cause] if s.cause else [])
        for st, vs in self.ev_list(exprs, st, cx):
            if isinstance(vs, Abrupt):
                out.append((st, vs))
                continue
            v = vs[0]
            if isinstance(v, (BCls,)) or (isinstance(v, Ref) and isinstance(st.get(v), ClsO)):
                for st, x in self.call(st, v, [], {}, cx, s):
                    if not isinstance(x, Abrupt) and len(vs) > 1:
                        st.mut(x).attrs["__cause__"] = vs[1]
                    out.append((st, x if isinstance(x, Abrupt) else Raise(x, self.where(s, cx))))
            elif isinstance(v, Ref) and isinstance(st.get(v), Obj) and self.is_exc(st, v):
                if len(vs) > 1:
                    st.mut(v).attrs["__cause__"] = vs[1]
                out.append((st, Raise(v, self.where(s, cx))))
            else:
                out.extend(self.err(st, "TypeError", "exceptions must derive from BaseException", s, cx))
        return out

    def is_exc(self, st, v):
        return self.B.EXC["BaseException"] in self.mro_of(st, st.get(v).cls)

    def handled(self, st, cx):
        env = cx.env
        while env is not None:
            e = st.get(env)
            if "$exc" in e.vars and e.vars["$exc"] is not None:
                return e.vars["$exc"]
            env = e.parent
        return None

    def ex_Try(self, s, st, cx):
        mark = st.nxt
        res = []
        for st, o in self.block(s.body, st, cx):
            if isinstance(o, Raise) and s.handlers:
                res.extend(self.handle(s.handlers, st, o, cx))
            elif o is None and s.orelse:
                res.extend(self.block(s.orelse, st, cx))
            else:
                res.append((st, o))
        if s.finalbody:
            out = []
            for st, o in res:
                if isinstance(o, Stuck):
                    out.append((st, o))
                    continue
                for st, o2 in self.block(s.finalbody, st, cx):
                    out.append((st, o if o2 is None else o2))
            res = out
        if len(res) > 1:
            res = self.merge(res, mark)
        return res

    def handle(self, handlers, st, o, cx):
        """dispatch an exception to the except clauses"""
        for i, h in enumerate(handlers):
            if h.type is None:
                return self.run_handler(h, st, o, cx)
            out = []
            later = []
            for st, t in self.ev(h.type, st, cx):
                if isinstance(t, Abrupt):
                    out.append((st, t))
                    continue
                m = self.exc_match(st, o.exc, t)
                if m is None:
                    out.extend(self.unsupported(st, "except clause", h, cx))
                elif m:
                    out.extend(self.run_handler(h, st, o, cx))
                else:
                    later.append(st)
            if not later:
                return out
            if out:
                for st in later:
                    out.extend(self.handle(handlers[i + 1:], st, o, cx))
                return out
            st = later[0]
            if len(later) > 1:
                for x in later:
                    out.extend(self.handle(handlers[i + 1:], x, o, cx))
                return out
        return [(st, o)]

    def exc_match(self, st, exc, t):
        mro = self.mro_of(st, st.get(exc).cls)
        if isinstance(t, Tup):
            r = False
            for x in t.items:
                m = self.exc_match(st, exc, x)
                if m is None:
                    return None
                r = r or m
            return r
        if isinstance(t, (BCls, Ref)):
            return t in mro
        return None

    def run_handler(self, h, st, o, cx):
        self.exc_sites[o.exc] = o.site
        prev = None
        if cx.env is not None:
            prev = st.get(cx.env).vars.get("$exc")
            st.mut(cx.env).vars["$exc"] = o.exc
        if h.name:
            self.store_name(h.name, o.exc, st, cx)
        out = []
        for st, r in self.block(h.body, st, cx):
            if cx.env is not None:
                st.mut(cx.env).vars["$exc"] = prev
            if h.name:
                if cx.env is not None:
                    st.mut(cx.env).vars.pop(h.name, None)
                else:
                    st.mut(cx.mod).ns.pop(h.name, None)
            if isinstance(r, Raise):
                pass
            out.append((st, r))
        return out

    def ex_With(self, s, st, cx):
        return self.with_items(s.items, s.body, st, cx)

    def with_items(self, items, body, st, cx):
        if not items:
            return self.block(body, st, cx)
        it = items[0]
        out = []
        for st, m in self.ev(it.context_expr, st, cx):
            if isinstance(m, Abrupt):
                out.append((st, m))
                continue
            # generator based context manager (contextlib.contextmanager)
            o = st.get(m) if isinstance(m, Ref) else None
            if isinstance(o, Obj) and "_gcm_gen" in o.attrs:
                g = st.get(o.attrs["_gcm_gen"])

                def handler(st2, v):
                    res = []
                    r0 = [(st2, None)] if it.optional_vars is None else self.assign(it.optional_vars, v, st2, cx)
                    for st3, x in r0:
                        if x is not None:
                            res.append((st3, x))
                        else:
                            res.extend(self.with_items(items[1:], body, st3, cx))
                    return res

                out.extend(self.run_gen(st, g, handler, True))
                continue
            for st, v in self.call_method(st, m, "__enter__", [], cx, it.context_expr):
                if isinstance(v, Abrupt):
                    out.append((st, v))
                    continue
                r0 = [(st, None)] if it.optional_vars is None else self.assign(it.optional_vars, v, st, cx)
                res = []
                for st, x in r0:
                    if x is not None:
                        res.append((st, x))
                    else:
                        res.extend(self.with_items(items[1:], body, st, cx))
                for st, x in res:
                    if isinstance(x, Stuck):
                        out.append((st, x))
                    elif isinstance(x, Raise):
                        cls = st.get(x.exc).cls
                        for st, e in self.call_method(st, m, "__exit__", [cls, x.exc, None], cx, it.context_expr):
                            if isinstance(e, Abrupt):
                                out.append((st, e))
                                continue
                            for st, t in self.truth(st, e, cx, it.context_expr):
                                out.append((st, t if isinstance(t, Abrupt) else (None if t else x)))
                    else:
                        for st, e in self.call_method(st, m, "__exit__", [None, None, None], cx, it.context_expr):
                            out.append((st, e if isinstance(e, Abrupt) else x))
        return out

    def ex_For(self, s, st, cx):
        mark = st.nxt
        out = []
        for st, it in self.ev(s.iter, st, cx):
            if isinstance(it, Abrupt):
                out.append((st, it))
                continue

            def step(st, item):
                res = []
                for st, o in self.assign(s.target, item, st, cx):
                    if o is not None:
                        res.append((st, o))
                        continue
                    for st, o in self.block(s.body, st, cx):
                        res.append((st, None if o is CNT else o))
                return res

            for st, sig in self.iter_each(st, it, cx, s, step):
                if sig is None:
                    if s.orelse:
                        out.extend(self.block(s.orelse, st, cx))
                    else:
                        out.append((st, None))
                elif sig is BRK:
                    out.append((st, None))
                else:
                    out.append((st, sig))
        if len(out) > 1:
            out = self.merge(out, mark)
        return out

    WHILE_LIMIT = 400

    def ex_While(self, s, st, cx):
        mark = st.nxt
        out = []
        cur = [st]
        n = 0
        while cur:
            n += 1
            nxt = []
            for st in cur:
                for st, c in self.cond(s.test, st, cx):
                    if isinstance(c, Abrupt):
                        out.append((st, c))
                    elif not c:
                        if s.orelse:
                            out.extend(self.block(s.orelse, st, cx))
                        else:
                            out.append((st, None))
                    elif n > self.WHILE_LIMIT:
                        out.append((st, Stuck("loop bound", self.site(s, cx))))
                    else:
                        for st, o in self.block(s.body, st, cx):
                            if o is None or o is CNT:
                                nxt.append(st)
                            elif o is BRK:
                                out.append((st, None))
                            else:
                                out.append((st, o))
            if len(nxt) > 1:
                nxt = [x for x, _ in self.merge([(x, None) for x in nxt], mark)]
            cur = nxt
        if len(out) > 1:
            out = self.merge(out, mark)
        return out

    def ex_FunctionDef(self, s, st, cx):
        out = []
        for st, f in self.make_fn(s, st, cx, s.name):
            if isinstance(f, Abrupt):
                out.append((st, f))
                continue
            for st, v in self.decorate(s.decorator_list, f, st, cx):
                if isinstance(v, Abrupt):
                    out.append((st, v))
                else:
                    self.store_name(s.name, v, st, cx)
                    out.append((st, None))
        return out

    def decorate(self, decs, v, st, cx):
        cur = [(st, v)]
        for d in reversed(decs):
            nxt = []
            for st, v in cur:
                if isinstance(v, Abrupt):
                    nxt.append((st, v))
                    continue
                for st, f in self.ev(d, st, cx):
                    if isinstance(f, Abrupt):
                        nxt.append((st, f))
                    else:
                        nxt.extend(self.call(st, f, [v], {}, cx, d))
            cur = nxt
        return cur

    def closure_env(self, st, cx):
        """environment captured by a function defined here (class scopes are skipped)"""
        env = cx.env
        while env is not None and st.get(env).kind == "class":
            env = st.get(env).parent
        return env

    def make_fn(self, node, st, cx, name):
        a = node.args
        exprs = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        out = []
        for st, vs in self.ev_list(exprs, st, cx):
            if isinstance(vs, Abrupt):
                out.append((st, vs))
                continue
            defaults = tuple(vs[:len(a.defaults)])
            rest = vs[len(a.defaults):]
            kwd = {}
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kwd[arg.arg] = rest.pop(0)
            qual = name if cx.func == "<module>" else cx.func + "." + name
            info = fninfo(node)
            f = FnO(node, cx.mod, self.closure_env(st, cx), defaults, kwd, name, qual, None, info, cx.file)
            doc = None
            if isinstance(node, ast.FunctionDef):
                doc = ast.get_docstring(node)
            f.attrs["__doc__"] = doc
            out.append((st, st.new(f)))
        return out

    def ex_AsyncFunctionDef(self, s, st, cx):
        return self.unsupported(st, "async def", s, cx)

    def ex_ClassDef(self, s, st, cx):
        out = []
        kw = [k.value for k in s.keywords]
        for st, vs in self.ev_list(list(s.bases) + kw, st, cx):
            if isinstance(vs, Abrupt):
                out.append((st, vs))
                continue
            bases = tuple(vs[:len(s.bases)]) or (self.B.object_,)
            if any(isinstance(b, Ref) and not isinstance(st.get(b), ClsO) for b in bases):
                bases = self.entries(st, bases)
                if bases is None:
                    out.extend(self.unsupported(st, "base class", s, cx))
                    continue
            kwargs = {k.arg: v for k, v in zip(s.keywords, vs[len(s.bases):]) if k.arg != "metaclass"}
            meta = [v for k, v in zip(s.keywords, vs[len(s.bases):]) if k.arg == "metaclass"]
            meta = meta[0] if meta and isinstance(meta[0], Ref) else None
            for b in bases:
                m = st.get(b).meta if isinstance(b, Ref) else None
                if m is not None and (meta is None or meta in self.mro_of(st, m)):
                    meta = m
            if meta is not None and not isinstance(st.get(meta), ClsO):
                out.extend(self.unsupported(st, "metaclass", s, cx))
                continue
            if meta is not None and self.class_lookup(st, meta, "__prepare__") is not None:
                out.extend(self.unsupported(st, "__prepare__", s, cx))
                continue
            cell = st.new(EnvO({}, self.closure_env(st, cx), "fn", frozenset(("__class__",))))
            qual = s.name if cx.func == "<module>" else cx.func + "." + s.name
            benv = st.new(EnvO({"__module__": st.get(cx.mod).name, "__qualname__": qual}, cell, "class", frozenset()))
            ccx = Cx(benv, cx.mod, cx.file, qual, None, None)
            doc = ast.get_docstring(s)
            if doc is not None:
                st.mut(benv).vars["__doc__"] = doc
            for st, o in self.block(s.body, st, ccx):
                if isinstance(o, Abrupt):
                    out.append((st, o))
                    continue
                ns = dict(st.get(benv).vars)
                if meta is not None:
                    d = self.snapshot_dict(st, dict(ns, __classcell__=cell))
                    res = self.call(st, meta, [s.name, Tup(bases if s.bases else ()), d], kwargs, cx, s)
                else:
                    res = self.make_class(st, s.name, bases, ns, cx, s, cell, kwargs)
                for st, c in res:
                    if isinstance(c, Abrupt):
                        out.append((st, c))
                        continue
                    for st, v in self.decorate(s.decorator_list, c, st, cx):
                        if isinstance(v, Abrupt):
                            out.append((st, v))
                        else:
                            self.store_name(s.name, v, st, cx)
                            out.append((st, None))
        return out

    def entries(self, st, bases):
        """__mro_entries__ of bases that aren't classes; subscripted generics are dropped"""
        out = []
        for b in bases:
            if isinstance(b, Ref) and not isinstance(st.get(b), ClsO):
                o = st.get(b)
                if isinstance(o, Obj) and o.cls is self.B.opaque_ and o.attrs["name"] in ("Generic", "Protocol"):
                    continue
                return None
            out.append(b)
        return tuple(out) or (self.B.object_,)

    def make_class(self, st, name, bases, ns, cx, node, cell=None, kwargs=None, meta=None):
        cell = ns.pop("__classcell__", cell)
        mro = self.c3(st, bases)
        if mro is None:
            return self.unsupported(st, "class bases", node, cx)
        qual = name if cx.func == "<module>" else cx.func + "." + name
        c = ClsO(name, bases, ns, (), st.get(cx.mod).name, qual, meta)
        ref = st.new(c)
        c.mro = (ref,) + tuple(mro)
        if cell is not None:
            st.mut(cell).vars["__class__"] = ref
        cur = [(st, None)]
        # __set_name__
        for k, v in ns.items():
            if isinstance(v, Ref) and isinstance(st.get(v), Obj):
                nxt = []
                for st, o in cur:
                    if o is not None:
                        nxt.append((st, o))
                        continue
                    f = self.class_lookup(st, st.get(v).cls, "__set_name__")
                    if f is None:
                        nxt.append((st, None))
                        continue
                    for st, r in self.call(st, self.bind(st, f, v, st.get(v).cls), [ref, k], {}, cx, node):
                        nxt.append((st, r if isinstance(r, Abrupt) else None))
                cur = nxt
        # __init_subclass__
        out = []
        for st, o in cur:
            if o is not None:
                out.append((st, o))
                continue
            f = None
            for b in mro:
                f = self.cls_ns(st, b).get("__init_subclass__")
                if f is not None:
                    break
            if f is None or isinstance(f, BFn):
                out.append((st, ref))
                continue
            if isinstance(f, CM):
                f = f.f
            for st, r in self.call(st, f, [ref], dict(kwargs or {}), cx, node):
                out.append((st, r if isinstance(r, Abrupt) else ref))
        return out

    def c3(self, st, bases):
        seqs = [list(self.mro_of(st, b)) for b in bases] + [list(bases)]
        res = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                return None
            res.append(c)
            for s in seqs:
                if s[0] == c:
                    del s[0]

    def mro_of(self, st, c):
        if isinstance(c, BCls):
            return c.mro
        o = st.get(c) if isinstance(c, Ref) else None
        if isinstance(o, ClsO):
            return o.mro
        raise Unsupported("not a class: %r" % (c,))

    def cls_ns(self, st, c):
        if isinstance(c, BCls):
            return c.methods
        return st.get(c).ns

    def class_lookup(self, st, c, name):
        for k in self.mro_of(st, c):
            ns = self.cls_ns(st, k)
            if name in ns:
                return ns[name]
        return None

    def ex_Import(self, s, st, cx):
        cur = [(st, None)]
        for al in s.names:
            nxt = []
            for st, o in cur:
                if o is not None:
                    nxt.append((st, o))
                    continue
                for st, m in self.load(st, al.name, s, cx):
                    if isinstance(m, Abrupt):
                        nxt.append((st, m))
                        continue
                    if al.asname:
                        self.store_name(al.asname, m, st, cx)
                    else:
                        top = al.name.split(".")[0]
                        for st, m2 in self.load(st, top, s, cx):
                            if not isinstance(m2, Abrupt):
                                self.store_name(top, m2, st, cx)
                    nxt.append((st, None))
            cur = nxt
        return cur

    def ex_ImportFrom(self, s, st, cx):
        mod = s.module or ""
        if s.level:
            pkg = st.get(cx.mod).ns.get("__package__") or ""
            bits = pkg.split(".") if pkg else []
            if s.level > 1:
                bits = bits[:-(s.level - 1)]
            mod = ".".join(bits + ([mod] if mod else []))
        out = []
        for st, m in self.load(st, mod, s, cx):
            if isinstance(m, Abrupt):
                out.append((st, m))
                continue
            cur = [(st, None)]
            for al in s.names:
                nxt = []
                for st, o in cur:
                    if o is not None:
                        nxt.append((st, o))
                        continue
                    ns = st.get(m).ns
                    if al.name == "*":
                        names = ns.get("__all__")
                        if isinstance(names, Ref):
                            names = list(st.get(names).pv)
                        else:
                            names = [n for n in ns if not n.startswith("_")]
                        for n in names:
                            self.store_name(n, ns[n], st, cx)
                        nxt.append((st, None))
                        continue
                    if al.name in ns:
                        self.store_name(al.asname or al.name, ns[al.name], st, cx)
                        nxt.append((st, None))
                        continue
                    if self.find_module(mod + "." + al.name)[0]:
                        for st, sub in self.load(st, mod + "." + al.name, s, cx):
                            if isinstance(sub, Abrupt):
                                nxt.append((st, sub))
                            else:
                                self.store_name(al.asname or al.name, sub, st, cx)
                                nxt.append((st, None))
                        continue
                    if isinstance(st.get(m), ModO) and (st.get(m).file is None or (self.shims and st.get(m).file.startswith(self.shims))):
                        self.store_name(al.asname or al.name, Unk(mod + "." + al.name), st, cx)
                        nxt.append((st, None))
                    else:
                        nxt.extend(self.err(st, "ImportError", "cannot import name " + al.name, s, cx))
                cur = nxt
            out.extend(cur)
        return out

    # match statement -------------------------------------------------------
    def ex_Match(self, s, st, cx):
        mark = st.nxt
        out = []
        for st, v in self.ev(s.subject, st, cx):
            if isinstance(v, Abrupt):
                out.append((st, v))
                continue
            cur = [st]
            for case in s.cases:
                nxt = []
                for st in cur:
                    for st, m in self.pattern(case.pattern, v, st, cx):
                        if isinstance(m, Abrupt):
                            out.append((st, m))
                        elif not m:
                            nxt.append(st)
                        elif case.guard is not None:
                            for st, c in self.cond(case.guard, st, cx):
                                if isinstance(c, Abrupt):
                                    out.append((st, c))
                                elif c:
                                    out.extend(self.block(case.body, st, cx))
                                else:
                                    nxt.append(st)
                        else:
                            out.extend(self.block(case.body, st, cx))
                cur = nxt
            out.extend((st, None) for st in cur)
        if len(out) > 1:
            out = self.merge(out, mark)
        return out

    def pattern(self, p, v, st, cx):
        if isinstance(p, ast.MatchValue):
            out = []
            for st, x in self.ev(p.value, st, cx):
                if isinstance(x, Abrupt):
                    out.append((st, x))
                    continue
                for st, e in self.eq(st, v, x, cx, p):
                    if isinstance(e, Abrupt):
                        out.append((st, e))
                    else:
                        out.extend(self.truth(st, e, cx, p))
            return out
        if isinstance(p, ast.MatchSingleton):
            return [(st, v is p.value)]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store_name(p.name, v, st, cx)
                return [(st, True)]
            out = []
            for st, m in self.pattern(p.pattern, v, st, cx):
                if m is True and p.name:
                    self.store_name(p.name, v, st, cx)
                out.append((st, m))
            return out
        if isinstance(p, ast.MatchOr):
            out = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for st in cur:
                    for st, m in self.pattern(q, v, st, cx):
                        if m is False:
                            nxt.append(st)
                        else:
                            out.append((st, m))
                cur = nxt
            out.extend((st, False) for st in cur)
            return out
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, Tup):
                items = list(v.items)
            elif isinstance(v, range):
                items = list(v)
            elif isinstance(v, Ref) and isinstance(st.get(v), Obj) and st.get(v).pk in ("list", "tuple"):
                items = list(st.get(v).pv)
            else:
                return [(st, False)]
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            pats = list(p.patterns)
            if star:
                i = star[0]
                after = len(pats) - i - 1
                if len(items) < len(pats) - 1:
                    return [(st, False)]
                mid = items[i:len(items) - after]
                if pats[i].name:
                    self.store_name(pats[i].name, st.new(Obj(self.B.list_, pk="list", pv=tuple(mid))), st, cx)
                items = items[:i] + items[len(items) - after:]
                pats = pats[:i] + pats[i + 1:]
            if len(items) != len(pats):
                return [(st, False)]
            cur = [(st, True)]
            for q, x in zip(pats, items):
                nxt = []
                for st, m in cur:
                    if m is not True:
                        nxt.append((st, m))
                    else:
                        nxt.extend(self.pattern(q, x, st, cx))
                cur = nxt
            return cur
        if isinstance(p, ast.MatchClass):
            out = []
            for st, c in self.ev(p.cls, st, cx):
                if isinstance(c, Abrupt):
                    out.append((st, c))
                    continue
                for st, r in self.B.isinstance_(self, st, v, c, cx, p):
                    if isinstance(r, Abrupt):
                        out.append((st, r))
                        continue
                    for st, t in self.truth(st, r, cx, p):
                        if t is not True:
                            out.append((st, t))
                            continue
                        if p.patterns:
                            if len(p.patterns) == 1 and isinstance(c, BCls) and c.name in ("int", "float", "str", "bool", "tuple", "list", "dict", "set"):
                                out.extend(self.pattern(p.patterns[0], v, st, cx))
                                continue
                            names = self.class_lookup(st, c, "__match_args__")
                            names = self.seq_items(st, names) if names is not None else None
                            if names is None or len(names) < len(p.patterns):
                                out.extend(self.unsupported(st, "class pattern", p, cx))
                                continue
                        else:
                            names = ()
                        cur = [(st, True)]
                        for a, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                            nxt = []
                            for st, m in cur:
                                if m is not True:
                                    nxt.append((st, m))
                                    continue
                                for st, x in self.getattr_(st, v, a, cx, p):
                                    if isinstance(x, Raise):
                                        nxt.append((st, False))
                                    elif isinstance(x, Abrupt):
                                        nxt.append((st, x))
                                    else:
                                        nxt.extend(self.pattern(q, x, st, cx))
                            cur = nxt
                        out.extend(cur)
            return out
        if isinstance(p, ast.MatchMapping):
            if not (isinstance(v, Ref) and isinstance(st.get(v), Obj) and st.get(v).pk in ("dict", "idict")):
                return [(st, False)]
            cur = [(st, [])]
            out = []
            for ke, q in zip(p.keys, p.patterns):
                nxt = []
                for st, seen in cur:
                    for st, k in self.ev(ke, st, cx):
                        if isinstance(k, Abrupt):
                            out.append((st, k))
                            continue
                        for st, hit in self.B.key_lookup(self, st, self.B.pview(st, st.get(v)), k, cx, p):
                            if isinstance(hit, Abrupt):
                                out.append((st, hit))
                            elif hit is None:
                                out.append((st, False))
                            else:
                                for st, x in self.getitem(st, v, k, cx, p):
                                    if isinstance(x, Abrupt):
                                        out.append((st, x))
                                        continue
                                    for st, m in self.pattern(q, x, st, cx):
                                        if m is True:
                                            nxt.append((st, seen + [k]))
                                        else:
                                            out.append((st, m))
                cur = nxt
            for st, seen in cur:
                if p.rest:
                    if not all(isinstance(k, NATIVE) for k in seen):
                        out.extend(self.unsupported(st, "mapping pattern", p, cx))
                        continue
                    items = {h: kv for h, kv in self.B.pview(st, st.get(v)).items() if kv[0] not in seen}
                    self.store_name(p.rest, st.new(Obj(self.B.dict_, pk="dict", pv=items)), st, cx)
                out.append((st, True))
            return out
        return self.unsupported(st, "pattern", p, cx)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, cx):
        return getattr(self, "ev_" + type(e).__name__)(e, st, cx)

    def ev_list(self, exprs, st, cx):
        """evaluate in order -> [(st, [values])] (or Abrupt)"""
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for st, vs in cur:
                if isinstance(vs, Abrupt):
                    nxt.append((st, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for st, v in self.ev(e.value, st, cx):
                        if isinstance(v, Abrupt):
                            nxt.append((st, v))
                            continue
                        for st, items in self.to_list(st, v, cx, e):
                            nxt.append((st, items if isinstance(items, Abrupt) else vs + items))
                    continue
                r = self.ev(e, st, cx)
                if len(r) == 1:
                    st, v = r[0]
                    if isinstance(v, Abrupt):
                        nxt.append((st, v))
                    else:
                        vs.append(v)
                        nxt.append((st, vs))
                else:
                    for st, v in r:
                        nxt.append((st, v if isinstance(v, Abrupt) else vs + [v]))
            cur = nxt
        return cur

    def ev_Constant(self, e, st, cx):
        return [(st, e.value)]

    def ev_Name(self, e, st, cx):
        return self.ev_name(e.id, st, cx, e)

    def ev_name(self, name, st, cx, node):
        env = cx.env
        glob = cx.info is not None and name in cx.info.globals
        first = True
        while env is not None and not glob:
            e = st.get(env)
            if name in e.vars:
                v = e.vars[name]
                if type(v) is Unk:
                    return self.unsupported(st, v.why, node, cx)
                return [(st, v)]
            if e.kind != "class" and name in e.locals:
                if first:
                    return self.err(st, "UnboundLocalError", name, node, cx)
                return self.err(st, "NameError", name, node, cx)
            first = False
            env = e.parent
        ns = st.get(cx.mod).ns
        if name in ns:
            v = ns[name]
            if type(v) is Unk:
                return self.unsupported(st, v.why, node, cx)
            return [(st, v)]
        v = self.bns.get(name, self)
        if v is not self:
            return [(st, v)]
        if name in PY_BUILTINS:
            return self.unsupported(st, "builtin " + name, node, cx)
        return self.err(st, "NameError", "name '%s' is not defined" % name, node, cx)

    def ev_NamedExpr(self, e, st, cx):
        out = []
        for st, v in self.ev(e.value, st, cx):
            if not isinstance(v, Abrupt):
                self.store_name(e.target.id, v, st, cx)
            out.append((st, v))
        return out

    def ev_Tuple(self, e, st, cx):
        return [(st, v if isinstance(v, Abrupt) else Tup(v)) for st, v in self.ev_list(e.elts, st, cx)]

    def new_list(self, st, items):
        return st.new(Obj(self.B.list_, pk="list", pv=tuple(items)))

    def ev_List(self, e, st, cx):
        return [(st, v if isinstance(v, Abrupt) else self.new_list(st, v)) for st, v in self.ev_list(e.elts, st, cx)]

    def ev_Set(self, e, st, cx):
        out = []
        for st, v in self.ev_list(e.elts, st, cx):
            if isinstance(v, Abrupt):
                out.append((st, v))
            else:
                out.extend(self.B.make_set(self, st, v, cx, e))
        return out

    def ev_Dict(self, e, st, cx):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                exprs.append(v)
            else:
                exprs.extend((k, v))
        out = []
        for st, vs in self.ev_list(exprs, st, cx):
            if isinstance(vs, Abrupt):
                out.append((st, vs))
                continue
            d = st.new(Obj(self.B.dict_, pk="dict", pv={}))
            cur = [(st, None)]
            i = 0
            for k in e.keys:
                nxt = []
                for st, o in cur:
                    if o is not None:
                        nxt.append((st, o))
                    elif k is None:
                        nxt.extend(self.B.dict_update(self, st, d, vs[i], cx, e))
                    else:
                        nxt.extend(self.setitem(st, d, vs[i], vs[i + 1], cx, e))
                cur = nxt
                i += 1 if k is None else 2
            out.extend((st, d if o is None else o) for st, o in cur)
        return out

    def ev_JoinedStr(self, e, st, cx):
        cur = [(st, [])]
        for part in e.values:
            nxt = []
            for st, ps in cur:
                if isinstance(ps, Abrupt):
                    nxt.append((st, ps))
                    continue
                if isinstance(part, ast.Constant):
                    nxt.append((st, ps + [part.value]))
                    continue
                for st, v in self.ev(part.value, st, cx):
                    if isinstance(v, Abrupt):
                        nxt.append((st, v))
                        continue
                    f = self.B.repr_ if part.conversion == 114 else self.B.str_of
                    if part.format_spec is not None:
                        for st, spec in self.ev(part.format_spec, st, cx):
                            if isinstance(spec, Abrupt):
                                nxt.append((st, spec))
                                continue
                            for st, x in self.B.format_(self, st, v, spec, cx, e):
                                nxt.append((st, x if isinstance(x, Abrupt) else ps + [x]))
                        continue
                    for st, x in f(self, st, v, cx, e):
                        nxt.append((st, x if isinstance(x, Abrupt) else ps + [x]))
            cur = nxt
        return [(st, ps if isinstance(ps, Abrupt) else S.mk(ps)) for st, ps in cur]

    def ev_Attribute(self, e, st, cx):
        out = []
        for st, o in self.ev(e.value, st, cx):
            if isinstance(o, Abrupt):
                out.append((st, o))
            else:
                out.extend(self.getattr_(st, o, mangle(e.attr, cx), cx, e))
        return out

    def ev_Subscript(self, e, st, cx):
        out = []
        for st, vs in self.ev_list([e.value, e.slice], st, cx):
            if isinstance(vs, Abrupt):
                out.append((st, vs))
            else:
                out.extend(self.getitem(st, vs[0], vs[1], cx, e))
        return out

    def ev_Slice(self, e, st, cx):
        exprs = [x if x is not None else NONE for x in (e.lower, e.upper, e.step)]
        return [(st, v if isinstance(v, Abrupt) else SliceV(*v)) for st, v in self.ev_list(exprs, st, cx)]

    def ev_Starred(self, e, st, cx):
        return self.unsupported(st, "starred", e, cx)

    def ev_Lambda(self, e, st, cx):
        return self.make_fn(e, st, cx, "<lambda>")

    def ev_IfExp(self, e, st, cx):
        mark = st.nxt
        out = []
        for st, c in self.cond(e.test, st, cx):
            if isinstance(c, Abrupt):
                out.append((st, c))
            else:
                out.extend(self.ev(e.body if c else e.orelse, st, cx))
        if len(out) > 1:
            out = self.merge(out, mark)
        return out

    def ev_BoolOp(self, e, st, cx):
        is_and = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        last = len(e.values) - 1
        for i, x in enumerate(e.values):
            nxt = []
            for st in cur:
                for st, v in self.ev(x, st, cx):
                    if isinstance(v, Abrupt) or i == last:
                        out.append((st, v))
                        continue
                    for st, t in self.truth(st, v, cx, x):
                        if isinstance(t, Abrupt):
                            out.append((st, t))
                        elif t == is_and:
                            nxt.append(st)
                        else:
                            out.append((st, (t if isinstance(v, BoolV) else v)))
            cur = nxt
        return out

    def ev_UnaryOp(self, e, st, cx):
        out = []
        for st, v in self.ev(e.operand, st, cx):
            if isinstance(v, Abrupt):
                out.append((st, v))
                continue
            if isinstance(e.op, ast.Not):
                if isinstance(v, BoolV):
                    out.append((st, v.neg()))
                else:
                    for st, t in self.truth(st, v, cx, e):
                        out.append((st, t if isinstance(t, Abrupt) else not t))
            elif isinstance(v, (Num, int, float)) and isinstance(e.op, (ast.USub, ast.UAdd)):
                if isinstance(e.op, ast.UAdd):
                    out.append((st, v))
                elif isinstance(v, Num):
                    out.append((st, self.mknum(pneg(v.p), v.ty)))
                else:
                    out.append((st, -v))
            elif isinstance(v, int):
                out.append((st, ~v))
            elif isinstance(v, Ref):
                name = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[type(e.op).__name__]
                o = st.get(v)
                f = self.class_lookup(st, o.cls, name) if isinstance(o, Obj) else None
                if f is None:
                    out.extend(self.err(st, "TypeError", "bad operand type for unary operator", e, cx))
                else:
                    out.extend(self.call(st, self.bind(st, f, v, o.cls), [], {}, cx, e))
            else:
                out.extend(self.err(st, "TypeError", "bad operand type for unary operator", e, cx))
        return out

    def ev_BinOp(self, e, st, cx):
        out = []
        for st, a in self.ev(e.left, st, cx):
            if isinstance(a, Abrupt):
                out.append((st, a))
                continue
            for st, b in self.ev(e.right, st, cx):
                if isinstance(b, Abrupt):
                    out.append((st, b))
                else:
                    out.extend(self.binop(st, e.op, a, b, cx, e))
        return out

    def ev_Compare(self, e, st, cx):
        out = []
        cur = [(st, None)]
        for st, a in self.ev(e.left, st, cx):
            if isinstance(a, Abrupt):
                out.append((st, a))
                continue
            out.extend(self.cmp_chain(st, a, e.ops, e.comparators, cx, e))
        return out

    def cmp_chain(self, st, a, ops, comps, cx, e):
        out = []
        for st, b in self.ev(comps[0], st, cx):
            if isinstance(b, Abrupt):
                out.append((st, b))
                continue
            for st, r in self.compare(st, ops[0], a, b, cx, e):
                if isinstance(r, Abrupt) or len(ops) == 1:
                    out.append((st, r))
                    continue
                for st, t in self.truth(st, r, cx, e):
                    if isinstance(t, Abrupt) or not t:
                        out.append((st, t))
                    else:
                        out.extend(self.cmp_chain(st, b, ops[1:], comps[1:], cx, e))
        return out

    def ev_Call(self, e, st, cx):
        if self.steps > self.max_steps:
            raise Budget("step budget")
        self.steps += 1
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            r = self.zero_super(st, cx)
            if r is not None:
                return [(st, r)]
        out = []
        for st, f in self.ev(e.func, st, cx):
            if isinstance(f, Abrupt):
                out.append((st, f))
                continue
            for st, vs in self.ev_list(e.args, st, cx):
                if isinstance(vs, Abrupt):
                    out.append((st, vs))
                    continue
                if not e.keywords:
                    out.extend(self.call(st, f, vs, {}, cx, e))
                    continue
                cur = [(st, {})]
                for k in e.keywords:
                    nxt = []
                    for st, kw in cur:
                        if isinstance(kw, Abrupt):
                            nxt.append((st, kw))
                            continue
                        for st, v in self.ev(k.value, st, cx):
                            if isinstance(v, Abrupt):
                                nxt.append((st, v))
                            elif k.arg is not None:
                                nxt.append((st, {**kw, k.arg: v}))
                            else:
                                for st, items in self.B.mapping_items(self, st, v, cx, e):
                                    if isinstance(items, Abrupt):
                                        nxt.append((st, items))
                                        continue
                                    d = dict(kw)
                                    bad = None
                                    for kk, vv in items:
                                        if not isinstance(kk, str):
                                            bad = kk
                                        else:
                                            d[kk] = vv
                                    if bad is not None:
                                        nxt.extend(self.err(st, "TypeError", "keywords must be strings", e, cx) if not isinstance(bad, Str) else self.unsupported(st, "symbolic keyword", e, cx))
                                    else:
                                        nxt.append((st, d))
                    cur = nxt
                for st, kw in cur:
                    if isinstance(kw, Abrupt):
                        out.append((st, kw))
                    else:
                        out.extend(self.call(st, f, list(vs), kw, cx, e))
        return out

    def zero_super(self, st, cx):
        env = cx.env
        cls = None
        selfv = None
        found = False
        while env is not None:
            e = st.get(env)
            if not found and e.kind == "fn" and "$first" in e.vars:
                selfv = e.vars["$first"]
                found = True
            if "__class__" in e.vars:
                cls = e.vars["__class__"]
                break
            env = e.parent
        if cls is None or not found:
            return None
        return SuperV(cls, selfv)

    def ev_ListComp(self, e, st, cx):
        return self.comp(e, st, cx, "list")

    def ev_SetComp(self, e, st, cx):
        return self.comp(e, st, cx, "set")

    def ev_DictComp(self, e, st, cx):
        return self.comp(e, st, cx, "dict")

    def ev_GeneratorExp(self, e, st, cx):
        out = []
        for st, it in self.ev(e.generators[0].iter, st, cx):
            if isinstance(it, Abrupt):
                out.append((st, it))
            else:
                out.append((st, st.new(GenO("expr", e, cx, it))))
        return out

    def comp_locals(self, e):
        k = ("comp", e)
        r = _info.get(k)
        if r is None:
            names = set()
            for g in e.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
            r = _info[k] = frozenset(names)
        return r

    def comp(self, e, st, cx, kind):
        out = []
        for st, it in self.ev(e.generators[0].iter, st, cx):
            if isinstance(it, Abrupt):
                out.append((st, it))
                continue
            if kind == "list":
                acc = st.new(Obj(self.B.list_, pk="list", pv=()))
            elif kind == "set":
                acc = st.new(Obj(self.B.set_, pk="set", pv={}))
            else:
                acc = st.new(Obj(self.B.dict_, pk="dict", pv={}))

            def emit(st, ccx):
                if kind == "dict":
                    res = []
                    for st, kv in self.ev_list([e.key, e.value], st, ccx):
                        if isinstance(kv, Abrupt):
                            res.append((st, kv))
                        else:
                            res.extend(self.setitem(st, acc, kv[0], kv[1], ccx, e))
                    return res
                res = []
                for st, v in self.ev(e.elt, st, ccx):
                    if isinstance(v, Abrupt):
                        res.append((st, v))
                    elif kind == "list":
                        o = st.mut(acc)
                        o.pv = o.pv + (v,)
                        res.append((st, None))
                    else:
                        res.extend(self.B.set_add(self, st, acc, v, ccx, e))
                return res

            for st, sig in self.run_comp(e, st, cx, it, emit):
                out.append((st, acc if sig is None else sig))
        return out

    def run_comp(self, e, st, cx, first, emit):
        parent = self.closure_env(st, cx)
        env = st.new(EnvO({}, parent, "comp", self.comp_locals(e)))
        ccx = cx.with_env(env)

        def gen(i, st):
            g = e.generators[i]

            def step(st, item):
                res = []
                for st, o in self.assign(g.target, item, st, ccx):
                    if o is not None:
                        res.append((st, o))
                        continue
                    cur = [st]
                    for c in g.ifs:
                        nxt = []
                        for st in cur:
                            for st, t in self.cond(c, st, ccx):
                                if isinstance(t, Abrupt):
                                    res.append((st, t))
                                elif t:
                                    nxt.append(st)
                                else:
                                    res.append((st, None))
                        cur = nxt
                    for st in cur:
                        if i + 1 < len(e.generators):
                            res.extend(gen(i + 1, st))
                        else:
                            res.extend(emit(st, ccx))
                return res

            if i == 0:
                return self.iter_each(st, first, ccx, e, step)
            res = []
            for st, it in self.ev(g.iter, st, ccx):
                if isinstance(it, Abrupt):
                    res.append((st, it))
                else:
                    res.extend(self.iter_each(st, it, ccx, e, step))
            return res

        return gen(0, st)

    def ev_Yield(self, e, st, cx):
        if cx.yh is None:
            return self.unsupported(st, "yield", e, cx)
        vals = self.ev(e.value, st, cx) if e.value is not None else [(st, None)]
        out = []
        handler, throw = cx.yh
        for st, v in vals:
            if isinstance(v, Abrupt):
                out.append((st, v))
                continue
            for st, sig in handler(st, v):
                if sig is None:
                    out.append((st, None))
                elif isinstance(sig, Stuck):
                    out.append((st, sig))
                elif throw and isinstance(sig, Raise):
                    out.append((st, sig))
                else:
                    out.append((st, GenExit(sig)))
        return out

    def ev_YieldFrom(self, e, st, cx):
        if cx.yh is None:
            return self.unsupported(st, "yield from", e, cx)
        out = []
        handler, throw = cx.yh
        for st, v in self.ev(e.value, st, cx):
            if isinstance(v, Abrupt):
                out.append((st, v))
                continue
            g = st.get(v) if isinstance(v, Ref) else None
            if isinstance(g, GenO) and g.kind == "func" and not g.used:
                cell = st.new(Obj(self.B.object_, {"v": None}))
                st.mut(v).used = True
                res = self.run_gen(st, g, handler, throw, cell)
            else:
                cell = None
                res = self.iter_each(st, v, cx, e, handler)
            for st, sig in res:
                if sig is None:
                    out.append((st, st.get(cell).attrs["v"] if cell is not None else None))
                elif isinstance(sig, Stuck):
                    out.append((st, sig))
                else:
                    out.append((st, GenExit(sig)))
        return out

    def ev_Await(self, e, st, cx):
        return self.unsupported(st, "await", e, cx)

    # ------------------------------------------------------------------ truth and branching
    def cond(self, e, st, cx):
        out = []
        for st, v in self.ev(e, st, cx):
            if isinstance(v, Abrupt):
                out.append((st, v))
            else:
                out.extend(self.truth(st, v, cx, e))
        return out

    def truth(self, st, v, cx, node):
        if v is True or v is False:
            return [(st, v)]
        if isinstance(v, NATIVE):
            return [(st, bool(v))]
        if isinstance(v, BoolV):
            return self.branch(st, v, cx, node)
        if isinstance(v, Num):
            return self.truth(st, sign_bool(v.p, NE0), cx, node)
        if isinstance(v, Tup):
            return [(st, bool(v.items))]
        if isinstance(v, Str):
            if S.min_len(v) > 0:
                return [(st, True)]
            return self.branch(st, BoolV("p", ("str", "truth", v), True), cx, node)
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, Obj):
                f = self.class_lookup(st, o.cls, "__bool__")
                if f is not None and not isinstance(f, BFn):
                    out = []
                    for st, r in self.call(st, self.bind(st, f, v, o.cls), [], {}, cx, node):
                        out.extend([(st, r)] if isinstance(r, Abrupt) else self.truth(st, r, cx, node))
                    return out
                f = self.class_lookup(st, o.cls, "__len__")
                if f is not None and not isinstance(f, BFn):
                    out = []
                    for st, r in self.call(st, self.bind(st, f, v, o.cls), [], {}, cx, node):
                        out.extend([(st, r)] if isinstance(r, Abrupt) else self.truth(st, r, cx, node))
                    return out
                if o.pk is not None:
                    if o.pk in ("list", "tuple", "dict", "set"):
                        return [(st, bool(o.pv))]
                    if o.pk == "idict":
                        return [(st, bool(self.B.pview(st, o)))]
                    return self.truth(st, o.pv, cx, node)
            return [(st, True)]
        return [(st, True)]

    def branch(self, st, b, cx, node):
        """partition a state on an undetermined condition"""
        if b.kind == "s":
            cur = st.signs.get(b.key, ALL)
            t = cur & b.val
            f = cur - b.val
            if not f:
                return [(st, True)]
            if not t:
                return [(st, False)]
            dt = dict(st.signs)
            dt[b.key] = t
            df = dict(st.signs)
            df[b.key] = f
            ft = feasible(dt)
            ff = feasible(df)
            if ft and not ff:
                return [(st, True)]
            if ff and not ft:
                return [(st, False)]
            if not ft and not ff:
                return []
            self.splits += 1
            s2 = st.fork()
            st.signs = dt
            s2.signs = df
        else:
            cur = st.preds.get(b.key)
            if cur is not None:
                return [(st, cur == b.val)]
            d = self.decide_pred(st, b.key)
            if d is not None:
                return [(st, d == b.val)]
            self.splits += 1
            s2 = st.fork()
            st.assume_pred(b.key, b.val)
            s2.assume_pred(b.key, not b.val)
        where = self.site(node, cx)
        st.trace = (st.trace, where, b, True)
        s2.trace = (s2.trace, where, b, False)
        return [(st, True), (s2, False)]

    def decide_pred(self, st, key):
        """Is an opaque predicate decided by what is known?"""
        if key[0] == "streq":
            for k, v in st.preds.items():
                if v and k[0] == "streq" and k[1] == key[1] and k[2] != key[2]:
                    return False
        if key[0] == "str" and key[1] in ("isfloat", "isinf", "is-inf", "isnan") and len(key[2].parts) == 1 and isinstance(key[2].parts[0], Tok):
            # a number in a plain format is the text of a finite number
            name = key[2].parts[0].name
            if isinstance(name, tuple) and name[0] in ("fmt", "fmt%") and re.fullmatch(r"[-+]?0?\d*(\.\d+)?[eEfFgG]", name[2]):
                return key[1] == "isfloat"
        if key[0] == "str":
            for k, v in st.preds.items():
                if v and k[0] == "streq" and k[1] == key[2]:
                    return str_pred(key, k[2])
                if k[0] == "str" and k[1] == key[1] and k[2] == key[2] and k[1] in ("startswith", "endswith", "contains") and isinstance(k[3], str) and isinstance(key[3], str):
                    # a longer prefix implies the shorter ones; two prefixes of a text agree
                    if v and str_pred(key, k[3]):
                        return True
                    if not v and str_pred(k, key[3]):
                        return False
                    if v and k[1] != "contains" and not str_pred(k, key[3]):
                        return False
        if key[0] == "streq":
            for k, v in st.preds.items():
                if k[0] == "str" and k[2] == key[1]:
                    if str_pred(k, key[2]) != v:
                        return False
        return None

    # ------------------------------------------------------------------ merge (exact joins)
    def merge(self, res, mark):
        if len(res) < 2 or len(res) > 400:
            return res
        changed = True
        rounds = 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            out = []
            for st, o in res:
                if isinstance(o, Stuck):
                    out.append((st, o))
                    continue
                for i in range(len(out)):
                    m = self.try_merge(out[i][0], out[i][1], st, o, mark)
                    if m is not None:
                        out[i] = m
                        changed = True
                        self.merges += 1
                        break
                else:
                    out.append((st, o))
            res = out
            if len(res) < 2:
                break
        return res

    def try_merge(self, a, oa, b, ob, mark):
        if type(oa) is not type(ob):
            return None
        if isinstance(oa, (Raise, GenExit)):
            if not (isinstance(oa, Raise) and oa.exc == ob.exc):
                return None
        if a.strs is not b.strs and a.strs != b.strs:
            return None
        # difference of the facts
        dk = None
        nd = 0
        if a.preds is not b.preds:
            pa, pb = a.preds, b.preds
            if abs(len(pa) - len(pb)) > 1:
                return None
            # (recent facts first: they are the ones that differ)
            for k in reversed(pa):
                if pb.get(k) != pa[k]:
                    nd += 1
                    dk = ("p", k)
                    if nd > 1:
                        return None
            if len(pb) > len(pa) or nd:
                for k in reversed(pb):
                    if k not in pa:
                        nd += 1
                        dk = ("p", k)
                        if nd > 1:
                            return None
        if a.signs is not b.signs:
            for k in a.signs.keys() | b.signs.keys():
                if a.signs.get(k, ALL) != b.signs.get(k, ALL):
                    nd += 1
                    dk = ("s", k)
        if nd > 1:
            return None
        modp = None
        if nd == 1 and dk[0] == "s":
            sa, sb = a.signs.get(dk[1], ALL), b.signs.get(dk[1], ALL)
            if sa == EQ0:
                modp = (dk[1], 0)
            elif sb == EQ0:
                modp = (dk[1], 1)
        # heap
        diffs = []
        alla = a.ov
        allb = b.ov
        for k, x in alla.items():
            if k < mark:
                y = allb.get(k)
                if y is None:
                    y = b.base.get(k)
                if y is x:
                    continue
                if y is None or type(x) is not type(y):
                    return None
                d = self.obj_diff(k, x, y, modp)
                if d is None:
                    return None
                diffs.extend(d)
        for k, y in allb.items():
            if k < mark and k not in alla:
                x = a.base.get(k)
                if x is None or type(x) is not type(y):
                    return None
                if x is y:
                    continue
                d = self.obj_diff(k, x, y, modp)
                if d is None:
                    return None
                diffs.extend(d)
        va = getattr(oa, "v", None) if isinstance(oa, Ret) else oa
        vb = getattr(ob, "v", None) if isinstance(ob, Ret) else ob
        vm = oa
        if not isinstance(oa, (Raise, GenExit)) and not same(va, vb):
            m = self.val_join(va, vb, modp)
            if m is None:
                return None
            vm = Ret(m) if isinstance(oa, Ret) else m
        # new objects: those reachable must agree
        ra = self.reach_new(a, oa, mark)
        rb = self.reach_new(b, ob, mark)
        if ra != rb:
            return None
        for k in ra:
            x, y = alla[k], allb[k]
            if x is y:
                continue
            if type(x) is not type(y):
                return None
            d = self.obj_diff(k, x, y, modp)
            if d is None:
                return None
            diffs.extend(d)
        # merged state: take the side that is not specialised by the equality
        res = b if (modp is not None and modp[1] == 0) else a
        other = a if res is b else b
        if nd == 0:
            pass
        elif dk[0] == "p":
            d = dict(res.preds)
            d.pop(dk[1], None)
            res.preds = d
        else:
            u = a.signs.get(dk[1], ALL) | b.signs.get(dk[1], ALL)
            d = dict(res.signs)
            if u == ALL:
                d.pop(dk[1], None)
            else:
                d[dk[1]] = u
            res.signs = d
        for k, path, v in diffs:
            o = res.mut(Ref(k))
            path(o, v)
        nxt = max(a.nxt, b.nxt)
        res.nxt = nxt
        drop = [k for k in res.ov if k >= mark and k not in ra]
        for k in drop:
            del res.ov[k]
        res.trace = common_trace(a.trace, b.trace)
        return (res, vm)

    def reach_new(self, st, outcome, mark):
        seen = set()
        stack = []
        for k, o in st.ov.items():
            if k < mark:
                for c in o.children():
                    refs_of(c, stack)
        refs_of(outcome, stack)
        while stack:
            k = stack.pop()
            if k < mark or k in seen:
                continue
            o = st.ov.get(k)
            if o is None:
                continue
            seen.add(k)
            for c in o.children():
                refs_of(c, stack)
        return seen

    def obj_diff(self, k, x, y, modp):
        """None: not joinable; else list of (addr, writer, value)"""
        if x.eq(y):
            return []
        if type(x) is Obj:
            if x.cls != y.cls or x.pk != y.pk or list(x.attrs) != list(y.attrs):
                return None
            out = []
            for n, v in x.attrs.items():
                w = y.attrs[n]
                if not same(v, w):
                    j = self.val_join(v, w, modp)
                    if j is None:
                        return None
                    out.append((k, _attr_writer(n), j))
            if not payload_same(x.pk, x.pv, y.pv):
                if x.pk in ("list", "tuple") and len(x.pv) == len(y.pv):
                    items = []
                    for v, w in zip(x.pv, y.pv):
                        if same(v, w):
                            items.append(v)
                        else:
                            j = self.val_join(v, w, modp)
                            if j is None:
                                return None
                            items.append(j)
                    out.append((k, _pv_writer, tuple(items)))
                elif x.pk in ("dict",) and list(x.pv) == list(y.pv):
                    nd = {}
                    for hk, (kk, v) in x.pv.items():
                        w = y.pv[hk][1]
                        if same(v, w):
                            nd[hk] = (kk, v)
                        else:
                            j = self.val_join(v, w, modp)
                            if j is None:
                                return None
                            nd[hk] = (kk, j)
                    out.append((k, _pv_writer, nd))
                else:
                    return None
            return out
        if type(x) is EnvO:
            if x.parent != y.parent:
                return None
            out = []
            for n in x.vars.keys() | y.vars.keys():
                if n not in x.vars or n not in y.vars:
                    return None
                v, w = x.vars[n], y.vars[n]
                if not same(v, w):
                    j = self.val_join(v, w, modp)
                    if j is None:
                        return None
                    out.append((k, _var_writer(n), j))
            return out
        return None

    def val_join(self, v, w, modp):
        """join of two values that are equal modulo the partition's equality; else None"""
        if isinstance(v, Tup) and isinstance(w, Tup) and len(v.items) == len(w.items):
            items = []
            for x, y in zip(v.items, w.items):
                if same(x, y):
                    items.append(x)
                else:
                    j = self.val_join(x, y, modp)
                    if j is None:
                        return None
                    items.append(j)
            return Tup(items)
        if isinstance(v, bool) or isinstance(w, bool):
            return None
        if not isinstance(v, (Num, int, float)) or not isinstance(w, (Num, int, float)):
            return None
        pv, pw = self.poly(v), self.poly(w)
        if pv is None or pw is None:
            return None
        tv, tw = self.nty(v), self.nty(w)
        d = psub(pv, pw)
        if d.t:
            if modp is None:
                return None
            if not zero_mod(d, modp[0]):
                return None
        if modp is not None and modp[1] == 0:
            p = pw
        else:
            p = pv
        ty = tv if tv == tw else ("num" if {tv, tw} <= {"int", "float", "num"} and d_whole(modp) else "real")
        if p.const() is not None and tv == tw:
            return self.mknum(p, ty)
        return Num(p, ty)

    # ------------------------------------------------------------------ numbers
    def poly(self, v):
        if isinstance(v, Num):
            return v.p
        if isinstance(v, bool):
            return pconst(int(v))
        if isinstance(v, int):
            return pconst(v)
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return None
            return pconst(v)
        return None

    def nty(self, v):
        if isinstance(v, Num):
            return v.ty
        return "float" if isinstance(v, float) else "int"

    def mknum(self, p, ty):
        c = p.const()
        if c is not None:
            if ty == "int":
                return int(c)
            if ty in ("num",) and c.denominator == 1:
                return int(c)
            if ty == "real" and c.denominator == 1:
                return Num(p, ty)
            try:
                f = float(c)
                if Fraction(repr(f)) == c:
                    return f
            except (OverflowError, ValueError):
                pass
            return Num(p, "float")
        return Num(p, ty)

    def floor(self, st, p):
        """poly for floor(p)"""
        if integral(p):
            return p
        keep = {}
        rest = {}
        for m, c in p.t:
            if all(a.ty == "int" for a in m):
                n = c.numerator // c.denominator
                keep[m] = Fraction(n)
                rest[m] = c - n
            else:
                rest[m] = c
        k = N._mk(keep)
        r = N._mk(rest)
        if not r.t:
            return k
        c = r.const()
        if c is not None:
            return padd(k, pconst(c.numerator // c.denominator))
        # is the floor determined by the constraints?
        if st is not None and st.signs:
            w = witness(st.signs, getattr(self, "ranges", None), tries=60, extra_atoms=base_atoms([r]))
            if w is not None:
                try:
                    x = ev_poly(r, dict(w))
                    q = x.numerator // x.denominator
                    lo = sign_bool(psub(r, pconst(q)), GE0)
                    hi = sign_bool(psub(r, pconst(q + 1)), LT0)
                    if self.implied(st, lo) and self.implied(st, hi):
                        return padd(k, pconst(q))
                except N.Undef:
                    pass
        return padd(k, patom(atom("floor", "", "int", (r,))))

    def floors(self, st, p, most=7):
        """[(state, poly for floor(p))]: partitions on the values that a linear p of a small range can have"""
        fl = self.floor(st, p)
        if fl.const() is not None or integral(p):
            return [(st, fl)]
        lo = hi = Fraction(0)
        ranges = getattr(self, "ranges", {})
        for m, c in p.t:
            if not m:
                lo, hi = lo + c, hi + c
                continue
            if len(m) != 1 or m[0] not in ranges:
                return [(st, fl)]
            a, b = ranges[m[0]]
            lo, hi = lo + min(c * a, c * b), hi + max(c * a, c * b)
        first, last = lo.numerator // lo.denominator, hi.numerator // hi.denominator
        if last - first >= most:
            return [(st, fl)]
        out = []
        for v in range(first, last + 1):
            s = st.fork()
            ok = True
            for b in (sign_bool(psub(p, pconst(v)), GE0), sign_bool(psub(p, pconst(v + 1)), LT0)):
                if b is False:
                    ok = False
                elif b is not True:
                    ok = ok and s.assume_sign(b.key, b.val)
            if ok and feasible(s.signs):
                out.append((s, pconst(v)))
        return out or [(st, fl)]

    def implied(self, st, b):
        if b is True or b is False:
            return b
        cur = st.signs.get(b.key, ALL)
        f = cur - b.val
        if not f:
            return True
        d = dict(st.signs)
        d[b.key] = f
        return not feasible(d)

    def trunc(self, st, p):
        if integral(p):
            return p
        if self.implied(st, sign_bool(p, GE0)):
            return self.floor(st, p)
        if self.implied(st, sign_bool(p, LE0)):
            return pneg(self.floor(st, pneg(p)))
        return patom(atom("trunc", "", "int", (p,)))

    def inv(self, p):
        """poly for 1/p"""
        lead = p.t[-1][1]
        q = pscale(p, F1 / lead)
        if len(q.t) == 1:
            # product of atoms
            r = pconst(F1 / lead)
            for a in q.t[0][0]:
                if a.kind == "inv":
                    r = pmul(r, a.args[0])
                else:
                    r = pmul(r, patom(atom("inv", "", "real", (patom(a),))))
            return r
        return pscale(patom(atom("inv", "", "real", (q,))), F1 / lead)

    ARITH = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
             "Div": ("__truediv__", "__rtruediv__"), "FloorDiv": ("__floordiv__", "__rfloordiv__"),
             "Mod": ("__mod__", "__rmod__"), "Pow": ("__pow__", "__rpow__"), "BitOr": ("__or__", "__ror__"),
             "BitAnd": ("__and__", "__rand__"), "BitXor": ("__xor__", "__rxor__"), "LShift": ("__lshift__", "__rlshift__"),
             "RShift": ("__rshift__", "__rrshift__"), "MatMult": ("__matmul__", "__rmatmul__")}

    def binop(self, st, op, a, b, cx, node):
        name = type(op).__name__
        if isinstance(a, BoolV):
            out = []
            for st, t in self.branch(st, a, cx, node):
                out.extend(self.binop(st, op, t, b, cx, node))
            return out
        if isinstance(b, BoolV):
            out = []
            for st, t in self.branch(st, b, cx, node):
                out.extend(self.binop(st, op, a, t, cx, node))
            return out
        na, nb = isinstance(a, (Num, int, float)), isinstance(b, (Num, int, float))
        if na and nb:
            return self.arith(st, name, a, b, cx, node)
        if isinstance(a, NATIVE) and isinstance(b, NATIVE):
            return self.native(st, lambda: PYOP[name](a, b), node, cx)
        sa, sb = isinstance(a, (str, Str)), isinstance(b, (str, Str))
        if name == "Add" and sa and sb:
            return [(st, S.mk([a, b]))]
        if name == "Mod" and sa:
            return self.B.percent_format(self, st, a, b, cx, node)
        if name == "Mult" and (isinstance(a, Str) and isinstance(b, int) or isinstance(b, Str) and isinstance(a, int)):
            s, n = (a, b) if isinstance(a, Str) else (b, a)
            return [(st, S.mk([s] * n))]
        if isinstance(a, Tup) and isinstance(b, Tup) and name == "Add":
            return [(st, Tup(a.items + b.items))]
        if name == "Mult" and isinstance(a, Tup) and isinstance(b, int):
            return [(st, Tup(a.items * b))]
        if name == "Mult" and isinstance(b, Tup) and isinstance(a, int):
            return [(st, Tup(b.items * a))]
        # class-based dispatch
        f1, f2 = self.ARITH[name]
        ca, cb = self.type_of(st, a), self.type_of(st, b)
        if isinstance(ca, BCls) and isinstance(cb, BCls) and name == "BitOr" and ca.name == "type" and cb.name in ("type", "NoneType"):
            return [(st, Tup((a, b)))]
        fa = self.class_lookup(st, ca, f1) if ca is not None else None
        fb = self.class_lookup(st, cb, f2) if cb is not None else None
        tries = []
        if fa is not None:
            tries.append((fa, a, b, ca))
        if fb is not None:
            t = (fb, b, a, cb)
            if ca != cb and isinstance(cb, Ref) and ca in self.mro_of(st, cb):
                tries.insert(0, t)
            else:
                tries.append(t)
        out = []
        cur = [st]
        for f, x, y, c in tries:
            nxt = []
            for st in cur:
                for st, r in self.call(st, self.bind(st, f, x, c), [y], {}, cx, node):
                    if r is NotImplemented:
                        nxt.append(st)
                    else:
                        out.append((st, r))
            cur = nxt
        for st in cur:
            out.extend(self.err(st, "TypeError", "unsupported operand type(s) for %s" % name, node, cx))
        return out

    def native(self, st, f, node, cx):
        try:
            return [(st, f())]
        except Exception as e:
            n = type(e).__name__
            if n in self.B.EXC:
                return self.err(st, n, str(e), node, cx)
            return self.unsupported(st, "native " + n, node, cx)

    def arith(self, st, name, a, b, cx, node):
        pa, pb = self.poly(a), self.poly(b)
        if pa is None or pb is None:      # inf / nan
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return self.native(st, lambda: PYOP[name](a, b), node, cx)
            return self.unsupported(st, "arithmetic on non-finite number", node, cx)
        ta, tb = self.nty(a), self.nty(b)
        if ta == "int" and tb == "int":
            ty = "int"
        elif ta == "float" or tb == "float":
            ty = "float"
        elif name in ("Add", "Sub") and {ta, tb} == {"num", "int"}:
            ty = "num"
        else:
            ty = "real"
        if ta == "int" and tb == "int" and isinstance(a, int) and isinstance(b, int) and name not in ("Div",):
            if name == "Pow" and (abs(b) > 1000):
                return self.unsupported(st, "huge power", node, cx)
            return self.native(st, lambda: PYOP[name](a, b), node, cx)
        if name == "Add":
            return [(st, self.mknum(padd(pa, pb), ty))]
        if name == "Sub":
            return [(st, self.mknum(psub(pa, pb), ty))]
        if name == "Mult":
            return [(st, self.mknum(pmul(pa, pb), ty))]
        if name in ("Div", "FloorDiv", "Mod"):
            out = []
            for st, z in self.truth(st, sign_bool(pb, EQ0), cx, node):
                if isinstance(z, Abrupt):
                    out.append((st, z))
                    continue
                if z:
                    out.extend(self.err(st, "ZeroDivisionError", "division by zero", node, cx))
                    continue
                c = pb.const()
                q = pscale(pa, F1 / c) if c is not None else pmul(pa, self.inv(pb))
                if name == "Div":
                    out.append((st, self.mknum(q, "float")))
                else:
                    for st, fl in self.floors(st, q):
                        if name == "FloorDiv":
                            out.append((st, self.mknum(fl, ty)))
                        else:
                            out.append((st, self.mknum(psub(pa, pmul(pb, fl)), ty)))
            return out
        if name == "Pow":
            c = pb.const()
            if c is not None and c.denominator == 1 and 0 <= c <= 6:
                r = pconst(1)
                for _ in range(int(c)):
                    r = pmul(r, pa)
                return [(st, self.mknum(r, ty))]
            if pa.const() is not None and c is not None:
                return self.native(st, lambda: float(pa.const()) ** float(c), node, cx)
            return [(st, Num(patom(atom("pow", "", "real", (pa, pb))), "float"))]
        return self.err(st, "TypeError", "unsupported operand type(s)", node, cx)

    # ------------------------------------------------------------------ comparison
    CMPNAME = {"Lt": ("__lt__", "__gt__"), "Gt": ("__gt__", "__lt__"), "LtE": ("__le__", "__ge__"), "GtE": ("__ge__", "__le__")}

    def compare(self, st, op, a, b, cx, node):
        n = type(op).__name__
        if n == "Eq":
            return self.eq(st, a, b, cx, node)
        if n == "NotEq":
            return self.ne(st, a, b, cx, node)
        if n in ("Is", "IsNot"):
            if isinstance(a, BoolV) or isinstance(b, BoolV):
                out = []
                for s, x in (self.truth(st, a, cx, node) if isinstance(a, BoolV) else [(st, a)]):
                    for s, y in (self.truth(s, b, cx, node) if isinstance(b, BoolV) else [(s, b)]) if not isinstance(x, Abrupt) else [(s, x)]:
                        out.append((s, y if isinstance(y, Abrupt) else (x is y) == (n == "Is")))
                return out
            r = self.identical(st, a, b)
            if r is None:
                return self.unsupported(st, "identity of symbolic values", node, cx)
            return [(st, r if n == "Is" else not r)]
        if n in ("In", "NotIn"):
            out = []
            for st, r in self.contains(st, a, b, cx, node):
                if isinstance(r, Abrupt) or n == "In":
                    out.append((st, r))
                elif isinstance(r, BoolV):
                    out.append((st, r.neg()))
                else:
                    for st, t in self.truth(st, r, cx, node):
                        out.append((st, t if isinstance(t, Abrupt) else not t))
            return out
        # ordering
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            out = []
            v = a if isinstance(a, BoolV) else b
            for st, t in self.branch(st, v, cx, node):
                out.extend(self.compare(st, op, t if v is a else a, t if v is b else b, cx, node))
            return out
        if isinstance(a, (Num, int, float)) and isinstance(b, (Num, int, float)):
            pa, pb = self.poly(a), self.poly(b)
            if pa is None or pb is None:
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    return [(st, PYCMP[n](a, b))]
                v = a if pa is None else b
                if v != v:
                    return [(st, False)]
                # finite unknown against an infinity
                return [(st, PYCMP[n](a if pa is None else 0, b if pb is None else 0))]
            return [(st, sign_bool(psub(pa, pb), {"Lt": LT0, "Gt": GT0, "LtE": LE0, "GtE": GE0}[n]))]
        if isinstance(a, NATIVE) and isinstance(b, NATIVE):
            return self.native(st, lambda: PYCMP[n](a, b), node, cx)
        f1, f2 = self.CMPNAME[n]
        if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
            return [(st, BoolV("p", ("strcmp", n, a, b), True))]
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.seq_order(st, n, a.items, b.items, cx, node)
        oa = st.get(a) if isinstance(a, Ref) else None
        ob = st.get(b) if isinstance(b, Ref) else None
        if isinstance(oa, Obj) and isinstance(ob, Obj) and oa.pk == "set" and ob.pk == "set":
            ka, kb = set(oa.pv), set(ob.pv)
            return [(st, PYCMP[n](ka, kb))]
        if isinstance(oa, Obj) and isinstance(ob, Obj) and oa.pk == "list" and ob.pk == "list":
            return self.seq_order(st, n, oa.pv, ob.pv, cx, node)
        cur = [st]
        out = []
        for x, y, f in ((a, b, f1), (b, a, f2)):
            c = self.type_of(st, x)
            m = self.class_lookup(st, c, f) if c is not None else None
            if m is None:
                continue
            nxt = []
            for st in cur:
                for st, r in self.call(st, self.bind(st, m, x, c), [y], {}, cx, node):
                    if r is NotImplemented:
                        nxt.append(st)
                    else:
                        out.append((st, r))
            cur = nxt
        for st in cur:
            out.extend(self.err(st, "TypeError", "'%s' not supported" % n, node, cx))
        return out

    def seq_order(self, st, n, xs, ys, cx, node):
        cur = [st]
        out = []
        for x, y in zip(xs, ys):
            nxt = []
            for st in cur:
                for st, e in self.eq(st, x, y, cx, node):
                    if isinstance(e, Abrupt):
                        out.append((st, e))
                        continue
                    for st, t in self.truth(st, e, cx, node):
                        if isinstance(t, Abrupt):
                            out.append((st, t))
                        elif t:
                            nxt.append(st)
                        else:
                            out.extend(self.compare(st, {"Lt": ast.Lt(), "LtE": ast.Lt(), "Gt": ast.Gt(), "GtE": ast.Gt()}[n], x, y, cx, node))
            cur = nxt
        for st in cur:
            out.append((st, PYCMP[n](len(xs), len(ys))))
        return out

    def identical(self, st, a, b):
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.a == b.a
        if isinstance(a, (type(None), bool)) or isinstance(b, (type(None), bool)):
            if isinstance(a, BoolV) or isinstance(b, BoolV):
                return None
            return a is b
        if isinstance(a, (BCls, BFn)) or isinstance(b, (BCls, BFn)):
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a is b
        if isinstance(a, int) and isinstance(b, int):
            return a == b and -5 <= a <= 256
        if type(a) is not type(b) and not (isinstance(a, (Num, int, float)) and isinstance(b, (Num, int, float))):
            if isinstance(a, Str) or isinstance(b, Str):
                return False      # a computed string is a new object
            return False
        if isinstance(a, Tup) or isinstance(a, Str):
            return False
        if isinstance(a, BoolV):
            return None
        if isinstance(a, (Num, int, float)):
            return None
        return a == b

    def eq(self, st, a, b, cx, node):
        if a is b and not isinstance(a, (float, Ref, BoolV, Num)):
            return [(st, True)]
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            if a == b:
                return [(st, True)]
            if isinstance(a, bool):
                return [(st, b if a else b.neg())]
            if isinstance(b, bool):
                return [(st, a if b else a.neg())]
            v = a if isinstance(a, BoolV) else b
            out = []
            for st, t in self.branch(st, v, cx, node):
                out.extend(self.eq(st, t if v is a else a, t if v is b else b, cx, node))
            return out
        if isinstance(a, (Num, int, float)) and isinstance(b, (Num, int, float)):
            pa, pb = self.poly(a), self.poly(b)
            if pa is None or pb is None:
                return [(st, isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b)]
            return [(st, sign_bool(psub(pa, pb), EQ0))]
        if isinstance(a, NATIVE) and isinstance(b, NATIVE):
            return [(st, a == b)]
        if isinstance(a, Str) or isinstance(b, Str):
            s, t = (a, b) if isinstance(a, Str) else (b, a)
            if isinstance(t, str):
                if not S.may_equal(s, t):
                    return [(st, False)]
                return [(st, BoolV("p", ("streq", s, t), True))]
            if isinstance(t, Str):
                if s == t:
                    return [(st, True)]
                r = S_eq(s, t)
                if r is not None:
                    return [(st, r)]
                if len(s.parts) == 1 and len(t.parts) == 1 and getattr(s.parts[0], "atom", None) is not None and getattr(t.parts[0], "atom", None) is not None and s.parts[0].kind == t.parts[0].kind == "int":
                    return [(st, sign_bool(psub(patom(s.parts[0].atom), patom(t.parts[0].atom)), EQ0))]
                return [(st, BoolV("p", ("streq2", s, t), True))]
            if not isinstance(t, Ref):
                return [(st, False)]
        if isinstance(a, Tup) and isinstance(b, Tup):
            return self.seq_eq(st, a.items, b.items, cx, node)
        return self.eq_dispatch(st, a, b, cx, node)

    def seq_eq(self, st, xs, ys, cx, node):
        if len(xs) != len(ys):
            return [(st, False)]
        out = []
        cur = [st]
        for x, y in zip(xs, ys):
            nxt = []
            for st in cur:
                if self.identical(st, x, y):
                    nxt.append(st)
                    continue
                for st, e in self.eq(st, x, y, cx, node):
                    if isinstance(e, Abrupt):
                        out.append((st, e))
                        continue
                    for st, t in self.truth(st, e, cx, node):
                        if t is True:
                            nxt.append(st)
                        else:
                            out.append((st, t))
            cur = nxt
        out.extend((st, True) for st in cur)
        return out

    def eq_dispatch(self, st, a, b, cx, node):
        ca, cb = self.type_of(st, a), self.type_of(st, b)
        order = [(a, b, ca), (b, a, cb)]
        if ca != cb and isinstance(cb, Ref) and ca is not None and ca in self.mro_of(st, cb):
            order.reverse()
        out = []
        cur = [st]
        for x, y, c in order:
            if c is None:
                continue
            m = self.class_lookup(st, c, "__eq__")
            if m is None:
                continue
            nxt = []
            for st in cur:
                for st, r in self.call(st, self.bind(st, m, x, c), [y], {}, cx, node):
                    if r is NotImplemented:
                        nxt.append(st)
                    else:
                        out.append((st, r))
            cur = nxt
        for st in cur:
            r = self.identical(st, a, b)
            out.append((st, bool(r)))
        return out

    def ne(self, st, a, b, cx, node):
        # user-defined __ne__
        for x, y in ((a, b), (b, a)):
            c = self.type_of(st, x) if isinstance(x, Ref) else None
            if isinstance(c, Ref):
                m = self.class_lookup(st, c, "__ne__")
                if m is not None and not isinstance(m, BFn):
                    out = []
                    for st, r in self.call(st, self.bind(st, m, x, c), [y], {}, cx, node):
                        if r is NotImplemented:
                            for st, t in self.eq(st, a, b, cx, node):
                                for st, t2 in ([(st, t)] if isinstance(t, Abrupt) else self.truth(st, t, cx, node)):
                                    out.append((st, t2 if isinstance(t2, Abrupt) else not t2))
                        else:
                            out.append((st, r))
                    return out
        out = []
        for st, r in self.eq(st, a, b, cx, node):
            if isinstance(r, Abrupt):
                out.append((st, r))
            elif isinstance(r, BoolV):
                out.append((st, r.neg()))
            else:
                for st, t in self.truth(st, r, cx, node):
                    out.append((st, t if isinstance(t, Abrupt) else not t))
        return out

    def contains(self, st, x, c, cx, node):
        if isinstance(c, (str, Str)):
            if isinstance(x, str) and isinstance(c, str):
                return [(st, x in c)]
            if isinstance(x, str):
                r = S.contains(c, x)
                return [(st, r if r is not None else BoolV("p", ("str", "contains", c, x), True))]
            if isinstance(x, Str):
                return [(st, BoolV("p", ("strin", x, c), True))]
            return self.err(st, "TypeError", "'in <string>' requires string as left operand", node, cx)
        if isinstance(c, range):
            if isinstance(x, int):
                return [(st, x in c)]
        if isinstance(c, Ref):
            o = st.get(c)
            if isinstance(o, Obj):
                f = self.class_lookup(st, o.cls, "__contains__")
                if f is not None and not isinstance(f, BFn):
                    return self.call(st, self.bind(st, f, c, o.cls), [x], {}, cx, node)
                if o.pk in ("dict", "set", "idict"):
                    out = []
                    for st, hit in self.B.key_lookup(self, st, self.B.pview(st, o), x, cx, node):
                        out.append((st, hit if isinstance(hit, Abrupt) else hit is not None))
                    return out
                if o.pk in ("list", "tuple"):
                    return self.in_items(st, x, o.pv, cx, node)
            if isinstance(o, ClsO) and o.meta is not None:
                f = self.class_lookup(st, o.meta, "__contains__")
                if f is not None:
                    return self.call(st, BM(f, c), [x], {}, cx, node)
        if isinstance(c, Tup):
            return self.in_items(st, x, c.items, cx, node)
        # generic iteration
        found = []

        def step(st, item):
            res = []
            if self.identical(st, x, item):
                return [(st, "hit")]
            for st, e in self.eq(st, item, x, cx, node):
                if isinstance(e, Abrupt):
                    res.append((st, e))
                    continue
                for st, t in self.truth(st, e, cx, node):
                    res.append((st, t if isinstance(t, Abrupt) else ("hit" if t else None)))
            return res

        out = []
        for st, sig in self.iter_each(st, c, cx, node, step):
            out.append((st, sig if isinstance(sig, Abrupt) else sig == "hit"))
        return out

    def in_items(self, st, x, items, cx, node):
        out = []
        cur = [st]
        for it in items:
            nxt = []
            for st in cur:
                if self.identical(st, x, it):
                    out.append((st, True))
                    continue
                for st, e in self.eq(st, it, x, cx, node):
                    if isinstance(e, Abrupt):
                        out.append((st, e))
                        continue
                    for st, t in self.truth(st, e, cx, node):
                        if t is False:
                            nxt.append(st)
                        else:
                            out.append((st, t))
            cur = nxt
        out.extend((st, False) for st in cur)
        return out

    # ------------------------------------------------------------------ types and attributes
    def type_of(self, st, v):
        B = self.B
        if v is None:
            return B.NoneType_
        if isinstance(v, (bool, BoolV)):
            return B.bool_
        if isinstance(v, int):
            return B.int_
        if isinstance(v, float):
            return B.float_
        if isinstance(v, Num):
            return B.int_ if v.ty == "int" else B.float_
        if isinstance(v, (str, Str)):
            return B.str_
        if isinstance(v, bytes):
            return B.bytes_
        if isinstance(v, Tup):
            return B.tuple_
        if isinstance(v, range):
            return B.range_
        if isinstance(v, BCls):
            return B.type_
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, Obj):
                return o.cls
            if isinstance(o, ClsO):
                return o.meta or B.type_
            if isinstance(o, FnO):
                return B.function_
            if isinstance(o, ModO):
                return B.module_
            if isinstance(o, (GenO,)):
                return B.generator_
            if isinstance(o, IterO):
                return B.iterator_
        if isinstance(v, BFn):
            return B.builtin_fn_
        if isinstance(v, BM):
            return B.method_
        if isinstance(v, Prop):
            return B.property_
        if isinstance(v, SM):
            return B.staticmethod_
        if isinstance(v, CM):
            return B.classmethod_
        if isinstance(v, SliceV):
            return B.slice_
        if v is NotImplemented:
            return B.NotImplementedType_
        return B.object_

    def bind(self, st, f, obj, cls):
        """descriptor binding for functions found in a class"""
        if isinstance(f, BFn):
            return BM(f, obj)
        if isinstance(f, Ref):
            o = st.get(f)
            if isinstance(o, FnO):
                return BM(f, obj)
            return f
        if isinstance(f, SM):
            return f.f
        if isinstance(f, CM):
            return BM(f.f, cls)
        return f

    def getattr_(self, st, o, name, cx, node):
        try:
            res = self._getattr(st, o, name, cx, node)
        except Unsupported as e:
            return self.unsupported(st, str(e), node, cx)
        if len(res) == 1 and type(res[0][1]) is Unk:
            return self.unsupported(res[0][0], res[0][1].why, node, cx)
        return res

    def no_attr(self, st, o, name, cx, node):
        return self.err(st, "AttributeError", "%s has no attribute '%s'" % (self.tname(st, o), name), node, cx)

    def tname(self, st, o):
        c = self.type_of(st, o)
        return c.name if isinstance(c, BCls) else st.get(c).name

    def _getattr(self, st, o, name, cx, node):
        if isinstance(o, Ref):
            h = st.get(o)
            t = type(h)
            if t is Obj:
                if h.cls is self.B.opaque_:
                    return self.unsupported(st, "%s.%s" % (h.attrs["name"], name), node, cx)
                return self.inst_getattr(st, o, h, name, cx, node)
            if t is ModO:
                if name in h.ns:
                    return [(st, h.ns[name])]
                if name == "__dict__":
                    return [(st, self.snapshot_dict(st, h.ns))]
                full = h.name + "." + name
                if full in self.modules:
                    return [(st, self.modules[full])]
                if h.file is None or (self.shims and h.file.startswith(self.shims)):
                    return self.unsupported(st, "%s.%s" % (h.name, name), node, cx)
                return self.no_attr(st, o, name, cx, node)
            if t is ClsO:
                return self.cls_getattr(st, o, h, name, cx, node)
            if t is FnO:
                if name in h.attrs:
                    return [(st, h.attrs[name])]
                if name == "__name__":
                    return [(st, h.name)]
                if name == "__qualname__":
                    return [(st, h.qual)]
                if name == "__module__":
                    return [(st, st.get(h.mod).name)]
                if name == "__dict__":
                    return [(st, self.snapshot_dict(st, h.attrs))]
                if name == "__annotations__":
                    a = h.node.args
                    anns = [(x.arg, x.annotation) for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None]
                    if getattr(h.node, "returns", None) is not None:
                        anns.append(("return", h.node.returns))
                    return [(st, vs if isinstance(vs, Abrupt) else self.snapshot_dict(st, {k: v for (k, _), v in zip(anns, vs)}))
                            for st, vs in self.ev_list([e for _, e in anns], st, Cx(h.env, h.mod, h.file, h.qual))]
                if name == "__doc__":
                    return [(st, ast.get_docstring(h.node) if isinstance(h.node, ast.FunctionDef) else None)]
                if name == "__defaults__":
                    return [(st, Tup(h.defaults) if h.defaults else None)]
                if name == "__get__":
                    return [(st, BFn("__get__", lambda I, st, args, kw, cx, node: [(st, BM(o, args[0]) if args[0] is not None else o)]))]
                if name == "__call__":
                    return [(st, o)]
                return self.no_attr(st, o, name, cx, node)
            if t is GenO or t is IterO:
                c = self.type_of(st, o)
                m = self.class_lookup(st, c, name)
                if m is not None:
                    return [(st, BM(m, o))]
                return self.no_attr(st, o, name, cx, node)
        if isinstance(o, BCls):
            if name == "__name__" or name == "__qualname__":
                return [(st, o.name)]
            if name == "__module__":
                return [(st, o.module)]
            if name == "__mro__":
                return [(st, Tup(o.mro))]
            if name == "__bases__":
                return [(st, Tup(o.bases))]
            m = None
            for k in o.mro:
                if name in k.methods:
                    m = k.methods[name]
                    break
            if m is not None:
                if isinstance(m, CM):
                    return [(st, BM(m.f, o))]
                if isinstance(m, SM):
                    return [(st, m.f)]
                return [(st, m)]
            if name == "__doc__":
                return [(st, "")]
            if pyhas(o.name, name):
                return self.unsupported(st, "%s.%s" % (o.name, name), node, cx)
            return self.no_attr(st, o, name, cx, node)
        if isinstance(o, SuperV):
            return self.super_getattr(st, o, name, cx, node)
        if isinstance(o, BM):
            if name == "__self__":
                return [(st, o.self_)]
            if name == "__func__":
                return [(st, o.func)]
            return self._getattr(st, o.func, name, cx, node)
        if isinstance(o, BFn):
            if name in ("__name__", "__qualname__"):
                return [(st, o.name)]
            if name == "__doc__":
                return [(st, "")]
            return self.no_attr(st, o, name, cx, node)
        if isinstance(o, Prop):
            if name in ("fget", "fset", "fdel"):
                return [(st, getattr(o, name))]
            if name in ("getter", "setter", "deleter"):
                def f(I, st, args, kw, cx, node, name=name):
                    p = Prop(o.fget, o.fset, o.fdel)
                    setattr(p, {"getter": "fget", "setter": "fset", "deleter": "fdel"}[name], args[0])
                    return [(st, p)]
                return [(st, BFn(name, f))]
            if name == "__get__":
                return [(st, BFn("__get__", lambda I, st, a, kw, cx, node: I.call(st, o.fget, [a[0]], {}, cx, node) if a[0] is not None else [(st, o)]))]
            if name == "__set__":
                return [(st, BFn("__set__", lambda I, st, a, kw, cx, node: I.call(st, o.fset, [a[0], a[1]], {}, cx, node)))]
            if name == "__delete__":
                return [(st, BFn("__delete__", lambda I, st, a, kw, cx, node: I.call(st, o.fdel, [a[0]], {}, cx, node)))]
            if name == "__doc__":
                return [(st, None)]
            return self.no_attr(st, o, name, cx, node)
        if isinstance(o, (SM, CM)) and name == "__func__":
            return [(st, o.f)]
        if isinstance(o, SliceV):
            if name in ("start", "stop", "step"):
                return [(st, {"start": o.lo, "stop": o.hi, "step": o.step}[name])]
        # values of builtin types
        c = self.type_of(st, o)
        if name == "__class__":
            return [(st, c)]
        m = self.class_lookup(st, c, name)
        if m is not None:
            if isinstance(m, Prop):
                return self.call(st, m.fget, [o], {}, cx, node)
            return [(st, self.bind(st, m, o, c))]
        if pyhas(c.name, name):
            return self.unsupported(st, "%s.%s" % (c.name, name), node, cx)
        return self.no_attr(st, o, name, cx, node)

    def snapshot_dict(self, st, ns):
        return st.new(Obj(self.B.dict_, pk="dict", pv={("c", k): (k, v) for k, v in ns.items()}))

    def inst_getattr(self, st, ref, o, name, cx, node, skip_user=False):
        cls = o.cls
        if not skip_user:
            g = self.class_lookup(st, cls, "__getattribute__")
            if g is not None and not isinstance(g, BFn):
                return self.call(st, BM(g, ref), [name], {}, cx, node)
        cv = None
        found = False
        for k in self.mro_of(st, cls):
            ns = self.cls_ns(st, k)
            if name in ns:
                cv = ns[name]
                found = True
                break
        if found:
            if isinstance(cv, Prop):
                if cv.fget is None:
                    return self.err(st, "AttributeError", "unreadable attribute", node, cx)
                res = self.call(st, cv.fget, [ref], {}, cx, node)
                return self.getattr_fallback(st, res, ref, cls, name, cx, node)
            if isinstance(cv, Ref):
                d = st.get(cv)
                if isinstance(d, Obj):
                    get = self.class_lookup(st, d.cls, "__get__")
                    if get is not None:
                        if self.class_lookup(st, d.cls, "__set__") is not None or name not in o.attrs:
                            return self.call(st, self.bind(st, get, cv, d.cls), [ref, cls], {}, cx, node)
        if name in o.attrs:
            return [(st, o.attrs[name])]
        if name == "__dict__":
            return [(st, self.B.dict_proxy(self, st, ref))]
        if name == "__class__":
            return [(st, cls)]
        if found:
            return [(st, self.bind(st, cv, ref, cls))]
        if name == "__doc__":
            return [(st, None)]
        if name == "__module__":
            return [(st, "")]
        f = self.class_lookup(st, cls, "__getattr__")
        if f is not None:
            return self.call(st, self.bind(st, f, ref, cls), [name], {}, cx, node)
        base = self.payload_base(st, cls)
        if base is not None and pyhas(base.name, name):
            return self.unsupported(st, "%s.%s" % (base.name, name), node, cx)
        return self.no_attr(st, ref, name, cx, node)

    def getattr_fallback(self, st, res, ref, cls, name, cx, node):
        """property raised AttributeError -> __getattr__"""
        f = self.class_lookup(st, cls, "__getattr__")
        if f is None:
            return res
        out = []
        for st, v in res:
            if isinstance(v, Raise) and self.B.EXC["AttributeError"] in self.mro_of(st, st.get(v.exc).cls):
                out.extend(self.call(st, self.bind(st, f, ref, cls), [name], {}, cx, node))
            else:
                out.append((st, v))
        return out

    def payload_base(self, st, cls):
        for k in self.mro_of(st, cls):
            if isinstance(k, BCls) and k.name != "object":
                return k
        return None

    def cls_getattr(self, st, ref, h, name, cx, node):
        for k in h.mro:
            ns = self.cls_ns(st, k)
            if name in ns:
                v = ns[name]
                if isinstance(v, SM):
                    return [(st, v.f)]
                if isinstance(v, CM):
                    return [(st, BM(v.f, ref))]
                if isinstance(v, Ref) and isinstance(st.get(v), Obj):
                    get = self.class_lookup(st, st.get(v).cls, "__get__")
                    if get is not None:
                        return self.call(st, self.bind(st, get, v, st.get(v).cls), [None, ref], {}, cx, node)
                return [(st, v)]
        if name == "__name__":
            return [(st, h.name)]
        if name == "__qualname__":
            return [(st, h.qual)]
        if name == "__module__":
            return [(st, h.mod)]
        if name == "__mro__":
            return [(st, Tup(h.mro))]
        if name == "__bases__":
            return [(st, Tup(h.bases))]
        if name == "__dict__":
            return [(st, self.snapshot_dict(st, h.ns))]
        if name == "__class__":
            return [(st, h.meta or self.B.type_)]
        if h.meta is not None:
            v = self.class_lookup(st, h.meta, name)
            if isinstance(v, Prop):
                return self.call(st, v.fget, [ref], {}, cx, node)
            if v is not None:
                return [(st, self.bind(st, v, ref, h.meta))]
            v = self.class_lookup(st, h.meta, "__getattr__")
            if v is not None:
                return self.call(st, self.bind(st, v, ref, h.meta), [name], {}, cx, node)
        if name == "__doc__":
            return [(st, None)]
        if name == "mro":
            return [(st, BFn("mro", lambda I, st, a, kw, cx, node: [(st, I.new_list(st, h.mro))]))]
        if name == "__subclasses__":
            subs = [Ref(a) for d in (self.base, st.ov) for a, c in d.items() if isinstance(c, ClsO) and ref in c.bases]
            return [(st, BFn("__subclasses__", lambda I, st, a, kw, cx, node: [(st, I.new_list(st, subs))]))]
        return self.no_attr(st, ref, name, cx, node)

    def super_getattr(self, st, s, name, cx, node):
        obj = s.obj
        if isinstance(obj, Ref) and isinstance(st.get(obj), ClsO) and (st.get(obj).meta is None or s.cls in st.get(obj).mro):
            mro = st.get(obj).mro
            is_cls = True
            cls = obj
        else:
            cls = self.type_of(st, obj)
            mro = self.mro_of(st, cls)
            is_cls = False
        i = list(mro).index(s.cls) if s.cls in mro else -1
        for k in list(mro)[i + 1:]:
            ns = self.cls_ns(st, k)
            if name in ns:
                v = ns[name]
                if isinstance(v, Prop):
                    return self.call(st, v.fget, [obj], {}, cx, node)
                if is_cls:
                    if isinstance(v, SM):
                        return [(st, v.f)]
                    if isinstance(v, CM):
                        return [(st, BM(v.f, obj))]
                    return [(st, v)]
                return [(st, self.bind(st, v, obj, cls))]
        base = self.payload_base(st, cls)
        if base is not None and pyhas(base.name, name):
            return self.unsupported(st, "%s.%s" % (base.name, name), node, cx)
        return self.err(st, "AttributeError", "'super' object has no attribute '%s'" % name, node, cx)

    def note_write(self, st, ref, what, cx, node):
        """a store to an object that exists since import time"""
        if ref.a < self.frozen:
            k = (ref.a, what, rel(cx.file), cx.func)
            if k not in self.events:
                self.events[k] = (getattr(node, "lineno", 0), tuple(self.stack[-8:]))

    def setattr_(self, st, o, name, v, cx, node):
        if isinstance(o, Ref):
            h = st.get(o)
            if isinstance(h, Obj):
                f = self.class_lookup(st, h.cls, "__setattr__")
                if f is not None and not isinstance(f, BFn):
                    return [(st, r if isinstance(r, Abrupt) else None) for st, r in self.call(st, BM(f, o), [name, v], {}, cx, node)]
                return self.inst_setattr(st, o, name, v, cx, node)
            if isinstance(h, (ModO, ClsO)):
                self.note_write(st, o, name, cx, node)
                st.mut(o).ns[name] = v
                return [(st, None)]
            if isinstance(h, FnO):
                self.note_write(st, o, name, cx, node)
                st.mut(o).attrs[name] = v
                return [(st, None)]
        if isinstance(o, BM):
            return self.err(st, "AttributeError", "'method' object has no attribute '%s'" % name, node, cx)
        if isinstance(o, SuperV):
            return self.inst_setattr(st, o.obj, name, v, cx, node)
        return self.err(st, "AttributeError", "%s has no attribute '%s'" % (self.tname(st, o), name), node, cx)

    def may_hold(self, st, cls, name):
        """false if the classes define __slots__ without this name"""
        for k in self.mro_of(st, cls):
            if isinstance(k, BCls):
                if k.name not in ("object", "tuple", "list", "dict", "set", "str", "int", "float", "frozenset"):
                    return True
                continue
            sl = self.cls_ns(st, k).get("__slots__")
            if sl is None:
                return True
            if isinstance(sl, str):
                sl = [sl]
            else:
                sl = self.seq_items(st, sl)
            if sl is None or name in sl or "__dict__" in sl:
                return True
        return False

    def inst_setattr(self, st, ref, name, v, cx, node):
        o = st.get(ref)
        cv = self.class_lookup(st, o.cls, name)
        if isinstance(cv, Prop):
            if cv.fset is None:
                return self.err(st, "AttributeError", "can't set attribute '%s'" % name, node, cx)
            return [(st, r if isinstance(r, Abrupt) else None) for st, r in self.call(st, cv.fset, [ref, v], {}, cx, node)]
        if isinstance(cv, Ref) and isinstance(st.get(cv), Obj):
            d = st.get(cv)
            f = self.class_lookup(st, d.cls, "__set__")
            if f is not None:
                return [(st, r if isinstance(r, Abrupt) else None) for st, r in self.call(st, self.bind(st, f, cv, d.cls), [ref, v], {}, cx, node)]
        if isinstance(o.cls, BCls) and o.cls.name in ("object", "list", "dict", "set", "tuple"):
            return self.err(st, "AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name), node, cx)
        if name == "__class__":
            st.mut(ref).cls = v
            return [(st, None)]
        if name == "__dict__":
            return self.unsupported(st, "assignment to __dict__", node, cx)
        if name not in o.attrs and not self.may_hold(st, o.cls, name):
            return self.err(st, "AttributeError", "'%s' object has no attribute '%s'" % (self.tname(st, ref), name), node, cx)
        self.note_write(st, ref, name, cx, node)
        m = st.mut(ref)
        m.attrs[name] = v
        m.sites[name] = self.site(node, cx)
        return [(st, None)]

    def delattr_(self, st, o, name, cx, node):
        if isinstance(o, Ref):
            h = st.get(o)
            if isinstance(h, Obj):
                f = self.class_lookup(st, h.cls, "__delattr__")
                if f is not None and not isinstance(f, BFn):
                    return [(st, r if isinstance(r, Abrupt) else None) for st, r in self.call(st, BM(f, o), [name], {}, cx, node)]
                return self.inst_delattr(st, o, name, cx, node)
            if isinstance(h, (ModO, ClsO, FnO)):
                self.note_write(st, o, name, cx, node)
                m = st.mut(o)
                ns = m.attrs if isinstance(h, FnO) else m.ns
                if name in ns:
                    del ns[name]
                    return [(st, None)]
        return self.no_attr(st, o, name, cx, node)

    def inst_delattr(self, st, ref, name, cx, node):
        o = st.get(ref)
        cv = self.class_lookup(st, o.cls, name)
        if isinstance(cv, Prop):
            if cv.fdel is None:
                return self.err(st, "AttributeError", "can't delete attribute '%s'" % name, node, cx)
            return [(st, r if isinstance(r, Abrupt) else None) for st, r in self.call(st, cv.fdel, [ref], {}, cx, node)]
        if isinstance(cv, Ref) and isinstance(st.get(cv), Obj):
            d = st.get(cv)
            f = self.class_lookup(st, d.cls, "__delete__")
            if f is not None:
                return [(st, r if isinstance(r, Abrupt) else None) for st, r in self.call(st, self.bind(st, f, cv, d.cls), [ref], {}, cx, node)]
        if name in o.attrs:
            self.note_write(st, ref, name, cx, node)
            del st.mut(ref).attrs[name]
            return [(st, None)]
        return self.no_attr(st, ref, name, cx, node)

    # ------------------------------------------------------------------ items
    def getitem(self, st, o, k, cx, node):
        try:
            return self.B.getitem(self, st, o, k, cx, node)
        except Unsupported as e:
            return self.unsupported(st, str(e), node, cx)

    def setitem(self, st, o, k, v, cx, node):
        try:
            return self.B.setitem(self, st, o, k, v, cx, node)
        except Unsupported as e:
            return self.unsupported(st, str(e), node, cx)

    def delitem(self, st, o, k, cx, node):
        try:
            return self.B.delitem(self, st, o, k, cx, node)
        except Unsupported as e:
            return self.unsupported(st, str(e), node, cx)

    # ------------------------------------------------------------------ iteration
    def implied_int(self, st, v, limit=24):
        """the only natural number (up to a limit) that a number can be, or None"""
        if isinstance(v, int):
            return v
        if not isinstance(v, Num) or v.ty != "int":
            return None
        c = v.p.const()
        if c is not None:
            return int(c)
        for i in range(limit):
            b = sign_bool(psub(v.p, pconst(i)), frozenset((0,)))
            if not isinstance(b, BoolV):
                continue
            cur = st.signs.get(b.key)
            if cur is not None and cur == b.val:
                return i
        return None

    def seq_items(self, st, v):
        """items of a sequence whose length is known, or None"""
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, range):
            return tuple(v)
        if isinstance(v, bytes):
            return tuple(v)
        if isinstance(v, Str):
            if S.fixed_len(v) is not None and all(isinstance(p, str) or p.hi == 1 for p in v.parts):
                return tuple(S.mk([x]) for x in S.expand(v))
            n = self.implied_int(st, self.B.len_(self, st, v, None, None)[0][1])
            if n is not None:
                # the characters of a text of a known length
                out = []
                for i in range(n):
                    r = S.slice_(v, i, i + 1)
                    out.append(r if r is not None else self.B.derive(("slice", i, i + 1), v, lo=1, hi=1))
                return tuple(out)
            return None
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, Obj):
                if o.pk in ("list", "tuple"):
                    return o.pv
                if o.pk in ("dict", "set", "idict"):
                    items = tuple(k for k, _ in self.B.pview(st, o).values())
                    if o.pk == "set" and self.set_rev:
                        return items[::-1]
                    return items
            if isinstance(o, IterO):
                return o.items[o.i:]
        return None

    def iter_each(self, st, v, cx, node, step):
        """run step on every item; step returns [(st, signal)]; None continues"""
        mark = st.nxt
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, Obj):
                f = self.class_lookup(st, o.cls, "__iter__")
                if f is not None and not isinstance(f, BFn):
                    out = []
                    for st, it in self.call(st, self.bind(st, f, v, o.cls), [], {}, cx, node):
                        if isinstance(it, Abrupt):
                            out.append((st, it))
                        elif it == v:
                            out.extend(self.iter_next(st, v, cx, node, step))
                        else:
                            out.extend(self.iter_each(st, it, cx, node, step))
                    return out
                if o.pk == "list":
                    return self.iter_live(st, v, step, mark)
                if o.pk is None:
                    f = self.class_lookup(st, o.cls, "__getitem__")
                    if f is not None:
                        return self.iter_getitem(st, v, cx, node, step)
                    if self.class_lookup(st, o.cls, "__next__") is not None:
                        return self.iter_next(st, v, cx, node, step)
                    return self.err(st, "TypeError", "'%s' object is not iterable" % self.tname(st, v), node, cx)
            if isinstance(o, GenO):
                if o.used is True:
                    return [(st, None)]
                if o.used and o.kind != "expr":
                    return self.unsupported(st, "resumption of a generator", node, cx)
                n = o.used
                st.mut(v).used = True
                if n:
                    return self.run_rest(st, o, step, n)
                return self.run_gen(st, o, step, False)
            if isinstance(o, IterO):
                items = o.items[o.i:]
                st.mut(v).i = len(o.items)
                return self.iter_seq(st, items, step, mark)
            if isinstance(o, ClsO) and o.meta is not None:
                f = self.class_lookup(st, o.meta, "__iter__")
                if f is not None:
                    out = []
                    for st, it in self.call(st, BM(f, v), [], {}, cx, node):
                        if isinstance(it, Abrupt):
                            out.append((st, it))
                        else:
                            out.extend(self.iter_each(st, it, cx, node, step))
                    return out
        items = self.seq_items(st, v)
        if items is None:
            if isinstance(v, Str):
                return self.unsupported(st, "iteration over an unknown string", node, cx)
            return self.err(st, "TypeError", "'%s' object is not iterable" % self.tname(st, v), node, cx)
        return self.iter_seq(st, items, step, mark)

    def iter_seq(self, st, items, step, mark):
        cur = [st]
        outs = []
        for it in items:
            nxt = []
            for s in cur:
                for r in step(s, it):
                    if r[1] is None:
                        nxt.append(r[0])
                    else:
                        outs.append(r)
            if len(nxt) > 1:
                nxt = [x for x, _ in self.merge([(x, None) for x in nxt], mark)]
            cur = nxt
            if not cur:
                break
        return outs + [(s, None) for s in cur]

    def iter_live(self, st, ref, step, mark):
        cur = [st]
        outs = []
        i = 0
        while cur and i < 2000:
            nxt = []
            for s in cur:
                pv = s.get(ref).pv
                if i >= len(pv):
                    outs.append((s, None))
                    continue
                for r in step(s, pv[i]):
                    if r[1] is None:
                        nxt.append(r[0])
                    else:
                        outs.append(r)
            if len(nxt) > 1:
                nxt = [x for x, _ in self.merge([(x, None) for x in nxt], mark)]
            cur = nxt
            i += 1
        return outs + [(s, Stuck("iteration bound")) for s in cur]

    def iter_next(self, st, it, cx, node, step):
        cur = [st]
        out = []
        for _ in range(200):
            nxt = []
            for st in cur:
                for st, v in self.call_method(st, it, "__next__", [], cx, node):
                    if isinstance(v, Raise) and self.B.EXC["StopIteration"] in self.mro_of(st, st.get(v.exc).cls):
                        out.append((st, None))
                    elif isinstance(v, Abrupt):
                        out.append((st, v))
                    else:
                        for r in step(st, v):
                            if r[1] is None:
                                nxt.append(r[0])
                            else:
                                out.append(r)
            cur = nxt
            if not cur:
                return out
        return out + [(s, Stuck("iteration bound")) for s in cur]

    def iter_getitem(self, st, it, cx, node, step):
        cur = [st]
        out = []
        for i in range(200):
            nxt = []
            for st in cur:
                for st, v in self.call_method(st, it, "__getitem__", [i], cx, node):
                    if isinstance(v, Raise) and self.B.EXC["IndexError"] in self.mro_of(st, st.get(v.exc).cls):
                        out.append((st, None))
                    elif isinstance(v, Abrupt):
                        out.append((st, v))
                    else:
                        for r in step(st, v):
                            if r[1] is None:
                                nxt.append(r[0])
                            else:
                                out.append(r)
            cur = nxt
            if not cur:
                return out
        return out + [(s, Stuck("iteration bound")) for s in cur]

    def run_rest(self, st, g, handler, skip):
        """run a generator expression again, skipping the values already taken"""
        cell = st.new(Obj(self.B.object_, {"n": 0}))

        def h(st, v):
            n = st.get(cell).attrs["n"]
            st.mut(cell).attrs["n"] = n + 1
            return [(st, None)] if n < skip else handler(st, v)
        return self.run_gen(st, g, h, False)

    def run_gen(self, st, g, handler, throw, cell=None):
        """run a generator, giving every yielded value to the handler"""
        if g.kind == "expr":
            def emit(st, ccx):
                res = []
                for st, v in self.ev(g.node.elt, st, ccx):
                    if isinstance(v, Abrupt):
                        res.append((st, v))
                    else:
                        res.extend(handler(st, v))
                return res
            return self.run_comp(g.node, st, g.cx, g.src, emit)
        cx = Cx(g.cx.env, g.cx.mod, g.cx.file, g.cx.func, g.cx.info, (handler, throw))
        out = []
        for st, o in self.block(g.node.body, st, cx):
            if o is None:
                out.append((st, None))
            elif isinstance(o, Ret):
                if o.v is not None and cell is not None:
                    st.mut(cell).attrs["v"] = o.v
                out.append((st, None))
            elif isinstance(o, GenExit):
                out.append((st, o.sig))
            else:
                out.append((st, o))
        return out

    def to_list(self, st, v, cx, node):
        """materialise an iterable -> [(st, [items]) or Abrupt]"""
        if isinstance(v, Ref):
            o = st.get(v)
            simple = isinstance(o, Obj) and o.pk in ("list", "tuple", "dict", "set", "idict") and not self.user_iter(st, o.cls)
        else:
            simple = True
        if simple:
            items = self.seq_items(st, v)
            if items is not None:
                return [(st, list(items))]
        acc = self.new_list(st, ())

        def step(st, item):
            o = st.mut(acc)
            o.pv = o.pv + (item,)
            return [(st, None)]

        out = []
        for st, sig in self.iter_each(st, v, cx, node, step):
            out.append((st, sig if sig is not None else list(st.get(acc).pv)))
        return out

    def user_iter(self, st, cls):
        f = self.class_lookup(st, cls, "__iter__")
        return f is not None and not isinstance(f, BFn)

    # ------------------------------------------------------------------ calls
    def call_method(self, st, o, name, args, cx, node):
        out = []
        for st, m in self.getattr_(st, o, name, cx, node):
            if isinstance(m, Abrupt):
                out.append((st, m))
            else:
                out.extend(self.call(st, m, args, {}, cx, node))
        return out

    def call(self, st, f, args, kwargs, cx, node):
        try:
            return self._call(st, f, args, kwargs, cx, node)
        except Unsupported as e:
            return self.unsupported(st, str(e), node, cx)

    def _call(self, st, f, args, kwargs, cx, node):
        if isinstance(f, BM):
            return self._call(st, f.func, [f.self_] + list(args), kwargs, cx, node)
        if isinstance(f, BFn):
            return f.fn(self, st, list(args), kwargs, cx, node)
        if isinstance(f, Ref):
            h = st.get(f)
            if isinstance(h, FnO):
                return self.call_fn(st, f, h, args, kwargs, cx, node)
            if isinstance(h, ClsO):
                if h.meta is not None:
                    m = self.class_lookup(st, h.meta, "__call__")
                    if m is not None and not isinstance(m, BFn):
                        return self._call(st, BM(m, f), args, kwargs, cx, node)
                return self.instantiate(st, f, h, args, kwargs, cx, node)
            if isinstance(h, Obj):
                if h.cls is self.B.opaque_:
                    return self.unsupported(st, "call of %s" % h.attrs["name"], node, cx)
                m = self.class_lookup(st, h.cls, "__call__")
                if m is not None:
                    return self._call(st, self.bind(st, m, f, h.cls), args, kwargs, cx, node)
            return self.err(st, "TypeError", "'%s' object is not callable" % self.tname(st, f), node, cx)
        if isinstance(f, BCls):
            return self.B.call_class(self, st, f, list(args), kwargs, cx, node)
        if isinstance(f, (SM,)):
            return self._call(st, f.f, args, kwargs, cx, node)
        if isinstance(f, Unk):
            return self.unsupported(st, f.why, node, cx)
        return self.err(st, "TypeError", "object is not callable", node, cx)

    def instantiate(self, st, ref, c, args, kwargs, cx, node):
        new = self.class_lookup(st, ref, "__new__")
        if isinstance(new, SM):
            new = new.f
        if new is not None and not isinstance(new, BFn):
            objs = self.call(st, new, [ref] + list(args), kwargs, cx, node)
        else:
            objs = self.B.alloc(self, st, ref, args, kwargs, cx, node)
        out = []
        for st, o in objs:
            if isinstance(o, Abrupt):
                out.append((st, o))
                continue
            init = self.class_lookup(st, ref, "__init__")
            if isinstance(o, Ref) and isinstance(st.get(o), ClsO) and st.get(o).meta == ref and init is not None:
                for st, r in self.call(st, self.bind(st, init, o, ref), args, kwargs, cx, node):
                    out.append((st, r if isinstance(r, Abrupt) else o))
                continue
            if not (isinstance(o, Ref) and isinstance(st.get(o), Obj) and ref in self.mro_of(st, st.get(o).cls)):
                out.append((st, o))
                continue
            if init is None:
                if (args or kwargs) and new is None and st.get(o).pk is None:
                    out.extend(self.err(st, "TypeError", "%s() takes no arguments" % c.name, node, cx))
                else:
                    out.append((st, o))
                continue
            for st, r in self.call(st, self.bind(st, init, o, ref), args, kwargs, cx, node):
                out.append((st, r if isinstance(r, Abrupt) else o))
        return out

    MAX_DEPTH = 90

    def call_fn(self, st, ref, f, args, kwargs, cx, node):
        info = f.info
        vars_ = {}
        pos = info.pos
        n = len(args)
        if n > len(pos):
            if info.vararg is None:
                return self.err(st, "TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), n), node, cx)
            vars_[info.vararg] = Tup(args[len(pos):])
            args = args[:len(pos)]
            n = len(pos)
        elif info.vararg is not None:
            vars_[info.vararg] = Tup(())
        for k, v in zip(pos, args):
            vars_[k] = v
        extra = {}
        if kwargs:
            posonly = info.posonly
            for k, v in kwargs.items():
                if (k in pos and k not in posonly) or k in info.kwonly:
                    if k in vars_:
                        return self.err(st, "TypeError", "%s() got multiple values for argument '%s'" % (f.name, k), node, cx)
                    vars_[k] = v
                elif info.kwarg is not None:
                    extra[k] = v
                else:
                    return self.err(st, "TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k), node, cx)
        if info.kwarg is not None:
            vars_[info.kwarg] = st.new(Obj(self.B.dict_, pk="dict", pv={("c", k): (k, v) for k, v in extra.items()}))
        nd = len(f.defaults)
        for i, k in enumerate(pos):
            if k not in vars_:
                j = i - (len(pos) - nd)
                if j < 0:
                    return self.err(st, "TypeError", "%s() missing required argument '%s'" % (f.name, k), node, cx)
                vars_[k] = f.defaults[j]
        for k in info.kwonly:
            if k not in vars_:
                if k not in f.kwdefaults:
                    return self.err(st, "TypeError", "%s() missing required keyword argument '%s'" % (f.name, k), node, cx)
                vars_[k] = f.kwdefaults[k]
        if pos:
            vars_["$first"] = vars_[pos[0]]
        if st.depth > self.MAX_DEPTH:
            return self.unsupported(st, "recursion depth", node, cx)
        mark = st.nxt
        env = st.new(EnvO(vars_, f.env, "fn", info.locals))
        ncx = Cx(env, f.mod, f.file, f.qual, info)
        self.functions.add((f.file, f.qual))
        self.callsites.add((cx.file, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        if info.gen and isinstance(f.node, ast.FunctionDef):
            return [(st, st.new(GenO("func", f.node, ncx, None)))]
        self.stack.append((rel(cx.file), getattr(node, "lineno", 0), f.qual))
        st.depth += 1
        out = []
        if isinstance(f.node, ast.Lambda):
            res = self.ev(f.node.body, st, ncx)
            for st, v in res:
                out.append((st, v))
        else:
            for st, o in self.block(f.node.body, st, ncx):
                if o is None:
                    out.append((st, None))
                elif isinstance(o, Ret):
                    out.append((st, o.v))
                else:
                    out.append((st, o))
        self.stack.pop()
        free = not info.nested
        for st, v in out:
            st.depth -= 1
            if free:
                st.ov.pop(env.a, None)
        if len(out) > 1:
            out = self.merge(out, mark)
        return out


class Budget(Exception):
    pass


NONE = ast.Constant(value=None)

import builtins as _pb
PY_BUILTINS = set(dir(_pb))


def pyhas(tname, attr):
    t = getattr(_pb, tname, None)
    return isinstance(t, type) and hasattr(t, attr)


def mangle(name, cx):
    if name.startswith("__") and not name.endswith("__"):
        parts = cx.func.split(".")
        cls = getattr(cx, "cls", None)
        # the class is the innermost enclosing class: qualified names are Class.method[.inner]
        c = CLASS_OF.get((cx.file, cx.func))
        if c is None:
            c = find_class(cx)
            CLASS_OF[(cx.file, cx.func)] = c
        if c:
            return "_" + c.lstrip("_") + name
    return name


CLASS_OF = {}
CLASS_QUALS = {}


def find_class(cx):
    """innermost class whose qualified name is a prefix of the function's"""
    parts = cx.func.split(".")
    quals = class_quals(cx.file)
    for i in range(len(parts), 0, -1):
        q = ".".join(parts[:i])
        if q in quals:
            return parts[i - 1]
    return ""


def class_quals(file):
    r = CLASS_QUALS.get(file)
    if r is None:
        r = set()
        with open(file, encoding="utf-8") as f:
            tree = ast.parse(f.read())

        def walk(n, prefix):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.ClassDef):
                    q = prefix + c.name
                    r.add(q)
                    walk(c, q + ".")
                elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    walk(c, prefix + c.name + ".")
                else:
                    walk(c, prefix)

        walk(tree, "")
        CLASS_QUALS[file] = r
    return r


def rel(f):
    if f is None:
        return "?"
    for p in ("/repo/", "/verif/"):
        if f.startswith(p):
            return f[len(p):] if p == "/repo/" else f[1:]
    return f


def common_trace(a, b):
    """longest common ancestor of two traces (linked lists)"""
    sa = []
    x = a
    while x is not None:
        sa.append(x)
        x = x[0]
    ids = {id(t) for t in sa}
    y = b
    while y is not None:
        if id(y) in ids:
            return y
        y = y[0]
    return None


def _attr_writer(n):
    def w(o, v):
        o.attrs[n] = v
    return w


def _pv_writer(o, v):
    o.pv = v


def _var_writer(n):
    def w(o, v):
        o.vars[n] = v
    return w


def zero_mod(d, p):
    """does p = 0 imply d = 0 (by linear substitution)?"""
    q, s = normal(d)
    if q == p:
        return True
    # substitute an atom that occurs linearly and alone in p
    for m, c in reversed(p.t):
        if len(m) == 1:
            a = m[0]
            if sum(1 for m2, _ in p.t if a in m2) == 1 and a not in inner_atoms(p):
                e = pscale(N._mk({mm: x for mm, x in p.t if mm != m}), -F1 / c)
                r = deep_subst(d, {a: e})
                return r is not None and not r.t
    return False


def inner_atoms(p):
    s = set()
    for a in p.atoms():
        if a.kind != "var":
            s.update(base_atoms(a.args))
    return s


def deep_subst(p, m):
    for a in p.atoms():
        if a.kind != "var" and any(x in m for q in a.args for x in base_atoms([q])):
            return None
    return subst(p, m)


def d_whole(modp):
    """is the equality of the form x - floor(x) = 0 (x is whole)?"""
    if modp is None:
        return False
    p = modp[0]
    return any(a.kind in ("floor", "trunc", "round") for a in p.atoms())


def S_eq(s, t):
    """decide equality of two templates where possible"""
    # same tokens in the same order with different literals of the same shape
    if [p for p in s.parts if not isinstance(p, str)] == [p for p in t.parts if not isinstance(p, str)]:
        if [isinstance(p, str) for p in s.parts] == [isinstance(p, str) for p in t.parts]:
            la = sum(len(p) for p in s.parts if isinstance(p, str))
            lb = sum(len(p) for p in t.parts if isinstance(p, str))
            if la != lb:
                return False
            if len(s.parts) <= 2:
                return s.parts == t.parts
    a, b = s.parts[0], t.parts[0]
    if isinstance(a, str) and isinstance(b, str):
        n = min(len(a), len(b))
        if a[:n] != b[:n]:
            return False
    a, b = s.parts[-1], t.parts[-1]
    if isinstance(a, str) and isinstance(b, str):
        n = min(len(a), len(b))
        if a[-n:] != b[-n:]:
            return False
    fa, fb = S.fixed_len(s), S.fixed_len(t)
    if fa is not None and fb is not None and fa != fb:
        return False
    return None


def str_pred(key, const):
    """evaluate an opaque string predicate on a constant"""
    m = key[1]
    if m == "truth":
        return bool(const)
    if m == "startswith":
        return const.startswith(key[3])
    if m == "endswith":
        return const.endswith(key[3])
    if m == "contains":
        return key[3] in const
    if m in ("isfloat", "isinf", "is-inf", "isnan"):
        try:
            x = repr(float(const))
        except ValueError:
            return False
        return x not in ("inf", "-inf", "nan") if m == "isfloat" else "is" + x == m
    if m == "isint":
        try:
            int(const, key[3] if len(key) > 3 else 10)
            return True
        except ValueError:
            return False
    if m == "inkeys":
        return const in key[3]
    if m == "leval":
        try:
            x = type(ast.literal_eval(const))
            return (str(None) if x is type(None) else str(ast.literal_eval(const)) if x is bool else x.__name__) == key[3]
        except Exception as e:
            return type(e).__name__ == key[3]
    if m == "lenis":
        return len(const) == key[3]
    if m.startswith("is") and hasattr(str, m):
        return getattr(const, m)()
    raise Unsupported("predicate " + m)


import operator as _op
PYOP = {"Add": _op.add, "Sub": _op.sub, "Mult": _op.mul, "Div": _op.truediv, "FloorDiv": _op.floordiv, "Mod": _op.mod,
        "Pow": _op.pow, "BitOr": _op.or_, "BitAnd": _op.and_, "BitXor": _op.xor, "LShift": _op.lshift, "RShift": _op.rshift, "MatMult": _op.matmul}
PYCMP = {"Lt": _op.lt, "Gt": _op.gt, "LtE": _op.le, "GtE": _op.ge}
