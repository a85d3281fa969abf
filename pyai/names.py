"""Resolution of names and calls: every global name that a function uses is defined when the
package is imported, every attribute of a module of the package exists, and every direct call
of a function or class of the package fits its parameters."""
import ast
import builtins
import symtable

from .values import *


def tables(t):
    yield t
    for c in t.get_children():
        yield from tables(c)


def unresolved(I, st, name):
    """-> ([problem], number of names and calls looked at)"""
    mod = st.get(I.modules[name])
    src = I.files[mod.file]
    tree = ast.parse(src, mod.file)
    top = symtable.symtable(src, mod.file, "exec")
    short = mod.file.rsplit("/", 1)[-1]
    out = []
    seen = 0
    # names assigned through a global statement in a function
    late = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            late.update(n.names)
    known = set(mod.ns) | set(vars(builtins)) | late | {"__class__", "__name__", "__file__", "__doc__", "__builtins__", "__spec__", "__loader__", "__path__"}
    for t in tables(top):
        if t.get_type() != "function":
            continue
        for s in t.get_symbols():
            if s.is_referenced() and s.is_global() and not s.is_assigned() and not s.is_parameter() and not s.is_imported():
                seen += 1
                if s.get_name() not in known:
                    out.append("%s:%d (%s) uses the name %s, which isn't defined" % (short, line(tree, t, s.get_name()), t.get_name(), s.get_name()))
    # locals, by function node, to tell module-level names from others
    for fn, shadow in functions(tree, frozenset()):
        I.functions.add((mod.file, getattr(fn, "name", "<lambda>")))
        for n in own(fn):
            if isinstance(n, ast.Call):
                I.callsites.add((mod.file, n.lineno, n.col_offset))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id not in shadow:
                v = mod.ns.get(n.value.id)
                if isinstance(v, Ref) and isinstance(st.get(v), ModO) and st.get(v).name.startswith("colosseum"):
                    seen += 1
                    m = st.get(v)
                    if n.attr not in m.ns and not n.attr.startswith("__") and "__getattr__" not in m.ns:
                        out.append("%s:%d uses %s.%s, which isn't defined" % (short, n.lineno, n.value.id, n.attr))
            if isinstance(n, ast.Call):
                f = target(st, mod, n.func, shadow)
                if f is not None:
                    seen += 1
                    p = misfit(f[0], f[1], n)
                    if p:
                        out.append("%s:%d calls %s %s" % (short, n.lineno, ast.unparse(n.func), p))
    return out, seen


def line(tree, t, name):
    best = None
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id == name and n.lineno >= t.get_lineno():
            if best is None or n.lineno < best:
                best = n.lineno
    return best or t.get_lineno()


def bound(node):
    """names bound in a function (parameters, assignments, imports, ...), without nested functions"""
    out = set()
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
        out.add(p.arg)
    for n in own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update((x.asname or x.name).split(".")[0] for x in n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out


FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def own(fn):
    """the nodes of a function itself: nested functions are yielded, not entered"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FN):
            stack.extend(n.args.defaults + [d for d in n.args.kw_defaults if d] + getattr(n, "decorator_list", []))
        else:
            stack.extend(ast.iter_child_nodes(n))


def functions(node, shadow):
    for n in ast.iter_child_nodes(node):
        if isinstance(n, FN):
            s = shadow | bound(n)
            yield n, s
            yield from functions(n, s)
        elif isinstance(n, ast.ClassDef):
            yield from functions(n, shadow)
        else:
            yield from functions(n, shadow)


def target(st, mod, f, shadow):
    """(function, number of bound parameters) of a direct call, if it's known"""
    v = None
    if isinstance(f, ast.Name) and f.id not in shadow:
        v = mod.ns.get(f.id)
    elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in shadow:
        m = mod.ns.get(f.value.id)
        if isinstance(m, Ref) and isinstance(st.get(m), ModO):
            v = st.get(m).ns.get(f.attr)
    if not isinstance(v, Ref):
        return None
    o = st.get(v)
    if isinstance(o, FnO) and not isinstance(o.node, ast.Lambda):
        if o.node.decorator_list:
            return None
        return o, 0
    return None


def misfit(f, skip, call):
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    a = f.node.args
    pos = [p.arg for p in a.posonlyargs + a.args][skip:]
    if len(call.args) > len(pos) and a.vararg is None:
        return "with too many arguments"
    given = set(pos[:len(call.args)])
    kwonly = [p.arg for p in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return "with %s twice" % k.arg
        if k.arg not in pos + kwonly and a.kwarg is None:
            return "with the unknown argument " + k.arg
        given.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    need = need + [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    for p in need:
        if p not in given:
            return "without the argument " + p
    return None
