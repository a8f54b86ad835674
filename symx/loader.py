"""Loads the code under test from /repo's current source, for symbolic execution.

Each module is parsed and compiled once per process from the source found in
REPO, after one semantics-preserving rewriting: `a % b` becomes `__sx_mod__(a, b)`
`x.join(y)` becomes `__sx_join__(x, y)`, and f-strings, `x.format(...)`,
`x.startswith(...)`, `x.endswith(...)` and simple comparisons become calls
likewise (C-level operations that would not accept symbolic operands, or would
not see the numbers inside a text).  It is then executed afresh for every path with its
own builtins and with `import` redirected to the modelled environment.
"""

import ast
import builtins
import os
import sys
import types
import warnings

from . import core, values, buffers, threads

REPO = os.environ.get("VERIF_REPO", "/repo")

_code_cache = {}
_ours = {}  # code object -> name
FUNCS = {}  # qualified name -> hit


_CMP = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
    ast.In: "in", ast.NotIn: "not in",
}


class _Rewrite(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        op = _CMP.get(type(node.ops[0]))
        if len(node.ops) != 1 or op is None:
            return node
        return ast.copy_location(
            ast.Call(
                ast.Name("__sx_cmp__", ast.Load()),
                [ast.Constant(op), node.left, node.comparators[0]],
                [],
            ),
            node,
        )

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or isinstance(node.slice, (ast.Slice, ast.Constant)):
            return node
        if isinstance(node.slice, ast.Tuple) and any(isinstance(e, ast.Slice) for e in node.slice.elts):
            return node
        return ast.copy_location(
            ast.Call(ast.Name("__sx_item__", ast.Load()), [node.value, node.slice], []), node
        )

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(
                    ast.Name("__sx_mod__", ast.Load()), [node.left, node.right], []
                ),
                node,
            )
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(
                ast.Assign(
                    [node.target],
                    ast.Call(
                        ast.Name("__sx_mod__", ast.Load()),
                        [ast.Name(node.target.id, ast.Load()), node.value],
                        [],
                    ),
                ),
                node,
            )
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if (
            isinstance(node.func, ast.Attribute)
            and node.func.attr == "join"
            and len(node.args) == 1
            and not node.keywords
            and not isinstance(node.args[0], ast.Starred)
        ):
            return ast.copy_location(
                ast.Call(
                    ast.Name("__sx_join__", ast.Load()),
                    [node.func.value, node.args[0]],
                    [],
                ),
                node,
            )
        if isinstance(node.func, ast.Attribute) and node.func.attr == "format":
            return ast.copy_location(
                ast.Call(
                    ast.Name("__sx_format__", ast.Load()),
                    [node.func.value] + node.args,
                    node.keywords,
                ),
                node,
            )
        if isinstance(node.func, ast.Attribute) and node.func.attr == "get":
            return ast.copy_location(
                ast.Call(
                    ast.Name("__sx_get__", ast.Load()),
                    [node.func.value] + node.args,
                    node.keywords,
                ),
                node,
            )
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("startswith", "endswith"):
            return ast.copy_location(
                ast.Call(
                    ast.Name("__sx_affix__", ast.Load()),
                    [ast.Constant(node.func.attr), node.func.value] + node.args,
                    node.keywords,
                ),
                node,
            )
        return node

    def visit_JoinedStr(self, node):
        # f"a{x!r:>3}" becomes __sx_fstr__("a", (x, "r", ">3"))
        def spec(s):
            if s is None:
                return ast.Constant("")
            return self.visit_JoinedStr(s)

        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = "" if v.conversion == -1 else chr(v.conversion)
                v = ast.Tuple(
                    [self.visit(v.value), ast.Constant(conv), spec(v.format_spec)], ast.Load()
                )
            args.append(v)
        return ast.copy_location(ast.Call(ast.Name("__sx_fstr__", ast.Load()), args, []), node)

    def visit_Try(self, node):
        # a handler for everything must not see the exceptions of the executor
        self.generic_visit(node)

        def broad(h):
            t = h.type
            if t is None:
                return True
            ts = t.elts if isinstance(t, ast.Tuple) else [t]
            return any(isinstance(x, ast.Name) and x.id in ("BaseException", "Exception") for x in ts)

        if any(broad(h) for h in node.handlers):
            h = ast.ExceptHandler(ast.Name("__sx_engine__", ast.Load()), None, [ast.Raise()])
            node.handlers.insert(0, ast.copy_location(h, node.handlers[0]))
        return node


def compile_file(path):
    c = _code_cache.get(path)
    if c is None:
        with open(path, "rb") as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_Rewrite().visit(tree))
        c = compile(tree, path, "exec", dont_inherit=True)
        _code_cache[path] = c
        _register(c, os.path.relpath(path, REPO))
    return c


def _register(code, mod):
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            if not k.co_name.startswith("<"):
                _ours[k] = "%s:%s" % (mod, k.co_qualname)
            _register(k, mod)


_TOOL = 3


def start_tracking():
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, "symx")
    else:
        return

    def on_start(code, off):
        n = _ours.get(code)
        if n is not None:
            FUNCS[n] = FUNCS.get(n, 0) + 1
        return mon.DISABLE

    mon.register_callback(_TOOL, mon.events.PY_START, on_start)
    mon.set_events(_TOOL, mon.events.PY_START)


REAL_OK = {
    "re", "stat", "errno", "six", "typing", "xml", "argparse", "math", "itertools",
    "functools", "collections", "contextlib", "string", "textwrap", "enum",
    "dataclasses", "operator", "copy", "warnings", "traceback", "shlex", "abc",
    "types", "numbers", "bisect", "heapq", "decimal", "fractions", "json",
    "weakref", "__future__", "codecs", "binascii", "platform", "locale",
    "importlib", "ctypes", "gc", "pprint", "unicodedata", "html", "posixpath",
    "pathlib", "random", "zlib",
}


class CutModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        values.ctx().cut("module %s is not modelled (%s)" % (self.__name__, name))


class Loader:
    """The instrumented modules of one path."""

    def __init__(self, stubs, builtin_over):
        self.stubs = stubs  # dotted name -> stub object
        self.modules = {}
        b = dict(vars(builtins))
        b.update(
            int=values.sx_int,
            float=values.sx_float,
            str=values.sx_str,
            len=values.sx_len,
            range=values.sx_range,
            min=values.sx_min,
            max=values.sx_max,
            round=values.sx_round,
            sum=values.sx_sum,
            any=buffers.sx_any,
            isinstance=values.sx_isinstance,
            type=values.sx_type,
            bytes=buffers.sx_bytes,
            bytearray=buffers.sx_bytearray,
            memoryview=buffers.sx_memoryview,
            __import__=self._import,
            __sx_mod__=values.sx_mod,
            __sx_engine__=(core.Steer, core.EngineError, threads.ThreadKill, threads.Hang),
            __sx_join__=buffers.sx_join,
            __sx_fstr__=values.sx_fstr,
            __sx_format__=values.sx_format,
            __sx_cmp__=values.sx_cmp,
            __sx_affix__=values.sx_affix,
            __sx_item__=values.sx_item,
            __sx_get__=values.sx_get,
        )
        b.update(builtin_over)
        self.builtins = b
        self.pkg = _Pkg(self)

    def exec_file(self, path, name, package=""):
        code = compile_file(path)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = package
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        exec(code, m.__dict__)
        return m

    def script(self, rel):
        """Run a stand-alone script of the repository."""
        return self.exec_file(os.path.join(REPO, rel), "__main__")

    def load(self, name):
        """'BmapCopy' -> instrumented bmaptools.BmapCopy"""
        full = "bmaptools." + name
        m = self.modules.get(full)
        if m is None:
            path = os.path.join(REPO, "bmaptools", *name.split(".")) + ".py"
            if not os.path.exists(path):
                path = path[:-3] + "/__init__.py"
            if not os.path.exists(path):
                raise ImportError("No module named %s" % full)
            m = self.exec_file(path, full, "bmaptools")
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or "bmaptools"
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            name = base + ("." + name if name else "")
        if name == "bmaptools" or name.startswith("bmaptools."):
            if name == "bmaptools":
                return self.pkg
            m = self.load(name[len("bmaptools.") :])
            return m if fromlist else self.pkg
        if name in self.stubs:
            s = self.stubs[name]
            if fromlist or "." not in name:
                return s
            return self.stubs.get(name.split(".")[0], s)
        top = name.split(".")[0]
        if name == "six.moves" or name.startswith("six.moves."):
            return self._six_moves(name, fromlist)
        if top in self.stubs and "." in name:
            # e.g. import os.path as p
            obj = self.stubs[top]
            for part in name.split(".")[1:]:
                obj = getattr(obj, part)
            return obj if fromlist else self.stubs[top]
        if name == "re":
            return values.RE
        if top in REAL_OK or name in REAL_OK:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        try:
            builtins.__import__(top)
        except ImportError:
            raise
        return CutModule(name)

    def _six_moves(self, name, fromlist):
        import six

        ns = types.SimpleNamespace()
        full = dict(self.stubs)
        alias = {
            "six.moves.queue": "queue",
            "six.moves._thread": "_thread",
            "six.moves.urllib.request": "urllib.request",
            "six.moves.http_client": "http.client",
            "six.moves.urllib.error": "urllib.error",
            "six.moves.urllib.parse": "urllib.parse",
            "six.moves.urllib": "urllib",
        }

        def get(n):
            a = alias.get(n)
            if a and a in full:
                return full[a]
            if a:
                m = builtins.__import__(a, None, None, ("x",), 0)
                return m
            return None

        m = get(name)
        if m is not None:
            return m
        for f in fromlist or ():
            sub = get(name + "." + f)
            if sub is None:
                sub = getattr(six.moves, f)
            setattr(ns, f, sub)
        return ns


class _Pkg(types.ModuleType):
    def __init__(self, loader):
        super().__init__("bmaptools")
        self.__dict__["_loader"] = loader

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        try:
            return self.__dict__["_loader"].load(name)
        except ImportError:
            raise AttributeError(name)
