"""What the package needs to be installed and imported: declared distributions and interpreter versions against what the source uses."""
import ast
import io
import os
import re
import sys
import tokenize
import tomllib

MODULES = {"pyyaml": "yaml", "pillow": "PIL", "python-dateutil": "dateutil", "beautifulsoup4": "bs4", "attrs": "attr"}
# what the standard library gained since 3.10
SINCE = {
    (3, 11): {"tomllib", "enum.StrEnum", "enum.ReprEnum", "enum.EnumCheck", "enum.FlagBoundary", "enum.verify", "enum.member", "enum.nonmember", "enum.property",
              "enum.global_enum", "typing.Self", "typing.assert_never", "typing.assert_type", "typing.reveal_type", "typing.LiteralString", "typing.Never",
              "typing.Required", "typing.NotRequired", "typing.Unpack", "typing.TypeVarTuple", "typing.dataclass_transform", "typing.get_overloads",
              "typing.clear_overloads", "datetime.UTC", "hashlib.file_digest", "asyncio.TaskGroup", "asyncio.timeout", "asyncio.Runner", "asyncio.Barrier",
              "contextlib.chdir", "operator.call", "math.exp2", "math.cbrt", "inspect.getmembers_static", "wsgiref.types", "re.NOFLAG", "logging.getLevelNamesMapping",
              "string.Template.is_valid", "ExceptionGroup", "BaseExceptionGroup", "time.nanosleep", "unittest.enterModuleContext", "sys.exception"},
    (3, 12): {"itertools.batched", "typing.override", "typing.TypeAliasType", "collections.abc.Buffer", "sys.monitoring", "sys.activate_stack_trampoline",
              "math.sumprod", "os.listdrives", "os.listmounts", "os.unshare", "os.path.isjunction", "os.path.splitroot", "inspect.markcoroutinefunction",
              "calendar.Month", "calendar.Day", "types.get_original_bases", "random.binomialvariate", "uuid.main", "tempfile.mkdtemp.delete_on_close",
              "inspect.BufferFlags", "dis.hasarg", "dis.hasexc", "threading.settrace_all_threads"},
    (3, 13): {"copy.replace", "warnings.deprecated", "typing.TypeIs", "typing.ReadOnly", "typing.NoDefault", "typing.is_protocol", "typing.get_protocol_members",
              "PythonFinalizationError", "queue.ShutDown", "dbm.sqlite3", "itertools.batched.strict", "math.fma", "os.process_cpu_count", "pathlib.Path.full_match",
              "pathlib.UnsupportedOperation", "re.PatternError", "enum.EnumDict", "glob.translate"},
    (3, 14): {"annotationlib", "compression", "concurrent.interpreters", "string.templatelib", "functools.Placeholder", "operator.is_none", "operator.is_not_none",
              "pathlib.types", "typing.evaluate_forward_ref", "io.Reader", "io.Writer"},
}
BUILTINS = {"ExceptionGroup", "BaseExceptionGroup", "PythonFinalizationError"}
REMOVED = {"distutils": (3, 12), "imp": (3, 12), "asynchat": (3, 12), "asyncore": (3, 12), "smtpd": (3, 12), "cgi": (3, 13), "cgitb": (3, 13), "crypt": (3, 13),
           "imghdr": (3, 13), "mailcap": (3, 13), "nntplib": (3, 13), "pipes": (3, 13), "sndhdr": (3, 13), "telnetlib": (3, 13), "uu": (3, 13), "xdrlib": (3, 13)}


def project(root):
    p = os.path.join(root, "pyproject.toml")
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        try:
            return tomllib.load(f).get("project")
        except tomllib.TOMLDecodeError:
            return None


def minimum(spec):
    """oldest interpreter a requires-python admits, None when it states none"""
    v = [tuple(int(x) for x in m.groups()) for m in re.finditer(r"(?:>=|~=|==)\s*(\d+)\.(\d+)", spec or "")]
    return max(v) if v else None


def provided(deps):
    out = set()
    for d in deps:
        n = re.match(r"[A-Za-z0-9._-]+", d.strip())
        if n:
            k = re.sub(r"[-_.]+", "-", n.group()).lower()
            out.add(MODULES.get(k, k.replace("-", "_")).lower())
    return out


def guards(tree):
    """ids of nodes that run only when something is available, or never at run time"""
    out = set()
    for n in ast.walk(tree):
        body = []
        if isinstance(n, ast.Try) and any(h.type is None or any(isinstance(x, ast.Name) and x.id in ("ImportError", "ModuleNotFoundError", "Exception", "AttributeError",
                                          "NameError") for x in ast.walk(h.type)) for h in n.handlers):
            body = n.body
        elif isinstance(n, ast.If) and any(isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, "id", "") or getattr(x, "attr", "")) in
                                           ("TYPE_CHECKING", "version_info", "hexversion", "version") for x in ast.walk(n.test)):
            body = n.body + n.orelse
        for s in body:
            out.update(id(x) for x in ast.walk(s))
    return out


def imports(m):
    """(node, dotted name) of every module or attribute of a module the file imports or uses"""
    names = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                yield n, a.name
                names[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            yield n, n.module
            for a in n.names:
                yield n, f"{n.module}.{a.name}"
                names[a.asname or a.name] = f"{n.module}.{a.name}"
    for n in ast.walk(m.tree):
        parts, e = [], n
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if parts and isinstance(e, ast.Name) and e.id in names:
            yield n, ".".join([names[e.id], *reversed(parts)])
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and n.id in BUILTINS and n.id not in names:
            yield n, n.id


def too_new(name, low):
    for v, known in SINCE.items():
        if v > low and any(name == k or name.startswith(k + ".") for k in known):
            return v
    return None


def syntax(m, low):
    """(line, what) of constructs older interpreters do not read"""
    for minor in range(low[1], sys.version_info[1] + 1):
        try:
            ast.parse(m.src, feature_version=(low[0], minor))
            break
        except SyntaxError as e:
            if minor == low[1]:
                yield e.lineno or 1, e.msg
    if low < (3, 11):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Starred):
                yield n.lineno, "unpacking in a subscript"
    if low < (3, 12) and sys.version_info >= (3, 12):
        yield from fstrings(m.src)


def fstrings(src):
    """nested f-strings 3.11 does not read: the enclosing quote or a backslash inside a replacement field"""
    stack, depth = [], []
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type == tokenize.FSTRING_START:
            q = t.string.lstrip("fFrRbBuU")
            if stack and q == stack[-1] or stack and len(stack[-1]) == 1 and q[0] == stack[-1]:
                yield t.start[0], "the quote of an f-string inside its replacement field"
            stack.append(q)
        elif t.type == tokenize.FSTRING_END:
            stack.pop()
        elif stack and t.type == tokenize.STRING:
            q = t.string.lstrip("fFrRbBuU")
            q = q[:3] if q[:3] in ('"""', "'''") else q[:1]
            if q == stack[-1] or len(stack[-1]) == 1 and q[0] == stack[-1]:
                yield t.start[0], "the quote of an f-string inside its replacement field"
            elif "\\" in t.string:
                yield t.start[0], "a backslash inside the replacement field of an f-string"
        elif stack and t.type == tokenize.COMMENT:
            yield t.start[0], "a comment inside an f-string"
