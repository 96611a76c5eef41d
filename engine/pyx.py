"""Mechanical translation of the repository's Cython sources to Python text.

Redone from the .pyx file on every run.  What is dropped: static types,
`nogil`/`noexcept`/`api`, cimports, extern declarations, typed-memoryview and
pointer types (kept as __memview__/__addr__ calls whose meaning is given by the
interpreter).  Statements and expressions are kept verbatim.
"""
import ast
import re
from .nf import Unsupported

_TYPE = r"[A-Za-z_][\w.]*(?:\[[^\]]*\])?(?:\s*\*+)?"


def _strip_comment(line):
    out, q = "", None
    for ch in line:
        if q:
            if ch == q:
                q = None
        elif ch in "\"'":
            q = ch
        elif ch == "#":
            break
        out += ch
    return out.rstrip()


def _indent(s):
    return len(s) - len(s.lstrip(" "))


def _logical(text):
    """physical lines -> logical lines (brackets joined, docstrings dropped)"""
    text = re.sub(r'("""|\'\'\')(.*?)\1', lambda m: '""', text, flags=re.S)
    out, cur, depth = [], "", 0
    for raw in text.split("\n"):
        ln = _strip_comment(raw)
        if not cur and not ln.strip():
            continue
        if cur:
            cur += " " + ln.strip()
        else:
            cur = ln
        bare = re.sub(r"'[^']*'|\"[^\"]*\"", "", cur)
        depth = sum(bare.count(c) for c in "([{") - sum(bare.count(c) for c in ")]}")
        if depth <= 0 and not cur.endswith("\\"):
            out.append(cur)
            cur = ""
        elif cur.endswith("\\"):
            cur = cur[:-1]
    if cur:
        out.append(cur)
    return out


def _split(s, sep=","):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def _expr(e):
    """casts and address-of"""
    e = re.sub(r"<\s*[A-Za-z_][\w.\[\] ]*\**\s*>\s*(?=[&A-Za-z_(])", "", e)
    e = re.sub(r"&\s*([A-Za-z_]\w*)\s*\[([^\[\]]*)\]", r"__addr__(\1, (\2,))", e)
    e = re.sub(r"\bNULL\b", "None", e)
    return e


def _decl(body, pad):
    """`TYPE a = 1, b` -> assignments"""
    m = re.match(r"(?:(?:unsigned|const|long|readonly)\s+)*([A-Za-z_][\w.]*)\s*(\[[^\]]*\])?\s*(.*)$", body)
    if not m:
        raise Unsupported("cdef " + body)
    typ, br, rest = m.groups()
    out = []
    for part in _split(rest):
        part = part.strip()
        if "=" in part:
            nm, e = part.split("=", 1)
            nm = nm.strip().lstrip("*").strip()
            e = _expr(e.strip())
            if br and ":" in br:
                e = "__memview__(%s, %r, %d)" % (e, typ, br.count(":") - br.count("::") if "::" in br else br.count(":"))
            elif typ in ("double", "float", "REAL_t", "np.float64_t", "int", "long", "size_t", "SIZE_t", "Py_ssize_t") and "*" not in part.split("=")[0]:
                e = "(%s)" % e
            out.append("%s%s = %s" % (pad, nm, e))
    return out


def translate(text):
    lines = _logical(text)
    out = []
    i = 0
    while i < len(lines):
        ln = lines[i]
        ind = _indent(ln)
        pad = " " * ind
        s = ln.strip()
        i += 1
        if re.match(r"cimport\b", s) or s.startswith("ctypedef"):
            continue
        m = re.match(r"from\s+([\w.]+)\s+cimport\s+(.*)$", s)
        if m:
            if m.group(1) == "libc.math":
                out.append("%sfrom libc.math import %s" % (pad, m.group(2)))
            continue
        if re.match(r"cdef\s+extern\b", s):
            names = []
            while i < len(lines) and _indent(lines[i]) > ind:
                m = re.match(r"[\w.]+\s*\**\s*(\w+)\s*\(", lines[i].strip())
                if m:
                    names.append(m.group(1))
                i += 1
            for n in names:
                out.append("%s%s = __extern__(%r)" % (pad, n, n))
            continue
        if s.startswith("@cython"):
            if re.match(r"@cython\.ufunc\b", s):
                out.append(pad + "@__ufunc__")
            continue
        if re.match(r"with\s+(nogil|gil)\s*:", s):
            out.append(pad + "if True:")
            continue
        m = re.match(r"(?:cdef|cpdef)\s+(?!:)(.*?)([A-Za-z_]\w*)\s*\((.*)\)\s*([^()]*):\s*$", s)
        if m and "=" not in m.group(1):
            args = []
            for a in _split(m.group(3)):
                d = ""
                if "=" in a:
                    a, d = a.split("=", 1)
                    d = "=" + d.strip()
                nm = re.split(r"[\s*]+", re.sub(r"\[[^\]]*\]", " ", a).strip())[-1]
                args.append(nm + d)
            out.append("%sdef %s(%s):" % (pad, m.group(2), ", ".join(args)))
            continue
        if re.match(r"cdef\s*:\s*$", s):
            had = False
            while i < len(lines) and _indent(lines[i]) > ind:
                out.extend(_decl(lines[i].strip(), pad))
                i += 1
            continue
        if s.startswith("cdef "):
            out.extend(_decl(s[5:].strip(), pad))
            continue
        out.append(pad + _expr(s))
    src = "\n".join(out) + "\n"
    try:
        return ast.parse(src)
    except SyntaxError as e:
        raise Unsupported("Cython translation: %s" % e)


def load(path):
    with open(path) as fh:
        return translate(fh.read())
