"""What scripts/postprocess.py uses of the package `parse` (not installed here), by its documentation: literal text,
{name:d}, {name:f}, {name:g}, {name}, {name:type} with a type that carries a pattern. Case is not significant."""
import re

_NUM = {
    "d": (r"[-+]?\d+", int),
    "f": (r"[-+]?\d*\.\d+|[-+]?\d+\.\d*", float),
    "g": (r"[-+]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][-+]?\d+)?|[-+]?nan|[-+]?inf", float),
}


def with_pattern(pattern, regex_group_count=None):
    def mark(f):
        f.pattern = pattern
        f.regex_group_count = regex_group_count
        return f

    return mark


class Result:
    def __init__(self, fixed, named):
        self.fixed, self.named = fixed, named

    def __getitem__(self, k):
        return self.named[k] if isinstance(k, str) else self.fixed[k]


_cache = {}


def _compile(fmt, types):
    out, fields, at = [], [], 0
    for m in re.finditer(r"\{\{|\}\}|\{([^{}:]*)(?::([^{}]*))?\}", fmt):
        out.append(re.escape(fmt[at:m.start()]))
        at = m.end()
        if m.group(0) in ("{{", "}}"):
            out.append(re.escape(m.group(0)[0]))
            continue
        name, spec = m.group(1), m.group(2)
        if not spec:
            pattern, conv = ".+?", str
        elif spec in types:
            pattern, conv = types[spec].pattern, types[spec]
        else:
            pattern, conv = _NUM[spec]
        fields.append((name, conv))
        out.append(f"(?P<field_{len(fields) - 1}>{pattern})")
    out.append(re.escape(fmt[at:]))
    return re.compile(r"\A" + "".join(out) + r"\Z", re.IGNORECASE | re.DOTALL), fields


def parse(fmt, string, extra_types=None, evaluate_result=True, case_sensitive=False):
    if fmt not in _cache:
        _cache[fmt] = _compile(fmt, extra_types or {})
    rx, fields = _cache[fmt]
    m = rx.match(string)
    if not m:
        return None
    fixed, named = [], {}
    for i, (name, conv) in enumerate(fields):
        v = conv(m.group(f"field_{i}"))
        if name:
            named[name] = v
        else:
            fixed.append(v)
    return Result(tuple(fixed), named)
