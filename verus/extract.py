"""Mechanical extraction of functions of /repo for Verus.

The text that is verified is the text of the file in /repo, transformed only by
the substitutions listed per unit (each one is recorded in the evidence as
"what the extraction drops"). Contracts are spliced between a function's
signature and its body; loop invariants after a loop header."""
import re


class Lost(Exception):
    """an anchor (function, struct, loop) is not in the source any more"""


def strip_tests(s):
    i = s.find("#[cfg(test)]")
    return s if i < 0 else s[:i]


def match_brace(s, i):
    """index just after the brace closing the one at s[i]; skips strings,
    char literals and comments"""
    assert s[i] == "{"
    d, n = 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            i = s.find("\n", i)
            if i < 0:
                break
            continue
        if s.startswith("/*", i):
            i = s.find("*/", i) + 2
            continue
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
            i += 1
            continue
        m = re.match(r"'(\\.[^']*|[^'\\])'", s[i:])
        if m:
            i += m.end()
            continue
        if c == "{":
            d += 1
        elif c == "}":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Lost("unbalanced braces")


def find_fn(s, name):
    """(start of signature, index of the body's brace, end)"""
    m = re.search(r"(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?fn\s+%s\b" % re.escape(name), s)
    if not m:
        raise Lost(f"fn {name}")
    # the body is the first brace outside of parentheses
    i, d = m.end(), 0
    while s[i] != "{" or d:
        if s[i] in "([":
            d += 1
        elif s[i] in ")]":
            d -= 1
        elif s[i] == ";" and d == 0:
            raise Lost(f"fn {name} has no body")
        i += 1
    return m.start(), i, match_brace(s, i)


def find_item(s, pattern):
    m = re.search(pattern, s)
    if not m:
        raise Lost(pattern)
    i = s.index("{", m.start())
    return s[m.start():match_brace(s, i)]


def splice(s, name, clauses, ret=None):
    """insert contract clauses of function `name`; `ret` names its result"""
    a, b, e = find_fn(s, name)
    sig = s[a:b].rstrip()
    if ret:
        sig, n = re.subn(r"->\s*(.+)$", lambda m: f"-> ({ret}: {m[1].strip()})", sig, flags=re.S)
        if n != 1:
            raise Lost(f"result of fn {name}")
    return s[:a] + sig + "\n" + clauses.rstrip() + "\n    " + s[b:]
