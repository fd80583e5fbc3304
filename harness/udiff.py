"""Apply a unified diff strictly."""
import re
from common import Violation

HUNK = re.compile(r"^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@")


def split_keep(text):
    out = text.split("\n")
    r = [l + "\n" for l in out[:-1]]
    if out[-1] != "":
        r.append(out[-1])
    return r


def apply(diff, old):
    """diff: unified diff text; old: text. Returns (old_label, new_label, new_text)."""
    lines = split_keep(diff)
    if not lines:
        return None, None, old
    if not lines[0].startswith("--- ") or not lines[1].startswith("+++ "):
        raise Violation("diff has no header: %r" % diff[:200])
    ol, nl = lines[0][4:].rstrip("\n"), lines[1][4:].rstrip("\n")
    src = split_keep(old)
    out = []
    pos = 0
    i = 2
    while i < len(lines):
        m = HUNK.match(lines[i])
        if not m:
            if lines[i].strip() == "":
                i += 1
                continue
            raise Violation("unexpected diff line %r" % lines[i])
        a, al = int(m[1]), int(m[2]) if m[2] is not None else 1
        b, bl = int(m[3]), int(m[4]) if m[4] is not None else 1
        start = a - 1 if al else a
        if start < pos or start > len(src):
            raise Violation("hunk out of order or out of range: %r" % lines[i])
        out += src[pos:start]
        pos = start
        if (b - 1 if bl else b) != len(out):
            raise Violation("hunk new position is wrong: %r" % lines[i])
        i += 1
        no = nn = 0
        while i < len(lines) and (no < al or nn < bl):
            l = lines[i]
            tag, body = l[0], l[1:]
            nonl = i + 1 < len(lines) and lines[i + 1].startswith("\\")
            if nonl:
                body = body.rstrip("\n")
            if tag in " -":
                if pos >= len(src) or src[pos] != body:
                    raise Violation("diff does not apply at line %d: %r" % (pos + 1, l))
                pos += 1
                no += 1
            if tag in " +":
                out.append(body)
                nn += 1
            if tag not in " +-":
                raise Violation("bad diff line %r" % l)
            i += 2 if nonl else 1
        if no != al or nn != bl:
            raise Violation("hunk lengths are wrong")
    out += src[pos:]
    return ol, nl, "".join(out)
