"""Source templates: a prefix and a suffix of realistic source text around a symbolic hole.

The seeds (harness/seeds/<language number>.json) are short source snippets that reach different parts
of the highlighter. Every position of every seed gives templates; the symbolic bytes in the hole are
decided by the solver, so one template stands for all 256^n sources of that shape."""
import hashlib, json, os
from .build import VERIF

_cache = {}


def seeds(lang, classes=('fix', 'fuzz')):
    if lang not in _cache:
        p = os.path.join(VERIF, 'harness', 'seeds', '%02d.json' % lang)
        try:
            with open(p) as f:
                _cache[lang] = {k: [s.encode('latin1') for s in v] for k, v in json.load(f).items()}
        except OSError:
            _cache[lang] = {}
    return [s for c in classes for s in _cache[lang].get(c, [])]


def templates(lang, kinds=('cut', 'replace'), extra=(), classes=('fix', 'fuzz')):
    """All (prefix, suffix) pairs of the seeds of one language, in a fixed pseudo-random order."""
    out, seen = [], set()
    for s in seeds(lang, classes) + list(extra):
        s = s[:120]
        for i in range(len(s) + 1):
            c = []
            if 'cut' in kinds:
                c.append((s[:i], b''))
            if 'replace' in kinds and i < len(s):
                c.append((s[:i], s[i + 1:]))
            if 'insert' in kinds and i < len(s):
                c.append((s[:i], s[i:]))
            if 'end' in kinds and i == len(s):
                c.append((s, b''))
            if 'skip' in kinds:
                c.append((b'', s[i:]))
            for t in c:
                if t not in seen:
                    seen.add(t)
                    out.append(t)
    out.sort(key=lambda t: hashlib.md5(b'%d:' % len(t[0]) + t[0] + b'\0' + t[1]).digest())
    return out


def pack(ts, limit=58000, count=1000):
    """Packs templates into blobs as the harness expects them."""
    blobs, cur, n = [], b'', 0
    for a, b in ts:
        e = bytes([len(a)]) + a + bytes([len(b)]) + b
        if cur and (len(cur) + len(e) > limit or n >= count):
            blobs.append(cur)
            cur, n = b'', 0
        cur += e
        n += 1
    if cur:
        blobs.append(cur)
    return blobs
