"""The properties and the symbolic jobs that decide them, per tier."""
from .run import Job
from . import tmpl

LANGS = {1: 'cowel', 2: 'cpp', 3: 'lua', 4: 'html', 5: 'css', 6: 'c', 7: 'javascript', 8: 'bash', 9: 'diff', 10: 'json',
         11: 'jsonc', 12: 'xml', 13: 'txt', 14: 'tex', 15: 'latex', 16: 'nasm', 17: 'ebnf', 18: 'python', 19: 'kotlin',
         20: 'typescript', 21: 'rust', 22: 'llvm', 23: 'markdown', 24: 'java', 25: 'yaml'}
NESTING = {1, 4, 7, 20, 23}
ALL = sorted(LANGS)
PROPS = {}

BASE_ASSUMPTIONS = [
    'the LLVM 18 IR of the sources (clang -std=c++23 -O1, exceptions on, libstdc++ assertions on) means what the g++ build of the same sources means; sampled paths are replayed on a native build to check that',
    'the symbolic executor, its models of the C and C++ runtime (allocation, exceptions, memcpy family) and Z3 are right',
]


class Prop:
    def __init__(self, pid, title, jobs, bounds, budget=(110, 780), assumptions=(), describe=None):
        self.title, self._jobs, self._bounds = title, jobs, bounds
        self.budget = {'quick': budget[0], 'thorough': budget[1]}
        self.assumptions = BASE_ASSUMPTIONS + list(assumptions)
        self.describe = describe
        PROPS[pid] = self

    def jobs(self, tier):
        return self._jobs(tier == 'thorough')

    def bounds(self, tier):
        return self._bounds(tier == 'thorough') if callable(self._bounds) else self._bounds


def slices(ts, k, seed=0):
    return ts[:k]


def raw(e, langs, n, t, core=True, steps=20000, **p):
    return [Job('h_hl', e, t, core, None, steps, '%s %s n=%d%s' % (e, LANGS[l], n, ''.join(' %s=%s' % x for x in sorted(p.items()))), lang=l, n=n, **p)
            for l in langs]


def tpl(e, langs, limit, t, n=1, kinds=('cut', 'replace'), classes=('fix', 'fuzz'), core=False, count=700, steps=300000, **p):
    js = []
    for l in langs:
        ts = tmpl.templates(l, kinds, classes=classes)[:limit]
        for i, b in enumerate(tmpl.pack(ts, count=count)):
            js.append(Job('h_hl', e, t, core, {'tmpl': b}, steps,
                          '%s %s templates #%d n=%d%s' % (e, LANGS[l], i, n, ''.join(' %s=%s' % x for x in sorted(p.items()))), lang=l, n=n, **p))
    return js


def hl_bounds(q, t):
    return lambda deep: {'sources': t if deep else q, 'languages': 'all 25', 'unwinding': 'none: every path runs to its end; a path of more than 20000 (short sources) or 300000 (templates) instructions is reported as not terminating',
                         'outside': 'longer free-form sources; sources that need several unusual constructs beyond one template; recursion deeper than the sources reach'}


# ---------------------------------------------------------------- H01
def h01(deep):
    j = raw('hl_status', ALL, 3, 30) + raw('hl_status', ALL, 0, 10) + raw('hl_status', ALL, 1, 10) + raw('hl_status', ALL, 2, 10)
    j += raw('hl_status', ALL, 2, 10, flags=3)
    if not deep:
        j += raw('hl_status', ALL, 4, 25, core=False)
        j += tpl('hl_status', ALL, 1200, 25)
    else:
        j += raw('hl_status', ALL, 4, 60) + raw('hl_status', ALL, 5, 250, core=False)
        j += tpl('hl_status', ALL, 9999, 60) + tpl('hl_status', ALL, 9999, 100, n=2, classes=('fix',), count=120)
        j += tpl('hl_status', ALL, 9999, 100, kinds=('insert',), n=1, flags=3)
    return j


Prop('H01', 'Every call to the highlighter ends with a documented status', h01,
     hl_bounds('every byte string of length 0-3 (and 4, where the time allows), and about 1200 realistic templates per language with one arbitrary byte at a hole',
               'every byte string of length 0-4 (and 5, where the time allows), and all templates with one or two arbitrary bytes at a hole'))


# ---------------------------------------------------------------- H02
def h02(deep):
    j = raw('hl_tokens', ALL, 3, 30, cap=8) + raw('hl_tokens', ALL, 2, 10, flags=3, cap=4) + raw('hl_tokens', ALL, 1, 10, cap=4)
    if not deep:
        j += raw('hl_tokens', ALL, 4, 25, core=False, mode=4, cap=8)
        j += tpl('hl_tokens', ALL, 1200, 25, cap=8)
    else:
        j += raw('hl_tokens', ALL, 4, 60, cap=8) + raw('hl_tokens', ALL, 5, 250, core=False, cap=8) + raw('hl_tokens', ALL, 3, 60, flags=3, cap=8)
        j += tpl('hl_tokens', ALL, 9999, 60, cap=8) + tpl('hl_tokens', ALL, 9999, 100, n=2, classes=('fix',), count=120, cap=8)
        j += tpl('hl_tokens', ALL, 9999, 100, kinds=('insert',), flags=3, cap=8)
    return j


Prop('H02', 'Tokens are non-empty, in range, ordered, disjoint and of a defined type', h02,
     hl_bounds('every byte string of length 0-3 (4 printable, where the time allows), and about 1200 realistic templates per language with one arbitrary byte at a hole',
               'every byte string of length 0-4 (5 where the time allows), and all templates with one or two arbitrary bytes at a hole'))


# ---------------------------------------------------------------- H03
def h03(deep):
    j = raw('hl_memory', ALL, 3, 40, maxcap=2) + raw('hl_memory', ALL, 2, 10, flags=3, maxcap=3)
    if not deep:
        j += tpl('hl_memory', ALL, 1000, 30, maxcap=1)
    else:
        j += raw('hl_memory', ALL, 4, 120, maxcap=2) + tpl('hl_memory', ALL, 9999, 90, maxcap=2)
        j += tpl('hl_memory', ALL, 9999, 100, n=2, classes=('fix',), count=120, maxcap=1) + raw('hl_memory', ALL, 5, 250, core=False, maxcap=1)
        j += tpl('hl_memory', ALL, 9999, 60, kinds=('insert',), flags=3, maxcap=1)
    return j


Prop('H03', 'Highlighting touches only the source, the token buffer and memory it owns', h03,
     hl_bounds('every byte string of length up to 3 and about 1000 templates per language with one arbitrary byte, exactly sized heap buffers, token capacity 1-3',
               'every byte string of length up to 4 (5 where the time allows) and all templates with one or two arbitrary bytes, token capacity 1-3'),
     assumptions=['an access to memory is judged on the IR after clang -O1, which may have removed accesses whose result is unused'])


# ---------------------------------------------------------------- H04
def h04(deep):
    j = raw('hl_capacity', ALL, 2, 20, ncap=2)
    if not deep:
        j += tpl('hl_capacity', [1, 4, 23], 120, 40, all=9, classes=('fix',), count=60) + tpl('hl_capacity', [7, 20], 40, 40, all=6, classes=('fix',), count=40)
        j += tpl('hl_capacity', ALL, 500, 40, spread=7) + raw('hl_capacity', ALL, 3, 20, core=False, mode=4, ncap=1)
    else:
        j += raw('hl_capacity', ALL, 3, 300, core=False, ncap=2) + tpl('hl_capacity', ALL, 9999, 150, ncap=3, count=400)
        j += tpl('hl_capacity', ALL, 9999, 60, all=12, classes=('fix',), count=60)
    j += tpl('hl_capacity', ALL, 300 if not deep else 9999, 30, spread=5, flags=1, classes=('fix',))
    return j


Prop('H04', 'The result does not depend on the size of the token buffer', h04,
     hl_bounds('every byte string of length 2 with capacity 1 against 64 and 2, and about 500 templates per language with one arbitrary byte, capacities 1-7 (1-9 for languages that embed others) against 64',
               'every byte string of length up to 3 where the time allows, and all templates with one arbitrary byte, capacity 1 against 64, 2 and 3, and 1-12 against 64'))


# ---------------------------------------------------------------- H05
def h05(deep):
    j = raw('hl_flush', ALL, 2, 15, cap=1) + raw('hl_flush', ALL, 2, 15, cap=2) + raw('hl_flush', ALL, 3, 30, core=deep, cap=2)
    j += tpl('hl_flush', ALL, 500 if not deep else 9999, 30, cap=2) + tpl('hl_flush', ALL, 500 if not deep else 9999, 30, cap=3, flags=1, classes=('fix',))
    if deep:
        j += raw('hl_flush', ALL, 4, 100, core=False, cap=3) + tpl('hl_flush', ALL, 9999, 60, cap=1) + tpl('hl_flush', ALL, 9999, 60, cap=6)
    return j


Prop('H05', 'The flush callback sees each token once, in full buffers, then one rest', h05,
     hl_bounds('every byte string of length 2 with capacity 1 and 2 (3 with capacity 2, where the time allows), and about 500 templates per language with one arbitrary byte, capacity 2 and 3',
               'every byte string of length up to 4 where the time allows, and all templates with one arbitrary byte, capacity 1, 2, 3 and 6'))


# ---------------------------------------------------------------- H06
def h06(deep):
    j = []
    for l in ALL:
        nest = int(l in NESTING)
        j += raw('hl_coalesce', [l], 2, 20, nested=nest)
        j += tpl('hl_coalesce', [l], 600 if not deep else 9999, 40, nested=nest)
        if deep:
            j += raw('hl_coalesce', [l], 3, 200, core=False, nested=nest)
            j += tpl('hl_coalesce', [l], 9999, 60, kinds=('insert',), nested=nest, flags=2)
        else:
            j += raw('hl_coalesce', [l], 3, 15, core=False, mode=4, nested=nest)
    return j


Prop('H06', 'Coalescing merges touching tokens of one type and changes nothing else', h06,
     hl_bounds('every byte string of length 2 (3 printable, where the time allows), and about 600 templates per language with one arbitrary byte; buffers large enough that nothing is flushed early',
               'every byte string of length up to 3 where the time allows, and all templates with one arbitrary byte'))


# ---------------------------------------------------------------- H07
def h07(deep):
    j = raw('hl_repeat', ALL, 2, 20)
    j += [x for l in ALL for x in tpl('hl_repeat', [l], 400 if not deep else 9999, 30, lang2=7 if l != 7 else 2)]
    for t in (raw('hl_alias', [14], 3, 20, lang2=15), tpl('hl_alias', [14], 9999, 30, lang2=15),
              raw('hl_alias', [10], 3, 20, lang2=11, noslash=1), raw('hl_txt', [13], 4, 20), raw('hl_txt', [13], 3, 20, flags=3)):
        j += t
    if deep:
        j += raw('hl_repeat', ALL, 3, 200, core=False)
        j += raw('hl_alias', [14], 4, 100, lang2=15) + raw('hl_alias', [10], 4, 100, lang2=11, noslash=1)
    return j


Prop('H07', 'Highlighting is a function of source, language and flags alone', h07,
     hl_bounds('every byte string of length 2, and about 400 templates per language with one arbitrary byte; the second run follows a run in another language',
               'every byte string of length up to 3 where the time allows, and all templates with one arbitrary byte'))


def one(h, e, t=30, core=True, steps=20000, tmpls=None, count=700, **p):
    """One job, or one per pack of templates."""
    lab = '%s%s' % (e, ''.join(' %s=%s' % x for x in sorted(p.items())))
    if tmpls is None:
        return [Job(h, e, t, core, None, steps, lab, **p)]
    return [Job(h, e, t, core, {'tmpl': b}, steps, '%s templates #%d' % (lab, i), **p) for i, b in enumerate(tmpl.pack(tmpls, count=count))]


# ---------------------------------------------------------------- JSON
JSON_SEEDS = [b'{"a":1,"b":[true,null]}', b'[1,2.5e-3,-0,false]', b'"\\u00e9\\n\\\\x"', b'{"k" : {"x":[]}, "" : [[]]}//c', b'/*a*/[/*b*/1/*c*/,/*d*/2]\n',
              b'\t{ "x"\r\n: "\\ud83d\\ude00" }\n', b'{"a":"\xc3\xa9\\t","b":-1E+10}', b'[nul,tru,fals]', b'[[[[]]],{"a":{"b":{}}}]', b'//x\n{//y\n"a"//z\n:1}//w']


def jt(kinds):
    out, seen = [], set()
    for s in JSON_SEEDS:
        for i in range(len(s) + 1):
            for k in kinds:
                t = {'cut': (s[:i], b''), 'insert': (s[:i], s[i:]), 'replace': (s[:i], s[i + 1:]), 'replace2': (s[:i], s[i + 2:]),
                     'replace4': (s[:i], s[i + 4:])}[k]
                if t not in seen:
                    seen.add(t)
                    out.append(t)
    return out


def jn(e, deep, hl=False, core6=False):
    """Short sources of every kind, and templates."""
    def f(**p):
        t = p.pop('t', 60)
        if hl:
            r = []
            for jsonc in (0, 1):
                for strict in (0, 1):
                    r += one('h_json', e, t=t, jsonc=jsonc, strict=strict, **p)
            return r
        return one('h_json', e, t=t, **p)
    j = []
    for n in range(0, 5):
        j += f(n=n)
    j += f(n=5, core=False)
    j += f(n=7 if deep else 6, mode=8, core=False, t=300 if deep else 40)
    j += f(n=7 if deep else 6, mode=16, core=False, t=300 if deep else 40)
    j += f(n=1, tmpls=jt(['cut', 'replace', 'insert', 'replace2', 'replace4']), steps=60000)
    j += f(n=2, tmpls=jt(['cut', 'replace', 'insert', 'replace2']), steps=60000, core=False, count=150 if deep else 300)
    if not hl:
        j += one('h_json', e, n=4, char=1)
        j += one('h_json', e, t=60, n=4, tmpls=[(b'"\\u', b'"'), (b'["\\u', b'\\u0041"]'), (b'{"\\u', b'":1}')], steps=60000)
        j += one('h_json', e, t=40, core=False, n=4, tmpls=[(b'[', b']'), (b'-', b''), (b'1', b''), (b'{"":', b'}'), (b'{', b'}'), (b'"', b'"')], steps=60000)
    if deep:
        j += f(n=6, core=False, t=400)
        j += f(n=3, tmpls=jt(['cut', 'replace', 'insert']), steps=60000, core=False, t=400, count=40)
    return j


def jb(extra=''):
    return lambda deep: {'sources': ('every byte string of length up to 4 (5%s where the time allows), every string of length %d over the alphabet of the grammar and over that of comments where the time allows, and about 800 documents with one or two arbitrary bytes in place of up to four'
                                     % (', 6' if deep else '', 7 if deep else 6)) + (' (three where the time allows)' if deep else ''),
                         'options': 'all 12 combinations of comments, number conversion and escape handling' + extra,
                         'oracle': 'a recogniser written from RFC 8259 in harness/h_json.cpp, itself executed symbolically on the same bytes',
                         'outside': 'longer free-form documents; nesting deeper than the templates; the decimal conversion itself (strtod is a stub that identifies the text it is given)'}


JSON_A = ['strtod is replaced by a stub that returns a value identifying the text it was handed, up to the first character that cannot continue a number']
Prop('J01', 'The JSON parser accepts exactly the JSON grammar', lambda d: jn('json_accept', d), jb(), assumptions=JSON_A)
Prop('J02', 'JSON events describe the accepted document exactly', lambda d: jn('json_events', d), jb(), assumptions=JSON_A)
Prop('J03', 'A failed JSON parse reports exactly one error, at the right place', lambda d: jn('json_errors', d), jb(), assumptions=JSON_A)
Prop('J04', 'The JSON parser touches only its input and frees what it allocates', lambda d: jn('json_memory', d), jb(), assumptions=JSON_A)
Prop('J05', 'JSON highlighting classifies every character of a valid document correctly', lambda d: jn('json_highlight', d, hl=True), jb('; highlighting: JSON and JSONC, strict or not'))


# ---------------------------------------------------------------- Unicode
def u01(deep):
    return one('h_unicode', 'u_decode', n=6 if deep else 5) + one('h_unicode', 'u_decode4') + one('h_unicode', 'u_encode')


def u02(deep):
    j = one('h_unicode', 'u_valid', n=5, t=60) + one('h_unicode', 'u_iterate', n=5, t=60)
    j += [x for k in range(1, 6) for x in one('h_unicode', 'u_find', n=5, lead=k, t=120)] + one('h_unicode', 'u_find', n=0, t=60)
    if deep:
        j += one('h_unicode', 'u_valid', n=7, t=300, core=False) + one('h_unicode', 'u_iterate', n=7, t=300, core=False)
        j += [x for k in range(1, 6) for x in one('h_unicode', 'u_find', n=6, lead=k, t=700, core=False)]
        j += one('h_unicode', 'u_find', n=7, valid=1, t=600, core=False)
    else:
        j += one('h_unicode', 'u_find', n=6, valid=1, t=60)
    return j


def u03(deep):
    return [x for p in range(4) for x in one('h_unicode', 'u_xid', t=120, part=p)] + one('h_unicode', 'u_class')


Prop('U01', 'One UTF-8 sequence is decoded and encoded as Unicode specifies', u01,
     lambda d: {'sources': 'every byte string of length up to %d, every four-byte array, every code point up to U+10FFFF' % (6 if d else 5), 'outside': 'nothing within one sequence: it has at most four bytes'})
Prop('U02', 'Validation, iteration and search agree with decoding one sequence at a time', u02,
     lambda d: {'sources': 'every byte string of length up to %s; search for every code point, by equality and by order' % ('5 (7 where the time allows) for validation and iteration, 5 (6 where the time allows; 7 if well-formed) for search' if d else '5 for validation, iteration and search (6 for search if well-formed)'), 'outside': 'longer texts'})
Prop('U03', 'Character properties match the Unicode standard', u03,
     lambda d: {'sources': 'every 32-bit value', 'oracle': 'XID_Start and XID_Continue of Unicode 15.1 as ranges in harness/ref_xid.h, from the Unicode data of Python 3.12 (15.0) plus the code points added in 15.1', 'outside': 'nothing'})


# ---------------------------------------------------------------- H13
def h13(deep):
    j = raw('hl_boundaries', ALL, 3, 30, mode=2)
    j += tpl('hl_boundaries', ALL, 9999 if deep else 1500, 60 if deep else 25, n=2, mode=8)
    if deep:
        j += raw('hl_boundaries', ALL, 4, 120, mode=2, core=False) + tpl('hl_boundaries', ALL, 9999, 90, n=2, mode=2) + tpl('hl_boundaries', ALL, 9999, 90, n=3, mode=8)
        j += tpl('hl_boundaries', ALL, 9999, 60, n=4, mode=8) + tpl('hl_boundaries', ALL, 9999, 60, n=2, mode=8, kinds=('insert',), flags=3)
    return j


Prop('H13', 'Tokens of a well-formed source never cut a code point in two', h13,
     hl_bounds('every well-formed text of length up to 3, and about 1500 templates per language with an arbitrary two-byte code point at a hole',
               'every well-formed text of length up to 4, and all templates with one arbitrary code point of two, three or four bytes at a hole'))


# ---------------------------------------------------------------- the C API
def api(e, langs, limit=None, t=30, n=1, core=True, count=700, steps=300000, kinds=('cut', 'replace'), classes=('fix', 'fuzz'), **p):
    """Raw sources of n bytes, or the first `limit` templates of each language."""
    js = []
    for l in langs:
        ts = None if limit is None else tmpl.templates(l, kinds, classes=classes)[:limit]
        js += one('h_api', e, t=t, core=core, steps=steps, tmpls=ts, count=count, lang=l, n=n, **p)
    return js


def h08(deep):
    j = api('api_html', ALL, n=2, maxcap=1, tcap=3) + api('api_html', ALL, n=1, maxcap=2, ncap=8)
    j += api('api_html', [13], n=5, maxcap=1, ncap=8) + api('api_html', [13, 4, 10], n=2, maxcap=1, tcap=5, names=3)
    if not deep:
        j += api('api_html', ALL, limit=200, t=40, count=100, maxcap=1, ncap=2) + api('api_html', ALL, limit=60, t=30, count=60, maxcap=1, tcap=64, flags=1, names=1)
    else:
        j += api('api_html', ALL, n=3, t=120, core=False, maxcap=1, tcap=7) + api('api_html', ALL, limit=9999, t=90, maxcap=2, ncap=4)
        j += api('api_html', ALL, limit=9999, t=60, maxcap=1, tcap=16, flags=1, names=1) + api('api_html', [13], n=7, maxcap=1, ncap=8)
    return j


def h09(deep):
    return one('h_api', 'api_validate', t=60, html=0) + one('h_api', 'api_validate', t=200, html=1) + one('h_api', 'api_init') + one('h_api', 'api_alloc')


def h10(deep):
    j = raw('hl_alloc', ALL, 1, 15)
    j += tpl('hl_alloc', ALL, 200 if not deep else 9999, 30)
    j += api('api_throw', ALL, n=1, html=0, maxfail=3) + api('api_throw', ALL, n=1, html=1, maxfail=9, tcap=2)
    j += api('api_throw', ALL, limit=60 if not deep else 9999, t=40, count=30, html=0, maxfail=4) + api('api_throw', ALL, limit=30 if not deep else 9999, t=40, count=15, html=1, tcap=16, maxfail=6)
    if deep:
        j += raw('hl_alloc', ALL, 2, 60) + api('api_throw', ALL, n=2, html=0, maxfail=4, t=90) + api('api_throw', ALL, n=2, html=1, maxfail=12, tcap=3, t=90)
    return j


def h12(deep):
    j = one('h_api', 'api_state') + api('api_wrapper', ALL, n=1) + api('api_wrapper', ALL, limit=100 if not deep else 9999, t=30, classes=('fix',))
    if deep:
        j += api('api_wrapper', ALL, n=2, t=60) + api('api_wrapper', ALL, n=3, t=90, core=False)
    return j


def r01(deep):
    j = one('h_api', 'api_lang_list') + one('h_api', 'api_display')
    for n in range(0, 14 if not deep else 20):
        j += one('h_api', 'api_lang', n=n, steps=2000000) + one('h_api', 'api_path', n=n, steps=2000000, core=n < 9, t=40 if not deep else 300)
    j += one('h_api', 'api_path', n=13, ext=11, steps=2000000) + one('h_api', 'api_path', n=20, ext=10, steps=2000000) + one('h_api', 'api_path', n=20, ext=3, steps=2000000)
    return j


Prop('H08', 'HTML output is the source with its tokens as elements, escaped', h08,
     hl_bounds('every byte string of length 2 with text capacity 3, of length 1 with eight text capacities from 1 to 4096 and token capacity 1 and 2, plain text of length 5, tag and attribute names of up to three arbitrary bytes, and about 200 templates per language with one arbitrary byte',
               'every byte string of length 2 (3 where the time allows), plain text of length 7, and all templates with one arbitrary byte, four text capacities, token capacity 1 and 2'))
Prop('H09', 'Bad arguments are reported as documented and nothing else happens', h09,
     {'sources': 'every combination of null pointers, lengths 0 to 2 (text buffer: 8), all 2^32 language values and 4 flag values; ulight_init over arbitrary memory; every failing allocation; blocks of up to 39 bytes with alignment up to 64', 'outside': 'longer sources and names'})
Prop('H10', 'A failure in the middle is reported and leaves nothing behind', h10,
     hl_bounds('every one-byte source and about 30 to 200 templates per language with one arbitrary byte; any one of the first 6 allocations or of the first 3 to 9 callbacks fails',
               'every two-byte source and all templates with one arbitrary byte; any one of the first 6 allocations or of the first 4 to 12 callbacks fails'))
Prop('H12', 'The C++ wrapper stores what it is given and behaves like the C functions', h12,
     lambda d: {'sources': 'one operation of the wrapper with arbitrary arguments on an arbitrary state (so every sequence of operations); every source of length 1%s and %s templates per language for the conversions' % (' to 3' if d else '', 'all' if d else '100'), 'outside': 'longer free-form sources'})
Prop('R01', 'Languages are found by the names and file extensions documented for them', r01,
     lambda d: {'sources': 'every name of up to %d bytes, every path of up to %d bytes, every 32-bit language value' % ((19, 19) if d else (13, 13)), 'oracle': 'the table of README.md, in harness/h_api.cpp', 'outside': 'longer names and paths'})
Prop('R02', 'Highlight type strings are as documented, and distinct', lambda d: one('h_api', 'api_types', t=100, steps=400000),
     {'sources': 'every pair of 8-bit highlight type values', 'oracle': 'the documented enumerators, in harness/hl_types.h', 'outside': 'nothing'})


# ---------------------------------------------------------------- shared building blocks
def util(e, ts=None, t=60, core=True, steps=200000, **p):
    return one('h_util', e, t=t, core=core, steps=steps, tmpls=ts, **p)


def a01(deep):
    j = util('x_charset256') + util('x_charset128') + util('x_charset_make') + util('x_ascii_chars') + util('x_ascii_chars32') + util('x_ascii_sets')
    j += util('x_ascii_search', n=4) + util('x_ascii_compare', n=6)
    if deep:
        j += util('x_ascii_search', n=6, t=300) + util('x_ascii_compare', n=9, t=300)
    return j


Prop('A01', 'ASCII classes, character sets and ASCII text search mean what they say', a01,
     lambda d: {'sources': 'every byte or 32-bit character; every content of two character sets; every text of up to %d bytes to search, every pair of texts of together up to %d bytes to compare' % ((6, 9) if d else (4, 6)), 'outside': 'longer texts'})

NUM = [b'0x', b'0b', b'$', b'1', b'0', b'1.', b'.', b'.5', b'1e', b'1e+', b'0x1p', b'1_0', b'1__', b'-', b'+1', b'0x1.', b'12u', b'12ul', b'1e5', b'1.5e-', b'0b1', b'07']
INT = [b'1844674407370955', b'922337203685477', b'-922337203685477', b'0xfffffffffffffff', b'-0x7ffffffffffffff', b'-0x800000000000000', b'0x7ffffffffffffff',
       b'0177777777777777777777', b'0777777777777777777777', b'-01000000000000000000', b'0b' + b'1' * 62, b'-0b1' + b'0' * 61, b'000000000000000000000000', b'0x00000000000000001', b'99999999999999999999999']


def n01(deep):
    j = util('x_digits', n=4) + util('x_number', n=4, t=30) + util('x_suffix_number', n=5) + util('x_integer', n=5)
    ts = [(a, b) for a in NUM for b in (b'', b'0', b'e1', b'_')]
    j += util('x_number', ts[:] if deep else ts[::2], n=2, t=120) + util('x_integer', [(a, b) for a in INT for b in (b'', b'0')], n=3 if deep else 2, t=120)
    if deep:
        j += util('x_digits', n=6, t=300, core=False) + util('x_number', n=7, t=300, core=False) + util('x_number', ts, n=4, t=300, core=False)
        j += util('x_suffix_number', n=8, t=200, core=False) + util('x_integer', n=7, t=300, core=False)
    return j


Prop('N01', 'Numeric literals are recognised, divided and evaluated as specified', n01,
     lambda d: {'sources': 'every text of up to %d bytes, and up to %d arbitrary bytes after or inside %d beginnings of literals, among them those at the limits of 64 bits' % ((6, 4, 103) if d else (4, 2, 59)),
                'options': 'every base from 1 to 36; every combination of signs, digit separators, leading zeros, fractions of prefixed numbers, kinds of suffix, and parts that must not be empty',
                'outside': 'longer literals; other sets of prefixes, exponents and suffixes'})


def l01(deep):
    j = util('x_line', n=8) + util('x_blank', n=6) + util('x_enclosed', n=7) + util('x_escape', n=6)
    if deep:
        j += util('x_line', n=14, t=200, core=False) + util('x_blank', n=10, t=300, core=False) + util('x_enclosed', n=12, t=300, core=False) + util('x_escape', n=10, t=300, core=False)
    j += util('x_escape', [(a, b) for a in (b'abcdef', b'{', b'{7', b'12345') for b in (b'', b'0', b'}', b'\xc3\xa9')], n=2)
    return j


Prop('L01', 'Lines, blank lines, enclosed text and escapes end where specified', l01,
     lambda d: {'sources': 'every text of up to %d bytes (lines), %d (blank lines), %d (enclosed text), %d (escapes)' % ((14, 10, 12, 10) if d else (8, 6, 7, 6)), 'outside': 'longer texts'})


def b01(deep):
    j = util('x_buffer', ops=4) + util('x_function_ref')
    if deep:
        j += util('x_buffer', ops=6, t=400, core=False) + util('x_buffer', ops=4, cap=6, t=200)
    return j


Prop('B01', 'Buffers deliver every element once; function references call their target', b01,
     lambda d: {'sources': 'every sequence of up to %d operations on a buffer of capacity 1 to %d, with arbitrary elements; references to functions, pointers, objects, constants and bound members with arbitrary arguments' % ((6, 6) if d else (4, 3)), 'outside': 'longer sequences; larger buffers'})


def d01(deep):
    def d(e, t=60, core=True, **p):
        return one('h_diff', e, t=t, core=core, steps=2000000, **p)
    j = d('d_split', n=5) + d('d_script', kinds=3) + d('d_print', n=5, t=120) + d('d_print', n=6, few=1, t=120)
    if deep:
        j += d('d_split', n=9, t=200, core=False) + d('d_script', **{'from': 4, 'to': 4, 'kinds': 3, 't': 300, 'core': False}) + d('d_script', **{'from': 5, 'to': 4, 'kinds': 2, 't': 300, 'core': False})
        j += d('d_print', n=8, few=1, t=400, core=False) + d('d_print', n=6, t=300, core=False)
    return j


Prop('D01', 'A line diff is a shortest one and its hunks turn one text into the other', d01,
     lambda d: {'sources': 'every text of up to %d bytes to split; every pair of sequences of up to %s lines of 3 kinds; every pair of texts of together %d bytes (%d if made of line ends and two letters) to print, 0 to 2 lines of context' % ((9, '4', 6, 8) if d else (5, '3', 5, 6)),
                'outside': 'longer texts; the terminal colours are not looked at, only removed'})

IO_A = ['the streams of the C library are replaced by a model: a file can be missing, reading can fail half-way, writing can fail at once or when what is buffered is written, and every other operation works']


def i01(deep):
    def io(e, **p):
        return one('h_io', e, t=p.pop('t', 60), core=p.pop('core', True), steps=5000000, **p)
    j = io('io_bytes') + io('io_bytes', long=1) + io('io_text', n=5) + io('io_unique', ops=6)
    if deep:
        j += io('io_bytes', n=8) + io('io_text', n=9, t=300, core=False) + io('io_unique', ops=10, t=300, core=False)
    return j


def c01(deep):
    def io(e, **p):
        return one('h_io', e, t=p.pop('t', 100), core=p.pop('core', True), steps=5000000, **p)
    j = [x for l in range(5) for x in io('io_cli', n=2, path=l)] + io('io_cli', n=3, path=0)
    if deep:
        j += [x for l in range(5) for x in io('io_cli', n=4, path=l, t=300, core=False)]
    return j


Prop('I01', 'Files are loaded whole or not at all, and closed exactly once', i01,
     lambda d: {'sources': 'files of nine lengths around 0, BUFSIZ and twice BUFSIZ, with arbitrary bytes around the boundaries; every text of up to %d bytes; every sequence of %d operations on two owners of files; files that are missing or fail half-way' % ((9, 10) if d else (5, 6)), 'outside': 'longer texts with ill-formed sequences across block boundaries'}, assumptions=IO_A)
Prop('C01', 'The command line tool succeeds exactly when the whole output was written', c01,
     lambda d: {'sources': 'every file of up to %d bytes; paths of three languages and two that have none; with and without output file; missing input, failing reads, an output file that cannot be opened, writing that fails at once or at the end' % (4 if d else 2), 'outside': 'longer files; other languages (their output is the subject of H08)'}, assumptions=IO_A)


LEX_ALL = (1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 16, 17, 18, 19, 20, 21, 22, 24, 25)


def lex(e, langs, n, t=60, core=True, **p):
    return [j for l in langs for j in one('h_lex', e, t=t, core=core, steps=2000000, lang=l, n=n, **p)]


def k01(deep):
    j = lex('lex_comment', LEX_ALL, 2) + lex('lex_comment', LEX_ALL, 1, flags=1)
    j += lex('lex_comment', (1, 3, 4, 5, 8, 11, 12, 17, 22, 25), 3)
    if deep:
        j += lex('lex_comment', (2, 6, 7, 16, 18, 19, 20, 21, 24), 3, t=300, core=False)
        j += lex('lex_comment', (1, 3, 4, 5, 8, 11, 12, 17, 22, 25), 4, t=300, core=False)
    return j


def k02(deep):
    langs = tuple(l for l in LEX_ALL if l != 1) + (10,)
    j = lex('lex_string', langs, 2) + lex('lex_string', langs, 1, flags=1)
    j += lex('lex_string', (3, 4, 5, 8, 10, 11, 12, 17, 21, 22, 24, 25), 3)
    if deep:
        j += lex('lex_string', (2, 6, 7, 16, 18, 19, 20), 3, t=500, core=False)
        j += lex('lex_string', (4, 8, 10, 11, 12, 17, 22, 25), 4, t=400, core=False)
    return j


WORD = (2, 3, 6, 7, 16, 18, 19, 20, 21, 22, 24)


def k03(deep):
    j = lex('lex_word', WORD, 0, t=120) + lex('lex_word', (2, 6), 0, t=120, flags=2) + lex('lex_word', WORD, 3)
    j += one('h_lex', 'lex_nasm', t=120, steps=2000000, n=0) + one('h_lex', 'lex_nasm', t=60, steps=2000000, n=2)
    j += one('h_lex', 'lex_css', steps=2000000, n=3) + one('h_lex', 'lex_css', steps=2000000, n=5)
    if deep:
        j += lex('lex_word', WORD, 4, t=300) + lex('lex_word', WORD, 5, t=600, core=False) + lex('lex_word', (3, 18, 22, 24), 6, t=600, core=False)
        j += one('h_lex', 'lex_nasm', t=600, core=False, steps=2000000, n=3) + one('h_lex', 'lex_nasm', t=300, steps=2000000, n=0, everywhere=1)
    return j


NUMLANGS = (2, 3, 5, 6, 7, 16, 18, 19, 20, 21, 22, 24, 25)


def k04(deep):
    j = lex('lex_number', NUMLANGS, 1, t=120, part=1, around=1) + lex('lex_number', NUMLANGS, 3, t=120, part=2)
    if deep:
        j += lex('lex_number', NUMLANGS, 2, t=400, core=False, part=2, around=1) + lex('lex_number', NUMLANGS, 4, t=400, core=False, part=2) + lex('lex_number', NUMLANGS, 5, t=300, core=False, part=1)
    return j


def k05(deep):
    embed = lambda lang, ctx, m, t: lex('lex_embed', (lang,), 0, t=t, core=m < 3, pieces=m, ctx=ctx)
    j = []
    for lang, contexts in ((7, 5), (20, 1), (19, 3)):
        for c in range(contexts):
            j += embed(lang, c, 2, 300)
            if deep:
                j += lex('lex_embed', (lang,), 0, t=400, core=False, pieces=3, min=3, ctx=c)
    j += lex('lex_embed', (8,), 0, t=120, pieces=2)
    j += lex('lex_reference', (8, 19), 5 if deep else 3)
    for which in range(4):
        j += one('h_lex', 'lex_html_embed', t=200, steps=2000000, n=2, which=which) + one('h_lex', 'lex_html_embed', t=200, steps=2000000, n=1, piece=1, which=which)
        if deep:
            j += one('h_lex', 'lex_html_embed', t=500, core=False, steps=2000000, n=3, which=which) + one('h_lex', 'lex_html_embed', t=500, core=False, steps=2000000, n=2, piece=1, which=which)
    if deep:
        for c in range(8):
            j += lex('lex_embed', (8,), 0, t=400, core=False, pieces=3, min=3, ctx=c)
    return j


OPLANGS = (2, 3, 6, 7, 8, 16, 17, 18, 19, 20, 21, 22, 24)


def k06(deep):
    j = lex('lex_operator', OPLANGS, 1) + lex('lex_operator', OPLANGS, 2) + lex('lex_operator', OPLANGS, 3, t=200)
    j += lex('lex_operator', OPLANGS, 1, whole=1) + lex('lex_operator', OPLANGS, 0, whole=2, t=120)
    j += lex('lex_kotlin_operator', (19,), 1) + lex('lex_kotlin_operator', (19,), 2, t=120) + lex('lex_sigil_operator', (5,), 1) + lex('lex_sigil_operator', (5,), 2)
    if deep:
        j += lex('lex_operator', OPLANGS, 4, t=800, core=False) + lex('lex_operator', (8, 16, 17, 22), 5, t=400, core=False) + lex('lex_operator', OPLANGS, 1, whole=2, t=400, core=False)
        j += lex('lex_kotlin_operator', (19,), 3, t=300) + lex('lex_sigil_operator', (5,), 3, t=300)
    return j


def k07(deep):
    j = []
    for p in range(4):
        j += lex('lex_tag', (4, 12), 3, part=p, t=120) + lex('lex_tag', (7,), 3 if p < 3 else 2, part=p, t=120)
    j += lex('lex_tag', (4, 12, 7), 1, part=4, t=200)
    j += lex('lex_declaration', (4,), 3, part=0) + lex('lex_declaration', (4,), 3, part=1)
    for p in range(8):
        j += lex('lex_declaration', (12,), 3 if p < 4 else 2, part=p, t=120)
    j += lex('lex_declaration', (12,), 1, part=5) + lex('lex_declaration', (12,), 3, part=7) + lex('lex_declaration', (12,), 3, part=4)
    if deep:
        for p in range(4):
            j += lex('lex_tag', (4, 12, 7), 4, part=p, t=400, core=False)
        j += lex('lex_tag', (4, 12), 2, part=4, t=600, core=False)
        j += lex('lex_declaration', (4,), 5, part=0, core=False) + lex('lex_declaration', (4,), 5, part=1, core=False)
        for p in (0, 1, 3, 4, 7):
            j += lex('lex_declaration', (12,), 5 if p < 2 else 4, part=p, t=300, core=False)
    return j


def k08(deep):
    short = (19, 44, 45, 46)  # of fixed length
    j = []
    for k in range(57):
        for n in (1,) if k in short else (1, 2, 3, 5, 6) + ((8, 12) if deep else ()):
            j += one('h_lex', 'lex_sigil', t=120 if n < 7 else 300, core=n < 7, steps=2000000, kind=k, n=n)
        j += one('h_lex', 'lex_sigil', t=60, steps=2000000, kind=k, n=1 if k in short else 2, flags=1)
    return j


def k09(deep):
    j = []
    def add(part, ns, more, **p):
        nonlocal j
        for n in ns + (more if deep else ()):
            j += one('h_lex', 'lex_place', t=150 if n in ns else 800, core=n in ns, steps=20000000, part=part, n=n, **p)
    add(0, (0, 1, 2), (3,))
    add(0, (3, 4, 5), (6,), few=1)
    add(1, (0, 1, 2, 3, 4, 5, 8), (16,))
    add(2, (1,), (), k=2)
    add(2, (2, 3), (4,), k=1, few=1)
    add(2, (2, 3), (4,), k=1, few=2)
    add(2, (), (2,), k=1)
    add(3, (1, 2, 3, 4), (5,), k=2)
    return j


Prop('K09', 'Parts of a style sheet, document, script or diff are highlighted by their place', k09,
     lambda d: {'sources': 'style sheets of up to %d (with fewer variants %d) rules, at-rules, declarations and ends of blocks, nested in any way; YAML documents of one line with any of 7 kinds of keys and 9 kinds of values, and up to %d lines of nested sequences and mappings with fewer kinds; Bash scripts of up to %d words, strings, redirections, operators, subshells and substitutions; any line of a diff of up to %d characters after any other' % ((3, 6, 4, 5, 16) if d else (2, 5, 3, 4, 8)),
                'outside': 'selectors within blocks, which may look like declarations; YAML keys that are collections, explicit keys and single pairs in flow sequences; keywords, assignments and heredocs in Bash; non-ASCII text'})
def k10(deep):
    j = []
    sizes = {0: (0, 1, 2, 3, 4, 5, 6), 1: (2, 3, 5, 8), 2: (0, 1, 2, 3, 4), 3: (1, 2, 3, 5, 10, 11), 4: (1, 2, 3), 5: (1, 2, 3, 4, 5), 6: (2, 4, 6), 7: (3, 5, 6), 8: (2, 3), 9: (0, 1, 2, 3, 5), 10: (0, 1, 2, 4), 11: (0, 1, 3, 5)}
    for part, ns in sizes.items():
        top = ns[-1]
        more = tuple(range(top + 1, top + 3)) if deep else ()
        for n in ns + more:
            j += one('h_lex', 'lex_markdown', t=120 if n <= top else 600, core=n <= top, steps=2000000, part=part, n=n)
    return j


Prop('K10', 'Markdown is divided into blocks and spans as CommonMark defines them', k10,
     lambda d: {'sources': 'headings with up to %d arbitrary characters, thematic breaks of up to %d characters, fences with up to %d characters of an info string and two further lines, list markers of up to %d characters, up to %d nested block quotes around other blocks, indented code of up to %d blanks, and up to %d backticks, backslashes, blanks and letters, %d characters of a reference, a backslash with any two characters, and emphasis, links, images and autolinks with up to %d characters within a line' % ((8, 10, 6, 13, 5, 7, 8, 8, 7) if d else (6, 8, 4, 11, 3, 5, 6, 6, 5)),
                'outside': 'nested emphasis and links, reference links, HTML, tables and underlined headings; code indented by blanks and a tab; blocks nested in list items; lazy continuation lines; non-ASCII text; where the file tests deviate from CommonMark (unmatched backticks, parentheses in link destinations, escapes and code in emphasis and link texts), so does the check, or leaves it out'})
Prop('K08', 'Names with a mark are highlighted as names of their kind, up to their end', k08,
     lambda d: {'sources': 'a name of %s characters with a mark, of any of 57 kinds in 19 languages (sigils, annotations, labels, macros, directives, anchors, tags, attributes, selectors, properties, functions, options, commands), at three different places, with any permitted character after it or at the end of the source' % ('1 to 3, 5, 6, 8 and 12' if d else '1 to 3, 5 and 6'),
                'outside': 'non-ASCII names and names with escapes; quoted names in LLVM; names between blanks (@ a); keywords used as names; other surroundings'})
Prop('K07', 'Tags, references and declarations of markup are divided into their parts', k07,
     lambda d: {'sources': 'an element with one or two attributes, in HTML, XML and JSX, with any name of an element or attribute, value, text or reference of up to %d characters, or up to %d blanks in each of six places; doctypes, CDATA sections, processing instructions and XML declarations, and document type declarations with an entity, element, attribute list, notation or reference, with names and literals of up to 3 (%d) characters' % ((4, 2, 5) if d else (3, 1, 3)),
                'outside': 'malformed markup; non-ASCII names; elements within attribute values in JSX; conditional sections and deeper content models in document type declarations; embedded code (see K05) and comments (see K01)'})
Prop('K06', 'Operators and brackets are highlighted one by one, each as such', k06,
     lambda d: {'sources': 'all sequences of up to %s characters from the operators, brackets and punctuation of 13 languages, also of two operators of any length%s, between two words, with or without blanks around them (C and C++: also in directives); Kotlin in, is and as with what follows them; NASM %% and $; CSS combinators' % (('4 (5 in four languages)', ' and a character') if d else ('3', '')),
                'outside': 'longer sequences; those that begin a comment, regular expression or element; annotations and other names with a sigil; Markup languages; operators whose number of tokens is left to the implementation'})
Prop('K05', 'Embedded code is highlighted like the same code elsewhere, up to its end', k05,
     lambda d: {'sources': 'code of up to %d pieces in 17 contexts (templates and JSX in JavaScript, templates in TypeScript, strings in Kotlin, substitutions in Bash), where a piece is a character, or a string, comment, block, template, regular expression or element containing what would end the code, and any ordinary ASCII character; names of up to %d characters in strings; HTML elements with up to %d arbitrary ASCII characters, also behind pieces of tags' % ((3, 5, 3) if d else (2, 3, 2)),
                'outside': 'more pieces; code with unbalanced braces or parentheses; regular expressions and text with quotes within JSX attributes; heredocs and backtick substitutions in Bash; comments which look like HTML comments in scripts; Cowel'})
Prop('K01', 'Comments extend exactly to their end, and leave everything else alone', k01,
     lambda d: {'sources': 'comments with up to %s arbitrary bytes inside or behind them, between fixed pieces of code, in 19 languages' % ('3 (4 in ten languages)' if d else '2 (3 in ten languages)'),
                'outside': 'Diff, JSON and plain text (no comments), TeX and LaTeX (comments are deliberately not highlighted as such) and Markdown; longer texts; backslashes in NASM comments and lone CR in C, C++, Lua and Rust comments'})
Prop('K03', 'Exactly the words that a language defines as keywords are highlighted as such', k03,
     lambda d: {'sources': 'all words of %s letters, digits and underscores, and each keyword with any one character replaced or added, alone, in white space and in parentheses, in eleven languages, C and C++ also in strict mode; registers and jumps in NASM; url in CSS' % ('3 to 5 (6 in four languages)' if d else '3'),
                'outside': 'words for which the language definitions (or their versions) differ on whether they are keywords; keywords with a meaning only in context; non-ASCII words; Bash, whose keywords are not highlighted; names of HTML and CSS (see J)'})
Prop('K04', 'Numbers extend exactly to their end and are divided into their parts', k04,
     lambda d: {'sources': 'numbers of 66 forms in 13 languages, with any digits (up to %d in the integer, %d in the fraction and the exponent), any placement of separators, every prefix, exponent and suffix; short ones also in two contexts and followed by six others or by any other character' % ((5, 2) if d else (3, 2)),
                'outside': 'longer numbers; invalid ones; those on which existing tests pin another reading (Java numbers that end with a point, Kotlin ones at the end of a line); JSON (see J01) and Cowel'})
Prop('K02', 'String literals extend exactly to their end, and leave everything else alone', k02,
     lambda d: {'sources': 'string literals of 50 kinds in 19 languages with up to %s arbitrary bytes inside or behind them, between fixed pieces of code' % ('3 (4 in eight languages)' if d else '2 (3 in twelve languages)'),
                'outside': 'ill-formed UTF-8; interpolation; character references in attribute values; the digits of numeric escapes (see L01); Cowel, Markdown, TeX; longer texts'})
