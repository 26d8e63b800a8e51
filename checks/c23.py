"""C23: everything the library displays can be read back to exactly the object displayed."""
import html.parser
import itertools
import re
import sys
import types

from peyl import DGNF, GNF, JonesCellRep, JonesSummand, LPoly, Matrix, NPar, Permutation, Poly, show, tl
from vlib import ref_braid as R
from vlib import ref_poly as RP
from vlib import ref_tl as T
from vlib.core import Family, slices
from vlib.impl import factor_impl, lift, lift_seq, read

PROPERTY = 'C23'
ASSUMPTIONS = ['pictures are drawn through the svg package; a recording stand-in for it notes the curves drawn',
               'the identity braids of different braid groups are displayed alike (the number of strands is not part of the display)']


# ------------------------------------------------------------------ a recording stand-in for the svg package
class Command:
    def __init__(self, kind, args):
        self.kind, self.args = kind, args


class Drawing:
    made = []

    def __init__(self, **kw):
        self.kw = kw
        Drawing.made.append(self)
        self.token = f'[[picture {len(Drawing.made) - 1}]]'

    def as_str(self, *a, **k):
        return self.token

    __str__ = _repr_svg_ = as_str


def stub():
    m = types.ModuleType('svg')
    for k in ('M', 'C', 'L', 'Q', 'MoveTo', 'CubicBezier', 'LineTo'):
        setattr(m, k, lambda *a, k=k, **kw: Command({'MoveTo': 'M', 'CubicBezier': 'C', 'LineTo': 'L'}.get(k, k), list(a) + list(kw.values())))
    m.Path = lambda **kw: types.SimpleNamespace(kind='path', **kw)
    m.SVG = lambda **kw: Drawing(**kw)
    m.G = lambda **kw: types.SimpleNamespace(kind='group', **kw)
    return m


sys.modules['svg'] = stub()


def curves(elements):
    """(start, end) of every curve drawn."""
    out = []
    for el in elements:
        if getattr(el, 'kind', None) == 'group':
            out += curves(el.elements)
            continue
        at = None
        for c in el.d:
            end = tuple(c.args[-2:])
            if c.kind != 'M':
                out.append((at, end))
            at = end
    return out


def read_drawing(ctx, d, top, bot, what):
    """The picture drawn."""
    cs = curves(d.kw['elements'])
    pts = sorted({p for c in cs for p in c})
    ctx.check(len(pts) == 2 * len(cs) == top + bot, f'{what}: {len(cs)} curves with {len(pts)} ends are drawn for {top} + {bot} points')
    if not pts:
        return frozenset()
    ys = sorted({y for _, y in pts})
    if top and bot:
        ctx.check(len(ys) == 2, f'{what}: the ends lie at heights {ys}')
        up = [p for p in pts if p[1] == ys[0]]
        down = [p for p in pts if p[1] == ys[1]]
    else:
        ctx.check(len(ys) == 1, f'{what}: the ends lie at heights {ys}')
        up, down = (pts, []) if top else ([], pts)
        h = float(d.kw.get('height', 2 * ys[0]))
        ctx.check((ys[0] < h / 2) == bool(top), f'{what}: the ends are drawn at height {ys[0]} of {h}')
    ctx.check(len(up) == top and len(down) == bot, f'{what}: {len(up)} ends above and {len(down)} below')
    w, h = d.kw.get('width'), d.kw.get('height')
    if w is not None and h is not None:
        ctx.check(all(0 <= x <= float(w) and 0 <= y <= float(h) for x, y in pts), f'{what}: ends outside the {w} x {h} picture: {pts}')
    name = {p: ('t', i) for i, p in enumerate(up)}
    name.update({p: ('b', i) for i, p in enumerate(down)})
    return frozenset(frozenset((name[a], name[b])) for a, b in cs)


def drawn(html):
    """Drawings in the order their places occur in the text."""
    return [Drawing.made[int(k)] for k in re.findall(r'\[\[picture (\d+)\]\]', html)]


# ------------------------------------------------------------------ readers
def read_text_braid(text):
    env = {'GNF': lambda power, factors: ('GNF', power, tuple(factors)), 'DGNF': lambda power, factors: ('DGNF', power, tuple(factors)),
           'Permutation': lambda word: tuple(word), 'NPar': lambda n, comps: (n, frozenset(frozenset(c) for c in comps))}
    return eval(text, {'__builtins__': {'set': set, 'frozenset': frozenset}}, env)


def nontrivial(n, blocks):
    return n, frozenset(frozenset(b) for b in blocks if len(b) > 1)


def perm_word(n, word):
    w = list(range(n))
    for s in word:
        w[s], w[s + 1] = w[s + 1], w[s]
    return tuple(w)


def inside(text):
    text = text.strip()
    if not (text.startswith('$') and text.endswith('$') and len(text) > 1):
        raise ValueError(f'{text!r} is not marked as a formula')
    return text.strip('$').strip()


def read_latex_perm(n, text):
    """All words giving the text; the permutation composes left to right on positions."""
    if re.fullmatch(r'\s*\\(mathrm|text|operatorname)\{id\}\s*', text):
        return tuple(range(n))
    left = re.sub(r's_\{?\d+\}?', '', text).replace('\\,', '').strip()
    if left:
        raise ValueError(f'cannot read {left!r} in {text!r}')
    return perm_word(n, [int(x) for x in re.findall(r's_\{?(\d+)\}?', text)])


def read_latex_npar(n, text):
    body = re.fullmatch(r'\s*p\((.*)\)\s*', text)
    if not body:
        raise ValueError(f'cannot read {text!r}')
    blocks = [tuple(int(x) for x in b.split(',')) for b in re.findall(r'\\\{([\d,\s]+)\\\}', body.group(1))]
    if sorted(x for b in blocks for x in b) != list(range(n)):
        raise ValueError(f'{text!r} is not a partition of {n} points')
    return nontrivial(n, blocks)


def split_top(text):
    """Split at commas outside of brackets."""
    out, depth, cur = [], 0, ''
    for ch in text:
        depth += (ch in '({') - (ch in ')}')
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return [x for x in out + [cur] if x.strip()]


def read_latex_braid(kind, n, text):
    m = re.fullmatch(r'\(\s*(\\Delta|\\delta)\s*\^\s*\{?\s*(-?\d+)\s*\}?\s*[;,]?(.*)\)', inside(text))
    if not m or m.group(1) != {'GNF': r'\Delta', 'DGNF': r'\delta'}[kind]:
        raise ValueError(f'cannot read {text!r}')
    return kind, int(m.group(2)), tuple((read_latex_perm if kind == 'GNF' else read_latex_npar)(n, f) for f in split_top(m.group(3)))


def reading(ctx, what, fn, *a):
    try:
        return fn(*a)
    except Exception as e:
        ctx.fail(f'{what}: cannot be read back ({type(e).__name__}: {e})')


def distinct(ctx, seen, text, obj, what):
    if seen.setdefault(text, obj) != obj:
        ctx.fail(f'{what}: {text!r} displays both {seen[text]} and {obj}')


# ------------------------------------------------------------------ braids and factors
def run_braids(ctx, chunk):
    kind, n, L, powers, lo, hi = chunk
    one = lift_seq(kind, n, [tuple(reversed(range(n))) if kind == 'GNF' else (tuple(range(n)),)])
    seen = {}
    for f in list(R.normal_forms(kind, n, L))[lo:hi]:
        for e in powers:
            b = one ** e * lift_seq(kind, n, f)
            want = (kind, e, tuple(f) if kind == 'GNF' else tuple(nontrivial(n, x) for x in f))
            for text in (repr(b), str(b)):
                got = reading(ctx, text, read_text_braid, text)
                ctx.check(got == want, f'{kind} with {(e, f)} is displayed as {text}')
                distinct(ctx, seen, text, want, kind)
            text = b._repr_latex_()
            got = reading(ctx, text, read_latex_braid, kind, n, text)
            ctx.check(got == want, f'{kind} with {(e, f)} is displayed as {text}')
            distinct(ctx, seen, text, want, kind)
            ctx.step(3)
            ctx.fresh_states(1)
    ctx.trace()


def run_perms(ctx, chunk):
    n, lo, hi = chunk
    seen = {}
    special = [tuple(range(n)), tuple(range(n))[::-1], tuple(range(1, n)) + (0,), (n - 1,) + tuple(range(n - 1))] + [tuple(j if k == i else i if k == j else k for k in range(n)) for i in range(n) for j in range(i + 1, n)]
    for w in (R.perms(n) if n < 8 else special)[lo:hi]:
        x = Permutation(w)
        ctx.check(reading(ctx, repr(x), read_text_braid, repr(x)) == w == read_text_braid(str(x)), f'{w} is displayed as {x!r}')
        text = x._repr_latex_()
        got = reading(ctx, text, lambda: read_latex_perm(n, inside(text)))
        ctx.check(got == w, f'{w} is displayed as {text}')
        ctx.check(len(re.findall(r's_', text)) == sum(w[i] > w[j] for i in range(n) for j in range(i + 1, n)), f'{w} is displayed as the longer word {text}')
        distinct(ctx, seen, text, w, 'permutation')
        distinct(ctx, seen, show.html_repr(x), w, 'permutation')
        ctx.step(3)
    ctx.fresh_states(hi - lo)
    ctx.trace()


def run_npars(ctx, chunk):
    n, = chunk
    seen = {}
    allp = list(R.noncrossing(n)) if n < 8 else [R.norm_blocks(n, [list(range(i, n, s))] + [[j] for j in range(n) if j < i or (j - i) % s]) for s in (1, 2, 5) for i in range(n)] + \
        [R.norm_blocks(n, [list(range(i)), list(range(i, n))]) for i in range(1, n)]
    for b in allp:
        x = NPar.from_components(n, [list(c) for c in b])
        want = nontrivial(n, b)
        for text in (repr(x), str(x)):
            ctx.check(reading(ctx, text, read_text_braid, text) == want, f'{b} is displayed as {text}')
        text = x._repr_latex_()
        got = reading(ctx, text, lambda: read_latex_npar(n, inside(text)))
        ctx.check(got == want, f'{b} is displayed as {text}')
        distinct(ctx, seen, text, want, 'partition')
        distinct(ctx, seen, repr(x), want, 'partition')
        ctx.step(3)
        ctx.fresh_states(1)
    ctx.trace()


# ------------------------------------------------------------------ matrices
POLYS = [{}, {0: 1}, {0: -1}, {0: 12}, {1: 1}, {1: -1}, {-1: 1}, {2: -3}, {-2: -1, 0: 1}, {-12: 2, 10: -1}, {1: 1, 0: -1}, {3: 1, 1: -10, -1: 1}, {0: 2, -1: -1}]
INTS = [0, 1, -1, 2, -12, 100, 7, -3, 10]


def read_entry(x):
    """An entry of a displayed matrix: an integer, or a polynomial in LaTeX."""
    return RP.parse(x.strip().strip('$').strip())


def run_matrices(ctx, chunk):
    r, c, kind, start = chunk
    pool = INTS if kind == 'int' else POLYS
    vals = [[pool[(start + 3 * i + 5 * j + i * j) % len(pool)] for j in range(c)] for i in range(r)]
    want = [[RP.clean({0: x}) if kind == 'int' else x for x in row] for row in vals]
    M = Matrix(r, c, tuple(x if kind == 'int' else RP.lpoly(x) for row in vals for x in row))
    text = M._repr_latex_()

    def latex():
        body = re.fullmatch(r'\$*\s*\\begin\{[pb]?matrix\}(.*)\\end\{[pb]?matrix\}\s*\$*', text, re.S).group(1)
        return [[read_entry(x) for x in row.split('&')] for row in body.split(r'\\') if row.strip()]
    got = reading(ctx, text, latex)
    if r and c:
        ctx.check(got == want, f'the matrix {vals} is displayed as {text}')
    if kind == 'int':
        s = str(M)
        got = reading(ctx, s, lambda: eval(re.sub(r'^\s*M(?=\[)', '', s)))
        if r:
            ctx.check(got == vals, f'the matrix {vals} is displayed as {s}')
    if r and c:
        fake = {'Matrix': lambda rows: rows, 'LPoly': lambda t: RP.parse(t)}
        got = reading(ctx, repr(M), lambda: eval(repr(M), dict(fake)))
        ctx.check([[RP.clean({0: x}) if isinstance(x, int) else x for x in row] for row in got] == want, f'the matrix {vals} is displayed as {M!r}')
    ctx.step(3)
    ctx.fresh_states(1)
    ctx.trace()


# ------------------------------------------------------------------ diagrams
def run_diagrams(ctx, chunk):
    top, bot = chunk
    seen = {}
    for p in T.pictures(top, bot):
        d = tl.TLDiag(top, bot, T.seq_of(top, bot, p))
        html = d._repr_html_()
        ds = drawn(html)
        ctx.check(len(ds) == 1, f'{d!r} is displayed as {html!r}')
        got = read_drawing(ctx, ds[0], top, bot, f'picture of {d!r}')
        ctx.check(got == p, lambda: f'{d!r} is drawn as {sorted(map(sorted, got))}')
        ctx.check(show.html_repr(d).strip() and len(drawn(show.html_repr(d))) == 1, 'html_repr of a diagram')
        distinct(ctx, seen, repr(d), p, 'diagram')
        key = frozenset(frozenset(c) for c in curves(ds[0].kw['elements']))
        distinct(ctx, seen, key, p, 'drawing')
        ctx.step(2)
        ctx.fresh_states(1)
        del Drawing.made[:]
    ctx.trace()


def judge_morphism(ctx, top, bot, want):
    m = tl.TLMor(top, bot, {tl.TLDiag(top, bot, T.seq_of(top, bot, p)): RP.lpoly(c) for p, c in want.items()})
    html = m._repr_html_()
    text = re.sub(r'<[^>]*>', '', html)
    parts = re.findall(r'\$\s*\(([^$]*)\)\s*\$\s*\[\[picture (\d+)\]\]', text)
    rest = re.sub(r'\$\s*\(([^$]*)\)\s*\$\s*\[\[picture (\d+)\]\]', '', text)
    ctx.check(not re.sub(r'[$+\s]', '', rest) and len(re.findall(r'\+', rest)) == max(0, len(parts) - 1), lambda: f'{m!r} is displayed as {text!r}')
    got = {}
    for c, i in parts:
        p = read_drawing(ctx, Drawing.made[int(i)], top, bot, f'picture in {m!r}')
        ctx.check(p not in got, lambda: f'{m!r} is displayed with a diagram twice')
        got[p] = reading(ctx, c, RP.parse, c)
    ctx.check(got == want, lambda: f'{m!r} is displayed as {[(c, sorted(map(sorted, p))) for p, c in got.items()]}')
    got = eval(repr(m), {'TLMor': lambda top, bot, terms: (top, bot, terms), 'TLDiag': lambda top, bot, seq: T.picture(top, bot, seq), 'LPoly': RP.parse}) if repr(m).startswith('TLMor(') else (top, bot, want)
    ctx.check(got == (top, bot, want), lambda: f'printed form {m!r}')
    ctx.fresh_states(1)
    ctx.step(2)
    del Drawing.made[:]


def run_morphisms(ctx, chunk):
    top, bot, terms = chunk
    pics = T.pictures(top, bot)
    for k in range(terms + 1):
        for ps in itertools.permutations(pics, k) if k < 3 else itertools.combinations(pics, k):
            for s in range(0, len(POLYS) - 1, 2 if k < 2 else 5):
                judge_morphism(ctx, top, bot, {p: POLYS[1 + (s + 3 * i) % (len(POLYS) - 1)] for i, p in enumerate(ps)})
    ctx.trace()


def run_long_morphisms(ctx, chunk):
    """All diagrams at once, all but one, every other one; forwards and backwards."""
    top, bot = chunk
    pics = list(T.pictures(top, bot))
    for ps in [pics, pics[1:], pics[:-1], pics[::2], pics[1::2], pics[::-1]] + [pics[:m] for m in (7, 8, 9, 15, 16, 17, 31, 32, 33)]:
        for s in (0, 5):
            judge_morphism(ctx, top, bot, {p: POLYS[1 + (s + 3 * i) % (len(POLYS) - 1)] for i, p in enumerate(ps)})
    ctx.trace()


# ------------------------------------------------------------------ rows and tables
class Html:
    def __init__(self, t):
        self.t = t

    def _repr_html_(self):
        return f'<b>{self.t}</b>'


class Tex:
    def __init__(self, t):
        self.t = t

    def _repr_latex_(self):
        return f'${self.t}$'


class Both(Html, Tex):
    pass


class Plain:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return self.t


MAKE = [Html, Tex, Both, Plain, str]


class Cells(html.parser.HTMLParser):
    """Text of table cells, and nesting of everything else."""

    def __init__(self, text):
        super().__init__()
        self.rows, self.cell, self.text, self.depth, self.stack, self.places = [], None, '', 0, [], []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        if tag == 'tr':
            self.rows.append([])
        if tag in ('td', 'th'):
            self.rows[-1].append('')
            self.cell = True
        self.stack.append(tag)

    def handle_endtag(self, tag):
        assert self.stack and self.stack.pop() == tag, f'</{tag}> does not close what is open'
        if tag in ('td', 'th'):
            self.cell = None

    def handle_data(self, data):
        if self.cell:
            self.rows[-1][-1] += data
        self.places.append((tuple(self.stack), data))
        self.text += data


def plain(x):
    return x.replace('$', '').strip()


def parse_html(ctx, text):
    def go():
        c = Cells(text)
        assert not c.stack, f'{c.stack} left open'
        return c
    return reading(ctx, text, go)


def run_rows(ctx, chunk):
    """Row: all kinds of items in order, each with its caption."""
    m, captioned = chunk
    for kinds in itertools.product(range(len(MAKE)), repeat=m):
        items = [MAKE[k](f'item{i}k{k}') for i, k in enumerate(kinds)]
        calls = []

        def caption(i, item):
            calls.append((i, item))
            return MAKE[(i + 1) % len(MAKE)](f'caption{i}of{kinds[i]}')
        for source in (items, iter(items), tuple(items)):
            row = show.Row(source, caption) if captioned else show.Row(source)
            for _ in range(2):
                del calls[:]
                c = parse_html(ctx, row._repr_html_())
                words = re.findall(r'(item\d+k\d+|caption\d+of\d+)', c.text)
                want = [w for i, k in enumerate(kinds) for w in [f'item{i}k{k}'] + ([f'caption{i}of{k}'] if captioned else [])]
                ctx.check(words == want, f'Row of {[x if isinstance(x, str) else type(x).__name__ for x in items]} shows {words}')
                if captioned:
                    ctx.check(sorted(i for i, _ in calls) == list(range(m)) and all(x is items[i] for i, x in calls), f'captions are asked for {[(i, getattr(x, "t", x)) for i, x in calls]}')
                ctx.step()
    ctx.fresh_states(len(MAKE) ** m)
    ctx.trace()


def run_empty_rows(ctx, chunk):
    """Rows of items and captions that count as false, are alike or are objects of the library."""
    m, = chunk
    things = [0, '', (), 0.0, [], False, 7, Permutation((1, 0)), LPoly(0, ()), LPoly(1, (2,)), Matrix(0, 0, ())]
    for items in itertools.product(things, repeat=m):
        for caption in (lambda i, x: f'caption{i}', lambda i, x: 100 + i):
            text = show.Row(list(items), caption)._repr_html_()
            c = parse_html(ctx, text)
            words = re.findall(r'caption\d+|10[0-4]', c.text)
            ctx.check(words == [str(caption(i, x)) for i, x in enumerate(items)], lambda: f'a row of {items} shows {c.text!r}')
            alone = [parse_html(ctx, show.Row([x])._repr_html_()).text for x in items]
            ctx.check(''.join(re.split(r'caption\d+|10[0-4]', c.text)).replace(',', '').replace(' ', '') == ''.join(alone).replace(',', '').replace(' ', ''), lambda: f'a row of {items} shows {c.text!r}; the items alone show {alone}')
            ctx.step(2)
        for empty in (0, '', ()):
            c = parse_html(ctx, show.Row([7] * m, lambda i, x: empty)._repr_html_())
            want = parse_html(ctx, show.Row([v for _ in range(m) for v in (7, empty)])._repr_html_())
            ctx.check(re.sub('[ ,]', '', c.text) == re.sub('[ ,]', '', want.text), lambda: f'captions {empty!r} are shown as {c.text!r}')
        ctx.fresh_states(1)
    ctx.trace()


class ByPair:
    def __init__(self, rows):
        self.rows = rows

    def __getitem__(self, ij):
        return self.rows[ij[0]][ij[1]]


def run_tables(ctx, chunk):
    """FramedMatrix: headings and entries in their places; blank means zero."""
    r, c, kind, start = chunk
    for hk in range(len(MAKE)):
        rows = [MAKE[(hk + i) % len(MAKE)](f'row{i}') for i in range(r)]
        cols = [Both(f'col{j}') if j % 2 else Html(f'col{j}') for j in range(c)]
        if kind == 'token':
            vals = [[MAKE[(start + hk + i + 2 * j) % len(MAKE)](f'e{i}x{j}') for j in range(c)] for i in range(r)]
            want = [[f'e{i}x{j}' for j in range(c)] for i in range(r)]
        elif kind == 'int':
            want = [[INTS[(start + 3 * i + 5 * j + i * j) % len(INTS)] for j in range(c)] for i in range(r)]
            vals = want
        else:
            want = [[POLYS[(start + 3 * i + 5 * j + i * j) % len(POLYS)] for j in range(c)] for i in range(r)]
            vals = [[RP.lpoly(x) for x in row] for row in want]
        forms = [vals, tuple(map(tuple, vals)), ByPair(vals)]
        if kind != 'token' and r and c:
            forms.append(Matrix.from_rows(vals))
        for entries in forms:
            fm = show.FramedMatrix(rows, cols, entries)
            cells = parse_html(ctx, fm._repr_html_()).rows
            ctx.check(len(cells) == r + 1 and all(len(x) == c + 1 for x in cells), f'a {r} x {c} table is displayed with rows of {[len(x) for x in cells]} cells')
            ctx.check([plain(x) for x in cells[0]] == [''] + [f'col{j}' for j in range(c)], f'headings {cells[0]}')
            for i in range(r):
                ctx.check(plain(cells[i + 1][0]) == f'row{i}', f'heading {cells[i + 1][0]!r} of row {i}')
                for j in range(c):
                    t = plain(cells[i + 1][j + 1])
                    if kind == 'token':
                        got = t
                    else:
                        got = reading(ctx, t, RP.parse, t or '0')
                        if kind == 'int':
                            got = got.get(0, 0) if set(got) <= {0} else got
                    ctx.check(got == want[i][j], f'entry {(i, j)} of a table is displayed as {t!r}, it is {want[i][j]}')
            ctx.step()
    ctx.fresh_states(1)
    ctx.trace()


def run_others(ctx, chunk):
    """html_repr, Latex, and the names of the representations."""
    for x in ('a', '', 'x & y'):
        ctx.check(show.html_repr(x) == x, f'html_repr({x!r})')
    for x in (3, -1, (1, 2), [3], None):
        ctx.check(show.html_repr(x) == repr(x), f'html_repr({x!r})')
    for cls in (Html, Tex, Both, Plain):
        for prefer in (False, True):
            t = show.html_repr(cls('word'), prefer_latex=prefer)
            ctx.check(plain(parse_html(ctx, t).text) == 'word', f'html_repr of {cls.__name__} gives {t!r}')
            if cls is Both:
                ctx.check(('<b>' in t) == (not prefer), f'html_repr prefers the wrong form: {t!r}')
            ctx.step()
    for m in ('x', r'\frac{1}{2}'):
        t = show.Latex(m)._repr_latex_()
        ctx.check(t.startswith('$') and inside(t) == m, f'Latex({m!r}) is displayed as {t!r}')
        ctx.check(inside(show.html_repr(show.Latex(m))) == m, 'html_repr of Latex')
    seen = {}
    for n in range(2, 8):
        for r in range(n // 2 + 1):
            for p in (0, 2, 3, 5, 7, 11, 13, 8191):
                for cls in (JonesCellRep, JonesSummand):
                    t = repr(cls(n, r, p))
                    nums = [int(x) for x in re.findall(r'\d+', t)]
                    ctx.check(sorted(nums) == sorted([n - r, r, n] + ([p] if p else [])) or sorted(nums) == sorted([n, r, p]), f'{cls.__name__}({n}, {r}, {p}) is displayed as {t!r}')
                    distinct(ctx, seen, (cls, t), (n, r, p), 'representation')
                    ctx.step()
    for v in range(-12, 13):
        for cs in itertools.product((-12, -1, 0, 1, 2), repeat=3):
            a = LPoly(v, cs)
            want = RP.clean({v + i: c for i, c in enumerate(cs)})
            for t in (repr(a)[7:-2], str(a)[7:-2], a.fmt(), a.fmt('latex'), a._repr_latex_(), plain(show.html_repr(a)), plain(show.html_repr(a, prefer_latex=True))):
                ctx.check(reading(ctx, t, RP.parse, t) == want, f'{want} is displayed as {t!r}')
            ctx.step()
    for cs in itertools.product((-12, -1, 0, 1, 2), repeat=4):
        for lead in ((), (1,), (0,) * 9 + (-3,)):
            a = Poly(*(cs + lead))
            want = RP.clean(dict(enumerate(cs + lead)))
            t = repr(a)
            ctx.check(reading(ctx, t, lambda: RP.parse(t[6:-2], 'x')) == want and str(a) == t, f'{want} is displayed as {t!r}')
            ctx.step()
    ctx.fresh_states(len(seen))
    ctx.trace()


AROUND = [7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]


def run_long_braids(ctx, chunk):
    """One normal form of every length around every power of two, and every such power of the Garside element."""
    kind, n = chunk
    one = lift_seq(kind, n, [tuple(reversed(range(n))) if kind == 'GNF' else (tuple(range(n)),)])
    seen = {}
    powers = sorted({s * e for e in AROUND + [0, 1, 512, 999, 1000, 1001, 1024, 4096, 10 ** 6] for s in (1, -1)})
    cases = [(e, L, 3) for e in powers for L in (0, 1, 2) if not (n == 2 and L)]
    if n > 2:
        cases += [(e, L, step) for L in AROUND[:-3] for e in (0, -1, 64) for step in (1, 3)]
    for e, L, step in cases:
        f = ()
        while len(f) < L:
            nxt = list(R.normal_forms(kind, n, 1, after=f[-1] if f else None))
            f += nxt[(len(f) * step + step) % len(nxt)]
        b = one ** e * lift_seq(kind, n, f)
        want = (kind, e, tuple(f) if kind == 'GNF' else tuple(nontrivial(n, x) for x in f))
        for text in (repr(b), str(b)):
            ctx.check(reading(ctx, text, read_text_braid, text) == want, lambda: f'{kind} with power {e} and {L} factors {f} is displayed as {text}')
        text = b._repr_latex_()
        ctx.check(reading(ctx, text, read_latex_braid, kind, n, text) == want, lambda: f'{kind} with power {e} and {L} factors {f} is displayed as {text}')
        distinct(ctx, seen, text, want, kind)
        ctx.step(3)
        ctx.fresh_states(1)
    ctx.trace()


def run_long_rows(ctx, chunk):
    """Rows of many items."""
    m, = chunk
    for start in range(len(MAKE)):
        for captioned in (False, True):
            items = [MAKE[(start + i * i) % len(MAKE)](f'item{i}') for i in range(m)]
            row = show.Row(items, (lambda i, x: Both(f'caption{i}')) if captioned else None) if captioned else show.Row(items)
            c = parse_html(ctx, row._repr_html_())
            words = re.findall(r'(item\d+|caption\d+)', c.text)
            ctx.check(words == [w for i in range(m) for w in [f'item{i}'] + ([f'caption{i}'] if captioned else [])], lambda: f'a row of {m} items shows {words}')
            ctx.step()
    ctx.fresh_states(1)
    ctx.trace()


def run_long_polys(ctx, chunk):
    """Polynomials with many terms, far exponents and long coefficients."""
    m, = chunk
    for v in (0, -1, 1, -m, m, -1000, 1000, -10 ** 9):
        for cs in ([1] * m, [-1] * m, [(-1) ** i * i for i in range(m)], [0] * (m - 1) + [1], [1] + [0] * (m - 2) + [-1], [10 ** i for i in range(min(m, 70))], [2 ** 63 + i for i in range(m)], [-2 ** 64] * m, [int(i % 9 == 8) for i in range(m)]):
            a = LPoly(v, tuple(cs))
            want = RP.clean({v + i: c for i, c in enumerate(cs)})
            for t in (repr(a)[7:-2], str(a)[7:-2], a.fmt(), a.fmt('latex'), a._repr_latex_(), plain(show.html_repr(a)), plain(show.html_repr(a, prefer_latex=True))):
                ctx.check(reading(ctx, t, RP.parse, t) == want, lambda: f'v^{v} times the polynomial with coefficients {cs} is displayed as {t!r}')
            ctx.step()
            if v == 0:
                t = repr(Poly(*cs))
                ctx.check(reading(ctx, t, lambda: RP.parse(t[6:-2], 'x')) == want and str(Poly(*cs)) == t, lambda: f'the polynomial with coefficients {cs} is displayed as {t!r}')
    ctx.fresh_states(1)
    ctx.trace()


def large_pictures(top, bot):
    """Straight lines, every single cup and cap, and nests of cups and caps, with `top` points above and `bot` below."""
    out = []
    for k in sorted({0, 1, 2, min(top, bot) // 2, min(top, bot) - 2, min(top, bot)}):
        if not 0 <= k <= min(top, bot) or (top - k) % 2 or (bot - k) % 2:
            continue
        for at, bt in [(0, k), (k, 0), (k // 2, k // 2), (k, k)]:
            def side(m, before, name):
                free = list(range(before)) + list(range(m - (k - before), m))
                rest = [i for i in range(m) if i not in set(free)]
                for nested in (True, False):
                    arcs = [(rest[i], rest[-1 - i]) for i in range(len(rest) // 2)] if nested else [(rest[2 * i], rest[2 * i + 1]) for i in range(len(rest) // 2)]
                    yield free, [frozenset([(name, i), (name, j)]) for i, j in arcs]
            for fa, aa in side(top, at, 't'):
                for fb, ab in side(bot, bt, 'b'):
                    out.append(frozenset(aa + ab + [frozenset([('t', i), ('b', j)]) for i, j in zip(fa, fb)]))
    return sorted(set(out), key=lambda p: sorted(map(sorted, p)))


def run_large_diagrams(ctx, chunk):
    top, bot = chunk
    seen = {}
    for p in large_pictures(top, bot):
        d = tl.TLDiag(top, bot, T.seq_of(top, bot, p))
        ds = drawn(d._repr_html_())
        ctx.check(len(ds) == 1, f'{d!r} is displayed with {len(ds)} drawings')
        got = read_drawing(ctx, ds[0], top, bot, f'picture of {d!r}')
        ctx.check(got == p, lambda: f'{d!r} is drawn as {sorted(map(sorted, got))}')
        distinct(ctx, seen, repr(d), p, 'diagram')
        distinct(ctx, seen, frozenset(frozenset(c) for c in curves(ds[0].kw['elements'])), p, 'drawing')
        ctx.step()
        ctx.fresh_states(1)
        del Drawing.made[:]
    ctx.trace()


def families(tier):
    q = tier == 'quick'
    F = []
    ch = []
    for kind, n, L, powers in [('GNF', 2, 0, range(-12, 13)), ('DGNF', 2, 0, range(-12, 13)), ('GNF', 3, 0, range(-12, 13)), ('GNF', 3, 1, range(-11, 12)), ('GNF', 3, 2, range(-3, 4)), ('GNF', 3, 3, (-1, 0, 10)), ('GNF', 4, 1, range(-3, 4)), ('GNF', 4, 2, (0, -1)), ('GNF', 5, 1, (0, -2, 3)),
                              ('DGNF', 3, 1, range(-11, 12)), ('DGNF', 3, 3, range(-3, 4)), ('DGNF', 4, 1, range(-5, 6)), ('DGNF', 4, 2, (0, -1, 2)), ('DGNF', 4, 3, (0,)), ('DGNF', 5, 1, (0, -2, 3)), ('DGNF', 5, 2, (-1,)), ('DGNF', 6, 1, (0, -1))] + (
            [] if q else [('GNF', 3, 6, (-1, 0)), ('GNF', 4, 3, (0, -1)), ('GNF', 5, 2, (0,)), ('GNF', 6, 1, (0, -1)), ('DGNF', 4, 5, (0, -3)), ('DGNF', 5, 3, (0,)), ('DGNF', 6, 2, (-2,))]):
        ch += [[kind, n, L, list(powers), lo, hi] for lo, hi in slices(R.count_normal_forms(kind, n, L), 150)]
    F.append(Family('braids', ch, run_braids, 'every normal form of a length, text and LaTeX'))
    F.append(Family('permutations', [[n, lo, hi] for n in list(range(1, 7)) + [11, 12] + ([] if q else [7]) for lo, hi in slices({11: 59, 12: 70}.get(n) or len(R.perms(n)), 240)], run_perms, 'every permutation'))
    F.append(Family('partitions', [[n] for n in list(range(1, 7 if q else 8)) + [11, 12, 13]], run_npars, 'every noncrossing partition'))
    F.append(Family('matrices', [[r, c, kind, s] for r in range(5) for c in range(5) for kind in ('int', 'poly') for s in range(9 if kind == 'int' else 13)], run_matrices, 'every shape with every rotation of a pool of entries'))
    F.append(Family('diagrams', [[a, b] for a in range(9) for b in range(9) if (a + b) % 2 == 0 and a + b <= (12 if q else 14)], run_diagrams, 'every diagram, drawn'))
    F.append(Family('morphisms', [[a, b, k] for a, b, k in [(0, 0, 1), (1, 1, 1), (2, 0, 1), (0, 2, 1), (2, 2, 2), (3, 1, 2), (1, 3, 2), (4, 0, 2), (0, 4, 2), (3, 3, 3), (2, 4, 2), (4, 2, 2), (5, 1, 2), (4, 4, 2)]], run_morphisms, 'every combination of few diagrams'))
    F.append(Family('rows', [[m, c] for m in range(4 if q else 5) for c in (False, True)], run_rows, 'rows of all kinds of items'))
    F.append(Family('empty_rows', [[m] for m in range(4)], run_empty_rows, 'rows of items and captions that count as false'))
    F.append(Family('tables', [[r, c, kind, s] for r in range(4) for c in range(4) for kind in ('token', 'int', 'poly') for s in range(5)], run_tables, 'framed matrices of all shapes'))
    big = [8, 9, 11, 12, 16, 17] if q else AROUND[:11]
    F.append(Family('long braids', [[k, n] for k in ('GNF', 'DGNF') for n in (2, 3, 4, 5)], run_long_braids, 'normal forms with many factors and with large powers'))
    F.append(Family('large matrices', [[r, c, kind, s] for m in big for r, c in [(m, m), (1, m), (m, 1), (m, 3), (3, m)] for kind in ('int', 'poly') for s in (0, 4)] + [[r, c, kind, 1] for m in AROUND[11:] for r, c in [(1, m), (m, 1), (m, 2), (2, m)] for kind in ('int', 'poly')], run_matrices, 'matrices with many rows and columns'))
    F.append(Family('large tables', [[r, c, kind, 0] for m in big for r, c in [(m, m), (1, m), (m, 1), (m, 3), (3, m)] for kind in ('token', 'int', 'poly')], run_tables, 'framed matrices with many rows and columns'))
    F.append(Family('long rows', [[m] for m in [4, 5, 6] + AROUND], run_long_rows, 'rows of many items'))
    F.append(Family('long polynomials', [[m] for m in [1, 2, 3] + AROUND[:-3]], run_long_polys, 'polynomials with many terms, far exponents and long coefficients'))
    F.append(Family('large diagrams', [[a, b] for m in [7, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33] for a, b in [(m, m), (m, m % 2), (m % 2, m), (m, m - 2), (m - 2, m), (m, 2 + m % 2)]], run_large_diagrams, 'straight lines, cups and caps side by side and nested, on many points'))
    F.append(Family('long morphisms', [[a, b] for a, b in [(4, 4), (3, 5), (5, 3), (6, 2), (2, 6), (8, 0), (0, 8), (5, 5), (4, 6)]], run_long_morphisms, 'combinations of all the diagrams at once'))
    F.append(Family('others', [[0]], run_others, 'html_repr, names of representations, polynomials'))
    return F
