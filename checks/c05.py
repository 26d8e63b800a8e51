"""C05: SQLite adapters."""
import itertools
import sqlite3

import peyl.braid
from peyl import DGNF, GNF
from vlib import ref_braid as R
from vlib.core import Family, slices
from vlib.impl import CLS, lift_seq, read

PROPERTY = 'C05'
ASSUMPTIONS = ['columns are declared BRAID and opened with PARSE_DECLTYPES or PARSE_COLNAMES']


def db():
    peyl.braid.register_sqlite3_adapters()
    c = sqlite3.connect(':memory:', detect_types=sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES)
    c.execute('create table t (id integer primary key, b BRAID, note text)')
    return c


def same(ctx, got, want, what):
    if type(got) is not type(want) or not (got == want) or hash(got) != hash(want) or read(got) != read(want) or got.n != want.n:
        ctx.fail(f'{what}: stored {want!r}, read back {got!r}')
    ctx.step()


def gather(kind, n, length, powers):
    for f in R.normal_forms(kind, n, length):
        base = lift_seq(kind, n, f)
        for p in powers:
            yield CLS[kind](n, p, base.factors)


def run_rows(ctx, chunk):
    kind, n, length, powers, lo, hi = chunk
    c = db()
    braids = list(itertools.islice(gather(kind, n, length, powers), lo, hi))
    mix = []
    for b in braids:
        mix.append(b)
        mix.append((b.to_DGNF() if kind == 'GNF' else b.to_GNF()))
    for i, b in enumerate(mix):
        c.execute('insert into t values (?, ?, ?)', (i, b, 'x'))
    rows = c.execute('select id, b from t order by id').fetchall()
    ctx.check(len(rows) == len(mix), 'row count')
    for (i, b), w in zip(rows, mix):
        same(ctx, b, w, f'row {i}')
    # many at once, read in the opposite order, through an expression with a declared column name
    c.execute('delete from t')
    c.executemany('insert into t values (?, ?, ?)', [(i, b, None) for i, b in enumerate(mix)])
    for (i, b) in c.execute('select id, b as "b [BRAID]" from t order by id desc'):
        same(ctx, b, mix[i], f'row {i}')
    # copying inside the database and writing what was read
    c.execute('create table u (b BRAID)')
    c.execute('insert into u select b from t order by id')
    first = [r[0] for r in c.execute('select b from u order by rowid')]
    c.execute('delete from u')
    c.executemany('insert into u values (?)', [(b,) for b in first])
    for (b,), w in zip(c.execute('select b from u order by rowid'), mix):
        same(ctx, b, w, 'second generation')
    c.close()
    ctx.fresh_states(len(mix))
    ctx.trace()
    ctx.sample({'stored': [repr(b) for b in mix[:2]]})


def run_long(ctx, chunk):
    """Long braids and great powers of either sign."""
    kind, n, L, powers = chunk
    c = db()
    done = []
    for f in R.normal_forms(kind, n, 2):
        if not R.is_normal_form(kind, n, f + f[:1]) or f[1] < f[0]:
            continue
        base = lift_seq(kind, n, (f * L)[:L])
        for p in powers:
            done.append(CLS[kind](n, p, base.factors))
        if len(done) > 400:
            break
    for b in done:
        c.execute('insert into t values (?, ?, ?)', (None, b, 'x'))
    for (b,), w in zip(c.execute('select b from t order by id').fetchall(), done):
        same(ctx, b, w, f'{kind} braid of length {L}')
    # as a parameter, and compared inside the database
    for w in done[::max(1, len(done) // 20)]:
        rows = c.execute('select b from t where b = ?', (w,)).fetchall()
        ctx.check(len(rows) == done.count(w), lambda: f'{len(rows)} rows equal {w!r}')
        for (b,) in rows:
            same(ctx, b, w, 'row looked up by its braid')
    c.close()
    ctx.fresh_states(len(done))
    ctx.trace()


def run_diverse(ctx, chunk):
    """Normal forms in which many different factors occur."""
    kind, n, L = chunk
    seen, f = {}, ()
    for _ in range(L):
        nxt = list(R.normal_forms(kind, n, 1, after=f[-1] if f else None))
        best = min(nxt, key=lambda w: (seen.get(w[0], 0), w))
        f += best
        seen[best[0]] = seen.get(best[0], 0) + 1
    c = db()
    base = lift_seq(kind, n, f)
    done = [CLS[kind](n, p, base.factors) for p in (0, 1, -1, 2, -2, 1000, -1000)]
    for b in done:
        c.execute('insert into t values (?, ?, ?)', (None, b, 'x'))
    for (b,), w in zip(c.execute('select b from t order by id').fetchall(), done):
        same(ctx, b, w, f'{kind} braid of length {L} with {len(seen)} different factors')
    c.close()
    ctx.outcome((kind, n, len(seen)))
    ctx.fresh_states(len(done))
    ctx.trace()


def run_histories(ctx, chunk):
    """All sequences of writes, overwrites and reads of a few braids, against a dictionary."""
    first, = chunk
    pool = [GNF.identity(2), GNF.from_artin_word(3, [(0, 1)]), DGNF.from_artin_word(3, [(0, -3), (1, 2)]), GNF.from_artin_word(4, [(0, -1), (2, 5), (1, 1)]),
            DGNF.identity(5), GNF.identity(6).__class__(6, -7, ())]
    ops = [('w', r, i) for r in (0, 1) for i in range(len(pool))] + [('d', 0, 0), ('r', 0, 0)]
    c = db()
    for seq in itertools.product(range(len(ops)), repeat=3):
        c.execute('delete from t')
        model = {}
        for o in (first,) + seq:
            op, r, i = ops[o]
            if op == 'w':
                c.execute('insert or replace into t values (?, ?, ?)', (r, pool[i], 'n'))
                model[r] = pool[i]
            elif op == 'd':
                c.execute('delete from t where id = ?', (r,))
                model.pop(r, None)
            else:
                peyl.braid.register_sqlite3_adapters()
            rows = dict(c.execute('select id, b from t').fetchall())
            ctx.check(set(rows) == set(model), 'rows present')
            for k in model:
                same(ctx, rows[k], model[k], f'history {[ops[x] for x in (first,) + seq]} row {k}')
        ctx.fresh_states(1)
        ctx.trace()
    c.close()


def run_files(ctx, chunk):
    """Through a file and a new connection."""
    import os
    import tempfile
    n, = chunk
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'x.db')
        peyl.braid.register_sqlite3_adapters()
        bs = [CLS[k].from_artin_word(n, w) for k in CLS for w in
              ([], [(0, 1)], [(0, -1)], [(0, 3), (n - 2, -2), (0, 1)], [(i, (-1) ** i * 2) for i in range(n - 1)] * 3)]
        c = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
        c.execute('create table t (b BRAID)')
        c.executemany('insert into t values (?)', [(b,) for b in bs])
        c.commit()
        c.close()
        c = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
        for (b,), w in zip(c.execute('select b from t order by rowid'), bs):
            same(ctx, b, w, 'file')
        c.close()
    ctx.fresh_states(len(bs))
    ctx.trace()


def run_refuse(ctx, chunk):
    """Every short prefix over an alphabet of confusable letters: only the two names may decode."""
    first, = chunk
    body = '(4, 1, ())'
    alpha = 'GNFDg '
    c = sqlite3.connect(':memory:', detect_types=sqlite3.PARSE_DECLTYPES)
    peyl.braid.register_sqlite3_adapters()
    c.execute('create table t (b BRAID)')
    for L in range(0, 5):
        for tail in itertools.product(alpha, repeat=L):
            name = (first + ''.join(tail))
            if name.strip().startswith(('GNF', 'DGNF')):
                continue
            for text in (name + body, name):
                ctx.raises(lambda: peyl.braid.convert_braid(text.encode()), f'text {text!r}')
                if not text:
                    continue            # sqlite3 itself turns empty text into None
                c.execute('delete from t')
                c.execute('insert into t values (?)', (text,))
                ctx.raises(lambda: c.execute('select b from t').fetchall(), f'stored text {text!r}')
                ctx.step()
            ctx.fresh_states(2)
    c.close()
    ctx.trace()


def run_good_text(ctx, chunk):
    """The right names with each kind decode to that kind."""
    for n in range(2, 6):
        for p in (-2, 0, 3):
            for cls in (GNF, DGNF):
                b = cls(n, p, ())
                text = peyl.braid.adapt_braid(b)
                got = peyl.braid.convert_braid(text.encode() if isinstance(text, str) else bytes(text))
                same(ctx, got, b, 'adapter functions')
    ctx.fresh_states(24)
    ctx.trace()


def families(tier):
    q = tier == 'quick'
    P = [0, 1, -1, 2, -2, 13, -10 ** 6]
    ch = []
    for kind, n, L in [('GNF', 2, 0), ('GNF', 3, 6 if q else 9), ('GNF', 4, 2 if q else 3), ('GNF', 5, 1), ('GNF', 6, 1),
                       ('DGNF', 2, 0), ('DGNF', 3, 6 if q else 9), ('DGNF', 4, 3 if q else 4), ('DGNF', 5, 2), ('DGNF', 6, 1)]:
        for l in range(L + 1):
            ch += [[kind, n, l, P if l <= 2 else P[:3], lo, hi] for lo, hi in slices(R.count_normal_forms(kind, n, l) * len(P if l <= 2 else P[:3]), 400)]
    return [
        Family('rows', ch, run_rows, 'every short normal form with every listed power, both kinds interleaved, written and read back'),
        Family('long', [[k, n, L, [0, 1, -1, 9, 10, -9, -10, 99, 100, -100, 127, 128, -128, -129, 32767, 32768, -32769, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 63, -2 ** 63 - 1, 10 ** 30]]
                        for k in CLS for n in range(2, 7) for L in ([0, 1, 2, 7, 9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001] if n > 2 else [0])
                        if n < 5 or L < 130] + [[k, n, L, [0, -1, 10 ** 6]] for k in CLS for n in (3, 4) for L in (1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4097)], run_long, 'long normal forms with great powers'),
        Family('diverse', [[k, n, L] for k, n, L in [('GNF', 4, 40), ('GNF', 5, 150), ('GNF', 6, 300), ('GNF', 6, 800), ('DGNF', 4, 30), ('DGNF', 5, 60), ('DGNF', 6, 200), ('DGNF', 7, 400)]], run_diverse, 'normal forms in which many different factors occur'),
        Family('histories', [[i] for i in range(14)], run_histories, 'all length-4 histories of writes, overwrites, deletions, re-registrations'),
        Family('files', [[n] for n in range(2, 7)], run_files, 'through a database file'),
        Family('refusals', [[x] for x in ['', 'G', 'N', 'F', 'D', 'g', ' ']], run_refuse, 'all short wrong names'),
        Family('text', [[0]], run_good_text, 'adapter and converter functions directly'),
    ]


def prepare(tier):
    for n in range(2, 7):
        DGNF.from_artin_word(n, [(0, 1)] * 3).to_GNF()
        GNF.from_artin_word(n, [(0, 1)] * 3).to_DGNF()
