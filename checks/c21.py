"""C21: a search killed at any point leaves a database of whole steps."""
import ctypes
import errno
import json
import os
import shutil
import sqlite3
import sys
import time

from checks import search_common as S
from vlib.core import Family, slices

PROPERTY = 'C21'
ASSUMPTIONS = ['a killed process loses nothing it has handed to the operating system (no power failure)',
               'the SQLite library is correct']

real_connect = sqlite3.connect


class Plan:
    """Counts crash points of one level and strikes at the chosen one(s)."""

    def __init__(self, level, index, mode, out, db):
        self.level, self.index, self.mode, self.out, self.db = level, index, mode, out, db
        self.count = 0
        self.labels = []
        self.seen = []

    def point(self, label):
        """A moment at which the process may die."""
        k = self.count
        self.count += 1
        if self.mode == 'sparse':
            if not (label.startswith('row ') and int(label[4:]) % 500):
                self.seen.append((label, watch(self.db)))
            return False
        if self.mode == 'watch':
            self.seen.append((label, watch(self.db)))
            return False
        self.labels.append(label)
        if self.index is not None and k == self.index:
            if self.mode == 'kill':
                os._exit(S.KILLED)
            if self.mode == 'interrupt':
                raise KeyboardInterrupt()
            if self.mode == 'error':
                raise sqlite3.OperationalError('disk I/O error')
            return True
        return False

    def save(self):
        with open(self.out, 'w') as fh:
            json.dump({'count': self.count, 'labels': self.labels, 'seen': self.seen}, fh)

    # ---- level 'api': around every database call, and between any two rows
    def install_api(self):
        plan = self

        def around(label, fn):
            plan.point('before ' + label)
            out = fn()
            plan.point('after ' + label)
            return out

        def rows(it):
            for k, row in enumerate(it):
                plan.point(f'row {k}')
                yield row

        class Cursor(sqlite3.Cursor):
            def execute(self, *a):
                return around(f'execute {str(a[0])[:20]}', lambda: super(Cursor, self).execute(*a))

            def executemany(self, sql, it):
                return around('executemany', lambda: super(Cursor, self).executemany(sql, rows(it)))

            def executescript(self, *a):
                return around('executescript', lambda: super(Cursor, self).executescript(*a))

        class Connection(sqlite3.Connection):
            def cursor(self, factory=Cursor):
                return super().cursor(factory)

            def execute(self, *a):
                return around(f'execute {str(a[0])[:20]}', lambda: super(Connection, self).execute(*a))

            def executemany(self, sql, it):
                return around('executemany', lambda: super(Connection, self).executemany(sql, rows(it)))

            def executescript(self, *a):
                return around('executescript', lambda: super(Connection, self).executescript(*a))

            def commit(self):
                return around('commit', super().commit)

            def rollback(self):
                return around('rollback', super().rollback)

            def close(self):
                return around('close', super().close)

            def __exit__(self, *a):
                return around('exit', lambda: super(Connection, self).__exit__(*a))

        def connect(*a, **k):
            k['factory'] = Connection
            return around('connect', lambda: real_connect(*a, **k))
        sqlite3.connect = connect

    # ---- level 'line': before every line of the script
    def install_line(self):
        def local(frame, event, arg):
            if event == 'line':
                self.point(f'line {frame.f_lineno}')
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename == S.SCRIPT else None
        sys.settrace(trace)

    # ---- level 'sys': at every system call SQLite makes that changes a file
    def install_sys(self):
        lib = ctypes.CDLL('libsqlite3.so.0', use_errno=True)

        class VFS(ctypes.Structure):
            pass
        setcall = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.POINTER(VFS), ctypes.c_char_p, ctypes.c_void_p)
        getcall = ctypes.CFUNCTYPE(ctypes.c_void_p, ctypes.POINTER(VFS), ctypes.c_char_p)
        VFS._fields_ = [('iVersion', ctypes.c_int), ('szOsFile', ctypes.c_int), ('mxPathname', ctypes.c_int), ('pNext', ctypes.c_void_p),
                        ('zName', ctypes.c_char_p), ('pAppData', ctypes.c_void_p)] + [(f'f{i}', ctypes.c_void_p) for i in range(13)] + \
                       [('xSetSystemCall', setcall), ('xGetSystemCall', getcall)]
        lib.sqlite3_vfs_find.restype = ctypes.POINTER(VFS)
        lib.sqlite3_vfs_find.argtypes = [ctypes.c_char_p]
        lib.sqlite3_initialize()
        vfs = lib.sqlite3_vfs_find(None)
        I, V, L, Z, C = ctypes.c_int, ctypes.c_void_p, ctypes.c_int64, ctypes.c_size_t, ctypes.c_char_p
        S_ = ctypes.c_ssize_t
        keep = self.keep = []

        def wrap(name, res, args, size=None):
            ptr = vfs.contents.xGetSystemCall(vfs, name.encode())
            if not ptr:
                return
            proto = ctypes.CFUNCTYPE(res, *args, use_errno=True)
            orig = proto(ptr)

            def call(*a):
                if self.mode == 'torn':
                    if self.point(name):
                        if size is not None and a[size] > 1:
                            orig(*(a[:size] + (a[size] // 2,) + a[size + 1:]))
                        os._exit(S.KILLED)
                elif self.mode == 'full':
                    if self.point(name):
                        ctypes.set_errno(errno.ENOSPC)
                        return -1
                else:
                    self.point(name)
                r = orig(*a)
                return r
            cb = proto(call)
            keep.append(cb)
            vfs.contents.xSetSystemCall(vfs, name.encode(), ctypes.cast(cb, V))
        wrap('write', S_, (I, V, Z), 2)
        wrap('pwrite', S_, (I, V, Z, L), 2)
        wrap('pwrite64', S_, (I, V, Z, L), 2)
        wrap('ftruncate', I, (I, L))
        wrap('fallocate', I, (I, L, L))
        wrap('unlink', I, (C,))


def watch(db):
    """What another process reading the database sees."""
    if not os.path.exists(db):
        return 'absent'
    try:
        c = real_connect(db, timeout=0)
        try:
            return len(c.execute('SELECT rowid FROM good_braids').fetchall())
        finally:
            c.close()
    except sqlite3.OperationalError as e:
        return 'busy' if 'locked' in str(e) or 'busy' in str(e) else 'absent' if 'no such table' in str(e) else f'error {e}'


class Run:
    def __init__(self, d, args, upto, db):
        self.d, self.args, self.upto, self.db = d, args, upto, db

    def go(self, level=None, index=None, mode='count'):
        """Run the script, striking at one point.  Returns (exit word, stdout, points)."""
        out = os.path.join(self.d, 'points.json')
        if os.path.exists(out):
            os.remove(out)
        plan = Plan(level, index, mode, out, self.db)

        def prepare():
            if level == 'api':
                plan.install_api()
            elif level == 'line':
                plan.install_line()
            elif level == 'sys':
                plan.install_sys()

        def body():
            code = S.script_body(self.args, fd, self.upto, prepare)
            sys.settrace(None)
            if mode in ('count', 'watch', 'sparse'):
                plan.save()
            return code
        txt = os.path.join(self.d, 'stdout.txt')
        fd = os.open(txt, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        null = os.open(os.devnull, os.O_WRONLY)

        def child():
            os.chdir(self.d)
            os.dup2(null, 2)
            return body()
        try:
            how, code = S.forked(child, 200)
        finally:
            os.close(fd)
            os.close(null)
        text = open(txt, encoding='utf-8').read()
        word = {S.DONE: 'done', S.STOPPED: 'stopped', S.FAILED: 'failed', S.INTERRUPTED: 'interrupted', S.KILLED: 'killed', S.REFUSED: 'refused'}.get(code, f'code {code}') if how == 'exit' else f'signal {code}'
        points = json.load(open(out)) if os.path.exists(out) else None
        return word, text, points


def steps_of(rows):
    """Cut the rows of one whole run into its save steps."""
    out = []
    for row in rows:
        if out and out[-1][-1][3] == row[3]:
            out[-1].append(row)
        else:
            out.append([row])
    return out


def whole(ctx, what, before, after, steps, acked):
    """`after` must be `before` followed by a prefix of whole steps, at least the acknowledged ones."""
    after = after or []
    if after[:len(before)] != before:
        ctx.fail(f'{what}: rows that were there before are gone or changed ({len(before)} before, {len(after)} after)')
    new = after[len(before):]
    k, j = 0, 0
    while k < len(new) and j < len(steps) and new[k:k + len(steps[j])] == steps[j]:
        k += len(steps[j])
        j += 1
    if k != len(new):
        ctx.fail(f'{what}: {len(new)} new rows are not a number of whole steps {[len(s) for s in steps]}: {j} whole steps, then {len(new) - k} rows: {new[k:k + 2]}')
    if j < acked:
        ctx.fail(f'{what}: {acked} steps with rows were reported saved, the database has {j}')
    return j


def acknowledged(text, lengths):
    """How many steps that have rows the script reported as saved."""
    k = 0
    for L, _, body in S.steps_of(text):
        if 'Saved in' in body and L in lengths:
            k += 1
    return k


SETUPS = {
    # arguments, stopping length
    'plain': (dict(n=3, r=1, p=2, b=1, cap=6, use=50, save=100, step=1, seed=1), 4),
    'limits': (dict(n=4, r=2, p=3, b=1, cap=3, use=12, save=7, step=1, seed=2), 4),
    'single': (dict(n=3, r=1, p=3, b=2, cap=2, use=10 ** 6, save=10 ** 6, step=2, seed=1), 5),
    'stops': (dict(n=4, r=2, p=2, b=2, cap=4, use=40, save=20, step=1, seed=1, stop=True), 6),
    'wide': (dict(n=3, r=1, p=2, b=10, cap=3000, use=10 ** 6, save=10 ** 6, step=1, seed=1), 11),
    'wide2': (dict(n=4, r=2, p=3, b=2, cap=3000, use=400, save=10 ** 6, step=1, seed=1), 4),
    'huge': (dict(n=4, r=1, p=2, b=3, cap=10 ** 5, use=2000, save=10 ** 6, step=1, seed=1), 6),
    'empty': (dict(n=3, r=1, p=2, b=1, cap=5, use=12, save=4, step=1, seed=1), 5),
}


def prefill(db, how):
    """A database that is there before the run."""
    if how == 'absent':
        return
    if how in ('rows', 'wal'):
        c = real_connect(db)
        if how == 'wal':
            c.execute('PRAGMA journal_mode = WAL')
        c.execute('CREATE TABLE good_braids (n INT, r INT, p INT, length INT, projlen INT, gnf TEXT)')
        c.execute('CREATE TABLE notes (text TEXT)')
        c.execute("INSERT INTO notes VALUES ('keep me')")
        c.executemany('INSERT INTO good_braids VALUES (?, ?, ?, ?, ?, ?)', [(4, 1, 2, 1, 3, '(4, 0, (1,))'), (4, 1, 2, 2, 5, '(4, 0, (3, 2))'), (3, 1, 2, 1, 2, '(3, 0, (2,))')])
        c.commit()
        c.close()
    if how == 'crashed':
        # left behind by a process killed in the middle of a transaction
        def body():
            c = real_connect(db, isolation_level=None)
            c.execute('PRAGMA journal_mode = WAL')
            c.execute('CREATE TABLE good_braids (n INT, r INT, p INT, length INT, projlen INT, gnf TEXT)')
            c.execute("INSERT INTO good_braids VALUES (4, 1, 2, 1, 3, '(4, 0, (1,))')")
            c.execute('BEGIN')
            c.execute("INSERT INTO good_braids VALUES (4, 1, 2, 1, 3, '(4, 0, (2,))')")
            os._exit(0)
        S.forked(body)


def other_table(db, how):
    if how in ('rows', 'wal'):
        c = real_connect(db)
        try:
            return c.execute('SELECT text FROM notes').fetchall() == [('keep me',)]
        finally:
            c.close()
    return True


def clear(db):
    for tail in ('', '-wal', '-shm', '-journal'):
        if os.path.exists(db + tail):
            os.remove(db + tail)


def prepare_run(ctx, d, setup, how):
    opts, upto = SETUPS[setup]
    db = os.path.join(d, 'braids.db')
    run = Run(d, S.argv(db='braids.db', **opts), upto, db)
    clear(db)
    prefill(db, how)
    before = S.read_db(db) or []
    word, text, _ = run.go()
    ctx.check(word in ('stopped', 'done'), lambda: f'{setup}: the undisturbed run ended as "{word}": {text[-500:]}')
    rows = S.read_db(db)
    ctx.check(rows[:len(before)] == before, f'{setup}: rows that were there before are gone')
    steps = steps_of(rows[len(before):])
    ctx.check(len(steps) >= 1 and all(len(s) == len(set(s)) for s in steps), lambda: f'{setup}: undisturbed run saved {[len(s) for s in steps]}')
    return run, db, before, steps


def count_points(level, setup, how):
    opts, upto = SETUPS[setup]
    with S.scratch() as d:
        db = os.path.join(d, 'braids.db')
        run = Run(d, S.argv(db='braids.db', **opts), upto, db)
        prefill(db, how)
        return run.go(level, None, 'count')[2]['count']


WIDE = ('wide', 'wide2')     # steps of more than a thousand rows
HUGE = ('huge',)             # steps of thousands of rows in several buckets: only a reader at few moments


def notable(labels):
    """Crash points of a run with very many: all calls, the rows around round numbers, and every few system calls."""
    near = {0, 1, 2} | {b + d for b in (64, 100, 128, 256, 500, 512, 1000, 1024, 1500, 2000) for d in (-1, 0, 1)}
    out = []
    for k, l in enumerate(labels):
        if l.startswith('row '):
            if int(l[4:]) not in near and k + 1 < len(labels) and labels[k + 1].startswith('row '):
                continue
        elif l.split()[0] in ('write', 'pwrite', 'pwrite64') and labels[max(0, k - 3):k + 4] == [l] * 7 and k % 16:
            continue
        out.append(k)
    return out


def run_crashes(ctx, chunk):
    """Strike at each point of [lo, hi); then run again on the same file."""
    level, setup, how, mode, lo, hi = chunk
    with S.scratch() as d:
        run, db, before, steps = prepare_run(ctx, d, setup, how)
        lengths = {s[0][3] for s in steps}
        clear(db)
        prefill(db, how)
        total = run.go(level, None, 'count')[2]
        n = total['count']
        if setup in WIDE:
            points = notable(total['labels'])[lo:hi]
        else:
            points = range(lo, n if hi is None else min(hi, n))
        for k in points:
            clear(db)
            prefill(db, how)
            word, text, _ = run.go(level, k, mode)
            what = f'{setup} run on a database ({how}), {mode} at {level} point {k} of {n} ({total["labels"][k]})'
            expect = {'kill': ('killed',), 'torn': ('killed',), 'interrupt': ('interrupted',), 'error': ('failed',), 'full': ('failed', 'stopped', 'done')}[mode]
            # code may sit out an error or an interrupt at its very end, but not a kill
            if word not in expect and (mode in ('kill', 'torn') or word not in ('stopped', 'done', 'interrupted')):
                ctx.fail(f'{what}: the script ended as "{word}": {text[-400:]}')
            after = S.read_db(db)
            j = whole(ctx, what, before, after, steps, acknowledged(text, lengths))
            ctx.check(other_table(db, how), f'{what}: another table was damaged')
            ctx.outcome((level, mode, j))
            ctx.fresh_states(1)
            ctx.step()
            ctx.trace()
            if level == 'line':
                continue
            word, text, _ = run.go()
            ctx.check(word in ('stopped', 'done'), lambda: f'{what}: running again ended as "{word}": {text[-400:]}')
            again = S.read_db(db)
            if again != (after or []) + [r for s in steps for r in s]:
                ctx.fail(f'{what}: running again on that file: {len(again)} rows, should be {len(after or [])} + {sum(map(len, steps))}')
            ctx.step()
    ctx.sample({'setup': setup, 'database': how, 'level': level, 'mode': mode, 'points': [lo, hi], 'of': n, 'rows per step': [len(s) for s in steps]})


def run_pairs(ctx, chunk):
    """Two strikes: a first run dies at point i, a second at point j, a third completes."""
    setup, how, mode1, mode2, lo, hi, stride = chunk
    with S.scratch() as d:
        run, db, before, steps = prepare_run(ctx, d, setup, how)
        clear(db)
        prefill(db, how)
        total = run.go('api', None, 'count')[2]
        # rows of one executemany behave alike: keep the first and the last of each
        labels = total['labels']
        pts = [k for k, l in enumerate(labels) if not l.startswith('row ') or l == 'row 0' or not labels[k + 1].startswith('row ')]
        for i in pts[lo:hi]:
            clear(db)
            prefill(db, how)
            run.go('api', i, mode1)
            for tail in ('', '-wal', '-shm', '-journal'):
                if os.path.exists(db + tail):
                    shutil.copy(db + tail, os.path.join(d, 'keep' + tail))
                elif os.path.exists(os.path.join(d, 'keep' + tail)):
                    os.remove(os.path.join(d, 'keep' + tail))
            first = S.read_db(db) or []
            for j in pts:
                clear(db)
                for tail in ('', '-wal', '-shm', '-journal'):
                    if os.path.exists(os.path.join(d, 'keep' + tail)):
                        shutil.copy(os.path.join(d, 'keep' + tail), db + tail)
                what = f'{setup} run on a database ({how}), {mode1} at point {i} ({labels[i]}), again {mode2} at point {j} ({labels[j]})'
                run.go('api', j, mode2)
                second = S.read_db(db)
                whole(ctx, what, first, second, steps, 0)
                ctx.fresh_states(1)
                ctx.step()
                ctx.trace()


def run_watch(ctx, chunk):
    """Another process reading the database at every moment sees whole steps only."""
    level, setup, how = chunk
    with S.scratch() as d:
        run, db, before, steps = prepare_run(ctx, d, setup, how)
        clear(db)
        prefill(db, how)
        word, text, points = run.go(level, None, 'sparse' if setup in HUGE else 'watch')
        ctx.check(word in ('stopped', 'done'), f'{setup}: run under observation ended as {word}')
        sums = [len(before)]
        for s in steps:
            sums.append(sums[-1] + len(s))
        last = 0
        for label, n in points['seen']:
            if isinstance(n, str):
                ctx.check(n in ('absent', 'busy') and not (before and n == 'absent'), f'{setup}: a reader at {label} got {n}')
                continue
            if n not in sums or n < last:
                ctx.fail(f'{setup} run on a database ({how}): a reader at {label} sees {n} rows; after whole steps there are {sums} (saw {last} before)')
            last = n
            ctx.step()
        ctx.fresh_states(len(points['seen']))
        ctx.trace()


def run_nodb(ctx, chunk):
    """Without --database nothing is written."""
    with S.scratch() as d:
        word, text = S.run_search(S.argv(3, 1, 2, b=1, cap=5, use=50, save=20), 4, where=d)
        ctx.check(word == 'stopped' and os.listdir(d) == ['stdout.txt'], f'a search without database left {os.listdir(d)}')
    ctx.trace()
    ctx.fresh_states(1)


def families(tier):
    q = tier == 'quick'
    plan = [('plain', 'absent'), ('plain', 'rows'), ('limits', 'wal'), ('empty', 'crashed')] + ([] if q else [('single', 'absent'), ('stops', 'rows'), ('single', 'crashed'), ('limits', 'absent'), ('stops', 'crashed')])
    F = []
    wide = []
    for level, modes, setups in (('api', ('kill',), WIDE[:1]), ('api', ('interrupt',), WIDE[1:]), ('sys', ('torn',), WIDE[:1])) if q else (('api', ('kill', 'interrupt', 'error'), WIDE), ('sys', ('torn', 'full'), WIDE)):
        for setup in setups:
            with S.scratch() as d:
                db = os.path.join(d, 'braids.db')
                n = len(notable(Run(d, S.argv(db='braids.db', **SETUPS[setup][0]), SETUPS[setup][1], db).go(level, None, 'count')[2]['labels']))
            wide += [[level, setup, 'absent', mode, lo, lo + 8 if lo + 8 < n else None] for mode in modes for lo in range(0, n, 8)]
    F.append(Family('wide', wide, run_crashes, 'steps of more than a thousand rows: notable points'))
    for level, modes, size in [('api', ('kill', 'interrupt', 'error'), 12), ('line', ('kill', 'interrupt'), 20), ('sys', ('torn', 'full', 'kill'), 10)]:
        ch = []
        for setup, how in plan:
            n = count_points(level, setup, how)
            for mode in modes:
                # the last chunk is open ended, should there be more points next time
                for lo in range(0, n, size):
                    ch.append([level, setup, how, mode, lo, lo + size if lo + size < n else None])
        F.append(Family({'api': 'calls', 'line': 'lines', 'sys': 'syscalls'}[level], ch, run_crashes,
                        {'api': 'before and after every database call and between any two rows', 'line': 'before every line of the script',
                         'sys': 'before and within every write, truncation and deletion SQLite makes'}[level]))
    ch = [[setup, how, a, b, lo, lo + 2, 0] for setup, how in ([('plain', 'absent')] if q else [('plain', 'absent'), ('limits', 'rows'), ('stops', 'crashed')])
          for a, b in (('kill', 'kill'), ('interrupt', 'kill'), ('kill', 'interrupt')) for lo in range(0, 46, 2)]
    F.append(Family('pairs', ch, run_pairs, 'every pair of crash points of two consecutive runs'))
    F.append(Family('readers', [[level, s, h] for level in ('api', 'line') for s in SETUPS if s not in WIDE + HUGE for h in ('absent', 'rows', 'wal', 'crashed')] + [['line', s, h] for s in WIDE for h in ('absent', 'wal')] + [['api', s, h] for s in HUGE for h in ('absent', 'wal')], run_watch, 'a reader at every moment'))
    F.append(Family('nodb', [[0]], run_nodb, 'no database asked for, none written'))
    return F
