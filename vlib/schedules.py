"""All interleavings of several lazy listings, up to a number of switches between them."""


import itertools


def schedules(sizes, switches, first=None):
    """
    Every way of drawing from len(sizes) listings, as lists of (listing, number of draws): listing i
    yields sizes[i] items and is then asked once more (so it has sizes[i] + 1 draws). At most
    `switches` changes from one listing to another; a schedule may leave listings unfinished.
    """
    def go(left, last, budget):
        yield []
        if budget < 0:
            return
        for i in range(len(left)):
            if i != last:
                for k in range(1, left[i] + 1):
                    for rest in go([x - k * (j == i) for j, x in enumerate(left)], i, budget - 1):
                        yield [(i, k)] + rest
    for s in go([x + 1 for x in sizes], None, switches):
        if s and (first is None or s[0][0] == first):
            yield s


def play(ctx, makers, wants, schedule, eager, read, what):
    """Draw from fresh listings along a schedule: each yields distinct members of its reference set, and all of them when finished."""
    its = [iter(m()) for m in makers] if eager else [None] * len(makers)
    seen = [[] for _ in makers]
    for i, k in schedule:
        if its[i] is None:
            its[i] = iter(makers[i]())
        for _ in range(k):
            try:
                x = read(next(its[i]))
            except StopIteration:
                ctx.check(len(seen[i]) == len(wants[i]), lambda: f'{what()}: listing {i} of schedule {schedule} ends after {len(seen[i])} of {len(wants[i])} items')
                break
            if x not in wants[i] or x in seen[i]:
                ctx.fail(f'{what()}: listing {i} of schedule {schedule} yields {x} after {seen[i]}, ' + ('again' if x in seen[i] else 'which does not belong there'))
            seen[i].append(x)
            ctx.step()


def explore(ctx, makers, wants, switches, read, what, first=None):
    """Every schedule, the listings made at once or when they are first drawn from; then each of them alone once more."""
    total = 0
    for s in schedules([len(w) for w in wants], switches, first):
        for eager in (True, False):
            play(ctx, makers, wants, s, eager, read, what)
        total += 2
    for m, w in zip(makers, wants):
        got = [read(x) for x in m()]
        ctx.check(len(got) == len(w) and set(got) == set(w), lambda: f'{what()}: after the schedules a listing gives {got}')
    ctx.trace(total)
    ctx.fresh_states(total)


def affordable(sizes, limit, most=6):
    """The greatest number of switches with at most `limit` schedules (at least one)."""
    for switches in range(1, most + 1):
        if sum(1 for _ in itertools.islice(schedules(sizes, switches), limit + 1)) > limit:
            return max(1, switches - 1)
    return most
