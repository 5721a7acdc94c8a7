"""Reference model of the clustering decision (property C26).

Written from the property statement as functions of values and counts; it
shares no code with the code under test and builds no trees, bags or views.
A value is a tuple of (text, rule) runs; the parts a value is cut into are
values of one run.
"""
from . import ref

RUNS, MIXED, DOT, WHOLE = range(4)


def text_of(value):
    return ''.join(t for t, _ in value)


def balanced(total, most, m):
    """No value dominates: both sides large, or close to each other."""
    if total < m:
        return False
    rest = total - most
    return min(most, rest) >= m or abs(most - rest) < m - 1


def join(rs):
    return (''.join(t for t, _ in rs),
            ''.join(sorted(set(r for _, r in rs))))


def cut_mixed(value):
    out = []
    mix = False
    for t, r in value:
        m = r in ref.MIXABLE
        if m and mix:
            out[-1].append((t, r))
        else:
            out.append([(t, r)])
        mix = m
    return tuple(join(g) for g in out)


def cut_dot(value):
    """name, dots, suffix; None when there is no such cut."""
    n = len(value)
    k = next((n - 1 - i for i in range(min(3, n))
              if value[n - 1 - i][1] == '\\.'), None)
    if k is None or any(r not in ref.ALNUM for _, r in value[k + 1:]):
        return None
    out = [join(value[:k]), value[k]]
    if value[k + 1:]:
        out.append(join(value[k + 1:]))
    return tuple(out)


def cut(value, kind):
    return {RUNS: tuple, MIXED: cut_mixed, DOT: cut_dot}[kind](value)


def kinds(parts):
    return tuple(r for _, r in parts)


def first_cut(value, m, last_path):
    n = len(value)
    if n == 1:
        return WHOLE
    dot = cut_dot(value) if last_path else None
    if n == 3 and dot is not None and kinds(dot) == kinds(value):
        return DOT
    if n > 3:
        mixed = cut_mixed(value)
        if len(mixed) == 1:
            return WHOLE
        if n - len(mixed) >= m:
            if len(mixed) == 3 and dot is not None \
                    and kinds(dot) == kinds(mixed):
                return DOT
            return MIXED
    return RUNS


def next_cut(value, kind, last_path):
    dot = cut_dot(value) if last_path else None
    if kind == DOT:
        return WHOLE
    mixed = cut_mixed(value)
    if kind == RUNS and kinds(mixed) != kinds(value):
        if len(mixed) == 1:
            return WHOLE
        if len(mixed) == 3 and dot is not None and kinds(dot) == kinds(mixed):
            return DOT
        return MIXED
    return WHOLE if dot is None else DOT


def whole(values, counts, m, out):
    """Values that are not cut: literal, [class]{n} or [class]+."""
    lengths = {}
    for v in values:
        lengths.setdefault(len(text_of(v)), []).append(v)
    size = {n: sum(counts[v] for v in vs) for n, vs in lengths.items()}
    if len(lengths) >= m or balanced(sum(size.values()),
                                     max(size.values()), m):
        for v in values:
            out[v] = '[%s]+' % join(v)[1]
        return
    for n, vs in lengths.items():
        if len(vs) >= m or balanced(size[n], max(counts[v] for v in vs), m):
            for v in vs:
                out[v] = ref.quant(join(v)[1], n)


def component(counts, m, last_path, keep=False):
    """{value: URLs with it} -> {value: pattern}."""
    out = {v: ref.lit(text_of(v)) for v in counts}
    if keep or (len(counts) < m and not balanced(
            sum(counts.values()), max(counts.values()), m)):
        return out
    todo = {RUNS: [], MIXED: [], DOT: [], WHOLE: []}
    for v in counts:
        todo[first_cut(v, m, last_path)].append(v)
    for kind in (RUNS, MIXED, DOT):
        groups = {}
        for v in todo[kind]:
            parts = cut(v, kind)
            groups.setdefault(kinds(parts), {})[
                tuple((p,) for p in parts)] = v
        for group in groups.values():
            # the parts are decided like the levels of a path
            for pattern, members in paths(
                    {p: counts[v] for p, v in group.items()}, m, None,
                    kind == DOT):
                vs = [group[p] for p in members]
                if sum(counts[v] for v in vs) >= m:
                    for v in vs:
                        out[v] = ''.join(pattern)
                else:
                    for v in vs:
                        todo[next_cut(v, kind, last_path)].append(v)
    if todo[WHOLE]:
        whole(todo[WHOLE], counts, m, out)
    return out


def paths(counts, m, last_path, keep_last=False):
    """{path: count} -> [(pattern, [path])]; a path is a tuple of values."""
    done = []
    pending = [counts]
    while pending:
        counts = pending.pop()
        depth = len(next(iter(counts)))
        groups = {(): counts}
        for i in range(depth):
            new = {}
            for prefix, g in groups.items():
                at = {}
                for p, c in g.items():
                    at[p[i]] = at.get(p[i], 0) + c
                pats = component(at, m, i == last_path,
                                 keep_last and i == depth - 1)
                for p, c in g.items():
                    new.setdefault(prefix + (pats[p[i]],), {})[p] = c
            groups = new
        if len(groups) == 1:
            done.append((next(iter(groups)), list(counts)))
        else:
            pending.extend(groups.values())
    return done


def clusters(parsed, m):
    """ref.Parsed objects -> sorted [(pattern text, number, identities)]."""
    by_digest = {}
    for p in parsed:
        path = tuple(tuple(ref.runs(c)) for c in p.components)
        by_digest.setdefault(p.digest_key, {})[path] = p
    out = []
    for group in by_digest.values():
        some = next(iter(group.values()))
        for pattern, members in paths({p: 1 for p in group}, m,
                                      len(some.path) - 1):
            out.append((ref.pattern_text(some, pattern), len(members),
                        sorted(repr(group[p].identity) for p in members)))
    return sorted(out)
