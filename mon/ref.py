"""Reference models, written from the README and the property statements.

Nothing in this file imports or copies the code under test: it is what the
monitors compare the observed behaviour with.
"""
import re

LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER = LOWER.upper()
DIGIT = '0123456789'
PLAIN_SIGNS = '%&_@#;:,=<>~/'
ESCAPED_SIGNS = '.+\\"\'()[]{}*$^?|!-'
LEGAL = frozenset(LOWER + UPPER + DIGIT + PLAIN_SIGNS + ESCAPED_SIGNS)
ALNUM = ('a-z', 'A-Z', '0-9')
MIXABLE = ('a-z', 'A-Z', '0-9', '%')

RULE_OF = {}
for _c in LOWER:
    RULE_OF[_c] = 'a-z'
for _c in UPPER:
    RULE_OF[_c] = 'A-Z'
for _c in DIGIT:
    RULE_OF[_c] = '0-9'
for _c in PLAIN_SIGNS:
    RULE_OF[_c] = _c
for _c in ESCAPED_SIGNS:
    RULE_OF[_c] = '\\' + _c
RULES = frozenset(RULE_OF.values())


class Reject(Exception):
    """The reference says this string is not an acceptable URL."""


def legal(s):
    return all(c in LEGAL for c in s)


def runs(piece):
    """Maximal runs of one character space: [(text, rule)]."""
    out = []
    for c in piece:
        r = RULE_OF[c]
        if out and out[-1][1] == r:
            out[-1][0].append(c)
        else:
            out.append([[c], r])
    return [(''.join(t), r) for t, r in out]


def quant(rules, n):
    """[rules]{n} in its canonical spelling."""
    return '[%s]' % rules if n == 1 else '[%s]{%d}' % (rules, n)


def lit(piece):
    """Literal pattern text of a piece."""
    return ''.join(t if r in ALNUM else quant(r, len(t))
                   for t, r in runs(piece))


def lit_key(key):
    """Pattern text of a query key; its terminating '=' stays as it is."""
    if key.endswith('='):
        return lit(key[:-1]) + '='
    return lit(key)


def space(piece):
    """The set of character spaces of a piece, joined in order."""
    return ''.join(sorted(set(RULE_OF[c] for c in piece)))


class Parsed(object):
    """Structure of a URL: path levels, query keys and values, fragment."""

    def __init__(self, path, keys, values, fragment):
        self.path = path
        self.keys = keys          # None when there is no query
        self.values = values
        self.fragment = fragment  # None when there is no fragment

    @property
    def components(self):
        return tuple(self.path) + tuple(self.values or ()) + (
            () if self.fragment is None else (self.fragment,))

    @property
    def shape(self):
        """What 'URL structure' means in the README."""
        return (len(self.path),
                tuple(lit_key(k) for k in self.keys or ()),
                self.fragment is not None)

    @property
    def digest_key(self):
        return self.shape + (tuple(space(c) for c in self.components),)

    @property
    def identity(self):
        """Two URLs with the same identity are one path of the tree."""
        return self.shape + (self.components,)

    @property
    def text(self):
        """The part of the URL a pattern is a regular expression for."""
        s = '/' + '/'.join(self.path)
        if self.keys:
            s += '?' + '&'.join(k + v for k, v in zip(self.keys, self.values))
        if self.fragment is not None:
            s += '#' + self.fragment
        return s


def parse_query(query):
    if query is None:
        return (), ()
    if query == '':
        return ('',), ('',)
    parts = query.split('&')
    if '' in parts:
        raise Reject('empty query part')
    keys, values = [], []
    for p in parts:
        i = p.find('=')
        if i >= 0:
            keys.append(p[:i + 1])
            values.append(p[i + 1:])
        else:
            keys.append(p)
            values.append('')
    if len(parts) == 1 and '=' not in parts[0]:
        keys, values = [''], [parts[0]]
    return tuple(keys), tuple(values)


def levels(path):
    """Path levels: empty ones do not count, except for the last."""
    parts = path.split('/')[1:]
    return tuple(p for i, p in enumerate(parts) if p or i == len(parts) - 1)


def parse_url(url):
    """Reference for http(s) URLs without TAB, CR and LF."""
    m = re.match(r'https?://[^/?#]*', url, re.I)
    if not m:
        raise Reject('not in the domain of the reference')
    rest = url[m.end():]
    fragment = query = None
    if '#' in rest:
        rest, fragment = rest.split('#', 1)
    if '?' in rest:
        rest, query = rest.split('?', 1)
    # parameters of the last path level are ignored
    cut = rest.rfind('/') + 1
    i = rest.find(';', cut)
    if i >= 0:
        rest = rest[:i]
    path = levels(rest)
    if not path:
        raise Reject('no path')
    keys, values = parse_query(query)
    p = Parsed(path, keys, values, fragment)
    for s in p.components + p.keys:
        if not legal(s):
            raise Reject('illegal character')
    return p


# -- views ------------------------------------------------------------------

def cut_runs(piece):
    """Cut points of the 'character space order' reading."""
    out, i = [], 0
    for t, _ in runs(piece):
        out.append((i, i + len(t)))
        i += len(t)
    return out


def cut_mixed(piece):
    """Adjacent letters, digits and '%' are joined."""
    out, mix = [], False
    i = 0
    for t, r in runs(piece):
        m = r in MIXABLE
        if m and mix:
            out[-1] = (out[-1][0], i + len(t))
        else:
            out.append((i, i + len(t)))
        mix = m
        i += len(t)
    return out


def cut_last_dot(piece):
    """name . suffix, the suffix has at most two runs; None if it does not apply."""
    rs = runs(piece)
    for back in range(3):
        k = len(rs) - 1 - back
        if k < 0:
            return None
        if rs[k][1] == '\\.':
            break
    else:
        return None
    if any(r not in ALNUM for _, r in rs[k + 1:]):
        return None
    a = sum(len(t) for t, _ in rs[:k])
    b = a + len(rs[k][0])
    out = []
    if a:
        out.append((0, a))
    out.append((a, b))
    if b < len(piece):
        out.append((b, len(piece)))
    return out


def cut_whole(piece):
    return [(0, len(piece))] if piece else []


def views(piece, last_path):
    """Distinct ways to cut the piece into units."""
    if not piece:
        return [[]]
    out = []
    for c in (cut_runs(piece), cut_mixed(piece),
              cut_last_dot(piece) if last_path else None, cut_whole(piece)):
        if c is not None and c not in out:
            out.append(c)
    return out


def render(piece, cuts, choice):
    """choice per unit: 0 literal, 1 fixed length, 2 any length."""
    s = ''
    for (a, b), k in zip(cuts, choice):
        sub = piece[a:b]
        if k == 0:
            s += lit(sub)
        elif k == 1:
            s += quant(space(sub), b - a)
        else:
            s += '[%s]+' % space(sub)
    return s


def component_matches(pattern, piece, last_path):
    """Strict matching: is `pattern` one of the readings of `piece`?"""
    if pattern == lit(piece):
        return True
    for cuts in views(piece, last_path):
        if _reads(pattern, piece, cuts):
            return True
    return False


def _reads(pattern, piece, cuts):
    pos = {0}
    for a, b in cuts:
        sub = piece[a:b]
        opts = {lit(sub), quant(space(sub), b - a), '[%s]+' % space(sub)}
        nxt = set()
        for i in pos:
            for o in opts:
                if pattern.startswith(o, i):
                    nxt.add(i + len(o))
        pos = nxt
        if not pos:
            return False
    return len(pattern) in pos


class PatternText(object):
    """A canonical URL pattern taken apart."""

    def __init__(self, text):
        self.text = text
        rest, frag = text, None
        i, j = text.find('[\\?]'), text.find('#')
        self.fragment = None
        q = None
        if j >= 0 and (i < 0 or j < i):
            rest, self.fragment = text[:j], text[j + 1:]
        elif i >= 0:
            rest = text[:i]
            q = text[i + 4:]
            j = q.find('#')
            if j >= 0:
                q, self.fragment = q[:j], q[j + 1:]
        self.path = levels(rest)
        self.keys, self.values = parse_query(q)

    @property
    def components(self):
        return tuple(self.path) + tuple(self.values) + (
            () if self.fragment is None else (self.fragment,))

    @property
    def shape(self):
        return (len(self.path), tuple(self.keys), self.fragment is not None)


def url_matches(ptext, parsed):
    """Reference strict matcher for canonical patterns."""
    p = ptext if isinstance(ptext, PatternText) else PatternText(ptext)
    if p.shape != parsed.shape:
        return False
    n = len(parsed.path)
    return all(component_matches(a, b, i == n)
               for i, (a, b) in enumerate(zip(p.components,
                                              parsed.components), 1))


def pattern_text(parsed, comps):
    """Assemble a pattern from component patterns."""
    n = len(parsed.path)
    s = '/' + '/'.join(comps[:n])
    k = len(parsed.keys or ())
    if k:
        s += '[\\?]' + '&'.join(lit_key(a) + b for a, b in
                                zip(parsed.keys, comps[n:n + k]))
    if parsed.fragment is not None:
        s += '#' + comps[n + k]
    return s


def refines(piece, a, b):
    """a, b: (cuts, choice) readings of one piece; language(a) within (b)?"""
    ac, ak = a
    bc, bk = b
    for (s, e), k in zip(bc, bk):
        inside = [(c, kk) for c, kk in zip(ac, ak) if s <= c[0] < e]
        if not inside or inside[0][0][0] != s or inside[-1][0][1] != e:
            return False
        if k == 0 and any(kk != 0 for _, kk in inside):
            return False
        if k == 1 and any(kk == 2 for _, kk in inside):
            return False
    return True


# -- well-formedness of component patterns ------------------------------------

def well_formed(component):
    """Is this a component pattern: letters/digits and [rules], {n} or +."""
    i, n = 0, len(component)
    while i < n:
        c = component[i]
        if c in LEGAL and RULE_OF[c] in ALNUM:
            i += 1
            continue
        if c != '[':
            return False
        i += 1
        rules = set()
        while i < n and component[i] != ']':
            c = component[i]
            w = 2 if c == '\\' else 3 if c in LEGAL and RULE_OF[c] in ALNUM else 1
            r = component[i:i + w]
            if r not in RULES:
                return False
            rules.add(r)
            i += w
        if i >= n or not rules:
            return False
        i += 1
        num = 1
        if i < n and component[i] == '+':
            i += 1
            continue
        if i < n and component[i] == '{':
            j = component.find('}', i)
            if j < 0:
                return False
            t = component[i + 1:j]
            if not t or any(d not in DIGIT for d in t):
                return False
            num = int(t)
            i = j + 1
        if num < len(rules):
            return False
    return True
