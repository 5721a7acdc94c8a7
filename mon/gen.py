"""Workload generators. Every choice comes from the rng that is passed in."""
from . import ref

SIGNS = ref.PLAIN_SIGNS + ref.ESCAPED_SIGNS
FORBID = {
    'path': '/?#',
    'last': '/?#;',
    'value': '&#',
    'bare': '&#=',     # a query without key
    'key': '&#=',
    'frag': '',
}
EXTS = ['html', 'htm', 'php', 'asp', 'shtml', 'jpg', 'mp3', 'mp4', '7z', 'm3u8',
        'JPG', 'tar.gz', 'min.js', 'h1', 'x']
WORDS = ['news', 'list', 'item', 'a', 'b', 'abc', 'show', 'Index', 'view', 'p',
         'News', 'ID', 'user', 'test', 'thread', 'category', 'tag']
KEYS = ['id', 'k', 'a', 'b', 'page', 'dataID', 'k-1', 'p[]', 'x_y', 'p.q', 'A',
        'k1', 'k2', 'q[a][b]', 'a--b', '$t', "o'k", 'a:b', 'a/b', 'w?', '%5B',
        'z\\', 'e{}', '0', 'utm_source']
HOSTS = ['http://example.com', 'https://example.com', 'http://www.t.com:8080',
         'http://u:p@h.org', 'http://x', 'https://a.b.c.d.example.co.uk']


def word(r, alphabet, n):
    return ''.join(r.choice(alphabet) for _ in range(n))


def signs_for(ctx):
    return [c for c in SIGNS if c not in FORBID[ctx]]


def length(r):
    k = r.random()
    if k < 0.55:
        return r.randint(1, 4)
    if k < 0.85:
        return r.randint(5, 12)
    if k < 0.98:
        return r.randint(9, 40)
    return r.randint(60, 200)


_ALPH = {'l': ref.LOWER, 'u': ref.UPPER, 'd': ref.DIGIT}


def gen_run(r, ctx, few):
    """A run of a template: (kind, fixed text, mode)."""
    k = r.random()
    if k < 0.38:
        kind = 'l'
    elif k < 0.48:
        kind = 'u'
    elif k < 0.80:
        kind = 'd'
    else:
        kind = 's'
    if kind == 's':
        pool = signs_for(ctx)
        c = r.choice([x for x in '-_.%' if x in pool]) if r.random() < 0.6 \
            else r.choice(pool)
        n = r.choice([1, 1, 1, 1, 2, 3, 12])
        if r.random() < 0.02:
            n = r.choice([9, 10, 99, 100, 101, 130, 1000])
        return (kind, c * n, r.choice([0, 0, 0, 0, 2]))
    alph = few[kind]
    return (kind, word(r, alph, length(r)), r.choice([0, 0, 1, 1, 2, 3]))


def gen_template(r, ctx):
    few = {k: (word(r, v, r.choice([2, 3, 6])) if r.random() < 0.5 else v)
           for k, v in _ALPH.items()}
    k = r.random()
    if ctx != 'path' and k < 0.05:
        return {'few': few, 'runs': []}
    if k < 0.25:
        rs = [('l', r.choice(WORDS), 0)]
    elif k < 0.33:    # slug
        rs = []
        sep = r.choice('-_')
        n = r.randint(2, 5)
        for i in range(n):
            rs.append(('l', word(r, few['l'], r.randint(1, 5)),
                       r.choice([0, 2, 2])))
            if i < n - 1:
                rs.append(('s', sep, 0))
        if r.random() < 0.3:
            rs.append(('var', sep, 0))
    elif k < 0.38:    # hash like
        rs = [('h', 'x' * r.choice([4, 8, 16, 32]), 1)]
    elif k < 0.42:    # quoted text
        rs = [('q', '', 2)]
    elif k < 0.46:
        rs = [('d', word(r, ref.DIGIT, 8), 1)]
    else:
        rs = [gen_run(r, ctx, few)
              for _ in range(r.choice([1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9]))]
    if ctx == 'last' and r.random() < 0.45:
        ext = r.choice(EXTS)
        rs.append(('s', r.choice(['.', '.', '.', '.', '..']), 0))
        if r.random() < 0.9:
            rs.append(('x', ext, r.choice([0, 0, 0, 0, 1, 4])))
    return {'few': few, 'runs': rs}


def instance(r, t, ctx):
    few = t['few']
    out = ''
    for kind, text, mode in t['runs']:
        if kind == 's':
            out += text[0] * r.randint(1, 3) if mode == 2 else text
        elif kind == 'h':
            out += word(r, '0123456789abcdef', len(text))
        elif kind == 'q':
            out += ''.join('%%%02X' % r.randrange(128, 256)
                           for _ in range(r.randint(1, 6)))
        elif kind == 'var':
            for _ in range(r.randint(0, 3)):
                out += text + word(r, few['l'], r.randint(1, 4))
        elif kind == 'x':
            if mode == 4:
                out += r.choice(EXTS)
            elif mode == 1:
                out += word(r, few['l'], 3)
            else:
                out += text
        elif mode == 0:
            out += text
        elif mode == 1:
            out += word(r, few[kind], len(text))
        elif mode == 2:
            out += word(r, few[kind], r.randint(1, max(2, len(text) + 2)))
        else:
            out += word(r, few['l'] + few['d'], r.randint(1, 14))
    bad = FORBID[ctx]
    return ''.join('_' if c in bad else c for c in out)


def fix_segment(s, last):
    if not s and not last:
        return 'p'
    return s


def gen_shape(r):
    """Templates for one URL family."""
    depth = r.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 6])
    if r.random() < 0.01:
        depth = r.choice([12, 25, 60])
    path = [gen_template(r, 'last' if i == depth - 1 else 'path')
            for i in range(depth)]
    q = None
    k = r.random()
    if k < 0.32:
        n = r.choice([1, 1, 2, 2, 3])
        if r.random() < 0.02:
            n = 15
        q = []
        for _ in range(n):
            key = r.choice(KEYS)
            if r.random() < 0.15:
                key = instance(r, gen_template(r, 'key'), 'key') or 'k'
            q.append((key, gen_template(r, 'value'), r.random() < 0.85))
    elif k < 0.38:
        q = [(None, gen_template(r, 'bare'), False)]
    elif k < 0.40:
        q = []
    frag = None
    k = r.random()
    if k < 0.13:
        frag = gen_template(r, 'frag')
    elif k < 0.16:
        frag = {'few': _ALPH, 'runs': []}
    return {'path': path, 'query': q, 'frag': frag}


def pooled(r, t, ctx, pool):
    """Instance from a small pool, so that tree branches are shared."""
    if pool is None:
        return instance(r, t, ctx)
    k = id(t)
    if k not in pool['v']:
        pool['v'][k] = [instance(r, t, ctx) for _ in range(pool['n'])]
    return r.choice(pool['v'][k])


def url_of(r, sh, pool=None, messy=0.0, host=None):
    n = len(sh['path'])
    segs = []
    for i, t in enumerate(sh['path']):
        last = i == n - 1
        segs.append(fix_segment(
            pooled(r, t, 'last' if last else 'path', pool), last))
    if messy and r.random() < messy:
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            segs.insert(r.randrange(len(segs)), '')
    s = (host or HOSTS[0]) + '/' + '/'.join(segs)
    if messy and r.random() < messy:
        s += ';' + r.choice(['', 'x', 'v=1', 'a;b', 'jsessionid=0A9'])
    if sh['query'] is not None:
        parts = []
        for key, t, eq in sh['query']:
            v = pooled(r, t, 'bare' if key is None else 'value', pool)
            if key is None:
                parts.append(v)
            elif eq:
                parts.append(key + '=' + v)
            else:
                parts.append(key)
        s += '?' + '&'.join(parts)
    if sh['frag'] is not None:
        s += '#' + pooled(r, sh['frag'], 'frag', pool)
    return s


def gen_mcn(r):
    return r.choice([2, 2, 3, 3, 3, 3, 3, 4, 4, 5, 7, 10])


def group_size(r, mcn, big):
    c = [1, mcn - 1, mcn, mcn, mcn + 1, 2 * mcn - 1, 2 * mcn, 3 * mcn, 12, 25]
    if big:
        c = [50, 120, 300, 300, 1000]
    return max(1, r.choice(c))


def rearrange(r, url):
    """The same texts in other places: key orders, levels, separators."""
    i0 = url.find('/', 8)
    if i0 < 0:
        return url + '/'
    rest, _, frag = url[i0 + 1:].partition('#')
    path, _, query = rest.partition('?')
    segs, parts = path.split('/'), query.split('&') if query else []
    k = r.random()
    if parts and k < 0.45:
        j = r.randrange(len(parts))
        key, eq, value = parts[j].partition('=')
        w = r.random()
        if len(parts) > 1 and w < 0.3:
            r.shuffle(parts)
        elif len(parts) > 1 and w < 0.5:
            # the keys of two values changed over
            i = r.randrange(len(parts))
            k2, e2, v2 = parts[i].partition('=')
            if i != j and eq and e2:
                parts[i], parts[j] = key + e2 + v2, k2 + eq + value
        elif w < 0.6:
            parts[j] = value + eq + key if eq else key + '='
        elif w < 0.7:
            parts[j] = key + value
        elif w < 0.8:
            parts.insert(r.randrange(len(parts) + 1), parts[j])
        elif w < 0.9:
            segs.append(parts.pop(j))
        else:
            frag = parts.pop(j)
    elif len(segs) > 1 and k < 0.75:
        w = r.random()
        j = r.randrange(len(segs) - 1)
        if w < 0.5:
            segs[j], segs[j + 1] = segs[j + 1], segs[j]
        elif w < 0.7:
            segs[j:j + 2] = [segs[j] + segs[j + 1]]
        elif w < 0.85:
            parts.append(segs.pop(j))
        else:
            frag = segs.pop(j)
    elif frag and k < 0.9:
        if r.random() < 0.5:
            parts.append(frag)
        else:
            segs.append(frag)
        frag = ''
    else:
        segs.append(segs[-1])
    return url[:i0 + 1] + '/'.join(segs) + (
        '?' + '&'.join(parts) if parts else '') + ('#' + frag if frag else '')


def mutate(r, url):
    """A near miss of a URL: one local edit behind the host."""
    i0 = url.find('/', 8)
    if i0 < 0 or i0 + 1 >= len(url):
        return url + 'z'
    if r.random() < 0.12:
        return rearrange(r, url)
    i = r.randrange(i0 + 1, len(url))
    c = url[i]
    k = r.random()
    if k < 0.35:
        if c.isdigit():
            n = r.choice(ref.DIGIT)
        elif c.islower():
            n = r.choice(ref.LOWER)
        elif c.isupper():
            n = r.choice(ref.UPPER)
        else:
            n = r.choice('-_.~%')
        return url[:i] + n + url[i + 1:]
    if k < 0.55:
        return url[:i] + c * 2 + url[i + 1:]
    if k < 0.70:
        return url[:i] + url[i + 1:]
    if k < 0.85:
        return url[:i] + r.choice('aZ5-._%/=') + url[i:]
    if k < 0.95 and i + 1 < len(url):
        return url[:i] + url[i + 1] + c + url[i + 2:]
    return url + r.choice(['/', '?', '#', '&a', '?x', '#f', ';p'])


def sibling(r, url):
    """A URL text close to another one, for lines that follow each other."""
    k = r.random()
    if k < 0.15:
        return url
    if k < 0.35:
        return url.swapcase() if r.random() < 0.3 else \
            url.upper() if r.random() < 0.5 else url.lower()
    if k < 0.5 and '://' in url:
        i = url.find('/', url.find('://') + 3)
        return r.choice(HOSTS) + (url[i:] if i > 0 else '/')
    if k < 0.6:
        return url[:r.randint(0, len(url))]
    if k < 0.7:
        return url + r.choice(['/', '?', '#', ' x', '\x0b', 'a', '1', '%'])
    return mutate(r, url)


def gen_urls(r, mcn, messy=0.0, hosts=False, big=None):
    """A list of URLs: a few families, shared branches, near misses, noise."""
    if big is None:
        big = r.random() < 0.004
    urls = []
    nfam = r.choice([1, 1, 1, 2, 2, 3])
    base = None
    for _ in range(nfam):
        if base is not None and r.random() < 0.4:
            # sibling family: share most templates with the previous one
            sh = {'path': list(base['path']), 'query': base['query'],
                  'frag': base['frag']}
            i = r.randrange(len(sh['path']))
            sh['path'][i] = gen_template(
                r, 'last' if i == len(sh['path']) - 1 else 'path')
        else:
            sh = gen_shape(r)
        base = sh
        pool = {'n': r.choice([1, 2, 3, 4, mcn, 2 * mcn]), 'v': {}} \
            if r.random() < 0.4 else None
        fam = [url_of(r, sh, pool, messy,
                      r.choice(HOSTS) if hosts else None)
               for _ in range(group_size(r, mcn, big))]
        urls.extend(fam)
        if r.random() < 0.35:
            for _ in range(r.randint(1, mcn + 1)):
                urls.append(mutate(r, r.choice(fam)))
    if r.random() < 0.25:
        urls.extend(grid(r, mcn))
    r.shuffle(urls)
    return urls


def grid(r, mcn):
    """Pure trees over tiny alphabets: many counts close to the threshold."""
    d = r.choice([1, 2, 2, 3, 4])
    alph = [word(r, r.choice([ref.LOWER, ref.DIGIT]), r.choice([2, 3, 4]))
            for _ in range(d)]
    mx = [r.choice([1, 1, 2, 3]) for _ in range(d)]
    tail = r.choice(['', '', '.html', '-x', '_9.mp3'])
    n = r.choice([mcn, 2 * mcn, 12, 30])
    out = []
    for _ in range(n):
        out.append(HOSTS[0] + '/' + '/'.join(
            word(r, a, r.randint(1, m)) for a, m in zip(alph, mx)) + tail)
    return out


def gen_abstraction(r, parsed, level=None):
    """A canonical pattern which, by construction, must match the URL.

    Returns (pattern text, readings) with one (cuts, choice) per component.
    """
    n = len(parsed.path)
    comps, readings = [], []
    style = r.random() if level is None else level
    for i, piece in enumerate(parsed.components, 1):
        vs = ref.views(piece, i == n)
        k = r.random()
        if k < 0.25 or not piece:
            cuts = ref.cut_runs(piece)
            choice = [0] * len(cuts)
        else:
            cuts = r.choice(vs)
            if style < 0.3:
                choice = [r.choice([0, 0, 0, 1, 2]) for _ in cuts]
            elif style < 0.6:
                choice = [r.choice([0, 1, 2]) for _ in cuts]
            else:
                choice = [r.choice([1, 2]) for _ in cuts]
        comps.append(ref.render(piece, cuts, choice))
        readings.append((cuts, choice))
    return ref.pattern_text(parsed, comps), readings


GARBAGE = ['', ' ', '#', '?', '/', '//', '&', ';', 'http:', 'http://', 'http://h',
           'http://h?', 'http://h#', 'http://h/?&', 'http://h/?a&', 'http://h/?&a',
           'http://h/?a&&b', 'http://[::1/a', 'http://h/\u00e9', 'http://h/a b',
           'http://h/?\u00e9=1', 'http://h/? =1', 'http://h/a#\u4f60', 'a', 'a/b',
           'http://h/`', 'http://h/a?k=`', 'mailto:x@y', 'http://h/\x00',
           'http://h/\x7f', '/[a-z', '/a-z]', '/[a-z]{0}', '/[a-z]{-1}', '/[]', '/[]+',
           '/[a-z]++', '/[z-a]', '/?', '/a[\\?]b&', '/[0-9a-z]', '/[a-z]{', '/[\\',
           '/[\\]', '/a{2}', '/[a-z]{2}{3}', '/.', '/[a-z]{x}', '/\u00e9', '/ ',
           'http://h/a?b c=1', 'http://h/?a=1&b=\u2028', '/[^a]', '/(a|b)', '/a|b',
           'HTTP://H/\ud7ff', 'http://h:bad:port/\u00e9', '#a', '?#', '##', '??']


def gen_garbage(r):
    """Strings which may or may not be URLs or patterns."""
    k = r.random()
    if k < 0.3:
        return r.choice(GARBAGE)
    if k < 0.5:
        return word(r, 'ab0[]{}+\\?#&=/.-;: \u00e9%\t', r.randint(0, 12))
    if k < 0.75:
        s = '/' + word(r, 'a9[]{}+\\.-_?#&=/Z', r.randint(0, 14))
        return s
    s = url_of(r, gen_shape(r))
    for _ in range(r.randint(1, 3)):
        i = r.randrange(len(s) + 1)
        s = s[:i] + r.choice([' ', '\u00e9', '&', '&&', '`', '[', '#', '\x01',
                              '?', '\ufffd', '\U0001F600']) + s[i:]
    return s


# One dimension at a time far larger than in the families above.
SCALES = ('keys', 'levels', 'runs', 'long', 'children', 'digests', 'bigm')


def singles(r, n=20000):
    """A case in which every URL is a cluster of its own."""
    vals = set()
    while len(vals) < n:
        vals.add(word(r, ref.LOWER, 6))
    return {'mcn': 10 * n, 'urls': [HOSTS[0] + '/' + v for v in sorted(vals)]}


def spread(r, lo, hi):
    """An integer between lo and hi, the order of magnitude at random."""
    return int(round(lo * (float(hi) / lo) ** r.random()))


def scaled(r, mcn, kind=None, top=1.0):
    """(min_cluster_num, URLs) with one large dimension."""
    kind = kind or r.choice(SCALES)
    h = HOSTS[0]
    low, dig, up = ref.LOWER, ref.DIGIT, ref.UPPER
    n = r.choice([1, mcn - 1, mcn, mcn, mcn + 1, 2 * mcn])

    def vary(parts, join, i=None):
        """n texts that differ in one of the parts (of one alphabet)."""
        i = r.randrange(len(parts)) if i is None else i
        a = low if parts[i][:1] in low else up if parts[i][:1] in up else dig
        fixed = r.random() < 0.5
        out = []
        for _ in range(n):
            w = word(r, a, len(parts[i]) if fixed else
                     len(parts[i]) + r.randint(0, 3))
            out.append(join(parts[:i] + [w] + parts[i + 1:]))
        return out

    def words(k, lo=1, hi=4):
        return [word(r, r.choice([low, low, dig, up]), r.randint(lo, hi))
                for _ in range(k)]

    if kind == 'keys':
        k = spread(r, 12, max(13, int(90 * top)))
        keys = [word(r, low + dig, r.randint(1, 3)) for _ in range(k)]
        if r.random() < 0.5:
            keys = ['%s%d' % (r.choice('ab'), i) for i in range(k)]
            r.shuffle(keys)
        end = '#' + word(r, low, 3) if r.random() < 0.2 else ''
        urls = vary(words(k), lambda v: h + '/p/q?' + '&'.join(
            a + '=' + b for a, b in zip(keys, v)) + end)
        if r.random() < 0.5:
            j = r.randrange(k)
            keys[j] += 'x'
            urls += vary(words(k), lambda v: h + '/p/q?' + '&'.join(
                a + '=' + b for a, b in zip(keys, v)) + end)
    elif kind == 'levels':
        k = spread(r, 12, max(13, int(200 * top)))
        end = r.choice(['', '/', '.html', '?k=1', '#f', '/a.b.c'])
        urls = vary(words(k), lambda v: h + '/' + '/'.join(v) + end)
    elif kind == 'runs':
        k = spread(r, 8, max(9, int(80 * top)))
        seps = [r.choice(['-', '-', '_', '.', '--', '%', '~', '']) if
                r.random() < 0.3 else '-' for _ in range(k)]
        if r.random() < 0.3:
            seps = [''] * k
        end = r.choice(['', '', '.html', '.mp3', '?a=b', '/x', '#f'])
        at = r.choice(['/', '/', '/?k=', '/a#'])
        if at != '/' and end[:1] in '?/#':
            end = ''
        urls = vary(words(k, 1, 3), lambda v: h + at + ''.join(
            a + b for a, b in zip(v, seps)) + end)
    elif kind == 'long':
        k = spread(r, 90, max(91, int(3000 * top)))
        a = r.choice([low, up, dig, low + dig, up + low + dig])
        pre, post = r.choice([('', ''), ('', ''), ('x-', ''), ('', '.html'),
                              ('9', ''), ('', '_a'), ('-' * k, '')])
        at = r.choice(['/', '/a/', '/b?k=', '/c#'])
        fixed = r.random() < 0.5
        urls = [h + at + pre + word(r, a, k if fixed else
                                    r.randint(k, k + 5)) + post
                for _ in range(n)]
    elif kind == 'children':
        k = spread(r, 300, max(301, int(2500 * top)))
        L = r.choice([4, 5, 7])
        a = r.choice([low, dig, low + dig])
        fixed = r.random() < 0.5
        pre, post = r.choice([('', ''), ('p', ''), ('', '.html'), ('a-', ''),
                              ('', '_b.mp3')])
        tails = r.choice([[''], [''], ['/a'], ['/a', '/b'], ['?x=1', '?x=2'],
                          ['/1', '/2', '/3', '/4']])
        urls = [h + '/t/' + pre + word(r, a, L if fixed else
                                       r.randint(2, L)) + post +
                r.choice(tails) for _ in range(k)]
    elif kind == 'digests':
        k = spread(r, 200, max(201, int(1600 * top)))
        urls = []
        for j in range(k):
            key = word(r, low, 1) + str(j)
            for _ in range(r.choice([1, 1, 1, mcn])):
                urls.append(h + r.choice(['/a', '/b/c', '/d.e']) + '?' + key +
                            '=' + word(r, r.choice([low, dig]), 2))
        r.shuffle(urls)
    else:
        mcn = spread(r, 20, max(21, int(1500 * top)))
        size = r.choice([mcn - 1, mcn - 1, mcn, mcn, mcn + 1, mcn + mcn // 2,
                         2 * mcn - 1, 2 * mcn])
        a = r.choice([low, dig])
        vals = set()
        while len(vals) < size:
            vals.add(word(r, a, 6))
        vals = sorted(vals)
        tails = r.choice([[''], ['/x'], ['/x', '/y'], ['?k=1']])
        urls = [h + '/v/' + v + r.choice(tails) for v in vals]
        r.shuffle(urls)
    for _ in range(r.choice([0, 0, 1, 3])):
        urls.append(mutate(r, r.choice(urls)))
    return mcn, urls
