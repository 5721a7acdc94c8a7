"""Clustering properties C01-C08, C19."""
import json
import os
import random
import re
import subprocess
import sys

from . import gen, ref, sut
from .base import Check

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def parse_or_none(url):
    try:
        return ref.parse_url(url)
    except ref.Reject:
        return None


def accepted(log):
    return [e[1] for e in log.events if e[0] == 'load']


class MakeCheck(Check):
    messy = 0.1
    hosts = False

    scale = 0.012       # share of the cases with one large dimension
    scale_top = 1.0
    many = False        # one case of very many clusters

    def gen(self, r, idx, tier):
        mcn = gen.gen_mcn(r)
        if self.many and idx == 0:
            return gen.singles(r)
        if r.random() < self.scale:
            mcn, urls = gen.scaled(r, mcn, top=self.scale_top)
            return {'mcn': mcn, 'urls': urls, 'scaled': 1}
        big = None
        if tier == 'thorough' and r.random() < 0.01:
            big = True
        return {'mcn': mcn, 'urls': gen.gen_urls(
            r, mcn, messy=self.messy if r.random() < 0.5 else 0.0,
            hosts=self.hosts and r.random() < 0.5, big=big)}

    def note(self, case, clusters, obs):
        obs.count('clusters', len(clusters))
        obs.count('generalised_clusters',
                  sum(1 for c in clusters if c.count > 1))
        if len(case['urls']) < 12 and any(c.count > 1 for c in clusters):
            obs.sample = {'urls': case['urls'],
                          'min_cluster_num': case['mcn'],
                          'patterns': [c.pattern for c in clusters]}


class C01(MakeCheck):
    id = 'C01'
    n_quick = 8000
    hosts = True
    messy = 0.2
    many = True
    rule = ('random URL families (templates, shared branches, near misses, '
            'duplicates, several hosts) loaded one by one with metas of several '
            'kinds; a case is non-trivial when at least one cluster holds '
            'several URLs, distinct by the observed set of cluster patterns')
    need = {'loads': 10000, 'clusters': 2000, 'generalised_clusters': 500,
            'duplicate_loads': 500}
    assumptions = ['metas are hashable and pairwise distinct, as the API '
                   'keeps them in a set']

    def gen(self, r, idx, tier):
        case = super(C01, self).gen(r, idx, tier)
        urls = case['urls']
        for _ in range(r.choice([0, 0, 2, 10])):
            urls.append(r.choice(urls))
        for _ in range(r.choice([0, 3])):
            u = r.choice(urls)
            p = parse_or_none(u)
            if p is not None:
                urls.append(r.choice(gen.HOSTS) + p.text)
        case['meta'] = r.choice(['url', 'url', 'uniq', 'mixed', 'some',
                                 'twin'])
        case['garbage'] = [gen.gen_garbage(r) for _ in range(
            r.choice([0, 0, 3]))]
        # positions in the load sequence at which make is run in between
        case['makes'] = sorted(r.randint(0, len(urls)) for _ in range(
            r.choice([0, 0, 0, 1, 2])))
        return case

    @staticmethod
    def meta_for(mode, i, url):
        if mode == 'url':
            return url
        if mode == 'uniq':
            return '%d#%s' % (i, url)
        if mode == 'twin':    # different metas that print alike
            return str(i // 2) if i % 2 else i // 2
        if mode == 'some':
            return None if i % 3 == 1 else i
        return (i, '' if i == 1 else 's%d' % i, ('t', i))[i % 3]

    def run(self, case, obs):
        log = sut.MakerLog(case['mcn'])
        mode = case['meta']
        seen, want = {}, {}
        plan = list(case['urls'])
        for i, g in enumerate(case['garbage']):
            plan.insert(i * 2, g)
        unparsed = False
        for i, url in enumerate(plan):
            for _ in range(case['makes'].count(i)):
                log.clusters()
                obs.count('makes_in_between')
            meta = self.meta_for(mode, i, url)
            is_new = log.load(url, meta)
            if is_new is None:
                continue
            obs.count('loads')
            p = parse_or_none(url)
            if p is None:
                unparsed = True     # outside the reference's domain
                ident = ('?', url)
            else:
                ident = p.identity
                if not unparsed and is_new != (ident not in seen):
                    obs.viol('is_new reported wrongly', url=url,
                             is_new=is_new, seen_before=seen.get(ident))
            if ident in seen:
                obs.count('duplicate_loads')
            seen.setdefault(ident, url)
            if meta is not None:
                want.setdefault(meta, []).append(ident)
        if len(case['makes']) == 2:
            log.clusters()
        clusters = log.clusters()
        self.note(case, clusters, obs)
        where = {}
        total = 0
        leaf_ids = {}
        for ci, c in enumerate(clusters):
            total += c.count
            if c.count != len(c.paths):
                obs.viol('cluster count differs from its number of paths',
                         pattern=c.pattern, count=c.count,
                         paths=len(c.paths))
            for _, pieces, metas, _ in c.paths:
                k = (c.meta.path_depth, tuple(c.meta.query_keys),
                     bool(c.meta.has_fragment), pieces)
                if k in leaf_ids:
                    obs.viol('one path is in two clusters', pieces=pieces,
                             patterns=[clusters[leaf_ids[k]].pattern,
                                       c.pattern])
                leaf_ids[k] = ci
                for m in metas:
                    where.setdefault(m, []).append((ci, k))
        for m, idents in want.items():
            if m not in where:
                obs.viol('a loaded URL is in no cluster', meta=m,
                         url=[seen[i] for i in idents])
            elif len(where[m]) != len(set(idents)):
                obs.viol('a loaded URL is reported more than once', meta=m,
                         clusters=[clusters[ci].pattern
                                   for ci, _ in where[m]])
            else:
                got = set(k for _, k in where[m])
                exp = set()
                for i in idents:
                    if i[0] == '?':
                        exp = None
                        break
                    exp.add(i[:3] + (tuple(ref.lit(x) for x in i[3]),))
                if exp is not None and got != exp:
                    obs.viol('a URL is kept under another path', meta=m,
                             got=sorted(map(repr, got)))
        for m in where:
            if m not in want:
                obs.viol('a cluster holds something never loaded', meta=m)
        if not unparsed and total != len(seen):
            obs.viol('counts do not add up to the number of distinct paths',
                     total=total, distinct=len(seen))
        if not unparsed:
            exp = set(i[:3] + (tuple(ref.lit(x) for x in i[3]),)
                      for i in seen)
            if exp != set(leaf_ids):
                obs.viol('paths lost or invented',
                         lost=sorted(map(repr, exp - set(leaf_ids)))[:5],
                         invented=sorted(map(repr,
                                             set(leaf_ids) - exp))[:5])
        self.formatters(clusters, obs)
        if any(c.count > 1 for c in clusters):
            obs.sig(sorted(str(c.pattern) for c in clusters))

    def formatters(self, clusters, obs):
        for c in clusters:
            members = sorted(map(str, c.members))
            out = list(sut.pformat('cluster', c.meta, c.tree))
            if out[:1] != [c.pattern] or sorted(out[1:]) != \
                    sorted('\t' + m for m in members):
                obs.viol('the cluster format loses or invents URLs',
                         out=out, members=members)
            out = list(sut.pformat('inline', c.meta, c.tree))
            if sorted(out) != sorted(c.pattern + '\t' + m for m in members):
                obs.viol('the inline format loses or invents URLs',
                         out=out, members=members)
            out = [json.loads(x) for x in sut.pformat(
                'json', c.meta, c.tree)]
            if out != [{'ptn': c.pattern, 'cnt': len(c.paths)}]:
                obs.viol('the json format is wrong', out=out,
                         pattern=c.pattern, paths=len(c.paths))
            obs.count('formatted_clusters')


class C02(MakeCheck):
    id = 'C02'
    n_quick = 10000
    rule = ('random URL families clustered; every (cluster, member URL) pair is '
            'an observation, non-trivial when the pattern is not the literal '
            'URL, distinct by pattern')
    need = {'members_checked': 20000, 'generalised_members': 5000}

    def run(self, case, obs):
        log, clusters = sut.cluster_urls(case['urls'], case['mcn'])
        self.note(case, clusters, obs)
        for c in clusters:
            pats = set(p for p, _, _, _ in c.paths)
            if len(pats) != 1:
                obs.viol('members of one cluster carry different patterns',
                         patterns=sorted(map(repr, pats)), out=c.pattern)
                continue
            for url in c.members:
                p = parse_or_none(url)
                if p is None:
                    continue
                obs.count('members_checked')
                if c.count > 1:
                    obs.count('generalised_members')
                    obs.sig(c.pattern)
                exp = ref.pattern_text(p, list(list(pats)[0]))
                if exp != c.pattern:
                    obs.viol('pattern text does not show the structure',
                             url=url, pattern=c.pattern, expected=exp)
                elif not re.fullmatch(c.pattern, p.text):
                    obs.viol('a member is not matched by its cluster pattern',
                             url=url, pattern=c.pattern)
                elif not ref.url_matches(c.pattern, p):
                    obs.viol('a member does not strictly read as its pattern',
                             url=url, pattern=c.pattern)
            self.components(c, obs)

    def components(self, c, obs):
        """The pattern objects of the levels, as regular expressions."""
        nodes = next(iter(sut.dump_tree(c.tree)))[1:]
        p = parse_or_none(sorted(map(str, c.members))[0]) \
            if c.members else None
        if p is None or len(nodes) != len(p.components):
            return
        for n, text in zip(nodes, p.components):
            for t in (text, text + 'a', text[1:], 'Z' + text[1:], text * 2):
                want = re.fullmatch(str(n.pattern), t) is not None
                obs.count('component_regex')
                if n.pattern.match(t) != want:
                    obs.viol('a component pattern does not match like its '
                             'regular expression', pattern=str(n.pattern),
                             text=t, expected=want)


class C03(MakeCheck):
    id = 'C03'
    n_quick = 10000
    rule = ('random URL families clustered, all patterns written as text and '
            'loaded into a matcher, every clustered URL matched; non-trivial '
            'pairs have a generalised pattern, distinct by pattern')
    need = {'urls_matched_back': 20000, 'generalised_pairs': 5000}

    def run(self, case, obs):
        log, clusters = sut.cluster_urls(case['urls'], case['mcn'])
        self.note(case, clusters, obs)
        text = '\n'.join(str(c.pattern) for c in clusters)
        patterns = text.encode('utf-8').decode('utf-8').split('\n') \
            if clusters else []
        m = sut.PatternMatcher()
        for p in patterns:
            try:
                m.load(p, meta=p)
            except sut.DOCUMENTED as e:
                obs.viol('a generated pattern cannot be loaded', pattern=p,
                         error=repr(e))
        shards = {}
        for c in clusters:
            for url in c.members:
                got = sut.match_metas(m, url)
                obs.count('urls_matched_back')
                if c.count > 1:
                    obs.count('generalised_pairs')
                    obs.sig(c.pattern)
                if c.pattern not in got:
                    obs.viol('a URL does not match the pattern made from it',
                             url=url, pattern=c.pattern, matched=got)
        return shards


def hash_runs(cases, seeds):
    """The same workloads in fresh processes with other hash seeds."""
    out = []
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=str(s))
        p = subprocess.run([sys.executable, '-m', 'mon.child_cluster'],
                           input=json.dumps(cases).encode(), cwd=ROOT,
                           env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=600)
        if p.returncode != 0:
            out.append(('error', p.stderr.decode('utf-8', 'replace')[-2000:]))
        else:
            out.append(json.loads(p.stdout.decode()))
    return out


class C04(MakeCheck):
    id = 'C04'
    scale_top = 0.4
    n_quick = 5000
    hosts = True
    rule = ('one set of URLs clustered in several histories: other orders, '
            'duplicates, repeated make, make between loads (also abandoned half '
            'way), fresh processes with other hash seeds; non-trivial when some '
            'cluster holds several URLs, distinct by the clustering')
    need = {'histories_compared': 8000, 'hash_seed_runs': 40,
            'generalised_clusters': 1000}

    def gen(self, r, idx, tier):
        if idx % 100 == 7:
            return {'hash': [super(C04, self).gen(r, 0, 'quick')
                             for _ in range(15)],
                    'seeds': [r.randrange(1, 2 ** 32) for _ in range(2)]}
        case = super(C04, self).gen(r, idx, tier)
        u = list(dict.fromkeys(case['urls']))
        case['urls'] = u
        case['shuffle'] = r.randrange(10 ** 6)
        return case

    def run(self, case, obs):
        import random
        if 'hash' in case:
            exp = json.loads(json.dumps([sut.canon(sut.cluster_urls(
                c['urls'], c['mcn'])[1]) for c in case['hash']]))
            for s, got in zip(case['seeds'],
                              hash_runs(case['hash'], case['seeds'])):
                obs.count('hash_seed_runs')
                if got != exp:
                    i = [a != b for a, b in zip(got, exp)].index(True) \
                        if len(got) == len(exp) else None
                    obs.viol('the hash seed changes the result', seed=s,
                             case=None if i is None else case['hash'][i],
                             got=got if i is None else got[i],
                             expected=None if i is None else exp[i])
            return
        urls, mcn = case['urls'], case['mcn']
        if not urls:
            return
        r = random.Random(case['shuffle'])
        log, clusters = sut.cluster_urls(urls, mcn)
        self.note(case, clusters, obs)
        base = sut.canon(clusters)
        if any(c.count > 1 for c in clusters):
            obs.sig(base)

        def compare(name, cs):
            obs.count('histories_compared')
            got = sut.canon(cs)
            if got != base:
                a, b = set(base), set(got)
                obs.viol('%s changes the result' % name,
                         only_before=sorted(a - b)[:5],
                         only_after=sorted(b - a)[:5], urls=urls[:60])
        compare('a second make', log.clusters())
        order = list(urls)
        r.shuffle(order)
        compare('the load order', sut.cluster_urls(order, mcn)[1])
        order = sorted(urls, reverse=r.random() < 0.5)
        compare('the load order', sut.cluster_urls(order, mcn)[1])
        order = list(urls)
        for _ in range(r.randint(1, 10)):
            order.insert(r.randrange(len(order) + 1), r.choice(urls))
        compare('loading duplicates', sut.cluster_urls(order, mcn)[1])
        inc = sut.MakerLog(mcn)
        order = list(urls)
        r.shuffle(order)
        k = r.randrange(len(order) + 1)
        for u in order[:k]:
            inc.load(u, u)
        gen_ = inc.maker.make()
        for _ in range(r.choice([0, 1, 2, 10 ** 6])):
            if next(gen_, None) is None:
                break
        for u in order[k:]:
            inc.load(u, u)
        compare('an earlier make', inc.clusters())


class C05(MakeCheck):
    id = 'C05'
    n_quick = 6000
    hosts = True
    messy = 0.15
    rule = ('URLs sharded by fuzzy digest into independent makers and matchers '
            'and compared with the all-in-one classes; digests compared '
            'pairwise with the structure and character spaces of the URLs; '
            'distinct by digest')
    need = {'digests': 20000, 'digest_pairs_equal': 5000,
            'digest_pairs_different': 5000, 'sharded_makes': 3000,
            'sharded_matches': 10000, 'hash_seed_digests': 400,
            'bulk_digests': 100000}

    def bulk(self, case, obs):
        """Very many structures in one table: digests cut short collide."""
        r = random.Random(case['bulk'])
        pieces = ['a', 'A', '1', 'a1', 'A1', '-', '_', 'a-', 'a.b', '1.a', '%']
        seen = {}
        for i in range(case['n']):
            u = 'http://h/' + '/'.join(r.choice(pieces) for _ in range(
                r.randint(1, 3))) + '?%s%d=%s' % (r.choice('kK'), i,
                                                  r.choice(pieces))
            d = sut.fuzzy_digest(u)
            if d in seen:
                obs.viol('URLs with different query keys have the same '
                         'digest', a=seen[d], b=u)
                break
            seen[d] = u
        obs.count('bulk_digests', len(seen))

    def gen(self, r, idx, tier):
        if idx == 0:
            return {'mcn': 3, 'urls': [], 'probe': [], 'shuffle': 0,
                    'bulk': r.randrange(10 ** 6), 'n': 160000}
        case = super(C05, self).gen(r, idx, tier)
        case['urls'] = case['urls'][:700 if 'scaled' in case else 150]
        near = [gen.mutate(r, r.choice(case['urls'])) for _ in range(8)]
        near += [gen.rearrange(r, r.choice(case['urls'])) for _ in range(4)]
        case['probe'] = near
        case['shuffle'] = r.randrange(10 ** 6)
        if idx % 200 == 3:
            case['seeds'] = [r.randrange(1, 2 ** 32)]
        return case

    def run(self, case, obs):
        if case.get('bulk') is not None:
            return self.bulk(case, obs)
        r = random.Random(case['shuffle'])
        mcn = case['mcn']
        by_digest, by_key = {}, {}
        ok = []
        for url in case['urls'] + case['probe']:
            p = parse_or_none(url)
            try:
                meta, pieces = sut.parse(url)
            except sut.DOCUMENTED:
                continue
            d = sut.fuzzy_digest(meta, pieces)
            obs.count('digests')
            obs.sig(d)
            if sut.fuzzy_digest(url) != d:
                obs.viol('digest of the string and of the parsed URL differ',
                         url=url)
            ok.append((url, d))
            if p is None:
                continue
            k = p.digest_key
            if k in by_key and by_key[k][0] != d:
                obs.viol('URLs with the same structure and character spaces '
                         'have different digests', a=by_key[k][1], b=url)
            if d in by_digest and by_digest[d][0] != k:
                obs.viol('URLs with different structure or character spaces '
                         'have the same digest', a=by_digest[d][1], b=url)
            obs.count('digest_pairs_equal', int(k in by_key))
            obs.count('digest_pairs_different', len(by_key) - 1
                      if k in by_key else len(by_key))
            by_key.setdefault(k, (d, url))
            by_digest.setdefault(d, (k, url))
        if case.get('seeds'):
            env = dict(os.environ, PYTHONHASHSEED=str(case['seeds'][0]))
            q = subprocess.run([sys.executable, '-m', 'mon.child_digest'],
                               input=json.dumps([u for u, _ in ok]).encode(),
                               cwd=ROOT, env=env, stdout=subprocess.PIPE,
                               timeout=300)
            got = json.loads(q.stdout.decode()) if q.returncode == 0 else None
            obs.count('hash_seed_digests', len(ok))
            if got != [d for _, d in ok]:
                obs.viol('the digest depends on the process', urls=ok[:5])
        # makers
        log, clusters = sut.cluster_urls([u for u, _ in ok], mcn)
        makers = {}
        items = list(ok)
        r.shuffle(items)
        for url, d in items:
            meta, pieces = sut.parse(url)
            if d not in makers:
                makers[d] = sut.low_maker(meta, mcn)
            makers[d].load(pieces, meta=url)
        ds = list(makers)
        r.shuffle(ds)
        sharded = []
        for d in ds:
            for c in makers[d].make():
                sharded.append(sut.observe(makers[d].url_meta, c))
        obs.count('sharded_makes')
        self.note(case, clusters, obs)
        a, b = sut.canon(clusters), sut.canon(sharded)
        if a != b:
            obs.viol('sharding by digest changes the clusters',
                     whole=[x for x in a if x not in b][:4],
                     sharded=[x for x in b if x not in a][:4])
        # the sub makers of the whole maker, one after the other
        own = [sut.observe(k.url_meta, c) for k in log.maker.makers
               for c in k.make()]
        if sut.canon(own) != a:
            obs.viol('the sub makers do not give the clusters of the maker',
                     whole=[x for x in a if x not in sut.canon(own)][:4])
        # a cluster stays in its shard
        pats = []
        for c in clusters:
            pats.append(c.pattern)
            pd = sut.fuzzy_digest(c.pattern)
            for u in c.members[:5]:
                if sut.fuzzy_digest(u) != pd:
                    obs.viol('URL and its pattern have different digests',
                             url=u, pattern=c.pattern)
        # matchers
        for url, _ in r.sample(ok, min(4, len(ok))):
            p = parse_or_none(url)
            if p is not None:
                pats.append(gen.gen_abstraction(r, p)[0])
        pats = list(dict.fromkeys(pats))
        whole = sut.matcher(pats)
        matchers = {}
        for pt in pats:
            meta, parsed = sut.parse(pt)
            d = sut.fuzzy_digest(meta, parsed)
            if d not in matchers:
                matchers[d] = sut.Matcher(meta)
                if matchers[d].url_meta != meta:
                    obs.viol('a matcher does not carry its structure',
                             pattern=pt)
            matchers[d].load(parsed, pt)
        for url, d in ok:
            w = sorted(sut.match_metas(whole, url))
            s = []
            if d in matchers:
                s = sorted(n.meta for n in
                           matchers[d].match(sut.parse(url)[1]))
            obs.count('sharded_matches')
            if w != s:
                obs.viol('sharding by digest changes the matches', url=url,
                         whole=w, sharded=s)


class C06(MakeCheck):
    id = 'C06'
    many = True
    n_quick = 12000
    rule = ('random URL families with group sizes around min_cluster_num; '
            'non-trivial: clusters, distinct by (min_cluster_num, count, '
            'pattern)')
    need = {'literal_clusters': 5000, 'generalised_clusters': 3000,
            'clusters_at_threshold': 300}
    assumptions = ['min_cluster_num >= 2']

    def gen(self, r, idx, tier):
        case = super(C06, self).gen(r, idx, tier)
        k = r.random()
        if k < 0.1 and 'scaled' not in case and idx:
            case['mcn'] = r.choice([2, 6, 9, 10, 20, 50])
        return case

    def run(self, case, obs):
        mcn = case['mcn']
        log, clusters = sut.cluster_urls(case['urls'], mcn)
        self.note(case, clusters, obs)
        for c in clusters:
            ids = set()
            for u in c.members:
                p = parse_or_none(u)
                if p is not None:
                    ids.add(p.identity)
            if not ids:
                continue
            n = len(ids)
            obs.sig((mcn, n, c.pattern))
            if n == mcn:
                obs.count('clusters_at_threshold')
            if n == 1:
                obs.count('literal_clusters')
                exp = ref.pattern_text(p, [ref.lit(x) for x in p.components])
                if c.pattern != exp:
                    obs.viol('a single URL got a generalised pattern',
                             url=c.members, pattern=c.pattern, literal=exp)
            elif n < mcn:
                obs.viol('a generalised cluster has too few URLs',
                         min_cluster_num=mcn, members=c.members,
                         pattern=c.pattern)
            if c.count != n:
                obs.viol('cluster count is wrong', count=c.count,
                         members=c.members)


class C07(MakeCheck):
    id = 'C07'
    scale_top = 0.4
    n_quick = 8000
    rule = ('every cluster of a random clustering is clustered again on its own; '
            'non-trivial: clusters with several URLs, distinct by pattern')
    need = {'clusters_reclustered': 10000, 'generalised_reclustered': 3000}

    def run(self, case, obs):
        mcn = case['mcn']
        log, clusters = sut.cluster_urls(case['urls'], mcn)
        self.note(case, clusters, obs)
        clusters = sorted(clusters, key=lambda c: (-c.count, str(c.pattern)))
        for c in clusters[:12]:
            again = sut.cluster_urls(sorted(c.members), mcn)[1]
            obs.count('clusters_reclustered')
            if c.count > 1:
                obs.count('generalised_reclustered')
                obs.sig(c.pattern)
            if sut.canon(again) != [c.key()]:
                obs.viol('clustering a cluster again does not give it back',
                         cluster=c.key(), again=sut.canon(again)[:5])


class C08(Check):
    id = 'C08'
    n_quick = 16000
    n_thorough = 200000
    rule = ('families built from a template with one or two varying runs, sizes '
            'around min_cluster_num, expected pattern known by construction; '
            'distinct by (expected pattern, min_cluster_num, size)')
    need = {'families_generalised': 3000, 'families_too_small': 500,
            'variable_length_families': 800}
    assumptions = ['the component has at most three runs and the varying run '
                   'is not the suffix behind a dot of the last path level']

    CLS = {'a-z': ref.LOWER, 'A-Z': ref.UPPER, '0-9': ref.DIGIT}

    def _fixed(self, r, ctx, avoid):
        k = r.random()
        if k < 0.5:
            c = r.choice([x for x in ref.ALNUM if x != avoid])
            return gen.word(r, self.CLS[c], r.randint(1, 6))
        return r.choice(gen.signs_for(ctx)) * r.choice([1, 1, 2, 3])

    def gen(self, r, idx, tier):
        mcn = gen.gen_mcn(r)
        while True:
            sh = gen.gen_shape(r)
            url = gen.url_of(r, sh)
            p = ref.parse_url(url)
            if len(p.components) <= 8:
                break
        n = len(p.path)
        comps = list(p.components)
        pats = [ref.lit(c) for c in comps]
        size = max(1, r.choice([mcn - 1, mcn, mcn, mcn + 1, 2 * mcn,
                                3 * mcn + 1, 20]))
        if r.random() < 0.002:
            size = r.choice([100, 300, 1200])
        elif r.random() < 0.004:
            mcn = gen.spread(r, 12, 400)
            size = r.choice([mcn - 1, mcn, mcn + 1, 2 * mcn])
        vary = {}
        spots = r.sample(range(len(comps)),
                         min(len(comps), r.choice([1, 1, 1, 2, 2])))
        anylen = False
        for i in spots:
            if i < n:
                ctx = 'last' if i == n - 1 else 'path'
            elif i < n + len(p.keys):
                key = p.keys[i - n]
                if key and not key.endswith('='):
                    continue
                ctx = 'value' if key else 'bare'
            else:
                ctx = 'frag'
            cls = r.choice(ref.ALNUM)
            alph = self.CLS[cls]
            pre = self._fixed(r, ctx, cls) if r.random() < 0.5 else ''
            post = self._fixed(r, ctx, cls) if r.random() < 0.5 else ''
            if r.random() < 0.3:    # two fixed runs on one side
                two = self._fixed(r, ctx, cls)
                if r.random() < 0.5:
                    pre, post = two + pre, ''
                    if r.random() < 0.3:
                        pre = pre[0] + '.'
                else:
                    pre, post = '', post + two
            if len(ref.runs(pre)) > 1 and pre[-1] == '.' and ctx == 'last':
                pre += '_'    # the varying run would be a file suffix
            if len(ref.runs(pre + post)) > 2:
                pre = ''
            if len(ref.runs(post)) > 2 or ref.RULE_OF.get(post[:1]) == cls \
                    or ref.RULE_OF.get(pre[-1:]) == cls:
                pre = post = ''
            variable = r.random() < 0.25
            vals = set()
            if variable:
                lens = r.sample(range(1, size + 8), size)
                vals = [gen.word(r, alph, L) for L in lens]
                pat = '[%s]+' % cls
            else:
                L = r.choice([1, 2, 3, 4, 6, 10, 16, 33])
                while len(alph) ** L < size * 3:
                    L += 1
                guard = 0
                while len(vals) < size and guard < 10000:
                    vals.add(gen.word(r, alph, L))
                    guard += 1
                vals = sorted(vals)
                r.shuffle(vals)
                pat = ref.quant(cls, L)
            anylen = anylen or variable
            vary[i] = [pre + v + post for v in vals]
            pats[i] = ref.lit(pre) + pat + ref.lit(post)
        if not vary:
            return self.gen(r, idx, tier)
        urls, lits = [], []
        for j in range(size):
            cs = [vary[i][j] if i in vary else c for i, c in
                  enumerate(comps)]
            q = ref.Parsed(tuple(cs[:n]), p.keys,
                           tuple(cs[n:n + len(p.keys)]),
                           cs[n + len(p.keys)] if p.fragment is not None
                           else None)
            urls.append(r.choice(gen.HOSTS) + q.text)
        other = []
        if r.random() < 0.3:
            other = gen.gen_urls(r, mcn)[:30]
        return {'mcn': mcn, 'urls': urls, 'other': other,
                'expect': ref.pattern_text(p, pats), 'variable': anylen,
                'shuffle': r.randrange(10 ** 6)}

    shrinkable = ('other',)

    def run(self, case, obs):
        import random
        mcn, urls = case['mcn'], case['urls']
        key = None
        ids = set()
        for u in urls:
            p = ref.parse_url(u)
            ids.add(p.identity)
            key = p.digest_key if key is None else key
            if p.digest_key != key:
                obs.count('skipped_not_one_family')
                return
        other = []
        for u in case['other']:
            p = parse_or_none(u)
            if p is not None and p.digest_key != key:
                other.append(u)
        load = urls + other
        random.Random(case['shuffle']).shuffle(load)
        log, clusters = sut.cluster_urls(load, mcn)
        mine = [c for c in clusters if set(c.members) & set(urls)]
        if len(ids) >= mcn and len(ids) > 1:
            obs.count('families_generalised')
            if case['variable']:
                obs.count('variable_length_families')
            obs.sig((case['expect'], mcn, len(ids)))
            if len(mine) != 1 or mine[0].pattern != case['expect']:
                obs.viol('similar URLs are not reported as one cluster with '
                         'the expected pattern', expected=case['expect'],
                         got=[c.pattern for c in mine], urls=urls,
                         min_cluster_num=mcn)
            if len(urls) < 8:
                obs.sample = {'urls': urls, 'min_cluster_num': mcn,
                              'expected': case['expect']}
        else:
            obs.count('families_too_small')
            exp = sorted(ref.pattern_text(p, [ref.lit(x) for x in
                                              p.components])
                         for p in map(ref.parse_url, urls))
            if sorted(str(c.pattern) for c in mine) != sorted(set(exp)):
                obs.viol('fewer than min_cluster_num URLs were generalised',
                         expected=exp, got=[c.pattern for c in mine],
                         min_cluster_num=mcn)


class C19(MakeCheck):
    id = 'C19'
    n_quick = 6000
    rule = ('combined pattern trees compared with the separate clusters of the '
            'same makers, node by node, and with the ete text; non-trivial: '
            'trees with several leaves, distinct by leaf patterns and counts')
    need = {'trees': 5000, 'leaves': 10000, 'multi_leaf_trees': 1000,
            'ete_texts': 300}

    def gen(self, r, idx, tier):
        case = super(C19, self).gen(r, idx, tier)
        case['ete'] = idx % 8 == 0
        return case

    def run(self, case, obs):
        log = sut.MakerLog(case['mcn'])
        for u in case['urls']:
            log.load(u, u)
        first = bool(len(case['urls']) % 2)
        for mk in log.maker.makers:
            if first:
                trees = list(mk.make(True))
                sep = [sut.observe(mk.url_meta, c) for c in mk.make()]
            else:
                sep = [sut.observe(mk.url_meta, c) for c in mk.make()]
                trees = list(mk.make(combine=True))
            obs.count('trees')
            if len(trees) != 1:
                obs.viol('combining does not give one tree per structure',
                         trees=len(trees))
                continue
            root = trees[0]
            want = {}
            for c in sep:
                k = c.paths[0][0]
                want[k] = want.get(k, 0) + c.count
            got = {}
            for nodes in sut.dump_tree(root):
                k = tuple(str(n.value) for n in nodes[1:])
                if k in got:
                    obs.viol('a pattern path is in the tree twice', path=k)
                got[k] = nodes[-1].count
            obs.count('leaves', len(got))
            if len(got) > 1:
                obs.count('multi_leaf_trees')
                obs.sig(sorted(got.items()))
            if got != want:
                obs.viol('tree leaves are not the cluster patterns',
                         tree=sorted(map(repr, got.items()))[:8],
                         clusters=sorted(map(repr, want.items()))[:8])
            labels = {}
            stack = [root]
            m = mk.url_meta
            nk = len(m.query_keys)
            depth = {id(root): 0}
            while stack:
                n = stack.pop()
                kids = list(n.children)
                if kids and sum(k.count for k in kids) != n.count:
                    obs.viol('a node does not count what is below it',
                             node=str(n.value), count=n.count,
                             children=[k.count for k in kids])
                d = depth[id(n)]
                s = ''
                if m.path_depth < d <= m.path_depth + nk:
                    s = '[\\?]' if d == m.path_depth + 1 else '&'
                    s += m.query_keys[d - m.path_depth - 1]
                elif d == m.path_depth + nk + 1:
                    s = '#'
                lab = ' %s%s(%d) ' % (s, n.value, n.count)
                labels[lab] = labels.get(lab, 0) + 1
                for k in kids:
                    depth[id(k)] = d + 1
                    stack.append(k)
            if root.count != sum(c.count for c in sep):
                obs.viol('the tree root does not count all URLs',
                         count=root.count)
            if case['ete'] and len(got) < 40 and m.depth < 15:
                text = ''.join(sut.pformat('ete', m, root))
                obs.count('ete_texts')
                for lab, k in labels.items():
                    if text.count(lab) != k:
                        obs.viol('the ete tree text misses a node',
                                 label=lab, expected=k, text=text)
                if len(text.replace(' ', '')) == 0:
                    obs.viol('the ete tree text is empty')


class C27(MakeCheck):
    id = 'C27'
    n_quick = 8000
    hosts = True
    rule = ('random URL families, some loaded twice and under several hosts, '
            'some clustered in between; every node of every cluster tree and '
            'every node returned by a load is compared with the URLs; '
            'non-trivial: trees that branch, distinct by the set of patterns')
    need = {'trees': 20000, 'nodes': 60000, 'branching_trees': 1500,
            'loaded_nodes': 20000, 'deep_nodes': 20000}

    def gen(self, r, idx, tier):
        case = super(C27, self).gen(r, idx, tier)
        for _ in range(r.choice([0, 0, 2, 10])):
            case['urls'].append(r.choice(case['urls']))
        case['makes'] = sorted(r.randint(0, len(case['urls']))
                               for _ in range(r.choice([0, 0, 0, 1, 2])))
        case['some'] = r.random() < 0.3
        return case

    def run(self, case, obs):
        maker = sut.pattern_maker(case['mcn'])
        leaves, metas, shapes = {}, {}, {}
        for i, u in enumerate(case['urls']):
            for _ in range(case['makes'].count(i)):
                for _ in maker.make():
                    pass
            meta = None if case['some'] and i % 3 == 1 else (i, u)
            try:
                node, _ = maker.load(u, meta=meta)
            except sut.DOCUMENTED:
                continue
            p = parse_or_none(u)
            if p is None:
                return
            ident = p.identity
            shapes[ident] = p
            leaves.setdefault(ident, []).append(node)
            metas.setdefault(ident, set())
            if meta is not None:
                metas[ident].add(meta)
        self.loaded(leaves, metas, shapes, obs)
        by_path = {}
        for ident, p in shapes.items():
            by_path[self.key(p)] = ident
        found = {}
        pats = []
        for m, root in maker.make():
            obs.count('trees')
            self.tree(m, root, by_path, metas, found, obs)
            if root.count > 1:
                pats.append((root.count, tuple(sut.pformat(
                    'pattern', m, root))))
        if sorted(map(repr, found)) != sorted(map(repr, shapes)):
            obs.viol('the trees do not show each path once',
                     missing=[shapes[i].text for i in shapes
                              if i not in found][:5])
        if pats:
            obs.sig(sorted(pats))

    @staticmethod
    def key(p):
        return (len(p.path), tuple(ref.lit_key(k) for k in p.keys or ()),
                p.fragment is not None,
                tuple(ref.lit(c) for c in p.components))

    def loaded(self, leaves, metas, shapes, obs):
        """The nodes that the loads returned."""
        for ident, nodes in leaves.items():
            p = shapes[ident]
            comps = p.components
            for n in nodes:
                obs.count('loaded_nodes')
                got = set(n.meta) if n.meta is not None else set()
                if n.piece != ref.lit(comps[-1]) or n.level != len(comps) \
                        or n.count != 1 or not n.leaf() \
                        or list(n.children) or got != metas[ident]:
                    obs.viol('a load does not return the leaf of its path',
                             url=p.text, piece=n.piece, level=n.level,
                             count=n.count, leaf=n.leaf(),
                             metas=sorted(map(repr, got))[:5])

    def tree(self, m, root, by_path, metas, found, obs):
        shape = (m.path_depth, tuple(m.query_keys), bool(m.has_fragment))
        depth = shape[0] + len(shape[1]) + (1 if shape[2] else 0)
        if m.depth != depth:
            obs.viol('the structure does not add up', meta=repr(m))
        walked = []
        stack = [(root, ())]
        while stack:
            n, path = stack.pop()
            kids = list(n.children)
            obs.count('nodes')
            if len(path) > 2:
                obs.count('deep_nodes')
            if n.level != len(path):
                obs.viol('the level of a node is not its distance from the '
                         'root', path=path, level=n.level)
            if len(set(k.piece for k in kids)) != len(kids):
                obs.viol('two children show the same text', path=path,
                         children=[k.piece for k in kids][:10])
            if bool(n.leaf()) == bool(kids):
                obs.viol('leaf() is wrong', path=path)
            if not kids:
                walked.append(path)
                if n.count != 1 or len(path) != depth:
                    obs.viol('a leaf does not stand for one path',
                             path=path, count=n.count, depth=depth)
                ident = by_path.get(shape + (path,))
                if ident is None or ident in found:
                    obs.viol('a tree shows a path that was not loaded, or '
                             'twice', path=path)
                    continue
                found[ident] = True
                got = set(n.meta) if n.meta is not None else set()
                if got != metas[ident]:
                    obs.viol('a leaf does not have the metas of its path',
                             path=path, metas=sorted(map(repr, got))[:5])
            elif n.count != sum(k.count for k in kids):
                obs.viol('a node does not count what is below it', path=path,
                         count=n.count, children=[k.count for k in kids][:10])
            for k in kids:
                stack.append((k, path + (k.piece,)))
        dumped = sorted(tuple(n.piece for n in nodes[1:])
                        for nodes in sut.dump_tree(root))
        if dumped != sorted(walked):
            obs.viol('dump_tree does not show each path once',
                     dumped=dumped[:5], tree=sorted(walked)[:5])
        if len(walked) > 1:
            obs.count('branching_trees')
