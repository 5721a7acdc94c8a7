"""Writes properties.jsonl (kept as code so that it is easy to review)."""
import json
import os

S = 'src/os_urlpattern/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         observe, state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [S + f for f in files],
            'state': [{'name': a, 'meaning': b, 'where': S + c}
                      for a, b, c in state],
            'mechanism': [{'name': a, 'where': S + b} for a, b in mechanism],
            'observe_at': observe, 'hook_needed': None}})


prop('C01', 'Clustering is a partition of the loaded URLs',
     'After loading any URLs, every accepted URL (its meta) is in exactly one '
     'cluster, nothing that was not loaded is in any cluster, and URLs that '
     'differ only in scheme, host or path parameters share one path. A load '
     'reports "new" exactly for the first URL of each path, a cluster\'s count '
     'is its number of distinct paths, and the counts of all clusters add up to '
     'the number of distinct paths loaded. The cluster, inline and json formats '
     'show exactly the members and counts of the clusters.',
     ['inputs', 'histories'],
     'all lists of URLs, duplicates, hosts and metas (hashable, any value '
     'including falsy ones), any min_cluster_num >= 2',
     'The tests load one or two small hand-made families and look at some of '
     'the patterns; losing or doubling a URL needs particular branch counts.',
     ['pattern_maker.py', 'pattern_cluster.py', 'piece_pattern_node.py',
      'utils.py', 'formatter.py'],
     [('cluster and the level-by-level processors', 'pattern_cluster.py'),
      ('build_from_parsed_pieces, uniq counting', 'piece_pattern_node.py'),
      ('dump_tree, build_tree', 'utils.py')],
     ['PatternMaker.load', 'PatternMaker.make', 'pformat'],
     [('node.count', 'distinct paths below a node', 'utils.py'),
      ('leaf.meta', 'what was loaded at this path', 'piece_pattern_node.py')])

prop('C02', 'A cluster has one pattern and every member strictly matches it',
     'All members of a cluster carry the same URL pattern; as a regular '
     'expression it matches the path, query and fragment of every member '
     'entirely. It also reads strictly: each component has the same structure '
     'position and exactly the character spaces and lengths the pattern names, '
     'with no character space in the pattern that a member does not have.',
     ['inputs', 'configurations'],
     'all URL sets, all min_cluster_num >= 2',
     'Tests compare a few patterns with expected text; a pattern that is too '
     'narrow for one member shows only for particular mixes of lengths, runs '
     'and suffixes.',
     ['pattern_cluster.py', 'parsed_piece_view.py', 'formatter.py',
      'parse_utils.py'],
     [('set_pattern by the view clusters', 'pattern_cluster.py'),
      ('pack', 'parse_utils.py'), ('PatternFormatter', 'formatter.py')],
     ['PatternMaker.make', "pformat('pattern')"])

prop('C03', 'Generated patterns match back every URL they came from',
     'Every pattern produced by clustering, written out as text and loaded into '
     'a matcher, is accepted, and matching any URL of the cluster reports that '
     'pattern among the results.',
     ['inputs', 'configurations'],
     'all URL sets; all patterns of one run loaded together',
     'The round trip goes through two separate implementations (views when '
     'clustering, view matchers when matching); the tests make it with a '
     'handful of shapes. It was broken for several (see DESIGN.md).',
     ['pattern_cluster.py', 'pattern_matcher.py', 'parsed_piece_view.py',
      'parse_utils.py', 'pattern.py'],
     [('VIEW_MATCHERS', 'pattern_matcher.py'),
      ('view_cls_from_pattern', 'parsed_piece_view.py'),
      ('parse_pattern_string', 'parse_utils.py')],
     ['PatternMaker.make', 'PatternMatcher.load', 'PatternMatcher.match'])

prop('C04', 'Clustering depends only on the set of URLs',
     'The clusters (pattern, count, members) for a set of URLs and a '
     'min_cluster_num are the same whatever the load order, the number of '
     'repeated loads, the process hash seed, the number of times clustering is '
     'run, and whether clustering was already run (even partly) before the last '
     'URLs were loaded.',
     ['inputs', 'histories'],
     'all URL sets, all permutations and duplications, all interleavings of '
     'load and make, all hash seeds',
     'Each test has one order, one process and one make.',
     ['pattern_maker.py', 'pattern_cluster.py', 'utils.py',
      'piece_pattern_node.py'],
     [('Bag (unordered sets) and pick', 'utils.py'),
      ('trees rebuilt per level', 'pattern_cluster.py')],
     ['PatternMaker.load', 'PatternMaker.make'],
     [('Bag._objs', 'unordered nodes', 'utils.py')])

prop('C05', 'Work can be sharded by fuzzy digest without changing results',
     'Clustering URLs in separate low-level makers, one per fuzzy digest, gives '
     'the same clusters as one maker for all, and matching in separate matchers '
     'per digest gives the same matches as one matcher for all. Two URLs have '
     'the same digest exactly when they have the same structure and the same '
     'character spaces at every position; a URL and a pattern made from it have '
     'the same digest, in every process.',
     ['inputs', 'configurations'],
     'all sets of URLs and patterns, all assignments of digests to shards, all '
     'processes',
     'The tests compute the digest of a few URLs and never compare sharded and '
     'whole runs.',
     ['parser.py', 'parse_utils.py', 'pattern_maker.py', 'pattern_matcher.py',
      'pattern.py'],
     [('fuzzy_digest', 'parse_utils.py'), ('fuzzy_rule', 'parse_utils.py'),
      ('Pattern.fuzzy_rule', 'pattern.py')],
     ['fuzzy_digest', 'Maker', 'Matcher', 'PatternMaker', 'PatternMatcher'])

prop('C06', 'No generalisation from fewer than min_cluster_num URLs',
     'Every cluster holds either exactly one distinct path and then its pattern '
     'is the literal pattern of that URL, or at least min_cluster_num distinct '
     'paths.',
     ['inputs', 'configurations'],
     'all URL sets, all min_cluster_num >= 2',
     'The tests use the default of 3 with comfortable group sizes; the '
     'threshold matters when groups of different views overlap.',
     ['pattern_cluster.py', 'config/default_config.cfg'],
     [('min_cluster_num checks of the view clusters', 'pattern_cluster.py')],
     ['PatternMaker.make'])

prop('C07', 'Clusters are stable under re-clustering',
     'Clustering the members of one reported cluster on their own, with the '
     'same min_cluster_num, gives back that one cluster with the same pattern.',
     ['inputs', 'histories'],
     'all URL sets and all clusters reported for them',
     'No test clusters the outcome of a clustering.',
     ['pattern_cluster.py'],
     [('choice between views by counts', 'pattern_cluster.py')],
     ['PatternMaker.make'])

prop('C08', 'Enough similar URLs generalise to exactly the varying part',
     'URLs that agree except for one or two components in which one run of '
     'lower-case letters, upper-case letters or digits varies are reported, '
     'from min_cluster_num distinct URLs on, as one cluster whose pattern '
     'replaces just that run: by [class]{n} when its length is n in all of '
     'them, by [class]+ when all lengths differ. Fewer of them stay literal. '
     'Other URLs of another structure or other character spaces make no '
     'difference.',
     ['inputs', 'configurations'],
     'all such families (at most three runs in a varying component, the '
     'varying run not part of a file suffix), all min_cluster_num >= 2',
     'The tests have about a dozen such families.',
     ['pattern_cluster.py', 'parsed_piece_view.py', 'parse_utils.py'],
     [('piece, multi, mixed, length, fuzzy clusters', 'pattern_cluster.py'),
      ('specify_rule', 'parse_utils.py')],
     ['PatternMaker.make', "pformat('pattern')"])

prop('C09', 'Matching is strict: no false matches',
     'A matcher reports a pattern for a URL only if the URL has the structure '
     'of the pattern (path levels, query keys in order, fragment) and each '
     'component reads exactly as the component pattern: literal text, [class]{n} '
     'with length n, [class]+, each class naming precisely the character spaces '
     'present in its part of the component.',
     ['inputs'],
     'all sets of patterns of the generated form, all URLs',
     'Tests check a few positive matches and hardly any near miss.',
     ['pattern_matcher.py', 'parsed_piece_view.py', 'parse_utils.py'],
     [('ViewMatcher classes', 'pattern_matcher.py'),
      ('views', 'parsed_piece_view.py')],
     ['PatternMatcher.load', 'PatternMatcher.match'])

prop('C10', 'Matching is complete: no missed matches',
     'Every loaded pattern that can be read from a URL is reported for it, '
     'whatever else is loaded: components cut by runs, by joining letters, '
     'digits and %, at the last dot of the last path level, or not at all, with '
     'each part literal, of fixed or of any length. The order of the character '
     'spaces inside a class of the pattern text makes no difference.',
     ['inputs'],
     'all URLs, all patterns readable from them, all sets loaded with them',
     'The space of patterns per URL is combinatorial; tests pick a few.',
     ['pattern_matcher.py', 'parsed_piece_view.py', 'parse_utils.py',
      'pattern.py'],
     [('VIEW_MATCHERS', 'pattern_matcher.py'),
      ('view_cls_from_pattern', 'parsed_piece_view.py')],
     ['PatternMatcher.load', 'PatternMatcher.match'])

prop('C11', 'Patterns in a matcher do not influence each other',
     'For any loaded patterns, the result of matching a URL is the union of '
     'what each pattern reports when it is the only one loaded, each once, '
     'independent of load order, of earlier matches, of loads between matches '
     'and of other matchers. Loading a pattern again reports "not new" and only '
     'replaces its meta; any meta that is not None (also 0, empty string, '
     'False) is returned as given.',
     ['inputs', 'histories'],
     'all lists of patterns (also unusually spelled), all orders and '
     'interleavings of load and match',
     'Tests load a list once and match once.',
     ['pattern_matcher.py', 'utils.py'],
     [('match tree and view matcher tables', 'pattern_matcher.py'),
      ('build_tree', 'utils.py')],
     ['PatternMatcher.load', 'PatternMatcher.match'],
     [('ViewMatcher._matchers', 'patterns by key', 'pattern_matcher.py')])

prop('C12', 'The best match is a most specific pattern',
     'Sorting the matches of a URL puts any pattern before every pattern that '
     'is more general in some components and not more specific in any '
     '(literal before fixed length before any length, finer cut before coarser '
     'cut). The order is the same whatever the order in which the patterns were '
     'loaded or the results are handed to the sort, and the greatest result is '
     'the first of the descending order.',
     ['inputs', 'histories'],
     'all URLs, all sets of patterns readable from them, all load orders',
     'Tests sort one or two results for a single URL.',
     ['pattern_matcher.py'],
     [('MatchPattern.__lt__, cmp_key, PatternMatchNode.__lt__',
       'pattern_matcher.py')],
     ['sorted(PatternMatcher.match(url), reverse=True)'])

prop('C13', 'URLs are taken apart into exactly their structure',
     'Parsing a URL yields its path levels (empty inner levels dropped), its '
     'query keys in order, whether it has a fragment, and the component text at '
     'each position; scheme, host and path parameters have no influence. An '
     'empty query or fragment counts as present. A URL without path, with '
     'an empty query part (as in a&&b) or with a character outside the legal '
     'set in path, query or fragment is refused.',
     ['inputs'],
     'all http(s) URLs without TAB, CR and LF',
     'Tests list about ten URLs; the parser has special cases on positions '
     'counted from the end of the string.',
     ['parse_utils.py', 'parser.py', 'definition.py'],
     [('parse_url, parse_query_string, filter_useless, unpack, normalize',
       'parse_utils.py')],
     ['parse'])

prop('C14', 'Components split losslessly into maximal character-space runs',
     'A component is split into the maximal runs of lower-case letters, '
     'upper-case letters, digits or one repeated sign; letters and digits are '
     'kept, sign runs are written as [sign] or [sign]{n}, so that the original '
     'text can be recovered. The reported length is the number of characters '
     'and the reported character space is the set of spaces present, also when '
     'one parser is reused for many strings or after a refused one. Parsed '
     'components are equal, and hash equally, exactly when their texts are equal.',
     ['inputs', 'histories'],
     'all strings over the legal characters; strings with any other character '
     'are refused',
     'Tests list about twenty strings.',
     ['parse_utils.py', 'definition.py'],
     [('PieceParser, ParsedPiece.piece_length, fuzzy_rule, specify_rule',
       'parse_utils.py')],
     ['parse', 'PieceParser.parse'])

prop('C15', 'Pattern text is accepted iff well-formed and parses faithfully',
     'A pattern text is accepted exactly when every component is a sequence of '
     'letters, digits and classes [..] of known character spaces with optional '
     '{n} or +, where n is not smaller than the number of spaces in the class; '
     'otherwise it is refused. An accepted pattern parses into the path levels, '
     'query keys, fragment and component texts it shows, and prints back '
     'unchanged.',
     ['inputs'],
     'all ASCII pattern texts',
     'Tests try a dozen malformed strings.',
     ['parse_utils.py', 'pattern.py', 'parser.py', 'pattern_matcher.py'],
     [('parse_url_pattern_string, parse_pattern_string, '
       'parse_pattern_unit_string, pack', 'parse_utils.py')],
     ['PatternMatcher.load', 'parse'])

prop('C16', 'Bad input is refused cleanly and leaves no trace',
     'Whatever text string is passed to parsing, digesting, loading or '
     'matching, the call either succeeds or raises one of the documented '
     'exceptions (invalid char, invalid pattern, irregular URL, ValueError). A '
     'refused URL or pattern has no effect on what the same maker or matcher '
     'reports later.',
     ['inputs', 'fault_sequences', 'histories'],
     'all strings, all sequences of good and bad inputs on one object',
     'Tests feed a few bad strings to fresh objects.',
     ['parser.py', 'parse_utils.py', 'pattern_maker.py', 'pattern_matcher.py',
      'exceptions.py'],
     [('parse before any state change in load', 'pattern_maker.py'),
      ('parse before any state change in load', 'pattern_matcher.py')],
     ['parse', 'fuzzy_digest', 'PatternMaker.load', 'PatternMatcher.load',
      'PatternMatcher.match'])

prop('C17', 'pattern-match answers every input line, in order',
     'pattern-match writes exactly one line per input line, in input order: the '
     'best matching pattern (with -a all matching patterns), N when none '
     'matches or E when the line is not a valid URL, then a TAB and the input '
     'line without surrounding white space. Pattern files may contain other '
     'lines and invalid patterns, which are skipped; several files, stdin, '
     'CRLF, a missing final newline and invalid UTF-8 are handled line by line '
     'without failing.',
     ['inputs', 'configurations'],
     'all pattern files and inputs, all options',
     'Tests run the tool on a few clean files.',
     ['cmdline.py', 'pattern_matcher.py', 'compat.py'],
     [('MatchPatternCommand', 'cmdline.py')],
     ['stdout of pattern-match'])

prop('C18', 'pattern-make prints the clustering of the valid input lines',
     'pattern-make prints, in the chosen format (pattern, cluster, inline, '
     'json, ete or nothing), exactly the clustering that the API gives for the '
     'valid lines of all inputs, using min_cluster_num of the config file if '
     'one is given. Blank and invalid lines (bad characters, not a URL, invalid '
     'UTF-8) are skipped and do not affect the others; CRLF, surrounding white '
     'space, missing final newlines, several files and stdin make no '
     'difference.',
     ['inputs', 'configurations'],
     'all inputs, formats and config files',
     'Tests run the tool on a few clean files and look for substrings.',
     ['cmdline.py', 'formatter.py', 'config/__init__.py', 'compat.py'],
     [('MakePatternCommand', 'cmdline.py'), ('FORMATTERS', 'formatter.py')],
     ['stdout of pattern-make'])

prop('C19', 'The combined pattern tree shows the same clusters',
     'Combining the clusters of one structure gives one tree whose leaves are '
     'exactly the cluster patterns, each once, with the sum of the counts of '
     'its clusters; each inner node counts what is below it and the root counts '
     'all distinct paths. The ete text shows every node of the tree with its '
     'query key and count.',
     ['inputs', 'configurations'],
     'all URL sets, all min_cluster_num >= 2, made before or after the '
     'separate clusters',
     'One test looks for a substring of the ete text of one family.',
     ['pattern_maker.py', 'utils.py', 'formatter.py'],
     [('Maker._combine_clusters', 'pattern_maker.py'),
      ('build_tree', 'utils.py'), ('ETEFormatter', 'formatter.py')],
     ['Maker.make(combine=True)', "pformat('ete')"])

prop('C20', 'Every operation finishes in polynomially many steps',
     'Loading, clustering, formatting, pattern loading, matching and sorting '
     'finish for every input within a number of steps that is polynomial in '
     'its size (linear in the length of a URL or pattern for loading; for '
     'clustering, size times the logarithm of the number of URLs plus a term '
     'quadratic in the depth of a URL), including URLs with thousands of path '
     'levels, query keys or runs, without exhausting the stack.',
     ['inputs'],
     'all URL sets and pattern sets',
     'Tests use short URLs; loops without end and deep recursion need special '
     'ones.',
     ['pattern_cluster.py', 'utils.py', 'pattern_matcher.py',
      'parse_utils.py'],
     [('iterative tree walks', 'utils.py'),
      ('ClusterProcessor.process', 'pattern_cluster.py'),
      ('PatternMatchNode.match', 'pattern_matcher.py')],
     ['interpreter events while the API runs'])

prop('C21', 'Concurrent use gives the results of sequential use',
     'Threads that parse, digest, cluster and format with objects of their own, '
     'and threads that match with one shared, fully loaded matcher, get the '
     'same results as when they run one after the other, for every '
     'interleaving. The lazily produced clusters and formatted lines of several '
     'makers may be consumed alternately.',
     ['schedules', 'inputs'],
     'all interleavings of two to four threads, all inputs',
     'No test uses threads; a shared buffer shows only for particular switch '
     'points.',
     ['parser.py', 'parse_utils.py', 'pattern_matcher.py', 'formatter.py',
      'pattern_cluster.py'],
     [('one PieceParser per parse call', 'parser.py'),
      ('stateless formatters', 'formatter.py')],
     ['results of parse, fuzzy_digest, make, match and pformat in threads'])

prop('C22', 'Reported statistics are exact; logging never changes results',
     'With log level DEBUG pattern-make reports the numbers of all, empty, '
     'valid, invalid and distinct input lines, and pattern-match those of all, '
     'unknown, valid and invalid pattern lines, exactly, with one warning per '
     'invalid line and a progress record at each multiple of its interval. '
     'Records below the chosen level are not shown, and standard output is the '
     'same at every level and whatever the clock shows.',
     ['inputs', 'configurations'],
     'all inputs, all log levels',
     'No test reads the log.',
     ['cmdline.py', 'utils.py'],
     [('stats counters', 'cmdline.py'), ('LogSpeedAdapter', 'utils.py'),
      ('pretty_counter', 'utils.py')],
     ['stderr and stdout of the tools'])

prop('C23', 'Makers and matchers in one process do not influence each other',
     'What a maker or a matcher returns depends only on its own configuration '
     'and on the calls made on it, in their order: other makers and matchers '
     'in the same process, with other configurations, URLs, patterns or metas, '
     'and clusterings abandoned half way, never change it; nor does anything '
     'done earlier in the process change what parsing or digests return.',
     ['histories', 'configurations', 'inputs'],
     'all interleavings of calls on several makers, matchers and the parser',
     'Tests use one object at a time; state shared by accident shows only for '
     'particular histories.',
     ['pattern_maker.py', 'pattern_matcher.py', 'config/__init__.py',
      'parser.py', 'pattern_cluster.py', 'pattern.py'],
     [('Maker, PatternMaker', 'pattern_maker.py'),
      ('PatternMatcher', 'pattern_matcher.py'),
      ('get_default_config', 'config/__init__.py')],
     ['load, make, match, parse, fuzzy_digest in one process'])

prop('C24', 'Failed command line runs say so; files are only read',
     'A run of pattern-make or pattern-match with a wrong option or value, a '
     'missing or unreadable file, or a malformed configuration ends with a '
     'non-zero status and a message and writes nothing to standard output, '
     'while help and version succeed. A run that cannot read all of its input or write all of its output ends '
     'with a non-zero status, and what it wrote is a part of the output of the '
     'undisturbed run (for pattern-match a prefix). No '
     'run changes, removes or creates files.',
     ['configurations', 'fault_sequences', 'inputs'],
     'all argument lists, all read errors, all points at which output fails',
     'Tests use only right arguments and working files.',
     ['cmdline.py', 'compat.py', 'config/__init__.py'],
     [('argument parsing', 'cmdline.py'),
      ('MatchPatternCommand._match', 'cmdline.py'),
      ('MakePatternCommand.process_args', 'cmdline.py')],
     ['exit status, stdout, stderr and files of the tools'])

prop('C25', 'Memory in use depends on what is loaded, not on the calls made',
     'Parsing, digesting and matching, refused input, repeated loads of the '
     'same URL or pattern and repeated clustering leave no lasting memory '
     'behind, however many and however different the strings are. A maker or '
     'matcher that is dropped, also with a clustering abandoned half way, '
     'releases all it held.',
     ['histories', 'inputs'],
     'all sequences of calls, all strings',
     'Tests make a few calls and never measure memory.',
     ['parser.py', 'parse_utils.py', 'pattern_matcher.py', 'pattern_maker.py',
      'pattern_cluster.py', 'piece_pattern_node.py', 'utils.py'],
     [('parse', 'parser.py'), ('PatternMatcher.match', 'pattern_matcher.py'),
      ('build_tree', 'utils.py')],
     ['traced memory of the process around the calls'])

prop('C26', 'What generalises is decided by count, balance and cut alone',
     'With m = min_cluster_num, the URLs of one structure and equal character '
     'spaces are decided level by level, those with equal patterns so far '
     'together: fewer than m values stay literal unless they are balanced (m '
     'URLs or more in all, and the commonest value and all others each have m '
     'or more or differ by less than m-1); otherwise values are cut into their '
     'runs, then with letters, digits and % joined, then (last path level) at '
     'the last dot with the suffix kept, values cut alike are decided part by '
     'part by these rules, and the first result shared by m URLs is taken (the '
     'cut into runs is left out for name.suffix, for values with m runs more '
     'than joined parts, and for more than three runs that join into one). '
     'Values left over are taken whole: [class]+ when they have m different '
     'lengths or balanced ones, otherwise [class]{n} for each length with m '
     'values or balanced ones, otherwise literal. URLs with different results '
     'are then separated and each group is decided again, until nothing '
     'changes.',
     ['inputs', 'configurations'],
     'all sets of URLs, all min_cluster_num >= 2',
     'Tests have a dozen sets of URLs; the outcome depends on counts around '
     'the threshold in every combination of levels, cuts and lengths.',
     ['pattern_cluster.py', 'parsed_piece_view.py', 'piece_pattern_node.py',
      'parse_utils.py'],
     [('confused, the cluster classes, split_by_pattern',
       'pattern_cluster.py'),
      ('MixedView, LastDotSplitFuzzyView', 'parsed_piece_view.py'),
      ('mix', 'parse_utils.py')],
     ['PatternMaker.make', "pformat('pattern')"])

prop('C27', 'Cluster trees show exactly their URLs',
     'Every cluster is handed out as a tree whose root-to-leaf paths show the '
     'component texts of its URLs: each distinct path once, all leaves at the '
     'depth of the reported structure, no two children of a node alike. A '
     'leaf counts one and holds all metas of its path, every other node counts '
     'what is below it, and the level of a node is its distance from the root. '
     'The node that a load returns is the leaf of the path, new or not.',
     ['inputs', 'histories'],
     'all sequences of loads and clusterings',
     'Tests look at a few small trees; sharing, splitting and rebuilding of '
     'trees depend on the URLs.',
     ['utils.py', 'piece_pattern_node.py', 'pattern_cluster.py',
      'pattern_maker.py'],
     [('TreeNode, build_tree, dump_tree', 'utils.py'),
      ('build_from_parsed_pieces, build_from_piece_pattern_nodes',
       'piece_pattern_node.py'),
      ('split_by_pattern', 'pattern_cluster.py')],
     ['PatternMaker.load', 'PatternMaker.make', 'dump_tree'])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
