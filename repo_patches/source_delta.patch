From f7c4e19e4fb37216565f8c3d6cd8bde565bd43d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 01/12] fix: pattern-make -c crashed, ConfigParser.readfp is
 gone in Python 3.12

---
 src/os_urlpattern/cmdline.py | 4 ++--
 src/os_urlpattern/compat.py  | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/os_urlpattern/cmdline.py b/src/os_urlpattern/cmdline.py
index cad3e69..e87feb1 100644
--- a/src/os_urlpattern/cmdline.py
+++ b/src/os_urlpattern/cmdline.py
@@ -17,7 +17,7 @@ from collections import Counter
 from itertools import chain
 
 from . import __version__
-from .compat import binary_stdin, binary_stdout
+from .compat import binary_stdin, binary_stdout, read_config
 from .config import get_default_config
 from .definition import DEFAULT_ENCODING
 from .exceptions import (InvalidCharException, InvalidPatternException,
@@ -91,7 +91,7 @@ class MakePatternCommand(Command):
     def process_args(self, args):
         super(MakePatternCommand, self).process_args(args)
         if args.config:
-            self._config.readfp(args.config[0])
+            read_config(self._config, args.config[0])
 
     def add_argument(self, parser):
         super(MakePatternCommand, self).add_argument(parser)
diff --git a/src/os_urlpattern/compat.py b/src/os_urlpattern/compat.py
index 7954151..74daeca 100644
--- a/src/os_urlpattern/compat.py
+++ b/src/os_urlpattern/compat.py
@@ -14,6 +14,7 @@ if _PY3:
     itervalues = operator.methodcaller("values")
     from urllib.parse import urlparse, ParseResult
     from configparser import ConfigParser
+    read_config = ConfigParser.read_file
     binary_stdin = sys.stdin.buffer
     binary_stdout = sys.stdout.buffer
 else:
@@ -25,5 +26,6 @@ else:
     itervalues = operator.methodcaller("itervalues")
     from urlparse import urlparse, ParseResult
     from ConfigParser import ConfigParser
+    read_config = ConfigParser.readfp
     binary_stdin = sys.stdin
     binary_stdout = sys.stdout
-- 
2.43.0


From b7c7cb7738c39d12446ef1cb7f729852c5fc387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 02/12] fix: mixed patterns with a literal made of several
 character spaces never matched

'/[0-9a-z]+[\\-]ab12' was indexed by the spaces of 'ab' and '12' while the
URL side joins them, so a URL did not match the pattern made from it.
---
 src/os_urlpattern/pattern_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 7c57c06..f851c9b 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -156,7 +156,7 @@ class FuzzyPatternViewMatcher(ViewMatcher):
 VIEW_MATCHERS = [
     (PieceView, PiecePatternViewMatcher),
     (MultiView, MultiPatternViewMatcher),
-    (MixedView, MultiPatternViewMatcher),
+    (MixedView, MixedPatternViewMatcher),
     (LastDotSplitFuzzyView, MultiPatternViewMatcher),
     (LengthView, LengthPatternViewMatcher),
     (FuzzyView, FuzzyPatternViewMatcher),
-- 
2.43.0


From 5c337708989bf4094da1433d0e23d56d3199c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 03/12] fix: last-dot-split patterns did not match the URLs
 they were made from

'[\\-a-z]+[\\.]mp3' and '[\\-a-z]+[\\.]' were not recognized as split by the
last dot, and '[0-9a-z]+[\\.][0-9a-z]+' only matched names whose suffix has
at most two character space runs.
---
 src/os_urlpattern/parsed_piece_view.py | 12 +++++++++++-
 src/os_urlpattern/pattern_matcher.py   | 17 +++++++++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parsed_piece_view.py b/src/os_urlpattern/parsed_piece_view.py
index 00bcb75..c286329 100644
--- a/src/os_urlpattern/parsed_piece_view.py
+++ b/src/os_urlpattern/parsed_piece_view.py
@@ -2,7 +2,8 @@
 """
 from __future__ import unicode_literals
 
-from .definition import DIGIT_AND_ASCII_RULE_SET, BasePatternRule
+from .definition import (DIGIT_AND_ASCII_RULE_SET, MIXED_RULE_SET,
+                         BasePatternRule)
 from .parse_utils import ParsedPiece, fuzzy_join, mix
 from .utils import pick
 
@@ -175,5 +176,14 @@ def view_cls_from_pattern(pattern, is_last_path=False):
                 and pick(pattern_units[1].rules) == BasePatternRule.DOT \
                 and not (set(pattern_units[-1].rules) - DIGIT_AND_ASCII_RULE_SET):
             view_cls = LastDotSplitFuzzyView
+        elif is_last_path \
+                and view_cls == MixedView \
+                and pattern_units[0].rules - MIXED_RULE_SET \
+                and len(pattern_units[0].rules) > 1 \
+                and pattern_units[1].rules == set([BasePatternRule.DOT]) \
+                and all([u.is_literal() and u.rules <= DIGIT_AND_ASCII_RULE_SET
+                         for u in pattern_units[2:]]):
+            # like: [\\-a-z]+[\\.]mp3  [\\-a-z]+[\\.]
+            view_cls = LastDotSplitFuzzyView
 
     return view_cls
diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index f851c9b..734ebad 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -66,8 +66,11 @@ class ViewMatcher(object):
     def add_match_node(self, match_node):
         pass
 
+    def _get_view(self, parsed_piece):
+        return self.view_cls(parsed_piece)
+
     def match(self, parsed_piece):
-        view = self.view_cls(parsed_piece)
+        view = self._get_view(parsed_piece)
         if view.view not in self._matchers:
             return []
         parsed_pieces = view.parsed_pieces
@@ -140,6 +143,16 @@ class MixedPatternViewMatcher(MultiPatternViewMatcher):
         build_tree(matcher, patterns, meta=match_node)
 
 
+class LastDotSplitFuzzyPatternViewMatcher(MixedPatternViewMatcher):
+
+    def _get_view(self, parsed_piece):
+        view = super(LastDotSplitFuzzyPatternViewMatcher,
+                     self)._get_view(parsed_piece)
+        if len(view.parsed_pieces) == 1:  # can not be splited by last dot
+            view = MixedView(parsed_piece)
+        return view
+
+
 class FuzzyPatternViewMatcher(ViewMatcher):
 
     def __init__(self, view_cls):
@@ -157,7 +170,7 @@ VIEW_MATCHERS = [
     (PieceView, PiecePatternViewMatcher),
     (MultiView, MultiPatternViewMatcher),
     (MixedView, MixedPatternViewMatcher),
-    (LastDotSplitFuzzyView, MultiPatternViewMatcher),
+    (LastDotSplitFuzzyView, LastDotSplitFuzzyPatternViewMatcher),
     (LengthView, LengthPatternViewMatcher),
     (FuzzyView, FuzzyPatternViewMatcher),
 ]
-- 
2.43.0


From cc804a4a5fc72574e1124a715dfdf42e3ab5fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 04/12] fix: a fixed length pattern hid an earlier one with its
 character spaces in another order

---
 src/os_urlpattern/pattern_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 734ebad..806e526 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -95,7 +95,7 @@ class LengthPatternViewMatcher(ViewMatcher):
 
     def add_match_node(self, match_node):
         length = match_node.pattern.pattern_units[0].num
-        self._matchers[length] = [match_node]
+        self._matchers.setdefault(length, []).append(match_node)
 
     def match(self, parsed_piece):
         return [] if parsed_piece.piece_length not in self._matchers \
-- 
2.43.0


From efb07fd3597b2b243c2e689539688968385f00b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 05/12] fix: wrong length and unloadable pattern for URLs with
 a backslash

---
 src/os_urlpattern/parse_utils.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 56a46e5..667267c 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -451,11 +451,10 @@ class ParsedPiece(object):
             while idx < length_base:
                 c = piece[idx]
                 if c == Symbols.BRACKETS_L or c == Symbols.BRACKETS_R:
-                    if idx == 0 or piece[idx - 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
                 elif c == Symbols.BACKSLASH:
-                    if piece[idx + 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
+                    idx += 1  # skip the escaped char
                 elif c == Symbols.BRACES_L:
                     if piece[idx - 1] == Symbols.BRACKETS_R:
                         e = piece.index(Symbols.BRACES_R, idx)
@@ -650,14 +649,13 @@ def parse_pattern_string(pattern_string):
                 last_rule = None
 
             idx_s = idx
-            while True:
-                idx = pattern_string.find(Symbols.BRACKETS_R, idx + 1)
-                if idx < 0:
-                    raise InvalidPatternException(
-                        "Missing '%s'" % Symbols.BRACKETS_R)
-                elif pattern_string[idx - 1] == Symbols.BACKSLASH:
-                    continue
-                break
+            idx += 1
+            while idx < l and pattern_string[idx] != Symbols.BRACKETS_R:
+                # skip the escaped char
+                idx += 2 if pattern_string[idx] == Symbols.BACKSLASH else 1
+            if idx >= l:
+                raise InvalidPatternException(
+                    "Missing '%s'" % Symbols.BRACKETS_R)
             if idx + 1 < l:
                 if pattern_string[idx + 1] == Symbols.BRACES_L:
                     old_idx = idx + 2
-- 
2.43.0


From 39f5090f2cde66393b68ab876fc62346549d8f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 06/12] fix: invalid chars in query keys were accepted and
 became the pattern [None]

---
 src/os_urlpattern/parse_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 667267c..4c5b81d 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -100,6 +100,9 @@ def normalize(raw_string, reserved_chars=None):
         reserved_chars ([type], optional): Defaults to None. Reserved chars
             which are not to be normalized.
 
+    Raises:
+        InvalidCharException: Invalid char in the string.
+
     Returns:
         str: The normalized string.
 
@@ -114,6 +117,8 @@ def normalize(raw_string, reserved_chars=None):
     frag = StringIO()
     last_c = None
     for c in raw_string:
+        if c not in CHAR_RULE_DICT:
+            raise InvalidCharException("Invalid char %r" % c)
         if c in ASCII_DIGIT_SET:
             if last_c and last_c not in ASCII_DIGIT_SET:
                 frag.seek(0)
-- 
2.43.0


From b79190a1e88ed317246d7fc5a454b31edad1dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 07/12] fix: IndexError instead of IrregularURLException for
 the URLs '' and '#'

---
 src/os_urlpattern/parse_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 4c5b81d..ca9f2c9 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -171,11 +171,11 @@ def parse_url(url):
     """
     scheme, netloc, path, params, query, fragment = urlparse(url)
     if not fragment:
-        if url[-1] != Symbols.NUMBER:
+        if url[-1:] != Symbols.NUMBER:
             fragment = None
-            if not query and url[-1] != Symbols.QUESTION:
+            if not query and url[-1:] != Symbols.QUESTION:
                 query = None
-        elif not query and url[-2] != Symbols.QUESTION:
+        elif not query and url[-2:-1] != Symbols.QUESTION:
             query = None
     elif not query:
         if url[len(url) - len(fragment) - 2] != Symbols.QUESTION:
-- 
2.43.0


From 2b128c2fd462e2dc9ec20ac4b47da687f710a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:53 +0000
Subject: [PATCH 08/12] fix: matching a string that is not a URL failed with
 AttributeError or matched by accident

---
 src/os_urlpattern/pattern_matcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 806e526..1182870 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -318,6 +318,8 @@ class PatternMatcher(object):
               Bound meta data can be accessed with node.meta.
         """
         url_meta, parsed_pieces = parse(url)
+        if isinstance(parsed_pieces[0], MatchPattern):
+            raise ValueError('Invalid URL')
         sid = fuzzy_digest(url_meta, parsed_pieces)
         if sid in self._matchers:
             return self._matchers[sid].match(parsed_pieces)
-- 
2.43.0


From d9a8a8dac48af4fb73aa009f43a3fbfa8309095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 09/12] fix: RecursionError for URLs with very many path levels
 or character space runs

One such line ended pattern-make for the whole input.
---
 src/os_urlpattern/pattern_cluster.py | 16 +++++++-----
 src/os_urlpattern/pattern_matcher.py | 39 ++++++++++++++--------------
 src/os_urlpattern/utils.py           | 29 +++++++++++----------
 3 files changed, 45 insertions(+), 39 deletions(-)

diff --git a/src/os_urlpattern/pattern_cluster.py b/src/os_urlpattern/pattern_cluster.py
index 4fb9584..55b3de9 100644
--- a/src/os_urlpattern/pattern_cluster.py
+++ b/src/os_urlpattern/pattern_cluster.py
@@ -623,14 +623,16 @@ class ClusterProcessor(object):
         return sum([c.pattern_num for c in itervalues(self._pattern_clusters)])
 
     def process(self):
-        self._process()
-        if self.is_last_level():
-            return
-
-        self._create_next_level_processors()
+        processors = [self]
+        while processors:  # not recursive, there may be a lot of levels
+            processor = processors.pop(-1)
+            processor._process()
+            if processor.is_last_level():
+                continue
 
-        for processor in itervalues(self._next_level_processors):
-            processor.process()
+            processor._create_next_level_processors()
+            processors.extend(
+                reversed(list(processor.next_level_processors)))
 
     def _create_next_level_processors(self):
 
diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 1182870..b7cb2f5 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -220,20 +220,20 @@ class PatternMatchNode(TreeNode):
             matched_nodes (list of PatternMatchNode): Filled with all of the
                 matched leaf nodes.
         """
-        parsed_piece = parsed_pieces[idx]
-        for matcher in self._view_matchers:
-            nodes = matcher.match(parsed_piece)
-            if not nodes:
-                continue
-            if nodes[0].leaf():
-                matched_nodes.extend(nodes)
-                continue
-            self._deep_match(nodes, parsed_pieces, idx + 1,
-                             matched_nodes)
-
-    def _deep_match(self, nodes, parsed_pieces, idx, matched_nodes):
-        for node in nodes:
-            node.match(parsed_pieces, idx, matched_nodes)
+        pending = [(self, idx)]
+        while pending:  # not recursive, the tree may be very deep
+            match_node, idx = pending.pop(-1)
+            parsed_piece = parsed_pieces[idx]
+            next_nodes = []
+            for matcher in match_node._view_matchers:
+                nodes = matcher.match(parsed_piece)
+                if not nodes:
+                    continue
+                if nodes[0].leaf():
+                    matched_nodes.extend(nodes)
+                    continue
+                next_nodes.extend(nodes)
+            pending.extend([(n, idx + 1) for n in reversed(next_nodes)])
 
     def _get_matcher(self, view_cls):
         s = 0
@@ -267,11 +267,12 @@ class PatternMatchNode(TreeNode):
         return child, is_new
 
     def __lt__(self, other):
-        if id(self) == id(other) or self.parrent is None:
-            return False
-        if self.pattern == other.pattern:
-            return self.parrent < other.parrent
-        return self.pattern < other.pattern
+        node = self
+        while node is not other and node.parrent is not None:
+            if node.pattern != other.pattern:
+                return node.pattern < other.pattern
+            node, other = node.parrent, other.parrent
+        return False
 
 
 class PatternMatcher(object):
diff --git a/src/os_urlpattern/utils.py b/src/os_urlpattern/utils.py
index b72accc..0eb0a17 100644
--- a/src/os_urlpattern/utils.py
+++ b/src/os_urlpattern/utils.py
@@ -157,20 +157,23 @@ def dump_tree(root):
     Yields:
         list: List contains nodes from root to leaf as one path.
     """
-    olist = []
-
-    def _dump(node, _nodes):
-        _nodes.append(node)
-        if node.leaf():
-            yield _nodes
-            return
-        for child in node.children:
-            for nodes in _dump(child, _nodes):
-                yield nodes
-            _nodes.pop(-1)
-
-    for nodes in _dump(root, olist):
+    nodes = [root]
+    if root.leaf():
         yield nodes
+        return
+    pending = [iter(root.children)]
+    while pending:  # not recursive, the tree may be very deep
+        node = next(pending[-1], None)
+        if node is None:
+            pending.pop(-1)
+            nodes.pop(-1)
+            continue
+        nodes.append(node)
+        if node.leaf():
+            yield nodes
+            nodes.pop(-1)
+        else:
+            pending.append(iter(node.children))
 
 
 class LogSpeedAdapter(logging.LoggerAdapter):
-- 
2.43.0


From d9b6c3270ef18c07a0b8c18827acb66f67d14073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 10/12] fix: patterns with an empty character class were
 accepted, /[]+ matched the root URL

---
 src/os_urlpattern/parse_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index ca9f2c9..a7273d3 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -748,6 +748,8 @@ def parse_pattern_unit_string(pattern_unit_string):
                 raise InvalidPatternException("Invalid rule %r" % rule)
             rules.add(rule)
             idx += n
+        if not rules:
+            raise InvalidPatternException('Missing rule')
     if (num > 0 and len(rules) > num) or num == 0:
         raise InvalidPatternException('Insufficient number')
     return rules, num
-- 
2.43.0


From c76e16dd3d0437544258c6b1fc2e626f130cde59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:50 +0000
Subject: [PATCH 11/12] fix: patterns with non-ASCII digits as a number, like
 [a-z]{\u0663}, were accepted

---
 src/os_urlpattern/parse_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index a7273d3..428e203 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -4,6 +4,7 @@
 from __future__ import unicode_literals
 
 import hashlib
+import string
 from collections import namedtuple
 
 from .compat import ParseResult, StringIO, urlparse
@@ -669,7 +670,7 @@ def parse_pattern_string(pattern_string):
                         raise InvalidPatternException(
                             "Missing '%s'" % Symbols.BRACES_R)
                     num_str = pattern_string[old_idx:idx]
-                    if not num_str.isdigit():
+                    if not num_str or num_str.strip(string.digits):
                         raise InvalidPatternException(
                             "Invalid num %r" % num_str)
 
@@ -725,7 +726,7 @@ def parse_pattern_unit_string(pattern_unit_string):
         elif pattern_unit_string[-1] == Symbols.BRACES_R:
             t = pattern_unit_string.rfind(Symbols.BRACES_L)
             num_str = pattern_unit_string[t + 1:-1]
-            if not num_str.isdigit():
+            if not num_str or num_str.strip(string.digits):
                 raise InvalidPatternException("Invalid num %r" % num_str)
             num = int(num_str)
         elif pattern_unit_string[-1] == Symbols.PLUS:
-- 
2.43.0


From 6f7adcfa5fb6bb05a3905128917fe8b4d544bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:42 +0000
Subject: [PATCH 12/12] fix: progress records fail when the clock has not
 advanced

The average speed was computed by dividing by the time since the start: a
clock that is coarse, stands still or is set back to the start ended the run
with ZeroDivisionError, at every log level.
---
 src/os_urlpattern/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/utils.py b/src/os_urlpattern/utils.py
index 0eb0a17..e7a3c56 100644
--- a/src/os_urlpattern/utils.py
+++ b/src/os_urlpattern/utils.py
@@ -211,7 +211,9 @@ class LogSpeedAdapter(logging.LoggerAdapter):
             getattr(self.logger, name)(msg, *args, **kwargs)
 
     def _speed(self):
-        return self._count / (time.time() - self._start_time)
+        elapsed = time.time() - self._start_time
+        # the clock may not have advanced or may have been set back
+        return self._count / elapsed if elapsed > 0 else 0.0
 
     def __enter__(self):
         self._start_time = time.time()
-- 
2.43.0

