From b69bf40347faebf6d6943c1ce5ce5a95e03e0bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:56 +0000
Subject: [PATCH 01/11] fix: an escaped backslash does not escape the closing
 bracket

The pattern of a URL with a backslash, like [\\\\], could not be loaded.
---
 src/os_urlpattern/parse_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 56a46e5..ac5a582 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -655,7 +655,10 @@ def parse_pattern_string(pattern_string):
                 if idx < 0:
                     raise InvalidPatternException(
                         "Missing '%s'" % Symbols.BRACKETS_R)
-                elif pattern_string[idx - 1] == Symbols.BACKSLASH:
+                idx_b = idx - 1
+                while pattern_string[idx_b] == Symbols.BACKSLASH:
+                    idx_b -= 1
+                if (idx - idx_b) % 2 == 0:  # the bracket is escaped
                     continue
                 break
             if idx + 1 < l:
-- 
2.43.0


From b4879431e4958539ca87a7ecdd97349648f8d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:56 +0000
Subject: [PATCH 02/11] fix: literal length of pieces with backslash

The generated fixed-length pattern did not match the URL.
---
 src/os_urlpattern/parse_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index ac5a582..32b09eb 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -451,11 +451,10 @@ class ParsedPiece(object):
             while idx < length_base:
                 c = piece[idx]
                 if c == Symbols.BRACKETS_L or c == Symbols.BRACKETS_R:
-                    if idx == 0 or piece[idx - 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
                 elif c == Symbols.BACKSLASH:
-                    if piece[idx + 1] != Symbols.BACKSLASH:
-                        length += -1
+                    length += -1
+                    idx += 1  # skip the escaped char
                 elif c == Symbols.BRACES_L:
                     if piece[idx - 1] == Symbols.BRACKETS_R:
                         e = piece.index(Symbols.BRACES_R, idx)
-- 
2.43.0


From 27b452cb46e706db62cf63d1296be344954ba72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:56 +0000
Subject: [PATCH 03/11] fix: match mixed patterns with literal mixed parts

The pattern [0-9a-z]+[\\-]ab1 generated from URLs did not match them.
---
 src/os_urlpattern/pattern_matcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 7c57c06..440cfbe 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -156,8 +156,8 @@ class FuzzyPatternViewMatcher(ViewMatcher):
 VIEW_MATCHERS = [
     (PieceView, PiecePatternViewMatcher),
     (MultiView, MultiPatternViewMatcher),
-    (MixedView, MultiPatternViewMatcher),
-    (LastDotSplitFuzzyView, MultiPatternViewMatcher),
+    (MixedView, MixedPatternViewMatcher),
+    (LastDotSplitFuzzyView, MixedPatternViewMatcher),
     (LengthView, LengthPatternViewMatcher),
     (FuzzyView, FuzzyPatternViewMatcher),
 ]
-- 
2.43.0


From a955566928ba6c44c4aeffae87109dbc65796e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:56 +0000
Subject: [PATCH 04/11] fix: view of the patterns with last dot

The patterns [\\-a-z]+[\\.]mp3, [\\-a-z]+[\\.] and AA[\\.][0-9A-Za-z]+
generated from URLs did not match them.
---
 src/os_urlpattern/parsed_piece_view.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parsed_piece_view.py b/src/os_urlpattern/parsed_piece_view.py
index 00bcb75..fa52ef5 100644
--- a/src/os_urlpattern/parsed_piece_view.py
+++ b/src/os_urlpattern/parsed_piece_view.py
@@ -2,7 +2,8 @@
 """
 from __future__ import unicode_literals
 
-from .definition import DIGIT_AND_ASCII_RULE_SET, BasePatternRule
+from .definition import (DIGIT_AND_ASCII_RULE_SET, MIXED_RULE_SET,
+                         BasePatternRule)
 from .parse_utils import ParsedPiece, fuzzy_join, mix
 from .utils import pick
 
@@ -138,6 +139,22 @@ class FuzzyView(ParsedPieceView):
         return self._parsed_pieces
 
 
+def _is_last_dot_split(view_cls, pattern_units):
+    prefix, extension = pattern_units[0], pattern_units[2:]
+    for pattern_unit in extension:
+        if set(pattern_unit.rules) - DIGIT_AND_ASCII_RULE_SET:
+            return False
+    if all([u.is_literal() for u in extension]):
+        # Extension like 'mp3' has two units, it also can be empty.
+        return len(extension) == 1 \
+            or (view_cls == MixedView and len(extension) <= 2)
+    # MixedView covers everything but the prefix with symbols.
+    return len(extension) == 1 \
+        and (view_cls == MultiView
+             or (len(prefix.rules) > 1
+                 and bool(set(prefix.rules) - MIXED_RULE_SET)))
+
+
 def view_cls_from_pattern(pattern, is_last_path=False):
     """Get ParsedPieceView class from pattern.
 
@@ -169,11 +186,10 @@ def view_cls_from_pattern(pattern, is_last_path=False):
                 else:
                     view_cls = MultiView
         if is_last_path \
-                and len(pattern_units) == 3 \
                 and view_cls != PieceView \
                 and len(pattern_units[1].rules) == 1 \
                 and pick(pattern_units[1].rules) == BasePatternRule.DOT \
-                and not (set(pattern_units[-1].rules) - DIGIT_AND_ASCII_RULE_SET):
+                and _is_last_dot_split(view_cls, pattern_units):
             view_cls = LastDotSplitFuzzyView
 
     return view_cls
-- 
2.43.0


From 051d08be22585341b0af114d51b8714dd463be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:56 +0000
Subject: [PATCH 05/11] fix: pattern-make -c on python 3.12, readfp was removed

---
 src/os_urlpattern/cmdline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/cmdline.py b/src/os_urlpattern/cmdline.py
index cad3e69..512c006 100644
--- a/src/os_urlpattern/cmdline.py
+++ b/src/os_urlpattern/cmdline.py
@@ -91,7 +91,9 @@ class MakePatternCommand(Command):
     def process_args(self, args):
         super(MakePatternCommand, self).process_args(args)
         if args.config:
-            self._config.readfp(args.config[0])
+            read = getattr(self._config, 'read_file', None) \
+                or self._config.readfp
+            read(args.config[0])
 
     def add_argument(self, parser):
         super(MakePatternCommand, self).add_argument(parser)
-- 
2.43.0


From 8f35c6348ee7cfefd4b72e5d783223aed039e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:13 +0000
Subject: [PATCH 06/11] fix: reject invalid chars of the query key

They were all normalized to [None], so different keys shared one structure.
---
 src/os_urlpattern/parse_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 32b09eb..b003aca 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -126,6 +126,8 @@ def normalize(raw_string, reserved_chars=None):
                     normalized.write(w)
                     frag = StringIO()
         else:
+            if c not in CHAR_RULE_DICT:
+                raise InvalidCharException("Invalid char %r" % c)
             if last_c != c:
                 frag.seek(0)
                 w = frag.read()
-- 
2.43.0


From b12764d0d9937d2db8f1517693023168bae0bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:13 +0000
Subject: [PATCH 07/11] fix: reject empty URL with IrregularURLException, not
 IndexError

---
 src/os_urlpattern/parse_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index b003aca..572791d 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -168,11 +168,11 @@ def parse_url(url):
     """
     scheme, netloc, path, params, query, fragment = urlparse(url)
     if not fragment:
-        if url[-1] != Symbols.NUMBER:
+        if not url.endswith(Symbols.NUMBER):
             fragment = None
-            if not query and url[-1] != Symbols.QUESTION:
+            if not query and not url.endswith(Symbols.QUESTION):
                 query = None
-        elif not query and url[-2] != Symbols.QUESTION:
+        elif not query and not url[:-1].endswith(Symbols.QUESTION):
             query = None
     elif not query:
         if url[len(url) - len(fragment) - 2] != Symbols.QUESTION:
-- 
2.43.0


From 970ec68fc702ab1f24062494711daaddd9ab52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:13 +0000
Subject: [PATCH 08/11] fix: reject pattern unit without rule

The pattern /[]+ was loaded and matched http://example.com/
---
 src/os_urlpattern/parse_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index 572791d..c3aec3b 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -749,6 +749,6 @@ def parse_pattern_unit_string(pattern_unit_string):
                 raise InvalidPatternException("Invalid rule %r" % rule)
             rules.add(rule)
             idx += n
-    if (num > 0 and len(rules) > num) or num == 0:
+    if (num > 0 and len(rules) > num) or num == 0 or not rules:
         raise InvalidPatternException('Insufficient number')
     return rules, num
-- 
2.43.0


From 99a84d1dc3ed41f5f69e0f4a35a16757d468be97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:07 +0000
Subject: [PATCH 09/11] fix: counts of pattern units are ASCII digits

A pattern like '/[a-z]{\u0663}' was accepted and matched three letters although
as a regular expression it matches no such URL.
---
 src/os_urlpattern/parse_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index c3aec3b..cf50984 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -9,7 +9,7 @@ from collections import namedtuple
 from .compat import ParseResult, StringIO, urlparse
 from .definition import (ASCII_DIGIT_SET, BLANK_TUPLE, CHAR_RULE_DICT,
                          DEFAULT_ENCODING, DIGIT_AND_ASCII_RULE_SET,
-                         EMPTY_TUPLE, MIXED_RULE_SET,
+                         DIGIT_SET, EMPTY_TUPLE, MIXED_RULE_SET,
                          QUERY_PART_RESERVED_CHARS, RULE_SET, SIGN_RULE_SET,
                          BasePatternRule, Symbols)
 from .exceptions import (InvalidCharException, InvalidPatternException,
@@ -670,7 +670,7 @@ def parse_pattern_string(pattern_string):
                         raise InvalidPatternException(
                             "Missing '%s'" % Symbols.BRACES_R)
                     num_str = pattern_string[old_idx:idx]
-                    if not num_str.isdigit():
+                    if not num_str or not DIGIT_SET.issuperset(num_str):
                         raise InvalidPatternException(
                             "Invalid num %r" % num_str)
 
@@ -726,7 +726,7 @@ def parse_pattern_unit_string(pattern_unit_string):
         elif pattern_unit_string[-1] == Symbols.BRACES_R:
             t = pattern_unit_string.rfind(Symbols.BRACES_L)
             num_str = pattern_unit_string[t + 1:-1]
-            if not num_str.isdigit():
+            if not num_str or not DIGIT_SET.issuperset(num_str):
                 raise InvalidPatternException("Invalid num %r" % num_str)
             num = int(num_str)
         elif pattern_unit_string[-1] == Symbols.PLUS:
-- 
2.43.0


From 5690e770c38171900851232576024f81db903c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:49 +0000
Subject: [PATCH 10/11] fix: matching a text that is no URL is refused

PatternMatcher.match('/...') raised AttributeError or answered [], depending on
the patterns loaded; pattern-match answered such lines with E or N. It raises
ValueError now, as PatternMaker.load does.
---
 src/os_urlpattern/pattern_matcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/os_urlpattern/pattern_matcher.py b/src/os_urlpattern/pattern_matcher.py
index 440cfbe..06bc7c5 100644
--- a/src/os_urlpattern/pattern_matcher.py
+++ b/src/os_urlpattern/pattern_matcher.py
@@ -5,7 +5,8 @@ from __future__ import unicode_literals
 from functools import total_ordering
 
 from .definition import BasePatternRule
-from .parse_utils import MIXED_RULE_SET, PieceParser, fuzzy_join
+from .parse_utils import (MIXED_RULE_SET, ParsedPiece, PieceParser,
+                          fuzzy_join)
 from .parsed_piece_view import (FuzzyView, LastDotSplitFuzzyView, LengthView,
                                 MixedView, MultiView, PieceView,
                                 view_cls_from_pattern)
@@ -305,6 +306,8 @@ class PatternMatcher(object):
               Bound meta data can be accessed with node.meta.
         """
         url_meta, parsed_pieces = parse(url)
+        if not isinstance(parsed_pieces[0], ParsedPiece):
+            raise ValueError('Invalid URL')
         sid = fuzzy_digest(url_meta, parsed_pieces)
         if sid in self._matchers:
             return self._matchers[sid].match(parsed_pieces)
-- 
2.43.0


From e1f7f32389e6a79242a9a38488bd4e9fe89f0fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:57 +0000
Subject: [PATCH 11/11] fix: tabs and line ends in a URL are invalid characters

urlparse drops them (since python 3.6.14, 3.7.11, ...), so that
'http://h/a<TAB>b' was accepted and clustered as '/ab'.
---
 src/os_urlpattern/parse_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/os_urlpattern/parse_utils.py b/src/os_urlpattern/parse_utils.py
index cf50984..992b6fa 100644
--- a/src/os_urlpattern/parse_utils.py
+++ b/src/os_urlpattern/parse_utils.py
@@ -163,9 +163,16 @@ def parse_url(url):
     Args:
         url (str): The URL to be parsed.
 
+    Raises:
+        InvalidCharException: The built-in urlparse silently drops tabs and
+            line ends.
+
     Returns:
         ParseResult: A 6-tuple, (scheme, netloc, path, params, query, fragment).
     """
+    for c in '\t\r\n':
+        if c in url:
+            raise InvalidCharException("Invalid char %r" % c)
     scheme, netloc, path, params, query, fragment = urlparse(url)
     if not fragment:
         if not url.endswith(Symbols.NUMBER):
-- 
2.43.0

