From 92f4f3da89040c3de0fbf35d05a5dc915afa3131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 1/9] fix: don't raise for letters without a Unicode name

unicodedata.name raises ValueError for such letters (e.g. Tangut or Hangul
Jamo Extended code points in older databases), so parsing a word which
contains them failed.
---
 pymorphy2/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index e203981..1e8eb5c 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -14,7 +14,7 @@ def is_latin_char(uchr):
     except KeyError:
         if isinstance(uchr, bytes):
             uchr = uchr.decode('ascii')
-        is_latin = 'LATIN' in unicodedata.name(uchr)
+        is_latin = 'LATIN' in unicodedata.name(uchr, '')
         return _latin_letters_cache.setdefault(uchr, is_latin)
 
 
-- 
2.43.0


From 8e461f3f4f42b1646f709cfc750eb4b269a4f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 2/9] fix: a Roman number followed by a newline is not a Roman
 number

$ matches before a trailing newline; \Z matches only at the end.
---
 pymorphy2/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/shapes.py b/pymorphy2/shapes.py
index 1e8eb5c..934c013 100644
--- a/pymorphy2/shapes.py
+++ b/pymorphy2/shapes.py
@@ -69,7 +69,7 @@ def is_punctuation(token):
 
 
 # The regex is from "Dive into Python" book.
-ROMAN_NUMBERS_RE = re.compile("""
+ROMAN_NUMBERS_RE = re.compile(r"""
     M{0,4}              # thousands - 0 to 4 M's
     (CM|CD|D?C{0,3})    # hundreds - 900 (CM), 400 (CD), 0-300 (0 to 3 C's),
                         #            or 500-800 (D, followed by 0 to 3 C's)
@@ -77,7 +77,7 @@ ROMAN_NUMBERS_RE = re.compile("""
                         #        or 50-80 (L, followed by 0 to 3 X's)
     (IX|IV|V?I{0,3})    # ones - 9 (IX), 4 (IV), 0-3 (0 to 3 I's),
                         #        or 5-8 (V, followed by 0 to 3 I's)
-    $                   # end of string
+    \Z                  # end of string
 """, re.VERBOSE | re.IGNORECASE)
 
 def is_roman_number(token, _match=ROMAN_NUMBERS_RE.match):
-- 
2.43.0


From 9d770d399587998c245bd2922a6eeac43f9b5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 3/9] fix: don't let redundant case grammemes survive tag
 simplification

When a spelling with loc1/gen1/acc1 was the most frequent one, other
spellings were replaced with it.
---
 pymorphy2/opencorpora_dict/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/preprocess.py b/pymorphy2/opencorpora_dict/preprocess.py
index 7247cc5..f9c280a 100644
--- a/pymorphy2/opencorpora_dict/preprocess.py
+++ b/pymorphy2/opencorpora_dict/preprocess.py
@@ -76,7 +76,7 @@ def _get_tag_spellings(parsed_dict):
     """
     spellings = collections.defaultdict(lambda: collections.defaultdict(int))
     for tag in _itertags(parsed_dict):
-        spellings[tag2grammemes(tag)][tag] += 1
+        spellings[tag2grammemes(tag)][replace_redundant_grammemes(tag)] += 1
     return spellings
 
 
-- 
2.43.0


From ce3d5e32f666b61fe7f4090a8d3e9815cfbcb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 4/9] fix: keep the lexeme when links form a cycle

A lexeme linked to itself (directly or via other links) was extended with
its own forms and then cleared; following links never ended after that.
---
 pymorphy2/opencorpora_dict/compile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index e6a95e5..b54d06d 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -225,6 +225,10 @@ def _join_lexemes(lexemes, links):
         while to_id in moves:
             to_id = moves[to_id]
 
+        if to_id == from_id:
+            # linked lexemes are already joined
+            return
+
         lexemes[str(to_id)].extend(lm)
         del lm[:]
         moves[from_id] = to_id
-- 
2.43.0


From 393f07ef3bdeba2e83f391c026b36585fd2ba143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 5/9] fix: don't return shared sets from
 numeral_agreement_grammemes

Changing a returned set changed the agreement rules of all tags.
---
 pymorphy2/tagset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index e294a6f..8dee3d5 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -509,7 +509,7 @@ class OpencorporaTag(object):
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[3]
         else:
             grammemes = self._NUMERAL_AGREEMENT_GRAMMEMES[4]
-        return grammemes
+        return set(grammemes)
 
     #@classmethod
     #def _clone_class(cls):
-- 
2.43.0


From d45b9b261a638c6c6d90068f31d95055afd1f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 6/9] fix: don't carry incompatible grammemes over from other
 dictionaries

_EXTRA_INCOMPATIBLE was expanded in place, so that grammemes of previously
loaded dictionaries stayed there.
---
 pymorphy2/tagset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymorphy2/tagset.py b/pymorphy2/tagset.py
index 8dee3d5..78744b5 100644
--- a/pymorphy2/tagset.py
+++ b/pymorphy2/tagset.py
@@ -460,14 +460,16 @@ class OpencorporaTag(object):
                 children[gr[parent]].add(name)
 
         # expand EXTRA_INCOMPATIBLE
+        extra_incompatible = {}
         for grammeme, g_set in cls._EXTRA_INCOMPATIBLE.items():
-            for g in g_set.copy():
-                g_set.update(children[g])
+            extra_incompatible[grammeme] = g_set.copy()
+            for g in g_set:
+                extra_incompatible[grammeme].update(children[g])
 
         # fill GRAMMEME_INDICES and GRAMMEME_INCOMPATIBLE
         for index, (name, parent, alias, description) in enumerate(dict_grammemes):
             cls._GRAMMEME_INDICES[name] = index
-            incompatible = cls._EXTRA_INCOMPATIBLE.get(name, set())
+            incompatible = extra_incompatible.get(name, set())
             incompatible = (incompatible | children[parent]) - set([name])
 
             cls._GRAMMEME_INCOMPATIBLE[name] = frozenset(incompatible)
-- 
2.43.0


From af69a523fe00ae98b34c4e42176e6fbfef0f4f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 7/9] fix: pickle all MorphAnalyzer options

probability_estimator_cls and char_substitutes were lost.
---
 pymorphy2/analyzer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pymorphy2/analyzer.py b/pymorphy2/analyzer.py
index 7c27e70..f790a2f 100644
--- a/pymorphy2/analyzer.py
+++ b/pymorphy2/analyzer.py
@@ -17,7 +17,14 @@ logger = logging.getLogger(__name__)
 _Parse = collections.namedtuple('Parse', 'word, tag, normal_form, score, methods_stack')
 
 _score_getter = operator.itemgetter(3)
-auto = object()
+
+
+class _Auto(object):
+    """ Type of ``auto`` constant; it makes the constant picklable. """
+    def __reduce__(self):
+        return str('auto')
+
+auto = _Auto()
 
 
 class Parse(_Parse):
@@ -193,6 +200,8 @@ class MorphAnalyzer(object):
         # save arguments for pickling/unpickling
         self._path = path
         self._lang = lang
+        self._probability_estimator_cls = probability_estimator_cls
+        self._char_substitutes = char_substitutes
 
         if path is None and lang is None:
             lang = 'ru'
@@ -440,5 +449,6 @@ class MorphAnalyzer(object):
         return self.TagClass.lat2cyr(tag_or_grammeme)
 
     def __reduce__(self):
-        args = (self._path, self._lang, self._result_type_orig, self._units_unbound)
+        args = (self._path, self._lang, self._result_type_orig, self._units_unbound,
+                self._probability_estimator_cls, self._char_substitutes)
         return self.__class__, args, None
-- 
2.43.0


From a5481e2156522db0f78ca0255b365cf37c875a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 8/9] fix: make upper-case Ukrainian prefixes match

Prefixes are compared with lower-cased words.
---
 pymorphy2/lang/uk/_prefixes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymorphy2/lang/uk/_prefixes.py b/pymorphy2/lang/uk/_prefixes.py
index 082f757..ea7cd59 100644
--- a/pymorphy2/lang/uk/_prefixes.py
+++ b/pymorphy2/lang/uk/_prefixes.py
@@ -341,7 +341,7 @@ Y
 
 # TODO: prefixes without a hyphen?
 KNOWN_PREFIXES = [
-    line.strip() + "-"
+    line.strip().lower() + "-"
     for line in _DASH_PREFIXES.split("\n")
     if line.strip()
 ]
-- 
2.43.0


From 3bfccaf3ea8b5375786c07509578b901106c2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:12 +0000
Subject: [PATCH 9/9] fix: count every ending of a word once when preparing
 prediction data

When a word is shorter than max_suffix_length, word[-i:] is the whole word
for several values of i, so the whole word was counted several times and an
ending passed min_ending_freq although it occurs once.
---
 pymorphy2/opencorpora_dict/compile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymorphy2/opencorpora_dict/compile.py b/pymorphy2/opencorpora_dict/compile.py
index b54d06d..10dd3cb 100644
--- a/pymorphy2/opencorpora_dict/compile.py
+++ b/pymorphy2/opencorpora_dict/compile.py
@@ -321,7 +321,10 @@ def _suffixes_prediction_data(words, paradigm_popularity, gramtab, paradigms, su
 
         POS = tuple(tag.replace(' ', ',', 1).split(','))[0]
 
-        for i in range(max(len(form_suffix), 1), max_suffix_length+1): #was: 1,2,3,4,5
+        # word[-i:] is the whole word for all i >= len(word), count it only once
+        max_end_length = min(max_suffix_length, len(word))
+
+        for i in range(max(len(form_suffix), 1), max_end_length+1): #was: 1,2,3,4,5
             word_end = word[-i:]
             ending_counts[word_end] += 1
             prefix_endings[form_prefix_id][word_end][POS][(para_id, idx)] += 1
-- 
2.43.0

