From c7481e38aa5024dda126f8b509cf02d663ddfc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:33 +0000
Subject: [PATCH 01/29] fix: do not match a token past the end of the input in
 match_at

At the last token the search did not advance, so a rule could consume the
final whitespace token twice, and the context of a rule that ends with it
was looked up one token too early.
---
 graphtransliterator/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index d102b83..a512730 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -712,7 +712,9 @@ class GraphTransliterator:
             children = None
             ordered_children = graph_node[node_key].get("ordered_children")
             if ordered_children:
-                children = ordered_children.get(tokens[token_i])
+                # A rule may consume the last token, leaving none to match.
+                if token_i < len(tokens):
+                    children = ordered_children.get(tokens[token_i])
                 if children:
                     # reordered high to low for stack:
                     for child_key in reversed(children):
@@ -745,9 +747,7 @@ class GraphTransliterator:
                 else:
                     return curr_node["rule_key"]
             else:
-                if token_i < len(tokens) - 1:
-                    token_i += 1
-                _append_children(node_key, token_i)
+                _append_children(node_key, token_i + 1)
         if match_all:
             return matches
 
-- 
2.43.0


From deda8c937f7f31c2b909f933938d54c949560f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 02/29] fix: return the least costly matching rule from
 match_at

The depth-first search stopped at the first matching rule. A token edge is
ordered by the least costly rule below it, so when that rule did not match, a
more costly rule in the same subtree was returned although a less costly one
matched in another.
---
 graphtransliterator/core.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index a512730..c97f38b 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -706,6 +706,7 @@ class GraphTransliterator:
         graph_edge = graph.edge
         if match_all:
             matches = []
+        best_key = None  # least costly matching rule found so far
         stack = deque()
 
         def _append_children(node_key, token_i):
@@ -733,23 +734,31 @@ class GraphTransliterator:
         while stack:  # LIFO
             node_key, parent_key, token_i = stack.popleft()
 
-            curr_node = graph_node[node_key]
             # Constraints are only on preceding edge if it is accepting
             # But edge is accessed regardless to test coverage
             incident_edge = graph_edge[parent_key][node_key]
+            # An edge costs as much as the least costly rule following it. Skip it
+            # if that cannot be less costly than the best match.
+            if (
+                best_key is not None
+                and incident_edge["cost"] >= self._rules[best_key].cost
+            ):
+                continue
+            curr_node = graph_node[node_key]
             # Pass edge, curr_node, token index, and tokens to check constraints
             if curr_node.get("accepting") and self._match_constraints(
                 incident_edge, curr_node, token_i, tokens
             ):
                 if match_all:
                     matches.append(curr_node["rule_key"])
-                    continue
                 else:
-                    return curr_node["rule_key"]
+                    # The skip above ensures this is less costly
+                    best_key = curr_node["rule_key"]
             else:
                 _append_children(node_key, token_i + 1)
         if match_all:
             return matches
+        return best_key
 
     def pruned_of(self, productions):
         """
-- 
2.43.0


From 49b7397f795b6309b9fbd592580fd456cad71a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 03/29] fix: compare all pairs of rules of equal cost for
 ambiguity

A pair that cannot match the same tokens ended the comparison of its first rule
with the remaining rules.
---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index 7e5a102..b9dd0e7 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -114,7 +114,7 @@ def check_for_ambiguity(transliterator):
                 j_index = group[j][0]
                 intersection = full_intersection(i_index, j_index)
                 if not intersection:
-                    break
+                    continue
 
                 # Check if a less costly rule matches intersection
 
-- 
2.43.0


From 51d9cf02cc231674e98b3a3a81946b972d713a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 04/29] fix: only let less costly rules resolve ambiguity

A third rule of the same cost hid the ambiguity of two rules, so three or more
rules matching the same tokens were accepted.
---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index b9dd0e7..cd9e408 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -122,7 +122,7 @@ def check_for_ambiguity(transliterator):
                     for r_i, rule in enumerate(rules):
                         if r_i in (i_index, j_index):
                             continue
-                        if rule.cost > rules[i_index].cost:
+                        if rule.cost >= rules[i_index].cost:
                             continue
                         rule_tokens = matrix[r_i]
                         if covered_by(intersection, rule_tokens):
-- 
2.43.0


From f30f2b7b3784a9833628edf3ede839bfbf8b1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:43 +0000
Subject: [PATCH 05/29] fix: honour options when loading compressed settings

Keyword options such as ignore_errors were dropped with everything else next to
the compressed settings, so they had no effect on the default dump format, on
bundled transliterators loaded from JSON, and on the command line.
---
 graphtransliterator/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index c97f38b..3b3dc36 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -90,8 +90,9 @@ class GraphTransliteratorSchema(Schema):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
-            data = decompress_config(compressed_settings)
-            data.update(graphtransliterator_version=version)
+            # Keep the version and any options given when loading
+            options = {k: v for k, v in data.items() if k != "compressed_settings"}
+            data = dict(decompress_config(compressed_settings), **options)
         return data
 
     @post_load
-- 
2.43.0


From aaaa8b90d26c9c9f615340cfc119cb565b199ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:49 +0000
Subject: [PATCH 06/29] fix: keep ignore_errors in compressed dumps

The setting was part of an uncompressed dump but lost at compression levels 1
and 2, which are documented to lose no information.
---
 graphtransliterator/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 3b3dc36..953fd06 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -571,13 +571,16 @@ class GraphTransliterator:
             raise ValueError(
                 f"Compression level must be between 0 and {HIGHEST_COMPRESSION_LEVEL}"
             )
-        return {
+        config = {
             "graphtransliterator_version": __version__,
             "compressed_settings": compress_config(
                 GraphTransliteratorSchema().dump(self),
                 compression_level=compression_level,
             ),
         }
+        if self.ignore_errors:
+            config["ignore_errors"] = True
+        return config
 
     def dumps(self, compression_level=2):
         """
-- 
2.43.0


From 0a42d136bfff1344839a4fba6abddd335191f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:56 +0000
Subject: [PATCH 07/29] fix: honour check_ambiguity when loading

The keyword is loaded as a setting, but was then looked for among the schema's
own keywords and so always reset to False.
---
 graphtransliterator/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 953fd06..b985fb5 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -102,7 +102,7 @@ class GraphTransliteratorSchema(Schema):
             if data.get(key):  # tokens_by_class can be generated
                 data[key] = {k: set(v) for k, v in data[key].items()}
         # Do not check ambiguity by default if deserializing
-        data["check_ambiguity"] = kwargs.get("check_ambiguity", False)
+        data.setdefault("check_ambiguity", False)
         return GraphTransliterator(**data)
 
     @validates_schema
-- 
2.43.0


From bcc9868b27bd6bb4b18e1fee67b23487b2224c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:03 +0000
Subject: [PATCH 08/29] fix: accept direct settings without on-match rules

They are optional, but validation raised KeyError when they were missing.
---
 graphtransliterator/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index c988882..20b9aaf 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -145,7 +145,7 @@ class SettingsSchema(Schema):
 
         # Validate onmatch_rules and rules
         for rule_type in ("onmatch_rules", "rules"):
-            for rule in data[rule_type]:
+            for rule in data.get(rule_type, []):
                 for property in ("prev_classes", "next_classes"):
                     values = getattr(rule, property)
                     if not values:
-- 
2.43.0


From 885a65ae6b881f60da3a309908c64c6d9242e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:13 +0000
Subject: [PATCH 09/29] fix: load dumps of transliterators without metadata

Metadata is optional and then dumped as null, which loading refused.
---
 graphtransliterator/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index b985fb5..f583bc1 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -62,7 +62,9 @@ class GraphTransliteratorSchema(Schema):
         OnMatchRuleSchema, many=True, required=False, allow_none=True
     )
     metadata = fields.Dict(
-        keys=fields.Str(), required=False  # No restriction on values
+        keys=fields.Str(),
+        required=False,
+        allow_none=True,  # No restriction on values
     )
     ignore_errors = fields.Bool(required=False)
     onmatch_rules_lookup = fields.Dict(required=False, allow_none=True)
-- 
2.43.0


From 128bd046a0bac6dab94c92f94aedc19ff1028d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 10/29] fix: prune only the given production in pruned_of

Given a single string, it removed every rule whose production was a substring of
it, including empty productions.
---
 graphtransliterator/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index f583bc1..2f5e9b2 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -813,6 +813,8 @@ class GraphTransliterator:
           gt.pruned_of(['<A>', '<AA>']).rules
 
         """  # noqa
+        if isinstance(productions, str):
+            productions = [productions]
         pruned_rules = [_ for _ in self._rules if _.production not in productions]
         return GraphTransliterator(
             self._tokens,
-- 
2.43.0


From 2b8f08bc1c95038f7c7c5bf1ab7fb3f0c47dd9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:17 +0000
Subject: [PATCH 11/29] fix: compare versions by number when loading

Versions were compared as strings, so 1.10.0 and 1.2.10 counted as earlier than
1.2.4 and were loaded.
---
 graphtransliterator/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 2f5e9b2..05240f8 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -50,6 +50,11 @@ DEFAULT_COMPRESSION_LEVEL = 2
 HIGHEST_COMPRESSION_LEVEL = 2
 
 
+def _version_key(version):
+    """List of the numbers in a version, for comparison."""
+    return [int(_) for _ in re.findall(r"\d+", version)]
+
+
 class GraphTransliteratorSchema(Schema):
     """Schema for Graph Transliterator."""
 
@@ -88,7 +93,7 @@ class GraphTransliteratorSchema(Schema):
     def check_version_and_compression(self, data, **kwargs):
         """Raises error if serialized GraphTransliterator is from a later version."""
         version = data.get("graphtransliterator_version")
-        if version and version > __version__:
+        if version and _version_key(version) > _version_key(__version__):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
-- 
2.43.0


From d4e279a174249bcda107e14217f311db68251f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:24 +0000
Subject: [PATCH 12/29] fix: unescape Unicode character names that contain
 digits

Names such as VARIATION SELECTOR-1 were left as they were.
---
 graphtransliterator/initialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/initialize.py b/graphtransliterator/initialize.py
index f10db33..ead4122 100644
--- a/graphtransliterator/initialize.py
+++ b/graphtransliterator/initialize.py
@@ -261,8 +261,8 @@ def _unescape_charnames(input_str):
     def get_unicode_char(matchobj):
         """Get Unicode character value from escaped character sequences."""
         charname = matchobj.group(0)
-        match = re.match(r"\\N{([-A-Z ]+)}", charname)
+        match = re.match(r"\\N{([-A-Z0-9 ]+)}", charname)
         char = unicodedata.lookup(match.group(1))  # KeyError if invalid
         return char
 
-    return re.sub(r"\\N{[-A-Z ]+}", get_unicode_char, input_str)
+    return re.sub(r"\\N{[-A-Z0-9 ]+}", get_unicode_char, input_str)
-- 
2.43.0


From 94dc420dd154eb519cbe0696b2ff2488d8e1d239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:32 +0000
Subject: [PATCH 13/29] fix: consolidate sequential whitespace to the default
 token

The first of the whitespace tokens was kept, instead of the default whitespace
token that the documentation promises.
---
 graphtransliterator/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 05240f8..ee31d65 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -884,6 +884,8 @@ class GraphTransliterator:
                 # matched_at = match.span(0)[0]
                 if is_whitespace(token):
                     if prev_whitespace and self.whitespace.consolidate:
+                        # Sequential whitespace is rendered as the default token
+                        tokens[-1] = self.whitespace.default
                         continue
                     else:
                         prev_whitespace = True
-- 
2.43.0


From 8debc89ca6d467e816a0e7e7d55e9c5f6829ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 14/29] fix: use the next classes in tests generated for
 on-match rules

The previous classes were used for both sides.
---
 graphtransliterator/transliterators/bundled.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index 6ce327e..dbf315f 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -187,7 +187,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
                 for _ in rule.prev_classes:
                     token = sample_token(_)
                     input_ += token
-                for _ in rule.prev_classes:
+                for _ in rule.next_classes:
                     token = sample_token(_)
                     input_ += token
                 tests[input_] = self.transliterate(input_)
-- 
2.43.0


From ef2d3be4ef3c3ee862c5c72abd9fda5305c584d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 15/29] fix: list an edge once in edge_list if it is added
 again

---
 graphtransliterator/graphs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 53e0490..cfb51bc 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -110,9 +110,10 @@ class DirectedGraph:
         if head not in self.edge:
             self.edge[head] = {}
 
-        self.edge[head][tail] = edge_data
+        if tail not in self.edge[head]:
+            self.edge_list.append(tuple([head, tail]))
 
-        self.edge_list.append(tuple([head, tail]))
+        self.edge[head][tail] = edge_data
 
         return self.edge[head][tail]
 
-- 
2.43.0


From f08e3005bbbf79c43d8125ea12019cabe63231ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 16/29] fix: sort the classes of each token in compressed dumps

They are kept in a set, so their order could vary between dumps of the same
transliterator.
---
 graphtransliterator/compression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/compression.py b/graphtransliterator/compression.py
index 7b11a81..b3b9dd5 100644
--- a/graphtransliterator/compression.py
+++ b/graphtransliterator/compression.py
@@ -169,7 +169,7 @@ def compress_config(config, compression_level=1):
     class_list = tuple(sorted(set().union(*config["tokens"].values())))
     _class_id = {_: i for i, _ in enumerate(class_list)}
     tokens = tuple(
-        tuple(_class_id[_] for _ in config["tokens"][tkn]) for tkn in token_list
+        tuple(sorted(_class_id[_] for _ in config["tokens"][tkn])) for tkn in token_list
     )
     nodetype_list = tuple(sorted(set([_["type"] for _ in config["graph"]["node"]])))
     _nodetype_id = {_: i for i, _ in enumerate(nodetype_list)}
-- 
2.43.0


From a2af330dbf42369e450d04478c627f166c28c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 17/29] fix: reject empty tokens, rules and on-match rule sides

---
 graphtransliterator/schemas.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 20b9aaf..324f073 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -52,6 +52,8 @@ class EasyReadingSettingsSchema(Schema):
             keys=fields.Str(validate=validate.Regexp(ONMATCH_RE)),
             values=fields.Str(),
             required=False,
+            # Each item holds a single rule
+            validate=validate.Length(equal=1),
         )
     )
     metadata = fields.Dict(
@@ -66,7 +68,8 @@ class TransliterationRuleSchema(Schema):
     """Schema for :class:`TransliterationRule`."""
 
     production = fields.Str(required=True)
-    tokens = fields.List(fields.Str(), required=True)
+    # A rule that consumes no tokens would match forever
+    tokens = fields.List(fields.Str(), required=True, validate=validate.Length(min=1))
     prev_classes = fields.List(fields.Str(), allow_none=True)
     next_classes = fields.List(fields.Str(), allow_none=True)
     prev_tokens = fields.List(fields.Str(), allow_none=True)
@@ -98,9 +101,13 @@ class TransliterationRuleSchema(Schema):
 class OnMatchRuleSchema(Schema):
     """Schema for :class:`OnMatchRule`."""
 
-    prev_classes = fields.List(fields.Str())
-    next_classes = fields.List(fields.Str())
-    production = fields.Str()
+    prev_classes = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
+    next_classes = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
+    production = fields.Str(required=True)
 
     class Meta:
         fields = ("prev_classes", "next_classes", "production")
@@ -118,7 +125,9 @@ class SettingsSchema(Schema):
     """
 
     tokens = fields.Dict(
-        keys=fields.Str(), values=fields.List(fields.Str()), required=True
+        keys=fields.Str(validate=validate.Length(min=1)),
+        values=fields.List(fields.Str()),
+        required=True,
     )
     rules = fields.Nested(TransliterationRuleSchema, many=True, required=True)
     whitespace = fields.Nested(WhitespaceSettingsSchema, many=False, required=True)
-- 
2.43.0


From 29a3dcb06dae56bc80c965e34571fd77a66b7043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:47 +0000
Subject: [PATCH 18/29] fix: log only matching as visits to a transliterator

---
 graphtransliterator/core.py   |  3 ++-
 graphtransliterator/graphs.py | 24 +++++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index ee31d65..3da22ae 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -825,7 +825,8 @@ class GraphTransliterator:
             self._tokens,
             pruned_rules,
             self._whitespace,
-            onmatch_rules=self._onmatch_rules,
+            # A list, so that visits are not logged on the original
+            onmatch_rules=list(self._onmatch_rules or []),
             metadata=self._metadata,
             ignore_errors=self._ignore_errors,
             check_ambiguity=self._check_ambiguity,
diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index cfb51bc..55d7dba 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -171,6 +171,10 @@ class VisitLoggingList(UserList):
         self.visited.add(i)
         return self.data[i]
 
+    def __iter__(self):
+        # Iterating, e.g. to dump or copy, is not a visit
+        return iter(self.data)
+
     def clear_visited(self):
         self.visited.clear()
 
@@ -186,6 +190,14 @@ class VisitLoggingDict(UserDict):
         self.visited.add(i)
         return self.data[i]
 
+    # Iterating, e.g. to dump or copy, is not a visit
+
+    def items(self):
+        return self.data.items()
+
+    def values(self):
+        return self.data.values()
+
     def clear_visited(self):
         self.visited.clear()
 
@@ -199,12 +211,14 @@ class VisitLoggingDirectedGraph(DirectedGraph):
         self.node = VisitLoggingList(self.node)
         # Edges are stored  {HEAD: {TAIL: {DATA}}
         # We only care about {TAIL: DATA} for checking coverage.
-        # First, convert all {TAIL: {DATA}} to VisitLoggingDict
-        # (This avoids settings {HEAD: {...}} to visited
-        for head in self.edge.keys():
-            self.edge[head] = VisitLoggingDict(self.edge[head])
+        # First, convert all {TAIL: {DATA}} to VisitLoggingDict, without changing the
+        # original graph (This avoids settings {HEAD: {...}} to visited
+        edge = {
+            head: VisitLoggingDict(dict(tails.items()))
+            for head, tails in self.edge.items()
+        }
         # Second, convert {HEAD: {...}} to VisitLoggingDict
-        self.edge = VisitLoggingDict(self.edge)
+        self.edge = VisitLoggingDict(edge)
 
     def __init__(self, graph):
         """Initialize from existing graph."""
-- 
2.43.0


From 344a1d327fe9ab58f2db629aa13d9007e2f96ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 19/29] fix: share no internal data with dumps and loaded
 settings

---
 graphtransliterator/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 3da22ae..0c4b62e 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -31,6 +31,7 @@ from .schemas import (
 from collections import deque
 
 from graphtransliterator import __version__ as __version__
+import copy
 import json
 import logging
 from marshmallow import (
@@ -108,6 +109,9 @@ class GraphTransliteratorSchema(Schema):
         for key in ("tokens", "tokens_by_class"):
             if data.get(key):  # tokens_by_class can be generated
                 data[key] = {k: set(v) for k, v in data[key].items()}
+        # Later changes to the settings must not change the transliterator
+        if data.get("onmatch_rules_lookup"):
+            data["onmatch_rules_lookup"] = copy.deepcopy(data["onmatch_rules_lookup"])
         # Do not check ambiguity by default if deserializing
         data.setdefault("check_ambiguity", False)
         return GraphTransliterator(**data)
@@ -573,7 +577,8 @@ class GraphTransliterator:
         loads : Load Graph Transliteration from configuration as a JSON string
         """  # noqa
         if compression_level == 0:
-            return GraphTransliteratorSchema().dump(self)
+            # Later changes to the dump must not change the transliterator
+            return copy.deepcopy(GraphTransliteratorSchema().dump(self))
         elif compression_level not in range(1, HIGHEST_COMPRESSION_LEVEL + 1):
             raise ValueError(
                 f"Compression level must be between 0 and {HIGHEST_COMPRESSION_LEVEL}"
@@ -581,7 +586,7 @@ class GraphTransliterator:
         config = {
             "graphtransliterator_version": __version__,
             "compressed_settings": compress_config(
-                GraphTransliteratorSchema().dump(self),
+                copy.deepcopy(GraphTransliteratorSchema().dump(self)),
                 compression_level=compression_level,
             ),
         }
-- 
2.43.0


From d44215476319445202e7569dce7afc972d6cf9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 20/29] fix: pass options to transliterators in
 iter_transliterators

---
 graphtransliterator/transliterators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/__init__.py b/graphtransliterator/transliterators/__init__.py
index 2bfe9db..a3a1468 100644
--- a/graphtransliterator/transliterators/__init__.py
+++ b/graphtransliterator/transliterators/__init__.py
@@ -72,4 +72,4 @@ def iter_names():
 def iter_transliterators(**kwds):
     """Iterate through instances of bundled transliterators."""
     for _ in iter_names():
-        yield (eval(_ + "()"))
+        yield globals()[_](**kwds)
-- 
2.43.0


From 9471984d03a7c21186422c559fdb7d2a5af4898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 21/29] fix: compress graphs of transliterators without rules

---
 graphtransliterator/compression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/compression.py b/graphtransliterator/compression.py
index b3b9dd5..12bad12 100644
--- a/graphtransliterator/compression.py
+++ b/graphtransliterator/compression.py
@@ -136,7 +136,7 @@ def compress_config(config, compression_level=1):
 
     def compress_node(_node):
         def compressed_ordered_children():
-            x = _node.get("ordered_children")
+            x = _node.get("ordered_children") or {}  # dropped if empty
             out = {}
             for k, v in x.items():
                 if k == "__rules__":
-- 
2.43.0


From 5e091057f282685c723e871761ca3c21d6e6f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 22/29] fix: do not drop what follows next classes in
 easy-reading rules

---
 graphtransliterator/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/process.py b/graphtransliterator/process.py
index c82c546..0ba60dd 100644
--- a/graphtransliterator/process.py
+++ b/graphtransliterator/process.py
@@ -41,9 +41,9 @@ RULE_RE = re.compile(
     r"(?:\(((?:\s?<.+?>\s+)+)?(.+?)\s?\) |((?:\s?<.+?>\s+)+)?)?"
     r"((?:\n|\r|.)+?)"
     r"(?:"
-    r"\s+(?:\((.+?)((?:\s+<.+?>?)?)\)$)"
+    r"\s+(?:\((.+?)((?:\s+<[^>]+>)+\s*)?\)$)"
     r"|"
-    r"((?:\s+<.+?>)+)"
+    r"((?:\s+<[^>]+>)+)\s*$"
     r"|"
     r"$)"
 )
-- 
2.43.0


From 50387178802d7339f7d927d47c2e8afdcf3fa305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 23/29] fix: raise ValueError for invalid graph edits given a
 tuple

---
 graphtransliterator/graphs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 55d7dba..76c90aa 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -97,15 +97,15 @@ class DirectedGraph:
         if edge_data is None:
             edge_data = {}
         if type(head) is not int:
-            raise ValueError("Edge head is not an integer: %s." % head)
+            raise ValueError("Edge head is not an integer: %s." % (head,))
         if type(tail) is not int:
-            raise ValueError("Edge tail is not an integer: %s." % tail)
+            raise ValueError("Edge tail is not an integer: %s." % (tail,))
         if head < 0 or head >= len(self.node):
-            raise ValueError("Head index of edge not in graph: %s." % head)
+            raise ValueError("Head index of edge not in graph: %s." % (head,))
         if tail < 0 or tail >= len(self.node):
-            raise ValueError("Tail index of edge not in graph: %s." % tail)
+            raise ValueError("Tail index of edge not in graph: %s." % (tail,))
         if type(edge_data) is not dict:
-            raise ValueError("Edge data is not a dict: %s." % edge_data)
+            raise ValueError("Edge data is not a dict: %s." % (edge_data,))
 
         if head not in self.edge:
             self.edge[head] = {}
@@ -154,7 +154,7 @@ class DirectedGraph:
         if node_data is None:
             node_data = {}
         if type(node_data) is not dict:
-            raise ValueError("node_data must be a dict: %s" % node_data)
+            raise ValueError("node_data must be a dict: %s" % (node_data,))
         node_key = len(self.node)
         self.node.append(node_data)
         return node_key, self.node[node_key]
-- 
2.43.0


From 0e6901745968c4c58846d0fc0ffbd78a28ba9e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:56 +0000
Subject: [PATCH 24/29] fix: make -nie turn off ignoring errors in the command
 line

---
 graphtransliterator/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index b91ec99..7cd367b 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -69,8 +69,7 @@ def load_transliterator(source, **kwargs):
 )
 @click.option(
     "--ignore-errors/--no-ignore-errors",
-    "-ie",
-    "-nie",
+    "-ie/-nie",
     help="Ignore errors.",
     show_default=True,
     default=False,
-- 
2.43.0


From 240d011d4dd16a5508879f1a53cda5a8d572be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 25/29] fix: do not register classes that bundled
 transliterators only import

---
 graphtransliterator/transliterators/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphtransliterator/transliterators/__init__.py b/graphtransliterator/transliterators/__init__.py
index a3a1468..1a641b1 100644
--- a/graphtransliterator/transliterators/__init__.py
+++ b/graphtransliterator/transliterators/__init__.py
@@ -48,6 +48,11 @@ def add_transliterators(path=__path__):
             # Skip any classes starting with _
             if _skip_class_name(name):
                 continue
+            # Skip classes that the module only imports
+            if not issubclass(_obj, Bundled) or not (
+                _obj.__module__ + "."
+            ).startswith(module_name + "."):
+                continue
             if name in __all__:
                 raise ValueError(
                     'A transliterator named "{}" already exists'.format(name)
-- 
2.43.0


From dde530adcdf1babfb00078651b1a540096ea4e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 26/29] fix: take names given to make-json without --regex
 literally

---
 graphtransliterator/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index 7cd367b..cf332cf 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -213,7 +213,7 @@ def make_json(bundled, regex):
     import graphtransliterator.transliterators as transliterators  # pragma: no cover
 
     if not regex:
-        bundled = f"^{bundled}$"
+        bundled = f"^{re.escape(bundled)}$"
     to_dump = [_ for _ in transliterators.iter_names() if re.match(bundled, _)]
     if not to_dump:
         click.echo(f"No bundled transliterator found matching /{bundled}/.")
-- 
2.43.0


From 75db7c88a0161287e533ddc9e7a870035fe818cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:11 +0000
Subject: [PATCH 27/29] fix: keep a newline token at the end of an easy-reading
 rule

---
 graphtransliterator/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/process.py b/graphtransliterator/process.py
index 0ba60dd..4cc6496 100644
--- a/graphtransliterator/process.py
+++ b/graphtransliterator/process.py
@@ -45,7 +45,7 @@ RULE_RE = re.compile(
     r"|"
     r"((?:\s+<[^>]+>)+)\s*$"
     r"|"
-    r"$)"
+    r"\Z)"  # not $, which a final newline token would follow
 )
 
 
-- 
2.43.0


From c16fb663fb238d8a992ea85cb5e280331398ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 28/29] fix: reject rule costs that are not numbers

A cost such as "abc" in the settings of a rule was accepted by the schema, which
had no type for it, and raised a TypeError (or, for True, a KeyError) while sorting
or building the graph instead of a ValidationError.
---
 graphtransliterator/schemas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 324f073..79fb38d 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -74,6 +74,7 @@ class TransliterationRuleSchema(Schema):
     next_classes = fields.List(fields.Str(), allow_none=True)
     prev_tokens = fields.List(fields.Str(), allow_none=True)
     next_tokens = fields.List(fields.Str(), allow_none=True)
+    cost = fields.Float()
 
     class Meta:
         fields = (
-- 
2.43.0


From c5435a22f127aa7821345d5d44d696edfa05ef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 29/29] fix: read and write YAML and JSON files as UTF-8 in
 every locale

---
 graphtransliterator/cli.py                     | 6 +++---
 graphtransliterator/core.py                    | 2 +-
 graphtransliterator/transliterators/bundled.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index cf332cf..a50de44 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -31,7 +31,7 @@ def load_transliterator(source, **kwargs):
     elif format == "json":
         return GraphTransliterator.loads(parameter, **kwargs)
     elif format == "json_file":
-        with open(parameter, "r") as f:
+        with open(parameter, "r", encoding="utf-8") as f:
             return GraphTransliterator.loads(f.read(), **kwargs)
     elif format == "yaml_file":
         return GraphTransliterator.from_yaml_file(parameter, **kwargs)
@@ -138,7 +138,7 @@ def dump_tests(bundled, to):
         transliteration_tests = transliterator.load_yaml_tests()
         click.echo(json.dumps(transliteration_tests))
     elif to == "yaml":
-        with open(transliterator.yaml_tests_filen, "r") as f:
+        with open(transliterator.yaml_tests_filen, "r", encoding="utf-8") as f:
             click.echo(f.read())
 
 
@@ -225,7 +225,7 @@ def make_json(bundled, regex):
         json_filename = os.path.join(
             transliterator.directory, transliterator.name + ".json"
         )
-        with open(json_filename, "w") as f:
+        with open(json_filename, "w", encoding="utf-8") as f:
             f.write(transliterator.dumps())
         click.echo(f"Made JSON of {_}.")
 
diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 0c4b62e..cd510c5 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -1197,7 +1197,7 @@ class GraphTransliterator:
         from_yaml : Constructor from YAML string in "easy reading" format
         from_easyreading_dict : Constructor from dictionary in "easy reading" format
         """
-        with open(yaml_filename, "r") as f:
+        with open(yaml_filename, "r", encoding="utf-8") as f:
             yaml_string = f.read()
 
         return GraphTransliterator.from_yaml(yaml_string, **kwargs)
diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index dbf315f..ac86cde 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -38,7 +38,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
         if method == "yaml":
             gt = GraphTransliterator.from_yaml_file(filename, **kwargs)
         elif method == "json":
-            with open(filename, "r") as f:
+            with open(filename, "r", encoding="utf-8") as f:
                 gt = GraphTransliterator.loads(f.read(), **kwargs)
         # Select coverage superclass, if coverage set.
         if kwargs.get("coverage"):
@@ -120,7 +120,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
         `NAME_tests.yaml, e.g. `source_to_target/tests/source_to_target_tests.yaml`.
         """
         test_file = self.yaml_tests_filen
-        with open(test_file, "r") as f:
+        with open(test_file, "r", encoding="utf-8") as f:
             return {str(k): str(i) for k, i in yaml.safe_load(f).items()}
 
     def run_tests(self, transliteration_tests):
-- 
2.43.0

