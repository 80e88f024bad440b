From 1588b2d4448841c5d6b8f0ce03d3538906821d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 01/23] fix: tokens without any digit, like - or ., are symbols
 and not numbers

---
 gb/hypergraph/edge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 5edb25d..30bf7ea 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -53,6 +53,7 @@ def token_type(token):
     s = token
     pos = 0
     point = False
+    digit = False
 
     while len(s) > 0:
         c = s[0]
@@ -66,9 +67,13 @@ def token_type(token):
                 point = True
         elif c < '0' or c > '9':
             return TokenType.STRING
+        else:
+            digit = True
         s = s[1:]
         pos += 1
 
+    if not digit:
+        return TokenType.STRING
     if point:
         return TokenType.DOUBLE
     else:
-- 
2.43.0


From 5267ed6a06481ece17b32eb150ddb3ab5f8b607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 02/23] fix: floats written with an exponent are read back as
 floats

---
 gb/hypergraph/edge.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 30bf7ea..361549d 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -47,6 +47,11 @@ def close_pars(s):
     return -pos - 1
 
 
+def is_exponent(s):
+    """Is the string the exponent of a float, as Python writes it (e.g. +20 or -05)?"""
+    return len(s) > 2 and s[0] in '+-' and all('0' <= c <= '9' for c in s[1:])
+
+
 def token_type(token):
     """Determine the type of a string token: STRING, INTEGER or DOUBLE."""
 
@@ -65,6 +70,8 @@ def token_type(token):
                 return TokenType.STRING
             else:
                 point = True
+        elif c == 'e' and digit and is_exponent(s[1:]):
+            return TokenType.DOUBLE
         elif c < '0' or c > '9':
             return TokenType.STRING
         else:
-- 
2.43.0


From defd5fde8ef97062a4754dc582198b872ecaac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 03/23] fix: read permutations that start with a nested edge

---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 612f387..156ce15 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -67,11 +67,11 @@ def cur2edges(cur):
     edges = []
     for row in cur:
         res = row[0]
-        tokens = ed.split_edge_str(res)
+        tokens = ed.split_edge_str('(%s)' % res)
         nper = int(tokens[-1])
         tokens = tokens[:-1]
         tokens = unpermutate(tokens, nper)
-        edge = ed.str2edge(' '.join(tokens))
+        edge = ed.str2edge('(%s)' % ' '.join(tokens))
         edges.append(edge)
     return set(edges)
 
-- 
2.43.0


From c0c2bb5a03ba6b9483dff3e4f3b3a2c2b9e4b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 04/23] fix: pattern search compares whole entities, not
 prefixes

---
 gb/hypergraph/sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 156ce15..079fe24 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -193,7 +193,7 @@ class SQL(Backend):
         """Return all the edges that match a pattern.
         A pattern is a collection of entity ids and wildcards (None)."""
         nodes = [node for node in pattern if node is not None]
-        start_str = ed.nodes2str(nodes)
+        start_str = '%s ' % ed.nodes2str(nodes)
         end_str = str_plus_1(start_str)
         cur = self.open_cursor()
         cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
-- 
2.43.0


From b7af38a13123c0243717444f382cd74716482324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 05/23] fix: a pattern made only of wildcards matches all edges
 of its size

---
 gb/hypergraph/sql.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 079fe24..e770b97 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -193,10 +193,13 @@ class SQL(Backend):
         """Return all the edges that match a pattern.
         A pattern is a collection of entity ids and wildcards (None)."""
         nodes = [node for node in pattern if node is not None]
-        start_str = '%s ' % ed.nodes2str(nodes)
-        end_str = str_plus_1(start_str)
         cur = self.open_cursor()
-        cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        if len(nodes) > 0:
+            start_str = '%s ' % ed.nodes2str(nodes)
+            end_str = str_plus_1(start_str)
+            cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        else:
+            cur.execute('SELECT id FROM perms')
         edges = cur2edges(cur)
         self.close_cursor(cur, local=True, commit=False)
         return set([edge for edge in edges if edge_matches_pattern(edge, pattern)])
-- 
2.43.0


From 745247dcb087c745888ccdf2e6c5ff0f49ca9961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 06/23] fix: degree and timestamp leave the cursor of a batch
 open

---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index e770b97..b8a21ac 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -301,7 +301,7 @@ class SQL(Backend):
         cur.execute('SELECT degree FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             deg = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return deg
         self.close_cursor(cur, local=True, commit=False)
         return 0
@@ -313,7 +313,7 @@ class SQL(Backend):
         cur.execute('SELECT timestamp FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             ts = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return ts
         self.close_cursor(cur, local=True, commit=False)
         return -1
-- 
2.43.0


From 19af4e4fd4b314fc3acc9aa7fb436a334fee696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 07/23] fix: edges used inside other edges keep their degree
 when added or removed

---
 gb/hypergraph/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index b8a21ac..ae0f142 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -231,7 +231,7 @@ class SQL(Backend):
                 vert_str = ed.edge2str(vert)
                 if not self.inc_degree(vert_str):
                     self.add_str(vert_str, 1, timestamp)
-            self.add_str(ed.edge2str(edge), 0, timestamp)
+            self.add_str(ed.edge2str(edge), self.degree(edge), timestamp)
             self.write_edge_permutations(edge)
         return edge
 
@@ -253,7 +253,8 @@ class SQL(Backend):
             for vert in edge:
                 self.dec_degree(ed.edge2str(vert))
             self.remove_edge_permutations(edge)
-            self.remove_str(ed.edge2str(edge))
+            if self.degree(edge) == 0:
+                self.remove_str(ed.edge2str(edge))
 
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
-- 
2.43.0


From 49bad58542745b852e09c22a6e01aaf9a5ace0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 08/23] fix: f_all visits all vertices when f queries the
 hypergraph inside a batch

---
 gb/hypergraph/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index ae0f142..aa1715f 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -330,9 +330,10 @@ class SQL(Backend):
         """Returns a lazy sequence resulting from applying f to every
            vertex map (including non-atomic) in the hypergraph.
            A vertex map contains the keys vertex and degree."""
-        cur = self.open_cursor()
+        # not the cursor of the batch, that f may use
+        cur = self.conn.cursor()
         cur.execute('SELECT id, degree FROM vertices')
         for row in cur:
             vmap = {'vertex': ed.str2edge(row[0]), 'degree': row[1]}
             yield f(vmap)
-        self.close_cursor(cur, local=True, commit=False)
+        cur.close()
-- 
2.43.0


From 95f5cbce1f74ae08b58ab468505b2aa34ad77947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 09/23] fix: batches can be nested and do not stay open after
 an error

---
 gb/hypergraph/sql.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index aa1715f..a813f77 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import contextlib
 import math
 import itertools
 import gb.hypergraph.edge as ed
@@ -130,6 +131,23 @@ class SQL(Backend):
             self.cur.close()
             self.cur = None
 
+    @contextlib.contextmanager
+    def transaction(self):
+        """Everything that is done inside the context is stored, or nothing is.
+        A transaction inside another one is a part of it."""
+        if self.cur is not None:
+            yield
+            return
+        cur = self.open_cursor(local=False)
+        try:
+            yield
+            self.conn.commit()
+        except BaseException:
+            self.conn.rollback()
+            raise
+        finally:
+            self.close_cursor(cur, local=False)
+
     def update_or_insert(self, table, row, vid):
         """Updates columns or inserts a new row in the vertices table"""
         cur = self.open_cursor()
@@ -239,10 +257,9 @@ class SQL(Backend):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
         Adding multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            cur = self.open_cursor(local=False)
-            for edge in edges:
-                self.add_raw(edge, timestamp)
-            self.close_cursor(cur, local=False, commit=True)
+            with self.transaction():
+                for edge in edges:
+                    self.add_raw(edge, timestamp)
         else:
             self.add_raw(edges, timestamp)
         return edges
@@ -321,10 +338,9 @@ class SQL(Backend):
 
     def batch_exec(self, funs):
         """Auxiliary function to implement ops.batch_exec in SQL environments."""
-        cur = self.open_cursor(local=False)
-        for f in funs:
-            f(self)
-        self.close_cursor(cur, local=False, commit=True)
+        with self.transaction():
+            for f in funs:
+                f(self)
 
     def f_all(self, f):
         """Returns a lazy sequence resulting from applying f to every
-- 
2.43.0


From 4139b14dc71165c34f54479fdc29160011731f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 10/23] fix: adding or removing edges is all or nothing, and
 removing does not commit a batch halfway

---
 gb/hypergraph/sql.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index a813f77..66add1d 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -180,10 +180,9 @@ class SQL(Backend):
 
     def remove_edge_permutation(self, perm):
         eid = ed.edge2str(perm)
-        cur = self.conn.cursor()
+        cur = self.open_cursor()
         cur.execute('DELETE FROM perms WHERE id=%s' % (self.ph,), (eid,))
-        self.conn.commit()
-        cur.close()
+        self.close_cursor(cur, local=True, commit=True)
 
     def remove_edge_permutations(self, edge):
         """Removes all permutations of the given edge."""
@@ -261,7 +260,8 @@ class SQL(Backend):
                 for edge in edges:
                     self.add_raw(edge, timestamp)
         else:
-            self.add_raw(edges, timestamp)
+            with self.transaction():
+                self.add_raw(edges, timestamp)
         return edges
 
     def remove_raw(self, edge):
@@ -277,11 +277,12 @@ class SQL(Backend):
         """Removes one or multiple edges from the hypergraph
         Removing multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            # TODO: use transaction?
-            for edge in edges:
-                self.remove_raw(edge)
+            with self.transaction():
+                for edge in edges:
+                    self.remove_raw(edge)
         else:
-            self.remove_raw(edges)
+            with self.transaction():
+                self.remove_raw(edges)
 
     def star(self, center):
         """Return all the edges that contain a given entity.
-- 
2.43.0


From c319a11e70448312c2e30c85c76b8a8ff04c3055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 11/23] fix: flushing an empty buffer does nothing

---
 gb/hypergraph/batch_hypergraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index dd8b305..3c40715 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -33,7 +33,8 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         self.buffer_max = buffer_max
 
     def flush(self, timestamp=-1):
-        self.backend.add(self.buffer, timestamp)
+        if len(self.buffer) > 0:
+            self.backend.add(self.buffer, timestamp)
         self.buffer = []
 
     def add(self, edges, timestamp=-1):
-- 
2.43.0


From 531b13cd17762d20e057b4e04b48ac1f8ae166a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 12/23] fix: buffered edges keep the timestamps they were added
 with

---
 gb/hypergraph/batch_hypergraph.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index 3c40715..1321aa4 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -31,8 +31,11 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         self.backend = hg.backend
         self.buffer = []
         self.buffer_max = buffer_max
+        self.timestamp_buffered = -1
 
-    def flush(self, timestamp=-1):
+    def flush(self, timestamp=None):
+        if timestamp is None:
+            timestamp = self.timestamp_buffered
         if len(self.buffer) > 0:
             self.backend.add(self.buffer, timestamp)
         self.buffer = []
@@ -40,6 +43,11 @@ class BatchHyperGraph(hypergraph.HyperGraph):
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
                 Adding multiple edges at the same time might be faster."""
+        # the edges in the buffer all have the same timestamp
+        if timestamp != self.timestamp_buffered:
+            self.flush()
+            self.timestamp_buffered = timestamp
+
         if isinstance(edges[0], (list, tuple)):
             self.buffer += edges
         else:
-- 
2.43.0


From 2c5f8cef4f8fb888d7836716f95d7a65781dec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 13/23] fix: ego returns the edges around an entity instead of
 crashing

---
 gb/hypergraph/hypergraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 92588c6..908dc98 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -104,11 +104,11 @@ class HyperGraph(object):
     def ego(self, center, depth):
         if depth > 0:
             edges = self.star(center)
-            edges = edges[1:]
-            ids = [item for sublist in edges for item in sublist]
+            ids = [item for edge in edges for item in edge[1:]]
             ids = set(ids)
             next_edges = [self.ego(vid, depth - 1) for vid in ids]
-            return ids.union(next_edges)
+            return edges.union(*next_edges)
+        return set()
 
     def add_belief(self, source, edges, timestamp=-1):
         """A belif is a fact with a source. The fact is created as a normal edge
-- 
2.43.0


From e95ce5599d18f0f845f90da8a6aefa7433758037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 14/23] fix: intersect finds the walks between entities instead
 of crashing

---
 gb/hypergraph/queries.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gb/hypergraph/queries.py b/gb/hypergraph/queries.py
index de75daf..56edd68 100644
--- a/gb/hypergraph/queries.py
+++ b/gb/hypergraph/queries.py
@@ -38,12 +38,12 @@ def vemap_assoc_id_edge(vemap, vid, edge):
     if vid not in vemap:
         vemap[vid] = {'edges': [], 'neighbours': set()}
     vemap[vid]['edges'].append(edge)
-    vemap[vid]['neighbours'] = add_neighbours(vemap[id]['neighbours'], edge)
+    vemap[vid]['neighbours'] = add_neighbours(vemap[vid]['neighbours'], edge)
     return vemap
 
 
 def vemap_plus_edge(vemap, edge):
-    for vid in edge:
+    for vid in edge[1:]:
         vemap_assoc_id_edge(vemap, vid, edge)
     return vemap
 
@@ -74,8 +74,8 @@ def walks(vemap, nodes, walk, all_walks):
             valid = False
 
     if valid:
-        all_walks.add(walk)
-    else:
+        all_walks.add(tuple(walk))
+    elif walk[-1] in vemap:
         neighbours = vemap[walk[-1]]['neighbours']
         next_steps = [node for node in neighbours if node not in walk]
         if len(next_steps) > 0:
-- 
2.43.0


From 0d3e3f78aaf296f91bee9ffcd6fe0ad104137a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 15/23] fix: no white space is left in symbols made from
 strings

---
 gb/hypergraph/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gb/hypergraph/symbol.py b/gb/hypergraph/symbol.py
index 24df140..d0c4a27 100644
--- a/gb/hypergraph/symbol.py
+++ b/gb/hypergraph/symbol.py
@@ -110,7 +110,7 @@ def str2symbol(s):
     """Converts a string into a valid symbol"""
     sym = s.lower()
     sym = sym.replace("/", "_")
-    sym = sym.replace(" ", "_")
+    sym = ''.join(['_' if c.isspace() else c for c in sym])
     sym = sym.replace("(", "_")
     sym = sym.replace(")", "_")
     return sym
-- 
2.43.0


From a8e95ed5c2de648da25f5c41491b3550818c1a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 16/23] fix: the parent of a token is a token

---
 gb/nlp/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/nlp/parser.py b/gb/nlp/parser.py
index b506333..cce30e9 100644
--- a/gb/nlp/parser.py
+++ b/gb/nlp/parser.py
@@ -45,9 +45,9 @@ class Parser:
             token.left_children = [self.__spacy2token(t) for t in stoken.lefts]
             token.right_children = [self.__spacy2token(t) for t in stoken.rights]
             for t in token.left_children:
-                t.parent = self
+                t.parent = token
             for t in token.right_children:
-                t.parent = self
+                t.parent = token
             token.entity_type = stoken.ent_type_
             self.token_table[stoken] = token
 
-- 
2.43.0


From 9a5b182aaa6e9725b3ea4243780e0a4d9eed610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 17/23] fix: the command line gives the mysql backend the
 parameters it reads

---
 gb/gbrain.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gb/gbrain.py b/gb/gbrain.py
index 9a9771f..9727c5a 100644
--- a/gb/gbrain.py
+++ b/gb/gbrain.py
@@ -29,15 +29,17 @@ from gb.tools.shell import Shell
 @click.group()
 @click.option('--backend', help='Hypergraph Backend (sqlite, mysql, null).', default='sqlite')
 @click.option('--db', help='Database name.', default='gb.db')
+@click.option('--dbhost', help='Database host.', default='localhost')
 @click.option('--dbuser', help='Database user.', default='gb')
 @click.option('--dbpass', help='Database password.', default='gb')
 @click.pass_context
-def cli(ctx, backend, db, dbuser, dbpass):
+def cli(ctx, backend, db, dbhost, dbuser, dbpass):
     ctx.obj = {
         'backend': backend,
         'db': db,
-        'dbuser': dbuser,
-        'dbpass': dbpass
+        'host': dbhost,
+        'user': dbuser,
+        'password': dbpass
     }
 
 
-- 
2.43.0


From 48776ff538ebfcf761369af4d7e828886fd7fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 18/23] fix: destroy does not leave a half-erased hypergraph
 after an error

---
 gb/hypergraph/sql.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 66add1d..f309f72 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -308,10 +308,11 @@ class SQL(Backend):
 
     def destroy(self):
         """Erase the hypergraph."""
-        cur = self.open_cursor()
-        cur.execute('DELETE FROM vertices')
-        cur.execute('DELETE FROM perms')
-        self.close_cursor(cur, local=True, commit=True)
+        with self.transaction():
+            cur = self.open_cursor()
+            cur.execute('DELETE FROM vertices')
+            cur.execute('DELETE FROM perms')
+            self.close_cursor(cur, local=True, commit=True)
 
     def degree(self, vertex):
         """Returns the degree of a vertex."""
-- 
2.43.0


From 8788ad439bf39db9535f5c298583218efd53b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 19/23] fix: on mysql, updating a row with the values it
 already has does not insert it again

---
 gb/hypergraph/mysql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/mysql.py b/gb/hypergraph/mysql.py
index a670737..bafc8ae 100644
--- a/gb/hypergraph/mysql.py
+++ b/gb/hypergraph/mysql.py
@@ -17,6 +17,7 @@
 
 
 import MySQLdb
+from MySQLdb.constants import CLIENT
 import _mysql_exceptions
 from gb.hypergraph.sql import SQL
 
@@ -38,7 +39,9 @@ class MySQL(SQL):
         user = params['user']
         password = params['password']
         dbname = params['db']
-        conn = MySQLdb.connect(host=host, user=user, passwd=password, db=dbname)
+        conn = MySQLdb.connect(host=host, user=user, passwd=password, db=dbname,
+                               # count the rows that were found, not only the ones that were changed
+                               client_flag=CLIENT.FOUND_ROWS)
         conn.autocommit(True)
         SQL.__init__(self, conn, '%s')
 
-- 
2.43.0


From 9a5cb0dfc853747a7359285c9f680db2efab8766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 20/23] fix: on sqlite, nobody else writes between what an
 operation reads and what it writes

---
 gb/hypergraph/mysql.py  | 3 +++
 gb/hypergraph/sql.py    | 5 +++++
 gb/hypergraph/sqlite.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/gb/hypergraph/mysql.py b/gb/hypergraph/mysql.py
index bafc8ae..ec4f311 100644
--- a/gb/hypergraph/mysql.py
+++ b/gb/hypergraph/mysql.py
@@ -63,3 +63,6 @@ class MySQL(SQL):
 
         self.conn.commit()
         cur.close()
+
+    def begin_transaction(self, cur):
+        pass
diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index f309f72..9b411d7 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -108,6 +108,10 @@ class SQL(Backend):
     def create_tables(self):
         raise NotImplementedError()
 
+    def begin_transaction(self, cur):
+        """Starts a transaction in which nobody else writes."""
+        raise NotImplementedError()
+
     def open_cursor(self, local=True):
         if local:
             if self.cur is None:
@@ -140,6 +144,7 @@ class SQL(Backend):
             return
         cur = self.open_cursor(local=False)
         try:
+            self.begin_transaction(cur)
             yield
             self.conn.commit()
         except BaseException:
diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index fd65ee1..0246237 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -51,3 +51,7 @@ class SQLite(SQL):
 
         self.conn.commit()
         cur.close()
+
+    def begin_transaction(self, cur):
+        # not when the first row is written: what is read before must still be true then
+        cur.execute('BEGIN IMMEDIATE')
-- 
2.43.0


From 92e8fe52083f6513dedef644cda4bb403f98e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 21/23] fix: removing a belief removes the link and the
 unsupported fact together, or nothing

---
 gb/hypergraph/hypergraph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 908dc98..2e644d8 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -136,6 +136,9 @@ class HyperGraph(object):
         """A belif is a fact with a source. The link from the source to the fact
            is removed. If no more sources support the fact, then the fact is also
            removed."""
-        self.remove((const.source, edge, source))
-        if len(self.sources(edge)) == 0:
-            self.remove(edge)
+        def remove(_):
+            self.remove((const.source, edge, source))
+            if len(self.sources(edge)) == 0:
+                self.remove(edge)
+        # the link is not removed without the fact that nothing else supports
+        self.batch_exec([remove])
-- 
2.43.0


From b6aa6ad1ae4ed74a75062773243fa8fe7928bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 22/23] fix: remove_by_pattern removes all the edges that
 match, or none when it fails

---
 gb/hypergraph/hypergraph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 2e644d8..24686fe 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -96,9 +96,11 @@ class HyperGraph(object):
 
     def remove_by_pattern(self, pattern):
         """Removes from the hypergraph all edges that match the pattern."""
-        edges = self.pattern2edges(pattern)
-        for edge in edges:
-            self.remove(edge)
+        def remove(_):
+            for edge in self.pattern2edges(pattern):
+                self.remove(edge)
+        # all of them are removed, or none
+        self.batch_exec([remove])
 
     # TODO: this can be optimized
     def ego(self, center, depth):
-- 
2.43.0


From 2670e3c0005fba8fdb2d1a30f7c116c12a161823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 23/23] fix: on mysql, an operation that fails is undone

---
 gb/hypergraph/mysql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/mysql.py b/gb/hypergraph/mysql.py
index ec4f311..4a0c63b 100644
--- a/gb/hypergraph/mysql.py
+++ b/gb/hypergraph/mysql.py
@@ -65,4 +65,5 @@ class MySQL(SQL):
         cur.close()
 
     def begin_transaction(self, cur):
-        pass
+        # until it is committed, no statement is committed by itself
+        cur.execute('START TRANSACTION')
-- 
2.43.0

