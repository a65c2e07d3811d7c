From 635486bc59227a335265bb7f7eca7ab50a3fb7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 01/63] fix: remove_in_edges removes the incoming edges

It asked for the edge node -> parent, so redefining a variable that has parents raised NetworkXError.
---
 src/sims_pars/bayesnet/dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index a671f0a..c3a3480 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -110,7 +110,7 @@ class DAG(nx.DiGraph):
         :param node: targeted node
         """
         for par in self.parents(node):
-            self.remove_edge(node, par)
+            self.remove_edge(par, node)
 
     def remove_upstream(self, nodes):
         if not isinstance(nodes, list):
-- 
2.43.0


From 048556175026c2a704957f7c73db1db1114b5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 02/63] fix: a rejected cyclic definition leaves the network as
 it was

The former definition of the node, and its edges, were deleted.
---
 src/sims_pars/bayesnet/bn.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 124f6dd..d57a2a1 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -72,23 +72,20 @@ class BayesianNetwork:
         #     if not isinstance(self.DAG.nodes[name]['loci'], ExoValueLoci):
         #         raise KeyError('Duplicated variable name')
 
+        # Check acyclic or not
+        below = self.DAG.descendants(name) if name in self.DAG else set()
+        below.add(name)
+        if not below.isdisjoint(loci.Parents):
+            raise AttributeError('The node causes cyclic paths')
+
         self.DAG.add_node(name, loci=loci, **kwargs)
         self.DAG.remove_in_edges(name)
 
-        new_pa = list()
         for pa in loci.Parents:
             if pa not in self.DAG:
                 self.append_loci(ExoValueLoci(pa))
-                new_pa.append(pa)
             self.DAG.add_edge(pa, name)
 
-        # Check acyclic or not
-        if not self.DAG.check_acyclic():
-            self.DAG.remove_node(name)
-            for pa in new_pa:
-                self.DAG.remove_node(pa)
-            raise AttributeError('The node causes cyclic paths')
-
     def append_from_js(self, js):
         loci = loci_from_json(js)
         if 'Des' in js:
-- 
2.43.0


From 57266ae77cb62e397b18a4f9bc150cf38200b3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 03/63] fix: bayes_net_from_json reads the output of to_json

It looked up a key to_json never writes and froze the network instead of its graph, so reading and clone() always failed.
---
 src/sims_pars/bayesnet/bn.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index d57a2a1..d4d91e8 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -317,11 +317,5 @@ def bayes_net_from_json(js):
 
     for node in js['Nodes']:
         bn.append_from_js(node)
-    nx.freeze(bn)
-    bn.json = js
-    bn.__order = js['Order']
-    bn.__roots = js['Roots']
-    bn.__rv_roots = js['RVRoots']
-    bn.__leaves = js['Leaves']
-    bn.__exo = js['Exo']
+    bn.complete()
     return bn
-- 
2.43.0


From 0f87ac26ec8e2e906fb8be4cb59cd92278b33dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:32 +0000
Subject: [PATCH 04/63] fix: JSON forms and copies keep the descriptions of
 variables

append_from_js reads 'Des', but nothing wrote it.
---
 src/sims_pars/bayesnet/bn.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index d4d91e8..e603e28 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -27,8 +27,16 @@ def find_exo(bn):
     return [k for k, v in bn.DAG.nodes.data() if isinstance(v['loci'], ExoValueLoci)]
 
 
+def form_node_js(bn, node):
+    dat = bn.DAG.nodes[node]
+    js = dat['loci'].to_json()
+    if 'Des' in dat:
+        js['Des'] = dat['Des']
+    return js
+
+
 def form_js(bn):
-    nodes = [bn.DAG.nodes[node]['loci'].to_json() for node in bn.DAG.nodes()]
+    nodes = [form_node_js(bn, node) for node in bn.DAG.nodes()]
     return {
         'Name': bn.Name,
         'Nodes': nodes,
@@ -238,7 +246,7 @@ class BayesianNetwork:
                 continue
             if node in bn:
                 bn.DAG.remove_node(node)
-            bn.append_from_js(sub_bn[node].to_json())
+            bn.append_from_js(form_node_js(sub_bn, node))
 
         bn.__check_edges()
         bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
@@ -273,7 +281,7 @@ class BayesianNetwork:
 
         else:
             for node in self.DAG.nodes():
-                bn.append_from_js(self[node].to_json())
+                bn.append_from_js(form_node_js(self, node))
         bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
         return bn
 
-- 
2.43.0


From 69cef699c64c22660c628488215e2599dcfd1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 05/63] fix: scripts may hold tabs and comment lines

Only spaces were removed, so the tab-indented output of to_script could not be read back, and a line holding just a comment, or an empty one after a definition, raised AttributeError.
---
 src/sims_pars/bayesnet/bn.py   | 2 +-
 src/sims_pars/bayesnet/loci.py | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index e603e28..cafd081 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -297,7 +297,7 @@ def bayes_net_from_script(script):
     :return: BayesianNetwork
     """
     lines = script.split('\n')
-    lines = [line.replace(' ', '') for line in lines]
+    lines = [re.sub(r'\s+', '', line) for line in lines]
     for line in lines:
         mat = re.match(r'pcore(\w+){', line, re.I)
         if mat:
diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 8e92d90..bad24b9 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -245,14 +245,11 @@ def loci_from_json(js):
 
 
 def parse_loci(df):
-    df = df.replace(' ', '')
+    df = re.sub(r'\s+', '', df)
 
-    if '#' in df:
-        df, des = re.match(r'\A(\S+)#(\S+)', df).groups()
-    else:
-        des = ''
+    df, _, des = df.partition('#')
 
-    if '~' in df:
+    if re.match(r'\A\w+~\S+', df):
         name, loci = re.match(r'\A(\w+)~(\S+)', df).groups()
         loci = DistributionLoci(name, loci)
     elif re.match(r'\A\w+=\S+', df):
-- 
2.43.0


From fef92027ee9f701b0ff292ea64b6754cd8205ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 06/63] fix: a function without arguments has no parents

'x ~ norm()' raised TypeError although every argument has a default.
---
 src/sims_pars/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index 4d08de6..a83e4db 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -189,7 +189,7 @@ class ParsedFunction:
 
     @property
     def Parents(self):
-        return set.union(*[arg['value'].Var for arg in self.Arguments])
+        return set().union(*[arg['value'].Var for arg in self.Arguments])
 
     def to_json(self, loc=None):
         return {
-- 
2.43.0


From 067c89eb67fdd137e07b9e3d8c8f51ea5581264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 07/63] fix: resolve names in arguments of a definition among
 variables and math functions

The whole call was evaluated in the table of distributions: a variable named after a distribution (beta, k, gamma) replaced it, and exp(...) inside an argument meant the exponential distribution.
---
 src/sims_pars/factory/craftstation.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index ed63a0f..1d8ebc6 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -1,6 +1,7 @@
 from pydantic import BaseModel, ValidationError
 from abc import ABCMeta, abstractmethod
 import ast
+from sims_pars.util import MATH_FUNC
 
 __author__ = 'Chu-Chang Ku'
 __all__ = ['Atelier', 'AbsCreator']
@@ -58,7 +59,17 @@ class Atelier:
     def get_blueprint(self, seq, loc=None, to_complete=True):
         if to_complete:
             seq = self.complete_def(seq)
-        return eval(seq, self.Creators, loc)
+
+        call = ast.parse(seq.strip(), mode='eval').body
+        if not isinstance(call, ast.Call) or call.args:
+            raise AttributeError('Unknown input type')
+        creator = self.Creators[call.func.id]
+
+        args = dict()
+        for arg in call.keywords:
+            value = compile(ast.Expression(arg.value), seq, 'eval')
+            args[arg.arg] = eval(value, MATH_FUNC, loc)
+        return creator(**args)
 
     def create(self, seq, loc=None, append_src=False, to_complete=True):
         bp = self.get_blueprint(seq, loc=loc, to_complete=to_complete)
-- 
2.43.0


From 2101813c65baaf86325e883999216bd425b728bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 08/63] fix: data functions can be used in definitions

complete_function only knows distributions, so naming a function registered with add_data_func raised KeyError.
---
 src/sims_pars/bayesnet/loci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index bad24b9..750710c 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -113,8 +113,8 @@ class ExoValueLoci(Loci):
 class DistributionLoci(Loci):
     def __init__(self, name, val, pas=None):
         Loci.__init__(self, name)
-        self.Func = complete_function(val)
         self.Parsed = parse_function(val)
+        self.Func = val if self.Parsed.Function in DATA_FUNC else complete_function(val)
         self.__parents = pas if pas else self.Parsed.Parents
 
     @property
@@ -129,7 +129,7 @@ class DistributionLoci(Loci):
         try:
             return parse_distribution(self.Func, loc=pas)
         except KeyError:
-            return find_data_sampler(self.Func.Function, loc=pas)
+            return find_data_sampler(self.Parsed.Function, loc=pas)
 
     def render(self, pas=None):
         return self.get_distribution(pas).sample()
-- 
2.43.0


From 35c7a18fee1cd748c26bf7459640db9b9b2baf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 09/63] fix: minimal_requirements keeps ancestors reaching the
 target around the given nodes

An ancestor of a given node was dropped even when it also feeds the target by another path.
---
 src/sims_pars/bayesnet/dag.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index c3a3480..a11b4aa 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -159,13 +159,10 @@ def minimal_dag(g, nodes):
 
 
 def minimal_requirements(g, target, cond):
-    anc = set(g.ancestors(target))
-
-    for s in cond:
-        if s in anc:
-            anc.difference_update(g.ancestors(s))
-
-    return g.sort(anc)
+    given = [s for s in cond if s != target]
+    req = get_sufficient_nodes(g, [target], given)
+    req.discard(target)
+    return g.sort(req)
 
 
 def get_sufficient_nodes(g, included, given=None):
-- 
2.43.0


From 4ea2a3343f89602b8e6239fb3e43e4f17ee29c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 10/63] fix: a constant has zero probability, not infinite
 density, at other values

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index a87605c..7b09455 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -163,7 +163,7 @@ class Const(AbsDistribution):
         return self.K
 
     def logpdf(self, v):
-        return 0 if v == self.K else float('inf')
+        return 0 if v == self.K else -float('inf')
 
     def mean(self):
         return self.K
-- 
2.43.0


From 5fe48947990b3dfd2cf2f7efa4b35b2ae6be8beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 11/63] fix: the log density of a category uses its probability

It used the weight as given, and raised KeyError outside the categories instead of -inf.
---
 src/sims_pars/prob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 7b09455..067a58e 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -201,10 +201,11 @@ class CategoricalRV(AbsDistribution):
         return 'Category'
 
     def logpdf(self, v):
+        lp = dict(zip(self.cat, np.log(self.p)))
         try:
-            return np.array([x*np.log(self.kv[k]) for k, x in v.items()]).sum()
+            return np.array([x*lp.get(k, -np.inf) for k, x in v.items()]).sum()
         except AttributeError:
-            return np.log(self.kv[v])
+            return lp.get(v, -np.inf)
 
     def sample(self, n=1, **kwargs):
         sam = rd.choice(self.cat, n, p=self.p)
-- 
2.43.0


From 8084d083e3b959f855df6cccf31d2bf5b95e447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:25 +0000
Subject: [PATCH 12/63] fix: an impulse without effect on the network is not an
 error

With no known locus, or one foreign to the network, impulse raised TypeError or NetworkXError.
---
 src/sims_pars/bayesnet/chromosome.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index fa9450a..9d39ab3 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -44,7 +44,7 @@ class Chromosome:
         if bn:
             g = bn.DAG
             imp = {k: v for k, v in new_locus.items() if k in self}
-            shocked = set.union(*[set(nx.descendants(g, k)) for k in imp.keys()])
+            shocked = set().union(*[nx.descendants(g, k) for k in imp.keys() if k in g])
             non_imp = [k for k, v in imp.items() if v is None]
             imp = {k: v for k, v in imp.items() if v is not None}
             shocked.difference_update(imp.keys())
-- 
2.43.0


From fab707ef33605e958b3b08e88edd736c52411f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 13/63] fix: merge keeps variables redefined by the other
 network linked to their children

They were replaced by exogenous variables and then dropped, leaving undefined references.
---
 src/sims_pars/bayesnet/bn.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index cafd081..0ba08b3 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -116,7 +116,6 @@ class BayesianNetwork:
         self.UserDefinedFunctions[fn_name] = fn
 
     def __check_edges(self):
-        exo = set()
         for node in self.DAG.order():
             loci = self[node]
             pars = set(loci.Parents)
@@ -124,10 +123,13 @@ class BayesianNetwork:
                 if k not in pars:
                     self.DAG.remove_edge(k, node)
             pars.difference_update(self.DAG.parents(node))
-            exo.update(pars)
+            for k in pars:
+                if k not in self.DAG:
+                    self.append_loci(ExoValueLoci(k))
+                self.DAG.add_edge(k, node)
 
-        for node in exo:
-            self.append_loci(ExoValueLoci(node))
+        if not self.DAG.check_acyclic():
+            raise AttributeError('The node causes cyclic paths')
 
         exo = find_exo(self)
         for node in exo:
-- 
2.43.0


From e6cc21f96a6ed6172a06bfc96ef69325bf21b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:22 +0000
Subject: [PATCH 14/63] fix: extend copies definitions

It only copied names, which turned every variable into an exogenous one.
---
 src/sims_pars/bayesnet/bn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 0ba08b3..2650fdd 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -265,7 +265,7 @@ class BayesianNetwork:
 
         for node in self.Order:
             if override or node not in ext:
-                new_bn.append_from_definition(node)
+                new_bn.append_from_js(form_node_js(self, node))
 
         new_bn.complete()
         return new_bn
-- 
2.43.0


From 8aa098cec0bea04838c3d19547e38caa8c72a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 15/63] fix: completed definitions keep the quotes of text
 arguments

A text given by position, or as a default, was completed to a variable name.
---
 src/sims_pars/factory/craftstation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index 1d8ebc6..e6ee7e4 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -31,7 +31,7 @@ class Atelier:
         tp = inputs.func.id
         req = self.Creators[tp].schema()['properties']
 
-        args = [arg.value if isinstance(arg, ast.Constant) else ast.unparse(arg) for arg in inputs.args]
+        args = [ast.unparse(arg) for arg in inputs.args]
 
         named = [arg.arg for arg in inputs.keywords]
         unnamed = {k: v for k, v in req.items() if k not in named}
@@ -48,7 +48,7 @@ class Atelier:
             try:
                 v = args[i]
             except IndexError:
-                v = v['default']
+                v = repr(v['default'])
             temp.append(f'{k}={v}')
 
         unnamed = f'({", ".join(temp)}'
-- 
2.43.0


From 3eb0fdcc03c47f1be14f42266bc2da45a1025c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 16/63] fix: the mean weight of a sample without any finite
 weight is zero

---
 src/sims_pars/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index a83e4db..063b70c 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -82,9 +82,9 @@ def resample(wts, hs, pars=None, log=True, new_size=None):
     size = len(wts)
     if size == 0:
         if pars:
-            return hs, pars, -np.log(size)
+            return hs, pars, -np.inf
         else:
-            return hs, -np.log(size)
+            return hs, -np.inf
 
     hs = [h for h, f in zip(hs, fin) if f]
 
-- 
2.43.0


From 895d84f9d1628db6c40f47ddc41c6e2b1a09abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 17/63] fix: parameter cores keep their log prior

---
 src/sims_pars/simulation/parcore.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 400a411..4b1061d 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -15,6 +15,14 @@ class ParameterCore(Chromosome):
         self.Actors = None
         self.ChildrenActors = None
 
+    @property
+    def LogPrior(self):
+        return self.LogProb
+
+    @LogPrior.setter
+    def LogPrior(self, prior):
+        self.LogProb = prior
+
     @property
     def Group(self):
         return self.SG.Name
@@ -198,9 +206,6 @@ class ParameterCore(Chromosome):
         for v in self.Children.values():
             v.__set_response(imp, shocked)
 
-        if shocked_locus:
-            self.reset_probability()
-
     def __dict__(self):
         return dict(self.Locus)
 
@@ -251,7 +256,6 @@ class ParameterCore(Chromosome):
         else:
             sg = self.SG
         pc_new = sg.generate(self.Nickname, exo=dict(self))
-        pc_new.LogLikelihood = self.LogLikelihood
         pc_new.LogPrior = self.LogPrior
 
         if include_children:
@@ -264,7 +268,6 @@ class ParameterCore(Chromosome):
             gp = chd.Group
             chd_new = pc_new.breed(k, gp, exo=chd.Locus)
             chd_new.LogPrior = chd.LogPrior
-            chd_new.LogLikelihood = chd.LogLikelihood
             chd.__children_copy(chd_new)
 
 
-- 
2.43.0


From 03a93e76ba91c85a3aeebd848b827a409143606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 18/63] fix: duplicate breeds from the parent

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 4b1061d..3fcd0fe 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -69,7 +69,7 @@ class ParameterCore(Chromosome):
     def duplicate(self, nickname):
         if not self.Parent:
             raise AttributeError('Root node can not be duplicated')
-        return self.Parent.bread(nickname, self.Group, exo=self.Locus)
+        return self.Parent.breed(nickname, self.Group, exo=self.Locus)
 
     def detach_from_parent(self, collect_pars=False):
         """
-- 
2.43.0


From 7c370d09d797bbda512118f746ea9a6f0271fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 19/63] fix: detaching collects the parameters of the parent
 and keeps the own ones

---
 src/sims_pars/simulation/parcore.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 3fcd0fe..49c1a85 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -80,9 +80,8 @@ class ParameterCore(Chromosome):
             return
         self.Parent.remove_children(self.Nickname)
         if collect_pars:
-            for k, v in self.Parent:
-                self[k] = v
-            self.SG.set_local_actors(self)
+            self.Locus = dict(iter(self))
+            self.Actors = None
 
         self.Parent = None
 
-- 
2.43.0


From b22620e2302fb1235032d543d87491eaef5dd153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 20/63] fix: get_child_samplers prepares the samplers of a
 group

---
 src/sims_pars/simulation/parcore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 49c1a85..71f6f70 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -141,8 +141,9 @@ class ParameterCore(Chromosome):
 
         try:
             ca = self.ChildrenActors[group]
-        except KeyError:
-            ca = self.SG.SC[group].get_shared_actors(self)
+        except (KeyError, TypeError):
+            self.SG.SC[group].put_shared_actors_on_parent(self)
+            ca = self.ChildrenActors[group]
         return ca
 
     def find_descendant(self, address):
-- 
2.43.0


From 8487701e4c2143704b53fd1f18ec096b6de99ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 21/63] fix: reset_sc reaches the children

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 71f6f70..56375b0 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -212,7 +212,7 @@ class ParameterCore(Chromosome):
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
-            v.reset_sc(self, sc)
+            v.reset_sc(sc)
 
     @property
     def DeepLogPrior(self):
-- 
2.43.0


From 21e3f28ffa4cd4add0ca075078c684dc0a6bbcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 22/63] fix: generating a group without parent draws its inputs

---
 src/sims_pars/simulation/simugroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/simugroup.py b/src/sims_pars/simulation/simugroup.py
index d843ba8..e883f9b 100644
--- a/src/sims_pars/simulation/simugroup.py
+++ b/src/sims_pars/simulation/simugroup.py
@@ -36,7 +36,7 @@ class SimulationGroup:
                 try:
                     vs[d] = parent[d]
                 except (TypeError, KeyError):
-                    vs[d] = self.BN[d].fill(vs)
+                    self.BN[d].fill(vs)
 
         prior = 0
         for d in self.Fixed:
-- 
2.43.0


From 7eeac6dafae03ccd81eae075806ffbbe0b0677f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 23/63] fix: variables below undefined floating ones are
 located as well

---
 src/sims_pars/simulation/nodeset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index fcfc6dc..c1ce773 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -253,8 +253,11 @@ class NodeSet:
                     self.FloatingNodes.add(node)
                 else:
                     self.FixedNodes.add(node)
+                    gfi.add(node)
+                gfl.add(node)
             elif ps <= gfl:
                 self.FloatingNodes.add(node)
+                gfl.add(node)
             else:
                 to_pass_down.add(node)
         for ch in self.__children.values():
-- 
2.43.0


From cbedff2794659cf0bbf197149623ba995a49afe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 24/63] fix: groups share the variables fixed above them

---
 src/sims_pars/simulation/nodeset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index c1ce773..9b473d6 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -198,6 +198,9 @@ class NodeSet:
         return set.union(self.__will_be_floating, self.FloatingNodes)
 
     def _resolve_relations(self, bn):
+        if self.__parent:
+            self.__was_fixed = set.union(self.__parent.__was_fixed, self.__parent.FixedNodes)
+
         to_shift = set([d for d in self.ExoNodes if d not in self.__was_fixed])
 
         to_hoist = [d for d in to_shift if not bn.has_randomness(d, self.__was_fixed)]
-- 
2.43.0


From e9b2991943af5774e00f500250b7df43b9555a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:04 +0000
Subject: [PATCH 25/63] fix: groups read the parents of their fixed variables

---
 src/sims_pars/simulation/nodeset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 9b473d6..2683fd8 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -303,6 +303,9 @@ class NodeSet:
             ch._define_sampler_blueprints(bn)
 
     def _sort_fixed_nodes(self, bn):
+        for d in self.FixedNodes:
+            self.ExoNodes.update(p for p in bn[d].Parents if p not in self.FixedNodes)
+
         self.FixedNodes = bn.sort(self.FixedNodes)
         for ch in self.__children.values():
             ch._sort_fixed_nodes(bn)
-- 
2.43.0


From 0e1e29ced043e7ea6518e58dcef409292be82438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 26/63] fix: undefined variables are passed down in order

---
 src/sims_pars/simulation/nodeset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 2683fd8..03a25a0 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -240,7 +240,7 @@ class NodeSet:
         return nodes
 
     def _pass_down_undefined(self, bn, fixed, floating, nodes):
-        to_pass_down = set()
+        to_pass_down = list()
         gfi = set(self.FixedNodes)
         gfi.update(fixed)
 
@@ -262,7 +262,7 @@ class NodeSet:
                 self.FloatingNodes.add(node)
                 gfl.add(node)
             else:
-                to_pass_down.add(node)
+                to_pass_down.append(node)
         for ch in self.__children.values():
             ch._pass_down_undefined(bn, gfi, gfl, to_pass_down)
 
-- 
2.43.0


From 7a16c3f5ae674730cb04ba3f09d0f621d55d3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:49 +0000
Subject: [PATCH 27/63] fix: variables named like a mathematical function are
 not taken for values

---
 src/sims_pars/bayesnet/loci.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 750710c..a5505f6 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -258,7 +258,8 @@ def parse_loci(df):
             loci = PseudoLoci(name, loci)
         else:
             try:
-                loci = ValueLoci(name, loci)
+                value = not parse_parents(loci)[0]
+                loci = ValueLoci(name, loci) if value else FunctionLoci(name, loci)
             except NameError:
                 loci = FunctionLoci(name, loci)
     elif re.match(r'\A\w+\Z', df):
-- 
2.43.0


From 6538570a79cf1a518599e938735595b148a1a02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:57 +0000
Subject: [PATCH 28/63] fix: distributions see their parents only, other
 variables do not hide functions

---
 src/sims_pars/bayesnet/loci.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index a5505f6..b4f1369 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -126,8 +126,14 @@ class DistributionLoci(Loci):
         return self.Func
 
     def get_distribution(self, pas=None):
+        loc = dict()
+        for pa in self.Parents:
+            try:
+                loc[pa] = pas[pa]
+            except (KeyError, TypeError):
+                pass
         try:
-            return parse_distribution(self.Func, loc=pas)
+            return parse_distribution(self.Func, loc=loc)
         except KeyError:
             return find_data_sampler(self.Parsed.Function, loc=pas)
 
-- 
2.43.0


From ce02bb18ddbcdd7aaa298d8beb694f8c2682c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:40 +0000
Subject: [PATCH 29/63] fix: the domain of a model consists of its free
 parameters

---
 src/sims_pars/fit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index 03d4d1d..a20c145 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -88,7 +88,7 @@ class DataModel(metaclass=ABCMeta):
     def Domain(self):
         p = self.sample_prior()
         res = []
-        for node in self.BayesianNetwork.RVRoots:
+        for node in self.FreeParameters:
             d = self.BayesianNetwork[node].get_distribution(p)
             res.append(Domain(name=node, tp=d.Type, upper=d.Upper, lower=d.Lower, loc=d.mean(), scale=d.std()))
         return res
-- 
2.43.0


From 85fb0643c46d62ed57dbef2dd2123b01662ad237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:43 +0000
Subject: [PATCH 30/63] fix: the error of a negative target is positive

---
 src/sims_pars/fit/targets/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/targets/single.py b/src/sims_pars/fit/targets/single.py
index 5d04d05..17acff7 100644
--- a/src/sims_pars/fit/targets/single.py
+++ b/src/sims_pars/fit/targets/single.py
@@ -14,7 +14,7 @@ class DataPointError(AbsSingleData):
     def __init__(self, name, v, error=0.1):
         AbsSingleData.__init__(self, name, v)
         self.Error = error
-        self.Std = error * v / 2 / 1.96
+        self.Std = error * abs(v) / 2 / 1.96
 
     def get_var_obs(self):
         return self.Std ** 2
-- 
2.43.0


From de92cf5896945bad706fcd23bb2a8e05b7d3b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:46 +0000
Subject: [PATCH 31/63] fix: posterior particles of the serial rejection
 sampler are particles

---
 src/sims_pars/fit/abcom/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index e08de05..0a2fe95 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -106,7 +106,7 @@ class ApproxBayesCom(Fitter):
             n_eval = 0
             for _ in tqdm.tqdm(range(n_collect), 'Collect posterior'):
                 _, sim, ne = sample_ess(self.Model, eps)
-                post.append(sim)
+                post.append(Particle.from_json(sim))
                 n_eval += ne
 
         for pt in post.Particles:
-- 
2.43.0


From 5a8975d4c4355d440889f688d913efca822e8843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:49 +0000
Subject: [PATCH 32/63] fix: proposals with invalid parameters are drawn again

---
 src/sims_pars/fit/abc_smc/alg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 17a097a..6b5d787 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -72,7 +72,10 @@ def sample_mutation(model, pt0, steps, unpack=False):
     p0 = pt0.Pars if isinstance(pt0, Particle) else pt0['Pars']['Locus']
     while np.isinf(di):
         p1 = mutate(p0, steps)
-        p1 = model.serve(p1)
+        try:
+            p1 = model.serve(p1)
+        except ValueError:
+            continue
         if np.isinf(p1.LogProb):
             continue
 
-- 
2.43.0


From b8b9de5e8958fb2302bf5e7770a97d318035737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:52 +0000
Subject: [PATCH 33/63] fix: a particle without any finite proposal stays where
 it is

---
 src/sims_pars/fit/abc_smc/alg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 6b5d787..06b10b2 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -85,8 +85,8 @@ def sample_mutation(model, pt0, steps, unpack=False):
         di = model.calc_distance(sim)
 
         if n_eval > 20:
-            sim = pt0
-            di = pt0['distance']
+            sim = pt0 if isinstance(pt0, Particle) else Particle.from_json(pt0)
+            di = model.calc_distance(sim)
             break
 
     sim = sim.to_json() if unpack else sim
-- 
2.43.0


From 55e556acf9b0356521e925586e3eb57ba9ddecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:54 +0000
Subject: [PATCH 34/63] fix: particles at the threshold are kept

---
 src/sims_pars/fit/abc_smc/alg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 06b10b2..7340f33 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -208,8 +208,8 @@ class ApproxBayesComSMC(Fitter):
         wts = wts0.copy()
         for a in range(len(wts)):
             d = ds[a]
-            if d < eps0:
-                wts[a] = wts[a] if d < eps1 else 0
+            if d <= eps0:
+                wts[a] = wts[a] if d <= eps1 else 0
         wts /= wts.sum()
         return wts
 
@@ -247,7 +247,7 @@ class ApproxBayesComSMC(Fitter):
         acc = np.zeros(n_iter)
         for i, p in enumerate(theta_p):
             d_p = p['distance']
-            if d_p < eps1:
+            if d_p <= eps1:
                 acc[i] = 1
 
         # Update accepted proposals
@@ -324,7 +324,7 @@ class ApproxBayesComSMC(Fitter):
 
         for pt1, ptp in zip(theta1, theta_p):
             d_p = ptp['distance']
-            if d_p < eps:
+            if d_p <= eps:
                 post.append(pt1)
             else:
                 post.append(pt1)
-- 
2.43.0


From 572d45cd3e0f864e341e9ea14293083e8c096ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 35/63] fix: history matching with a given number of
 simulations

---
 src/sims_pars/fit/hme/alg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 4c526f9..3bb172b 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -68,10 +68,10 @@ class BayesHistoryMatching(Fitter):
         self.Settings['n_pars'] = n_pars = len(model.Domain)
 
         if self.Settings['n_sims'] <= 0:
-            self.Settings['n_sims'] = n_sims = n_pars * 10
+            self.Settings['n_sims'] = n_pars * 10
 
         if self.Settings['n_ems'] <= 0:
-            self.Settings['n_ems'] = n_sims * 100
+            self.Settings['n_ems'] = self.Settings['n_sims'] * 100
 
         v_m = self.Settings['var_model']
 
-- 
2.43.0


From dc17825a45177b87f63b100102950bb3fde503b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:22 +0000
Subject: [PATCH 36/63] fix: emulators are trained on the scale they predict on

---
 src/sims_pars/fit/hme/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 3bb172b..eddf6fa 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -126,7 +126,7 @@ class BayesHistoryMatching(Fitter):
         n_pars, n_ems = self.Settings['n_pars'], self.Settings['n_ems']
         model = self.Model
 
-        xss = [pt.Notes['Xs'] for pt in pts_sim]
+        xss = [[con.value2uniform(x) for con, x in zip(cons, pt.Notes['Xs'])] for pt in pts_sim]
         yss = [pt.Notes['Ys'] for pt in pts_sim]
 
         self.info('Train emulators')
-- 
2.43.0


From 1cfb28f6c92270926dff4862b318199b52569638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:24 +0000
Subject: [PATCH 37/63] fix: points at the cut-off are kept, one remains

---
 src/sims_pars/fit/hme/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index eddf6fa..ba3fed7 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -157,7 +157,7 @@ class BayesHistoryMatching(Fitter):
 
         co, acc = self.Settings['cutoff'], self.Settings['min_acc']
         co = max(co, np.quantile(ims, acc))
-        pts_pls = [pt for pt in pts_emu if pt['Imp'] < co]
+        pts_pls = [pt for pt in pts_emu if pt['Imp'] <= co]
 
         acc = len(pts_pls) / len(pts_emu)
         return pts_pls, co, acc
-- 
2.43.0


From 21c1047e649998a56df52766e8116df06af1ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:25 +0000
Subject: [PATCH 38/63] fix: history matching simulates complete parameters

---
 src/sims_pars/fit/hme/alg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index ba3fed7..9f349a3 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -116,7 +116,7 @@ class BayesHistoryMatching(Fitter):
 
         for xs in tqdm.tqdm(xss, desc='Simulation'):
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
-            sim = model.simulate(pars)
+            sim = model.simulate(model.serve(pars))
             model.flatten(sim)
             pts_sim.append(sim)
         return pts_sim
@@ -187,7 +187,7 @@ class BayesHistoryMatching(Fitter):
 
         for xs in xss:
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
-            sim = model.simulate(pars)
+            sim = model.simulate(model.serve(pars))
             model.flatten(sim)
             post.append(sim)
 
-- 
2.43.0


From 9447fff4c572f7e37b9a1164f19fd1b9fe70a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 39/63] fix: time zero is a time to step to

---
 src/sims_pars/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/monitor.py b/src/sims_pars/monitor.py
index 3d8a9a5..c8d05be 100644
--- a/src/sims_pars/monitor.py
+++ b/src/sims_pars/monitor.py
@@ -47,7 +47,7 @@ class Monitor:
         self.Last = dict()
 
     def step(self, time=None):
-        time = time if time else self.Time + 1
+        time = time if time is not None else self.Time + 1
         if time < self.Time:
             raise KeyError('Backward time specified')
         elif time == self.Time:
-- 
2.43.0


From 311c363e8376ebbe4700ba0b3e3c1f244f168d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:18 +0000
Subject: [PATCH 40/63] fix: trajectories of a monitor without steps are empty

---
 src/sims_pars/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/monitor.py b/src/sims_pars/monitor.py
index c8d05be..4c88be9 100644
--- a/src/sims_pars/monitor.py
+++ b/src/sims_pars/monitor.py
@@ -64,7 +64,7 @@ class Monitor:
 
     @property
     def Trajectories(self):
-        dat = pd.DataFrame(self.Records)
+        dat = pd.DataFrame(self.Records, columns=None if self.Records else ['Time'])
         return dat.set_index('Time')
 
     def save_trajectories(self, filename):
-- 
2.43.0


From b2e1101cd2b7027b0c7efd820d3b89d8aa591246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:19 +0000
Subject: [PATCH 41/63] fix: the trace of a fit starts with it

---
 src/sims_pars/fit/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index a20c145..520351b 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -210,6 +210,7 @@ class Fitter(metaclass=ABCMeta):
 
     def fit(self, model: DataModel, **kwargs):
         self.attach(model)
+        self.Monitor.reset()
         self.Collector = ParameterSet()
         self.update_settings(**kwargs)
         self.initialise()
-- 
2.43.0


From 0b06d6e7da1f37c82a37251290117c5bf5e5de38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:21 +0000
Subject: [PATCH 42/63] fix: history matching keeps the settings given

---
 src/sims_pars/fit/hme/alg.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 9f349a3..862e1b5 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -47,6 +47,7 @@ class Matchers:
 class BayesHistoryMatching(Fitter):
     def __init__(self, **kwargs):
         Fitter.__init__(self, 'BHM', **kwargs)
+        self.Sizes = dict()
 
     @property
     def DefaultSettings(self) -> dict:
@@ -65,13 +66,15 @@ class BayesHistoryMatching(Fitter):
 
         self.info('Initialising')
         model = self.Model
-        self.Settings['n_pars'] = n_pars = len(model.Domain)
+        n_pars, n_sims, n_ems = len(model.Domain), self.Settings['n_sims'], self.Settings['n_ems']
 
-        if self.Settings['n_sims'] <= 0:
-            self.Settings['n_sims'] = n_pars * 10
+        if n_sims <= 0:
+            n_sims = n_pars * 10
 
-        if self.Settings['n_ems'] <= 0:
-            self.Settings['n_ems'] = self.Settings['n_sims'] * 100
+        if n_ems <= 0:
+            n_ems = n_sims * 100
+
+        self.Sizes = {'n_pars': n_pars, 'n_sims': n_sims, 'n_ems': n_ems}
 
         v_m = self.Settings['var_model']
 
@@ -109,7 +112,7 @@ class BayesHistoryMatching(Fitter):
         lower, upper = state.Bounds
         cons = state.Converters
         model = self.Model
-        n_pars, n_sims = self.Settings['n_pars'], self.Settings['n_sims']
+        n_pars, n_sims = self.Sizes['n_pars'], self.Sizes['n_sims']
         xss = LatinHypercube(n_pars).random(n_sims)
         xss = lower + xss * (upper - lower)
         pts_sim = list()
@@ -123,7 +126,7 @@ class BayesHistoryMatching(Fitter):
 
     def _emulate(self, pts_sim, state):
         emulators, matchers, cons = state.Emulators, state.Matchers, state.Converters
-        n_pars, n_ems = self.Settings['n_pars'], self.Settings['n_ems']
+        n_pars, n_ems = self.Sizes['n_pars'], self.Sizes['n_ems']
         model = self.Model
 
         xss = [[con.value2uniform(x) for con, x in zip(cons, pt.Notes['Xs'])] for pt in pts_sim]
@@ -177,7 +180,7 @@ class BayesHistoryMatching(Fitter):
         assert self.State is not None
 
         state = self.State
-        n_pars = self.Settings['n_pars']
+        n_pars = self.Sizes['n_pars']
         lower, upper = state.Bounds
         cons = state.Converters
         model = self.Model
-- 
2.43.0


From 65f6615368538d93dd9eea2a0065e579028f557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:23 +0000
Subject: [PATCH 43/63] fix: errors of fitters are logged as errors

---
 src/sims_pars/fit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index 520351b..3318a18 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -193,7 +193,7 @@ class Fitter(metaclass=ABCMeta):
         self.Monitor.info(msg)
 
     def error(self, msg):
-        self.Monitor.info(msg)
+        self.Monitor.error(msg)
 
     @property
     def DefaultSettings(self) -> dict:
-- 
2.43.0


From 1be0965284a9b0e5166ad40cbb14e694af8cf335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:05 +0000
Subject: [PATCH 44/63] fix: import the genetic algorithm from the package

---
 src/sims_pars/fit/ga/__init__.py | 2 +-
 src/sims_pars/fit/ga/alg.py      | 6 +++---
 src/sims_pars/fitting/fitter.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/fit/ga/__init__.py b/src/sims_pars/fit/ga/__init__.py
index 0381e63..3214c58 100644
--- a/src/sims_pars/fit/ga/__init__.py
+++ b/src/sims_pars/fit/ga/__init__.py
@@ -1 +1 @@
-from fit.ga.alg import GeneticAlg
+from sims_pars.fit.ga.alg import GeneticAlg
diff --git a/src/sims_pars/fit/ga/alg.py b/src/sims_pars/fit/ga/alg.py
index b5f7cb0..3d85e86 100644
--- a/src/sims_pars/fit/ga/alg.py
+++ b/src/sims_pars/fit/ga/alg.py
@@ -1,8 +1,8 @@
 from sims_pars.fitting.fitter import Fitter, ParameterSet
 from sims_pars.fitting.util import draw, draw_parallel, serve_and_evaluate, serve_and_evaluate_parallel
-from fit.ga.cross import get_crossover
-from fit.ga.select import get_selector
-from fit.ga.mutate import get_mutator
+from sims_pars.fit.ga.cross import get_crossover
+from sims_pars.fit.ga.select import get_selector
+from sims_pars.fit.ga.mutate import get_mutator
 import numpy as np
 import numpy.random as rd
 from scipy.special import logsumexp
diff --git a/src/sims_pars/fitting/fitter.py b/src/sims_pars/fitting/fitter.py
index a4c9007..6419429 100644
--- a/src/sims_pars/fitting/fitter.py
+++ b/src/sims_pars/fitting/fitter.py
@@ -3,7 +3,7 @@ from sims_pars.bayesnet import Chromosome
 from sims_pars.monitor import Monitor
 from sims_pars.fitting.base import AbsObjective
 from sims_pars.fitting.util import draw
-from fit.results import ParameterSet
+from sims_pars.fit.results import ParameterSet
 from joblib import Parallel, delayed
 
 
-- 
2.43.0


From 4695aa2158eeb9bf1c491779eab5ed341a147401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:24 +0000
Subject: [PATCH 45/63] fix: import the data sets from the package

---
 src/sims_pars/data/__init__.py     | 10 +++++-----
 src/sims_pars/data/reg/__init__.py |  8 ++++----
 src/sims_pars/data/reg/glm.py      |  4 ++--
 src/sims_pars/data/reg/hazard.py   |  2 +-
 src/sims_pars/data/reg/linear.py   |  2 +-
 src/sims_pars/data/reg/survival.py |  4 ++--
 src/sims_pars/data/static.py       |  4 ++--
 src/sims_pars/data/timeseries.py   |  4 ++--
 8 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/sims_pars/data/__init__.py b/src/sims_pars/data/__init__.py
index 72ba13f..41ab4af 100644
--- a/src/sims_pars/data/__init__.py
+++ b/src/sims_pars/data/__init__.py
@@ -1,7 +1,7 @@
-from epidag.data.frame import *
-from epidag.data.static import *
-from epidag.data.timeseries import *
-from epidag.data.datafunction import *
-from epidag.data.reg import *
+from sims_pars.data.frame import *
+from sims_pars.data.static import *
+from sims_pars.data.timeseries import *
+from sims_pars.data.datafunction import *
+from sims_pars.data.reg import *
 
 __author__ = 'TimeWz667'
diff --git a/src/sims_pars/data/reg/__init__.py b/src/sims_pars/data/reg/__init__.py
index ff9a9a1..c53d8e2 100644
--- a/src/sims_pars/data/reg/__init__.py
+++ b/src/sims_pars/data/reg/__init__.py
@@ -1,4 +1,4 @@
-from epidag.data.reg.linear import *
-from epidag.data.reg.glm import *
-from epidag.data.reg.hazard import *
-from epidag.data.reg.survival import *
+from sims_pars.data.reg.linear import *
+from sims_pars.data.reg.glm import *
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.survival import *
diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index fcce1e8..522660a 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.distribution import parse_distribution
-from epidag.data.reg.linear import LinearCombination, Regression
+from sims_pars.prob import parse_distribution
+from sims_pars.data.reg.linear import LinearCombination, Regression
 
 
 __author__ = ['TimeWz667']
diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 459cb73..28f66c2 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -3,7 +3,7 @@ import numpy.random as rd
 from scipy.special import gamma
 from scipy.interpolate import interp1d
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import AbsDistribution
+from sims_pars.prob import AbsDistribution
 
 
 __all__ = ['Hazard', 'ExponentialHazard', 'WeibullHazard', 'EmpiricalHazard',
diff --git a/src/sims_pars/data/reg/linear.py b/src/sims_pars/data/reg/linear.py
index e84a4e6..9df8909 100644
--- a/src/sims_pars/data/reg/linear.py
+++ b/src/sims_pars/data/reg/linear.py
@@ -1,5 +1,5 @@
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import parse_distribution
+from sims_pars.prob import parse_distribution
 
 __author__ = 'TimeWz667'
 __all__ = ['LinearCombination', 'Regression', 'LinearRegression']
diff --git a/src/sims_pars/data/reg/survival.py b/src/sims_pars/data/reg/survival.py
index aab424f..d601f6f 100644
--- a/src/sims_pars/data/reg/survival.py
+++ b/src/sims_pars/data/reg/survival.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.data.reg.hazard import *
-from epidag.data.reg.linear import Regression, LinearCombination
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.linear import Regression, LinearCombination
 
 __author__ = 'TimeWz667'
 __all__ = ['CoxRegression', 'ZeroInflatedCoxRegression']
diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 232670d..d48dfc0 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -1,6 +1,6 @@
 import pandas as pd
-from epidag.distribution import CategoricalRV
-from epidag.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
 
 __author__ = 'TimeWz667'
 __all__ = ['TransitionMatrix', 'ConditionalProbabilityTable']
diff --git a/src/sims_pars/data/timeseries.py b/src/sims_pars/data/timeseries.py
index c9f6b84..bb6ee1a 100644
--- a/src/sims_pars/data/timeseries.py
+++ b/src/sims_pars/data/timeseries.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.interpolate import interp1d
-from epidag.data.frame import AbsDataSet
-from epidag.distribution import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
 
 __author__ = 'TimeWz667'
 __all__ = ['TimeSeries', 'TimeSeriesVector', 'TimeSeriesProbabilityTable', 'LeeCarter']
-- 
2.43.0


From 8f84fd80dccebc5991ac19e1bcf98149df233ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:35 +0000
Subject: [PATCH 46/63] fix: Poisson regressions predict with their expectation

---
 src/sims_pars/data/reg/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index 522660a..6eff0a2 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -44,7 +44,7 @@ class PoissonRegression(Regression):
         return np.exp(mu)
 
     def predict(self, xs):
-        return np.random.poisson(1, self.expectation(xs))
+        return np.random.poisson(self.expectation(xs))
 
     def get_sampler(self, xs):
         return parse_distribution('pois(lam)', {'lam': self.expectation(xs)})
-- 
2.43.0


From b924955dfcd0b9b528444b023656ecbccc70833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:37 +0000
Subject: [PATCH 47/63] fix: empirical hazards can be made and end at their
 last time

---
 src/sims_pars/data/reg/hazard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 28f66c2..f23dd39 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -67,8 +67,8 @@ class EmpiricalHazard(Hazard):
     def __init__(self, times, cum_haz):
         self.MaxTime = max(times)
         self.MaxHaz = max(cum_haz)
-        self.FnCumHaz = interp1d(times, cum_haz, fill_value=[0, self.MaxHaz])
-        self.FnInvCumHaz = interp1d(cum_haz, times, fill_value=[0, self.MaxTime])
+        self.FnCumHaz = interp1d(times, cum_haz, bounds_error=False, fill_value=(0, self.MaxHaz))
+        self.FnInvCumHaz = interp1d(cum_haz, times, bounds_error=False, fill_value=(0, self.MaxTime))
 
     def cum_hazard(self, t):
         return self.FnCumHaz(t)
-- 
2.43.0


From 64ac938e59a6172120b022aa552dd74398884085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:39 +0000
Subject: [PATCH 48/63] fix: densities of hazards are those of their
 distribution

---
 src/sims_pars/data/reg/hazard.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index f23dd39..420701e 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -105,8 +105,10 @@ class HazardDistribution(AbsDistribution):
             return [self.Hazard.inv_cum_hazard(s) for s in ss]
 
     def logpdf(self, v):
-        s1 = np.expm1(-self.Hazard.cum_hazard(v))
-        s2 = np.expm1(-self.Hazard.cum_hazard(v - 1E-5))
+        if v < 0:
+            return - np.inf
+        s1 = np.expm1(-self.RiskRatio * self.Hazard.cum_hazard(v))
+        s2 = np.expm1(-self.RiskRatio * self.Hazard.cum_hazard(v + 1E-5))
         return np.log((s1 - s2)/1E-5)
 
     def mean(self):
@@ -122,7 +124,7 @@ class ZeroInflatedHazardDistribution(HazardDistribution):
         self.Prob = pr
 
     def logpdf(self, v):
-        if v <= 0:
+        if v == 0:
             return np.log(self.Prob)
         else:
             return np.log(1-self.Prob) + HazardDistribution.logpdf(self, v)
-- 
2.43.0


From 4d017bace3554eca73274898052a5cbd4a60de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:41 +0000
Subject: [PATCH 49/63] fix: means of hazards agree with their distribution

---
 src/sims_pars/data/reg/hazard.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 420701e..0ba7603 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -20,11 +20,11 @@ class Hazard(metaclass=ABCMeta):
         pass
 
     @abstractmethod
-    def mean(self):
+    def mean(self, rr=1):
         pass
 
     @abstractmethod
-    def std(self):
+    def std(self, rr=1):
         pass
 
 
@@ -38,11 +38,11 @@ class ExponentialHazard(Hazard):
     def inv_cum_hazard(self, h):
         return h / self.Rate
 
-    def mean(self):
-        return 1 / self.Rate
+    def mean(self, rr=1):
+        return 1 / (self.Rate * rr)
 
-    def std(self):
-        return 1 / self.Rate
+    def std(self, rr=1):
+        return 1 / (self.Rate * rr)
 
 
 class WeibullHazard(Hazard):
@@ -56,11 +56,11 @@ class WeibullHazard(Hazard):
     def inv_cum_hazard(self, h):
         return pow(h, 1/self.K) / self.Lambda
 
-    def mean(self):
-        return gamma(1+1/self.K) * self.Lambda
+    def mean(self, rr=1):
+        return gamma(1+1/self.K) / self.Lambda * pow(rr, -1/self.K)
 
-    def std(self):
-        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) * self.Lambda
+    def std(self, rr=1):
+        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) / self.Lambda * pow(rr, -1/self.K)
 
 
 class EmpiricalHazard(Hazard):
@@ -76,10 +76,10 @@ class EmpiricalHazard(Hazard):
     def inv_cum_hazard(self, h):
         return self.FnInvCumHaz(h)
 
-    def mean(self):
+    def mean(self, rr=1):
         return None  # todo
 
-    def std(self):
+    def std(self, rr=1):
         return None  # todo
 
 
@@ -112,10 +112,10 @@ class HazardDistribution(AbsDistribution):
         return np.log((s1 - s2)/1E-5)
 
     def mean(self):
-        return 1 / self.Hazard.mean() / self.RiskRatio
+        return self.Hazard.mean(self.RiskRatio)
 
     def std(self):
-        return pow(self.RiskRatio, -2) / self.Hazard.std()
+        return self.Hazard.std(self.RiskRatio)
 
 
 class ZeroInflatedHazardDistribution(HazardDistribution):
@@ -141,3 +141,7 @@ class ZeroInflatedHazardDistribution(HazardDistribution):
 
     def mean(self):
         return HazardDistribution.mean(self) * (1-self.Prob)
+
+    def std(self):
+        m, s = HazardDistribution.mean(self), HazardDistribution.std(self)
+        return np.sqrt((1-self.Prob) * (s ** 2 + self.Prob * m ** 2))
-- 
2.43.0


From b0afb4e101531175b4e70444598b687c6b346979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:44 +0000
Subject: [PATCH 50/63] fix: transition matrices sample several states

---
 src/sims_pars/data/static.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index d48dfc0..65c2d54 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -26,15 +26,12 @@ class TransitionMatrix(AbsDataSet):
         return self[current]()
 
     def sample(self, n=1, **kwargs):
-        if n == 1:
-            return self(current=kwargs)
+        if 'currents' in kwargs:
+            return [self(current=k) for k in kwargs['currents']]
+        elif n == 1:
+            return self(current=kwargs['current'])
         else:
-            if 'currents' in kwargs:
-                ks = kwargs['currents']
-            else:
-                ks = [kwargs['current']]
-            n = max(n, len(ks))
-            return [self(current=k) for k in zip(range(n), ks)]
+            return [self(current=kwargs['current']) for _ in range(n)]
 
     def __repr__(self):
         return 'Transition Matrix: {}'.format(', '.join(self.StateFrom))
-- 
2.43.0


From c9a23ab8a8d31c79aa59b91ed68278306a33366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:46 +0000
Subject: [PATCH 51/63] fix: repeated rows of a probability table add up

---
 src/sims_pars/data/static.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 65c2d54..9092ec4 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -51,7 +51,7 @@ class ConditionalProbabilityTable(AbsDataSet):
         for i, (k, ir) in enumerate(mat.iterrows()):
             key = ':'.join([ir[x] for x in indices])
             p = self.Ps[i]
-            self.InvGroups[key] = p
+            self.InvGroups[key] = self.InvGroups.get(key, 0) + p
             self.Groups[key] = {x: ir[x] for x in indices}
         self.Sampler = CategoricalRV(self.InvGroups)
 
-- 
2.43.0


From a85b27208502997ff5062fc90895d8c8e449fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 52/63] fix: time series end at their first and last time in
 any order of rows

---
 src/sims_pars/data/timeseries.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/data/timeseries.py b/src/sims_pars/data/timeseries.py
index bb6ee1a..b412368 100644
--- a/src/sims_pars/data/timeseries.py
+++ b/src/sims_pars/data/timeseries.py
@@ -14,7 +14,7 @@ class TimeSeries(AbsDataSet):
         xs = np.array(mat[i_x])
         self.IndexTime = i_time
         self.IndexX = i_x
-        self.Line = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[0], xs[-1]))
+        self.Line = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[ts.argmin()], xs[ts.argmax()]))
 
     def __call__(self, t):
         return self.Line(t)
@@ -33,7 +33,7 @@ class TimeSeriesVector(AbsDataSet):
 
         for i_x in self.IndexXs:
             xs = np.array(mat[i_x])
-            self.Lines[i_x] = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[0], xs[-1]))
+            self.Lines[i_x] = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[ts.argmin()], xs[ts.argmax()]))
 
     def __call__(self, t):
         return {x: self.Lines[x](t) for x in self.IndexXs}
@@ -48,7 +48,7 @@ class TimeSeriesProbabilityTable(AbsDataSet):
         self.IndexTime = i_time
         self.IndexXs = i_xs
         ts = np.array(mat[i_time])
-        self.Ts = interp1d(x=ts, y=ts, kind='nearest', bounds_error=False, fill_value=(ts[0], ts[-1]))
+        self.Ts = interp1d(x=ts, y=ts, kind='nearest', bounds_error=False, fill_value=(ts.min(), ts.max()))
         self.PTs = dict()
 
         for i, ir in mat.iterrows():
@@ -75,7 +75,7 @@ class LeeCarter(AbsDataSet):
         self.Alpha = {ent[i_age]: ent[i_al] for _, ent in mat_a.iterrows()}
         self.Beta = {ent[i_age]: ent[i_be] for _, ent in mat_a.iterrows()}
         self.KappaFn = interp1d(x=self.Times, y=self.Kappa, kind=kind,
-                                bounds_error=False, fill_value=(self.Kappa[0], self.Kappa[-1]))
+                                bounds_error=False, fill_value=(self.Kappa[self.Times.argmin()], self.Kappa[self.Times.argmax()]))
 
     def __call__(self, t):
         return {a: self.get_rate(t, a) for a in self.Ages}
-- 
2.43.0


From 90746dc9d1764ca4d53de2f667ac96c737d1e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:51 +0000
Subject: [PATCH 53/63] fix: data functions return their JSON form

---
 src/sims_pars/data/datafunction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/data/datafunction.py b/src/sims_pars/data/datafunction.py
index 6f5b27d..7f84630 100644
--- a/src/sims_pars/data/datafunction.py
+++ b/src/sims_pars/data/datafunction.py
@@ -27,3 +27,4 @@ class AbsDataFunction(metaclass=ABCMeta):
         js['Type'] = self.Type
         js['Selectors'] = list(self.Selectors)
         js['RawData'] = self.RawData
+        return js
-- 
2.43.0


From 689c94c54ac82d0ef5e8be25c4d6b49f173c180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 54/63] fix: distributions without a source can be printed

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 067a58e..693e84a 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -70,7 +70,7 @@ class AbsDistribution(metaclass=ABCMeta):
         if self.source:
             return repr(self.source)
         else:
-            return id(self)
+            return object.__repr__(self)
 
     __str__ = __repr__
 
-- 
2.43.0


From e103626e883971af314fed337cf6d31ea65031d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:46 +0000
Subject: [PATCH 55/63] fix: reject unknown arguments of distributions instead
 of ignoring them

---
 src/sims_pars/factory/craftstation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index e6ee7e4..dc310d1 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -36,6 +36,9 @@ class Atelier:
         named = [arg.arg for arg in inputs.keywords]
         unnamed = {k: v for k, v in req.items() if k not in named}
 
+        if len(args) > len(unnamed) or any(k not in req for k in named):
+            raise TypeError(f'Unknown arguments for {tp}')
+
         if len(unnamed) == 0:
             return seq
 
-- 
2.43.0


From 0c48c5209ccb6e500886744ef48a194a7a7e0046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:57 +0000
Subject: [PATCH 56/63] fix: the JSON form of a chromosome does not share its
 values

---
 src/sims_pars/bayesnet/chromosome.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index 9d39ab3..4885050 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -86,7 +86,7 @@ class Chromosome:
 
     def to_json(self):
         return {
-            'Locus': self.Locus,
+            'Locus': dict(self.Locus),
             'LogProb': self.LogProb
         }
 
-- 
2.43.0


From d6ce35b102b24c7b38b18a3b5bee6bb48e639940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:01 +0000
Subject: [PATCH 57/63] fix: an intervention refreshes samplers of variables it
 also sets in other groups

---
 src/sims_pars/simulation/parcore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 56375b0..d5bc3d6 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -187,7 +187,7 @@ class ParameterCore(Chromosome):
     def __set_response(self, imp, shocked):
         shocked_locus = [s for s in shocked if s in self.Locus]
         try:
-            shocked_actors = [k for k, v in self.Actors.items() if k in shocked and isinstance(v, FrozenSingleActor)]
+            shocked_actors = [k for k, v in self.Actors.items() if (k in shocked or k in imp) and isinstance(v, FrozenSingleActor)]
         except AttributeError:
             shocked_actors = list()
 
@@ -195,7 +195,7 @@ class ParameterCore(Chromosome):
         try:
             for k, v in self.ChildrenActors.items():
                 try:
-                    shocked_hoist[k] = [s for s, t in v.items() if s in shocked and isinstance(t, FrozenSingleActor)]
+                    shocked_hoist[k] = [s for s, t in v.items() if (s in shocked or s in imp) and isinstance(t, FrozenSingleActor)]
                 except AttributeError:
                     shocked_hoist[k] = dict()
         except AttributeError:
-- 
2.43.0


From 3639a91660ad3694bfa69f32020c80cc0732f0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:25 +0000
Subject: [PATCH 58/63] fix: graph queries and interventions on no nodes have
 no effect instead of raising

---
 src/sims_pars/bayesnet/dag.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index a11b4aa..5cc98e6 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -51,7 +51,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.ancestors(d) for d in nodes])
+        return set().union(*[self.ancestors(d) for d in nodes])
 
     def downstream(self, nodes):
         """
@@ -59,7 +59,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.descendants(d) for d in nodes])
+        return set().union(*[self.descendants(d) for d in nodes])
 
     def roots(self):
         """
@@ -181,7 +181,7 @@ def get_sufficient_nodes(g, included, given=None):
         for pa in pas:
             mi.remove_edge(pa, nod)
     # find the nodes supporting the included nodes
-    return set.union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
+    return set().union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
 
 
 def get_minimal_nodes(g, included, given=None):
@@ -204,7 +204,7 @@ def get_offsprings(g, nodes):
     :param nodes: targeted nodes
     :return: a set of offspring nodes
     """
-    return set.union(*[g.descendants(d) for d in nodes])
+    return set().union(*[g.descendants(d) for d in nodes])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 0db7240db204cc78f9f0d10850c82875741066bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 59/63] fix: draws, listings and JSON forms come in the same
 order in every process

---
 src/sims_pars/bayesnet/bn.py        | 4 ++--
 src/sims_pars/bayesnet/loci.py      | 8 ++++----
 src/sims_pars/simulation/nodeset.py | 5 ++++-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 2650fdd..9d3a088 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -89,7 +89,7 @@ class BayesianNetwork:
         self.DAG.add_node(name, loci=loci, **kwargs)
         self.DAG.remove_in_edges(name)
 
-        for pa in loci.Parents:
+        for pa in sorted(loci.Parents):
             if pa not in self.DAG:
                 self.append_loci(ExoValueLoci(pa))
             self.DAG.add_edge(pa, name)
@@ -123,7 +123,7 @@ class BayesianNetwork:
                 if k not in pars:
                     self.DAG.remove_edge(k, node)
             pars.difference_update(self.DAG.parents(node))
-            for k in pars:
+            for k in sorted(pars):
                 if k not in self.DAG:
                     self.append_loci(ExoValueLoci(k))
                 self.DAG.add_edge(k, node)
diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index b4f1369..bb4f7a1 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -153,7 +153,7 @@ class DistributionLoci(Loci):
     def to_json(self):
         js = Loci.to_json(self)
         js['Type'] = 'Distribution'
-        js['Parents'] = list(self.Parents)
+        js['Parents'] = sorted(self.Parents)
         return js
 
     def __repr__(self):
@@ -189,7 +189,7 @@ class FunctionLoci(Loci):
     def to_json(self):
         js = Loci.to_json(self)
         js['Type'] = 'Function'
-        js['Parents'] = list(self.Parents)
+        js['Parents'] = sorted(self.Parents)
         return js
 
     def __repr__(self):
@@ -203,7 +203,7 @@ class PseudoLoci(Loci):
         Loci.__init__(self, name)
         val = parse_function(val)
         self.__parents = pas if pas else val.Parents
-        self.Func = 'f(' + ', '.join(self.Parents) + ')'
+        self.Func = 'f(' + ', '.join(sorted(self.Parents)) + ')'
 
     @property
     def Parents(self):
@@ -225,7 +225,7 @@ class PseudoLoci(Loci):
     def to_json(self):
         js = Loci.to_json(self)
         js['Type'] = 'Pseudo'
-        js['Parents'] = list(self.Parents)
+        js['Parents'] = sorted(self.Parents)
         return js
 
     def __repr__(self):
diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 03a25a0..cbebed0 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -281,7 +281,7 @@ class NodeSet:
         # If all parent nodes have been fixed without local changes -> f, f
         # If all parent nodes have been fixed but have local changes -> s, f
         # If any parent nodes is still floating -> c, c
-        for d in set.union(self.FloatingNodes, self.__will_be_floating):
+        for d in bn.sort(set.union(self.FloatingNodes, self.__will_be_floating)):
             loci = bn[d]
             pars = set(loci.Parents)
 
@@ -307,6 +307,9 @@ class NodeSet:
             self.ExoNodes.update(p for p in bn[d].Parents if p not in self.FixedNodes)
 
         self.FixedNodes = bn.sort(self.FixedNodes)
+        self.FloatingNodes = bn.sort(self.FloatingNodes)
+        self.ExoNodes = bn.sort(self.ExoNodes)
+        self.ListeningNodes = bn.sort(self.ListeningNodes)
         for ch in self.__children.values():
             ch._sort_fixed_nodes(bn)
 
-- 
2.43.0


From d8df2016aadb22f4975d8938c1cc08ccf6788fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:04 +0000
Subject: [PATCH 60/63] fix: a chromosome forgets its density before, not
 after, values are redrawn, so that a failing draw leaves no stale density

---
 src/sims_pars/bayesnet/chromosome.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index 4885050..d6148b3 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -51,14 +51,13 @@ class Chromosome:
             shocked = shocked.union(non_imp)
             shocked.intersection_update(self.Locus.keys())
             self.Locus.update(imp)
+            if imp:
+                self.reset_probability()
 
             for nod in bn.Order:
                 if nod in shocked:
                     self[nod] = g.nodes[nod]['loci'].render(self)
 
-            if imp:
-                self.reset_probability()
-
         else:
             imp = {k: v for k, v in new_locus.items() if k in self}
             self.Locus.update(imp)
-- 
2.43.0


From 026600fe01c9b6d90e4e1da17a878170cc632a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:38 +0000
Subject: [PATCH 61/63] fix: a fit that fails does not offer posteriors by the
 state of an earlier fit

---
 src/sims_pars/fit/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index 3318a18..7a62462 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -212,6 +212,7 @@ class Fitter(metaclass=ABCMeta):
         self.attach(model)
         self.Monitor.reset()
         self.Collector = ParameterSet()
+        self.State = None
         self.update_settings(**kwargs)
         self.initialise()
         self.update()
-- 
2.43.0


From c95f31a5e1a6bee6875e0ac34b71efdb64e46348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:18 +0000
Subject: [PATCH 62/63] fix: remove_upstream and remove_downstream remove what
 is upstream or downstream

---
 src/sims_pars/bayesnet/dag.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index 5cc98e6..15b24f9 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -113,27 +113,22 @@ class DAG(nx.DiGraph):
             self.remove_edge(par, node)
 
     def remove_upstream(self, nodes):
+        """
+        Remove the nodes upstream of the targeted nodes, which are kept
+        :param nodes: targeted node, or a list of targeted nodes
+        """
         if not isinstance(nodes, list):
             nodes = [nodes]
-        nodes = set(nodes)
-        od = self.order()
-        for s in od:
-            if s in nodes:
-                continue
-            if nodes.intersection(self.ancestors(s)):
-                self.remove_node(s)
+        self.remove_nodes_from(self.upstream(nodes).difference(nodes))
 
     def remove_downstream(self, nodes):
+        """
+        Remove the nodes downstream of the targeted nodes, which are kept
+        :param nodes: targeted node, or a list of targeted nodes
+        """
         if not isinstance(nodes, list):
             nodes = [nodes]
-        nodes = set(nodes)
-        od = self.order()
-        od.reverse()
-        for s in od:
-            if s in nodes:
-                continue
-            if nodes.intersection(self.descendants(s)):
-                self.remove_node(s)
+        self.remove_nodes_from(self.downstream(nodes).difference(nodes))
 
     def __str__(self):
         return 'DAG({})'.format(', '.join(self.order()))
-- 
2.43.0


From 364bd4a5e98c9e8408d3f2b714b49ffd68c0c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:20 +0000
Subject: [PATCH 63/63] fix: a random or exogenous node is not deterministic

---
 src/sims_pars/bayesnet/bn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 9d3a088..aa75207 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -192,7 +192,9 @@ class BayesianNetwork:
     def is_deterministic(self, node, given=None):
         if isinstance(self[node], ValueLoci):
             return True
-        if given:
+        if given and self[node].Parents:
+            if self.is_rv(node):
+                return False
             req = minimal_requirements(self.DAG, node, given)
             req = [d for d in req if d not in given]
             return all(isinstance(self[d], ValueLoci) for d in req)
-- 
2.43.0

