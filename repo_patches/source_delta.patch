From 4218ee7d38a0814a7dbd2cdf4ffe5cccac5e1740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 01/91] fix: leave a paradigm that is empty in this direction
 before compiling sections

---
 lttoolbox/compiler.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index df49609..0a797b0 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -187,14 +187,16 @@ Compiler::procParDef()
   {
     current_paradigm = attrib(COMPILER_N_ATTR);
   }
-  else
+  if(type == XML_READER_TYPE_END_ELEMENT || xmlTextReaderIsEmptyElement(reader))
   {
     if(!paradigms[current_paradigm].isEmpty())
     {
       paradigms[current_paradigm].minimize();
       paradigms[current_paradigm].joinFinals();
-      current_paradigm.clear();
     }
+    // also leave a paradigm that is empty in this direction, otherwise
+    // the entries of the next section would be added to it
+    current_paradigm.clear();
   }
 }
 
-- 
2.43.0


From f83c6bb127de5f34f291bfed323a93d1224f4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 02/91] fix: initialise the weight of entry tokens that are
 paradigms or regexps

---
 lttoolbox/entry_token.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/entry_token.cc b/lttoolbox/entry_token.cc
index c1f1d41..a0de66d 100644
--- a/lttoolbox/entry_token.cc
+++ b/lttoolbox/entry_token.cc
@@ -18,7 +18,8 @@
 
 
 EntryToken::EntryToken() :
-type(paradigm)
+type(paradigm),
+weight(0.0)
 {
 }
 
-- 
2.43.0


From 1357860526c079809b4aa89e8a99944b9e47c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 03/91] fix: an entry's weight applies once, to that entry and
 to no other

---
 lttoolbox/compiler.cc   | 12 +++++++++++-
 lttoolbox/transducer.cc | 39 ++++++++++++++++-----------------------
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 0a797b0..ba38e6b 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -226,7 +226,7 @@ Compiler::matchTransduction(std::vector<int> const &pi,
 
   if(pi.size() == 0 && pd.size() == 0)
   {
-    state = t.insertNewSingleTransduction(alphabet(0, 0), state, default_weight);
+    state = t.insertNewSingleTransduction(alphabet(0, 0), state, entry_weight);
   }
   else
   {
@@ -865,14 +865,17 @@ Compiler::procEntry()
     if(name == COMPILER_PAIR_ELEM)
     {
       elements.push_back(procTransduction(weight));
+      weight = default_weight; // an entry contributes its weight once
     }
     else if(name == COMPILER_IDENTITY_ELEM)
     {
       elements.push_back(procIdentity(weight, false));
+      weight = default_weight; // an entry contributes its weight once
     }
     else if(name == COMPILER_IDENTITYGROUP_ELEM)
     {
       elements.push_back(procIdentity(weight, true));
+      weight = default_weight; // an entry contributes its weight once
     }
     else if(name == COMPILER_REGEXP_ELEM)
     {
@@ -904,6 +907,13 @@ Compiler::procEntry()
     }
     else if(name == COMPILER_ENTRY_ELEM && type == XML_READER_TYPE_END_ELEMENT)
     {
+      if(weight != default_weight)
+      {
+        // nothing but paradigms and regexps in the entry
+        EntryToken e;
+        e.setSingleTransduction(std::vector<int>(), std::vector<int>(), weight);
+        elements.insert(elements.begin(), e);
+      }
       // insert elements into letter transducer
       insertEntryTokens(elements);
       return;
diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 20d5377..0475b64 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -72,35 +72,28 @@ Transducer::insertSingleTransduction(int const tag, int const source, double con
 {
   if(transitions.find(source) != transitions.end())
   {
-    if(transitions[source].count(tag) == 1)
-    {
-      auto range = transitions[source].equal_range(tag);
-      return range.first->second.first;
-    }
-    else if(transitions[source].count(tag) == 0)
-    {
-      // new state
-      int state = newState();
-      transitions[source].insert({tag, std::make_pair(state, weight)});
-      return state;
-    }
-    else if(transitions[source].count(tag) == 2)
+    // reuse a transition with this tag and weight (reusing one with another
+    // weight would give this path the weight of some other path); local
+    // cycles are only reused if there's nothing else
+    bool local_cycle = false;
+    auto range = transitions[source].equal_range(tag);
+    for(; range.first != range.second; range.first++)
     {
-      // there's a local cycle, must be ignored and treated like in '1'
-      auto range = transitions[source].equal_range(tag);
-      for(; range.first != range.second; range.first++)
+      if(range.first->second.second != weight)
       {
-        if(range.first->second.first != source)
-        {
-          return range.first->second.first;
-        }
+        continue;
       }
-      return -1;
+      if(range.first->second.first != source)
+      {
+        return range.first->second.first;
+      }
+      local_cycle = true;
     }
-    else
+    if(local_cycle)
     {
-      return -1;
+      return source;
     }
+    return insertNewSingleTransduction(tag, source, weight);
   }
   else
   {
-- 
2.43.0


From ae6eb38f7445d8fdc8838e7982a59b85c2a5af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 04/91] fix: count the weights of epsilon transitions in
 lt-proc

---
 lttoolbox/state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 64ac197..903bd20 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -296,7 +296,7 @@ State::epsilonClosure()
       {
         auto tmp = new_sequence();
         *tmp = *(state[i].sequence);
-        if(it2->second.out_tag[j] != 0)
+        if(it2->second.out_tag[j] != 0 || it2->second.out_weight[j] != 0)
         {
           tmp->push_back({it2->second.out_tag[j], it2->second.out_weight[j]});
         }
-- 
2.43.0


From d209b5261b47aff166c25c7d9dc251ff4c9ba2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 05/91] fix: room for weights of 10000 and more in lt-proc -W

---
 lttoolbox/state.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 903bd20..6113deb 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -546,8 +546,7 @@ State::filterFinalsArray(std::vector<UString>& result,
     if (!seen.insert(it.first).second) continue;
     result.push_back(it.first);
     if (display_weights) {
-      UChar w[16]{};
-      // if anyone wants a weight of 10000, this will not be enough
+      UChar w[512]{}; // enough for any double
       u_sprintf(w, "<W:%f>", it.second);
       result.back() += w;
     }
-- 
2.43.0


From d1340451b2b5197f905709f0378da73cfc3e4ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 06/91] fix: count weight classes and distinct analyses for
 lt-proc -L and -N

---
 lttoolbox/state.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 6113deb..01eed93 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -490,19 +490,20 @@ State::NFinals(std::vector<std::pair<UString, double>> lf, int maxAnalyses, int
 
   sort(lf.begin(), lf.end(), sort_weights<UString, double>());
 
+  std::set<UString> seen;
   for(auto it = lf.begin(); it != lf.end(); it++)
   {
-    double last_weight = 0.0000;
-    if(maxAnalyses > 0 && maxWeightClasses > 0)
+    // several paths may give the same analysis
+    if(!seen.insert(it->first).second) continue;
+    if(maxAnalyses <= 0) break;
+    if(result.empty() || result.back().second != it->second)
     {
-      result.push_back({it->first, it->second});
-      maxAnalyses--;
-      if(last_weight!=it->second)
-      {
-        maxWeightClasses--;
-      }
+      // the first of a new weight class
+      if(maxWeightClasses <= 0) break;
+      maxWeightClasses--;
     }
-    else break;
+    result.push_back({it->first, it->second});
+    maxAnalyses--;
   }
   return result;
 }
-- 
2.43.0


From 60edc808b6fe3de8dd2ae13ebf0693dc089b377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 07/91] fix: a negated character class in a regexp does not
 match the empty string

---
 lttoolbox/regexp_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index 18c7bee..b9f8ab0 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -341,7 +341,7 @@ RegexpCompiler::Esp()
     consume(']');
     Postop();
 
-    for(int i = 0; i < 256 ;i++)
+    for(int i = 1; i < 256 ;i++)
     {
       if(brackets.find(i) == brackets.end())
       {
-- 
2.43.0


From 7e4679cbf836605bcb5006d2ce00507e68382191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:00 +0000
Subject: [PATCH 08/91] fix: keep final weights when minimising, determinising
 and inserting transducers

---
 lttoolbox/transducer.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 0475b64..9da0c06 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -137,7 +137,14 @@ Transducer::insertTransducer(int const source, Transducer &t,
 
   transitions[source].insert({epsilon_tag, std::make_pair(relation[t.initial], default_weight)});
 
-  return relation[t.finals.begin()->first];
+  int last = relation[t.finals.begin()->first];
+  double last_weight = t.finals.begin()->second;
+  if(last_weight != default_weight)
+  {
+    // the state returned isn't final here, so the weight needs a transition
+    last = insertNewSingleTransduction(epsilon_tag, last, last_weight);
+  }
+  return last;
 }
 
 void
@@ -316,11 +323,6 @@ Transducer::determinize(int const epsilon_tag)
   int initial_prime = 0;
   std::map<int, double> finals_prime;
 
-  if(isFinal(initial))
-  {
-    finals_prime.insert({0, default_weight});
-  }
-
   int t = 0;
 
   sorted_vector<int> finals_state;
@@ -336,10 +338,15 @@ Transducer::determinize(int const epsilon_tag)
     for(auto& it : R[t])
     {
       if (Q_prime[it].intersects(finals_state)) {
+        // the best of the final states in this set
+        bool found = false;
         double w = default_weight;
-        auto it3 = finals.find(it);
-        if (it3 != finals.end()) {
-          w = it3->second;
+        for (auto& q : Q_prime[it]) {
+          auto it3 = finals.find(q);
+          if (it3 != finals.end() && (!found || it3->second < w)) {
+            w = it3->second;
+            found = true;
+          }
         }
         finals_prime.insert({it, w});
       }
@@ -713,9 +720,10 @@ Transducer::reverse(int const epsilon_tag)
   }
 
   int tmp = initial;
+  double tmp_weight = finals.begin()->second;
   initial = finals.begin()->first;
   finals.clear();
-  finals.insert({tmp, default_weight});
+  finals.insert({tmp, tmp_weight});
 }
 
 void
-- 
2.43.0


From 453e451630ec6972b2bb47f6af0c0b38abcbaa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:10 +0000
Subject: [PATCH 09/91] fix: keep letters outside the BMP when a tool rewrites
 a compiled dictionary

---
 lttoolbox/file_utils.cc | 6 +++++-
 lttoolbox/lt_append.cc  | 3 +--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 31608cc..327ce9d 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -90,7 +90,11 @@ writeTransducerSet(FILE* output, const std::set<UChar32>& letters,
                    Alphabet& alpha,
                    std::map<UString, Transducer>& trans)
 {
-  writeTransducerSet(output, UString(letters.begin(), letters.end()), alpha, trans);
+  UString s;
+  for (auto& it : letters) {
+    s += it;
+  }
+  writeTransducerSet(output, s, alpha, trans);
 }
 
 void
diff --git a/lttoolbox/lt_append.cc b/lttoolbox/lt_append.cc
index a8358fb..a15d0b7 100644
--- a/lttoolbox/lt_append.cc
+++ b/lttoolbox/lt_append.cc
@@ -49,7 +49,6 @@ int main(int argc, char *argv[])
   for (auto& it : chars2) {
     chars1.insert(it);
   }
-  UString chars(chars1.begin(), chars1.end());
 
   for (auto& it : trans2) {
     if (trans1.find(it.first) != trans1.end()) {
@@ -63,7 +62,7 @@ int main(int argc, char *argv[])
     trans1[it.first] = it.second;
   }
 
-  writeTransducerSet(output, chars, alpha1, trans1);
+  writeTransducerSet(output, chars1, alpha1, trans1);
 
   fclose(input1);
   fclose(input2);
-- 
2.43.0


From 0943713692a4868a3d5056f3c23894b1c04edbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:10 +0000
Subject: [PATCH 10/91] fix: parallel arcs keep the least weight when states
 are linked twice

---
 lttoolbox/transducer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 9da0c06..d58abec 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -161,6 +161,10 @@ Transducer::linkStates(int const source, int const target,
     {
       if(range.first->first == tag && range.first->second.first == target)
       {
+        if(weight < range.first->second.second)
+        {
+          range.first->second.second = weight;
+        }
         return;
       }
     }
-- 
2.43.0


From c3a8579f76f01436c70ab3f40a858ac92ce1d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:34 +0000
Subject: [PATCH 11/91] fix: lt-compose jobs no longer share an alphabet they
 all modify

---
 lttoolbox/lt_compose.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index 6ec365d..564db49 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -46,7 +46,14 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
   }
   union_g.minimize();
 
-  std::vector<std::future<std::pair<UString, Transducer>>> compositions;
+  // composing adds symbols and pairs to the first alphabet, so every job
+  // works on its own copy
+  struct Composition {
+    UString name;
+    Transducer gf;
+    Alphabet alph;
+  };
+  std::vector<std::future<Composition>> compositions;
   for (auto& it : trans_f) {
     if (it.second.numberOfTransitions() == 0) {
       std::cerr << "Warning: section " << it.first << " is empty! Skipping it..." << std::endl;
@@ -54,7 +61,7 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
     }
     if(jobs) {
       compositions.push_back(std::async(
-          [](Transducer &f, Transducer &g, Alphabet &alph_f, Alphabet &alph_g,
+          [](Transducer &f, Transducer &g, Alphabet alph_f, Alphabet &alph_g,
              bool f_inverted, bool g_anywhere, UString name) {
             Transducer gf = f.compose(g, alph_f, alph_g, f_inverted, g_anywhere);
             if (gf.hasNoFinals()) {
@@ -65,9 +72,9 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
             } else {
               gf.minimize();
             }
-            return std::make_pair(name, gf);
+            return Composition{name, gf, alph_f};
           },
-          std::ref(it.second), std::ref(union_g), std::ref(alph_f),
+          std::ref(it.second), std::ref(union_g), alph_f,
           std::ref(alph_g), f_inverted, g_anywhere, it.first));
     } else {
       Transducer gf = it.second.compose(union_g, alph_f, alph_g, f_inverted, g_anywhere);
@@ -83,8 +90,9 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
   }
   for (auto &thr : compositions) {
     auto it = thr.get();
-    if (!it.second.hasNoFinals()) {
-      trans_gf[it.first] = it.second;
+    if (!it.gf.hasNoFinals()) {
+      it.gf.updateAlphabet(it.alph, alph_f);
+      trans_gf[it.name] = it.gf;
     }
   }
 
-- 
2.43.0


From 74be580f0b90e4ebb07927621e4746f0ae4f8b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:59 +0000
Subject: [PATCH 12/91] fix: equivalent characters do not merge entries that
 are spelled differently

---
 lttoolbox/compiler.cc | 12 +++++++++++-
 lttoolbox/compiler.h  |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index ba38e6b..438956e 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -38,6 +38,10 @@ Compiler::parseACX(std::string const &file, UStringView dir)
   if(dir == COMPILER_RESTRICTION_LR_VAL)
   {
     acx_map = readACX(file.c_str());
+    for(auto& it : acx_map)
+    {
+      acx_equivs.insert(it.second.begin(), it.second.end());
+    }
   }
 }
 
@@ -236,6 +240,7 @@ Compiler::matchTransduction(std::vector<int> const &pi,
     while(true)
     {
       int tag;
+      bool equiv = false;
 
       acx_map_ptr = acx_map.end();
 
@@ -252,6 +257,7 @@ Compiler::matchTransduction(std::vector<int> const &pi,
       {
         tag = alphabet(*left, 0);
         acx_map_ptr = acx_map.find(*left);
+        equiv = acx_equivs.count(*left);
         rsymbol = 0;
         left++;
       }
@@ -259,6 +265,7 @@ Compiler::matchTransduction(std::vector<int> const &pi,
       {
         tag = alphabet(*left, *right);
         acx_map_ptr = acx_map.find(*left);
+        equiv = acx_equivs.count(*left);
         rsymbol = *right;
         left++;
         right++;
@@ -275,7 +282,10 @@ Compiler::matchTransduction(std::vector<int> const &pi,
         weight_value = default_weight;
       }
 
-      int new_state = t.insertSingleTransduction(tag, state, weight_value);
+      // an existing transition that reads an equivalent character may belong
+      // to entries that are spelled with some other character
+      int new_state = equiv ? t.insertNewSingleTransduction(tag, state, weight_value)
+                            : t.insertSingleTransduction(tag, state, weight_value);
 
       if (is_separable) {
         // loop-back symbols for <ANY_TAG> and <ANY_CHAR>
diff --git a/lttoolbox/compiler.h b/lttoolbox/compiler.h
index f300bc3..385aa7a 100644
--- a/lttoolbox/compiler.h
+++ b/lttoolbox/compiler.h
@@ -168,6 +168,11 @@ private:
    */
   std::map<int32_t, sorted_vector<int32_t> > acx_map;
 
+  /**
+   * The characters that are equivalent to some character in acx_map
+   */
+  std::set<int32_t> acx_equivs;
+
   /**
    * LSX symbols
    */
-- 
2.43.0


From 3dea9d8e2a76e1e7d063a110f758ef4302e68cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:54 +0000
Subject: [PATCH 13/91] fix: lt-restrict treats side variants as lt-comp does

---
 lttoolbox/lt_restrict.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/lt_restrict.cc b/lttoolbox/lt_restrict.cc
index 0aef3b4..56721c4 100644
--- a/lttoolbox/lt_restrict.cc
+++ b/lttoolbox/lt_restrict.cc
@@ -83,13 +83,17 @@ int main(int argc, char* argv[])
     if (StringUtils::startswith(t, u"<r:") ||
         (has_var && StringUtils::startswith(t, u"<v:")) ||
         StringUtils::startswith(t, u"<alt:") ||
-        StringUtils::startswith(t, u"<vl:") ||
-        StringUtils::startswith(t, u"<vr:")) {
+        (dir != "LR" && StringUtils::startswith(t, u"<vl:")) ||
+        (dir != "RL" && StringUtils::startswith(t, u"<vr:"))) {
       int32_t s = alpha(-i, -i);
       if (!keep.count(s)) {
         drop.insert(s);
       }
-    } else if (!has_var && StringUtils::startswith(t, u"<v:")) {
+    } else if (StringUtils::startswith(t, u"<v:") ||
+               StringUtils::startswith(t, u"<vl:") ||
+               StringUtils::startswith(t, u"<vr:")) {
+      // as in lt-comp: without a variant every variant is kept, and the
+      // variants of one side only matter when compiling towards it
       keep.insert(alpha(-i, -i));
     }
   }
-- 
2.43.0


From 990cfdcf8c3a61513f8c86377b1d3b44c94126a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:24 +0000
Subject: [PATCH 14/91] fix: lt-restrict -m no longer fails on a section that
 the restriction empties

---
 lttoolbox/lt_restrict.cc |  2 +-
 lttoolbox/transducer.cc  | 18 ++++++++++++++++++
 lttoolbox/transducer.h   |  3 ++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/lt_restrict.cc b/lttoolbox/lt_restrict.cc
index 56721c4..7714276 100644
--- a/lttoolbox/lt_restrict.cc
+++ b/lttoolbox/lt_restrict.cc
@@ -110,7 +110,7 @@ int main(int argc, char* argv[])
     if (dir == "RL") {
       it.second.invert(alpha);
     }
-    if (min) {
+    if (min && !it.second.hasNoFinals()) {
       it.second.minimize();
     }
   }
diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index d58abec..6a43d7a 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1338,6 +1338,24 @@ Transducer::deleteSymbols(const sorted_vector<int32_t>& syms)
       state.second.erase(sym);
     }
   }
+  std::set<int> reached = {initial};
+  std::vector<int> todo = {initial};
+  while (!todo.empty()) {
+    int state = todo.back();
+    todo.pop_back();
+    for (auto& it : transitions[state]) {
+      if (reached.insert(it.second.first).second) {
+        todo.push_back(it.second.first);
+      }
+    }
+  }
+  for (auto it = finals.begin(); it != finals.end(); ) {
+    if (reached.count(it->first)) {
+      ++it;
+    } else {
+      it = finals.erase(it);
+    }
+  }
 }
 
 void
diff --git a/lttoolbox/transducer.h b/lttoolbox/transducer.h
index 98391fe..2857bea 100644
--- a/lttoolbox/transducer.h
+++ b/lttoolbox/transducer.h
@@ -484,7 +484,8 @@ public:
   void invert(Alphabet& alpha);
 
   /**
-   * Deletes all transitions with a symbol pair in syms
+   * Deletes all transitions with a symbol pair in syms, and the final states
+   * that cannot be reached without them
    */
   void deleteSymbols(const sorted_vector<int32_t>& syms);
 
-- 
2.43.0


From 040ec85fca4b8dd93057e477dc1f9b7188f932e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:24 +0000
Subject: [PATCH 15/91] fix: weights of the bilingual dictionary do not leak
 into a trimmed analyser

---
 lttoolbox/transducer.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 6a43d7a..09e36d6 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1112,7 +1112,6 @@ Transducer::trim(Transducer &trimmer,
     for(auto& trimmer_trans_it : trimmer.transitions[trimmer_src]) {
       int trimmer_label = trimmer_trans_it.first,
           trimmer_trg   = trimmer_trans_it.second.first;
-      double trimmer_wt = trimmer_trans_it.second.second;
       int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
       if(trimmer_preplus == trimmer_src) {
@@ -1132,7 +1131,7 @@ Transducer::trim(Transducer &trimmer,
         trimmed.linkStates(trimmed_src,
                            trimmed_trg,
                            epsilon_tag,
-                           trimmer_wt);
+                           default_weight); // only this one's weights count
       }
     }
 
-- 
2.43.0


From 9f9eb3299bbaa7504f0466cbed3b80bd44640bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:49 +0000
Subject: [PATCH 16/91] fix: what follows a cyclic paradigm does not become
 part of its cycle

---
 lttoolbox/transducer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 09e36d6..83a7b2d 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -139,9 +139,10 @@ Transducer::insertTransducer(int const source, Transducer &t,
 
   int last = relation[t.finals.begin()->first];
   double last_weight = t.finals.begin()->second;
-  if(last_weight != default_weight)
+  if(last_weight != default_weight || !transitions[last].empty())
   {
-    // the state returned isn't final here, so the weight needs a transition
+    // the state returned isn't final here, so the weight needs a transition;
+    // and what is inserted after it must not share transitions with t
     last = insertNewSingleTransduction(epsilon_tag, last, last_weight);
   }
   return last;
-- 
2.43.0


From 248ae8817800ae031df6b53d25ceb8891278c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:49 +0000
Subject: [PATCH 17/91] fix: lt-trim puts an invariable part only after the
 tags it belongs to

---
 lttoolbox/transducer.cc | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 83a7b2d..252580d 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -886,12 +886,13 @@ Transducer::copyWithTagsFirst(int start,
   Transducer new_t;
   Transducer lemq;
 
-  std::map<int, int> states_this_new;
-  states_this_new.insert({start, new_t.initial});
   std::map<int, int> states_this_lemq;
-  states_this_new.insert({start, lemq.initial});
+  states_this_lemq.insert({start, lemq.initial});
 
   typedef std::pair<int, int> SearchState;
+  // States after the first tag are copied once per lemq that leads to
+  // them, so that each lemq is only put after its own tags
+  std::map<SearchState, int> states_this_new;
   // Each searchstate in the stack is a transition in this FST, along
   // with the last reached state of the lemq
   std::vector<SearchState> todo;
@@ -923,23 +924,24 @@ Transducer::copyWithTagsFirst(int start,
         if(this_src == this_lemqlast)
         {
           // We've reached the first tag
-          new_src = states_this_new[start];
+          new_src = new_t.initial;
           lemq.finals.insert({this_lemqlast, default_weight});
         }
         else
         {
-          if(states_this_new.find(this_src) == states_this_new.end())
+          if(states_this_new.find(current) == states_this_new.end())
           {
-            states_this_new.insert({this_src, new_t.newState()});
+            states_this_new.insert({current, new_t.newState()});
           }
-          new_src = states_this_new[this_src];
+          new_src = states_this_new[current];
         }
 
-        if(states_this_new.find(this_trg) == states_this_new.end())
+        SearchState next{this_trg, this_lemqlast};
+        if(states_this_new.find(next) == states_this_new.end())
         {
-          states_this_new.insert({this_trg, new_t.newState()});
+          states_this_new.insert({next, new_t.newState()});
         }
-        int new_trg = states_this_new[this_trg];
+        int new_trg = states_this_new[next];
         new_t.linkStates(new_src, new_trg, label, this_wt);
 
         if(isFinal(this_src))
@@ -947,9 +949,9 @@ Transducer::copyWithTagsFirst(int start,
           finally.insert({this_src, this_lemqlast});
         }
 
-        if(seen.find(std::make_pair(this_trg, this_lemqlast)) == seen.end())
+        if(seen.find(next) == seen.end())
         {
-          todo.push_back({this_trg, this_lemqlast});
+          todo.push_back(next);
         }
       }
       else
@@ -972,8 +974,7 @@ Transducer::copyWithTagsFirst(int start,
 
   for(auto& it : finally)
   {
-    int last_tag = it.first,
-      this_lemqlast = it.second;
+    int this_lemqlast = it.second;
     // copy lemq, letting this_lemqlast be the only final state in newlemq
     Transducer newlemq = Transducer(lemq);
     newlemq.finals.clear();
@@ -981,7 +982,7 @@ Transducer::copyWithTagsFirst(int start,
     newlemq.minimize();
 
     int group_start = new_t.newState();
-    new_t.linkStates(states_this_new[last_tag], group_start, group_label, default_weight);
+    new_t.linkStates(states_this_new[it], group_start, group_label, default_weight);
 
     // append newlemq into the group after last_tag:
     new_t.finals.insert({new_t.insertTransducer(group_start, newlemq), default_weight});
-- 
2.43.0


From 803954406a468d73d1c1a9015fe167874def35c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:35 +0000
Subject: [PATCH 18/91] fix: a filtered entry without contents no longer
 swallows what follows it

---
 lttoolbox/compiler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 438956e..96e6dbf 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -817,6 +817,12 @@ Compiler::procEntry()
    || (direction == COMPILER_RESTRICTION_RL_VAL && !filterEntry(varl, variant_left, false))
    || (direction == COMPILER_RESTRICTION_LR_VAL && !filterEntry(varr, variant_right, false)))
   {
+    // there's nothing to skip in <e/>
+    if(xmlTextReaderIsEmptyElement(reader))
+    {
+      return;
+    }
+
     // parse to the end of the entry
     UString name;
 
-- 
2.43.0


From f9ec8be10fb1c9d42386df6b2e85b06a6e688987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:49 +0000
Subject: [PATCH 19/91] fix: lt-expand escapes special characters at the start
 of a text too

---
 lttoolbox/expander.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 3ead68c..13fbba9 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -92,7 +92,7 @@ Expander::readString(UString &result, UStringView name)
   {
     UString value = XMLParseUtil::readValue(reader);
     UString escaped = "^$/<>{}\\*@#+~:"_u;
-    for(size_t i = value.size()-1; i > 0; i--)
+    for(size_t i = value.size(); i-- > 0; )
     {
       if(escaped.find(value[i]) != UString::npos) {
         value.insert(value.begin()+i, '\\');
-- 
2.43.0


From 1d81d60bca83cd692ac90e481e8ecdc1fced2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:23 +0000
Subject: [PATCH 20/91] fix: lt-expand combines restricted entries with all the
 entries of a paradigm

---
 lttoolbox/expander.cc | 56 +++++++++++++------------------------------
 lttoolbox/expander.h  | 11 +++++++++
 2 files changed, 28 insertions(+), 39 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 13fbba9..c5b17e6 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -64,6 +64,8 @@ Expander::procParDef()
   }
   else
   {
+    // defined from here on, even if all of its entries were left out
+    paradigm[current_paradigm];
     current_paradigm.clear();
   }
 }
@@ -429,45 +431,10 @@ Expander::procEntry(UFILE* output)
         exit(EXIT_FAILURE);
       }
 
-      if(attribute == Compiler::COMPILER_RESTRICTION_LR_VAL)
-      {
-        if(paradigm[p].size() == 0 && paradigm_lr[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
-        EntList first = items_lr;
-        append(first, paradigm[p]);
-        append(items_lr, paradigm_lr[p]);
-        items_lr.insert(items_lr.end(), first.begin(), first.end());
-      }
-      else if(attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-      {
-        if(paradigm[p].size() == 0 && paradigm_rl[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
-        EntList first = items_rl;
-        append(first, paradigm[p]);
-        append(items_rl, paradigm_rl[p]);
-        items_rl.insert(items_rl.end(), first.begin(), first.end());
-      }
-      else
-      {
-        if(paradigm_lr[p].size() > 0)
-        {
-          items_lr.insert(items_lr.end(), items.begin(), items.end());
-        }
-        if(paradigm_rl[p].size() > 0)
-        {
-          items_rl.insert(items_rl.end(), items.begin(), items.end());
-        }
-
-        append(items_lr, paradigm_lr[p]);
-        append(items_rl, paradigm_rl[p]);
-        append(items, paradigm[p]);
-      }
+      // a combination is as restricted as the most restricted of its parts
+      combine(items_lr, items, paradigm[p], paradigm_lr[p]);
+      combine(items_rl, items, paradigm[p], paradigm_rl[p]);
+      append(items, paradigm[p]);
     }
     else if(name == Compiler::COMPILER_ENTRY_ELEM && type == XML_READER_TYPE_END_ELEMENT)
     {
@@ -612,6 +579,17 @@ Expander::append(EntList &result,
   result = temp;
 }
 
+void
+Expander::combine(EntList &restricted, EntList const &items,
+                  EntList const &endings, EntList const &restricted_endings)
+{
+  EntList first = restricted;
+  append(first, endings);
+  restricted.insert(restricted.end(), items.begin(), items.end());
+  append(restricted, restricted_endings);
+  restricted.insert(restricted.end(), first.begin(), first.end());
+}
+
 void
 Expander::append(EntList &result, UStringView endings)
 {
diff --git a/lttoolbox/expander.h b/lttoolbox/expander.h
index 4a54429..1af0685 100644
--- a/lttoolbox/expander.h
+++ b/lttoolbox/expander.h
@@ -196,6 +196,17 @@ private:
   static void append(EntList &result,
                      std::pair<UString, UString> const &endings);
 
+  /**
+   * Combine transductions restricted to a direction, and unrestricted ones,
+   * with the endings of a paradigm, keeping what is in that direction only.
+   * @param restricted the transductions restricted to the direction
+   * @param items the unrestricted transductions
+   * @param endings the unrestricted endings
+   * @param restricted_endings the endings restricted to the direction
+   */
+  static void combine(EntList &restricted, EntList const &items,
+                      EntList const &endings, EntList const &restricted_endings);
+
 public:
   /**
    * Constructor
-- 
2.43.0


From 7eac6d77880ac321646ad569b52d217ed3b7aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:13 +0000
Subject: [PATCH 21/91] fix: lt-expand reads alt, v, vl and vr as the lists
 they are and combines them

---
 lttoolbox/expander.cc | 44 +++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index c5b17e6..b34a0ce 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -17,6 +17,7 @@
 
 #include <lttoolbox/compiler.h>
 #include <lttoolbox/expander.h>
+#include <lttoolbox/string_utils.h>
 #include <lttoolbox/xml_parse_util.h>
 
 #include <cstdlib>
@@ -325,6 +326,23 @@ Expander::requireAttribute(UStringView value, UStringView attrname, UStringView
   }
 }
 
+static bool
+listed(UStringView value, UStringView filter)
+{
+  if(value.empty())
+  {
+    return true;
+  }
+  for(auto& it : StringUtils::split(value, u" "))
+  {
+    if(it == filter)
+    {
+      return true;
+    }
+  }
+  return false;
+}
+
 void
 Expander::procEntry(UFILE* output)
 {
@@ -336,13 +354,22 @@ Expander::procEntry(UFILE* output)
   UString varr      = this->attrib(Compiler::COMPILER_VR_ATTR);
   UString wsweight  = this->attrib(Compiler::COMPILER_WEIGHT_ATTR);
 
+  // <e/> lists nothing
+  if(xmlTextReaderIsEmptyElement(reader))
+  {
+    return;
+  }
+
+  bool v_ok  = listed(varval, variant);
+  bool vl_ok = listed(varl, variant_left);
+  bool vr_ok = listed(varr, variant_right);
+  bool in_lr = attribute != Compiler::COMPILER_RESTRICTION_RL_VAL && vr_ok;
+  bool in_rl = attribute != Compiler::COMPILER_RESTRICTION_LR_VAL && v_ok && vl_ok;
+
   UString myname;
   if(this->attrib(Compiler::COMPILER_IGNORE_ATTR) == Compiler::COMPILER_IGNORE_YES_VAL
-   || (!altval.empty() && altval != alt)
-   || (!varval.empty() && varval != variant && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || ((!varl.empty() && varl != variant_left) && (!varr.empty() && varr != variant_right))
-   || (!varl.empty() && varl != variant_left && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || (!varr.empty() && varr != variant_right && attribute == Compiler::COMPILER_RESTRICTION_LR_VAL))
+   || !listed(altval, alt)
+   || (!in_lr && !in_rl))
   {
     do
     {
@@ -360,14 +387,11 @@ Expander::procEntry(UFILE* output)
   }
 
   EntList items, items_lr, items_rl;
-  if(attribute == Compiler::COMPILER_RESTRICTION_LR_VAL
-   || (!varval.empty() && varval != variant && attribute != Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || (!varl.empty() && varl != variant_left))
+  if(!in_rl)
   {
     items_lr.push_back(make_pair(""_u, ""_u));
   }
-  else if(attribute == Compiler::COMPILER_RESTRICTION_RL_VAL
-        || (!varr.empty() && varr != variant_right))
+  else if(!in_lr)
   {
     items_rl.push_back(make_pair(""_u, ""_u));
   }
-- 
2.43.0


From 4d6b18eee43bd979e02ce17f586b089af4bfcff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:21 +0000
Subject: [PATCH 22/91] fix: analyse what follows the last match at the end of
 the input or before a null

---
 lttoolbox/fst_processor.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 7024e83..0604bf2 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1038,12 +1038,6 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         input_buffer.setPos(last);
         input_buffer.back(1);
       }
-      if(val == 0) {
-        if(!input_buffer.isEmpty()) {
-          input_buffer.setPos(last+1);
-        }
-      }
-
       current_state = initial_state;
       lf.clear();
       sf.clear();
@@ -1053,7 +1047,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       last_preblank = false;
     }
   }
-  while(val);
+  while(val || !input_buffer.isEmpty()); // what comes after the last match was read, but not analysed yet
 
   // print remaining blanks
   flushBlanks(output);
-- 
2.43.0


From 02c4717538febdd426daa22b3a5d41a7b35fc055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:47 +0000
Subject: [PATCH 23/91] fix: a simple space inside a multiword is not written
 twice

---
 lttoolbox/fst_processor.cc | 23 +++++++++--------------
 lttoolbox/fst_processor.h  |  8 ++++----
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 0604bf2..0c27af1 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -489,25 +489,24 @@ FSTProcessor::writeEscaped(UStringView str, UFILE *output)
   }
 }
 
-size_t
+UString
 FSTProcessor::writeEscapedPopBlanks(UStringView str, UFILE *output)
 {
-  size_t postpop = 0;
+  UString inner_blanks;
   for (unsigned int i = 0, limit = str.size(); i < limit; i++)
   {
     if (escaped_chars.find(str[i]) != escaped_chars.end()) {
       u_fputc('\\', output);
     }
     u_fputc(str[i], output);
-    if (str[i] == ' ') {
-      if (blankqueue.front() == " "_u) {
-        blankqueue.pop();
-      } else {
-        postpop++;
+    if (str[i] == ' ' && !blankqueue.empty()) {
+      if (blankqueue.front() != " "_u) {
+        inner_blanks += blankqueue.front();
       }
+      blankqueue.pop();
     }
   }
-  return postpop;
+  return inner_blanks;
 }
 
 void
@@ -544,13 +543,9 @@ void
 FSTProcessor::printWordPopBlank(UStringView sf, UStringView lf, UFILE *output)
 {
   u_fputc('^', output);
-  size_t postpop = writeEscapedPopBlanks(sf, output);
+  UString inner_blanks = writeEscapedPopBlanks(sf, output);
   u_fprintf(output, "%.*S$", lf.size(), lf.data());
-  while (postpop-- && blankqueue.size() > 0)
-  {
-    write(blankqueue.front(), output);
-    blankqueue.pop();
-  }
+  write(inner_blanks, output);
 }
 
 void
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index c0a1c42..72f26b2 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -338,14 +338,14 @@ private:
 
   /**
    * Write a string to an output stream.
-   * If we print a space, we may pop a space from blankqueue
-   * immediately, otherwise it should be printed afterwards.
+   * If we print a space, we pop a blank from blankqueue;
+   * unless it's a simple space, it should be printed afterwards.
    *
    * @param str the string to write, escaping characters
    * @param output the stream to write in
-   * @return how many blanks to pop and print after printing lu
+   * @return the blanks to print after printing lu
    */
-  size_t writeEscapedPopBlanks(UStringView str, UFILE *output);
+  UString writeEscapedPopBlanks(UStringView str, UFILE *output);
 
   /**
    * Write a string to an output stream, escaping all escapable characters
-- 
2.43.0


From 8dd6eed8d1a77b02f1bb609eb640de54d9026fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:47 +0000
Subject: [PATCH 24/91] fix: queued blanks stand for spaces only, and for
 escaped spaces too

---
 lttoolbox/fst_processor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 0c27af1..7289c73 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -226,6 +226,9 @@ FSTProcessor::readAnalysis(InputFile& input)
 
       case '\\':
         val = input.get();
+        if(val == ' ') {
+          blankqueue.push(" "_u);
+        }
         input_buffer.add(static_cast<int32_t>(val));
         return val;
 
@@ -590,7 +593,7 @@ void
 FSTProcessor::printChar(UChar32 val, UFILE* output)
 {
   if (u_isspace(val)) {
-    if (blankqueue.size() > 0) {
+    if (val == ' ' && blankqueue.size() > 0) {
       write(blankqueue.front(), output);
       blankqueue.pop();
     } else {
-- 
2.43.0


From db91f4b07f71b799d9626a33b1589af6bfc2384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:47 +0000
Subject: [PATCH 25/91] fix: notice the end of the input after an ignored
 character

---
 lttoolbox/fst_processor.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 7289c73..68764c9 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -186,6 +186,11 @@ FSTProcessor::readAnalysis(InputFile& input)
 
   UChar32 val = input.get();
   int32_t altval = 0;
+  while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
+  {
+    val = input.get();
+  }
+
   if(input.eof())
   {
     input_buffer.add(0);        // so it's treated like the NUL byte
@@ -194,11 +199,6 @@ FSTProcessor::readAnalysis(InputFile& input)
     val = 0;
   }
 
-  while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
-  {
-    val = input.get();
-  }
-
   if(escaped_chars.find(val) != escaped_chars.end())
   {
     switch(val)
-- 
2.43.0


From 10676249d697c1906ffd1ad3916b463fdc1821a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:49 +0000
Subject: [PATCH 26/91] fix: a shorter match in another section does not decide
 the blank around the longest one

---
 lttoolbox/fst_processor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 68764c9..2cd28c3 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -826,6 +826,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
         lf = filterFinals(current_state, sf);
         last_incond = true;
+        last_postblank = false;
+        last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -837,6 +839,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
         lf = filterFinals(current_state, sf);
         last_postblank = true;
+        last_incond = false;
+        last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -848,6 +852,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
         lf = filterFinals(current_state, sf);
         last_preblank = true;
+        last_incond = false;
+        last_postblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
-- 
2.43.0


From 86c95ca8707e4e160820bc4ddfb9011bec6d9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:49 +0000
Subject: [PATCH 27/91] fix: do not cut characters outside the BMP in two when
 they begin no word

---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 2cd28c3..bb67ba1 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -995,7 +995,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          writeEscaped(sf.substr(0, U16_IS_LEAD(sf[0]) ? 2 : 1), output);
         }
         else
         {
@@ -1018,7 +1018,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          writeEscaped(sf.substr(0, U16_IS_LEAD(sf[0]) ? 2 : 1), output);
         }
         else
         {
-- 
2.43.0


From 69fac04fbe805fac9a06813e10d38d82b835ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:49 +0000
Subject: [PATCH 28/91] fix: lt-proc -c does not fall back to lowercase for
 unknown words

---
 lttoolbox/fst_processor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index bb67ba1..96db829 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -722,6 +722,9 @@ FSTProcessor::compoundAnalysisOrLowering(UString input_cased) {
       return compound;
     }
   }
+  if(caseSensitive) {
+    return ""_u;
+  }
   // If we failed due to state explosion, we may try again with the lowercased string:
   UString input_lowered = StringUtils::tolower(input_cased);
   State current_state = initial_state;
-- 
2.43.0


From 3eddbc7c905db9225fed9b1f7e2226f24b413be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:09 +0000
Subject: [PATCH 29/91] fix: keep the case of words written in scripts outside
 the BMP

---
 lttoolbox/fst_processor.cc | 18 +++++++++++++-----
 lttoolbox/state.cc         | 13 ++++++++++---
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 96db829..f07fa3e 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -470,9 +470,9 @@ FSTProcessor::filterFinals(const State& state, UStringView casefrom)
 {
   bool firstupper = false, uppercase = false;
   if (!dictionaryCase) {
-    firstupper = u_isupper(casefrom[0]);
-    uppercase = (casefrom.size() > 1 &&
-                 firstupper && u_isupper(casefrom[casefrom.size()-1]));
+    UString surface_case = StringUtils::getcase(casefrom);
+    firstupper = (surface_case[0] == 'A');
+    uppercase = (surface_case[1] == 'A');
   }
   return state.filterFinals(all_finals, alphabet, escaped_chars,
                             displayWeightsMode, maxAnalyses, maxWeightClasses,
@@ -1339,8 +1339,16 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         if (current_state.isFinal(all_finals)) {
           bool firstupper = false, uppercase = false;
           if (!dictionaryCase) {
-            uppercase = rd.content.size() > 1 && u_isupper(rd.content[1]);
-            firstupper= u_isupper(rd.content[0]);
+            size_t pos = 0;
+            UChar32 c = 0;
+            if (pos < rd.content.size()) {
+              U16_NEXT(rd.content.data(), pos, rd.content.size(), c);
+              firstupper = u_isupper(c);
+            }
+            if (pos < rd.content.size()) {
+              U16_NEXT(rd.content.data(), pos, rd.content.size(), c);
+              uppercase = u_isupper(c);
+            }
           }
 
           if (mode == gm_tagged || mode == gm_tagged_nm) {
diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 01eed93..67f8de4 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -532,9 +532,16 @@ State::filterFinalsArray(std::vector<UString>& result,
       cost += step.second;
     }
     if (it.dirty && firstupper) {
-      int loc = firstchar;
-      if (temp[loc] == '~') loc++; // skip post-generation mark
-      temp[loc] = u_toupper(temp[loc]);
+      size_t loc = firstchar;
+      if (loc < temp.size() && temp[loc] == '~') loc++; // skip post-generation mark
+      if (loc < temp.size()) {
+        size_t end = loc;
+        UChar32 c;
+        U16_NEXT(temp.data(), end, temp.size(), c);
+        UString upper;
+        upper += static_cast<UChar32>(u_toupper(c));
+        temp.replace(loc, end - loc, upper);
+      }
     }
     response.push_back({temp, cost});
   }
-- 
2.43.0


From 5ac7fed6e8a0bbbc8cfe3d5a57eeeee974d21aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 30/91] fix: an unclosed blank does not swallow the null after
 it, nor write a non-character at the end of the input

---
 lttoolbox/input_file.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/input_file.cc b/lttoolbox/input_file.cc
index f296927..1cf02fc 100644
--- a/lttoolbox/input_file.cc
+++ b/lttoolbox/input_file.cc
@@ -174,11 +174,12 @@ InputFile::readBlock(const UChar32 start, const UChar32 end)
   UChar32 c = 0;
   while (c != end && !eof()) {
     c = get();
-    if (c == '\0') {
+    if (c == '\0' || c == U_EOF) {
+      unget(c); // not closed: leave the end of the text to the caller
       break;
     }
     ret += c;
-    if (c == '\\') {
+    if (c == '\\' && peek() != '\0' && peek() != U_EOF) {
       ret += get();
     }
   }
@@ -194,11 +195,12 @@ InputFile::finishWBlank()
   UChar32 c = 0;
   while (!eof()) {
     c = get();
-    if (c == '\0') {
+    if (c == '\0' || c == U_EOF) {
+      unget(c); // not closed: leave the end of the text to the caller
       break;
     }
     ret += c;
-    if (c == '\\') {
+    if (c == '\\' && peek() != '\0' && peek() != U_EOF) {
       ret += get();
     } else if (c == ']' && peek() == ']') {
       ret += get();
-- 
2.43.0


From 2687932d6c710bfab1d86e7112d48e0c1bf75fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:13 +0000
Subject: [PATCH 31/91] fix: generation does not escape what is already escaped
 in a lexical unit

---
 lttoolbox/fst_processor.cc | 47 +++++++++++++++++++++++++++++---------
 lttoolbox/fst_processor.h  |  8 +++++++
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index f07fa3e..9f26133 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -492,6 +492,23 @@ FSTProcessor::writeEscaped(UStringView str, UFILE *output)
   }
 }
 
+void
+FSTProcessor::writeEscapedContent(UStringView str, UFILE *output)
+{
+  for(unsigned int i = 0, limit = str.size(); i < limit; i++)
+  {
+    if(str[i] == '\\' && i + 1 < limit)
+    {
+      u_fputc(str[i++], output); // already escaped
+    }
+    else if(escaped_chars.find(str[i]) != escaped_chars.end())
+    {
+      u_fputc('\\', output);
+    }
+    u_fputc(str[i], output);
+  }
+}
+
 UString
 FSTProcessor::writeEscapedPopBlanks(UStringView str, UFILE *output)
 {
@@ -517,13 +534,17 @@ FSTProcessor::writeEscapedWithTags(UStringView str, UFILE *output)
 {
   for(unsigned int i = 0, limit = str.size(); i < limit; i++)
   {
-    if(str[i] == '<' && i >=1 && str[i-1] != '\\')
+    if(str[i] == '<' && i >=1)
     {
       write(str.substr(i), output);
       return;
     }
 
-    if(escaped_chars.find(str[i]) != escaped_chars.end())
+    if(str[i] == '\\' && i + 1 < limit)
+    {
+      u_fputc(str[i++], output); // already escaped
+    }
+    else if(escaped_chars.find(str[i]) != escaped_chars.end())
     {
       u_fputc('\\', output);
     }
@@ -1284,14 +1305,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         skip = true;
         if (mode == gm_tagged_nm) {
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedContent(removeTags(rd.content), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
           writeEscapedWithTags(rd.content, output);
           u_fputc('$', output);
         } else {
           if (mode != gm_clean) u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          writeEscapedContent(rd.content, output);
         }
         break;
       case '@':
@@ -1299,7 +1320,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         switch (mode) {
         case gm_all:
           u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          writeEscapedContent(rd.content, output);
           break;
         case gm_unknown:
         case gm_tagged:
@@ -1307,11 +1328,11 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           [[fallthrough]];
         case gm_bilgen:
         case gm_clean:
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedContent(removeTags(rd.content), output);
           break;
         case gm_tagged_nm:
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedContent(removeTags(rd.content), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
           writeEscapedWithTags(rd.content, output);
@@ -1368,7 +1389,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           switch (mode) {
           case gm_all:
             u_fputc('#', output);
-            writeEscaped(rd.content, output);
+            writeEscapedContent(rd.content, output);
             break;
           case gm_carefulcase:
           case gm_unknown:
@@ -1377,11 +1398,11 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
             [[fallthrough]];
           case gm_bilgen:
           case gm_clean:
-            writeEscaped(removeTags(rd.content), output);
+            writeEscapedContent(removeTags(rd.content), output);
             break;
           case gm_tagged_nm:
             u_fputc('^', output);
-            writeEscaped(removeTags(rd.content), output);
+            writeEscapedContent(removeTags(rd.content), output);
             u_fputc('/', output);
             u_fputc('#', output);
             writeEscapedWithTags(rd.content, output);
@@ -2379,7 +2400,11 @@ FSTProcessor::removeTags(UStringView str)
 {
   for(unsigned int i = 0; i < str.size(); i++)
   {
-    if(str[i] == '<' && i >=1 && str[i-1] != '\\')
+    if(str[i] == '\\')
+    {
+      i++; // the next character is escaped
+    }
+    else if(str[i] == '<' && i >=1)
     {
       return str.substr(0, i);
     }
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index 72f26b2..1f242f6 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -336,6 +336,14 @@ private:
    */
   void writeEscaped(UStringView str, UFILE *output);
 
+  /**
+   * Write the content of a lexical unit, as it was read, to an output
+   * stream, escaping the escapable characters that are not yet escaped
+   * @param str the string to write
+   * @param output the stream to write in
+   */
+  void writeEscapedContent(UStringView str, UFILE *output);
+
   /**
    * Write a string to an output stream.
    * If we print a space, we pop a blank from blankqueue;
-- 
2.43.0


From 236f40bbbbb2d6220289034579ff4a70c4646dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:13 +0000
Subject: [PATCH 32/91] fix: lt-proc -C does not drop untranslated words

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 9f26133..65c39a2 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1322,6 +1322,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           u_fputc(rd.mark, output);
           writeEscapedContent(rd.content, output);
           break;
+        case gm_carefulcase:
         case gm_unknown:
         case gm_tagged:
           u_fputc(rd.mark, output);
-- 
2.43.0


From a3e40003fe28854bbfa62c76c40927acf3fdd8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:56 +0000
Subject: [PATCH 33/91] fix: lexical transfer keeps the %, = and # a lemma or
 surface form begins with

---
 lttoolbox/fst_processor.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 65c39a2..11d4072 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1770,6 +1770,7 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 
     if (biltransSurfaceFormsKeep && !reader.readings.empty()) {
       u_fputc('^', output);
+      if (reader.readings[0].mark) u_fputc(reader.readings[0].mark, output);
       write(reader.readings[0].content, output);
       u_fputc((reader.readings.size() > 1 ? '/' : '$'), output);
     }
@@ -1794,7 +1795,14 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 
     auto& symbols = reader.readings[index].symbols;
 
-    if (symbols.empty()) {
+    // a lemma can begin with these, too
+    UChar32 mark = reader.readings[index].mark;
+    if (mark != '#' && mark != '%' &&
+        !(mark == '=' && (symbols.empty() || alphabet.isTag(symbols[0])))) {
+      mark = 0;
+    }
+
+    if (symbols.empty() && !mark) {
       u_fputc('$', output);
       maybeFlush(output, reader.at_null);
       continue;
@@ -1802,14 +1810,14 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 
     State current_state = initial_state;
 
-    bool firstupper = (symbols[0] > 0 && u_isupper(symbols[0]));
+    bool firstupper = (!symbols.empty() && symbols[0] > 0 && u_isupper(symbols[0]));
     bool uppercase = (firstupper && symbols.size() > 1 &&
                       symbols[1] > 0 && u_isupper(symbols[1]));
 
     bool seenTags = false;
     size_t queue_start = 0;
     std::vector<UString> result;
-    if (reader.readings[index].mark == '#') current_state.step('#');
+    if (mark) current_state.step(mark);
     for (size_t i = 0; i < symbols.size(); i++) {
       seenTags = seenTags || alphabet.isTag(symbols[i]);
       UString source;
@@ -1837,7 +1845,7 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
     if(result.empty() && (mode == gm_bilgen || mode == gm_all)) {
       // Retry looking up lower-cased version, this time not using alt-override (which leads to state explosions)
       State current_state = initial_state;
-      if (reader.readings[index].mark == '#') current_state.step('#');
+      if (mark) current_state.step(mark);
       bool seenTags = false;
       for (size_t i = 0; i < symbols.size(); i++) {
         seenTags = seenTags || alphabet.isTag(symbols[i]);
@@ -1864,8 +1872,8 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 
     UString source;
     size_t queue_pos = 0;
-    if (reader.readings[index].mark == '#') {
-      source += '#';
+    if (mark) {
+      source += mark;
       queue_pos = 1;
     }
     for (size_t i = 0; i < symbols.size(); i++) {
-- 
2.43.0


From 88bb99c5029207cb668f72c0fa65974789900aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:43 +0000
Subject: [PATCH 34/91] fix: generation looks up lexical units that begin with
 #

---
 lttoolbox/fst_processor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 11d4072..41df21b 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1296,6 +1296,10 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
     if (!reader.readings.empty()) {
       auto& rd = reader.readings[0];
       bool skip = false;
+      if (rd.mark == '#') { // not a mark in the input of generation
+        rd.content.insert(0, 1, '#');
+        rd.symbols.insert(rd.symbols.begin(), '#');
+      }
       switch (rd.mark) {
       case '=':
         u_fputc('=', output);
-- 
2.43.0


From fc5eb346bdc0815200cdf757a481e93e65470e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:07 +0000
Subject: [PATCH 35/91] fix: transliteration resumes after what it has
 rewritten, and always advances

---
 lttoolbox/fst_processor.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 41df21b..870ebe0 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1567,8 +1567,10 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
         }
         space_diff += (lf_spaces - sf_spaces);
         size_t last_start = start_pos;
-        start_pos = match_pos - i;
-        if (start_pos == last_start) start_pos++;
+        // what the output shares with the end of the match can begin another
+        // match, but at least one character is done with
+        start_pos = last_start + match.size() - i;
+        if (match_pos - i == last_start) start_pos++;
         cur_pos = start_pos;
         cur_word = 0;
       }
-- 
2.43.0


From 3e9f4fdd97017146640bb97316f77c0d7078d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:52 +0000
Subject: [PATCH 36/91] fix: transliteration to letters outside the BMP

---
 lttoolbox/alphabet.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 0531005..e72d636 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -313,8 +313,12 @@ Alphabet::tokenize(UStringView str) const
 {
   std::vector<int32_t> ret;
   for (auto sym : symbol_iter(str)) {
-    if (sym.size() > 1) ret.push_back(operator()(sym));
-    else ret.push_back(static_cast<int32_t>(sym[0]));
+    if (sym.size() > 1 && sym[0] == '<') ret.push_back(operator()(sym));
+    else {
+      UChar32 c;
+      U16_GET(sym.data(), 0, 0, sym.size(), c);
+      ret.push_back(static_cast<int32_t>(c));
+    }
   }
   return ret;
 }
-- 
2.43.0


From abcb76dcbed26169a8b87d111e684ada7db6275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:52 +0000
Subject: [PATCH 37/91] fix: an escaped space in the input of postgeneration
 has a blank of its own

---
 lttoolbox/fst_processor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 870ebe0..e50c1a8 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -373,7 +373,9 @@ FSTProcessor::readTransliterationWord(InputFile& input)
           input.unget(c);
           break;
         } else if (c == '\\') {
-          word.push_back(static_cast<int32_t>(input.get()));
+          c = input.get();
+          if (c == ' ') blankqueue.push(" "_u);
+          word.push_back(static_cast<int32_t>(c));
         } else if (c == '<') {
           word.push_back(alphabet(input.readBlock('<', '>')));
         } else if (c == '\0') {
@@ -395,7 +397,9 @@ FSTProcessor::readTransliterationWord(InputFile& input)
         input.unget(c);
         break;
       } else if (c == '\\') {
-        word.push_back(static_cast<int32_t>(input.get()));
+        c = input.get();
+        if (c == ' ') blankqueue.push(" "_u);
+        word.push_back(static_cast<int32_t>(c));
       } else if (c == '<') {
         word.push_back(alphabet(input.readBlock('<', '>')));
       } else {
-- 
2.43.0


From b892123f273061ccdb5db47ee59a320c9aaa475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:24 +0000
Subject: [PATCH 38/91] fix: no non-character at the end of postgeneration
 without a final newline

---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index e50c1a8..efe9700 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -378,7 +378,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
           word.push_back(static_cast<int32_t>(c));
         } else if (c == '<') {
           word.push_back(alphabet(input.readBlock('<', '>')));
-        } else if (c == '\0') {
+        } else if (c == '\0' || c == U_EOF) {
           input.unget(c);
           break;
         } else {
@@ -393,7 +393,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
   } else {
     while (!input.eof()) {
       UChar32 c = input.get();
-      if (u_isspace(c) || c == '[' || c == '\0') {
+      if (u_isspace(c) || c == '[' || c == '\0' || c == U_EOF) {
         input.unget(c);
         break;
       } else if (c == '\\') {
-- 
2.43.0


From 03ee0fa905685cdeda29bcb31d0da97635e5c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:00 +0000
Subject: [PATCH 39/91] fix: parts of a compound keep what they write before
 reading anything

---
 lttoolbox/state.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 67f8de4..4e08463 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -910,7 +910,7 @@ void
 State::restartFinals(const std::map<Node *, double> &finals, int requiredSymbol, State *restart_state, int separationSymbol)
 {
 
-  for(unsigned int i=0;  i<state.size(); i++)
+  for(size_t i = 0, limit = state.size(); i < limit; i++)
   {
     TNodeState state_i = state.at(i);
     // A state can be a possible final state and still have transitions
@@ -934,6 +934,9 @@ State::restartFinals(const std::map<Node *, double> &finals, int requiredSymbol,
             }
             TNodeState tn(initst.where, tnvec, state_i.dirty);
             tn.sequence->push_back({separationSymbol, 0.0});
+            // what the next part writes before reading anything
+            tn.sequence->insert(tn.sequence->end(), initst.sequence->begin(),
+                                initst.sequence->end());
             state.push_back(tn);
           }
         }
-- 
2.43.0


From 0ee2744a895b403e2472d1b28fbada5358959f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:57 +0000
Subject: [PATCH 40/91] fix: compounds with letters outside the BMP

---
 lttoolbox/fst_processor.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index efe9700..9d3a1d8 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -707,9 +707,11 @@ FSTProcessor::compoundAnalysis(UString input_word)
 
   State current_state = initial_state;
 
-  for(unsigned int i=0; i<input_word.size(); i++)
+  for(size_t i = 0, next = 0; i < input_word.size(); i = next)
   {
-    UChar val=input_word[i];
+    UChar32 val;
+    U16_GET(input_word.data(), 0, i, input_word.size(), val);
+    next = i + U16_LENGTH(val);
 
     current_state.step_case(val, beCaseSensitive(current_state));
 
@@ -722,7 +724,7 @@ FSTProcessor::compoundAnalysis(UString input_word)
       return  nullString;
     }
 
-    if(i < input_word.size()-1)
+    if(next < input_word.size())
     {
       current_state.restartFinals(all_finals, compoundOnlyLSymbol, &initial_state, '+');
     }
@@ -753,8 +755,10 @@ FSTProcessor::compoundAnalysisOrLowering(UString input_cased) {
   // If we failed due to state explosion, we may try again with the lowercased string:
   UString input_lowered = StringUtils::tolower(input_cased);
   State current_state = initial_state;
-  for(unsigned int i=0; i<input_lowered.size(); i++) {
-    current_state.step_case(input_lowered[i], beCaseSensitive(current_state));
+  for(size_t i = 0; i < input_lowered.size(); ) {
+    UChar32 val;
+    U16_NEXT(input_lowered.data(), i, input_lowered.size(), val);
+    current_state.step_case(val, beCaseSensitive(current_state));
     if(current_state.size()==0) {
       break;
     }
-- 
2.43.0


From 28e1ca6bef5ee4b9f8c76d638cc38c5e6881d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:27 +0000
Subject: [PATCH 41/91] fix: whether a compound may contain a blank does not
 depend on the word before it

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 9d3a1d8..15eeea8 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1078,6 +1078,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       lf.clear();
       sf.clear();
       last_start = input_buffer.getPos();
+      last_size = 0;
       last_incond = false;
       last_postblank = false;
       last_preblank = false;
-- 
2.43.0


From d7c7cf730965d5f07466e21f1224f61fa5d963d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 42/91] fix: lt-proc -e does not take a word that can only
 begin a compound for a match

---
 lttoolbox/fst_processor.cc | 41 +++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 15eeea8..1976038 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -847,15 +847,29 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
   do
   {
     val = readAnalysis(input);
+    if(do_decomposition && compoundOnlyLSymbol != 0 &&
+       current_state.isFinal(all_finals))
+    {
+      if(isAlphabetic(val) && !current_state.isFinal(inconditional) &&
+         !current_state.isFinal(postblank) && !current_state.isFinal(preblank))
+      {
+        // Record if a compound might be possible
+        if(current_state.hasSymbol(compoundOnlyLSymbol))
+        {
+          seen_cpL = true;
+        }
+      }
+      else
+      {
+        // what can only begin a compound is no analysis
+        current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
+      }
+    }
     // test for final states
     if(current_state.isFinal(all_finals))
     {
       if(current_state.isFinal(inconditional))
       {
-        if(do_decomposition && compoundOnlyLSymbol != 0)
-        {
-          current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
-        }
         lf = filterFinals(current_state, sf);
         last_incond = true;
         last_postblank = false;
@@ -865,10 +879,6 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       }
       else if(current_state.isFinal(postblank))
       {
-        if(do_decomposition && compoundOnlyLSymbol != 0)
-        {
-          current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
-        }
         lf = filterFinals(current_state, sf);
         last_postblank = true;
         last_incond = false;
@@ -878,10 +888,6 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       }
       else if(current_state.isFinal(preblank))
       {
-        if(do_decomposition && compoundOnlyLSymbol != 0)
-        {
-          current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
-        }
         lf = filterFinals(current_state, sf);
         last_preblank = true;
         last_incond = false;
@@ -891,10 +897,6 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       }
       else if(!isAlphabetic(val))
       {
-        if(do_decomposition && compoundOnlyLSymbol != 0)
-        {
-          current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
-        }
         lf = filterFinals(current_state, sf);
         last_postblank = false;
         last_preblank = false;
@@ -902,13 +904,6 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         last = input_buffer.getPos();
         last_size = sf.size();
       }
-      else { // isAlphabetic, standard type section
-        // Record if a compound might be possible
-        if (do_decomposition && compoundOnlyLSymbol != 0
-            && current_state.hasSymbol(compoundOnlyLSymbol)) {
-          seen_cpL = true;
-        }
-      }
     }
     else if(sf.empty() && u_isspace(val))
     {
-- 
2.43.0


From eb9c131c21ff3ae4aab0486bacbfc40adbf44c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:19 +0000
Subject: [PATCH 43/91] fix: a failed compound with letters outside the BMP is
 read again from where it began

---
 lttoolbox/fst_processor.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 1976038..630118e 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -960,12 +960,14 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           && last_size <= lastBlank(sf)) {
         int oldval = val;
         UString oldsf = sf;
+        int count = 0;  // characters, that may be two code units each in sf
         do {
           alphabet.getSymbol(sf, val);
+          count++;
         } while ((val = readAnalysis(input)) && isAlphabetic(val));
         lf_spcmp = compoundAnalysis(sf);
         if(lf_spcmp.empty()) {  // didn't work, rewind!
-          input_buffer.back(sf.size() - oldsf.size());
+          input_buffer.back(count);
           val = oldval;
           sf.swap(oldsf);
         }
-- 
2.43.0


From 550a15bf71c51fca90057ed8b8f9c26c808365a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:23 +0000
Subject: [PATCH 44/91] fix: the fewest parts of a compound are counted over
 complete compounds only

---
 lttoolbox/fst_processor.cc | 2 +-
 lttoolbox/state.cc         | 6 ++++--
 lttoolbox/state.h          | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 630118e..0a04c7e 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -736,7 +736,7 @@ FSTProcessor::compoundAnalysis(UString input_word)
     }
   }
 
-  current_state.pruneCompounds(compoundRSymbol, '+', compound_max_elements);
+  current_state.pruneCompounds(compoundRSymbol, '+', compound_max_elements, &all_finals);
   return filterFinals(current_state, input_word);
 }
 
diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 4e08463..0dd0075 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -793,7 +793,8 @@ State::filterFinalsTM(std::map<Node *, double> const &finals,
 
 
 void
-State::pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements)
+State::pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements,
+                      const std::map<Node *, double> *finals)
 {
   int minNoOfCompoundElements = compound_max_elements;
   int *noOfCompoundElements = new int[state.size()];
@@ -802,7 +803,8 @@ State::pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max
   {
     std::vector<std::pair<int, double>> seq = *state.at(i).sequence;
 
-    if(lastPartHasRequiredSymbol(seq, requiredSymbol, separationSymbol))
+    if((finals == nullptr || finals->count(state.at(i).where) > 0) &&
+       lastPartHasRequiredSymbol(seq, requiredSymbol, separationSymbol))
     {
       int this_noOfCompoundElements = 0;
       for (int j = seq.size()-2; j>0; j--) if ((seq.at(j)).first==separationSymbol) this_noOfCompoundElements++;
diff --git a/lttoolbox/state.h b/lttoolbox/state.h
index c760af1..2ff872a 100644
--- a/lttoolbox/state.h
+++ b/lttoolbox/state.h
@@ -223,8 +223,10 @@ public:
     * @param requieredSymbol the symbol requiered in the last part
     * @param separationSymbol the symbol that represent the separation between two parts
     * @param compound_max_elements the maximum part number allowed
+    * @param finals if given, states not in it are removed too
     */
-  void pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements);
+  void pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements,
+                      const std::map<Node *, double> *finals = nullptr);
 
   /**
     * Remove states containing a forbidden symbol
-- 
2.43.0


From d06fdc46b88d82c2f4963dd914288a48431d2949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 45/91] fix: ignored and restored characters outside the BMP

---
 lttoolbox/fst_processor.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 0a04c7e..cc1cefa 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -109,6 +109,15 @@ FSTProcessor::parseRCX(std::string const &file)
   }
 }
 
+// the first character of s, that may be two code units
+static UChar32
+first_char(UString const &s)
+{
+  UChar32 c = 0;
+  U16_GET(s.data(), 0, 0, s.size(), c);
+  return c;
+}
+
 void
 FSTProcessor::procNodeICX()
 {
@@ -123,7 +132,7 @@ FSTProcessor::procNodeICX()
   }
   else if(name == XML_CHAR_ELEM)
   {
-    ignored_chars.insert(static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]));
+    ignored_chars.insert(first_char(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)));
   }
   else if(name == XML_COMMENT_NODE)
   {
@@ -157,11 +166,11 @@ FSTProcessor::procNodeRCX()
   }
   else if(name == XML_CHAR_ELEM)
   {
-    rcx_current_char = static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]);
+    rcx_current_char = first_char(XMLParseUtil::attrib(reader, XML_VALUE_ATTR));
   }
   else if(name == XML_RESTORE_CHAR_ELEM)
   {
-    rcx_map[rcx_current_char].insert(static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]));
+    rcx_map[rcx_current_char].insert(first_char(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)));
   }
   else if(name == XML_COMMENT_NODE)
   {
-- 
2.43.0


From 3e3f433d9ae970c403fea4faa93c75d017df5f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 46/91] fix: restored characters: the lower case of a letter
 outside ASCII

---
 lttoolbox/fst_processor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index cc1cefa..f6de00d 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -935,14 +935,14 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       }
       else if(rcx_map.find(u_tolower(val)) != rcx_map.end())
       {
-        rcx_map_ptr = rcx_map.find(tolower(val));
-        tmpset.insert(tolower(val));
+        rcx_map_ptr = rcx_map.find(u_tolower(val));
+        tmpset.insert(u_tolower(val));
         tmpset.insert(rcx_map_ptr->second.begin(), rcx_map_ptr->second.end());
         current_state.step(val, tmpset);
       }
       else
       {
-        tmpset.insert(tolower(val));
+        tmpset.insert(u_tolower(val));
         current_state.step(val, tmpset);
       }
     }
-- 
2.43.0


From ee22a68db821e9e0acfd7fcb99074550db4592ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 47/91] fix: lt-proc -I and -r do not ignore the soft hyphen
 when -i is given too

---
 lttoolbox/fst_processor.cc | 10 +++-------
 lttoolbox/fst_processor.h  |  5 +++++
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index f6de00d..5cbb6b3 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -81,11 +81,6 @@ FSTProcessor::parseICX(std::string const &file)
       procNodeICX();
       ret = xmlTextReaderRead(reader);
     }
-    // No point trying to process ignored chars if there are none
-    if(ignored_chars.size() == 0)
-    {
-      useIgnoredChars = false;
-    }
   }
 }
 
@@ -149,7 +144,7 @@ FSTProcessor::procNodeICX()
 void
 FSTProcessor::initDefaultIgnoredCharacters()
 {
-  ignored_chars.insert(173); // '\u00AD', soft hyphen
+  default_ignored_chars.insert(173); // '\u00AD', soft hyphen
 }
 
 void
@@ -195,7 +190,8 @@ FSTProcessor::readAnalysis(InputFile& input)
 
   UChar32 val = input.get();
   int32_t altval = 0;
-  while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
+  while ((useIgnoredChars && ignored_chars.find(val) != ignored_chars.end()) ||
+         (useDefaultIgnoredChars && default_ignored_chars.find(val) != default_ignored_chars.end()))
   {
     val = input.get();
   }
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index 1f242f6..b846811 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -132,6 +132,11 @@ private:
    */
   std::set<UChar32> ignored_chars;
 
+  /**
+   * Set of characters to ignore unless told otherwise
+   */
+  std::set<UChar32> default_ignored_chars;
+
   /**
    * Mapping of characters for simplistic diacritic restoration specified in RCX files
    */
-- 
2.43.0


From 4e26dcd074be4df9d457724b8c787dcf7745a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 48/91] fix: lt-print -a writes letters outside the BMP

---
 lttoolbox/lt_print.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index 6619530..b4f023d 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -46,7 +46,8 @@ int main(int argc, char *argv[])
 
   if (alpha) {
     for (auto& it : alphabetic_chars) {
-      u_fprintf(output, "%C\n", it);
+      u_fputc(it, output);
+      u_fputc('\n', output);
     }
     for (int i = 1; i <= alphabet.size(); i++) {
       alphabet.writeSymbol(-i, output);
-- 
2.43.0


From d8d8a417475a310d8b51d106024f22d1811fd5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 49/91] fix: letters outside the BMP in transducers in ATT
 format

---
 lttoolbox/att_compiler.cc | 3 +--
 lttoolbox/att_compiler.h  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 4c415c1..71e39c3 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -531,8 +531,7 @@ AttCompiler::write(FILE *output)
   } else {
     temp["main@standard"_u] = extract_transducer(UNDECIDED);
   }
-  writeTransducerSet(output, UString(letters.begin(), letters.end()),
-                     alphabet, temp);
+  writeTransducerSet(output, letters, alphabet, temp);
 }
 
 void
diff --git a/lttoolbox/att_compiler.h b/lttoolbox/att_compiler.h
index 4d4af15..533ddb6 100644
--- a/lttoolbox/att_compiler.h
+++ b/lttoolbox/att_compiler.h
@@ -108,7 +108,7 @@ private:
 
   Alphabet alphabet;
   /** All non-multicharacter symbols. */
-  std::set<UChar> letters;
+  std::set<UChar32> letters;
 
   /** Used in AttNode. */
   struct Transduction
-- 
2.43.0


From b70ab736485104f5733bceb6e7e22e3fecfe56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 50/91] fix: the source of the first line of an ATT file is its
 initial state, whatever its number

---
 lttoolbox/att_compiler.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 71e39c3..1c25fc2 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -202,6 +202,7 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
   bool multiple_transducers = false;
   int state_id_offset = 1;
   int largest_seen_state_id = 0;
+  int first_state = 1;
   int line_number = 0;
 
   while (!u_feof(infile))
@@ -266,6 +267,9 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
     /* First line: the initial state is of both types. */
     if (first_line_in_fst)
     {
+      if (!multiple_transducers) {
+        first_state = from;
+      }
       AttNode * starting_node = get_node(starting_state);
 
       // Add an Epsilon transition from the new starting state
@@ -331,7 +335,7 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
   }
 
   if (!multiple_transducers) {
-    starting_state = 1;
+    starting_state = first_state;
     // if we aren't disjuncting multiple transducers
     // then we have an extra epsilon transduction at the beginning
     // so skip it
-- 
2.43.0


From e12a01e868c4c5ac7983462bc2180daa536d86af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 51/91] fix: a state that an ATT file declares final twice
 keeps the lower weight

---
 lttoolbox/att_compiler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 1c25fc2..aa72de4 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -294,7 +294,10 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
       {
         weight = default_weight;
       }
-      finals.insert(std::pair <int, double>(from, weight));
+      auto fin = finals.insert(std::pair <int, double>(from, weight));
+      if (weight < fin.first->second) {
+        fin.first->second = weight;
+      }
     }
     else
     {
-- 
2.43.0


From cbfec67c4668b582ce9395b6aac4db165b0cef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 52/91] fix: do not lose paths of an ATT file that begin with
 punctuation

---
 lttoolbox/att_compiler.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index aa72de4..bdf86ac 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -475,14 +475,17 @@ AttCompiler::classify_forwards()
   while(!todo.empty()) {
     int next = todo.top();
     todo.pop();
-    if(done.find(next) != done.end()) continue;
     AttNode* n1 = get_node(next);
     for(auto& t1 : n1->transductions) {
       AttNode* n2 = get_node(t1.to);
+      bool changed = false;
       for(auto& t2 : n2->transductions) {
-        t2.type |= t1.type;
+        if((t2.type | t1.type) != t2.type) {
+          t2.type |= t1.type;
+          changed = true;
+        }
       }
-      if(done.find(t1.to) == done.end()) {
+      if(changed || done.find(t1.to) == done.end()) {
         todo.push(t1.to);
       }
     }
-- 
2.43.0


From dc945e4957fb8f99c868c4bde1360ff74817c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:20 +0000
Subject: [PATCH 53/91] fix: lt-print does not give up on a dictionary with an
 empty section

---
 lttoolbox/lt_print.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index b4f023d..78f8a8a 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -56,6 +56,9 @@ int main(int argc, char *argv[])
   } else {
     bool first = true;
     for (auto& it : transducers) {
+      if (it.second.hasNoFinals()) { // an empty transducer has no ATT form
+        continue;
+      }
       if (!first) {
         u_fprintf(output, "--\n");
       }
-- 
2.43.0


From e3e6b8ccbd2ab112126867f1384490db51041fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:27 +0000
Subject: [PATCH 54/91] fix: lt-merge reads its input file also when no output
 file is given

---
 lttoolbox/lt_merge.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_merge.cc b/lttoolbox/lt_merge.cc
index d3939f7..f354891 100644
--- a/lttoolbox/lt_merge.cc
+++ b/lttoolbox/lt_merge.cc
@@ -35,7 +35,7 @@ int main(int argc, char *argv[])
   auto strs = cli.get_strs();
   bool unmerge = cli.get_bools()["unmerge"];
   InputFile input;
-  if (!cli.get_files()[1].empty()) {
+  if (!cli.get_files()[0].empty()) {
     input.open_or_exit(cli.get_files()[0].c_str());
   }
   UFILE* output = openOutTextFile(cli.get_files()[1]);
@@ -50,5 +50,6 @@ int main(int argc, char *argv[])
     fstp.quoteMerge(input, output);
   }
 
+  u_fclose(output);
   return 0;
 }
-- 
2.43.0


From 38aa8804e7fee36cf34bd94009cc2e8be57d21b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:27 +0000
Subject: [PATCH 55/91] fix: lt-merge: escape the blanks inside a merged unit
 like the rest of it

---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 5cbb6b3..7f2ec31 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2075,7 +2075,7 @@ FSTProcessor::quoteMerge(InputFile& input, UFILE *output)
     }
     if(merging) {
       if(surface.size() > 0) {
-        surface += reader.blank;
+        appendEscaped(surface, reader.blank);
         appendEscaped(surface, reader.wblank);
         if(!reader.wblank.empty()) { appendEscaped(surface, "^$"_u); } // otherwise cg-proc will Error wordblank not prior to token
       }
-- 
2.43.0


From 77d72196bdfd764751214b10f7979e11c80fa4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:27 +0000
Subject: [PATCH 56/91] fix: lt-merge: keep the first character of a form that
 begins with #, %, = or *

---
 lttoolbox/fst_processor.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 7f2ec31..86209a6 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2085,7 +2085,11 @@ FSTProcessor::quoteMerge(InputFile& input, UFILE *output)
         write(reader.wblank, output);
       }
       if(reader.readings.size() > 0) {
-        // Drop possible unknown marks.
+        // Drop possible unknown marks (a form that has analyses has no mark,
+        // just a first character that looks like one).
+        if(reader.readings.size() > 1 && reader.readings[0].mark != '\0') {
+          appendEscaped(surface, UString(1, reader.readings[0].mark));
+        }
         // Double-escape the form since we'll unescape during lt-unmerge:
         appendEscaped(surface, reader.readings[0].content);
       }
-- 
2.43.0


From f0e0d7dc375be3ab8f2b6800c855df25368724a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:27 +0000
Subject: [PATCH 57/91] fix: lt-merge: write the units of a merge that the end
 of the input cuts off

---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 86209a6..d438b45 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2113,7 +2113,7 @@ FSTProcessor::quoteMerge(InputFile& input, UFILE *output)
         u_fputc('$', output);
       }
     }
-    if(end_merging || reader.at_null) {
+    if(end_merging || reader.at_null || reader.at_eof) {
       if (merging) {
         u_fputc('^', output);
         write(surface, output);
-- 
2.43.0


From 7d93707907c0ba714ee09a504d2468368a48efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:26 +0000
Subject: [PATCH 58/91] fix: lt-paradigm: letters outside the BMP in patterns

---
 lttoolbox/lt_paradigm.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index e0d5858..5fd6597 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -83,7 +83,15 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
   Transducer other;
   int state = other.getInitial();
   for (auto sym : symbol_iter(pattern)) {
-    int32_t it = (sym.size() == 1 ? sym[0] : alpha(sym));
+    int32_t it = 0;
+    if (sym.size() == 1) {
+      it = sym[0];
+    } else if (sym[0] == '<') {
+      it = alpha(sym);
+    } else {
+      size_t i = 0;
+      U16_NEXT(sym.data(), i, sym.size(), it);
+    }
     if (it == any_char) {
       state = other.insertNewSingleTransduction(0, state);
       for (auto& sym : letters) {
@@ -203,7 +211,10 @@ int main(int argc, char* argv[])
       }
       cur.clear();
     } else {
-      cur += c;
+      UChar buf[2];
+      size_t len = 0;
+      U16_APPEND_UNSAFE(buf, len, c);
+      cur.append(buf, len);
     }
   } while (!input.eof());
 
-- 
2.43.0


From 12abb9f8fe3a980d7da6ba14348d6b1b0c1dac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:26 +0000
Subject: [PATCH 59/91] fix: lt-paradigm: a pattern with a tag that the
 dictionary does not have matches nothing

---
 lttoolbox/lt_paradigm.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index 5fd6597..f61f77c 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -118,6 +118,9 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
       }
     } else if (it == 0 && StringUtils::startswith(sym, "<|"_u)) {
       auto or_tags = split_tag(sym, alpha, 1, '|');
+      if (or_tags.empty()) {
+        return; // the dictionary has none of these tags
+      }
       auto old_state = state;
       for (auto& t : or_tags) {
         if (old_state == state) {
@@ -126,6 +129,8 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
           other.linkStates(old_state, state, alpha(t, t));
         }
       }
+    } else if (it == 0) {
+      return; // the dictionary has no such tag
     } else {
       state = other.insertNewSingleTransduction(alpha(it, it), state);
     }
-- 
2.43.0


From 964b01ea3759f6584fd43bdda595f8faf09d5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:19 +0000
Subject: [PATCH 60/91] fix: the biltrans functions look at the whole word, not
 all but its last character

---
 lttoolbox/fst_processor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index d438b45..fe463ce 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1695,7 +1695,7 @@ FSTProcessor::biltransfull(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  auto word = input_word.substr(start_point, end_point-start_point);
+  auto word = input_word.substr(start_point, end_point-start_point+1);
   bool exists = step_biltrans(word, result, queue);
   if (!exists) {
     if (with_delim) return "^@"_u + US(input_word.substr(1));
@@ -1740,7 +1740,7 @@ FSTProcessor::biltrans(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  UStringView word = input_word.substr(start_point, end_point-start_point);
+  UStringView word = input_word.substr(start_point, end_point-start_point+1);
   bool exists = step_biltrans(word, result, queue);
   if (!exists) {
     if (with_delim) return "^@"_u + US(input_word.substr(1));
@@ -1949,7 +1949,7 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
   bool firstupper = u_isupper(input_word[start_point]);
   bool uppercase = firstupper && u_isupper(input_word[start_point+1]);
 
-  UStringView word = input_word.substr(start_point, end_point-start_point);
+  UStringView word = input_word.substr(start_point, end_point-start_point+1);
   for (auto symbol : symbol_iter(word)) {
     int32_t val;
     if (symbol.size() == 1) {
@@ -2039,7 +2039,7 @@ FSTProcessor::biltransWithoutQueue(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  auto word = input_word.substr(start_point, end_point-start_point);
+  auto word = input_word.substr(start_point, end_point-start_point+1);
   UString queue;
   bool exists = step_biltrans(word, result, queue);
   if (!exists || !queue.empty()) {
-- 
2.43.0


From 8e8ecaa4b8276f1a4dcc7893e5a9f754d42bc2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:19 +0000
Subject: [PATCH 61/91] fix: biltrans and lookup match upper case letters to
 lower case ones

---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index fe463ce..e076647 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1652,7 +1652,7 @@ FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UStr
   for (auto symbol : symbol_iter(word)) {
     int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
     if (current_state.isFinal(all_finals)) {
       current_state.filterFinalsArray(result,
@@ -2557,7 +2557,7 @@ FSTProcessor::lookup(UStringView word, std::vector<UString>& result)
   for (auto symbol : symbol_iter(word)) {
     int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
   }
   current_state.filterFinalsArray(result,
-- 
2.43.0


From 88e6b16263c43ce5007964a73b2f2570ce164abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:42 +0000
Subject: [PATCH 62/91] fix: biltrans and lookup of words with letters outside
 the BMP

---
 lttoolbox/fst_processor.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index e076647..ed6ff88 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1643,6 +1643,21 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
   }
 }
 
+static UChar32
+firstChar(UStringView symbol)
+{
+  UChar32 c;
+  U16_GET(symbol.data(), 0, 0, symbol.size(), c);
+  return c;
+}
+
+static int32_t
+symbolValue(UStringView symbol, Alphabet& alphabet)
+{
+  if (symbol.size() > 1 && symbol[0] == '<') return alphabet(symbol);
+  return firstChar(symbol);
+}
+
 bool
 FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UString& queue)
 {
@@ -1650,7 +1665,7 @@ FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UStr
   bool firstupper = u_isupper(word[0]);
   bool uppercase = firstupper && u_isupper(word[1]);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+    int32_t val = symbolValue(symbol, alphabet);
     if (current_state.size() != 0) {
       current_state.step_case(val, beCaseSensitive(current_state));
     }
@@ -1951,11 +1966,8 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
 
   UStringView word = input_word.substr(start_point, end_point-start_point+1);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val;
-    if (symbol.size() == 1) {
-      val = symbol[0];
-    } else {
-      val = alphabet(symbol);
+    int32_t val = symbolValue(symbol, alphabet);
+    if (symbol.size() > 1 && symbol[0] == '<') {
       seentags = true;
     }
     if(current_state.size() != 0)
@@ -2555,7 +2567,7 @@ FSTProcessor::lookup(UStringView word, std::vector<UString>& result)
   bool firstupper = u_isupper(word[0]);
   bool uppercase = firstupper && u_isupper(word[1]);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+    int32_t val = symbolValue(symbol, alphabet);
     if (current_state.size() != 0) {
       current_state.step_case(val, beCaseSensitive(current_state));
     }
-- 
2.43.0


From c5f453ee162c8f43f98754fc16dad43b4079747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:42 +0000
Subject: [PATCH 63/91] fix: the biltrans functions append everything after the
 longest match

---
 lttoolbox/fst_processor.cc | 39 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index ed6ff88..f1d1254 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1675,10 +1675,14 @@ FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UStr
                                       escaped_chars,
                                       displayWeightsMode, maxAnalyses, maxWeightClasses,
                                       uppercase, firstupper, 0);
+      queue.clear();
     }
-    if (current_state.size() == 0) {
-      if (!result.empty()) queue.append(symbol);
-      else return false;
+    else if (!result.empty()) {
+      if (symbol.size() == 1 && isEscaped(symbol[0])) queue += '\\';
+      queue.append(symbol);
+    }
+    else if (current_state.size() == 0) {
+      return false;
     }
   }
   return !result.empty();
@@ -1980,33 +1984,28 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
                                       escaped_chars,
                                       displayWeightsMode, maxAnalyses, maxWeightClasses,
                                       uppercase, firstupper, 0);
+      queue.clear();
     }
-
-    if(current_state.size() == 0)
+    else if(!result.empty())
+    {
+      if(symbol.size() == 1 && isEscaped(symbol[0])) queue += '\\';
+      queue.append(symbol);
+    }
+    else if(current_state.size() == 0)
     {
-      if(!symbol.empty() && !result.empty())
+      // word is not present
+      if(with_delim)
       {
-        queue.append(symbol);
+        return {"^@"_u + US(input_word.substr(1)), 0};
       }
       else
       {
-        // word is not present
-        if(with_delim)
-        {
-          return {"^@"_u + US(input_word.substr(1)), 0};
-        }
-        else
-        {
-          return {"@"_u + US(input_word), 0};
-        }
+        return {"@"_u + US(input_word), 0};
       }
     }
   }
 
-  if (!seentags
-      && current_state.filterFinals(all_finals, alphabet, escaped_chars,
-                                    displayWeightsMode, maxAnalyses, maxWeightClasses,
-                                    uppercase, firstupper, 0).empty())
+  if (result.empty() || (!seentags && !queue.empty()))
   {
     // word is not present
     if(with_delim)
-- 
2.43.0


From cd5ac348c81827d2463cc211f1cf133cdc3103fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:42 +0000
Subject: [PATCH 64/91] fix: biltrans and lookup take the case from the first
 two letters, and from the word alone

---
 lttoolbox/fst_processor.cc | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index f1d1254..67fa939 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1658,12 +1658,27 @@ symbolValue(UStringView symbol, Alphabet& alphabet)
   return firstChar(symbol);
 }
 
+static void
+caseOfWord(UStringView word, bool& firstupper, bool& uppercase)
+{
+  firstupper = uppercase = false;
+  bool first = true;
+  for (auto symbol : symbol_iter(word)) {
+    if (!first) {
+      uppercase = firstupper && u_isupper(firstChar(symbol));
+      break;
+    }
+    firstupper = u_isupper(firstChar(symbol));
+    first = false;
+  }
+}
+
 bool
 FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UString& queue)
 {
   State current_state = initial_state;
-  bool firstupper = u_isupper(word[0]);
-  bool uppercase = firstupper && u_isupper(word[1]);
+  bool firstupper, uppercase;
+  caseOfWord(word, firstupper, uppercase);
   for (auto symbol : symbol_iter(word)) {
     int32_t val = symbolValue(symbol, alphabet);
     if (current_state.size() != 0) {
@@ -1965,10 +1980,9 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  bool firstupper = u_isupper(input_word[start_point]);
-  bool uppercase = firstupper && u_isupper(input_word[start_point+1]);
-
   UStringView word = input_word.substr(start_point, end_point-start_point+1);
+  bool firstupper, uppercase;
+  caseOfWord(word, firstupper, uppercase);
   for (auto symbol : symbol_iter(word)) {
     int32_t val = symbolValue(symbol, alphabet);
     if (symbol.size() > 1 && symbol[0] == '<') {
@@ -2563,8 +2577,8 @@ bool
 FSTProcessor::lookup(UStringView word, std::vector<UString>& result)
 {
   State current_state = initial_state;
-  bool firstupper = u_isupper(word[0]);
-  bool uppercase = firstupper && u_isupper(word[1]);
+  bool firstupper, uppercase;
+  caseOfWord(word, firstupper, uppercase);
   for (auto symbol : symbol_iter(word)) {
     int32_t val = symbolValue(symbol, alphabet);
     if (current_state.size() != 0) {
-- 
2.43.0


From d07320e0d11aa9e77dc2d240e478a4ccb32e813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:13 +0000
Subject: [PATCH 65/91] fix: deserialise strings that are not ASCII

---
 lttoolbox/deserialiser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/deserialiser.h b/lttoolbox/deserialiser.h
index 9062930..0d0a899 100644
--- a/lttoolbox/deserialiser.h
+++ b/lttoolbox/deserialiser.h
@@ -85,7 +85,7 @@ public:
 
 template <> class Deserialiser<UChar> {
 public:
-  inline static char deserialise(std::istream &Stream_);
+  inline static UChar deserialise(std::istream &Stream_);
 };
 
 template<> class Deserialiser<double> {
@@ -174,7 +174,7 @@ char Deserialiser<char>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint8_t>(Stream_);
 }
 
-char Deserialiser<UChar>::deserialise(std::istream &Stream_) {
+UChar Deserialiser<UChar>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint16_t>(Stream_);
 }
 
-- 
2.43.0


From 9208fc7cc1ce1c0fd5cd47239f99cb8edd012c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:13 +0000
Subject: [PATCH 66/91] fix: deserialise all symbol pairs of an alphabet, and
 no more than there are

---
 lttoolbox/alphabet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index e72d636..eebfcc0 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -206,7 +206,7 @@ Alphabet::deserialise(std::istream &serialised)
     slexic[slexicinv[i]] = -i - 1; // ToDo: This does not turn the result negative due to unsigned semantics
   }
   spairinv = Deserialiser<std::vector<std::pair<int32_t, int32_t> > >::deserialise(serialised);
-  for (size_t i = 0; i < slexicinv.size(); i++) {
+  for (size_t i = 0; i < spairinv.size(); i++) {
     spair[spairinv[i]] = i;
   }
 }
-- 
2.43.0


From 2a40690c41708dd80bcd453e6be3fd60814f367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:25 +0000
Subject: [PATCH 67/91] fix: minimize a transducer none of whose final states
 can be reached

---
 lttoolbox/transducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 252580d..684479c 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -404,6 +404,11 @@ Transducer::minimize(int const epsilon_tag)
   if (finals.empty()) return;
   reverse(epsilon_tag);
   determinize(epsilon_tag);
+  if (finals.empty()) {
+    // no final state can be reached, so nothing is left
+    clear();
+    return;
+  }
   reverse(epsilon_tag);
   determinize(epsilon_tag);
 }
-- 
2.43.0


From d5f2a8309e52bcf328c55c35ddf2428e259d8da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:25 +0000
Subject: [PATCH 68/91] fix: a cycle through the initial state does not lead
 into a transducer united with it

---
 lttoolbox/transducer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 684479c..945335e 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -860,6 +860,10 @@ Transducer::unionWith(Alphabet &my_a,
                       Transducer &t,
                       int const epsilon_tag)
 {
+  // the initial state might be part of a cycle, which must not lead into t
+  int state = newState();
+  linkStates(state, initial, epsilon_tag, default_weight);
+  initial = state;
   finals.insert({insertTransducer(initial, t, epsilon_tag), default_weight});
 }
 
-- 
2.43.0


From e1ac5e172d7be2b769668f44ef183bb4335ce9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:22 +0000
Subject: [PATCH 69/91] fix: lt-expand accepts comments inside pairs, like
 lt-comp

---
 lttoolbox/expander.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index b34a0ce..7c3e949 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -181,9 +181,10 @@ Expander::skip(UString &name, UStringView elem)
   xmlTextReaderRead(reader);
   name = XMLParseUtil::readName(reader);
 
-  if(name == Compiler::COMPILER_TEXT_NODE)
+  while(name == Compiler::COMPILER_TEXT_NODE ||
+        name == Compiler::COMPILER_COMMENT_NODE)
   {
-    if(!allBlanks())
+    if(name == Compiler::COMPILER_TEXT_NODE && !allBlanks())
     {
       std::cerr << "Error (" << xmlTextReaderGetParserLineNumber(reader);
       std::cerr << "): Invalid construction." << std::endl;
-- 
2.43.0


From 54e695a92042198d096cac87d5883520696c966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:46 +0000
Subject: [PATCH 70/91] fix: a part of a compound whose tag is written early is
 still matched further

---
 lttoolbox/fst_processor.cc | 34 ++++++++++++++++++----------------
 lttoolbox/state.cc         |  6 +++++-
 lttoolbox/state.h          |  2 +-
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 67fa939..9d42b73 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -839,6 +839,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
   bool last_postblank = false;
   bool last_preblank = false;
   State current_state = initial_state;
+  State words_state;     // what of current_state may stand alone, in decomposition
   UString lf;            // analysis (lexical form and tags)
   UString sf;            // surface form
   UString lf_spcmp;      // space compound analysis
@@ -852,48 +853,49 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
   do
   {
     val = readAnalysis(input);
-    if(do_decomposition && compoundOnlyLSymbol != 0 &&
-       current_state.isFinal(all_finals))
+    const bool only_words = do_decomposition && compoundOnlyLSymbol != 0 &&
+      current_state.isFinal(all_finals);
+    if(only_words)
     {
       if(isAlphabetic(val) && !current_state.isFinal(inconditional) &&
          !current_state.isFinal(postblank) && !current_state.isFinal(preblank))
       {
         // Record if a compound might be possible
-        if(current_state.hasSymbol(compoundOnlyLSymbol))
+        if(current_state.hasSymbol(compoundOnlyLSymbol, &all_finals))
         {
           seen_cpL = true;
         }
       }
-      else
-      {
-        // what can only begin a compound is no analysis
-        current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
-      }
+      // what can only begin a compound is no analysis, but what has
+      // that tag so far may still become a longer part
+      words_state = current_state;
+      words_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
     }
+    State const &final_state = only_words ? words_state : current_state;
     // test for final states
-    if(current_state.isFinal(all_finals))
+    if(final_state.isFinal(all_finals))
     {
-      if(current_state.isFinal(inconditional))
+      if(final_state.isFinal(inconditional))
       {
-        lf = filterFinals(current_state, sf);
+        lf = filterFinals(final_state, sf);
         last_incond = true;
         last_postblank = false;
         last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
-      else if(current_state.isFinal(postblank))
+      else if(final_state.isFinal(postblank))
       {
-        lf = filterFinals(current_state, sf);
+        lf = filterFinals(final_state, sf);
         last_postblank = true;
         last_incond = false;
         last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
-      else if(current_state.isFinal(preblank))
+      else if(final_state.isFinal(preblank))
       {
-        lf = filterFinals(current_state, sf);
+        lf = filterFinals(final_state, sf);
         last_preblank = true;
         last_incond = false;
         last_postblank = false;
@@ -902,7 +904,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       }
       else if(!isAlphabetic(val))
       {
-        lf = filterFinals(current_state, sf);
+        lf = filterFinals(final_state, sf);
         last_postblank = false;
         last_preblank = false;
         last_incond = false;
diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 0dd0075..dc84d1e 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -867,10 +867,14 @@ State::pruneStatesWithForbiddenSymbol(int forbiddenSymbol)
 
 
 bool
-State::hasSymbol(int requiredSymbol)
+State::hasSymbol(int requiredSymbol, const std::map<Node *, double> *finals)
 {
   for(size_t i = 0; i<state.size(); i++)
   {
+    if(finals != nullptr && finals->count(state.at(i).where) == 0)
+    {
+      continue;
+    }
     // loop through sequence – we can't just check that the last tag is cp-L, there may be other tags after it:
     std::vector<std::pair<int, double>>* seq = state.at(i).sequence;
     if(seq != NULL) for (unsigned int j=0; j<seq->size(); j++)
diff --git a/lttoolbox/state.h b/lttoolbox/state.h
index 2ff872a..3affb6c 100644
--- a/lttoolbox/state.h
+++ b/lttoolbox/state.h
@@ -244,7 +244,7 @@ public:
     * Whether any of the analyses contains a certain symbol
     * @param requiredSymbol the symbol we're looking for
     */
-  bool hasSymbol(int requiredSymbol);
+  bool hasSymbol(int requiredSymbol, const std::map<Node *, double> *finals = nullptr);
 
   /**
    * Returns the lexical form in a sorted by weights manner
-- 
2.43.0


From 54e3163e5578d574167e8747abd9f7391d48633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:21 +0000
Subject: [PATCH 71/91] fix: a MatchState can be copy-constructed

---
 lttoolbox/match_state.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index 097af0d..ebd1389 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -35,6 +35,7 @@ MatchState::~MatchState()
 
 MatchState::MatchState(MatchState const &s)
 {
+  state = 0;
   copy(s);
 }
 
-- 
2.43.0


From 67565c0cb3a3ba4b71a0e81746ee4e0331052895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:21 +0000
Subject: [PATCH 72/91] fix: lemmas with letters outside the BMP in pattern
 lists

---
 lttoolbox/pattern_list.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/pattern_list.cc b/lttoolbox/pattern_list.cc
index b476de3..939a93e 100644
--- a/lttoolbox/pattern_list.cc
+++ b/lttoolbox/pattern_list.cc
@@ -112,15 +112,17 @@ PatternList::insertOutOfSequence(UStringView lemma, UStringView tags,
   }
   else
   {
-    for(unsigned int i = 0, limit = lemma.size(); i < limit; i++)
+    for(unsigned int i = 0, limit = lemma.size(); i < limit; )
     {
-      if(lemma[i] == '*')
+      UChar32 c;
+      U16_NEXT(lemma.data(), i, limit, c);
+      if(c == '*')
       {
         result.push_back(alphabet(ANY_CHAR));
       }
       else
       {
-        result.push_back(static_cast<int32_t>(lemma[i]));
+        result.push_back(static_cast<int32_t>(c));
       }
     }
   }
-- 
2.43.0


From 0c06ca85944d2b49184e27c887ec829867304b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:16 +0000
Subject: [PATCH 73/91] fix: lt-trim always looks for an invariable part after
 a + in the part before the +

---
 lttoolbox/transducer.cc | 43 ++++++++++++++---------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 945335e..0d30691 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1070,9 +1070,10 @@ Transducer::trim(Transducer &trimmer,
 
   // When searching, we need to record (this, (trimmer, trimmer_pre_plus))
   typedef std::pair<int, std::pair<int, int > > SearchState;
+  int const NO_PLUS = -1;
   // first: currently searched state in this;
   // second.first: currently matched trimmer state;
-  // second.second: last matched trimmer state before a + restart (or the same second.first if no + is seen yet).
+  // second.second: last matched trimmer state before a + restart (or NO_PLUS if no + is seen yet).
   // When several trimmer-states match from one this-state, we just get several triplets.
 
   // State numbers will differ in thisXtrimmer transducers and the trimmed:
@@ -1082,7 +1083,7 @@ Transducer::trim(Transducer &trimmer,
   std::vector<SearchState> todo;
   std::set<SearchState> seen;
   SearchState current;
-  SearchState next{initial, {trimmer.initial, trimmer.initial}};
+  SearchState next{initial, {trimmer.initial, NO_PLUS}};
   todo.push_back(next);
   states_this_trimmed.insert({next, trimmed.initial});
 
@@ -1110,8 +1111,7 @@ Transducer::trim(Transducer &trimmer,
     seen.insert(current);
     int this_src        = current.first,
         trimmer_src     = current.second.first,
-        trimmer_preplus = current.second.second,
-        trimmer_preplus_next = trimmer_preplus;
+        trimmer_preplus = current.second.second;
 
     if(states_this_trimmed.find(current) == states_this_trimmed.end()) {
       std::cerr <<"Error: couldn't find "<<this_src<<","<<trimmer_src<<" in state map"<< std::endl;
@@ -1125,14 +1125,9 @@ Transducer::trim(Transducer &trimmer,
           trimmer_trg   = trimmer_trans_it.second.first;
       int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
-      if(trimmer_preplus == trimmer_src) {
-        // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-        trimmer_preplus_next = trimmer_trg;
-      }
-
       if(trimmer_left == 0)
       {
-        next = std::make_pair(this_src, std::make_pair(trimmer_trg, trimmer_preplus_next));
+        next = std::make_pair(this_src, std::make_pair(trimmer_trg, trimmer_preplus));
         if(seen.find(next) == seen.end())
         {
           todo.push_back(next);
@@ -1159,10 +1154,8 @@ Transducer::trim(Transducer &trimmer,
 
       if (sym_wb.count(this_right)) {
         special = (this_right != static_cast<int32_t>('+'));
-        if(trimmer_preplus == trimmer_src) {
-          // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-          trimmer_preplus_next = trimmer_src; // not _trg when join!
-        }
+        // Keep the old preplus state if it was set:
+        int trimmer_preplus_next = (trimmer_preplus == NO_PLUS ? trimmer_src : trimmer_preplus);
         // Go to the start in trimmer, but record where we restarted from in case we later see a #:
         next = std::make_pair(this_trg, std::make_pair(trimmer.initial, trimmer_preplus_next));
         if(seen.find(next) == seen.end())
@@ -1187,12 +1180,7 @@ Transducer::trim(Transducer &trimmer,
         // Stay put in the trimmer FST
         int trimmer_trg = trimmer_src;
 
-        if(trimmer_preplus == trimmer_src) {
-          // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-          trimmer_preplus_next = trimmer_trg;
-        }
-
-        next = std::make_pair(this_trg, std::make_pair(trimmer_trg, trimmer_preplus_next));
+        next = std::make_pair(this_trg, std::make_pair(trimmer_trg, trimmer_preplus));
         if(seen.find(next) == seen.end())
         {
           todo.push_back(next);
@@ -1213,24 +1201,21 @@ Transducer::trim(Transducer &trimmer,
         // Loop through non-epsilon arcs from the live state of trimmer
 
         // If we see a hash/group, we may have to rewind our trimmer state first:
+        int trimmer_from = trimmer_src;
+        int trimmer_preplus_next = trimmer_preplus;
         if(this_right == static_cast<int32_t>('#') &&
-           trimmer_preplus != trimmer_src)
+           trimmer_preplus != NO_PLUS)
         {
-          states_this_trimmed.insert({std::make_pair(this_src, std::make_pair(trimmer_preplus, trimmer_preplus)), trimmed_src});
-          trimmer_src = trimmer_preplus;
+          trimmer_from = trimmer_preplus;
+          trimmer_preplus_next = NO_PLUS;
         }
 
-        for(auto& trimmer_trans_it : trimmer.transitions.at(trimmer_src))
+        for(auto& trimmer_trans_it : trimmer.transitions.at(trimmer_from))
         {
           int trimmer_label = trimmer_trans_it.first,
               trimmer_trg   = trimmer_trans_it.second.first;
           int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
-          if(trimmer_preplus == trimmer_src) {
-            // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-            trimmer_preplus_next = trimmer_trg;
-          }
-
           if (trimmer_left != 0 && // we've already dealt with trimmer epsilons
               this_a.sameSymbol(this_right, trimmer_a, trimmer_left, true)) {
             next = std::make_pair(this_trg, std::make_pair(trimmer_trg, trimmer_preplus_next));
-- 
2.43.0


From 27027fcc5a2f0437e429f6af6eaaa08ed20cdfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:48 +0000
Subject: [PATCH 74/91] fix: StringUtils::trim does not read past the end of a
 string of spaces

---
 lttoolbox/string_utils.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index 57ae9d8..04c2812 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -16,15 +16,18 @@ StringUtils::trim(UStringView str)
   size_t end = str.size();
   size_t i = 0;
   UChar32 c;
-  while (begin < end) {
+  while (i < end) {
     U16_GET(str.data(), begin, i, end, c);
     if (!u_isspace(c)) {
-      begin = i;
       break;
     } else {
       U16_FWD_1(str.data(), i, end);
     }
   }
+  begin = i;
+  if (begin == end) {
+    return str.substr(end); // nothing but spaces
+  }
   i = str.size();
   U16_BACK_1(str.data(), 0, i);
   U16_GET(str.data(), 0, i, end, c);
-- 
2.43.0


From b4ac5a59338b424ec028e463a97dc5feae6578fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:48 +0000
Subject: [PATCH 75/91] fix: upper case can be up to three times as long

---
 lttoolbox/string_utils.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index 04c2812..7a99619 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -190,9 +190,9 @@ StringUtils::tolower(UStringView str)
 UString
 StringUtils::toupper(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  UString buf(str.size()*3, 0);
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToUpper(&buf[0], str.size()*2, str.data(), str.size(), NULL, &err));
+  buf.resize(u_strToUpper(&buf[0], str.size()*3, str.data(), str.size(), NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to uppercase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
@@ -204,9 +204,9 @@ StringUtils::toupper(UStringView str)
 UString
 StringUtils::totitle(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  UString buf(str.size()*3, 0);
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToTitle(&buf[0], str.size()*2, str.data(), str.size(), NULL, NULL, &err));
+  buf.resize(u_strToTitle(&buf[0], str.size()*3, str.data(), str.size(), NULL, NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to titlecase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
-- 
2.43.0


From fee0197054095c968c4965491f15cb477aae4faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:06 +0000
Subject: [PATCH 76/91] fix: lt-comp refuses a dictionary that ends too early

---
 lttoolbox/compiler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 96e6dbf..d06c348 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -66,6 +66,7 @@ Compiler::parse(std::string const &file, UStringView dir)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
-- 
2.43.0


From e2b874b87894a970986e31c26694b392bdbaf0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:06 +0000
Subject: [PATCH 77/91] fix: lt-tmxcomp refuses a file that ends too early

---
 lttoolbox/tmx_compiler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/tmx_compiler.cc b/lttoolbox/tmx_compiler.cc
index 8ea56cc..cdf465f 100644
--- a/lttoolbox/tmx_compiler.cc
+++ b/lttoolbox/tmx_compiler.cc
@@ -62,6 +62,7 @@ TMXCompiler::parse(std::string const &file, UStringView lo, UStringView lm)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
-- 
2.43.0


From 0bfd1dbe80fa1069276940ba19eb8cd6ab86e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:06 +0000
Subject: [PATCH 78/91] fix: lt-expand refuses a dictionary that ends too early

---
 lttoolbox/expander.cc | 34 ++++++++++++++++++++--------------
 lttoolbox/expander.h  |  6 ++++++
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 7c3e949..edfac06 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -48,6 +48,7 @@ Expander::expand(std::string const &file, UFILE* output)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
@@ -170,16 +171,26 @@ Expander::skipBlanks(UString &name)
       std::cerr << "): Invalid construction." << std::endl;
       exit(EXIT_FAILURE);
     }
-    xmlTextReaderRead(reader);
-    name = XMLParseUtil::readName(reader);
+    step(name);
   }
 }
 
 void
-Expander::skip(UString &name, UStringView elem)
+Expander::step(UString &name)
 {
-  xmlTextReaderRead(reader);
+  if(xmlTextReaderRead(reader) != 1)
+  {
+    std::cerr << "Error (" << xmlTextReaderGetParserLineNumber(reader);
+    std::cerr << "): Parse error." << std::endl;
+    exit(EXIT_FAILURE);
+  }
   name = XMLParseUtil::readName(reader);
+}
+
+void
+Expander::skip(UString &name, UStringView elem)
+{
+  step(name);
 
   while(name == Compiler::COMPILER_TEXT_NODE ||
         name == Compiler::COMPILER_COMMENT_NODE)
@@ -190,8 +201,7 @@ Expander::skip(UString &name, UStringView elem)
       std::cerr << "): Invalid construction." << std::endl;
       exit(EXIT_FAILURE);
     }
-    xmlTextReaderRead(reader);
-    name = XMLParseUtil::readName(reader);
+    step(name);
   }
 
   if(name != elem)
@@ -213,8 +223,7 @@ Expander::procIdentity()
 
     while(true)
     {
-      xmlTextReaderRead(reader);
-      name = XMLParseUtil::readName(reader);
+      step(name);
       if(name == Compiler::COMPILER_IDENTITY_ELEM)
       {
         break;
@@ -238,8 +247,7 @@ Expander::procIdentityGroup()
 
     while(true)
     {
-      xmlTextReaderRead(reader);
-      name = XMLParseUtil::readName(reader);
+      step(name);
       if(name == Compiler::COMPILER_IDENTITYGROUP_ELEM)
       {
         break;
@@ -267,8 +275,7 @@ Expander::procTransduction()
     name.clear();
     while(true)
     {
-      xmlTextReaderRead(reader);
-      name = XMLParseUtil::readName(reader);
+      step(name);
       if(name == Compiler::COMPILER_LEFT_ELEM)
       {
         break;
@@ -284,8 +291,7 @@ Expander::procTransduction()
     name.clear();
     while(true)
     {
-      xmlTextReaderRead(reader);
-      name = XMLParseUtil::readName(reader);
+      step(name);
       if(name == Compiler::COMPILER_RIGHT_ELEM)
       {
         break;
diff --git a/lttoolbox/expander.h b/lttoolbox/expander.h
index 1af0685..1544c90 100644
--- a/lttoolbox/expander.h
+++ b/lttoolbox/expander.h
@@ -134,6 +134,12 @@ private:
    */
   UString procPar();
 
+  /**
+   * Reads the next node
+   * @param name gets the name of the node
+   */
+  void step(UString &name);
+
   /**
    * Skip all document #text nodes before "elem"
    * @param name the name of the node
-- 
2.43.0


From 9335b035c351bb2cc88f19d03ea5a4bac23126b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:06 +0000
Subject: [PATCH 79/91] fix: compiled files that end too early are refused

---
 lttoolbox/compression.cc | 10 ++++++++++
 lttoolbox/compression.h  |  7 +++++++
 lttoolbox/file_utils.cc  | 11 +++++++++--
 lttoolbox/trans_exe.cc   |  3 +++
 4 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/compression.cc b/lttoolbox/compression.cc
index 79970e6..7e0bab4 100644
--- a/lttoolbox/compression.cc
+++ b/lttoolbox/compression.cc
@@ -47,6 +47,16 @@ Compression::readByte(FILE *input)
   return value;
 }
 
+void
+Compression::require_complete(FILE *input)
+{
+  if(feof(input))
+  {
+    std::cerr << "Error: Unexpected end of file, the transducer is incomplete." << std::endl;
+    exit(EXIT_FAILURE);
+  }
+}
+
 void
 Compression::multibyte_write(unsigned int value, FILE *output)
 {
diff --git a/lttoolbox/compression.h b/lttoolbox/compression.h
index a7aac62..5c8fc9a 100644
--- a/lttoolbox/compression.h
+++ b/lttoolbox/compression.h
@@ -148,6 +148,13 @@ public:
    */
   static unsigned int multibyte_read(FILE *input);
 
+  /**
+   * Ends the program if a read went past the end of the input stream,
+   * where the functions that read find zeros.
+   * @param input input stream.
+   */
+  static void require_complete(FILE *input);
+
   /**
    * Read and decode an integer from the input stream.
    * @see multibyte_read()
diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 327ce9d..537358a 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -120,6 +120,7 @@ readShared(FILE* input, std::set<UChar32>& letters, Alphabet& alpha)
   }
 
   alpha.read(input);
+  Compression::require_complete(input);
 }
 
 void
@@ -129,9 +130,12 @@ readTransducerSet(FILE* input, std::set<UChar32>& letters,
 {
   readShared(input, letters, alpha);
 
-  for (int len = Compression::multibyte_read(input); len > 0; len--) {
+  int len = Compression::multibyte_read(input);
+  Compression::require_complete(input);
+  for (; len > 0; len--) {
     UString name = Compression::string_read(input);
     trans[name].read(input);
+    Compression::require_complete(input);
   }
 }
 
@@ -142,8 +146,11 @@ readTransducerSet(FILE* input, std::set<UChar32>& letters,
 {
   readShared(input, letters, alpha);
 
-  for (int len = Compression::multibyte_read(input); len > 0; len--) {
+  int len = Compression::multibyte_read(input);
+  Compression::require_complete(input);
+  for (; len > 0; len--) {
     UString name = Compression::string_read(input);
     trans[name].read(input, alpha);
+    Compression::require_complete(input);
   }
 }
diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index b733885..249334c 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -110,6 +110,8 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
 
   base = Compression::multibyte_read(input);
 
+  Compression::require_complete(input);
+
   int number_of_states = base;
   int current_state = 0;
   new_t.node_list.resize(number_of_states);
@@ -135,6 +137,7 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
       {
         base_weight = Compression::long_multibyte_read(input);
       }
+      Compression::require_complete(input);
       int i_symbol = alphabet.decode(tagbase).first;
       int o_symbol = alphabet.decode(tagbase).second;
 
-- 
2.43.0


From a0094c0c069eed04f12fbb4cf9b2b5dab2f38e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:06 +0000
Subject: [PATCH 80/91] fix: lt-proc refuses lists of characters that end too
 early

---
 lttoolbox/fst_processor.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 9d42b73..c34d854 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -81,6 +81,11 @@ FSTProcessor::parseICX(std::string const &file)
       procNodeICX();
       ret = xmlTextReaderRead(reader);
     }
+    if(ret != 0)
+    {
+      std::cerr << "Error: Parse error at the end of input." << std::endl;
+      exit(EXIT_FAILURE);
+    }
   }
 }
 
@@ -101,6 +106,11 @@ FSTProcessor::parseRCX(std::string const &file)
       procNodeRCX();
       ret = xmlTextReaderRead(reader);
     }
+    if(ret != 0)
+    {
+      std::cerr << "Error: Parse error at the end of input." << std::endl;
+      exit(EXIT_FAILURE);
+    }
   }
 }
 
-- 
2.43.0


From 9fae290331e15dd71b1c6ab8f039ff489d233dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:01 +0000
Subject: [PATCH 81/91] fix: a closing parenthesis without an opening one does
 not end a regular expression

---
 lttoolbox/regexp_compiler.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index b9f8ab0..6c265b2 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -127,6 +127,10 @@ RegexpCompiler::compile(std::vector<int32_t> const &er)
   index = 0;
   state = transducer.getInitial();
   S();
+  if(token != FIN_FICHERO)
+  {
+    error();
+  }
   transducer.setFinal(state, default_weight);
 }
 
-- 
2.43.0


From 0e64bc9c415b21509b1cae1fe0e2aa166ec52198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:43 +0000
Subject: [PATCH 82/91] fix: a compiled file that cannot be written completely
 is an error

---
 lttoolbox/file_utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 537358a..fd5965e 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -83,6 +83,10 @@ writeTransducerSet(FILE* output, UStringView letters,
     std::cout << it.first << " " << it.second.size();
     std::cout << " " << it.second.numberOfTransitions() << std::endl;
   }
+  if (fflush(output) != 0) {
+    std::cerr << "Error: Cannot write the output file." << std::endl;
+    exit(EXIT_FAILURE);
+  }
 }
 
 void
-- 
2.43.0


From 2312b2890973b11914141ba3c8ab863dedca2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:54 +0000
Subject: [PATCH 83/91] fix: the tools that write text fail when it cannot be
 written

---
 lttoolbox/file_utils.cc  | 12 ++++++++++++
 lttoolbox/file_utils.h   |  1 +
 lttoolbox/lt_expand.cc   |  2 +-
 lttoolbox/lt_merge.cc    |  2 +-
 lttoolbox/lt_paradigm.cc |  2 +-
 lttoolbox/lt_print.cc    |  2 +-
 lttoolbox/lt_proc.cc     |  2 +-
 7 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index fd5965e..eb5083a 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -35,6 +35,18 @@ openOutTextFile(const std::string& fname)
   }
 }
 
+void
+closeOutTextFile(UFILE* output)
+{
+  u_fflush(output);
+  FILE* file = u_fgetfile(output);
+  if (fflush(file) != 0 || ferror(file)) {
+    std::cerr << "Error: Cannot write the output." << std::endl;
+    exit(EXIT_FAILURE);
+  }
+  u_fclose(output);
+}
+
 FILE*
 openOutBinFile(const std::string& fname)
 {
diff --git a/lttoolbox/file_utils.h b/lttoolbox/file_utils.h
index 669e364..7d72d7a 100644
--- a/lttoolbox/file_utils.h
+++ b/lttoolbox/file_utils.h
@@ -24,6 +24,7 @@
 #include <cstdio>
 
 UFILE* openOutTextFile(const std::string& fname);
+void closeOutTextFile(UFILE* output);
 FILE* openOutBinFile(const std::string& fname);
 FILE* openInBinFile(const std::string& fname);
 
diff --git a/lttoolbox/lt_expand.cc b/lttoolbox/lt_expand.cc
index c472b77..593dc50 100644
--- a/lttoolbox/lt_expand.cc
+++ b/lttoolbox/lt_expand.cc
@@ -52,7 +52,7 @@ int main(int argc, char *argv[])
   UFILE* output = openOutTextFile(cli.get_files()[1]);
 
   e.expand(cli.get_files()[0], output);
-  u_fclose(output);
+  closeOutTextFile(output);
 
   return EXIT_SUCCESS;
 }
diff --git a/lttoolbox/lt_merge.cc b/lttoolbox/lt_merge.cc
index f354891..521e274 100644
--- a/lttoolbox/lt_merge.cc
+++ b/lttoolbox/lt_merge.cc
@@ -50,6 +50,6 @@ int main(int argc, char *argv[])
     fstp.quoteMerge(input, output);
   }
 
-  u_fclose(output);
+  closeOutTextFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index f61f77c..0cacbfc 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -223,6 +223,6 @@ int main(int argc, char* argv[])
     }
   } while (!input.eof());
 
-  u_fclose(output);
+  closeOutTextFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index 78f8a8a..28cdcd7 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -69,7 +69,7 @@ int main(int argc, char *argv[])
   }
 
   fclose(input);
-  u_fclose(output);
+  closeOutTextFile(output);
 
   return 0;
 }
diff --git a/lttoolbox/lt_proc.cc b/lttoolbox/lt_proc.cc
index 38596a9..dcc12a5 100644
--- a/lttoolbox/lt_proc.cc
+++ b/lttoolbox/lt_proc.cc
@@ -242,6 +242,6 @@ int main(int argc, char *argv[])
     exit(1);
   }
 
-  u_fclose(output);
+  closeOutTextFile(output);
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From ba6828197a9d064f7f83559cae8047e77b1a85d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:03 +0000
Subject: [PATCH 84/91] fix: lt-comp gives every separable path an end of its
 own

The <$> that ends the entries of a separable dictionary was a transition shared by all the paths that reach the same state, so a path that already ended in <$> made others final and weights were lost.
---
 lttoolbox/compiler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index d06c348..f6f7197 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -100,7 +100,8 @@ Compiler::parse(std::string const &file, UStringView dir)
     int32_t end = alphabet(word_boundary, word_boundary);
     for (auto& it : sections) {
       for (auto fin : it.second.getFinals()) {
-        int end_state = it.second.insertSingleTransduction(end, fin.first);
+        // other paths may share an existing transition with <$>
+        int end_state = it.second.insertNewSingleTransduction(end, fin.first, fin.second);
         it.second.setFinal(end_state);
       }
     }
-- 
2.43.0


From 02990c18caf92d3abe5ba78997918a7114505e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:03 +0000
Subject: [PATCH 85/91] fix: lt-trim keeps separable entries that end in <d/>

After a word boundary another word may start in the bidix, but nothing has to follow.
---
 lttoolbox/transducer.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 0d30691..f1ffeac 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1105,6 +1105,15 @@ Transducer::trim(Transducer &trimmer,
     sym_cmp_or_eps.insert(0); // epsilon
   }
 
+  // Where we are in trimmer after a word boundary: another word may
+  // start here, but nothing has to follow
+  int trimmer_boundary = trimmer.initial;
+  if (!sym_lsx.empty()) {
+    trimmer_boundary = trimmer.newState();
+    trimmer.linkStates(trimmer_boundary, trimmer.initial, epsilon_tag, default_weight);
+    trimmer.setFinal(trimmer_boundary, default_weight);
+  }
+
   while(!todo.empty()) {
     current = todo.back();
     todo.pop_back();
@@ -1157,7 +1166,7 @@ Transducer::trim(Transducer &trimmer,
         // Keep the old preplus state if it was set:
         int trimmer_preplus_next = (trimmer_preplus == NO_PLUS ? trimmer_src : trimmer_preplus);
         // Go to the start in trimmer, but record where we restarted from in case we later see a #:
-        next = std::make_pair(this_trg, std::make_pair(trimmer.initial, trimmer_preplus_next));
+        next = std::make_pair(this_trg, std::make_pair(special ? trimmer_boundary : trimmer.initial, trimmer_preplus_next));
         if(seen.find(next) == seen.end())
         {
           todo.push_back(next);
@@ -1171,9 +1180,6 @@ Transducer::trim(Transducer &trimmer,
                            trimmed_trg, // toState
                            this_label, // symbol-pair, using this alphabet
                            this_wt); //weight of transduction
-        if (sym_lsx.count(this_right) && isFinal(this_trg)) {
-          trimmed.setFinal(trimmed_trg, default_weight);
-        }
       }
       else if (sym_cmp_or_eps.count(this_right)) {
         special = true;
-- 
2.43.0


From e7aac0a7702f77f9048cad65d1276d7f47c0f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:03 +0000
Subject: [PATCH 86/91] fix: lt-trim does not take <w/> for a tag

<ANY_CHAR> is written like a tag, so any text was accepted after a word the bidix knows.
---
 lttoolbox/alphabet.cc | 11 +++++++----
 lttoolbox/lt_trim.cc  |  5 +++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index eebfcc0..5d5f316 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -333,11 +333,14 @@ Alphabet::sameSymbol(int32_t tsym, const Alphabet& other, int32_t osym,
       this->slexicinv[-tsym-1] == other.slexicinv[-osym-1]) {
     return true;
   }
+  bool t_any_char = (tsym < 0 && this->slexicinv[-tsym-1] == u"<ANY_CHAR>"_uv);
+  bool o_any_char = (osym < 0 && other.slexicinv[-osym-1] == u"<ANY_CHAR>"_uv);
+  // <ANY_CHAR> is written like a tag, but it's not one that <ANY_TAG> covers
   if (allow_anys &&
-      ((tsym < 0 && this->slexicinv[-tsym-1] == u"<ANY_CHAR>"_uv && osym > 0) ||
-       (tsym < 0 && this->slexicinv[-tsym-1] == u"<ANY_TAG>"_uv && osym < 0) ||
-       (osym < 0 && other.slexicinv[-osym-1] == u"<ANY_CHAR>"_uv && tsym > 0) ||
-       (osym < 0 && other.slexicinv[-osym-1] == u"<ANY_TAG>"_uv && tsym < 0))) {
+      ((t_any_char && osym > 0) ||
+       (tsym < 0 && this->slexicinv[-tsym-1] == u"<ANY_TAG>"_uv && osym < 0 && !o_any_char) ||
+       (o_any_char && tsym > 0) ||
+       (osym < 0 && other.slexicinv[-osym-1] == u"<ANY_TAG>"_uv && tsym < 0 && !t_any_char))) {
     return true;
   }
   return false;
diff --git a/lttoolbox/lt_trim.cc b/lttoolbox/lt_trim.cc
index 2a18584..10a4d06 100644
--- a/lttoolbox/lt_trim.cc
+++ b/lttoolbox/lt_trim.cc
@@ -40,6 +40,11 @@ trim(FILE* file_mono, FILE* file_bi, FILE* file_out, std::set<UString> match_sec
   Alphabet alph_prefix = alph_bi;
   std::set<int> loopback_symbols;    // ints refer to alph_prefix
   alph_prefix.createLoopbackSymbols(loopback_symbols, alph_mono, Alphabet::right);
+  // <ANY_CHAR> stands for text, not for a tag, and only tags may follow
+  if (alph_prefix.isSymbolDefined(Transducer::ANY_CHAR_SYMBOL)) {
+    int any_char = alph_prefix(Transducer::ANY_CHAR_SYMBOL);
+    loopback_symbols.erase(alph_prefix(any_char, any_char));
+  }
 
   UString union_name = u""; // Not a valid section name, used as key for those where we don't care about names matching
   std::map<UString, Transducer> moved_bi_transducers;
-- 
2.43.0


From b459f10768822d56598ac9d601fdef73554cf463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:03 +0000
Subject: [PATCH 87/91] fix: lt-trim accepts any tags between a lemma and its
 invariable part

With a bidix entry that has an invariable part and no tags, exactly one tag was accepted, since the loop over further tags was taken for the first tag.
---
 lttoolbox/transducer.cc | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index f1ffeac..1aeefed 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -903,18 +903,26 @@ Transducer::copyWithTagsFirst(int start,
   // them, so that each lemq is only put after its own tags
   std::map<SearchState, int> states_this_new;
   // Each searchstate in the stack is a transition in this FST, along
-  // with the last reached state of the lemq
+  // with the last state of the lemq (or IN_LEMQ if we're not past it)
+  int const IN_LEMQ = -1;
   std::vector<SearchState> todo;
   std::set<SearchState> seen;
   std::set<SearchState> finally;
   SearchState current;
-  todo.push_back({start,start});
+  todo.push_back({start, IN_LEMQ});
 
   while(!todo.empty()) {
     current = todo.back();
     todo.pop_back();
     seen.insert(current);
-    int this_src = current.first, this_lemqlast = current.second;
+    int this_src = current.first;
+    bool in_lemq = (current.second == IN_LEMQ);
+    int this_lemqlast = in_lemq ? this_src : current.second;
+
+    if(isFinal(this_src))
+    {
+      finally.insert(current);
+    }
 
     for(auto& trans_it : transitions[this_src])
     {
@@ -923,14 +931,11 @@ Transducer::copyWithTagsFirst(int start,
       int left_symbol = alphabet.decode(label).first;
 
       // Anything after the first tag goes before the lemq, whether
-      // epsilon or alphabetic (might be a hack to force trimming). If
-      // the lemqlast state is already set to something other than
-      // this_src, then we've seen the first tag (and are done reading
-      // lemq).
-      if(alphabet.isTag(left_symbol) || (this_src != this_lemqlast))
+      // epsilon or alphabetic (might be a hack to force trimming).
+      if(alphabet.isTag(left_symbol) || !in_lemq)
       {
         int new_src;
-        if(this_src == this_lemqlast)
+        if(in_lemq)
         {
           // We've reached the first tag
           new_src = new_t.initial;
@@ -953,11 +958,6 @@ Transducer::copyWithTagsFirst(int start,
         int new_trg = states_this_new[next];
         new_t.linkStates(new_src, new_trg, label, this_wt);
 
-        if(isFinal(this_src))
-        {
-          finally.insert({this_src, this_lemqlast});
-        }
-
         if(seen.find(next) == seen.end())
         {
           todo.push_back(next);
@@ -973,9 +973,9 @@ Transducer::copyWithTagsFirst(int start,
         }
         int lemq_trg = states_this_lemq[this_trg];
         lemq.linkStates(lemq_src, lemq_trg, label, this_wt);
-        if(seen.find({this_trg, this_trg}) == seen.end())
+        if(seen.find({this_trg, IN_LEMQ}) == seen.end())
         {
-          todo.push_back({this_trg, this_trg});
+          todo.push_back({this_trg, IN_LEMQ});
         }
       }
     } // end for transitions
@@ -983,7 +983,8 @@ Transducer::copyWithTagsFirst(int start,
 
   for(auto& it : finally)
   {
-    int this_lemqlast = it.second;
+    bool in_lemq = (it.second == IN_LEMQ);
+    int this_lemqlast = in_lemq ? it.first : it.second;
     // copy lemq, letting this_lemqlast be the only final state in newlemq
     Transducer newlemq = Transducer(lemq);
     newlemq.finals.clear();
@@ -991,7 +992,7 @@ Transducer::copyWithTagsFirst(int start,
     newlemq.minimize();
 
     int group_start = new_t.newState();
-    new_t.linkStates(states_this_new[it], group_start, group_label, default_weight);
+    new_t.linkStates(in_lemq ? new_t.initial : states_this_new[it], group_start, group_label, default_weight);
 
     // append newlemq into the group after last_tag:
     new_t.finals.insert({new_t.insertTransducer(group_start, newlemq), default_weight});
-- 
2.43.0


From da0dd7524546184d401261cb92f1926055905cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:24 +0000
Subject: [PATCH 88/91] fix: lt-compose keeps tags that only the second
 dictionary has

A tag that the first dictionary's alphabet does not have became an epsilon in the composition.
---
 lttoolbox/transducer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/transducer.h b/lttoolbox/transducer.h
index 2857bea..c1ac42d 100644
--- a/lttoolbox/transducer.h
+++ b/lttoolbox/transducer.h
@@ -464,6 +464,7 @@ public:
     else {
       UString g_rightstr;
       g_a.getSymbol(g_rightstr, g_right);
+      f_a.includeSymbol(g_rightstr);
       gf_label = f_inverted ? f_a(f_a(g_rightstr), f_input)
                             : f_a(f_input,         f_a(g_rightstr));
     }
-- 
2.43.0


From 3fb9a467b457b4dbbc6a2e211662cab7ae9fe774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 89/91] fix: compiled dictionaries can be read from a pipe

The header was looked for only where the position in the file can be
told, so that in a pipe it was taken for the old format.
---
 lttoolbox/file_utils.cc | 9 ++++-----
 lttoolbox/trans_exe.cc  | 9 ++++-----
 lttoolbox/transducer.cc | 9 ++++-----
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index eb5083a..6a3c8c1 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -116,18 +116,17 @@ writeTransducerSet(FILE* output, const std::set<UChar32>& letters,
 void
 readShared(FILE* input, std::set<UChar32>& letters, Alphabet& alpha)
 {
-  fpos_t pos;
-  if (fgetpos(input, &pos) == 0) {
+  {
     char header[4]{};
-    fread_unlocked(header, 1, 4, input);
+    size_t n = fread_unlocked(header, 1, 4, input);
     if (strncmp(header, HEADER_LTTOOLBOX, 4) == 0) {
       auto features = read_be<uint64_t>(input);
       if (features >= LTF_UNKNOWN) {
         throw std::runtime_error("FST has features that are unknown to this version of lttoolbox - upgrade!");
       }
     } else {
-      // Old binary format
-      fsetpos(input, &pos);
+      // Old binary format; there is no way back to a position in a pipe
+      while (n > 0) ungetc(static_cast<unsigned char>(header[--n]), input);
     }
   }
 
diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index 249334c..3c35f0e 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -68,10 +68,9 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
 {
   bool read_weights = false;
 
-  fpos_t pos;
-  if (fgetpos(input, &pos) == 0) {
+  {
       char header[4]{};
-      fread_unlocked(header, 1, 4, input);
+      size_t n = fread_unlocked(header, 1, 4, input);
       if (strncmp(header, HEADER_TRANSDUCER, 4) == 0) {
           auto features = read_be<uint64_t>(input);
           if (features >= TDF_UNKNOWN) {
@@ -80,8 +79,8 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
           read_weights = (features & TDF_WEIGHTS);
       }
       else {
-          // Old binary format
-          fsetpos(input, &pos);
+          // Old binary format; there is no way back to a position in a pipe
+          while (n > 0) ungetc(static_cast<unsigned char>(header[--n]), input);
       }
   }
 
diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 1aeefed..536ed1d 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -595,10 +595,9 @@ Transducer::read(FILE *input, int const decalage)
 
   bool read_weights = false;
 
-  fpos_t pos;
-  if (fgetpos(input, &pos) == 0) {
+  {
       char header[4]{};
-      fread_unlocked(header, 1, 4, input);
+      size_t n = fread_unlocked(header, 1, 4, input);
       if (strncmp(header, HEADER_TRANSDUCER, 4) == 0) {
           auto features = read_be<uint64_t>(input);
           if (features >= TDF_UNKNOWN) {
@@ -607,8 +606,8 @@ Transducer::read(FILE *input, int const decalage)
           read_weights = (features & TDF_WEIGHTS);
       }
       else {
-          // Old binary format
-          fsetpos(input, &pos);
+          // Old binary format; there is no way back to a position in a pipe
+          while (n > 0) ungetc(static_cast<unsigned char>(header[--n]), input);
       }
   }
 
-- 
2.43.0


From 6d9de52e06c3b3800c6cf72b647a00bb7269736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 90/91] fix: a compiled dictionary written to the standard
 output is intact

The sizes of the sections were printed into the file.
---
 lttoolbox/file_utils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 6a3c8c1..e977146 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -89,11 +89,13 @@ writeTransducerSet(FILE* output, UStringView letters,
   Compression::string_write(letters, output);
   alpha.write(output);
   Compression::multibyte_write(trans.size(), output);
+  // the sizes must not get into a compiled file that is written to stdout
+  std::ostream& report = (output == stdout ? std::cerr : std::cout);
   for (auto& it : trans) {
     Compression::string_write(it.first, output);
     it.second.write(output);
-    std::cout << it.first << " " << it.second.size();
-    std::cout << " " << it.second.numberOfTransitions() << std::endl;
+    report << it.first << " " << it.second.size();
+    report << " " << it.second.numberOfTransitions() << std::endl;
   }
   if (fflush(output) != 0) {
     std::cerr << "Error: Cannot write the output file." << std::endl;
-- 
2.43.0


From a2a19afb92a08a7d9f6df6c503aa4cdf69dd995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 91/91] fix: long options that are abbreviated or unknown do
 not crash the tools

The array of options for getopt_long had no terminating element.
---
 lttoolbox/cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/cli.cc b/lttoolbox/cli.cc
index c1a78bb..55598f9 100644
--- a/lttoolbox/cli.cc
+++ b/lttoolbox/cli.cc
@@ -124,7 +124,7 @@ void CLI::parse_args(int argc, char* argv[])
   prog_name = basename(argv[0]);
   std::string arg_str;
 #if HAVE_GETOPT_LONG
-  std::vector<struct option> long_options(options.size());
+  std::vector<struct option> long_options(options.size() + 1); // the last one is empty
   int option_index = 0;
 #endif
   for (size_t i = 0; i < options.size(); i++) {
-- 
2.43.0

