From c69c8986c77f20eee6b0749c84bf98a736b94bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 01/11] fix: text conversion of properties raised TypeError
 (returned bytes)

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 058143c..f71d7cb 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -58,7 +58,7 @@ class Properties(object):
                                   if property.relation in self._data))
 
     def __str__(self):
-        return self.__unicode__().encode('utf-8')
+        return self.__unicode__()
 
     def __eq__(self, other):
         return (isinstance(other, Properties) and
-- 
2.43.0


From e94e208cb362d9f6685f5d75570b9fddd194e21a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 02/11] fix: equal word forms could have different hashes

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index f71d7cb..13520d6 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -242,7 +242,7 @@ class WordForm(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((self.word, self.form_properties))
+        return hash((self.word, self.properties))
 
 
 _INVERTED_WORDS_CACHES__PROPERTIES = {}
-- 
2.43.0


From 6f4423d6553d3b88b5bbba11c6ed233bb84cba2c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 03/11] fix: spaces around commas in template properties were
 not ignored

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 82a5c90..4184906 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -61,7 +61,7 @@ class Substitution(object):
     def parse_properties(cls, text):
         properties = []
         for slug in text.split(','):
-            slug.strip()
+            slug = slug.strip()
 
             if not slug:
                 continue
-- 
2.43.0


From 7eb04234a257d1c7110869b6c79c058e6d38276b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 04/11] fix: blank word id in a template raised IndexError
 instead of a format error

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 4184906..359c8b4 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -35,7 +35,7 @@ class Substitution(object):
     def parse(cls, variable, externals):
         slugs = variable[1:-1].split('|')
 
-        if not slugs[0]:
+        if not slugs[0].strip():
             raise exceptions.WrongDependencyFormatError(dependency=variable)
 
         s = cls()
-- 
2.43.0


From 35cc210177d0ed54c2c737e622f97a0d2e9bbc35 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 05/11] fix: percent signs inside template variables were
 doubled

---
 utg/templates.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index 359c8b4..76a60bf 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -156,15 +156,12 @@ class Template(object):
 
     def parse(self, text, externals):
 
-        text = text.replace('%', '%%')
-
         variables = _VARIABLE_REGEX.findall(text)
 
         for i, variable in enumerate(variables):
             self._substitutions.append(Substitution.parse(variable, externals=externals))
-            text = text.replace(variable, '%s', 1)
 
-        self.template = text
+        self.template = _VARIABLE_REGEX.sub('%s', text.replace('%', '%%'))
 
     def substitute(self, externals, dictionary):
         substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)
-- 
2.43.0


From 6ed1135213e97f58a848320c8c65d17de9246e88 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 06/11] fix: parsing a second text with the same template kept
 the old substitutions

---
 utg/templates.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utg/templates.py b/utg/templates.py
index 76a60bf..431bc5a 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -158,6 +158,8 @@ class Template(object):
 
         variables = _VARIABLE_REGEX.findall(text)
 
+        self._substitutions = []
+
         for i, variable in enumerate(variables):
             self._substitutions.append(Substitution.parse(variable, externals=externals))
 
-- 
2.43.0


From e66d2f365a882b31a83773833f5114fd5cf347d5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 07/11] fix: an unspecified (empty) word form crashed
 capitalisation and cluster detection

---
 utg/words.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utg/words.py b/utg/words.py
index 13520d6..238dfa8 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -220,7 +220,7 @@ class WordForm(object):
         form = word._form(properties)
 
         if properties.get(r.WORD_CASE).is_UPPER:
-            form = form[0].upper() + form[1:]
+            form = form[:1].upper() + form[1:]
 
         return form
 
@@ -231,7 +231,7 @@ class WordForm(object):
     @utils.lazy_property
     def starts_with_consonant_cluster(self):
         form = self.form
-        return (form[0] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
+        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
 
 
     def __eq__(self, other):
-- 
2.43.0


From bdf88e735dbe4c614416eb3248eb3ac2091c2f88 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 08/11] fix: a preposition next to an unspecified (empty) word
 form raised IndexError

---
 utg/transformators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index cde463a..1539c86 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -23,7 +23,7 @@ def _preposition_any(properties, slave_word, master_form):
 
     slave = slave_word.normal_form()
 
-    if slave[-1] in data.CONSONANTS:
+    if slave[-1:] in data.CONSONANTS:
         return _consonant_preposition_any(slave, properties, slave_word, master_form)
 
     return _vowels_preposition_any(slave, properties, slave_word, master_form)
@@ -43,7 +43,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 
     # 2) часто после предлогов в и с, если с этих же согласных начинается последующее стечение согласных, например: во власти, во внушении, со слезами, со словами, со страху;
     if (slave in ('в', 'с') and
-        slave == master[0] and
+        slave == master[:1] and
         master_form.starts_with_consonant_cluster):
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
@@ -72,7 +72,7 @@ def _vowels_preposition_any(slave, properties, slave_word, master_form):
         return properties.clone(r.PREPOSITION_FORM.SPECIAL)
 
     # Если существительное начинается на гласную (кроме йотированных), то пишем ОБ: сообщить об отъезде, удариться об асфальт. Это фонетический принцип.
-    if master[0] in data.NOT_J_VOWELS:
+    if master[:1] in data.NOT_J_VOWELS:
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
     # Прелоги участвуют в управлении В.п. или П.п. Для В.п. характерен предлог ОБ: удариться об дерево, об стену,
-- 
2.43.0


From ec569b0be4a2843043a5f637605aa1808b6eb03e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 09/11] fix: syllables and fluent vowel stayed stale after
 autofill of missed forms

---
 utg/words.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utg/words.py b/utg/words.py
index 238dfa8..3b65a25 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -204,6 +204,9 @@ class Word(object):
 
             self.forms[i] = self.forms[data.WORDS_CACHES[self.type][nearest_key]]
 
+        del self.number_of_syllables
+        del self.has_fluent_vowel
+
 
 
 class WordForm(object):
-- 
2.43.0


From 945ac53016a631cb741176319df53069cf542814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 10/11] fix: comparing a word form, template or substitution
 with another kind of object is unequal, not an AttributeError

---
 utg/templates.py | 6 ++++--
 utg/words.py     | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index 431bc5a..f0a318b 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -116,7 +116,8 @@ class Substitution(object):
         return words.WordForm.get_form(base_form.word, form_properties)
 
     def __eq__(self, other):
-        return (self.id == other.id and
+        return (isinstance(other, Substitution) and
+                self.id == other.id and
                 self.dependencies == other.dependencies)
 
 
@@ -171,5 +172,6 @@ class Template(object):
         return self.template % substitutions
 
     def __eq__(self, other):
-        return (self._substitutions == other._substitutions and
+        return (isinstance(other, Template) and
+                self._substitutions == other._substitutions and
                 self.template == other.template)
diff --git a/utg/words.py b/utg/words.py
index 3b65a25..05d46ec 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -238,7 +238,8 @@ class WordForm(object):
 
 
     def __eq__(self, other):
-        return (self.word == other.word and
+        return (isinstance(other, WordForm) and
+                self.word == other.word and
                 self.properties == other.properties)
 
     def __ne__(self, other):
-- 
2.43.0


From 5721f040d359ad01ea99909735384b1f546a6fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 11/11] fix: migration 7 takes the comparative form of an
 adjective from its old comparative forms, not from the short plural

---
 utg/migrations/m_0007_reduce_words_forms.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utg/migrations/m_0007_reduce_words_forms.py b/utg/migrations/m_0007_reduce_words_forms.py
index c8075f0..6769c65 100644
--- a/utg/migrations/m_0007_reduce_words_forms.py
+++ b/utg/migrations/m_0007_reduce_words_forms.py
@@ -22,7 +22,15 @@ def migrate_forms(word_data, old_cache, new_cache):
 
 
 def get_nearest_old_index(new_key, old_cache):
-    old_key = logic.get_nearest_key(new_key, list(old_cache.keys()))
+    old_keys = list(old_cache.keys())
+
+    # reduced form replaces old forms with the same properties
+    same_keys = [old_key
+                 for old_key in old_keys
+                 if all(new_property is None or new_property == old_property
+                        for new_property, old_property in zip(new_key, old_key))]
+
+    old_key = logic.get_nearest_key(new_key, same_keys or old_keys)
     return old_cache[old_key]
 
 
-- 
2.43.0

