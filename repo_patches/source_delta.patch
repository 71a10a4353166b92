From 420bf26a21d66e1bcdc3edb70b6b48f053e0be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:45 +0000
Subject: [PATCH 1/6] fix: Tagger returns one tag per token (sequence length
 already counts the two padding tokens)

---
 scrappybara/syntax/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/syntax/tagger.py b/scrappybara/syntax/tagger.py
index 1ba77ea..6fbed11 100644
--- a/scrappybara/syntax/tagger.py
+++ b/scrappybara/syntax/tagger.py
@@ -21,4 +21,4 @@ class Tagger(object):
         data_per_sentence = [vectorize_sentence(tokens, self.__charset, self.__wordset) for tokens in token_lists]
         seq_lengths, char_codes, word_vectors = zip(*data_per_sentence)
         tag_codes = self.__ptags_model.predict(char_codes, word_vectors)
-        return [[Tag(code) for code in tag_codes[idx][1:sl + 1]] for idx, sl in enumerate(seq_lengths)]
+        return [[Tag(code) for code in tag_codes[idx][1:sl - 1]] for idx, sl in enumerate(seq_lengths)]
-- 
2.43.0


From 244cb903a18645efef7df3c8340ca500c20626e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:45 +0000
Subject: [PATCH 2/6] fix: TokenContext keeps left contexts shorter than the
 exploring range

---
 scrappybara/langmodel/token_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/token_context.py b/scrappybara/langmodel/token_context.py
index 4b1b1ac..df6be28 100644
--- a/scrappybara/langmodel/token_context.py
+++ b/scrappybara/langmodel/token_context.py
@@ -22,7 +22,7 @@ class TokenContext(object):
         """Given an order n, returns all combinations of ngram: before/token/after"""
         assert order > 1
         exploring_range = order - 1
-        tokens_before = self.__tokens_before[len(self.__tokens_before) - exploring_range:]
+        tokens_before = self.__tokens_before[-exploring_range:]
         tokens_after = self.__tokens_after[:exploring_range]
         tokens = tokens_before + [self.token] + tokens_after
         return [' '.join(items) for items in self.__slide_window(tokens, order)]
-- 
2.43.0


From 0c0d208f8fb60c15243647e0755f0ae5a29a1b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:45 +0000
Subject: [PATCH 3/6] fix: run_multithreads raises the error of a worker
 instead of dropping its items

---
 scrappybara/utils/multithreading.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/multithreading.py b/scrappybara/utils/multithreading.py
index 648d954..f3a4ec9 100644
--- a/scrappybara/utils/multithreading.py
+++ b/scrappybara/utils/multithreading.py
@@ -11,9 +11,13 @@ class _Thread(threading.Thread):
         self.__input_items = input_items
         self.__process = process
         self.output_items = []
+        self.error = None
 
     def run(self):
-        self.output_items = [self.__process(item) for item in self.__input_items]
+        try:
+            self.output_items = [self.__process(item) for item in self.__input_items]
+        except BaseException as error:
+            self.error = error  # Raised again by the caller
 
 
 def run_multithreads(items, process, nb_threads):
@@ -25,5 +29,7 @@ def run_multithreads(items, process, nb_threads):
         nb_threads[idx].start()
     for idx, _ in enumerate(items_lists):
         nb_threads[idx].join()
+        if nb_threads[idx].error is not None:
+            raise nb_threads[idx].error
         output_items.extend(nb_threads[idx].output_items)
     return output_items
-- 
2.43.0


From 534e0851f1a7201e4a87dc5fefb994891b7aaaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:47 +0000
Subject: [PATCH 4/6] fix: MLESmoother accepts an order without any n-gram

---
 scrappybara/langmodel/mle_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/mle_smoother.py b/scrappybara/langmodel/mle_smoother.py
index faa2e36..6a922d2 100644
--- a/scrappybara/langmodel/mle_smoother.py
+++ b/scrappybara/langmodel/mle_smoother.py
@@ -34,7 +34,7 @@ class MLESmoother(Smoother):
     def __call__(self):
         for order in range(1, self._last_order + 1):
             data_slices = []
-            ngrams = self._ngrams[order]
+            ngrams = self._ngrams.get(order, [])
             for process_range in self._process_ranges(len(self._ngrams.get(order, []))):
                 np_counts = np.array([ngrams[i].count for i in process_range])
                 data_slices.append(_DataSlice(np_counts, self.__total_counts[order]))
-- 
2.43.0


From 63c0daa18f5e24c9217d6bebf07fcc30050ae95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:32 +0000
Subject: [PATCH 5/6] fix: protecting a URL does not break a longer URL that
 starts with it

---
 scrappybara/preprocessing/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index bd6fb52..9c35ba0 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -208,7 +208,7 @@ class Tokenizer(object):
                 token = match.group()
                 key = '_PROTECTED_%d_' % index
                 protected[key] = token
-                text = text.replace(token, key)
+                text = text[:match.start()] + key + text[match.end():]
                 match = re.search(pattern, text)
                 index += 1
         return protected, text
-- 
2.43.0


From d657a1f84baf8535a5183fe5875ee6c9cb168a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:32 +0000
Subject: [PATCH 6/6] fix: restore nested protected texts so that no
 placeholder leaks into tokens

---
 scrappybara/preprocessing/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index 9c35ba0..b2f2a81 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -194,7 +194,7 @@ class Tokenizer(object):
         for replace in self.__re_reattach:
             text = re.sub(replace[0], replace[1], text)
         # Re-establish protected patterns
-        for key, value in protected.items():
+        for key, value in reversed(list(protected.items())):  # A protected text can contain previous keys
             text = text.replace(key, value)
         return text.split()
 
-- 
2.43.0

