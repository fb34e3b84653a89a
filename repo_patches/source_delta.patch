From 1aba9102bd0595f50b3a8fb4824fcd469fa29656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:32 +0000
Subject: [PATCH 01/41] fix: file index of a mini-batch overflows with more
 than 128 training files

---
 theanolm/parsing/batchiterator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/parsing/batchiterator.py b/theanolm/parsing/batchiterator.py
index 9e1810b..0def530 100644
--- a/theanolm/parsing/batchiterator.py
+++ b/theanolm/parsing/batchiterator.py
@@ -209,13 +209,13 @@ class BatchIterator(object, metaclass=ABCMeta):
         shape = (batch_length, num_sequences)
         word_ids = numpy.ones(shape, numpy.int64) * unk_id
         mask = numpy.zeros(shape, numpy.int8)
-        file_ids = numpy.zeros(shape, numpy.int8)
+        file_ids = numpy.zeros(shape, numpy.int64)
 
         for i, sequence in enumerate(sequences):
             length = len(sequence)
 
             sequence_word_ids = numpy.ones(length, numpy.int64) * unk_id
-            sequence_file_ids = numpy.zeros(length, numpy.int8)
+            sequence_file_ids = numpy.zeros(length, numpy.int64)
             for index, (word, file_id) in enumerate(sequence):
                 if word in self._vocabulary:
                     word_id = self._vocabulary.word_to_id[word]
-- 
2.43.0


From e1ae740a28527ea63cb48407e050bc650da4c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:06 +0000
Subject: [PATCH 02/41] fix: restoring the iterator state in the middle of a
 split sentence or after a pass

---
 theanolm/parsing/shufflingbatchiterator.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 5a5ad36..5d553f6 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -14,6 +14,7 @@ from numpy import random
 from theanolm.backend import IncompatibleStateError
 from theanolm.parsing.batchiterator import BatchIterator
 from theanolm.parsing.functions import find_sentence_starts
+from theanolm.parsing.functions import utterance_from_line
 
 class SentencePointers(object):
     """A class that creates a memory map of text files and stores pointers to
@@ -137,7 +138,10 @@ class ShufflingBatchIterator(BatchIterator):
         """Saves the iterator state in a HDF5 file.
 
         Sets ``iterator/order`` to the iteration order, and
-        ``iterator/next_line`` the index to the next sentence in the list. Note
+        ``iterator/next_line`` the index to the next sentence in the list. If
+        sentences are split because of the maximum sequence length,
+        ``iterator/num_buffered`` is the number of words from the previous
+        sentence that have not been returned yet. Note
         that if the program is restarted, the same training files have to be
         loaded in order for this to work. If there already is a
         ``iterator/order`` in the state, it will be replaced, so it has to have
@@ -155,6 +159,7 @@ class ShufflingBatchIterator(BatchIterator):
             h5_iterator.create_dataset('order', data=self._order)
 
         h5_iterator.attrs['next_line'] = self._next_line
+        h5_iterator.attrs['num_buffered'] = len(self._buffer)
 
     def set_state(self, state):
         """Restores the iterator state.
@@ -188,6 +193,18 @@ class ShufflingBatchIterator(BatchIterator):
                       self._next_line,
                       self._order.size)
 
+        # Forget what was being read before restoring the state, and continue
+        # from the middle of a sentence if that's where the state was saved.
+        self._end_of_file = False
+        self._buffer = []
+        num_buffered = int(h5_iterator.attrs.get('num_buffered', 0))
+        if num_buffered > 0:
+            self._next_line -= 1
+            line, file_id = self._readline()
+            self._buffer = [(word, file_id)
+                            for word in utterance_from_line(line)]
+            self._buffer = self._buffer[-num_buffered:]
+
     def _reset(self, shuffle=True):
         """Resets the read pointer back to the beginning of the data set. If
         ``shuffle`` is set to True, also creates a new random order for
-- 
2.43.0


From 7c97d1501dff78436ffe279c93800fcc6f99ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:48 +0000
Subject: [PATCH 03/41] fix: linear interpolation of probabilities so small
 that they lose precision

---
 theanolm/backend/probfunctions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theanolm/backend/probfunctions.py b/theanolm/backend/probfunctions.py
index a89eaf8..f3804ed 100644
--- a/theanolm/backend/probfunctions.py
+++ b/theanolm/backend/probfunctions.py
@@ -34,14 +34,15 @@ def interpolate_linear(logprob1, logprob2, weight1):
 
     prob1 = numpy.exp(numpy.float64(logprob1))
     prob2 = numpy.exp(numpy.float64(logprob2))
-    if (prob1 > 0) and (prob2 > 0):
+    smallest = numpy.finfo(numpy.float64).tiny
+    if (prob1 >= smallest) and (prob2 >= smallest):
         weight2 = 1.0 - weight1
         prob = weight1 * prob1
         prob += weight2 * prob2
         return logprob_type(numpy.log(prob))
     else:
-        # An exp() resulted in an underflow (or -inf logprob). Use the decimal
-        # library.
+        # An exp() resulted in an underflow (or -inf logprob), or a number that
+        # is so small that it has lost precision. Use the decimal library.
         getcontext().prec = 16
         d_weight1 = Decimal(float(weight1))
         d_weight2 = Decimal(1.0) - d_weight1
-- 
2.43.0


From a0eabc17d868e671e59762ec44086e47d12167d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:24 +0000
Subject: [PATCH 04/41] fix: unigram probabilities of special tokens in a
 vocabulary created from word counts

---
 theanolm/vocabulary/vocabulary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/vocabulary/vocabulary.py b/theanolm/vocabulary/vocabulary.py
index df40ad2..6669eee 100644
--- a/theanolm/vocabulary/vocabulary.py
+++ b/theanolm/vocabulary/vocabulary.py
@@ -235,6 +235,7 @@ class Vocabulary(object):
 
         # The special tokens should not be included when creating the classes.
         # They are added to separate classes in the end.
+        all_word_counts = word_counts
         word_counts = dict(word_counts)
         if '<s>' in word_counts:
             del word_counts['<s>']
@@ -270,7 +271,7 @@ class Vocabulary(object):
         _add_special_tokens(id_to_word, word_id_to_class_id, word_classes)
 
         result = cls(id_to_word, word_id_to_class_id, word_classes)
-        result.compute_probs(word_counts, update_class_probs=True)
+        result.compute_probs(all_word_counts, update_class_probs=True)
         return result
 
     @classmethod
-- 
2.43.0


From 8b6fbc075980e089203369da0133f07c2fcb8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:20 +0000
Subject: [PATCH 05/41] fix: read architecture inputs in numerical order

Inputs, layer inputs and other lists were read from the model file in
lexicographical order of their indices, so 10 came before 2.
---
 theanolm/network/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 57a4d8a..0d92fb1 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -62,7 +62,7 @@ class Architecture(object):
                 "network state.")
         h5_inputs = h5_arch['inputs']
         inputs = []
-        for input_id in sorted(h5_inputs.keys()):
+        for input_id in sorted(h5_inputs.keys(), key=int):
             h5_input = h5_inputs[input_id]
             inputs.append(cls._read_h5_dict(h5_input))
 
@@ -276,7 +276,7 @@ class Architecture(object):
         for variable in h5_dict:
             values = []
             h5_values = h5_dict[variable]
-            for value_id in sorted(h5_values.attrs.keys()):
+            for value_id in sorted(h5_values.attrs.keys(), key=int):
                 values.append(h5_values.attrs[value_id])
             result[variable] = values
         return result
-- 
2.43.0


From 781f660108aac1b1f24659beb05c7b05eff1c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:43 +0000
Subject: [PATCH 06/41] fix: detect more architecture differences when loading
 a state

A state with additional inputs, layers, layer inputs or options was accepted as
if it matched the architecture.
---
 theanolm/network/architecture.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 0d92fb1..f6205cc 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -233,6 +233,10 @@ class Architecture(object):
                 "Architecture parameter 'inputs' is missing from neural "
                 "network state.")
         h5_inputs = h5_arch['inputs']
+        if len(h5_inputs) != len(self.inputs):
+            raise IncompatibleStateError(
+                "Neural network state has {1} inputs, while this architecture "
+                "has {0} inputs.".format(len(self.inputs), len(h5_inputs)))
         for input_id, input_value in enumerate(self.inputs):
             h5_input = h5_inputs[str(input_id)]
             self._check_h5_dict(h5_input, input_value)
@@ -242,6 +246,10 @@ class Architecture(object):
                 "Architecture parameter 'layers' is missing from neural "
                 "network state.")
         h5_layers = h5_arch['layers']
+        if len(h5_layers) != len(self.layers):
+            raise IncompatibleStateError(
+                "Neural network state has {1} layers, while this architecture "
+                "has {0} layers.".format(len(self.layers), len(h5_layers)))
         for layer_id, layer in enumerate(self.layers):
             h5_layer = h5_layers[str(layer_id)]
             self._check_h5_dict(h5_layer, layer)
@@ -335,6 +343,11 @@ class Architecture(object):
                             "while this architecture uses {}."
                             .format(', '.join(str(x) for x in values)))
                 h5_values = h5_group[variable]
+                if len(h5_values.attrs) != len(values):
+                    raise IncompatibleStateError(
+                        "Neural network state has {2} values for {0}, while "
+                        "this architecture has {1}."
+                        .format(variable, len(values), len(h5_values.attrs)))
                 for value_id, value in enumerate(values):
                     h5_value = h5_values.attrs[str(value_id)]
                     if value != h5_value:
@@ -343,9 +356,14 @@ class Architecture(object):
                             "architecture has {0}={1}."
                             .format(variable, value, h5_value))
             else:
-                h5_value = h5_group.attrs[variable]
+                h5_value = h5_group.attrs.get(variable)
                 if values != h5_value:
                     raise IncompatibleStateError(
                         "Neural network state has {0}={2}, while this "
                         "architecture has {0}={1}."
                         .format(variable, values, h5_value))
+        for variable, h5_value in h5_group.attrs.items():
+            if variable not in variables:
+                raise IncompatibleStateError(
+                    "Neural network state has {0}={1}, while this architecture "
+                    "does not specify {0}.".format(variable, h5_value))
-- 
2.43.0


From a31ccc73ef3e1ed7a50d72d82f74d4e187797ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:07 +0000
Subject: [PATCH 07/41] fix: exclude out-of-shortlist words with <unk> also
 when using a shortlist

With exclude_unk=True the <unk> probability is zero, and scoring an
out-of-shortlist word (e.g. validation during training with --exclude-unk)
failed because of a zero probability, contrary to the documentation of
TextScorer.
---
 theanolm/scoring/textscorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 1b36d0a..cbdf87f 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -102,7 +102,7 @@ class TextScorer(object):
             # Always exclude OOV words when using a shortlist - No probability
             # mass is left for them.
             mask *= tensor.neq(target_word_ids, self._unk_id)
-        elif exclude_unk:
+        if exclude_unk:
             # If requested, ignore OOS and OOV probabilities.
             mask *= tensor.neq(target_word_ids, self._unk_id)
             mask *= tensor.lt(target_word_ids, shortlist_size)
-- 
2.43.0


From f94b164bd8e624f20cbacfeaac90711407b0438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:52 +0000
Subject: [PATCH 08/41] fix: score lines that contain out-of-shortlist words

TextScorer.score_line() failed with an IndexError, because out-of-shortlist
words do not have a class of their own.
---
 theanolm/scoring/textscorer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index cbdf87f..71d43f9 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -336,10 +336,7 @@ class TextScorer(object):
         self.num_words += word_ids.size
         self.num_unks += numpy.count_nonzero(word_ids == unk_id)
 
-        class_ids = [vocabulary.word_id_to_class_id[word_id]
-                     for word_id in word_ids]
-        probs = [vocabulary.get_word_prob(word_id)
-                 for word_id in word_ids]
+        class_ids, probs = vocabulary.get_class_memberships(word_ids)
 
         return self.score_sequence(word_ids, class_ids, probs)
 
-- 
2.43.0


From fd5f84c59f073c641e249e9a06b6c9da237d6a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 09/41] fix: sort lattices with unreachable nodes and detect
 all cycles

A node with a link from an unreachable node was left out, and most cycles were
reported only as unreachable nodes, with a part of the lattice left out.
---
 theanolm/scoring/lattice.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index 3a073e9..5a9f75c 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -183,8 +183,18 @@ class Lattice(object):
         result = []
         # A queue of nodes to be visited next:
         node_queue = [self.initial_node]
+        # Links from unreachable nodes will never be traversed.
+        reachable = {self.initial_node.id}
+        unexplored = [self.initial_node]
+        while unexplored:
+            for link in unexplored.pop().out_links:
+                if link.end_node.id not in reachable:
+                    reachable.add(link.end_node.id)
+                    unexplored.append(link.end_node)
         # The number of incoming links not traversed yet:
-        in_degrees = [len(node.in_links) for node in self.nodes]
+        in_degrees = [sum(link.start_node.id in reachable
+                          for link in node.in_links)
+                      for node in self.nodes]
         while node_queue:
             node = node_queue.pop()
             result.append(node)
@@ -198,6 +208,8 @@ class Lattice(object):
                 elif in_degrees[next_node.id] < 0:
                     raise InputError("Word lattice contains a cycle.")
 
+        if len(result) < len(reachable):
+            raise InputError("Word lattice contains a cycle.")
         if len(result) < len(self.nodes):
             logging.warning("Word lattice contains unreachable nodes.")
         else:
-- 
2.43.0


From 33ce5c39f4d30b469533329128dd23c854f5209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:28 +0000
Subject: [PATCH 10/41] fix: write the initial state first in Kaldi lattices

The state on the first line is the initial state of a Kaldi lattice, but the
nodes were written in the order of their IDs.
---
 theanolm/scoring/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index 5a9f75c..341e074 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -163,7 +163,8 @@ class Lattice(object):
                 link.transitions))
 
         output_file.write("{}\n".format(self.utterance_id))
-        for node in self.nodes:
+        # The first line defines the initial state.
+        for node in sorted(self.nodes, key=lambda x: x is not self.initial_node):
             for link in node.out_links:
                 if link.end_node.final:
                     write_final_link(link)
-- 
2.43.0


From 33af182ed1e8953a0034b58176234b4f2fb1a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:12 +0000
Subject: [PATCH 11/41] fix: read and write special characters in SLF words

The writer did not quote words that contain white space, quotes, backslashes,
or #, and the reader ignored the rest of a line after # inside a word.
---
 theanolm/scoring/lattice.py    | 11 +++++++++--
 theanolm/scoring/slflattice.py | 11 ++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/theanolm/scoring/lattice.py b/theanolm/scoring/lattice.py
index 341e074..28be088 100644
--- a/theanolm/scoring/lattice.py
+++ b/theanolm/scoring/lattice.py
@@ -97,9 +97,13 @@ class Lattice(object):
         :param output_file: a file where to write the output
         """
 
+        def quote(value):
+            # SLF reader interprets double quotes and backslashes.
+            return '"{}"'.format(value.replace('\\', '\\\\').replace('"', '\\"'))
+
         output_file.write("# Header (generated by TheanoLM)\n")
         output_file.write("VERSION=1.1\n")
-        output_file.write('UTTERANCE="{}"\n'.format(self.utterance_id))
+        output_file.write('UTTERANCE={}\n'.format(quote(str(self.utterance_id))))
         fields = []
         if self.lm_scale is not None:
             fields.append("lmscale={}".format(self.lm_scale))
@@ -126,7 +130,10 @@ class Lattice(object):
             if link.word is None:
                 fields.append("W=!NULL")
             else:
-                fields.append("W={}".format(link.word))
+                word = str(link.word)
+                if any(c.isspace() or c in '"\\#' for c in word):
+                    word = quote(word)
+                fields.append("W={}".format(word))
             if link.ac_logprob is not None:
                 fields.append("a={}".format(link.ac_logprob + 0.0))
             if link.lm_logprob is not None:
diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index f2264c6..fc89866 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -32,7 +32,16 @@ def _split_slf_line(line):
     lex.quotes = '"'
     lex.wordchars += "'"
     lex.whitespace_split = True
-    return list(lex)
+    # A comment starts at the beginning of a field. Words may contain #.
+    if line.lstrip().startswith('#'):
+        return []
+    lex.commenters = ''
+    fields = []
+    for field in lex:
+        if field.startswith('#'):
+            break
+        fields.append(field)
+    return fields
 
 def _split_slf_field(field):
     """Parses the name and value from an SLF lattice field.
-- 
2.43.0


From 1a314800f9d00417878c5c7fc47d54b3ca55e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:26 +0000
Subject: [PATCH 12/41] fix: read long SLF lattices

Words were moved to links recursively, which exceeded the maximum recursion
depth in lattices with about a thousand nodes on a path.
---
 theanolm/scoring/slflattice.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/theanolm/scoring/slflattice.py b/theanolm/scoring/slflattice.py
index fc89866..bb123fd 100644
--- a/theanolm/scoring/slflattice.py
+++ b/theanolm/scoring/slflattice.py
@@ -272,12 +272,7 @@ class SLFLattice(Lattice):
         in the end nodes in forward lattices.
         """
 
-        visited = {self.initial_node.id}
-
-        def visit_link(link):
-            """A function that is called recursively to move a word from the
-            link end node to the link.
-            """
+        for link in self.links:
             end_node = link.end_node
             if hasattr(end_node, 'word'):
                 if link.word is None:
@@ -285,13 +280,6 @@ class SLFLattice(Lattice):
                 else:
                     raise InputError("SLF lattice contains words both in nodes "
                                      "and links.")
-            if end_node.id not in visited:
-                visited.add(end_node.id)
-                for next_link in end_node.out_links:
-                    visit_link(next_link)
-
-        for link in self.initial_node.out_links:
-            visit_link(link)
 
         for node in self.nodes:
             if hasattr(node, 'word'):
-- 
2.43.0


From 643bfc9baee9c362efdbbe6bc890aebf594b339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:50 +0000
Subject: [PATCH 13/41] fix: use the class membership probability of the
 predicted word in lattice decoding

The decoder added the log probability of the previous word inside its class
instead of that of the word whose probability is being computed.
---
 theanolm/scoring/latticedecoder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index 1a29dde..e2a540b 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -629,20 +629,21 @@ class LatticeDecoder(object):
         input_word_ids = [[limit_to_shortlist(self, token.history[-1])
                            for token in tokens]]
         input_word_ids = numpy.asarray(input_word_ids).astype('int64')
-        input_class_ids, membership_probs = \
+        input_class_ids, _ = \
             self._vocabulary.get_class_memberships(input_word_ids)
         recurrent_state = [token.state for token in tokens]
         recurrent_state = RecurrentState.combine_sequences(recurrent_state)
         target_word_id = limit_to_shortlist(self, target_word)
         target_class_ids = numpy.ones(shape=(1, len(tokens))).astype('int64')
         target_class_ids *= self._vocabulary.word_id_to_class_id[target_word_id]
+        membership_prob = self._vocabulary.get_word_prob(target_word_id)
         step_result = self._step_function(input_word_ids,
                                           input_class_ids,
                                           target_class_ids,
                                           *recurrent_state.get())
         logprobs = step_result[0]
         # Add logprobs from the class membership of the predicted words.
-        logprobs += numpy.log(membership_probs)
+        logprobs += numpy.log(membership_prob)
         output_state = step_result[1:]
 
         for index, token in enumerate(tokens):
-- 
2.43.0


From 14c6bd59941e1df8d31412e254d39d5fb93511b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:47 +0000
Subject: [PATCH 14/41] fix: keep at least one token when pruning relative to
 the lattice size

The token limit could become zero, which failed an assertion, and a minimum
given as a floating point number could not be used for slicing.
---
 theanolm/scoring/latticedecoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index e2a540b..c1e054f 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -552,8 +552,8 @@ class LatticeDecoder(object):
         # Enforce limit on number of tokens at each node.
         if self._max_tokens_per_node is not None:
             max_tokens = self._max_tokens_per_node // limit_divider
-            max_tokens = max(max_tokens, self._abs_min_max_tokens)
-            new_tokens = new_tokens[:max_tokens]
+            max_tokens = max(max_tokens, self._abs_min_max_tokens, 1)
+            new_tokens = new_tokens[:int(max_tokens)]
         stats['after-max'] = len(new_tokens)
 
         tokens[node.id] = new_tokens
-- 
2.43.0


From 2e8ded69c088d99ec9fc1cf5219e8733ba1312ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:00 +0000
Subject: [PATCH 15/41] fix: make the decode option --prune-relative have an
 effect

The value was passed to the decoder under a name that the decoder ignores.
---
 theanolm/commands/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index b2a3ee1..dd46afd 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -219,7 +219,7 @@ def decode(args):
         'max_tokens_per_node': args.max_tokens_per_node,
         'beam': args.beam,
         'recombination_order': args.recombination_order,
-        'prune_relative': args.prune_relative,
+        'prune_extra_limit': args.prune_relative,
         'abs_min_max_tokens': args.abs_min_max_tokens,
         'abs_min_beam': args.abs_min_beam
     }
-- 
2.43.0


From 9fb683674af70de2d8f94b69ebf0c1546a9455b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 16/41] fix: keep final scores and own link scores in rescored
 lattices

The final link of a rescored lattice dropped the scores and transition IDs that
the original lattice had after the last word (e.g. Kaldi final weights), and a
path that was re-attached after recombination got the acoustic score and
transition IDs of the other path's link. Paths recombined in the shared final
node of a Kaldi lattice were attached to a node of another path, which could
create new paths or even a cycle.
---
 theanolm/scoring/rescoredlattice.py | 157 +++++++++++++++++++++++-----
 1 file changed, 131 insertions(+), 26 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 41566db..4eab864 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -11,6 +11,54 @@ from theanolm.scoring.lattice import Lattice
 class NodeNotFoundError(Exception):
     pass
 
+def _add_scores(link, ac_logprob, lm_logprob, transitions):
+    """Adds the scores of a link in front of the scores of the path after it.
+
+    :type link: Lattice.Link
+    :param link: the link that precedes the path
+
+    :type ac_logprob: float
+    :param ac_logprob: acoustic log probability of the path
+
+    :type lm_logprob: float
+    :param lm_logprob: LM log probability of the path
+
+    :type transitions: str
+    :param transitions: transition IDs of the path separated by underscores
+
+    :rtype: tuple of (float, float, str)
+    :returns: the scores and transition IDs of the link and the path
+    """
+
+    if link.ac_logprob is not None:
+        ac_logprob += link.ac_logprob
+    if link.lm_logprob is not None:
+        lm_logprob += link.lm_logprob
+    if link.transitions:
+        transitions = '_'.join(filter(None, (link.transitions, transitions)))
+    return (ac_logprob, lm_logprob, transitions)
+
+def _follow_null_links(node):
+    """Follows null links from given node to a final node.
+
+    :type node: Lattice.Node
+    :param node: node where to start searching
+
+    :rtype: tuple of (float, float, str)
+    :returns: the total acoustic log probability, LM log probability, and
+              transition IDs of the null links, or ``None`` if no final node can
+              be reached without words
+    """
+
+    if node.final:
+        return (0.0, 0.0, "")
+    for link in node.out_links:
+        if link.word is None:
+            scores = _follow_null_links(link.end_node)
+            if scores is not None:
+                return _add_scores(link, *scores)
+    return None
+
 def _follow_word_from_node(node, word):
     """Follows the link with given word label from given node.
 
@@ -46,13 +94,8 @@ def _follow_word_from_node(node, word):
     if end_node is None:
         return (None, None, None, None)
     else:
-        if link.ac_logprob is not None:
-            ac_logprob += link.ac_logprob
-        if link.lm_logprob is not None:
-            lm_logprob += link.lm_logprob
-        if link.transitions is not None:
-            transitions += link.transitions
-        return (end_node, ac_logprob, lm_logprob, transitions)
+        return (end_node,
+                *_add_scores(link, ac_logprob, lm_logprob, transitions))
 
 class RescoredLattice(Lattice):
     """Rescored Lattice
@@ -96,14 +139,56 @@ class RescoredLattice(Lattice):
             :type create: bool
             :param create: if ``True``, creates new nodes if necessary
 
-            :rtype: Lattice.Node
-            :returns: the last node of the path
+            :rtype: tuple of two Lattice.Nodes
+            :returns: the last node of the path in this lattice and in the
+                      original lattice
             """
 
             words = [vocabulary.id_to_word[id] if isinstance(id, int) else id
                      for id in word_ids[1:]]
             return self._follow_words(words, original_lattice, create)
 
+        def follow_original(word_ids):
+            """Follows a path from the initial node of the original lattice.
+
+            :type word_ids: list of ints
+            :param word_ids: IDs of the words to be found on the path
+
+            :rtype: Lattice.Node
+            :returns: the last node of the path
+            """
+
+            node = original_lattice.initial_node
+            for id in word_ids[1:]:
+                word = vocabulary.id_to_word[id] if isinstance(id, int) else id
+                node = _follow_word_from_node(node, word)[0] or node
+            return node
+
+        def add_final_link(node, orig_node, nn_lm_logprob):
+            """Adds a link to the final node.
+
+            :type node: Lattice.Node
+            :param node: the last node of the path in this lattice
+
+            :type orig_node: Lattice.Node
+            :param orig_node: the last node of the path in the original lattice
+
+            :type nn_lm_logprob: float
+            :param nn_lm_logprob: NNLM log probability of the entire path
+            """
+
+            # The original lattice may contain scores after the last word.
+            scores = _follow_null_links(orig_node)
+            ac_logprob, lm_logprob, transitions = \
+                (0.0, 0.0, "") if scores is None else scores
+            link = self.Link(node, final_node, word=None,
+                             ac_logprob=ac_logprob,
+                             lm_logprob=lm_logprob + nn_lm_logprob,
+                             transitions=transitions)
+            node.out_links.append(link)
+            self.links.append(link)
+            final_nn_lm_logprobs[node] = nn_lm_logprob
+
         super().__init__()
 
         self.utterance_id = original_lattice.utterance_id
@@ -116,10 +201,12 @@ class RescoredLattice(Lattice):
         final_node.word_to_link = dict()
 
         self._add_word_maps(original_lattice.nodes)
+        # NNLM log probabilities of the paths that end in each node.
+        final_nn_lm_logprobs = dict()
 
         # Create all the paths that correspond to the final tokens.
         for token in final_tokens:
-            node = follow_word_ids(token.history)
+            node, orig_node = follow_word_ids(token.history)
             # If the lattice is not determinized, it may happen that we have two
             # tokens with the same word sequence.
             if any(link.end_node.final for link in node.out_links):
@@ -127,12 +214,7 @@ class RescoredLattice(Lattice):
             # For the final link we set the NNLM log probability of the entire
             # path. The created lattice is a tree, so we can equivalently set
             # the entire path probability in the final link.
-            link = self.Link(node, final_node, word=None,
-                             ac_logprob=0,
-                             lm_logprob=token.nn_lm_logprob,
-                             transitions="")
-            node.out_links.append(link)
-            self.links.append(link)
+            add_final_link(node, orig_node, token.nn_lm_logprob)
 
         # Add recombined tokens.
         oov_words = set()
@@ -148,7 +230,8 @@ class RescoredLattice(Lattice):
             # Find the incoming link that corresponds to the token that was kept
             # during recombination.
             try:
-                recomb_from_node = follow_word_ids(new_history[:-1], False)
+                recomb_from_node, recomb_orig_node = \
+                    follow_word_ids(new_history[:-1], False)
             except NodeNotFoundError:
                 continue
             # Our new lattice doesn't contain null links, so word_to_link maps
@@ -156,17 +239,38 @@ class RescoredLattice(Lattice):
             if word not in recomb_from_node.word_to_link:
                 continue
             recomb_link = recomb_from_node.word_to_link[word]
+            recomb_node = recomb_link.end_node
+            recomb_orig_node, _, recomb_lm_logprob, _ = \
+                _follow_word_from_node(recomb_orig_node, word)
+
+            orig_from_node = follow_original(token.history[:-1])
+            orig_node, ac_logprob, lm_logprob, transitions = \
+                _follow_word_from_node(orig_from_node, word)
+            lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
+            if orig_node is not recomb_orig_node:
+                # The tokens were recombined after following null links from
+                # different nodes, so other paths may leave from the node that
+                # was kept. If the null links end the paths, add the path of the
+                # dropped token with its own scores.
+                if recomb_node in final_nn_lm_logprobs and \
+                   _follow_null_links(orig_node) is not None:
+                    node, _ = follow_word_ids(token.history)
+                    if node not in final_nn_lm_logprobs:
+                        add_final_link(
+                            node, orig_node,
+                            final_nn_lm_logprobs[recomb_node] + lm_logprob_diff)
+                continue
 
             # Add a link from the previous word in the token history to the node
             # that was kept during recombination. The difference in LM log
             # probability can be computed from the token (path) NNLM log
             # probabilities.
-            from_node = follow_word_ids(token.history[:-1])
-            lm_logprob_diff = token.nn_lm_logprob - nn_lm_logprob
-            new_link = self.Link(from_node, recomb_link.end_node, word,
-                                 recomb_link.ac_logprob,
-                                 recomb_link.lm_logprob + lm_logprob_diff,
-                                 recomb_link.transitions)
+            from_node, _ = follow_word_ids(token.history[:-1])
+            lm_logprob_diff += recomb_link.lm_logprob - recomb_lm_logprob
+            new_link = self.Link(from_node, recomb_node, word,
+                                 ac_logprob,
+                                 lm_logprob + lm_logprob_diff,
+                                 transitions)
             from_node.out_links.append(new_link)
             # Tokens never contain null words, so we can be sure that
             # word_to_link maps in our new lattice never skip nodes.
@@ -237,8 +341,9 @@ class RescoredLattice(Lattice):
         :param create: if set to ``False``, won't create any nodes but raises a
             ``NodeNotFoundError`` if the path doesn't exist
 
-        :rtype: Lattice.Node
-        :returns: the last node of the path
+        :rtype: tuple of two Lattice.Nodes
+        :returns: the last node of the path in this lattice and in the original
+                  lattice
         """
 
         node = self.initial_node
@@ -271,4 +376,4 @@ class RescoredLattice(Lattice):
             node = link.end_node
             orig_node = orig_end_node
 
-        return node
+        return node, orig_node
-- 
2.43.0


From a4e10b2a78e4fc5d046421406048494d4743aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:46 +0000
Subject: [PATCH 17/41] fix: decode without GPU support

Logging the available GPU memory raised AttributeError when Theano is not using
a GPU, so every theanolm decode run failed on a CPU.
---
 theanolm/backend/gpu.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/theanolm/backend/gpu.py b/theanolm/backend/gpu.py
index 7cd0728..7381883 100644
--- a/theanolm/backend/gpu.py
+++ b/theanolm/backend/gpu.py
@@ -77,7 +77,13 @@ def log_free_mem():
     """Writes the available GPU memory to the debug log.
     """
 
-    for name in theano.gpuarray.type.list_contexts():
+    try:
+        names = theano.gpuarray.type.list_contexts()
+    except AttributeError:
+        # No GPU support or we couldn't list the contexts because an old version
+        # of libgpuarray is installed.
+        return
+    for name in names:
         context = theano.gpuarray.type.get_context(name)
         free_mbytes = context.free_gmem / (1024 * 1024)
         logging.debug("Available memory on GPU %s: %.0f MB", name, free_mbytes)
-- 
2.43.0


From 39bfb9ae2af4fa723ca31bdf704a6611b367a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:56 +0000
Subject: [PATCH 18/41] fix: use the given statistic for combining validation
 samples

Trainer.set_validation() stored the function in a different attribute than the
one that is used, so the median was always used.
---
 theanolm/training/trainer.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 68c7252..9646922 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -115,8 +115,6 @@ class Trainer(object):
         self._total_updates = 0
         # validation set cost history
         self._cost_history = None
-        # function for averaging cross-validation measurements
-        self._statistics_function = None
         # duration of the last mini-batch update
         self._update_duration = None
 
@@ -135,8 +133,8 @@ class Trainer(object):
         :param samples_per_validation: number of perplexity samples to compute
                                        per cross-validation
 
-        :type statistic_function: Python function
-        :param statistic_function: a function to be performed on a list of
+        :type statistics_function: Python function
+        :param statistics_function: a function to be performed on a list of
            consecutive perplexity measurements to compute the validation cost
            (median by default)
         """
@@ -148,7 +146,7 @@ class Trainer(object):
             self._samples_per_validation = samples_per_validation
 
         if statistics_function is not None:
-            self._statistics_function = statistics_function
+            self._statistic_function = statistics_function
 
     def set_logging(self, log_interval):
         """Sets logging parameters.
-- 
2.43.0


From a9e0216ce733f98cc52cfac1011cf5e104e68a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:13 +0000
Subject: [PATCH 19/41] fix: save the position of the next epoch when there is
 no validation data

The model was saved with the number of the finished epoch, although the training
iterator is already at the beginning of the next one. When training was resumed,
the epoch was performed again and counted as a part of the same epoch.
---
 theanolm/training/trainer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 9646922..d8e456c 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -228,9 +228,6 @@ class Trainer(object):
                 if not self._stopper.start_new_minibatch():
                     break
 
-            if self._validation_iter is None:
-                self._set_candidate_state()
-
             epoch_duration = time() - epoch_start_time
             epoch_minutes = epoch_duration / 60
             epoch_time_h, epoch_time_m = divmod(epoch_minutes, 60)
@@ -245,6 +242,11 @@ class Trainer(object):
             self.epoch_number += 1
             self.update_number = 0
 
+            # The training iterator is already at the beginning of the next
+            # epoch.
+            if self._validation_iter is None:
+                self._set_candidate_state()
+
         duration = time() - start_time
         minutes = duration / 60
         time_h, time_m = divmod(minutes, 60)
-- 
2.43.0


From 021f5fa173afcf25beff4f60cfc6cfb1a0180c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:29 +0000
Subject: [PATCH 20/41] fix: overwrite scalar parameters when saving state

Saving the state of the Adam optimizer for the second time, which happens after
the second epoch if there is no validation data, failed because the time step is
a scalar.
---
 theanolm/backend/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/backend/parameters.py b/theanolm/backend/parameters.py
index c824bf1..4d67836 100644
--- a/theanolm/backend/parameters.py
+++ b/theanolm/backend/parameters.py
@@ -86,7 +86,7 @@ class Parameters:
 
         for path, param in self._vars.items():
             if path in state:
-                state[path][:] = param.get_value()
+                state[path][...] = param.get_value()
             else:
                 state.create_dataset(path, data=param.get_value())
 
-- 
2.43.0


From 83eb54d0f5a6d513dd3466a2bb71793c3ec3da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:53 +0000
Subject: [PATCH 21/41] fix: make the model file readable before the first
 model is saved

When training was interrupted before the first model had been saved, the model
file contained only a part of the HDF5 header and training could not be started
again.
---
 theanolm/commands/train.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index cf9b10c..603def5 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -353,7 +353,11 @@ def train(args):
     theano.config.profile_memory = args.profile
 
     with h5py.File(args.model_path, 'a', driver='core') as state:
+        # Make sure that the file can be read if training gets interrupted
+        # before the first model is saved.
+        state.flush()
         vocabulary = _read_vocabulary(args, state)
+        state.flush()
 
         if args.num_noise_samples > vocabulary.num_classes():
             print("Number of noise samples ({}) is larger than the number of "
-- 
2.43.0


From 04858364fd845ba66a69541603f6e0bdb3c249bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:20 +0000
Subject: [PATCH 22/41] fix: cost of a mini-batch that contains no words to
 predict

---
 theanolm/training/cost.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index 1e02cc9..e09df2d 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -84,7 +84,8 @@ class Cost(object, metaclass=ABCMeta):
         # float64 and pulled out from the GPU earlier than necessary.
         logprobs = self._get_logprobs() * tensor.cast(mask, theano.config.floatX)
         num_words = mask.sum()
-        cost = -logprobs.sum() / num_words
+        # There may be no words to predict, if all the words are excluded.
+        cost = -logprobs.sum() / tensor.maximum(num_words, 1)
 
         model_params = self._network.get_variables().values()
         l1_weight = self._l1_regularization
-- 
2.43.0


From 15699531d6472531291bf8e42e906203e2129214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:20 +0000
Subject: [PATCH 23/41] fix: make the weights of training files have an effect

---
 theanolm/training/basicoptimizer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/theanolm/training/basicoptimizer.py b/theanolm/training/basicoptimizer.py
index 6f1af45..d1a2cd7 100644
--- a/theanolm/training/basicoptimizer.py
+++ b/theanolm/training/basicoptimizer.py
@@ -109,10 +109,9 @@ class BasicOptimizer(object, metaclass=ABCMeta):
                                 dtype=theano.config.floatX)
         weights.tag.test_value = test_value(size=(100, 16), high=1.0)
         word_positions = tensor.eq(self.network.mask, 1).nonzero()
-        weight = weights[word_positions].sum()
-        num_words_float = tensor.cast(num_words, theano.config.floatX)
+        weight = weights[word_positions].mean()
         modified_alpha = tensor.switch(tensor.gt(num_words, 0),
-                                       alpha * weight / num_words_float,
+                                       alpha * weight,
                                        alpha)
 
         # Ignore unused input, because is_training is only used by dropout
@@ -128,7 +127,7 @@ class BasicOptimizer(object, metaclass=ABCMeta):
                     (self.network.is_training, numpy.int8(1)),
                     (self.network.num_noise_samples,
                      numpy.int64(num_noise_samples))],
-            updates=self._get_param_updates(alpha),
+            updates=self._get_param_updates(modified_alpha),
             name='update_function',
             on_unused_input='ignore',
             profile=profile)
-- 
2.43.0


From 81a0783eb306f4088712efc2685fcb23dc4bf477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:56 +0000
Subject: [PATCH 24/41] fix: update the mean squared gradient in RMSProp with
 Nesterov momentum

---
 theanolm/training/rmspropnesterovoptimizer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/theanolm/training/rmspropnesterovoptimizer.py b/theanolm/training/rmspropnesterovoptimizer.py
index 16c3b14..bae5f0c 100644
--- a/theanolm/training/rmspropnesterovoptimizer.py
+++ b/theanolm/training/rmspropnesterovoptimizer.py
@@ -91,7 +91,6 @@ class RMSPropNesterovOptimizer(BasicOptimizer):
             deltas[path] = -gradient / rms_gradient
         self._normalize(deltas)
 
-        result = []
         for path, param_old in self.network.get_variables().items():
             delta = deltas[path]
             velocity_old = self._params[path + '_velocity']
-- 
2.43.0


From 11ed9a180d0e4bdd4f4f83adffd11556f20679d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:37 +0000
Subject: [PATCH 25/41] fix: evaluate moves from and to word classes that do
 not occur (numpy)

---
 wordclasses/numpybigramoptimizer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/wordclasses/numpybigramoptimizer.py b/wordclasses/numpybigramoptimizer.py
index ea58de4..929c4ae 100644
--- a/wordclasses/numpybigramoptimizer.py
+++ b/wordclasses/numpybigramoptimizer.py
@@ -100,14 +100,12 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class
         old_count = self._class_counts[old_class_id]
         new_count = old_count - self._word_counts[word_id]
-        result = 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = self._class_counts[new_class_id]
         new_count = old_count + self._word_counts[word_id]
-        result += 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = numpy.arange(self.num_classes)
-- 
2.43.0


From 52bd2e4f1a0af24b3422d8de9299462a8a7d578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:37 +0000
Subject: [PATCH 26/41] fix: evaluate moves that change a zero count (Theano)

---
 wordclasses/theanobigramoptimizer.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/wordclasses/theanobigramoptimizer.py b/wordclasses/theanobigramoptimizer.py
index 1854cc1..4d742e0 100644
--- a/wordclasses/theanobigramoptimizer.py
+++ b/wordclasses/theanobigramoptimizer.py
@@ -120,14 +120,12 @@ class TheanoBigramOptimizer(BigramOptimizer):
         # old class
         old_count = old_class_count
         new_count = old_count - word_count
-        result = 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = new_class_count
         new_count = old_count + word_count
-        result += 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = tensor.arange(self.num_classes)
@@ -304,23 +302,18 @@ class TheanoBigramOptimizer(BigramOptimizer):
             result,
             name='class_size')
 
-    @staticmethod
-    def _ll_change(old_count, new_count):
+    @classmethod
+    def _ll_change(cls, old_count, new_count):
         """A helper function that computes the log likelihood change when a
         count changes.
         """
 
-        result = 0
-        if old_count != 0:
-            result -= old_count * tensor.log(old_count)
-        if new_count != 0:
-            result += new_count * tensor.log(new_count)
-        return result
+        return cls._xlogx(new_count) - cls._xlogx(old_count)
 
     @staticmethod
     def _xlogx(x):
-        """A helper function that computes ``x * log(x)``, where ``x`` is a
-        vector that may contain zeros.
+        """A helper function that computes ``x * log(x)``, where ``x`` may be
+        or contain zero.
         """
 
         return tensor.switch(tensor.neq(x, 0), tensor.log(x), 0) * x
-- 
2.43.0


From 4106964ff9155a2e172c890fa33f30ba4fb055a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:15 +0000
Subject: [PATCH 27/41] fix: evaluate moves when a class has no neighbours in
 other classes (numpy)

---
 wordclasses/numpybigramoptimizer.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/wordclasses/numpybigramoptimizer.py b/wordclasses/numpybigramoptimizer.py
index 929c4ae..58e564a 100644
--- a/wordclasses/numpybigramoptimizer.py
+++ b/wordclasses/numpybigramoptimizer.py
@@ -115,26 +115,26 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class, class X
         old_counts = self._cc_counts[old_class_id,iter_class_ids]
         new_counts = old_counts - self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # new class, class X
         old_counts = self._cc_counts[new_class_id,iter_class_ids]
         new_counts = old_counts + self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, old class
         old_counts = self._cc_counts[iter_class_ids,old_class_id]
         new_counts = old_counts - self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, new class
         old_counts = self._cc_counts[iter_class_ids,new_class_id]
         new_counts = old_counts + self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # old class, new class
         old_count = self._cc_counts[old_class_id,new_class_id]
@@ -170,6 +170,14 @@ class NumpyBigramOptimizer(BigramOptimizer):
 
         return result
 
+    @staticmethod
+    def _xlogx(x):
+        """A helper function that computes ``x * log(x)``, where ``x`` is a
+        vector that may contain zeros (or contain nothing else).
+        """
+
+        return numpy.ma.log(x).filled(0) * x
+
     def _ll_change(self, old_count, new_count):
         result = 0
         if old_count != 0:
-- 
2.43.0


From b593be741fef17fcc900b139a36877c7c502fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:49 +0000
Subject: [PATCH 28/41] fix: read word classes that did not occur in the data

---
 theanolm/vocabulary/wordclass.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/theanolm/vocabulary/wordclass.py b/theanolm/vocabulary/wordclass.py
index fcb69af..8a3ac45 100644
--- a/theanolm/vocabulary/wordclass.py
+++ b/theanolm/vocabulary/wordclass.py
@@ -76,11 +76,17 @@ class WordClass(object):
 
     def normalize_probs(self):
         """Normalizes the class membership probabilities to sum to one.
+
+        If all the probabilities are zero (the words of the class did not occur
+        in the data), sets them to be equal.
         """
 
         prob_sum = sum(self._probs.values())
         for word_id in self._probs:
-            self._probs[word_id] /= prob_sum
+            if prob_sum > 0:
+                self._probs[word_id] /= prob_sum
+            else:
+                self._probs[word_id] = 1.0 / len(self._probs)
 
     def sample(self):
         """Samples a word from the membership probability distribution.
-- 
2.43.0


From 6084bea53e280f21de677102fa61639f631103c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:49 +0000
Subject: [PATCH 29/41] fix: report scores when every word is excluded

---
 theanolm/commands/score.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/commands/score.py b/theanolm/commands/score.py
index 00da3f2..04e9a48 100644
--- a/theanolm/commands/score.py
+++ b/theanolm/commands/score.py
@@ -215,8 +215,10 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                 output_file.write("# Sentence {0}\n".format(num_sentences))
                 _write_word_scores(vocabulary, merged_words, merged_logprobs,
                                    output_file, log_scale)
-                output_file.write("Sentence perplexity: {0}\n\n".format(
-                    numpy.exp(-seq_logprob / num_seq_probs)))
+                if num_seq_probs > 0:
+                    output_file.write("Sentence perplexity: {0}\n".format(
+                        numpy.exp(-seq_logprob / num_seq_probs)))
+                output_file.write("\n")
 
     output_file.write("Number of sentences: {0}\n".format(num_sentences))
     output_file.write("Number of words: {0}\n".format(num_words))
@@ -227,7 +229,7 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                       .format(num_unks))
     output_file.write("Number of zero probabilities: {0}\n"
                       .format(num_zeroprobs))
-    if num_words > 0:
+    if num_probs > 0:
         cross_entropy = -total_logprob / num_probs
         perplexity = numpy.exp(cross_entropy)
         output_file.write("Cross entropy (base e): {0}\n".format(cross_entropy))
-- 
2.43.0


From 3645d7f85ce946fa33921ffed434b58a7889d409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:21 +0000
Subject: [PATCH 30/41] fix: BlackOut cost of classes that have no prior
 probability

---
 theanolm/training/cost.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index e09df2d..aa4d082 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -235,7 +235,10 @@ class BlackoutCost(Cost):
         # If a single value is retured, it will be broadcasted to the mini-batch
         # shape.
         target_prior_probs = noise_distribution.probs(target_class_ids)
-        target_weighted_probs = target_probs / target_prior_probs
+        # A class that does not occur in the training data has zero prior
+        # probability.
+        target_weighted_probs = target_probs / \
+                                (target_prior_probs + self._epsilon)
 
         sample, sample_logprobs = self._network.noise_sample()
         # sample_prior_probs will be a one-dimensional array (or a scalar in
@@ -243,7 +246,8 @@ class BlackoutCost(Cost):
         # sample_logprobs.
         sample_probs = tensor.exp(sample_logprobs)
         sample_prior_probs = noise_distribution.probs(sample)
-        sample_weighted_probs = sample_probs / sample_prior_probs
+        sample_weighted_probs = sample_probs / \
+                                (sample_prior_probs + self._epsilon)
 
         denominators = target_weighted_probs + \
                        sample_weighted_probs.sum(2)
-- 
2.43.0


From 914e6cb3740226893ef48b655c5c10d4fc76c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:33 +0000
Subject: [PATCH 31/41] fix: accept seed words outside the shortlist or
 vocabulary when sampling

---
 theanolm/textsampler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/theanolm/textsampler.py b/theanolm/textsampler.py
index c92c0c7..47b26a1 100644
--- a/theanolm/textsampler.py
+++ b/theanolm/textsampler.py
@@ -93,7 +93,10 @@ class TextSampler(object):
             step_result = self.step_function(input_word_ids,
                                              input_class_ids,
                                              *state.get())
-            token_id = self._vocabulary.word_to_id[token]
+            token_id = self._vocabulary.words_to_ids([token])[0]
+            result[time_step] = token_id
+            if not self._vocabulary.in_shortlist(token_id):
+                token_id = self._vocabulary.word_to_id['<unk>']
             token_class_id = \
                 self._vocabulary.word_id_to_class_id[token_id]
             input_word_ids = token_id * \
@@ -102,8 +105,6 @@ class TextSampler(object):
             input_class_ids = token_class_id * \
                               numpy.ones(shape=(1,
                                 num_sequences)).astype('int64')
-            step_word_ids = input_word_ids
-            result[time_step] = step_word_ids
             state.set(step_result[1:])
         
         #Then sample:
-- 
2.43.0


From d09caad8bf670ce0771e1369af7deac8c8444784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:28 +0000
Subject: [PATCH 32/41] fix: unsupported activation functions raised NameError

---
 theanolm/network/basiclayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/network/basiclayer.py b/theanolm/network/basiclayer.py
index 0ebabcb..460010c 100644
--- a/theanolm/network/basiclayer.py
+++ b/theanolm/network/basiclayer.py
@@ -8,7 +8,7 @@ import logging
 
 import theano.tensor as tensor
 
-from theanolm.backend import Parameters, conv1d
+from theanolm.backend import InputError, Parameters, conv1d
 from theanolm.network.weightfunctions import random_matrix, matrix_from_value
 
 class BasicLayer(object, metaclass=ABCMeta):
-- 
2.43.0


From a36b2a44ae39aa86abc7805ac599946bea0a3c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:35 +0000
Subject: [PATCH 33/41] fix: record the word insertion penalty of a rescored
 lattice in natural logarithms

---
 theanolm/commands/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index dd46afd..05af7ce 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -248,7 +248,7 @@ def decode(args):
                                                recomb_tokens,
                                                network.vocabulary)
             rescored_lattice.lm_scale = args.lm_scale
-            rescored_lattice.wi_penalty = args.wi_penalty
+            rescored_lattice.wi_penalty = wi_penalty
             if args.output == "slf":
                 rescored_lattice.write_slf(args.output_file)
             else:
-- 
2.43.0


From 2df759807d9a5f8ac86fdd3c32f04546d67f24ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:40 +0000
Subject: [PATCH 34/41] fix: train command failed to read compressed training
 and validation files

---
 theanolm/commands/train.py                 |  7 ++----
 theanolm/parsing/__init__.py               |  2 +-
 theanolm/parsing/functions.py              | 27 ++++++++++++++++++++++
 theanolm/parsing/shufflingbatchiterator.py |  7 ++----
 4 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index 603def5..377d1e9 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -4,7 +4,6 @@
 """
 
 import sys
-import mmap
 import logging
 
 import h5py
@@ -13,7 +12,7 @@ import theano
 
 from theanolm import Vocabulary, Architecture, Network
 from theanolm.backend import TextFileType, get_default_device
-from theanolm.parsing import LinearBatchIterator
+from theanolm.parsing import LinearBatchIterator, map_to_memory
 from theanolm.training import Trainer, create_optimizer, CrossEntropyCost, \
                               NCECost, BlackoutCost
 from theanolm.scoring import TextScorer
@@ -459,9 +458,7 @@ def train(args):
                                 exclude_unk=args.exclude_unk,
                                 profile=args.profile)
             logging.info("Validation text: %s", args.validation_file.name)
-            validation_mmap = mmap.mmap(args.validation_file.fileno(),
-                                        0,
-                                        prot=mmap.PROT_READ)
+            validation_mmap = map_to_memory(args.validation_file)
             validation_iter = \
                 LinearBatchIterator(validation_mmap,
                                     vocabulary,
diff --git a/theanolm/parsing/__init__.py b/theanolm/parsing/__init__.py
index a7769c7..ddee8f0 100644
--- a/theanolm/parsing/__init__.py
+++ b/theanolm/parsing/__init__.py
@@ -6,4 +6,4 @@
 from theanolm.parsing.linearbatchiterator import LinearBatchIterator
 from theanolm.parsing.shufflingbatchiterator import ShufflingBatchIterator
 from theanolm.parsing.scoringbatchiterator import ScoringBatchIterator
-from theanolm.parsing.functions import utterance_from_line
+from theanolm.parsing.functions import utterance_from_line, map_to_memory
diff --git a/theanolm/parsing/functions.py b/theanolm/parsing/functions.py
index 6d00336..759fd83 100644
--- a/theanolm/parsing/functions.py
+++ b/theanolm/parsing/functions.py
@@ -3,6 +3,9 @@
 """Functions related to reading text.
 """
 
+import gzip
+import mmap
+
 def utterance_from_line(line):
     """Converts a line of text, read from an input file, into a list of words.
 
@@ -33,6 +36,30 @@ def utterance_from_line(line):
 
     return result
 
+def map_to_memory(input_file):
+    """Creates a memory map of a text file.
+
+    A compressed file cannot be mapped as such, so the decompressed text will be
+    loaded in an anonymous memory map.
+
+    :type input_file: file object
+    :param input_file: an input text file, possibly opened by ``gzip.open()``
+
+    :rtype: mmap.mmap
+    :returns: memory-mapped text of the input file
+    """
+
+    if isinstance(getattr(input_file, 'buffer', None), gzip.GzipFile):
+        input_file.seek(0)
+        data = input_file.buffer.read()
+        input_file.seek(0)
+        result = mmap.mmap(-1, len(data))
+        result.write(data)
+        result.seek(0)
+        return result
+
+    return mmap.mmap(input_file.fileno(), 0, prot=mmap.PROT_READ)
+
 def find_sentence_starts(data):
     """Finds the positions inside a memory-mapped file, where the sentences
     (lines) start.
diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 5d553f6..d7f415b 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -5,7 +5,6 @@ sentence order.
 """
 
 import sys
-import mmap
 import logging
 
 import numpy
@@ -13,7 +12,7 @@ from numpy import random
 
 from theanolm.backend import IncompatibleStateError
 from theanolm.parsing.batchiterator import BatchIterator
-from theanolm.parsing.functions import find_sentence_starts
+from theanolm.parsing.functions import find_sentence_starts, map_to_memory
 from theanolm.parsing.functions import utterance_from_line
 
 class SentencePointers(object):
@@ -43,9 +42,7 @@ class SentencePointers(object):
 
         for subset_file in files:
             subset_index = len(self.mmaps)
-            subset_mmap = mmap.mmap(subset_file.fileno(),
-                                    0,
-                                    prot=mmap.PROT_READ)
+            subset_mmap = map_to_memory(subset_file)
             self.mmaps.append(subset_mmap)
 
             logging.debug("Finding sentence start positions in %s.",
-- 
2.43.0


From e078800d736d82f62d1f1a1f2c2de4ca2624882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:29 +0000
Subject: [PATCH 35/41] fix: recurrent layers with one unit could not be built

The initial state is a matrix of one column, which Theano considers
broadcastable, while the output of the time step is not.
---
 theanolm/network/grulayer.py  | 2 ++
 theanolm/network/lstmlayer.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/theanolm/network/grulayer.py b/theanolm/network/grulayer.py
index 61d3320..d701800 100644
--- a/theanolm/network/grulayer.py
+++ b/theanolm/network/grulayer.py
@@ -92,6 +92,8 @@ class GRULayer(BasicLayer):
             non_sequences = [hidden_state_weights]
             initial_hidden_state = tensor.zeros(
                 (num_sequences, self.output_size), dtype=theano.config.floatX)
+            initial_hidden_state = tensor.unbroadcast(
+                initial_hidden_state, 1)
 
             hidden_state_output, _ = theano.scan(
                 self._create_time_step,
diff --git a/theanolm/network/lstmlayer.py b/theanolm/network/lstmlayer.py
index 73c3016..57fdb94 100644
--- a/theanolm/network/lstmlayer.py
+++ b/theanolm/network/lstmlayer.py
@@ -97,8 +97,12 @@ class LSTMLayer(BasicLayer):
             non_sequences = [hidden_state_weights]
             initial_cell_state = tensor.zeros(
                 (num_sequences, self.output_size), dtype=theano.config.floatX)
+            initial_cell_state = tensor.unbroadcast(
+                initial_cell_state, 1)
             initial_hidden_state = tensor.zeros(
                 (num_sequences, self.output_size), dtype=theano.config.floatX)
+            initial_hidden_state = tensor.unbroadcast(
+                initial_hidden_state, 1)
 
             state_outputs, _ = theano.scan(
                 self._create_time_step,
-- 
2.43.0


From f0c44c1bea57f426d29098e5c631786f2119ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:15 +0000
Subject: [PATCH 36/41] fix: backward layer of a bidirectional layer read
 padding

The prediction of a word and the training cost depended on the padding
word and on whether the mini-batch contained a longer sequence.
---
 theanolm/network/grulayer.py  | 8 ++++++--
 theanolm/network/lstmlayer.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/theanolm/network/grulayer.py b/theanolm/network/grulayer.py
index d701800..d4bef58 100644
--- a/theanolm/network/grulayer.py
+++ b/theanolm/network/grulayer.py
@@ -76,11 +76,15 @@ class GRULayer(BasicLayer):
         if self._reverse_time:
             # Shift the input left by two time steps in the backward layer of a
             # bidirectional layer. The target word is the next input word, so
-            # otherwise predicting it will be trivial.
+            # otherwise predicting it will be trivial. Beyond the end of the
+            # sequence there is nothing but zeros, also when the sequence is
+            # shorter than others in the mini-batch.
             preact_dim = layer_input_preact.shape[2]
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
-                [layer_input_preact[2:], padding],
+                [tensor.switch(self._network.mask[2:, :, None],
+                               layer_input_preact[2:], 0),
+                 padding],
                 axis=0)
 
         # Weights of the hidden state input of each time step have to be applied
diff --git a/theanolm/network/lstmlayer.py b/theanolm/network/lstmlayer.py
index 57fdb94..73fdbd6 100644
--- a/theanolm/network/lstmlayer.py
+++ b/theanolm/network/lstmlayer.py
@@ -81,11 +81,15 @@ class LSTMLayer(BasicLayer):
         if self._reverse_time:
             # Shift the input left by two time steps in the backward layer of a
             # bidirectional layer. The target word is the next input word, so
-            # otherwise predicting it will be trivial.
+            # otherwise predicting it will be trivial. Beyond the end of the
+            # sequence there is nothing but zeros, also when the sequence is
+            # shorter than others in the mini-batch.
             preact_dim = layer_input_preact.shape[2]
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
-                [layer_input_preact[2:], padding],
+                [tensor.switch(self._network.mask[2:, :, None],
+                               layer_input_preact[2:], 0),
+                 padding],
                 axis=0)
 
         # Weights of the hidden state input of each time step have to be applied
-- 
2.43.0


From 59746eb4670071941c4d15ed1b56949f7f92ed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:13 +0000
Subject: [PATCH 37/41] fix: train --print-graph referred to a function that
 does not exist

---
 theanolm/commands/train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index 377d1e9..3732aab 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -448,7 +448,7 @@ def train(args):
 
         if args.print_graph:
             print("Cost function computation graph:")
-            theano.printing.debugprint(optimizer.gradient_update_function)
+            theano.printing.debugprint(optimizer.update_function.maker.fgraph.outputs)
 
         trainer.initialize(network, state, optimizer)
 
-- 
2.43.0


From 72905aeda12f0dc2fcb2ce86ce57f3c59b368c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:12 +0000
Subject: [PATCH 38/41] fix: wctool failed when the output file was compressed

---
 wordclasses/wctool.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/wordclasses/wctool.py b/wordclasses/wctool.py
index 41aa852..2deb9c9 100644
--- a/wordclasses/wctool.py
+++ b/wordclasses/wctool.py
@@ -3,6 +3,7 @@
 
 import sys
 import argparse
+import gzip
 import logging
 from time import time
 from theanolm.backend import TextFileType
@@ -11,10 +12,24 @@ from theanolm.vocabulary import Vocabulary
 from theanolm.vocabulary import compute_word_counts, BigramStatistics
 from wordclasses.functions import is_scheduled
 
+def is_compressed(output_file):
+    """Tells whether a file is compressed, meaning that what has been written
+    to the file cannot be replaced.
+
+    :type output_file: file object
+    :param output_file: a file or stream opened for writing
+
+    :rtype: bool
+    :returns: ``True`` if the file is compressed
+    """
+
+    return isinstance(getattr(output_file, 'buffer', None), gzip.GzipFile)
+
 def save(optimizer, output_file, output_format):
     """Writes the current classes to a file.
 
-    If the output file is seekable, first rewinds and truncates the file.
+    If the output file is seekable and not compressed, first rewinds and
+    truncates the file.
 
     :type optimizer: BigramOptimizer
     :param optimizer: save the current state of this optimizer
@@ -27,7 +42,7 @@ def save(optimizer, output_file, output_format):
                           output file format
     """
 
-    if output_file.seekable():
+    if output_file.seekable() and not is_compressed(output_file):
         output_file.seek(0)
         output_file.truncate()
 
@@ -146,7 +161,9 @@ def main():
                      num_moves,
                      optimizer.log_likelihood(),
                      duration * 100)
-            if is_scheduled(num_words,
+            # Only the final classes are written to a compressed file.
+            if not is_compressed(args.output_file) and \
+               is_scheduled(num_words,
                             args.output_frequency,
                             vocabulary.num_shortlist_words()):
                 save(optimizer, args.output_file, args.output_format)
-- 
2.43.0


From bf8396301fb0ca32d51718c91030351eef262178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:15 +0000
Subject: [PATCH 39/41] fix: wctool wrote an empty file when given an invalid
 output format

---
 wordclasses/wctool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wordclasses/wctool.py b/wordclasses/wctool.py
index 2deb9c9..5147ba7 100644
--- a/wordclasses/wctool.py
+++ b/wordclasses/wctool.py
@@ -117,6 +117,9 @@ def main():
     else:
         logging.basicConfig(filename=log_file, format=log_format, level=log_level)
 
+    if args.output_format not in ('classes', 'srilm-classes'):
+        raise ValueError("Invalid output format requested: " + args.output_format)
+
     if args.vocabulary is None:
         word_counts = compute_word_counts(args.training_set)
         vocabulary = Vocabulary.from_word_counts(word_counts,
-- 
2.43.0


From a59ecbe854d2eca44b8b1dfb2f83bcef0f151dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:15 +0000
Subject: [PATCH 40/41] fix: a negative number of classes was accepted

---
 theanolm/vocabulary/vocabulary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/vocabulary/vocabulary.py b/theanolm/vocabulary/vocabulary.py
index 6669eee..13f0dd6 100644
--- a/theanolm/vocabulary/vocabulary.py
+++ b/theanolm/vocabulary/vocabulary.py
@@ -250,6 +250,9 @@ class Vocabulary(object):
 
         if num_classes is None:
             num_classes = len(word_counts)
+        elif num_classes < 1:
+            raise ValueError("Invalid number of classes specified ({})."
+                             .format(num_classes))
 
         class_id = 0
         for word, _ in sorted(word_counts.items(),
-- 
2.43.0


From 7965e5f7faeed7b595cf63fa01a024cd31edfe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 41/41] fix: option values that make no sense gave nonsense
 results or training that never ends

---
 theanolm/commands/decode.py | 9 +++++++++
 theanolm/commands/score.py  | 4 ++++
 theanolm/commands/train.py  | 4 ++++
 3 files changed, 17 insertions(+)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index 05af7ce..f4c50f4 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -182,6 +182,15 @@ def decode(args):
     else:
         logging.basicConfig(filename=log_file, format=log_format, level=log_level)
 
+    if (args.log_base is not None) and (args.log_base < 2):
+        print("Invalid logarithm base requested:", args.log_base,
+              file=sys.stderr)
+        sys.exit(1)
+    if args.n_best < 1:
+        print("Invalid number of hypotheses requested:", args.n_best,
+              file=sys.stderr)
+        sys.exit(1)
+
     if args.debug:
         theano.config.compute_test_value = 'warn'
     else:
diff --git a/theanolm/commands/score.py b/theanolm/commands/score.py
index 04e9a48..d98b968 100644
--- a/theanolm/commands/score.py
+++ b/theanolm/commands/score.py
@@ -100,6 +100,10 @@ def score(args):
     else:
         logging.basicConfig(filename=log_file, format=log_format, level=log_level)
 
+    if (args.log_base is not None) and (args.log_base < 2):
+        print("Invalid logarithm base requested:", args.log_base)
+        sys.exit(1)
+
     if args.debug:
         theano.config.compute_test_value = 'warn'
         logging.info("Enabled computing test values for tensor variables.")
diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index 3732aab..51d8896 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -342,6 +342,10 @@ def train(args):
     else:
         logging.basicConfig(filename=log_file, format=log_format, level=log_level)
 
+    if (args.batch_size < 1) or (args.sequence_length < 1):
+        print("Mini-batch size and sequence length have to be positive.")
+        sys.exit(1)
+
     if args.debug:
         theano.config.compute_test_value = 'warn'
         logging.info("Enabled computing test values for tensor variables.")
-- 
2.43.0

