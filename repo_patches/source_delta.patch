From 0e1d89914fcfb7516c55399ab4277d8c7f843545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 01/65] fix: learn the last token of a bigram stream, and
 one-shot streams

The enhanced stream was cut off by zip() before the last unigram, and zipping
a generator with a slice of itself paired the wrong tokens.
---
 sbclassifier/classifiers/basic.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 573988b..f52ddf5 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -41,7 +41,6 @@ of scores, and good cutoff values aren't touchy).
 This implementation is due to Tim Peters et alia.
 
 """
-import itertools
 import math
 
 #: The natural logarithm of two; this is used frequently by a function
@@ -339,15 +338,15 @@ class Classifier:
         removed, too.
 
         """
-        # For the sake of brevity, create an alias.
-        chain = itertools.chain.from_iterable
-        # Create an iterable of bigrams from `wordstream`.
-        bigrams = zip(wordstream, itertools.islice(wordstream, 1, None))
-        # This string interpolation must match the one in _getclues().
-        to_string = lambda x, y: BIGRAM_FORMAT.format(x, y)
-        # This interleaves the individual strings from `wordstream` with the
-        # string representation of the bigrams.
-        return chain(zip(wordstream, (to_string(x, y) for x, y in bigrams)))
+        # The wordstream may be a one-shot iterator (the tokenizer returns
+        # one), so go through it only once.
+        for i, token in enumerate(wordstream):
+            yield token
+            if i:   # not the 1st loop trip, so there is a preceding token
+                # This string interpolation must match the one in
+                # _getclues().
+                yield BIGRAM_FORMAT.format(last_token, token)
+            last_token = token
 
     def probability(self, record):
         """Computes, stores, and returns the probability that a message is spam
-- 
2.43.0


From 7674a7d6683b653db58a96933b8f4e433a950a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 02/65] fix: let an unpickled classifier learn and score

_use_bigrams is not part of the pickled state, so every method of an unpickled
classifier failed with AttributeError.
---
 sbclassifier/classifiers/basic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index f52ddf5..306a0e9 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -176,6 +176,10 @@ class Classifier:
     # allow a subclass to use a different class for WordInfo
     WordInfoClass = WordInfo
 
+    # the default for instances that are unpickled, whose state does not
+    # include it
+    _use_bigrams = USE_BIGRAMS
+
     def __init__(self, use_bigrams=USE_BIGRAMS):
         self._use_bigrams = use_bigrams
         self.wordinfo = {}
-- 
2.43.0


From 816c1020d9d44c91d052cc264da502c7d332da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 03/65] fix: do not compare bytes tokens with bigram strings
 when sorting clues

---
 sbclassifier/classifiers/basic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/basic.py b/sbclassifier/classifiers/basic.py
index 306a0e9..85b9743 100644
--- a/sbclassifier/classifiers/basic.py
+++ b/sbclassifier/classifiers/basic.py
@@ -543,7 +543,12 @@ class Classifier:
                             raw.append((tup, indices))
 
             # Sort raw, strongest to weakest spamprob.
-            raw.sort(reverse=True)
+            #
+            # Tokens may be bytes while bigrams are always strings, and these
+            # do not compare if the probabilities are equal.
+            raw.sort(key=lambda x: (x[0][:2], isinstance(x[0][2], str),
+                                    x[0][2]),
+                     reverse=True)
             # raw.reverse()
             # Fill clues with the strongest non-overlapping clues.
             clues = []
-- 
2.43.0


From 2997f2ba2f5600593a829c7b8404bc811a9b3336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 04/65] fix: only treat a missing pickle as a new database

Any failure to read the file (a lock timeout, a damaged file, an unknown
version) silently gave an empty classifier, which the next store() wrote over
the trained one. Also forget the cached probabilities of the replaced state.
---
 sbclassifier/classifiers/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 2477e6b..609e0c0 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -156,8 +156,9 @@ class PickleClassifier(StoredClassifierBase):
 
         try:
             tempbayes = pickle_read(self.filename)
-        except:
+        except FileNotFoundError:
             # new pickle
+            self._probcache = {}
             logging.debug('%s is a new pickle', self.filename)
             self.wordinfo = {}
             self.nham = 0
-- 
2.43.0


From a127e0b923a666509dd8b66e9ae463b0aa4b1f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 05/65] fix: forget cached probabilities when a shelve is
 reloaded

---
 sbclassifier/classifiers/storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 609e0c0..4952960 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -222,6 +222,7 @@ class ShelveClassifier(StoredClassifierBase):
             self.nspam = 0
             self.nham = 0
         self.wordinfo = {}
+        self._probcache = {}
         self.deleted_words = set()
         self.changed_words = set()
 
-- 
2.43.0


From 59191903bb91e5ed84ca2296d04fc0755fdb9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 06/65] fix: store bytes tokens, and a token named like the
 state key, in a shelve

The tokenizer yields bytes, which shelve cannot use as keys, and a token equal
to the state key overwrote the message totals. Listing the words failed before
the totals had been saved.
---
 sbclassifier/classifiers/storage.py | 37 +++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 4952960..4946829 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -105,6 +105,30 @@ WORD_CHANGED = "C"
 
 STATE_KEY = 'saved state'
 
+
+def word_to_key(word):
+    """Returns the string that represents `word` as a database key.
+
+    Words may be bytes (the tokenizer generates those) or strings. Different
+    words have different keys, and no word has the key :data:`STATE_KEY`.
+
+    """
+    if isinstance(word, bytes):
+        return 'bytes:' + word.decode('latin-1')
+    if word == STATE_KEY or word.startswith(('bytes:', 'str:')):
+        return 'str:' + word
+    return word
+
+
+def key_to_word(key):
+    """Returns the word whose database key is `key`."""
+    if key.startswith('bytes:'):
+        return key[len('bytes:'):].encode('latin-1')
+    if key.startswith('str:'):
+        return key[len('str:'):]
+    return key
+
+
 # # Make shelve use binary pickles by default.
 # oldShelvePickler = shelve.Pickler
 
@@ -236,7 +260,7 @@ class ShelveClassifier(StoredClassifierBase):
         # the naive way.
         for word in self.changed_words:
             val = self.wordinfo[word]
-            self.db[word] = val.__getstate__()
+            self.db[word_to_key(word)] = val.__getstate__()
         for word in self.deleted_words:
             if word in self.wordinfo:
                 msg = ('Should not have a wordinfo for "{}", flagged for'
@@ -244,7 +268,7 @@ class ShelveClassifier(StoredClassifierBase):
                 raise Exception(msg)
             # Word may be deleted before it was ever written.
             try:
-                del self.db[word]
+                del self.db[word_to_key(word)]
             except KeyError:
                 pass
 
@@ -275,7 +299,7 @@ class ShelveClassifier(StoredClassifierBase):
         except KeyError:
             ret = None
             if word not in self.deleted_words:
-                r = self.db.get(word)
+                r = self.db.get(word_to_key(word))
                 if r:
                     ret = self.WordInfoClass()
                     ret.__setstate__(r)
@@ -301,7 +325,7 @@ class ShelveClassifier(StoredClassifierBase):
         # if isinstance(word, unicode):
         #     word = word.encode("utf-8")
         if record.spamcount + record.hamcount <= 1:
-            self.db[word] = record.__getstate__()
+            self.db[word_to_key(word)] = record.__getstate__()
             for wordset in self.changed_words, self.deleted_words:
                 try:
                     wordset.remove(word)
@@ -326,9 +350,8 @@ class ShelveClassifier(StoredClassifierBase):
         self.deleted_words.add(word)
 
     def _wordinfokeys(self):
-        wordinfokeys = list(self.db.keys())
-        del wordinfokeys[wordinfokeys.index(self.statekey)]
-        return wordinfokeys
+        return [key_to_word(key) for key in self.db.keys()
+                if key != self.statekey]
 
 
 # TODO this should be replaced with a SQLAlchemy-backed classifier.
-- 
2.43.0


From afa56bc793d16f565e8761c9de89041850c6d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 07/65] fix: look up CDB keys as bytes and write their real
 lengths

Keys read from the file are bytes and never compared equal to string keys, and
the lengths written for non-ASCII strings were not those of their encodings.
---
 sbclassifier/cdb.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/cdb.py b/sbclassifier/cdb.py
index 0f25cbd..0b7299e 100644
--- a/sbclassifier/cdb.py
+++ b/sbclassifier/cdb.py
@@ -26,11 +26,16 @@ def uint32_pack(n):
 CDB_HASHSTART = 5381
 
 
+def to_bytes(s):
+    """Returns the bytes of `s`, which may be a string or bytes."""
+    return s.encode('utf-8') if isinstance(s, str) else s
+
+
 def cdb_hash(buf):
     h = CDB_HASHSTART
-    for c in buf:
+    for c in to_bytes(buf):
         h = (h + (h << 5)) & 0xffffffff
-        h ^= ord(c)
+        h ^= c
     return h
 
 
@@ -110,6 +115,7 @@ class Cdb(object):
             return 0
 
     def findnext(self, key):
+        key = to_bytes(key)
         if not self.loop:
             u = cdb_hash(key)
             buf = self.read(8, u << 3 & 2047)
@@ -170,10 +176,11 @@ def cdb_make(outfile, items):
     # write keys and data
     outfile.seek(pos)
     for key, value in items:
+        key, value = to_bytes(key), to_bytes(value)
         outfile.write(uint32_pack(len(key)) + uint32_pack(len(value)))
         h = cdb_hash(key)
-        outfile.write(bytes(key, 'utf-8'))
-        outfile.write(bytes(value, 'utf-8'))
+        outfile.write(key)
+        outfile.write(value)
         tables.setdefault(h & 255, []).append((h, pos))
         pos += 8 + len(key) + len(value)
 
-- 
2.43.0


From e498e23b18ab4afffc7c62a20d413997784ab095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 08/65] fix: make CDBClassifier load and store its database

It used a cdb module that was never imported, and on loading it swapped the ham
and spam counts of every word.
---
 sbclassifier/classifiers/storage.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/sbclassifier/classifiers/storage.py b/sbclassifier/classifiers/storage.py
index 4946829..fb283c9 100644
--- a/sbclassifier/classifiers/storage.py
+++ b/sbclassifier/classifiers/storage.py
@@ -54,7 +54,8 @@ import shelve
 from sbclassifier.classifiers.basic import Classifier
 from sbclassifier.classifiers.basic import PICKLE_VERSION
 from sbclassifier.classifiers.basic import WordInfo
-# from sbclassifier import cdb
+from sbclassifier.cdb import Cdb
+from sbclassifier.cdb import cdb_make
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
 
@@ -647,15 +648,21 @@ class CDBClassifier(StoredClassifierBase):
 
     def load(self):
         if os.path.exists(self.filename):
-            data = cdb.read(self.filename)
+            with open(self.filename, 'rb') as f:
+                db = Cdb(f)
+                data = {k.decode('utf-8'): v.decode('utf-8')
+                        for k, v in db.items()}
+                db.close()
             self.nham, self.nspam = [int(i) for i in
                                      data[self.statekey].split(',')]
             # self.wordinfo = {self.uunquote(k): self._WordInfoFactory(v)
             #                  for k, v in data.items()
             #                  if k != self.statekey}
-            from_string = lambda s: WordInfo(*(int(n) for n in s.split(',')))
-            self.wordinfo = {k: from_string(v) for k, v in data.items()
-                             if k != self.statekey}
+            # The counts are stored as "ham,spam".
+            from_string = lambda s: WordInfo(*(int(n) for n in
+                                               reversed(s.split(','))))
+            self.wordinfo = {key_to_word(k): from_string(v)
+                             for k, v in data.items() if k != self.statekey}
             logging.debug('%s is an existing CDB, with %d ham and %d spam',
                           self.filename, self.nham, self.nspam)
         else:
@@ -663,12 +670,15 @@ class CDBClassifier(StoredClassifierBase):
             self.wordinfo = {}
             self.nham = 0
             self.nspam = 0
+        self._probcache = {}
 
     def store(self):
         items = [(self.statekey, "{:d},{:d}".format(self.nham, self.nspam))]
-        items.extend((word, '{:d},{:d}'.format(info.hamcount, info.spamcount))
+        items.extend((word_to_key(word),
+                      '{:d},{:d}'.format(info.hamcount, info.spamcount))
                      for word, info in self.wordinfo.items())
-        cdb.write(self.filename, items)
+        with open(self.filename, 'wb') as f:
+            cdb_make(f, items)
 
 
 # # If ZODB isn't available, then this class won't be useable, but we
-- 
2.43.0


From 3bb85900cf70d5b4fcaeda3722cc2483e2db2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 09/65] fix: replace a pickle atomically

The temporary file was written to the default temporary directory. If that is
on another file system, moving it copies over the target in place, so that an
interruption leaves a truncated pickle.
---
 sbclassifier/safepickle.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/safepickle.py b/sbclassifier/safepickle.py
index 943bc76..7ca28b5 100644
--- a/sbclassifier/safepickle.py
+++ b/sbclassifier/safepickle.py
@@ -5,8 +5,8 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import os
 import pickle
-import shutil
 
 from lockfile import FileLock
 from tempfile import NamedTemporaryFile
@@ -28,7 +28,10 @@ def pickle_write(filename, value, protocol=pickle.HIGHEST_PROTOCOL):
     """Store value as a pickle without creating corruption."""
     with FileLock(filename, timeout=DEFAULT_TIMEOUT):
         # Be as defensive as possible: dump the pickle data to a temporary file
-        # first, then move the data to the requested filename second.
-        with NamedTemporaryFile(delete=False) as fp:
+        # first, then move the data to the requested filename second. The
+        # temporary file must be in the same directory: moving it from another
+        # file system would write the target bit by bit.
+        directory = os.path.dirname(os.path.abspath(filename))
+        with NamedTemporaryFile(dir=directory, delete=False) as fp:
             pickle.dump(value, fp, protocol)
-        shutil.move(fp.name, filename)
+        os.replace(fp.name, filename)
-- 
2.43.0


From 7cf151e57a4568e8e4efaef2831d47fda8aa1f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 10/65] fix: use the given cache of a corpus even if it is
 empty

An empty cache is false, so a FileCorpus on an empty directory silently kept
its messages in memory only.
---
 sbclassifier/corpora/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/base.py b/sbclassifier/corpora/base.py
index 1b9c2ab..db6495f 100644
--- a/sbclassifier/corpora/base.py
+++ b/sbclassifier/corpora/base.py
@@ -137,7 +137,9 @@ class Corpus:
     """
 
     def __init__(self, cache=None):
-        self.message_cache = cache or NaiveCache(max_size=INFINITY)
+        if cache is None:
+            cache = NaiveCache(max_size=INFINITY)
+        self.message_cache = cache
         # dict of all messages in corpus; value is None if msg not currently
         # loaded
         #self.msgs = {}
-- 
2.43.0


From c3a69a071ce962c9fd94610abfca0fd9071333ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 11/65] fix: count a key once in the cache when its value is
 replaced

The duplicate in _keys made the cache evict entries, even the one just stored,
before it was full.
---
 sbclassifier/corpora/caches.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 7cf8953..41b83ba 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -87,9 +87,10 @@ class NaiveCache(Cache):
 
     def put(self, key, value):
         logging.debug('Caching %s', key)
-        self.data[key] = value
         # Here is where we manage the in-memory cache size...
-        self._keys.append(key)
+        if key not in self.data:
+            self._keys.append(key)
+        self.data[key] = value
         # Optimization: only keep the `self.max_size` entries put into the
         # cache most recently.
         if len(self._keys) > self.max_size:
-- 
2.43.0


From 27178cf790201c9092785cb50b0bca5a271e6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 12/65] fix: do not delete message files when the memory cache
 is full

Evicting an entry of a FileCache went through pop(), which also deletes the
file, so a corpus lost messages beyond cache_size.
---
 sbclassifier/corpora/caches.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 41b83ba..e4043b7 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -95,12 +95,16 @@ class NaiveCache(Cache):
         # cache most recently.
         if len(self._keys) > self.max_size:
             key_to_flush = self._keys[0]
-            self.pop(key_to_flush)
+            self.flush(key_to_flush)
 
     def get(self, key, default=None):
         return self.data.get(key, default)
 
     def pop(self, key):
+        return self.flush(key)
+
+    def flush(self, key):
+        """Removes the entry for `key` from memory and returns its value."""
         logging.debug('Flushing %s from cache', key)
         try:
             ki = self._keys.index(key)
-- 
2.43.0


From 7aaa694b3a4f69f7e27fc0853dad445120147894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 13/65] fix: keep the length of a file cache up to date

The files were counted once, when the cache was created.
---
 sbclassifier/corpora/caches.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index e4043b7..f5605cc 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -125,9 +125,6 @@ class FileCache(NaiveCache):
         self.directory = directory
         # Only allow messages whose IDs match the specified filter.
         self.namefilter = namefilter
-        # Maintain a counter of the number of messages currently stored in the
-        # directory. Scan the directory for existing message files.
-        self.num_files = len(list(iter(self)))
 
     def _is_message(self, filename):
         return (os.path.isfile(os.path.join(self.directory, filename))
@@ -137,7 +134,8 @@ class FileCache(NaiveCache):
         return from_path(os.path.join(self.directory, filename), *args, **kw)
 
     def __len__(self):
-        return self.num_files
+        # Scan the directory for message files.
+        return len(list(iter(self)))
 
     def __iter__(self):
         return self.keys()
-- 
2.43.0


From e0908f7b74da57e2555da757fec4a57538f92c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 14/65] fix: give a message read from a file cache its id

Without it, a message obtained from the corpus could not be removed.
---
 sbclassifier/corpora/caches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index f5605cc..1e70bf8 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -144,7 +144,7 @@ class FileCache(NaiveCache):
         if key in self.data:
             return self.data[key]
         if key in os.listdir(self.directory) and self._is_message(key):
-            return self._message_from_path(key)
+            return self._message_from_path(key, message_id=key)
         raise KeyError('{} not in cache or directory'.format(key))
 
     def keys(self):
-- 
2.43.0


From 98505435d34cb22b00269e75a8009d552d947ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 15/65] fix: give the caches the items() method that
 Corpus.items() calls

---
 sbclassifier/corpora/caches.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sbclassifier/corpora/caches.py b/sbclassifier/corpora/caches.py
index 1e70bf8..bea32e8 100644
--- a/sbclassifier/corpora/caches.py
+++ b/sbclassifier/corpora/caches.py
@@ -85,6 +85,9 @@ class NaiveCache(Cache):
     def values(self):
         return self.data.values()
 
+    def items(self):
+        return self.data.items()
+
     def put(self, key, value):
         logging.debug('Caching %s', key)
         # Here is where we manage the in-memory cache size...
@@ -154,6 +157,10 @@ class FileCache(NaiveCache):
         # Need to recreate each message object from the files.
         return (self._message_from_path(f, message_id=f) for f in self.keys())
 
+    def items(self):
+        return ((f, self._message_from_path(f, message_id=f))
+                for f in self.keys())
+
     def put(self, key, value):
         if not fnmatch.fnmatch(key, self.namefilter):
             msg = 'Message {} does not match filter {}'.format(key,
-- 
2.43.0


From 9edf7f532f3423bb716548919eeb68505cd801fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 16/65] fix: set the directory that FileCorpus.__repr__ shows

---
 sbclassifier/corpora/filesystem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 06104a3..15a4674 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -63,6 +63,7 @@ class FileCorpus(Corpus):
     def __init__(self, directory, namefilter='*', cache_size=256):
         cache = FileCache(directory, namefilter, max_size=cache_size)
         super().__init__(cache=cache)
+        self.directory = directory
 
     def __repr__(self):
         nummsgs = len(self)
-- 
2.43.0


From 5377a1aa56671cc8c94d033748f119cc95c54e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 17/65] fix: make remove_expired_messages work with the current
 corpus API

It called a method and passed a keyword argument that no longer exist.
---
 sbclassifier/corpora/filesystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/corpora/filesystem.py b/sbclassifier/corpora/filesystem.py
index 15a4674..d5758a1 100644
--- a/sbclassifier/corpora/filesystem.py
+++ b/sbclassifier/corpora/filesystem.py
@@ -96,11 +96,11 @@ class ExpiryFileCorpus(FileCorpus):
         # during the loop.
         for key in list(self.keys()):
             msg = self[key]
-            timestamp = msg.createTimestamp()
+            timestamp = os.path.getctime(os.path.join(self.directory, key))
             end_time = timestamp + self.expireBefore
             if end_time < time.time():
                 logging.debug('message %s has expired', msg.id())
-                self.remove_message(msg, do_training=False)
+                self.remove_message(msg, emit_signal=False)
             elif end_time < self.expiry_due:
                 self.expiry_due = end_time
 
-- 
2.43.0


From 4b29dbdec53d44702a50cd79b122dd88378ec204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 18/65] fix: untrain, not train, a message that is removed from
 a corpus

---
 sbclassifier/trainers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index 80c3871..e1a752a 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -48,7 +48,7 @@ class Trainer(object):
         self.is_spam = is_spam
         for corpus in corpora:
             message_added.connect(self.train, sender=corpus)
-            message_removed.connect(self.train, sender=corpus)
+            message_removed.connect(self.untrain, sender=corpus)
 
     def train(self, sender, message):
         """Train the database with the specified message.
-- 
2.43.0


From c712331e8d8e118ab8f0cf202f18c52106f73cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 19/65] fix: use Message.id() in the trainers, as there is no
 Message.key()

---
 sbclassifier/trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/trainers.py b/sbclassifier/trainers.py
index e1a752a..26ce860 100644
--- a/sbclassifier/trainers.py
+++ b/sbclassifier/trainers.py
@@ -58,7 +58,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('training with %s', message.key())
+        logging.debug('training with %s', message.id())
         self.classifier.learn(tokenize(message), self.is_spam)
         message.remember_trained(self.is_spam)
 
@@ -71,7 +71,7 @@ class Trainer(object):
         `message` is an instance of :class:`Message`.
 
         """
-        logging.debug('untraining with %s', message.key())
+        logging.debug('untraining with %s', message.id())
         self.classifier.unlearn(tokenize(message), self.is_spam)
         # can raise ValueError if database is fouled.  If this is the case,
         # then retraining is the only recovery option.
-- 
2.43.0


From 34da58679ddb710e82132be823dffe630760da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 20/65] fix: pass the notation flags of remove_sb_headers in
 the right order

---
 sbclassifier/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 3e3c9d4..0395468 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -558,7 +558,9 @@ class Message(_Message):
             del self[name]
         # Also delete notations - typically this is called just before
         # training, and we don't want them there for that.
-        self.remove_notations(remove_to_notations, remove_subject_notations)
+        self.remove_notations(
+            remove_subject_notations=remove_subject_notations,
+            remove_to_notations=remove_to_notations)
 
 
 # Utility function to insert an exception header into the given RFC822 text.
-- 
2.43.0


From 24bc197f8ad1d47397f82b444404881f0b49e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 21/65] fix: add and remove notations in headers with 8-bit
 characters

Removing them failed, because such a header is returned as a Header object, and
adding them replaced the 8-bit characters.
---
 sbclassifier/message.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 0395468..3e3423d 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -456,6 +456,19 @@ class Message(_Message):
 
         self.add_notations(notate_to or (), notate_subject or ())
 
+    def _raw_header(self, name):
+        """Returns the first header with the specified name as it was parsed,
+        or ``None``.
+
+        Indexing the message gives a :class:`Header` object with replacement
+        characters if the header contains 8-bit characters.
+
+        """
+        for key, value in self.raw_items():
+            if key.lower() == name.lower():
+                return value if value is None else str(value)
+        return None
+
     def add_notations(self, notate_to, notate_subject):
         """Add the appropriate string to the subject: and/or to: header.
 
@@ -480,7 +493,8 @@ class Message(_Message):
             # to an invalid address, and add that.
             address = "{}@spambayes.invalid".format(self.c.name)
             try:
-                self.replace_header("To", "{},{}".format(address, self["To"]))
+                self.replace_header("To", "{},{}".format(
+                    address, self._raw_header("To")))
             except KeyError:
                 self["To"] = address
 
@@ -488,8 +502,8 @@ class Message(_Message):
         #     notate_subject = (notate_subject,)
         if self.c in notate_subject:
             try:
-                self.replace_header("Subject", "%s,%s" % (self.c.name,
-                                                          self["Subject"]))
+                self.replace_header("Subject", "%s,%s" % (
+                    self.c.name, self._raw_header("Subject")))
             except KeyError:
                 self["Subject"] = self.c.name
 
@@ -507,7 +521,7 @@ class Message(_Message):
         See also [ 848365 ] Remove subject annotations from message review
                             page
         """
-        subject = self["Subject"]
+        subject = self._raw_header("Subject")
         if subject:
             ham = Classification.ham.name + ','
             spam = Classification.spam.name + ','
@@ -518,7 +532,7 @@ class Message(_Message):
                         self.replace_header("Subject", subject[len(disp):])
                         # Only remove one, maximum.
                         break
-        to = self["To"]
+        to = self._raw_header("To")
         if to:
             ham = "%s@spambayes.invalid," % (Classification.ham.name,)
             spam = "%s@spambayes.invalid," % (Classification.spam.name,)
-- 
2.43.0


From f27e68915eed82ef689432ea2689c3579c1876f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 22/65] fix: indent every line of an exception header

A lone carriage return in the text of the exception started a new header.
---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 3e3423d..06f3255 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -592,7 +592,7 @@ def insert_exception_header(string_msg, msg_id=None):
 
     # Build the header.  This will strip leading whitespace from
     # the lines, so we add a leading space to maintain indentation.
-    detailLines = details.strip().split('\n')
+    detailLines = CRLF_RE.split(details.strip())
     spacedDetails = '\n '.join(detailLines)
     headerName = 'X-Spambayes-Exception'
     header = Header(spacedDetails, header_name=headerName)
-- 
2.43.0


From f58fc54e363b6a83d03e779e6f0945a83e46b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 23/65] fix: insert the exception header of a bodyless message
 in its headers

If the last header line was terminated, a blank line was inserted before the
exception header, which made it the body.
---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 06f3255..0cb6fbe 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -604,7 +604,7 @@ def insert_exception_header(string_msg, msg_id=None):
         headers, body = re.split(r'\n\r?\n', string_msg, 1)
     except ValueError:
         # No body - this is a bad message!
-        headers = string_msg
+        headers = re.sub(r'\n\Z', '', string_msg)
         body = ""
     header = re.sub(r'\r?\n', '\r\n', str(header))
     headers += "\n%s: %s\r\n" % (headerName, header)
-- 
2.43.0


From aaf92a4e98a4244fee16d2b3757e292a688ed4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 24/65] fix: do not add an id header without an id

Its value of None made the message impossible to serialise.
---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 0cb6fbe..155124f 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -451,7 +451,7 @@ class Message(_Message):
                         lineLength = 8
             self[headerName] = "".join(wrappedEvd)
 
-        if add_unique_id:
+        if add_unique_id and self.messageid is not None:
             self[MAILID_HEADER_NAME] = self.messageid
 
         self.add_notations(notate_to or (), notate_subject or ())
-- 
2.43.0


From 0e149f8e289178a64e2cf06a4ed0683778b6d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 25/65] fix: ignore an id header with 8-bit characters

It is not returned as a string, which set_id() rejects with TypeError.
---
 sbclassifier/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/message.py b/sbclassifier/message.py
index 155124f..64ec315 100644
--- a/sbclassifier/message.py
+++ b/sbclassifier/message.py
@@ -337,7 +337,7 @@ class Message(_Message):
     def set_id_from_payload(self):
         try:
             self.set_id(self[MAILID_HEADER_NAME])
-        except ValueError:
+        except (TypeError, ValueError):
             return None
         return self.messageid
 
-- 
2.43.0


From 82629165ff9b477e7b273706ee8527ccb40afadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 26/65] fix: crack the file names of attachments and uuencoded
 sections

The bytes patterns never applied to the file name strings of attachments, which
all became filename:<bogus>, and a uuencoded section stopped the tokenizer with
a TypeError.
---
 sbclassifier/strippers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index c746c89..e65d2b8 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -95,16 +95,19 @@ def log2(n, log=math.log, c=math.log(2)):
 
 
 def crack_filename(fname):
-    yield "fname:" + fname
+    # File names in headers are strings, and those in text are bytes.
+    if isinstance(fname, str):
+        fname = fname.encode('utf-8', 'surrogatepass')
+    yield b"fname:" + fname
     components = fname_sep_re.split(fname)
     morethan1 = len(components) > 1
     for component in components:
         if morethan1:
-            yield "fname comp:" + component
+            yield b"fname comp:" + component
         pieces = urlsep_re.split(component)
         if len(pieces) > 1:
             for piece in pieces:
-                yield "fname piece:" + piece
+                yield b"fname piece:" + piece
 
 
 def crack_content_xyz(msg):
@@ -132,7 +135,7 @@ def crack_content_xyz(msg):
         fname = msg.get_filename()
         if fname is not None:
             for x in crack_filename(fname):
-                yield 'filename:' + x
+                yield b'filename:' + x
     except TypeError:
         # bug in email pkg?  see the thread beginning at
         # http://mail.python.org/pipermail/spambayes/2003-September/008006.html
@@ -215,8 +218,8 @@ class UUencodeStripper(Stripper):
 
     def tokenize(self, m):
         mode, fname = m.groups()
-        return (['uuencode mode:%s' % mode] +
-                ['uuencode:%s' % x for x in crack_filename(fname)])
+        return ([b'uuencode mode:' + mode] +
+                [b'uuencode:' + x for x in crack_filename(fname)])
 
 
 class URLStripper(Stripper):
-- 
2.43.0


From c26ea6523e4a34554963a70bdaf35114f2002d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 27/65] fix: tokenize headers with 8-bit characters

The email package returns such headers as Header objects, which have no string
methods.
---
 sbclassifier/strippers.py |  3 ++-
 sbclassifier/tokenizer.py | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index e65d2b8..57a3b21 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -129,7 +129,8 @@ def crack_content_xyz(msg):
 
     x = msg.get('content-disposition')
     if x is not None:
-        yield 'content-disposition:' + x.lower()
+        # This is a Header object if it contains 8-bit characters.
+        yield 'content-disposition:' + str(x).lower()
 
     try:
         fname = msg.get_filename()
diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 3260f78..7c8b105 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1172,7 +1172,7 @@ class Tokenizer:
                         break   # do nothing -- we're supposed to skip this
                 else:
                     # Never found a match -- don't skip this.
-                    for w in subject_word_re.findall(v):
+                    for w in subject_word_re.findall(str(v)):
                         for t in tokenize_word(w):
                             yield "%s:%s" % (k, t)
             if basic_header_tokenize_only:
@@ -1348,7 +1348,7 @@ class Tokenizer:
         for field in ('to', 'cc'):
             count = 0
             for addrs in msg.get_all(field, []):
-                count += len(addrs.split(','))
+                count += len(str(addrs).split(','))
             if count > 0:
                 yield '%s:2**%d' % (field, round(log2(count)))
 
@@ -1358,7 +1358,7 @@ class Tokenizer:
         #            rate isn't affected.
         for field in ('x-mailer',):
             prefix = field + ':'
-            x = msg.get(field, 'none').lower()
+            x = str(msg.get(field, 'none')).lower()
             yield prefix + ' '.join(x.split())
 
         # Received:
@@ -1368,7 +1368,7 @@ class Tokenizer:
                 # everything here should be case insensitive and not be
                 # split across continuation lines, so normalize whitespace
                 # and letter case just once per header
-                header = ' '.join(header.split()).lower()
+                header = ' '.join(str(header).split()).lower()
 
                 for clue in received_complaints_re.findall(header):
                     yield 'received:' + clue
@@ -1389,7 +1389,7 @@ class Tokenizer:
 
         # Message-Id:  This seems to be a small win and should not
         # adversely affect a mixed source corpus so it's always enabled.
-        msgid = msg.get("message-id", "")
+        msgid = str(msg.get("message-id", ""))
         m = message_id_re.match(msgid)
         if m:
             # looks okay, return the hostname
-- 
2.43.0


From de8c98b95a06065bd4b01a1f0e662eed400d539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 28/65] fix: tokenize subjects and names with encoded words

Their parts are bytes, which the string patterns and methods do not accept.
---
 sbclassifier/tokenizer.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 7c8b105..0459816 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -784,6 +784,21 @@ def convert_to_bytes(f):
     return converted_f
 
 
+def decode_header(value):
+    """Returns a list of pairs of strings: the parts of the specified header
+    and their character sets (``None`` for parts that are not encoded).
+
+    Each byte of an encoded part stands for the character with its number.
+
+    """
+    try:
+        parts = email.header.decode_header(value)
+    except (binascii.Error, email.errors.HeaderParseError, ValueError):
+        parts = [(str(value), 'invalid')]
+    return [(x.decode('latin-1') if isinstance(x, bytes) else x, charset)
+            for x, charset in parts]
+
+
 # textparts(msg) returns a set containing all the text components of msg.
 # There's no point decoding binary blobs (like images).  If a text/plain
 # and text/html part happen to have redundant content, it doesn't matter
@@ -1219,12 +1234,7 @@ class Tokenizer:
         # Don't ignore case in Subject lines; e.g., 'free' versus 'FREE' is
         # especially significant in this context.  Experiment showed a small
         # but real benefit to keeping case intact in this specific context.
-        x = msg.get('subject', '')
-        try:
-            subjcharsetlist = email.header.decode_header(x)
-        except (binascii.Error, email.errors.HeaderParseError, ValueError):
-            subjcharsetlist = [(x, 'invalid')]
-        for x, subjcharset in subjcharsetlist:
+        for x, subjcharset in decode_header(msg.get('subject', '')):
             if subjcharset is not None:
                 yield 'subjectcharset:' + subjcharset
             # this is a workaround for a bug in the csv module in Python
@@ -1255,12 +1265,7 @@ class Tokenizer:
             noname_count = 0
             for name, addr in email.utils.getaddresses(addrlist):
                 if name:
-                    try:
-                        subjcharsetlist = email.header.decode_header(name)
-                    except (binascii.Error, email.errors.HeaderParseError,
-                            ValueError):
-                        subjcharsetlist = [(name, 'invalid')]
-                    for name, charset in subjcharsetlist:
+                    for name, charset in decode_header(name):
                         yield "%s:name:%s" % (field, name.lower())
                         if charset is not None:
                             yield "%s:charset:%s" % (field, charset)
-- 
2.43.0


From 429ef58748c98259d7428441e294e8a944057d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 29/65] fix: tokenize long words in bodies and headers

The mixture of string and bytes operations failed for every long word of a
header, and for long words of a body with a dot or with 8-bit characters.
---
 sbclassifier/tokenizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 0459816..d803e54 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -823,7 +823,7 @@ def imageparts(msg):
     return [part for part in msg.walk()
             if part.get_content_type().startswith('image/')]
 
-has_highbit_char = re.compile(rb"[\x80-\xff]").search
+has_highbit_char = re.compile(r"[^\x00-\x7f]").search
 
 # Cheap-ass gimmick to probabilistically find HTML/XML tags.
 # Note that <style and HTML comments are handled by crack_html_style()
@@ -876,6 +876,12 @@ punctuation_run_re = re.compile(r'\W+')
 
 
 def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
+    # Words of the body are bytes, and words of headers are strings.
+    if isinstance(word, bytes):
+        for token in tokenize_word(word.decode('latin-1'), _len, maxword):
+            yield token.encode('latin-1')
+        return
+
     n = _len(word)
     # Make sure this range matches in tokenize().
     if 3 <= n <= maxword:
@@ -887,7 +893,7 @@ def tokenize_word(word, _len=len, maxword=SKIP_MAX_WORD_SIZE):
         # Don't want to skip embedded email addresses.
         # An earlier scheme also split up the y in x@y on '.'.  Not splitting
         # improved the f-n rate; the f-p rate didn't care either way.
-        if n < 40 and b'.' in word and word.count('@') == 1:
+        if n < 40 and '.' in word and word.count('@') == 1:
             p1, p2 = word.split('@')
             yield 'email name:' + p1
             yield 'email addr:' + p2
-- 
2.43.0


From 349ecab4051bf57ef17a794d2cf26d859cdebcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 30/65] fix: replace entities and HTML tags by bytes

Body text is bytes, so each numeric entity, breaking entity and HTML tag stopped
the tokenizer with a TypeError.
---
 sbclassifier/tokenizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index d803e54..f4b982c 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1113,9 +1113,9 @@ numeric_entity_re = re.compile(rb'&#(\d+);')
 
 def numeric_entity_replacer(m):
     try:
-        return chr(int(m.group(1)))
+        return bytes([int(m.group(1))])
     except:
-        return '?'
+        return b'?'
 
 
 breaking_entity_re = re.compile(rb"""
@@ -1556,7 +1556,7 @@ class Tokenizer:
 
             # Remove HTML/XML tags.  Also &nbsp;.  <br> and <p> tags should
             # create a space too.
-            text = breaking_entity_re.sub(' ', text)
+            text = breaking_entity_re.sub(b' ', text)
             # It's important to eliminate HTML tags rather than, e.g.,
             # replace them with a blank (as this code used to do), else
             # simple tricks like
@@ -1564,7 +1564,7 @@ class Tokenizer:
             # can be used to disguise words.  <br> and <p> were special-
             # cased just above (because browsers break text on those,
             # they can't be used to hide words effectively).
-            text = html_re.sub('', text)
+            text = html_re.sub(b'', text)
 
             for t in self.tokenize_text(text):
                 yield t
-- 
2.43.0


From 7fba36b7cc54aa06c28ac9d063e1627221db544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 31/65] fix: do not put the Python notation of bytes into virus
 tokens

---
 sbclassifier/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index f4b982c..6bbfc45 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1541,7 +1541,7 @@ class Tokenizer:
                 text = text.translate(non_ascii_translate_tab)
 
             for t in find_html_virus_clues(text):
-                yield "virus:%s" % t
+                yield b"virus:" + t
 
             # Get rid of uuencoded sections, embedded URLs, <style gimmicks,
             # and HTML comments.
-- 
2.43.0


From 19088d079c0d0635fa4da0f144c912de3540bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 32/65] fix: lose the trailing punctuation of URLs

---
 sbclassifier/strippers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 57a3b21..8614785 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -303,7 +303,7 @@ class URLStripper(Stripper):
         #     The code is at http://mystuff.org/here?  Didn't resolve.
         # or
         #     I found it at http://mystuff.org/there/.  Thanks!
-        guts.rstrip(b'.:?!/')
+        guts = guts.rstrip(b'.:?!/')
         for piece in guts.split(b'/'):
             for chunk in urlsep_re.split(piece):
                 pushclue(b"url:" + chunk)
-- 
2.43.0


From ea7ad26d16a0e593f6f871cee51126ad1277927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 33/65] fix: convert tokens with surrogate characters to bytes

---
 sbclassifier/tokenizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 6bbfc45..b74f755 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -780,7 +780,9 @@ def convert_to_bytes(f):
     """
     def converted_f(*args, **kw):
         for x in f(*args, **kw):
-            yield x if isinstance(x, bytes) else bytes(x, 'utf-8')
+            # Text of undecodable bytes contains surrogates.
+            yield (x if isinstance(x, bytes)
+                   else bytes(x, 'utf-8', 'surrogatepass'))
     return converted_f
 
 
-- 
2.43.0


From f236eaee94287ef8fbe6e40482265e4b68e17702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 34/65] fix: respect the header options of Tokenizer.__call__

---
 sbclassifier/tokenizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index b74f755..efca298 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1152,8 +1152,10 @@ class Tokenizer:
                  basic_header_tokenize_only=BASIC_HEADER_TOKENIZE_ONLY):
         if isinstance(message, str):
             message = email.message_from_string(message)
-        return itertools.chain(self.tokenize_headers(message),
-                               self.tokenize_body(message))
+        return itertools.chain(
+            self.tokenize_headers(message, basic_header_tokenize,
+                                  basic_header_tokenize_only),
+            self.tokenize_body(message))
 
     def tokenize_headers(self, msg,
                          basic_header_tokenize=BASIC_HEADER_TOKENIZE,
-- 
2.43.0


From a32661bf8181b7e754e0ece7bc3e67b3a9020398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 35/65] fix: skip the headers listed in BASIC_HEADER_SKIP

The list was a single pattern that no header name matches.
---
 sbclassifier/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index efca298..a770293 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -46,7 +46,7 @@ BASIC_HEADER_TOKENIZE_ONLY = False
 
 #: If basic_header_tokenize is true, then basic_header_skip is a set of headers
 #: that should be skipped.
-BASIC_HEADER_SKIP = ("received date x-.*",)
+BASIC_HEADER_SKIP = ("received", "date", "x-.*")
 
 #: If true, the first few characters of application/octet-stream sections are
 #: used, undecoded.  What 'few' means is decided by octet_prefix_size.
-- 
2.43.0


From a60b116e3f664cbe7193fb4c99f21d03ef97e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 36/65] fix: return bytes from try_to_repair_damaged_base64

The decoded part is bytes and cannot be added to the rest, which is a string.
---
 sbclassifier/tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index a770293..b19cf3f 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1046,7 +1046,7 @@ def try_to_repair_damaged_base64(text):
         if m.group(1):
             # This line has a trailing '=' -- the base64 part is done.
             break
-    base64text = ''
+    base64text = b''
     if i:
         base64 = text[:i]
         try:
@@ -1054,7 +1054,7 @@ def try_to_repair_damaged_base64(text):
         except:
             # There's no point in tokenizing raw base64 gibberish.
             pass
-    return base64text + text[i:]
+    return base64text + text[i:].encode('utf-8', 'surrogateescape')
 
 
 def breakdown_host(host):
-- 
2.43.0


From 272aa47231c34dd31b9be1faef750949bcd10740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 37/65] fix: respect the prefix lengths passed to subnets()

---
 sbclassifier/iputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/iputils.py b/sbclassifier/iputils.py
index 7a16984..bb7b639 100644
--- a/sbclassifier/iputils.py
+++ b/sbclassifier/iputils.py
@@ -28,4 +28,4 @@ def subnets(address, prefix_lengths=None):
     #     net = lambda n: ip_network((address, n), strict=False)
     #
     net = lambda n: ip_network('{}/{}'.format(address, n), strict=False)
-    return (net(num_bits) for num_bits in (8, 16, 24, 32))
+    return (net(num_bits) for num_bits in prefix_lengths)
-- 
2.43.0


From 10d77ad21887c2a4db8acc7b1f3545d7ebb51861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 38/65] fix: return nothing for names and addresses that do not
 resolve

A resolver error for a name, which may come from a message, was not handled.
---
 sbclassifier/dnsutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/dnsutils.py b/sbclassifier/dnsutils.py
index 38b050e..aa6cb15 100644
--- a/sbclassifier/dnsutils.py
+++ b/sbclassifier/dnsutils.py
@@ -42,11 +42,14 @@ class memoize(dict):
 def reverse_dns_lookup(address):
     try:
         return (socket.gethostbyaddr(address)[0], )
-    except socket.herror:
+    except (socket.herror, socket.gaierror, UnicodeError):
         return ()
 
 
 #@memoize
 @timed
 def dns_lookup(name):
-    return set(x[-1][0] for x in socket.getaddrinfo(name, 80))
+    try:
+        return set(x[-1][0] for x in socket.getaddrinfo(name, 80))
+    except (socket.gaierror, UnicodeError):
+        return ()
-- 
2.43.0


From 8dea99656d2aeca0097769d009f2113509d67d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 39/65] fix: mine every NNTP-Posting-Host header

Only the first one was used, and without any the tokenizer tried to iterate
over None.
---
 sbclassifier/tokenizer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index b19cf3f..3156c5d 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1591,11 +1591,14 @@ def mine_nntp(msg):
         # Determine if the address is an IP address or a host name.
         try:
             address = ipaddress.ip_address(address)
-            # If we have reached this point, then we have an IP address.
-            return clues_from_ipaddress(address)
         except ValueError:
             # If we have reached this point, then we have a domain name.
-            return clues_from_domainname(address)
+            clues = clues_from_domainname(str(address))
+        else:
+            # If we have reached this point, then we have an IP address.
+            clues = clues_from_ipaddress(address)
+        for clue in clues:
+            yield clue
 
 
 def top_two(name):
-- 
2.43.0


From 958e7c30b215073a4e395fdb043cc54a2087feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 40/65] fix: look up NNTP posting hosts with the current DNS
 functions

---
 sbclassifier/tokenizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 3156c5d..1b45d23 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1615,7 +1615,7 @@ def top_two(name):
 
 def clues_from_ipaddress(address):
     ip_clues = gen_dotted_quad_clues('nntp-host', address)
-    names = reverse_dns_lookup(address)
+    names = reverse_dns_lookup(str(address))
     host_clues = []
     if names:
         host_clues = ['nntp-host-ip:has-reverse',
@@ -1632,9 +1632,9 @@ def clues_from_domainname(name):
     if addresses:
         # For the sake of brevity, rename this function.
         chain = itertools.chain.from_iterable
-        ip_clues = chain(gen_dotted_quad_clues('nntp-host-ip', address)
-                         for address in addresses)
-        if reverse_dns_lookup(addresses[0], qType='PTR') == name:
+        ip_clues = list(chain(gen_dotted_quad_clues('nntp-host-ip', address)
+                              for address in addresses))
+        if any(name in reverse_dns_lookup(address) for address in addresses):
             ip_clues.append('nntp-host-ip:has-reverse')
     return itertools.chain(host_clues, ip_clues)
 
-- 
2.43.0


From 8ae7d1f0ad754159d1a60125843927e8dfa8a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 41/65] fix: pass one iterable to all() so that
 SlurpingClassifier can score

---
 sbclassifier/classifiers/slurping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 1b6f60e..8ac0bc7 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -171,8 +171,8 @@ class SlurpingClassifier(Classifier):
 
         # If necessary, enhance it with the tokens from whatever is
         # at the URL's destination.
-        needs_to_slurp = all(len(clues) < MAX_DISCRIMINATORS, is_unsure(prob),
-                             slurp_wordstream)
+        needs_to_slurp = all((len(clues) < MAX_DISCRIMINATORS,
+                              is_unsure(prob), slurp_wordstream))
         if needs_to_slurp:
             slurp_tokens = list(self._generate_slurp())
             slurp_tokens.extend([w for (w, _p) in clues])
-- 
2.43.0


From 1b1a9c281f4608a526d706ec9cf0b0d3e1c42d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 42/65] fix: use the current corpus API in SlurpingClassifier

---
 sbclassifier/classifiers/slurping.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 8ac0bc7..bcffc0a 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -19,6 +19,7 @@ from sbclassifier.classifiers.basic import MAX_DISCRIMINATORS
 from sbclassifier.classifiers.constants import HAM_CUTOFF
 from sbclassifier.classifiers.constants import SPAM_CUTOFF
 from sbclassifier.corpora.filesystem import ExpiryFileCorpus
+from sbclassifier.message import from_string as make_message
 #from sbclassifier.corpora.filesystem import FileMessageFactory
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
@@ -221,9 +222,9 @@ class SlurpingClassifier(Classifier):
             logging.debug("Creating URL cache directory")
             os.makedirs(dir)
 
-        self.urlCorpus = ExpiryFileCorpus(age, dir, cacheSize=20)
+        self.urlCorpus = ExpiryFileCorpus(age, dir, cache_size=20)
         # Kill any old information in the cache
-        self.urlCorpus.removeExpiredMessages()
+        self.urlCorpus.remove_expired_messages()
 
         # Setup caches for unretrievable urls
         self.bad_url_cache_name = os.path.join(dir, "bad_urls.pck")
@@ -346,9 +347,8 @@ class SlurpingClassifier(Classifier):
 
             # Retrieving the same messages over and over again will tire
             # us out, so we store them in our own wee cache.
-            message = self.urlCorpus.makeMessage(url_key,
-                                                 fake_message_string)
-            self.urlCorpus.addMessage(message)
+            message = make_message(fake_message_string, message_id=url_key)
+            self.urlCorpus.add_message(message)
         else:
             fake_message_string = cached_message.as_string()
 
-- 
2.43.0


From d35dd52b04dbf4ac85cddf2a785ad379c49f4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 43/65] fix: remove the stray self parameter of base_url()

---
 sbclassifier/classifiers/slurping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index bcffc0a..5bab995 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -111,7 +111,7 @@ def is_unsure(probability):
     return HAM_CUTOFF < probability < SPAM_CUTOFF
 
 
-def base_url(self, url):
+def base_url(url):
     # To try and speed things up, and to avoid following
     # unique URLS, we convert the URL to as basic a form
     # as we can - so http://www.massey.ac.nz/~tameyer/index.html?you=me
-- 
2.43.0


From 9df2e9f80eab593ba24fefd3cd9c635ab1e9fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 44/65] fix: tokenize an RFC 2231 encoded type parameter

---
 sbclassifier/strippers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 8614785..53619c4 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -115,6 +115,9 @@ def crack_content_xyz(msg):
 
     x = msg.get_param('type')
     if x is not None:
+        if isinstance(x, tuple):
+            # An RFC 2231 encoded (charset, language, value) parameter.
+            x = x[2]
         yield 'content-type/type:' + x.lower()
 
     try:
-- 
2.43.0


From 1b07af70baefed29d6dd1994047178b686bac839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 45/65] fix: tokenize charset parameters that cannot be decoded

---
 sbclassifier/strippers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 53619c4..8911b09 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -124,7 +124,7 @@ def crack_content_xyz(msg):
         for x in msg.get_charsets(None):
             if x is not None:
                 yield 'charset:' + x.lower()
-    except UnicodeEncodeError:
+    except ValueError:
         # Bad messages can cause an exception here.
         # See [ 1175439 ] UnicodeEncodeError raised for bogus Content-Type
         #                 header
-- 
2.43.0


From 92ebaf0cf0debfeb9a039803ae29625c969f6c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 46/65] fix: tokenize file names that cannot be decoded

---
 sbclassifier/strippers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 8911b09..c1991e3 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -140,7 +140,7 @@ def crack_content_xyz(msg):
         if fname is not None:
             for x in crack_filename(fname):
                 yield b'filename:' + x
-    except TypeError:
+    except (TypeError, ValueError):
         # bug in email pkg?  see the thread beginning at
         # http://mail.python.org/pipermail/spambayes/2003-September/008006.html
         # and
-- 
2.43.0


From 58f1916eebf93fd24302e74d3e9c486ae13c28cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 47/65] fix: tokenize content types whose parameters cannot be
 decoded

---
 sbclassifier/strippers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index c1991e3..ee48320 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -113,7 +113,11 @@ def crack_filename(fname):
 def crack_content_xyz(msg):
     yield 'content-type:' + msg.get_content_type()
 
-    x = msg.get_param('type')
+    try:
+        x = msg.get_param('type')
+    except (TypeError, ValueError):
+        # The parameters cannot be decoded.
+        x = None
     if x is not None:
         if isinstance(x, tuple):
             # An RFC 2231 encoded (charset, language, value) parameter.
@@ -124,7 +128,7 @@ def crack_content_xyz(msg):
         for x in msg.get_charsets(None):
             if x is not None:
                 yield 'charset:' + x.lower()
-    except ValueError:
+    except (TypeError, ValueError):
         # Bad messages can cause an exception here.
         # See [ 1175439 ] UnicodeEncodeError raised for bogus Content-Type
         #                 header
-- 
2.43.0


From 0eb6d0c68686e65fd1db7457e456472a0110edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 48/65] fix: octet clues are the bytes of the part, not their
 representation

---
 sbclassifier/tokenizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 1b45d23..7f8e5e9 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1486,7 +1486,9 @@ class Tokenizer:
                     yield "control: octet payload is None"
                     continue
 
-                yield "octet:%s" % text[:OCTET_PREFIX_SIZE]
+                if isinstance(text, str):
+                    text = text.encode('utf-8', 'surrogateescape')
+                yield b"octet:" + text[:OCTET_PREFIX_SIZE]
 
         parts = imageparts(msg)
         if IMAGE_SIZE:
-- 
2.43.0


From 8ee2b5b5ac57288c314c541fb8b6f3fc6979492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 49/65] fix: replace non-ASCII characters in texts, which are
 bytes

---
 sbclassifier/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index 7f8e5e9..a85b388 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1012,7 +1012,8 @@ for ch in ' \t\r\n':
     non_ascii_translate_tab[ord(ch)] = ch
 del i, ch
 
-non_ascii_translate_tab = ''.join(non_ascii_translate_tab)
+# (The text to translate is bytes.)
+non_ascii_translate_tab = ''.join(non_ascii_translate_tab).encode('ascii')
 
 # The base64 decoder is actually very forgiving, but flubs one case:
 # if no padding is required (no trailing '='), it continues to read
-- 
2.43.0


From d72fde906b96cd37400016bb02797484c77479f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 50/65] fix: record the absence of safe headers, as documented

---
 sbclassifier/tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index a85b388..bf05d61 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1434,8 +1434,9 @@ class Tokenizer:
         for x in list(x2n.items()):
             yield "header:%s:%d" % x
         if RECORD_HEADER_ABSENCE:
-            for k in x2n:
-                if not k.lower() in SAFE_HEADERS:
+            present = set([x.lower() for x in msg.keys()])
+            for k in SAFE_HEADERS:
+                if k not in present:
                     yield "noheader:" + k
 
     def tokenize_text(self, text, maxword=SKIP_MAX_WORD_SIZE):
-- 
2.43.0


From 19a887bfe49fb3baf0b2d0514472a27c1a2e0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 51/65] fix: count a run of short words at the end of a text

---
 sbclassifier/tokenizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sbclassifier/tokenizer.py b/sbclassifier/tokenizer.py
index bf05d61..c8ed063 100644
--- a/sbclassifier/tokenizer.py
+++ b/sbclassifier/tokenizer.py
@@ -1463,6 +1463,9 @@ class Tokenizer:
                 elif n >= 3:
                     for t in tokenize_word(w):
                         yield t
+        if short_count:
+            # The text ends in short words.
+            short_runs.add(short_count)
         if short_runs and X_SHORT_RUNS:
             yield "short:%d" % int(log2(max(short_runs)))
 
-- 
2.43.0


From 1e759874b2a33d10c4664dda94317198ec1605af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:49 +0000
Subject: [PATCH 52/65] fix: recognize URLs without a protocol in texts, which
 are bytes

---
 sbclassifier/strippers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index ee48320..12fd42a 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -243,12 +243,12 @@ class URLStripper(Stripper):
         proto, guts = m.groups()
         assert guts
         if proto is None:
-            if guts.lower().startswith("www"):
-                proto = "http"
-            elif guts.lower().startswith("ftp"):
-                proto = "ftp"
+            if guts.lower().startswith(b"www"):
+                proto = b"http"
+            elif guts.lower().startswith(b"ftp"):
+                proto = b"ftp"
             else:
-                proto = "unknown"
+                proto = b"unknown"
         tokens = [b"proto:" + proto]
         pushclue = tokens.append
 
-- 
2.43.0


From b96cdb42eed0dfbbb384041a27f06d37749ebe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 53/65] fix: pick apart URLs of texts, which are bytes

---
 sbclassifier/strippers.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/sbclassifier/strippers.py b/sbclassifier/strippers.py
index 12fd42a..be32e75 100644
--- a/sbclassifier/strippers.py
+++ b/sbclassifier/strippers.py
@@ -7,7 +7,7 @@
 # Software Foundation License; for more information, see LICENSE.txt.
 import math
 import re
-import urllib
+import urllib.parse
 
 # Tell SpamBayes where to cache IP address lookup information.
 # Only comes into play if lookup_ip is enabled. The default
@@ -253,30 +253,35 @@ class URLStripper(Stripper):
         pushclue = tokens.append
 
         if X_PICK_APART_URLS:
-            url = proto + "://" + guts
+            url = proto + b"://" + guts
 
-            escapes = re.findall(r'%..', guts)
+            escapes = re.findall(rb'%..', guts)
             # roughly how many %nn escapes are there?
             if escapes:
-                pushclue("url:%%%d" % int(log2(len(escapes))))
+                pushclue(b"url:%%%d" % int(log2(len(escapes))))
             # %nn escapes are usually intentional obfuscation.  Generate a
             # lot of correlated tokens if the URL contains a lot of them.
             # The classifier will learn which specific ones are and aren't
             # spammy.
-            tokens.extend(["url:" + escape for escape in escapes])
+            tokens.extend([b"url:" + escape for escape in escapes])
 
             # now remove any obfuscation and probe around a bit
-            url = urllib.parse.unquote(url)
-            scheme, netloc, path, params, query, frag = \
-                urllib.parse.urlparse(url)
+            url = urllib.parse.unquote(url.decode('latin-1'), 'latin-1')
+            try:
+                scheme, netloc, path, params, query, frag = \
+                    urllib.parse.urlparse(url)
+            except ValueError:
+                # There is no valid host.
+                scheme, netloc = proto.decode('latin-1'), ''
 
             if X_LOOKUP_IP:
                 ips = cache.lookup(netloc)
                 if not ips:
-                    pushclue("url-ip:lookup error")
+                    pushclue(b"url-ip:lookup error")
                 else:
-                    for clue in gen_dotted_quad_clues("url-ip", ips):
-                        pushclue(clue)
+                    for ip in ips:
+                        for clue in gen_dotted_quad_clues("url-ip", ip):
+                            pushclue(clue.encode('ascii'))
 
             # one common technique in bogus "please (re-)authorize yourself"
             # scams is to make it appear as if you're visiting a valid
@@ -291,20 +296,20 @@ class URLStripper(Stripper):
             # another website.
             user_pwd, host_port = urllib.parse.splituser(netloc)
             if user_pwd is not None:
-                pushclue("url:has user")
+                pushclue(b"url:has user")
 
             host, port = urllib.parse.splitport(host_port)
             # web servers listening on non-standard ports are suspicious ...
             if port is not None and (scheme == "http" and port != '80' or
                                      scheme == "https" and port != '443'):
-                    pushclue("url:non-standard %s port" % scheme)
+                    pushclue(b"url:non-standard %s port" % proto)
 
             # ... as are web servers associated with raw ip addresses
-            if re.match("(\d+\.?){4,4}$", host) is not None:
-                pushclue("url:ip addr")
+            if re.match(r"(\d+\.?){4,4}$", host) is not None:
+                pushclue(b"url:ip addr")
 
             # make sure we later tokenize the unobfuscated url bits
-            proto, guts = url.split("://", 1)
+            guts = url.split("://", 1)[1].encode('latin-1')
 
         # Lose the trailing punctuation for casual embedding, like:
         #     The code is at http://mystuff.org/here?  Didn't resolve.
-- 
2.43.0


From 2b72d5a0eab86685dd611bdfdd2a442a7d819653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 54/65] fix: let SlurpingURLStripper hand its URL to the
 classifier

---
 sbclassifier/classifiers/slurping.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 5bab995..c965d88 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -137,6 +137,7 @@ class SlurpingURLStripper(URLStripper):
         # If there are no URLS, then we need to clear the
         # wordstream, or whatever was there from the last message
         # will be used.
+        global slurp_wordstream
         slurp_wordstream = None
         # Continue as normal.
         return URLStripper.analyze(self, text)
@@ -149,14 +150,14 @@ class SlurpingURLStripper(URLStripper):
         #     return tokens
 
         proto, guts = m.groups()
-        if proto != "http":
+        if proto != b"http":
             return tokens
 
         assert guts
-        while guts and guts[-1] in '.:;?!/)':
-            guts = guts[:-1]
+        guts = guts.rstrip(b'.:;?!/)')
 
-        slurp_wordstream = (proto, guts)
+        global slurp_wordstream
+        slurp_wordstream = (proto.decode('ascii'), guts.decode('ascii'))
         return tokens
 
 
-- 
2.43.0


From bfdbcaca7c1f0e770b57720bf954ec10d9ce1044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 55/65] fix: return a list of clues for a URL known to give an
 HTTP error

---
 sbclassifier/classifiers/slurping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index c965d88..b757c3d 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -292,7 +292,7 @@ class SlurpingClassifier(Classifier):
             if url in self.bad_urls[err]:
                 return [err]
         if url in self.http_error_urls:
-            return self.http_error_urls[url]
+            return [self.http_error_urls[url]]
 
         # We check if the url will resolve first
         mo = DOMAIN_AND_PORT_RE.match(url)
-- 
2.43.0


From 33dcb5d8e17781d6ca1964fe09c213e077de8e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 56/65] fix: a URL without valid domain does not resolve

---
 sbclassifier/classifiers/slurping.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index b757c3d..6365b63 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -296,14 +296,17 @@ class SlurpingClassifier(Classifier):
 
         # We check if the url will resolve first
         mo = DOMAIN_AND_PORT_RE.match(url)
-        domain = mo.group(1)
-        if mo.group(3) is None:
-            port = 80
-        else:
-            port = mo.group(3)
         try:
+            if mo is None:
+                raise ValueError('no domain in {!r}'.format(url))
+            domain = mo.group(1)
+            if mo.group(3) is None:
+                port = 80
+            else:
+                port = mo.group(3)
             socket.getaddrinfo(domain, port)
-        except OSError:
+        # (a ValueError is raised if the domain cannot be encoded)
+        except (OSError, ValueError):
             self.bad_urls["url:non_resolving"] += (url,)
             return ["url:non_resolving"]
 
-- 
2.43.0


From d99b5c1263ccedf68c20cd891071db7538af1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 57/65] fix: use a proxy for slurping only if there is one

---
 sbclassifier/classifiers/slurping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 6365b63..8ee78fc 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -327,7 +327,9 @@ class SlurpingClassifier(Classifier):
             url_with_proto = '{}://{}'.format(proto, url)
             proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
                           PROXY_PORT)
-            proxies = dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
+            proxies = None
+            if PROXY_SERVER:
+                proxies = dict(http='http://{}:{}@{}:{}'.format(*proxy_info))
             logging.debug("Slurping %s", url)
             try:
                 f = requests.get(url_with_proto, proxies=proxies,
-- 
2.43.0


From 48d21ca14b28f0766dbd36ad86559e75dcd1bd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 58/65] fix: generate the url:http_XXX clue for HTTP errors

---
 sbclassifier/classifiers/slurping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 8ee78fc..d9550d8 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -342,6 +342,10 @@ class SlurpingClassifier(Classifier):
                 self.bad_urls["url:unknown_error"] += (url,)
                 return ["url:unknown_error"]
 
+            if f.status_code >= 400:
+                self.http_error_urls[url] = "url:http_%d" % f.status_code
+                return [self.http_error_urls[url]]
+
             # Anything that isn't text/html is ignored
             content_type = f.headers.get('content-type')
             if content_type is None or \
-- 
2.43.0


From 2810c1d057b2fb9d446ffaafdda71c9f669408d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 59/65] fix: keep the headers and the encoding of retrieved
 pages

---
 sbclassifier/classifiers/slurping.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index d9550d8..1f849e4 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -5,7 +5,6 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
-from email import message_from_string
 import itertools
 import logging
 import os
@@ -19,7 +18,7 @@ from sbclassifier.classifiers.basic import MAX_DISCRIMINATORS
 from sbclassifier.classifiers.constants import HAM_CUTOFF
 from sbclassifier.classifiers.constants import SPAM_CUTOFF
 from sbclassifier.corpora.filesystem import ExpiryFileCorpus
-from sbclassifier.message import from_string as make_message
+from sbclassifier.message import from_bytes as make_message
 #from sbclassifier.corpora.filesystem import FileMessageFactory
 from sbclassifier.safepickle import pickle_read
 from sbclassifier.safepickle import pickle_write
@@ -353,16 +352,17 @@ class SlurpingClassifier(Classifier):
                 self.bad_urls["url:non_html"] += (url,)
                 return ["url:non_html"]
 
-            fake_message_string = str(f.headers) + "\r\n" + f.text
+            headers = ''.join('{}: {}\r\n'.format(*h)
+                              for h in f.headers.items())
+            fake_message = (headers.encode('latin-1', 'replace') + b'\r\n' +
+                            f.content)
 
             # Retrieving the same messages over and over again will tire
             # us out, so we store them in our own wee cache.
-            message = make_message(fake_message_string, message_id=url_key)
-            self.urlCorpus.add_message(message)
+            msg = make_message(fake_message, message_id=url_key)
+            self.urlCorpus.add_message(msg)
         else:
-            fake_message_string = cached_message.as_string()
-
-        msg = message_from_string(fake_message_string)
+            msg = cached_message
 
         tokens = tokenize(msg, basic_header_tokenize=True,
                           basic_header_tokenize_only=True)
-- 
2.43.0


From 20b71d3528c27541ea6664b628b57b681ef81ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 60/65] fix: generate bytes tokens, like those of messages,
 from web pages

---
 sbclassifier/classifiers/slurping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 1f849e4..62596b3 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -366,5 +366,5 @@ class SlurpingClassifier(Classifier):
 
         tokens = tokenize(msg, basic_header_tokenize=True,
                           basic_header_tokenize_only=True)
-        tokens = ['{}{}'.format(X_WEB_PREFIX, tok) for tok in tokens]
-        return tokens
+        prefix = X_WEB_PREFIX.encode('ascii')
+        return [prefix + tok for tok in tokens]
-- 
2.43.0


From fb7d00baa3b69ce6220b9cdea8024d60d6d9f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 61/65] fix: cache the page of each URL under a name of its own

---
 sbclassifier/classifiers/slurping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 62596b3..5318bdd 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -5,6 +5,7 @@
 #
 # This file is part of sbclassifier, which is licensed under the Python
 # Software Foundation License; for more information, see LICENSE.txt.
+import hashlib
 import itertools
 import logging
 import os
@@ -27,7 +28,6 @@ from sbclassifier.strippers import URLStripper
 
 DOMAIN_AND_PORT_RE = re.compile(r"([^:/\\]+)(:([\d]+))?")
 HTTP_ERROR_RE = re.compile(r"HTTP Error ([\d]+)")
-URL_KEY_RE = re.compile(r"[\W]")
 
 #: The username to give to the HTTP proxy when required.  If a username is
 #: not necessary, simply leave blank.
@@ -311,7 +311,7 @@ class SlurpingClassifier(Classifier):
 
         # If the message is in our cache, then we can just skip over
         # retrieving it from the network, and get it from there, instead.
-        url_key = URL_KEY_RE.sub('_', url)
+        url_key = hashlib.sha1(url.encode('utf-8')).hexdigest()
         cached_message = self.urlCorpus.get(url_key)
 
         if cached_message is None:
-- 
2.43.0


From f06749fc22432b138e2ffa5b7f1658f542ae125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 62/65] fix: go on slurping after a failure

---
 sbclassifier/classifiers/slurping.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index 5318bdd..e3a9781 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -207,8 +207,10 @@ class SlurpingClassifier(Classifier):
             if slurp_wordstream:
                 self.do_slurp = False
 
-                tokens = self.slurp(*slurp_wordstream)
-                self.do_slurp = True
+                try:
+                    tokens = self.slurp(*slurp_wordstream)
+                finally:
+                    self.do_slurp = True
                 self._save_caches()
                 return tokens
         return []
-- 
2.43.0


From bfa2e395803fe2a4b450ae565e2013d56c570a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 63/65] fix: start afresh when a URL cache is damaged

---
 sbclassifier/classifiers/slurping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index e3a9781..f2361dc 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -234,7 +234,7 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.bad_url_cache_name):
             try:
                 self.bad_urls = pickle_read(self.bad_url_cache_name)
-            except (IOError, ValueError):
+            except Exception:
                 # Something went wrong loading it (bad pickle,
                 # probably).  Start afresh.
                 logging.warning("Bad URL pickle, using new.")
@@ -249,7 +249,7 @@ class SlurpingClassifier(Classifier):
         if os.path.exists(self.http_error_cache_name):
             try:
                 self.http_error_urls = pickle_read(self.http_error_cache_name)
-            except (IOError, ValueError):
+            except Exception:
                 # Something went wrong loading it (bad pickle,
                 # probably).  Start afresh.
                 logging.debug("Bad HHTP error pickle, using new.")
-- 
2.43.0


From 102cb1ec2134c74249db1367b07079d828359a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 64/65] fix: keep IP addresses and ports whole in base URLs

---
 sbclassifier/classifiers/slurping.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index f2361dc..f970165 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -116,16 +116,17 @@ def base_url(url):
     # as we can - so http://www.massey.ac.nz/~tameyer/index.html?you=me
     # would become http://massey.ac.nz and http://id.example.com
     # would become http://example.com
-    url += '/'
-    domain = url.split('/', 1)[0]
+    domain = re.split('[/?#]', url, maxsplit=1)[0]
+    domain, colon, port = domain.partition(':')
     parts = domain.split('.')
-    if len(parts) > 2:
+    # (an IP address has no domain to reduce it to)
+    if len(parts) > 2 and not parts[-1].isdigit():
         base_domain = parts[-2] + '.' + parts[-1]
         if len(parts[-1]) < 3:
             base_domain = parts[-3] + '.' + base_domain
     else:
         base_domain = domain
-    return base_domain
+    return base_domain + colon + port
 
 
 class SlurpingURLStripper(URLStripper):
-- 
2.43.0


From 76c12f0593a51db13446168584309afdeb5e4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 65/65] fix: generate bytes clues for URLs that cannot be
 retrieved

---
 sbclassifier/classifiers/slurping.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sbclassifier/classifiers/slurping.py b/sbclassifier/classifiers/slurping.py
index f970165..561c1f7 100644
--- a/sbclassifier/classifiers/slurping.py
+++ b/sbclassifier/classifiers/slurping.py
@@ -284,7 +284,7 @@ class SlurpingClassifier(Classifier):
         # If there is no content in the URL, then just return immediately.
         # "http://)" will trigger this.
         if not url:
-            return ["url:non_resolving"]
+            return [b"url:non_resolving"]
 
         if X_ONLY_SLURP_BASE:
             url = base_url(url)
@@ -292,9 +292,9 @@ class SlurpingClassifier(Classifier):
         # Check the unretrievable caches
         for err in self.bad_urls.keys():
             if url in self.bad_urls[err]:
-                return [err]
+                return [err.encode('ascii')]
         if url in self.http_error_urls:
-            return [self.http_error_urls[url]]
+            return [self.http_error_urls[url].encode('ascii')]
 
         # We check if the url will resolve first
         mo = DOMAIN_AND_PORT_RE.match(url)
@@ -310,7 +310,7 @@ class SlurpingClassifier(Classifier):
         # (a ValueError is raised if the domain cannot be encoded)
         except (OSError, ValueError):
             self.bad_urls["url:non_resolving"] += (url,)
-            return ["url:non_resolving"]
+            return [b"url:non_resolving"]
 
         # If the message is in our cache, then we can just skip over
         # retrieving it from the network, and get it from there, instead.
@@ -324,7 +324,7 @@ class SlurpingClassifier(Classifier):
             parts = url.split('.')
             if parts[-1] in ('jpg', 'gif', 'png', 'css', 'js'):
                 self.bad_urls["url:non_html"] += (url,)
-                return ["url:non_html"]
+                return [b"url:non_html"]
 
             url_with_proto = '{}://{}'.format(proto, url)
             proxy_info = (PROXY_USERNAME, PROXY_PASSWORD, PROXY_SERVER,
@@ -340,20 +340,20 @@ class SlurpingClassifier(Classifier):
                 mo = HTTP_ERROR_RE.match(str(exception))
                 if mo:
                     self.http_error_urls[url] = "url:http_" + mo.group(1)
-                    return ["url:http_" + mo.group(1)]
+                    return [self.http_error_urls[url].encode('ascii')]
                 self.bad_urls["url:unknown_error"] += (url,)
-                return ["url:unknown_error"]
+                return [b"url:unknown_error"]
 
             if f.status_code >= 400:
                 self.http_error_urls[url] = "url:http_%d" % f.status_code
-                return [self.http_error_urls[url]]
+                return [self.http_error_urls[url].encode('ascii')]
 
             # Anything that isn't text/html is ignored
             content_type = f.headers.get('content-type')
             if content_type is None or \
                not content_type.startswith("text/html"):
                 self.bad_urls["url:non_html"] += (url,)
-                return ["url:non_html"]
+                return [b"url:non_html"]
 
             headers = ''.join('{}: {}\r\n'.format(*h)
                               for h in f.headers.items())
-- 
2.43.0

