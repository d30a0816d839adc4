BASIC = 'sbclassifier/classifiers/basic.py'
STORAGE = 'sbclassifier/classifiers/storage.py'
SAFE = 'sbclassifier/safepickle.py'
CDB = 'sbclassifier/cdb.py'
TMP = '''
import os, shutil, tempfile, atexit
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d, True)
'''
BUGS = [
 dict(id='s01-stale-after-unlearn-ham', property='C05',
  needs='score a message, unlearn a ham message, then score again: the cached token probabilities survive',
  what_it_breaks='the score after an unlearn still uses the probabilities of the old counts',
  edits=[(BASIC, '''        self._probcache = {}    # nuke the prob cache
        if is_spam:
            if self.nspam <= 0:
                raise ValueError("spam count would go negative!")
''', '''        if is_spam:
            self._probcache = {}    # nuke the prob cache
            if self.nspam <= 0:
                raise ValueError("spam count would go negative!")
''')],
  demo='''
from sbclassifier.classifiers.basic import Classifier
def build(score_between):
    c = Classifier()
    c.learn([b'm'], True)
    c.learn([b'm'], False)
    c.learn([b'o'], False)
    c.learn([b'o'], False)
    if score_between:
        c.spamprob([b'm'])
    c.unlearn([b'o'], False)
    return c.spamprob([b'm'])
assert build(True) == build(False), (build(True), build(False))
'''),
 dict(id='s02-ham-underflow-guard', property='C01',
  needs='about 150 very hammy clues, so that the product of the probabilities drops below the smallest double while the product of the complements stays near 1',
  what_it_breaks='the rescaling of the ham product tests the spam product, so the ham product underflows to zero and scoring raises ValueError',
  edits=[(BASIC, '            if H < 1e-200:  # prevent underflow', '            if S < 1e-200:  # prevent underflow')],
  demo='''
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
words = [b'w%d' % i for i in range(150)]
for i in range(200):
    c.learn(words, False)
c.learn([b'other'], True)
p = c.spamprob(words)
assert 0 <= p < 0.01, p
'''),
 dict(id='s03-weakest-clues-kept', property='C02',
  needs='a message with more than 150 significant tokens of different strength',
  what_it_breaks='the weakest 150 clues are kept instead of the strongest',
  edits=[(BASIC, '            del clues[0:-MAX_DISCRIMINATORS]', '            del clues[MAX_DISCRIMINATORS:]')],
  demo='''
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
strong = [b's%d' % i for i in range(20)]
weak = [b'w%d' % i for i in range(150)]
for i in range(10):
    c.learn(strong + (weak if i < 3 else []), True)
    c.learn([b'z'] + (weak if i < 1 else []), False)
p, clues = c.spamprob(strong + weak, evidence=True)
got = set(w for w, _ in clues[2:])
assert len(got) == 150 and got >= set(strong)
'''),
 dict(id='s04-bigram-overlap-second', property='C06',
  needs='bigram mode, where a strong single token (or pair) was chosen and a weaker pair ends in the same position',
  what_it_breaks='a pair whose second token was already used is scored as well, so one token counts twice',
  edits=[(BASIC, '                overlap = [i for i in indices if i in seen]\n                if not overlap:',
                 '                overlap = indices[0] in seen\n                if not overlap:')],
  demo='''
from sbclassifier.classifiers.basic import Classifier
c = Classifier(use_bigrams=True)
for i in range(9):
    c.learn(['b'], True)
for i in range(3):
    c.learn(['a', 'b'], True)
for i in range(12):
    c.learn(['a', 'q'], False)
_, clues = c.spamprob(['a', 'b'], evidence=True)
names = [w for w, p in clues[2:]]
assert not ('b' in names and 'bi:a b' in names), names
'''),
 dict(id='s06-read-opens-before-lock', property='C09',
  needs='a reader that gets the lock only after a writer has replaced the file',
  what_it_breaks='pickle_read opens the file before it holds the lock',
  edits=[(SAFE, '''    with FileLock(filename, timeout=DEFAULT_TIMEOUT):
        with open(filename, 'rb') as f:
            return pickle.load(f)
''', '''    with open(filename, 'rb') as f:
        with FileLock(filename, timeout=DEFAULT_TIMEOUT):
            return pickle.load(f)
''')],
  demo=TMP + '''
import builtins
from lockfile import FileLock
from sbclassifier.safepickle import pickle_read, pickle_write
fn = os.path.join(d, 'f')
pickle_write(fn, 1)
real, bad = builtins.open, []
def spy(name, *a, **k):
    if name == fn and not FileLock(fn).is_locked():
        bad.append(name)
    return real(name, *a, **k)
builtins.open = spy
try:
    assert pickle_read(fn) == 1
finally:
    builtins.open = real
assert not bad
'''),
 dict(id='s07-cdb-probe-wrap', property='C11',
  needs='two keys whose hashes fall into the same table and the same slot near the end of the table',
  what_it_breaks='the writer wraps around too early when it resolves a collision, so the reader finds an empty slot first and reports the key as absent',
  edits=[(CDB, '                n = (n + 1) % nslots\n', '                n = (n + 1) % len(entries)\n')],
  demo='''
import tempfile
from sbclassifier.cdb import Cdb, cdb_make, cdb_hash
seen = {}
pair = None
i = 0
while pair is None:
    k = b'k%d' % i
    i += 1
    h = cdb_hash(k)
    slot = (h & 255, (h >> 8) % 4)
    if slot[1] == 2 and slot in seen:
        pair = seen[slot], k
    seen.setdefault(slot, k)
with tempfile.TemporaryFile() as f:
    cdb_make(f, [(k, b'v' + k) for k in pair])
    f.flush()
    db = Cdb(f)
    for k in pair:
        assert db.get(k) == b'v' + k, (pair, k)
    db.close()
'''),
 dict(id='s08-chi-above-one', property='C07',
  needs='a small chi-squared value with many degrees of freedom, where rounding pushes the sum above 1',
  what_it_breaks='the tail probability can exceed 1',
  edits=[(BASIC, '    return min(result, 1.0)\n', '    return result\n')],
  demo='''
from sbclassifier.classifiers.basic import chi2Q
for v in range(2, 400, 2):
    for x2 in range(0, 400):
        q = chi2Q(x2 / 3, v)
        assert 0 <= q <= 1, (x2 / 3, v, q)
'''),
 dict(id='s09-inconsistent-counts-clamped', property='C03',
  needs='a record whose ham count exceeds the number of trained ham messages',
  what_it_breaks='an inconsistent database is scored silently instead of being reported',
  edits=[(BASIC, '''        if hamcount > nham:
            raise Exception''', '''        if hamcount > nham + nspam:
            raise Exception''')],
  demo='''
from sbclassifier.classifiers.basic import Classifier, WordInfo
c = Classifier()
c.nham, c.nspam = 2, 5
try:
    c.probability(WordInfo(1, 4))
except Exception:
    pass
else:
    raise SystemExit('scored an impossible record')
'''),
 dict(id='s10-unlearn-repeats', property='C04',
  needs='unlearn a message that contains a token more than once while other messages with the token remain',
  what_it_breaks='repeated tokens are taken back once per occurrence although they were learned once',
  edits=[(BASIC, '''        for word in set(wordstream):
            record = self._wordinfoget(word)
            if record is not None:
''', '''        for word in wordstream:
            record = self._wordinfoget(word)
            if record is not None:
''')],
  demo='''
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
c.learn([b'a', b'a', b'b'], True)
c.learn([b'a'], True)
c.unlearn([b'a', b'a', b'b'], True)
assert c.wordinfo[b'a'].spamcount == 1, c.wordinfo
'''),
 dict(id='s11-old-version-accepted', property='C08',
  needs='state pickled by an older version',
  what_it_breaks='state of an older, unknown format version is accepted',
  edits=[(BASIC, '''        if t[0] != PICKLE_VERSION:
            raise ValueError("Can't''', '''        if t[0] > PICKLE_VERSION:
            raise ValueError("Can't''')],
  demo='''
from sbclassifier.classifiers.basic import Classifier
for v in 6, 4, 0, -1:
    try:
        Classifier().__setstate__((v, {}, 1, 1))
    except ValueError:
        continue
    raise SystemExit('accepted %d' % v)
'''),
 dict(id='s12-cdb-drops-neutral', property='C12',
  needs='a token seen in equally many ham and spam messages; store, open again and look at (or train) that token',
  what_it_breaks='tokens with equal ham and spam counts are not written, so their counts are lost',
  edits=[(STORAGE, "                     for word, info in self.wordinfo.items())\n",
          "                     for word, info in self.wordinfo.items()\n"
          "                     if info.hamcount != info.spamcount)\n")],
  demo=TMP + '''
from sbclassifier.classifiers.storage import CDBClassifier
fn = os.path.join(d, 'x.cdb')
c = CDBClassifier(fn)
c.learn([b'a', b'b'], True); c.learn([b'a'], False)
c.store()
e = CDBClassifier(fn)
assert {k: (r.spamcount, r.hamcount) for k, r in e.wordinfo.items()} == {b'a': (1, 1), b'b': (1, 0)}, e.wordinfo
'''),
 dict(id='s51-shared-no-evidence', property='C41',
  needs='evidence of a message without clues that the caller changes',
  what_it_breaks='every message without clues returns the same list as evidence',
  edits=[(BASIC, """class Classifier:
""", """#: The evidence of a message without clues.
NO_EVIDENCE = [(b'*H*', 0.0), (b'*S*', 0.0)]


class Classifier:
"""),
         (BASIC, """            prob = 0.5

        if evidence:
""", """            prob = 0.5
            if evidence:
                return prob, NO_EVIDENCE

        if evidence:
"""), (BASIC, """            clues = [(w, p) for p, w, _r in clues]
            clues.sort(key=lambda x: x[1])
""", """            clues = sorted(((w, p) for p, w, _r in clues), key=lambda x: x[1])
""")],
  demo='''
from sbclassifier.classifiers.basic import Classifier
a, b = Classifier(), Classifier()
prob, clues = a.spamprob([b'new'], True)
clues.append((b'mine', 0.5))
prob, clues = b.spamprob([], True)
assert [w for w, p in clues] == [b'*H*', b'*S*'], clues
'''),
 dict(id='s52-argument-reordered', property='C41',
  needs='a list of tokens that is used again after it was learned',
  what_it_breaks='learn() sorts the list of tokens it is given and drops repeated ones',
  edits=[(BASIC, """        for word in set(wordstream):
            record = self._wordinfoget(word)
            if record is None:""", """        for word in distinct(wordstream):
            record = self._wordinfoget(word)
            if record is None:"""),
         (BASIC, """class Classifier:
""", """def distinct(words):
    \"\"\"The distinct `words`, in a fixed order where they can be sorted.\"\"\"
    if isinstance(words, list):
        words[:] = sorted(set(words))
        return words
    return set(words)


class Classifier:
""")],
  demo='''
from sbclassifier.classifiers.basic import Classifier
c = Classifier()
words = [b'b', b'a', b'a', b'b', b'b']
c.learn(words, True)
assert words == [b'b', b'a', b'a', b'b', b'b'], words
'''),
]
