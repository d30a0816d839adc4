STORAGE = 'sbclassifier/classifiers/storage.py'
CACHES = 'sbclassifier/corpora/caches.py'
TRAINERS = 'sbclassifier/trainers.py'
TOK = 'sbclassifier/tokenizer.py'
STRIP = 'sbclassifier/strippers.py'
MSG = 'sbclassifier/message.py'
TMP = '''
import os, shutil, tempfile, atexit
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d, True)
'''
BUGS = [
 dict(id='s55-totals-only-with-changes', property='C10',
  needs='a training with new tokens only (whose records are written at once), then store(), close() and reopening',
  what_it_breaks='the totals are only written by store(), and store() returns early when no record waits to be written, so that the totals of the reopened file are old',
  edits=[(STORAGE, """        for word in self.changed_words:
            val = self.wordinfo[word]
            self.db[word_to_key(word)]""", """        if not self.changed_words and not self.deleted_words:
            self.db.sync()
            return
        for word in self.changed_words:
            val = self.wordinfo[word]
            self.db[word_to_key(word)]"""),
         (STORAGE, """        key.\"\"\"
        self._write_state_key()
""", """        key.\"\"\"
        if self.changed_words or self.deleted_words:
            self._write_state_key()
""")],
  demo=TMP + '''
from sbclassifier.classifiers.storage import ShelveClassifier
s = ShelveClassifier(os.path.join(d, 'db'))
s.learn([b'w'], True)
s.store()
s.close()
s = ShelveClassifier(os.path.join(d, 'db'))
assert (s.nspam, s.nham) == (1, 0), (s.nspam, s.nham)
s.close()
'''),
 dict(id='s56-fetched-past-the-filter', property='C19',
  needs='a file in the directory whose name does not match the filter, asked for by name',
  what_it_breaks='the corpus hands out files that are not among its messages',
  edits=[(CACHES, '        if key in os.listdir(self.directory) and self._is_message(key):',
          '        if os.path.isfile(os.path.join(self.directory, key)):')],
  demo=TMP + '''
from sbclassifier.corpora.filesystem import FileCorpus
open(os.path.join(d, 'notes.txt'), 'w').write('A: b\\n\\nx\\n')
open(os.path.join(d, 'm.eml'), 'w').write('A: b\\n\\nx\\n')
c = FileCorpus(d, '*.eml')
assert list(c.keys()) == ['m.eml']
assert c.get('m.eml') is not None
assert c.get('notes.txt') is None
'''),
 dict(id='s57-untrained-by-flag', property='C20',
  needs='a message that is removed as another object than the one that was added, as when it is read from its file again',
  what_it_breaks='removing a message only untrains the classifier if that very object carries the training flag',
  edits=[(TRAINERS, '''        self.classifier.unlearn(tokenize(message), self.is_spam)
''', '''        if message.is_trained() is self.is_spam:
            self.classifier.unlearn(tokenize(message), self.is_spam)
''')],
  demo=TMP + '''
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.corpora.filesystem import FileCorpus
from sbclassifier.message import from_string
from sbclassifier.trainers import SpamTrainer
c = Classifier()
corpus = FileCorpus(d, cache_size=1)
t = SpamTrainer(c, [corpus])
for k in 'ab':
    corpus.add_message(from_string('Subject: %s\\n\\nbody %s\\n' % (k, k), k))
assert c.nspam == 2
corpus.remove_message(corpus['a'])
assert c.nspam == 1, c.nspam
'''),
 dict(id='s58-attached-text-skipped', property='C33',
  needs='a text part marked as an attachment',
  what_it_breaks='text parts with an attachment disposition give no body tokens',
  edits=[(TOK, "                if part.get_content_maintype() == 'text'])",
          "                if part.get_content_maintype() == 'text'\n                and part.get_content_disposition() != 'attachment'])")],
  demo='''
from sbclassifier.tokenizer import tokenize
m = ('Content-Type: multipart/mixed; boundary="bb"\\n\\n--bb\\n\\nhello\\n--bb\\n'
     'Content-Type: text/x-log\\nContent-Disposition: attachment; filename=a\\n\\nattached words\\n--bb--\\n')
t = set(tokenize(m))
assert b'hello' in t and b'attached' in t
'''),
 dict(id='s59-tag-on-two-lines', property='C26',
  needs='a tag that goes on on the next line',
  what_it_breaks='a tag with a line break in it is not removed',
  edits=[(TOK, "    [^>]{0,256} # search for the end '>', but don't run wild", "    [^>\\n]{0,256} # search for the end '>', but don't run wild")],
  demo='''
from sbclassifier.tokenizer import tokenize
t = set(tokenize('Subject: x\\n\\nvia<font\\nsize=1>gra now\\n'))
assert b'viagra' in t, t
'''),
 dict(id='s60-second-at-sign', property='C28',
  needs='an address with two at signs, one of them in quotes',
  what_it_breaks='an address is only divided at its last at sign',
  edits=[(TOK, "                    for w in addr.lower().split('@'):", "                    for w in addr.lower().rsplit('@', 1):")],
  demo='''
from sbclassifier.tokenizer import tokenize
t = set(tokenize('From: "a@b"@c.org\\n\\nbody\\n'))
assert b'from:addr:"a' in t and b'from:addr:b"' in t and b'from:addr:c.org' in t, t
'''),
 dict(id='s61-same-name-in-other-case', property='C28',
  needs='a counted header that occurs twice, spelled differently',
  what_it_breaks='header counts are kept by lower-cased name, so that the spellings are mixed up',
  edits=[(TOK, '''            for x in list(msg.keys()):
                if x.lower() in safe_headers:
                    x2n[x] = x2n.get(x, 0) + 1
''', '''            spelling = {}
            for x in list(msg.keys()):
                if x.lower() in safe_headers:
                    name = spelling.setdefault(x.lower(), x)
                    x2n[name] = x2n.get(name, 0) + 1
''')],
  demo='''
from sbclassifier.tokenizer import tokenize
t = set(tokenize('Received: a\\nRECEIVED: b\\n\\nbody\\n'))
assert b'header:Received:1' in t and b'header:RECEIVED:1' in t, t
'''),
 dict(id='s62-wide-start-of-style', property='C24',
  needs='a style section that is not closed, after one that is',
  what_it_breaks='a section that is opened but not closed is dropped when an earlier one was complete',
  edits=[(STRIP, '                pushretained(text[start:])', '                if not i:\n                    pushretained(text[start:])')],
  demo='''
from sbclassifier.strippers import StyleStripper
text, tokens = StyleStripper.analyze(b'a <style> b </style> c <style> d')
assert text == b'a  c <style> d', text
'''),
]
