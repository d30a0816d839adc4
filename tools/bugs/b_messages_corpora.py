MSG = 'sbclassifier/message.py'
CACHES = 'sbclassifier/corpora/caches.py'
BASE = 'sbclassifier/corpora/base.py'
FS = 'sbclassifier/corpora/filesystem.py'
TR = 'sbclassifier/trainers.py'
TMP = '''
import os, shutil, tempfile, atexit
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d, True)
'''
BUGS = [
 dict(id='s13-crlf-collapses', property='C13',
  needs='a carriage return directly before a line end, as in a truncated or doubly converted message',
  what_it_breaks='a lone CR before a CRLF disappears instead of becoming a line end of its own',
  edits=[(MSG, "CRLF_RE = re.compile(r'\\r\\n|\\r|\\n')", "CRLF_RE = re.compile(r'\\r*\\n|\\r')")],
  demo='''
from sbclassifier.message import force_crlf
assert force_crlf('a\\r\\r\\nb\\rc\\nd') == 'a\\r\\n\\r\\nb\\r\\nc\\r\\nd'
'''),
 dict(id='s14-note-removed-inside', property='C14',
  needs='a To header that carries a note somewhere behind the first address (a reply to a classified message) and no leading note of the same kind',
  what_it_breaks='a note further right, which the sender had written, is removed although it is not a leading note',
  edits=[(MSG, """                    if to.startswith(disp):
                        self.replace_header("To", to[len(disp):])""",
               """                    if disp in to:
                        self.replace_header("To", to.replace(disp, '', 1))""")],
  demo='''
from sbclassifier.message import from_string, Classification
to = 'Bob <bob@example.com>,spam@spambayes.invalid,x@example.com'
m = from_string('To: %s\\n\\nbody\\n' % to)
m.remove_notations(False, True)
assert m['To'] == to, m['To']
'''),
 dict(id='s15-log-of-zero', property='C15',
  needs='a score of exactly 0.0 with the score header and its logarithm switched on',
  what_it_breaks='adding the headers raises ValueError (logarithm of zero)',
  edits=[(MSG, "                if prob <= 0.005 and prob > 0.0:", "                if prob <= 0.005:")],
  demo='''
from sbclassifier.message import from_string
for p in 0.001, 0.999, 0.0, 1.0:
    m = from_string('A: b\\n\\nbody\\n')
    m.add_sb_headers(p, [], include_score=True, header_score_logarithm=True)
    assert m['X-Spambayes-Spam-Probability'].startswith('%.2f' % p)
'''),
 dict(id='s16-cutoff-inclusive', property='C16',
  needs='a score exactly equal to the spam cutoff',
  what_it_breaks='a score equal to the cutoff is called spam instead of unsure',
  edits=[(MSG, '            elif prob > SPAM_CUTOFF:', '            elif prob >= SPAM_CUTOFF:')],
  demo='''
from sbclassifier.message import Message, Classification
for p, c in (0.2, 'unsure'), (0.9, 'unsure'), (0.19999, 'ham'), (0.90001, 'spam'):
    m = Message()
    m.set_classification(p)
    assert m.classification() is Classification[c], (p, m.classification())
'''),
 dict(id='s17-header-loses-cr', property='C17',
  needs='a message with CRLF line endings',
  what_it_breaks='the last original header loses its CR, so the header block no longer has CRLF line ends throughout',
  edits=[(MSG, r"        headers, body = re.split(r'\n\r?\n', string_msg, 1)", r"        headers, body = re.split(r'\r?\n\r?\n', string_msg, 1)")],
  demo='''
from sbclassifier.message import insert_exception_header
try:
    raise ValueError('x')
except ValueError:
    t, _ = insert_exception_header('A: b\\r\\nC: d\\r\\n\\r\\nbody\\r\\n')
assert t.startswith('A: b\\r\\nC: d\\r\\nX-Spambayes-Exception: '), t
assert t.endswith('\\r\\n\\r\\nbody\\r\\n')
'''),
 dict(id='s18-flush-forgets-last-key', property='C18',
  needs='a bounded cache: take out an entry that is not the newest one, then fill the cache beyond its limit',
  what_it_breaks='the order list and the entries get out of step, so a later put evicts nothing or the wrong entry',
  edits=[(CACHES, '            self._keys.pop(ki)', '            self._keys.pop()')],
  demo='''
from sbclassifier.corpora.caches import NaiveCache
c = NaiveCache(max_size=3)
for k in 'abc':
    c.put(k, k)
c.pop('a')
for k in 'de':
    c.put(k, k)
assert sorted(c.keys()) == ['c', 'd', 'e'], list(c.keys())
'''),
 dict(id='s19-filter-bypassed', property='C19',
  needs='a file in the corpus directory that does not match the name filter, asked for by its exact name',
  what_it_breaks='a file that does not match the filter is returned as a message',
  edits=[(CACHES, '''        if key in os.listdir(self.directory) and self._is_message(key):
''', '''        if key in os.listdir(self.directory):
''')],
  demo=TMP + '''
from sbclassifier.corpora import FileCorpus
from sbclassifier.message import from_string
open(os.path.join(d, 'notes.bak'), 'w').write('A: b\\n\\n')
c = FileCorpus(d, '*.msg')
c.add_message(from_string('A: b\\n\\nx\\n', 'one.msg'))
assert list(c.keys()) == ['one.msg']
assert c.get('notes.bak') is None
'''),
 dict(id='s20-already-trained-skipped', property='C20',
  needs='a message moved between two corpora that are both watched: added to the second before it is removed from the first',
  what_it_breaks='the second addition is not learned because the message counts as trained, but the removal is unlearned, so the classifier loses the message',
  edits=[(TR, '''        logging.debug('training with %s', message.id())
        self.classifier.learn(tokenize(message), self.is_spam)
        message.remember_trained(self.is_spam)
''', '''        logging.debug('training with %s', message.id())
        if message.is_trained() is not self.is_spam:
            self.classifier.learn(tokenize(message), self.is_spam)
            message.remember_trained(self.is_spam)
''')],
  demo='''
from sbclassifier.corpora import Corpus
from sbclassifier.trainers import Trainer
from sbclassifier.classifiers.basic import Classifier
from sbclassifier.message import from_string
class C(Corpus):
    def __repr__(self):
        return 'corpus'
c, a, b = Classifier(), C(), C()
t = Trainer(c, True, [a, b])
m = from_string('Subject: hello\\n\\nbody words\\n', '1')
a.add_message(m)
b.add_message(m)
assert c.nspam == 2
a.remove_message(m)
assert c.nspam == 1 and c.wordinfo
'''),
 dict(id='s21-next-check-too-late', property='C21',
  needs='two kept messages where the younger one is listed after the older one; then a check at the moment the older one expires',
  what_it_breaks='the next check is set by the message looked at last, not by the first one to expire, so an expired message stays',
  edits=[(FS, '            elif end_time < self.expiry_due:\n                self.expiry_due = end_time',
              '            else:\n                self.expiry_due = end_time')],
  demo=TMP + '''
import sbclassifier.corpora.filesystem as fs
from sbclassifier.message import from_string
now = [1000.0]
times = {}
fs.time.time = lambda: now[0]
real = os.path.getctime
os.path.getctime = lambda p: times[os.path.basename(p)] if os.path.basename(p) in times else real(p)
listdir = os.listdir
os.listdir = lambda p='.': sorted(listdir(p))
c = fs.ExpiryFileCorpus(100, d)
for n, t in ('a', 930.0), ('b', 990.0):
    c.add_message(from_string('A: b\\n\\nx\\n', n))
    times[n] = t
c.remove_expired_messages()
assert sorted(c.keys()) == ['a', 'b']
now[0] = 1031.0
c.remove_expired_messages()
assert sorted(c.keys()) == ['b'], sorted(c.keys())
'''),
 dict(id='s22-id-replaced-after-failed', property='C16',
  needs='a second set_id with a different id on a message whose id is already set, or with a reserved key',
  what_it_breaks='the id is overwritten before the new one is checked',
  edits=[(MSG, '''        if new_id in (STATS_START_KEY, STATS_STORAGE_KEY):
            raise ValueError('message ID must not be {}'.format(new_id))
        self.messageid = new_id
''', '''        self.messageid = new_id
        if new_id in (STATS_START_KEY, STATS_STORAGE_KEY):
            raise ValueError('message ID must not be {}'.format(new_id))
''')],
  demo='''
from sbclassifier.message import Message, STATS_START_KEY
m = Message()
try:
    m.set_id(STATS_START_KEY)
except ValueError:
    pass
assert m.id() is None, m.id()
'''),
]
