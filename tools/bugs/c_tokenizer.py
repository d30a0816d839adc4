T = 'sbclassifier/tokenizer.py'
ST = 'sbclassifier/strippers.py'
IP = 'sbclassifier/iputils.py'
DNS = 'sbclassifier/dnsutils.py'
SL = 'sbclassifier/classifiers/slurping.py'
BUGS = [
 dict(id='s23-count-keyed-by-value', property='C22',
  needs='a To or Cc field that is repeated, with an empty second value',
  what_it_breaks='tokenizing raises (logarithm of zero) for such a message',
  edits=[(T, """            if count > 0:
                yield '%s:2**%d'""", """            if field in msg:
                yield '%s:2**%d'"""),
         (T, "                count += len(str(addrs).split(','))", "                count += len([x for x in str(addrs).split(',') if x.strip()])")],
  demo='''
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
for to in 'a@b', 'a@b, c@d', ' ', ',,':
    toks = list(tokenize(from_string('To: %s\\nCc:\\n\\nbody text\\n' % to)))
    assert all(isinstance(t, bytes) for t in toks)
'''),
 dict(id='s24-punctuation-not-counted', property='C23',
  needs='a body word whose length without its trailing punctuation is on the other side of a limit',
  what_it_breaks='the length rules apply to the word without its trailing punctuation: "ab!" gives no token, and "abcdefghijkl!" gives itself',
  edits=[(T, """            n = len(w)
            if n < 3:
""", """            n = len(w.rstrip(b'!?'))
            if n < 3:
""")],
  demo='''
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
toks = set(tokenize(from_string('A: b\\n\\nsome ab! abcdefghijkl! here\\n')))
assert b'ab!' in toks and b'skip:a 10' in toks and b'abcdefghijkl!' not in toks, toks
'''),
 dict(id='s25-open-mark-dropped', property='C24',
  needs='an opening mark without an end',
  what_it_breaks='the unfinished opening mark vanishes from the text',
  edits=[(ST, "                pushretained(text[start:])", "                pushretained(text[end:])")],
  demo='''
from sbclassifier.strippers import CommentStripper
assert CommentStripper.analyze(b'some<!--x-->thing<!--y') == (b'something<!--y', [])
'''),
 dict(id='s26-url-slashes', property='C25',
  needs='a URL with a doubled slash in its path',
  what_it_breaks='the empty component between the slashes gives no token',
  edits=[(ST, "            for chunk in urlsep_re.split(piece):", "            for chunk in urlsep_re.split(piece) if piece else ():")],
  demo='''
from sbclassifier.strippers import URLStripper
text, toks = URLStripper().analyze(b'see http://a.b//c here')
assert text == b'see  here' and toks == [b'proto:http', b'url:a', b'url:b', b'url:', b'url:c'], (text, toks)
'''),
 dict(id='s27-tag-with-less-than', property='C26',
  needs='a tag with "<" inside, as in an attribute value',
  what_it_breaks='the outer tag is not removed, so its start and the word before it become one visible word',
  edits=[(T, "    [^>]{0,256} # search for the end '>', but don't run wild", "    [^<>]{0,256} # search for the end '>', but don't run wild")],
  demo='''
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
toks = set(tokenize(from_string('A: b\\n\\nvia<img alt="a<b">gra\\n')))
assert b'viagra' in toks, toks
'''),
 dict(id='s28-one-pad-only', property='C27',
  needs='damaged base64 whose last line is padded with two equal signs',
  what_it_breaks='the padded line counts as plain text, so the end of the encoded part is not decoded',
  edits=[(T, "    (=*)\n", "    (=?)\n")],
  demo='''
import base64
from sbclassifier.tokenizer import try_to_repair_damaged_base64 as repair
for n in 3, 4, 5:
    data = b'x' * n
    assert repair(base64.b64encode(data).decode() + '\\nplain text\\n') == data + b'plain text\\n', n
'''),
 dict(id='s29-folded-message-id', property='C28',
  needs='a Message-ID header folded directly after the name (as long ids are)',
  what_it_breaks='the token says that the message id is invalid',
  edits=[(T, r"message_id_re = re.compile(r'\s*<[^@]+@([^>]+)>\s*')", r"message_id_re = re.compile(r'[ \t]*<[^@]+@([^>]+)>\s*')")],
  demo='''
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
for sep in ' ', '\\n ':
    toks = set(tokenize(from_string('Message-ID:' + sep + '<abc@host.example>\\n\\nbody\\n')))
    assert b'message-id:@host.example' in toks, toks
'''),
 dict(id='s31-prefix-zero', property='C29',
  needs='a prefix length of 0 asked for',
  what_it_breaks='the network for prefix length 0 is the address itself',
  edits=[(IP, "'{}/{}'.format(address, n), strict=False)", "'{}/{}'.format(address, n or 32), strict=False)")],
  demo='''
from ipaddress import ip_network
from sbclassifier.iputils import subnets
assert list(subnets('10.1.2.3', (0, 8, 32))) == [ip_network('0.0.0.0/0'), ip_network('10.0.0.0/8'), ip_network('10.1.2.3/32')]
'''),
 dict(id='s32-timeout-kept', property='C30',
  needs='a resolver that fails with an error other than a timeout',
  what_it_breaks='the ten second default timeout stays set for the whole process',
  edits=[(DNS, """            old_timeout = socket.getdefaulttimeout()
            socket.setdefaulttimeout(DEFAULT_TIMEOUT)
            return f(*args, **kw)
        except socket.timeout:
            return ()
        finally:
            socket.setdefaulttimeout(old_timeout)
""", """            old_timeout = socket.getdefaulttimeout()
            socket.setdefaulttimeout(DEFAULT_TIMEOUT)
            result = f(*args, **kw)
        except socket.timeout:
            result = ()
        socket.setdefaulttimeout(old_timeout)
        return result
""")],
  demo='''
import socket
from sbclassifier import dnsutils
def broken(*args):
    raise OSError('no memory')
socket.getaddrinfo = broken
socket.setdefaulttimeout(3)
try:
    dnsutils.dns_lookup('a.example')
except OSError:
    pass
assert socket.getdefaulttimeout() == 3
'''),
 dict(id='s33-memoized-empty', property='C30',
  needs='a memoized function whose result is empty',
  what_it_breaks='the function is called again for the same arguments, and a later result replaces the first one',
  edits=[(DNS, "        self[key] = result\n", "        if result:\n            self[key] = result\n")],
  demo='''
from sbclassifier.dnsutils import memoize
calls = []
def f(*args):
    calls.append(args)
    return () if len(calls) == 1 else ('a',)
m = memoize(f)
assert m('x') == () and m('x') == () and len(calls) == 1
'''),
 dict(id='s34-first-nntp-header', property='C31',
  needs='two NNTP-Posting-Host headers',
  what_it_breaks='only the first header gives clues',
  edits=[(T, """    nntp_headers = msg.get_all("nntp-posting-host", ())""", """    nntp_headers = msg.get_all("nntp-posting-host", ())[:1]""")],
  demo='''
from sbclassifier.message import from_string
import sbclassifier.tokenizer as t
t.dns_lookup = t.reverse_dns_lookup = lambda x: ()
m = from_string('NNTP-Posting-Host: a.b.example\\nNNTP-Posting-Host: 10.1.2.3\\n\\nbody\\n')
clues = list(t.mine_nntp(m))
assert 'nntp-host-name:a.b.example' in clues and 'nntp-host:10.0.0.0/8' in clues, clues
'''),
 dict(id='s35-page-order-with-bigrams', property='C32',
  needs='bigrams switched on, a URL pending, and another message trained with the pair of words at the seam of message and page',
  what_it_breaks='forgetting a message also takes away one count of that pair, which another message had taught',
  edits=[(SL, """    def unlearn(self, wordstream, is_spam):
        if self._use_bigrams:
            wordstream = self._enhance_wordstream(wordstream)
        wordstream = itertools.chain(wordstream, self._generate_slurp())
""", """    def unlearn(self, wordstream, is_spam):
        wordstream = itertools.chain(wordstream, self._generate_slurp())
        if self._use_bigrams:
            wordstream = self._enhance_wordstream(wordstream)
""")],
  demo='''
import sbclassifier.classifiers.slurping as s
class C(s.SlurpingClassifier):
    def setup(self): pass
    def _save_caches(self): pass
    def slurp(self, proto, url): return [b'page']
c = C(True)
c.learn([b'word', b'page'], True)
before = {k: (r.spamcount, r.hamcount) for k, r in c.wordinfo.items()}
s.slurp_wordstream = ('http', 'a.b')
c.learn([b'word'], True)
c.unlearn([b'word'], True)
assert {k: (r.spamcount, r.hamcount) for k, r in c.wordinfo.items()} == before
'''),
 dict(id='s36-unsure-at-cutoff', property='C32',
  needs='an enlarged score equal to one of the cutoffs',
  what_it_breaks='the score of the page is not used although it is outside the unsure range',
  edits=[(SL, "    return HAM_CUTOFF < probability < SPAM_CUTOFF", "    return HAM_CUTOFF <= probability <= SPAM_CUTOFF")],
  demo='''
import sbclassifier.classifiers.slurping as s
assert not s.is_unsure(s.HAM_CUTOFF) and not s.is_unsure(s.SPAM_CUTOFF) and s.is_unsure(0.5)
'''),
 dict(id='s37-nested-text', property='C33',
  needs='a text part inside two levels of structure (a multipart in a multipart, or an attached multipart)',
  what_it_breaks='the words of such parts give no tokens',
  edits=[(T, """    return set([part for part in msg.walk()
                if part.get_content_maintype() == 'text'])""", """    parts = [msg]
    if msg.is_multipart():
        parts = []
        for part in msg.get_payload():
            parts.extend(part.get_payload() if part.is_multipart() else [part])
    return set([part for part in parts
                if part.get_content_maintype() == 'text'])""")],
  demo='''
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
def multi(b, part):
    return 'Content-Type: multipart/mixed; boundary=%s\\n\\n--%s\\n%s\\n--%s--\\n' % (b, b, part, b)
part = 'Content-Type: text/plain\\n\\nneedle words'
for m in part, multi('a', part), multi('a', multi('b', part)), multi('a', multi('b', multi('c', part))):
    assert b'needle' in set(tokenize(from_string(m))), m
'''),
]

BUGS += [
 dict(id='s38-single-name-pieces', property='C34',
  needs='a file name with a path of which a component other than the last has punctuation in it',
  what_it_breaks='no pieces are given for the directories of a file name',
  edits=[(ST, "        pieces = urlsep_re.split(component)\n", "        pieces = urlsep_re.split(component if component == components[-1] else b'')\n")],
  demo='''
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
toks = set(tokenize(from_string('Content-Type: image/gif; name="my.dir/a.gif"\\n\\nx\\n')))
for t in b'fname:my.dir/a.gif', b'fname comp:my.dir', b'fname comp:a.gif', b'fname piece:my', b'fname piece:dir', b'fname piece:gif':
    assert b'filename:' + t in toks, (t, toks)
'''),
 dict(id='s39-type-of-digest-parts', property='C34',
  needs='a part without a Content-Type header in a digest',
  what_it_breaks='its content type is reported as text/plain, not message/rfc822',
  edits=[(ST, "    yield 'content-type:' + msg.get_content_type()", "    yield 'content-type:' + (msg.get_content_type() if 'content-type' in msg\n                             else 'text/plain')")],
  demo='''
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
toks = set(tokenize(from_string('Content-Type: multipart/digest; boundary=b\\n\\n--b\\n\\nSubject: x\\n\\nbody\\n--b--\\n')))
assert b'content-type:message/rfc822' in toks, toks
'''),
 dict(id='s40-largest-image', property='C35',
  needs='IMAGE_SIZE switched on and several images',
  what_it_breaks='only the largest image counts',
  edits=[(T, "                total_len += len(text or \"\")", "                total_len = max(total_len, len(text or \"\"))")],
  demo='''
import sbclassifier.tokenizer as t
from sbclassifier.message import from_string
t.IMAGE_SIZE = True
part = '--b\\nContent-Type: image/png\\n\\n' + 'x' * 64 + '\\n'
toks = set(t.tokenize(from_string('Content-Type: multipart/mixed; boundary=b\\n\\n' + part * 4 + '--b--\\n')))
assert b'image-size:2**8' in toks, toks
'''),
 dict(id='s41-run-not-ended', property='C35',
  needs='X_SHORT_RUNS switched on and two runs of short words with a skipped long word between them',
  what_it_breaks='a word too long for a token of its own does not end a run of short words',
  edits=[(T, """                if short_count:
                    short_runs.add(short_count)
                    short_count = 0
""", """                if short_count:
                    short_runs.add(short_count)
                    if n <= maxword:
                        short_count = 0
""")],
  demo='''
import sbclassifier.tokenizer as t
from sbclassifier.message import from_string
t.X_SHORT_RUNS = True
for w in 'word', 'averyveryverylongword':
    toks = set(t.tokenize(from_string('A: b\\n\\na b ' + w + ' c d\\n')))
    assert b'short:1' in toks and b'short:2' not in toks, toks
'''),
 dict(id='s42-reduced-habeas', property='C36',
  needs='both Habeas options switched on, eight valid headers and one missing',
  what_it_breaks='an incomplete set of Habeas headers is reported as valid',
  edits=[(T, "                elif valid_habeas == 9:", "                elif valid_habeas >= len(habeas_headers) - 1:")],
  demo='''
import sbclassifier.tokenizer as t
from sbclassifier.message import from_string
t.X_SEARCH_FOR_HABEAS_HEADERS = t.X_REDUCE_HABEAS_HEADERS = True
V = ["winter into spring", "brightly anticipated", "like Habeas SWE (tm)", "Copyright 2002 Habeas (tm)",
     "Sender Warranted Email (SWE) (tm). The sender of this", "email in exchange for a license for this Habeas",
     "warrant mark warrants that this is a Habeas Compliant", "Message (HCM) and not spam. Please report use of this",
     "mark in spam to <http://www.habeas.com/report/>."]
for n, want in (9, True), (8, False), (1, False):
    head = ''.join('X-Habeas-SWE-%d: %s\\n' % (i + 1, V[i]) for i in range(n))
    toks = set(t.tokenize(from_string(head + '\\nbody\\n')))
    assert (b'x-habeas-swe:valid' in toks) == want, (n, toks)
'''),
 dict(id='s43-suffix-of-to', property='C36',
  needs='SUMMARIZE_EMAIL_SUFFIXES switched on and addresses in different letter case',
  what_it_breaks='the case of addresses matters for their common suffix',
  edits=[(T, """                addr = "".join(addr)
                all_addrs.append(addr.lower())""", """                addr = "".join(addr)
                all_addrs.append(addr)""")],
  demo='''
import sbclassifier.tokenizer as t
from sbclassifier.message import from_string
t.SUMMARIZE_EMAIL_SUFFIXES = True
for to in 'x@some.host.example.org, y@some.host.example.org', 'x@some.host.example.org, y@some.HOST.example.ORG':
    toks = set(t.tokenize(from_string('To: ' + to + '\\n\\nbody\\n')))
    assert b'sfxlen:4' in toks, toks
'''),
 dict(id='s44-ports-of-either', property='C37',
  needs='X_PICK_APART_URLS switched on and an https URL with port 80, or an http URL with port 443',
  what_it_breaks='the standard port of one protocol passes for that of the other',
  edits=[(ST, """            if port is not None and (scheme == "http" and port != '80' or
                                     scheme == "https" and port != '443'):""", """            if port is not None and (scheme in ("http", "https") and
                                     port not in ('80', '443')):""")],
  demo='''
import sbclassifier.strippers as s
s.X_PICK_APART_URLS = True
def clues(url):
    return s.URLStripper().analyze(url)[1]
assert b'url:non-standard https port' in clues(b'https://a.b:80/')
assert b'url:non-standard http port' in clues(b'http://a.b:443/')
assert b'url:non-standard http port' not in clues(b'http://a.b:80/')
'''),
 dict(id='s45-www-dot', property='C37',
  needs='FANCY_URL_RECOGNITION switched on and a text with "www.." or "ftp.."',
  what_it_breaks='"www.." and what follows it is taken for a URL',
  edits=[(ST, """        (?= www\\.[^\\.\\s<>"'\\x7f-\\xff] )""", """        (?= www\\.[^\\s<>"'\\x7f-\\xff] )""")],
  demo='''
import sbclassifier.strippers as s
s.FANCY_URL_RECOGNITION = True
assert s.URLStripper().analyze(b'the www... is')[0] == b'the www... is'
assert s.URLStripper().analyze(b'the www.x is') == (b'the  is', [b'proto:http', b'url:www', b'url:x'])
'''),
 dict(id='s46-failed-prefix', property='C38',
  needs='a URL that extends another one, whose retrieval failed before',
  what_it_breaks='URLs below a failed one are never retrieved and give its failure as their own',
  edits=[(SL, "            if url in self.bad_urls[err]:", "            if url.startswith(self.bad_urls[err]):")],
  demo='''
import socket, tempfile, requests
from sbclassifier.classifiers import slurping
asked = []
def request(self, method, url, **k):
    asked.append(url)
    raise requests.exceptions.Timeout()
requests.sessions.Session.request = request
socket.getaddrinfo = lambda *a, **k: []
with tempfile.TemporaryDirectory() as d:
    slurping.X_CACHE_DIRECTORY = d + '/c'
    c = slurping.SlurpingClassifier()
    for u in 'a.b/c', 'a.b/c', 'a.b/cd', 'x.y', 'a.b/cd':
        slurping.slurp_wordstream = ('http', u)
        assert len(list(c._generate_slurp())) == 1
assert asked == ['http://a.b/c', 'http://a.b/cd', 'http://x.y'], asked
'''),
 dict(id='s47-second-level', property='C39',
  needs='a host of three or more labels whose last but one has fewer than three characters, under a long top-level domain',
  what_it_breaks='base_url keeps three labels although the last has three characters or more',
  edits=[(SL, "        if len(parts[-1]) < 3:", "        if len(parts[-1]) < 3 or len(parts[-2]) < 3:")],
  demo='''
from sbclassifier.classifiers.slurping import base_url
for u, want in [('www.massey.ac.nz/~t', 'massey.ac.nz'), ('id.example.com', 'example.com'), ('pay.hp.com/x', 'hp.com'), ('a.b', 'a.b')]:
    assert base_url(u) == want, base_url(u)
'''),
 dict(id='s48-stale-url', property='C39',
  needs='a text with https URLs only after one with an http URL',
  what_it_breaks='the URL of an earlier message stays pending',
  edits=[(SL, """        slurp_wordstream = None
        # Continue""", """        if b'http' not in text:
            slurp_wordstream = None
        # Continue""")],
  demo='''
from sbclassifier.classifiers import slurping
s = slurping.SlurpingURLStripper()
for t, want in [(b'see http://a.b/c).', 'a.b/c'), (b'no url', None), (b'http://x', 'x'), (b'https://y', None)]:
    s.analyze(t)
    u = slurping.slurp_wordstream
    assert (u and u[1]) == want, (t, u)
'''),
 dict(id='s49-longest-run-remembered', property='C40',
  needs='X_SHORT_RUNS, and an earlier message with a longer run of short words',
  what_it_breaks='the clue about short words is that of the longest run of all messages so far',
  edits=[(T, "        self.basic_skip = [re.compile(s) for s in BASIC_HEADER_SKIP]", """        self.basic_skip = [re.compile(s) for s in BASIC_HEADER_SKIP]
        self.short_runs = set()"""),
         (T, "        short_runs = set()\n", "        short_runs = self.short_runs\n")],
  demo='''
from sbclassifier import tokenizer
from sbclassifier.message import from_string
tokenizer.X_SHORT_RUNS = True
def short(text):
    return {t for t in tokenizer.tokenize(from_string('Subject: x\\n\\n' + text)) if t.startswith(b'short:')}
assert short('a b c d e f g h word') == {b'short:3'}
assert short('a b word') == {b'short:1'}, short('a b word')
'''),
 dict(id='s50-decoded-in-place', property='C40',
  needs='a base64 text part in a message that is used again after it was tokenized',
  what_it_breaks='tokenizing replaces the encoded text of the message by the decoded text',
  edits=[(T, "                text = part.get_payload(decode=True)\n            except:\n                yield \"control: couldn't decode\"\n", """                text = self.decoded(part)
            except:
                yield "control: couldn't decode"
"""),
         (T, "    def tokenize_body(self, msg):\n", """    def decoded(self, part):
        text = part.get_payload(decode=True)
        if part.get('content-transfer-encoding') == 'base64':
            part.set_payload(text.decode('latin-1'))
            del part['content-transfer-encoding']
        return text

    def tokenize_body(self, msg):
""")],
  demo='''
from sbclassifier.tokenizer import tokenize
from sbclassifier.message import from_string
m = from_string('Content-Transfer-Encoding: base64\\n\\naGVsbG8gd29ybGQ=\\n')
before = m.as_string()
tokens = set(tokenize(m))
assert b'hello' in tokens
assert m.as_string() == before, m.as_string()
assert set(tokenize(m)) == tokens
'''),
 dict(id='s53-comments-before-urls', property='C42',
  needs='a URL inside an HTML comment, or a URL with the start of a comment in it',
  what_it_breaks='comments are removed before the URLs are looked for, so URLs in comments give no tokens',
  edits=[(T, """            for cracker in (crack_uuencode,
                            crack_urls,
                            crack_html_style,
                            crack_html_comment,
""", """            for cracker in (crack_uuencode,
                            crack_html_comment,
                            crack_urls,
                            crack_html_style,
""")],
  demo='''
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
toks = set(tokenize(from_string('Content-Type: text/html\\n\\nsome <!-- see http://a.example/b --> text\\n')))
assert b'url:example' in toks and b'text' in toks and b'see' not in toks, toks
'''),
 dict(id='s54-virus-mark-after-space', property='C42',
  needs='dangerous markup right after a quote, without white space between them',
  what_it_breaks='an attribute right behind a quoted value gives no virus clue',
  edits=[(T, r"""|   \b src= ['"]? cid:""", r"""|   (?<= \s ) src= ['"]? cid:""")],
  demo='''
from sbclassifier.message import from_string
from sbclassifier.tokenizer import tokenize
toks = set(tokenize(from_string('Content-Type: text/html\\n\\n<img alt="x"src=cid:1 width=0>\\n')))
assert b'virus:src=cid:' in toks and b'virus:width=0' in toks, toks
'''),
]
