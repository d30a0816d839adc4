#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': state or [],
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': observe, 'hook_needed': None}})
B = 'sbclassifier/classifiers/basic.py'
S = 'sbclassifier/classifiers/storage.py'
M = 'sbclassifier/message.py'
T = 'sbclassifier/tokenizer.py'

prop('C01', 'The spam score is the chi-squared combination of its clues, in [0, 1]',
 'Classifier.spamprob returns a number in [0, 1]: with H and S the chi-squared survival measures of the products of the '
 'selected clue probabilities and of their complements, the score is (S - H + 1) / 2, and exactly 0.5 when no token of the message is a '
 'clue, however many clues there are and however small the products get. With evidence=True it returns the same score plus the '
 'list [(*H*, H), (*S*, S), then every clue used with its probability, in increasing probability order].',
 ['inputs'], 'every training state (per-token ham/spam counts and totals) and every token stream, up to the 150-clue cap',
 'the tests score two three-token messages against one fixed training set; nothing covers the underflow guards, mixed ham and spam clues, or the evidence list',
 [B], [('product accumulation with frexp scaling', B+':Classifier.spamprob'), ('chi-squared tail', B+':chi2Q')], ['return value of spamprob'])

prop('C02', 'Scoring uses exactly the 150 strongest distinct significant tokens',
 'Without bigrams, the clues of a message are its distinct tokens whose spam probability is at least 0.1 away from 0.5; when there are '
 'more than 150 of them, exactly 150 are used and no token left out is stronger than one that is used. The score and the evidence do '
 'not change when tokens are repeated or reordered, or when the stream is a one-shot iterator instead of a list.',
 ['inputs'], 'every token stream and training state; boundary sizes 149 to 152 clues in particular',
 'no test has more than five tokens or a weak or repeated token',
 [B], [('clue selection', B+':Classifier._getclues'), ('MAX_DISCRIMINATORS, MINIMUM_PROB_STRENGTH', B)], ['evidence list of spamprob'])

prop('C03', 'A token probability is the Bayesian-adjusted count ratio, strictly inside (0, 1)',
 'For a token seen in h of nham ham and s of nspam spam messages (totals of 0 count as 1), probability(record) equals '
 '(0.45*0.5 + n*p) / (0.45 + n) with n = h + s and p = (s/nspam) / (h/nham + s/nspam), which lies strictly between 0 and 1. '
 'A record whose ham (spam) count exceeds the number of trained ham (spam) messages raises an exception instead of giving a score.',
 ['inputs'], 'all non-negative counts h, s (not both 0) and totals',
 'tests only observe the final score for counts of 0 and 1',
 [B], [('Robinson adjustment', B+':Classifier.probability')], ['return value of probability'])

prop('C04', 'Training counts messages and tokens exactly; unlearning reverses learning',
 'After any sequence of learn and unlearn calls that each succeed, nspam and nham equal trainings minus untrainings of each class and, '
 'when every unlearn repeats an earlier learn, each token record counts exactly the remaining spam and ham messages that contain it (once per message), with no record '
 'kept for a token with both counts zero. Unlearning a class whose message count is zero raises ValueError and changes nothing.',
 ['histories'], 'every history of learn_spam/learn_ham/unlearn_spam/unlearn_ham over token streams with repeated tokens, from arbitrary consistent states',
 'tests learn one ham and one spam message and only look at scores',
 [B], [('learning', B+':Classifier._add_msg'), ('unlearning', B+':Classifier._remove_msg')], ['nspam', 'nham', 'wordinfo'])

prop('C05', 'Scores never go stale: they depend only on the current counts',
 'At any moment spamprob and probability give the value determined by the current message totals and token counts alone: scoring a message earlier, and '
 'any learn, unlearn, pickling or reload in between, never changes what a later call returns compared with a classifier '
 'freshly built with the same counts. Scoring itself changes no count.',
 ['histories'], 'all interleavings of scoring with learn/unlearn/pickle round trip/reload (bounded length) over symbolic counts',
 'no test scores twice around a training call, which is when the probability cache could be stale',
 [B, S], [('probability cache', B+':Classifier.probability'), ('cache invalidation', B+':Classifier._add_msg, _remove_msg, __setstate__')], ['return values of spamprob/probability'])

prop('C06', 'Bigram mode learns every token and adjacent pair, and scores without overlap',
 'With use_bigrams, learning a stream t1..tn (list or one-shot iterator) counts exactly the distinct elements of {t1..tn} and {"bi:t1 t2", ..., '
 '"bi:t(n-1) tn"}, and unlearning the same stream takes exactly those back. Scoring uses only such clues, each '
 'at most once and at least 0.1 away from 0.5, chosen greedily from the strongest so that no token position contributes to two clues.',
 ['inputs'], 'all token streams up to the stated length including repeated tokens, tokens as str or bytes, arbitrary counts',
 'one bigram test with three known words; it never looks at pairs or at the last token',
 [B], [('stream enhancement', B+':Classifier._enhance_wordstream'), ('tiling', B+':Classifier._getclues')], ['wordinfo', 'evidence list'])

prop('C07', 'The chi-squared tail is right, clamped and rejects odd degrees of freedom',
 'chi2Q(x2, v) equals exp(-m) * sum(m**i / i! for i < v/2) with m = x2/2 for every even v >= 2 and x2 >= 0, and is never outside '
 '[0, 1] even when rounding pushes the sum above 1. An odd v raises ValueError.',
 ['inputs'], 'every x2 >= 0, every even v up to the stated bound, all odd v in range',
 'the function has no test of its own',
 [B], [('series', B+':chi2Q')], ['return value'])

prop('C08', 'A pickled classifier comes back with the same counts and scores',
 'Storing a PickleClassifier and opening its file again gives the same nspam, nham and token records, and the reopened classifier scores and trains like the original; '
 'load() replaces the whole in-memory state by the stored one. A file that does not exist opens as an empty classifier, and state of an '
 'unknown format version is rejected with ValueError by __setstate__.',
 ['histories', 'inputs'], 'all states (token set, counts, totals) and store/train/load/reopen orders up to the bound',
 'tests store one fixed training set',
 [S, B], [('load/store', S+':PickleClassifier'), ('state tuple', B+':Classifier.__getstate__/__setstate__')], ['counts, records and scores after reopening'])

prop('C09', 'An interrupted pickle write leaves the old or the new file, never a mixture',
 'If pickle_write stops or fails at any I/O step (open, write, flush, close, rename), the target file afterwards still holds a complete pickle: the previous content, or the new value. '
 'It never overwrites the target in place or by copying from another directory, and both pickle_read and pickle_write hold the lock for that file name while they touch it and release it on every exit.',
 ['crash_points', 'fault_sequences'], 'every I/O step as the crash point or failing call, with or without an existing target',
 'tests never interrupt a write',
 ['sbclassifier/safepickle.py'], [('temporary file then rename, under a lock', 'sbclassifier/safepickle.py:pickle_write')], ['content of the target file after each crash point', 'lock state'])

prop('C10', 'The shelve-backed classifier behaves like the in-memory one',
 'For any sequence of learn, unlearn, score, store, close and reopen, a ShelveClassifier reports the same nspam, nham, per-token counts and scores as an '
 'in-memory Classifier given the same trainings, tokens being bytes or str (reopening being preceded by store()): reopening the file gives the stored state. '
 'No token, whatever its text, can overwrite or be confused with the saved totals.',
 ['histories'], 'operation sequences up to the stated length over arbitrary (possibly equal) tokens and arbitrary consistent starting counts, including hapax write-through, deletion and re-learning before store()',
 'the storage tests that would cover this fail to run in this tree and use a handful of fixed words',
 [S], [('write-through of hapaxes, changed/deleted sets', S+':ShelveClassifier._wordinfoset/_wordinfodel/store'), ('state record', S+':ShelveClassifier._write_state_key')], ['counts and scores via the public API, before and after reopening'],
)

prop('C11', 'A CDB file returns exactly what was put into it',
 'For any list of (key, value) pairs, the file written by cdb_make read back with Cdb gives every pair in order by iteration, the first value stored for '
 'each present key by get and [], and None or KeyError for any absent key, also when keys collide in hash or table slot or are empty. '
 'The hash is the CDB hash (h starts at 5381, then h = (h*33 mod 2^32) xor byte), so other CDB implementations can read the file.',
 ['inputs'], 'all keys and values (as text or bytes) up to the stated sizes, including hash collisions',
 'there is no CDB test at all',
 ['sbclassifier/cdb.py'], [('hash', 'sbclassifier/cdb.py:cdb_hash'), ('writer', 'sbclassifier/cdb.py:cdb_make'), ('probe sequence', 'sbclassifier/cdb.py:Cdb.findnext')], ['items(), get(), []'])

prop('C12', 'The CDB-backed classifier restores exactly the stored counts',
 'Storing a CDBClassifier and opening its file again gives the same nspam and nham and, for every token, the same spam and ham counts. '
 'No token, whatever its text, is mistaken for the saved totals, and a missing file opens as an empty classifier.',
 ['inputs', 'histories'], 'all token/count tables up to the stated size',
 'no test uses the CDB classifier',
 [S, 'sbclassifier/cdb.py'], [('text encoding of the counts', S+':CDBClassifier.store/load')], ['nspam, nham, records after reopening'])

prop('C13', 'Serialised messages use CRLF line endings only and keep all other text',
 'force_crlf turns every CRLF, lone CR and lone LF into exactly one CRLF and changes nothing else (so applying it twice is the same as once). '
 'Message.as_string returns the generated message text with exactly this normalisation applied.',
 ['inputs'], 'all strings up to the bound over an alphabet with CR, LF, other Unicode line separators and ordinary characters',
 'tests use a few fixed strings',
 [M], [('force_crlf', M+':force_crlf'), ('as_string', M+':Message.as_string')], ['returned text'])

prop('C14', 'Classification notes in Subject and To are added once and removed cleanly',
 'add_notations prefixes the Subject with "<class>," and the To header with "<class>@spambayes.invalid," exactly when the classification is selected for that header, '
 'and adds the bare note as header when there was none. remove_notations, for exactly the headers it was asked to clean, removes exactly one leading note, so adding and then removing notes restores any '
 'Subject and To that the message had; with neither flag set it changes nothing.',
 ['inputs'], 'all subject/recipient texts (including ones that look like notes), all classifications and all selections of headers',
 'tests use one fixed subject and recipient',
 [M], [('add_notations/remove_notations', M+':Message')], ['Subject and To headers'])

prop('C15', 'All our own headers can be stripped again and nothing else is touched',
 'add_sb_headers adds the classification header (and score, level, evidence and id headers as selected) reflecting the given score, and remove_sb_headers deletes every SpamBayes header (X-Spambayes- followed by Classification, MailId, Classification-ID, Level, Evidence, Spam-Probability or Trained), in any letter case and number, leaving all other headers in order and, '
 'with the notes of the two given flags removed as asked, unchanged, so a stripped message has no trace of an earlier run. current_sb_headers returns exactly the SpamBayes headers present, with their first values.',
 ['inputs'], 'all option combinations, scores in [0,1], header sets with duplicates, odd letter case and look-alike names',
 'tests check a few option combinations with fixed headers',
 [M], [('header list', M+':Message.remove_sb_headers/current_sb_headers'), ('header creation', M+':Message.add_sb_headers')], ['header list of the message'])

prop('C16', 'Classification follows the cutoffs; a message id is written once',
 'set_classification maps a float score to ham if it is below 0.2, spam if it is above 0.9 and unsure otherwise (the cutoffs themselves are unsure), keeps a Classification value as given, and '
 'raises ValueError for anything else without changing the message. set_id accepts only a string other than the two reserved statistics keys, never replaces a different non-empty id already set, and '
 'on every rejection (TypeError or ValueError) leaves the id as it was.',
 ['inputs'], 'all floats except NaN (including values next to the cutoffs), all id values and previous ids',
 'tests use a few scores and ids',
 [M], [('set_classification', M+':Message.set_classification'), ('set_id', M+':Message.set_id')], ['classification(), id()'])

prop('C17', 'The exception header is inserted without damaging the message',
 'For a text with a non-empty header block, insert_exception_header returns a text whose header block is the original header block followed by one X-Spambayes-Exception header (and the id header when an id is given), each ending in CRLF, then a CRLF blank line and the body '
 'exactly as it was. Whatever the exception text contains, it stays inside that one header (every continuation line starts with white space), and a message without a body gets an empty body.',
 ['inputs'], 'all message texts and exception texts up to the bound, with LF or CRLF line endings',
 'one fixed example is tested',
 [M], [('insert_exception_header', M+':insert_exception_header')], ['returned text'])

prop('C18', 'The in-memory cache and corpus are a bounded insertion-ordered map',
 'After any sequence of put and pop, a NaiveCache holds exactly the entries of a dictionary limited to max_size, where a put of a new key beyond the limit evicts the entry first added earliest, a put of an existing key only replaces its value, and len, iteration, keys, values, get and [] all '
 'agree with that dictionary. A Corpus given a cache (also an empty one) uses that cache, and each add_message or remove_message updates it and sends message_added or message_removed exactly once to the subscribers of this corpus, unless emit_signal is false.',
 ['histories'], 'all put/pop/get (add/remove) sequences up to the bound over arbitrary, possibly equal keys and limits',
 'tests use one or two keys and never reach the limit with repeated keys',
 ['sbclassifier/corpora/caches.py', 'sbclassifier/corpora/base.py'], [('eviction order', 'sbclassifier/corpora/caches.py:NaiveCache'), ('signals', 'sbclassifier/corpora/base.py:Corpus')], ['mapping API', 'signals received'])

prop('C19', 'A file corpus is exactly the set of matching message files in its directory',
 'After any sequence of add_message, lookups and remove_message, also with more messages than cache_size, the directory of a FileCorpus holds one file per message added and not removed, containing that message; '
 'len, iteration, keys, values, in, get and [] reflect those files, a reopened corpus sees the same messages, and a message read back from its file carries its key as id. Files that do not match the name filter are never listed, returned or written, and only remove_message deletes a file.',
 ['histories'], 'operation sequences up to the bound over arbitrary ids, filters and cache sizes',
 'tests use two or three fixed messages, mostly with an unbounded cache',
 ['sbclassifier/corpora/caches.py', 'sbclassifier/corpora/filesystem.py'], [('two-level cache', 'sbclassifier/corpora/caches.py:FileCache')], ['directory content', 'mapping API'])

prop('C20', 'Trained classifiers follow the corpora they watch',
 'A Trainer attached to corpora learns each message added to one of them and unlearns each message removed, with the right class, and nothing else; so after any add/remove sequence (of messages with distinct ids, in corpora that evict nothing) the '
 'classifier equals one trained from scratch on the messages now in the watched corpora. Each message remembers how it was trained (True for spam, False for ham, None after removal), and corpora that are not watched never affect the classifier.',
 ['histories'], 'add/remove sequences up to the bound across ham, spam and unwatched corpora',
 'the trainer test file has no test',
 ['sbclassifier/trainers.py', 'sbclassifier/corpora/base.py'], [('signal subscriptions', 'sbclassifier/trainers.py:Trainer')], ['classifier counts', 'Message.is_trained'])

prop('C21', 'Expiry removes expired messages and only those',
 'remove_expired_messages, once a check is due, removes exactly the messages whose file is older than the expiry age (its creation time plus the age is before the current time), without sending training signals, and keeps every younger one. The next check is due no later than the moment the next '
 'kept message expires (and no later than one expiry age from now), and calls before that moment change nothing.',
 ['inputs', 'histories'], 'all expiry ages, file ages and clock values (clock as a symbolic non-decreasing variable)',
 'there is no expiry test that runs it',
 ['sbclassifier/corpora/filesystem.py'], [('expiry_due', 'sbclassifier/corpora/filesystem.py:ExpiryFileCorpus')], ['directory content, signals'])

prop('C22', 'Tokenizing never fails and yields only bytes tokens',
 'tokenize(message) terminates without an exception for any message that the email package itself can parse, given as bytes or as a string free of surrogates - any subject, addresses, received or id lines including encoded, 8-bit and malformed ones, any content type or file name, any body with HTML, entities, uuencoded or broken base64 sections - '
 'and every token it yields is a bytes object. The same message always gives the same set of tokens.',
 ['inputs'], 'all header values and bodies up to the stated symbolic windows in concrete message templates',
 'the tokenizer test file has no test',
 [T, 'sbclassifier/strippers.py'], [('convert_to_bytes', T), ('Tokenizer', T)], ['token stream'])

prop('C23', 'Body words map to tokens by the length rules',
 'Of the white-space-separated words of the cleaned, lower-cased body text, those shorter than 3 bytes give no token and those of 3 to 12 bytes give themselves; a longer word of fewer than 40 bytes with a dot and exactly one @ gives "email name:" and "email addr:" tokens for its two halves; '
 'any other long word gives "skip:<first byte> <length rounded down to tens>" and, if it has bytes above 127, "8bit%:<percentage>". No other tokens come from words.',
 ['inputs'], 'all words over all byte values at the boundary lengths 2, 3, 12, 13, 19, 20, 39, 40 and in between up to the bound',
 'no tokenizer tests',
 [T], [('tokenize_word/tokenize_text', T)], ['token stream of Tokenizer.tokenize_text and of a whole message'])

prop('C24', 'Stripping removes only complete special sections',
 'Stripper.analyze returns the text with each complete start..end section removed (joined by the separator) and the tokens of the start matches; an opening mark without an end is kept with all the text after it, and text without a '
 'start mark is returned unchanged. Applied by the tokenizer to style blocks, HTML comments, noframes and uuencoded sections, it never drops or invents text outside such sections, and it terminates.',
 ['inputs'], 'all texts up to the bound over the bytes that the patterns distinguish, including nested, adjacent and unterminated sections',
 'no tests',
 ['sbclassifier/strippers.py'], [('analyze', 'sbclassifier/strippers.py:Stripper.analyze'), ('section patterns', 'sbclassifier/strippers.py')], ['returned text and tokens'])

prop('C25', 'URLs become protocol and component tokens and leave the text',
 'Each http, https or ftp URL in the text is cut out of it and yields "proto:<protocol>" followed by one "url:<component>" token per component, '
 'where the URL rest, without trailing punctuation (. : ? ! /), is split at slashes and at ; ? : @ & = + , $ and dots. Text outside URLs is returned unchanged.',
 ['inputs'], 'all texts up to the bound with zero, one or two URLs',
 'no tests',
 ['sbclassifier/strippers.py'], [('URLStripper.tokenize', 'sbclassifier/strippers.py')], ['returned text and tokens'])

prop('C26', 'HTML markup cannot hide or split words',
 'In body text, <p>, <br> and &nbsp; separate words, any other short tag is removed without separating (so a word interrupted by a tag is seen whole), and numeric entities up to 255 stand for their character; "<" followed by white space, "<" or ">" is not a tag. '
 'A body without "<" and "&" gives the same words as its plain white-space split.',
 ['inputs'], 'all bodies up to the bound over the distinguishing bytes',
 'no tests',
 [T], [('breaking_entity_re, html_re, numeric_entity_re', T)], ['token stream'])

prop('C27', 'Damaged base64 text is repaired to decoded prefix plus the rest',
 'try_to_repair_damaged_base64 splits the payload at the end of its leading base64 lines (up to and including the first line ending in =), and returns the decoded bytes of that part followed by the unchanged rest as bytes; '
 'when the part does not decode it contributes nothing, and text that does not start with a base64 line is returned unchanged. It never raises for text as the email parser delivers it (8-bit bytes as surrogate escapes).',
 ['inputs'], 'all texts up to the bound',
 'no tests',
 [T], [('try_to_repair_damaged_base64', T)], ['returned bytes'])

prop('C28', 'Header tokens reflect the headers present, and only those',
 'For any message, the tokens contain "subject:<word>" for every word of 3 to 12 characters (longer ones by the rules for body words) and every punctuation run of the Subject, with case kept; per address field either "<field>:none" or the lower-cased name and address parts of every address; "header:<Name>:<count>" for exactly the counted header names as spelled; the message-id host or '
 '"message-id:invalid"; the X-Mailer text; and, when mining Received lines is switched on, the host suffixes and IP prefixes of those lines. Headers outside the tokenized set do not change the tokens.',
 ['inputs'], 'header values up to the stated symbolic windows',
 'no tests',
 [T], [('Tokenizer.tokenize_headers', T)], ['token stream'])

prop('C29', 'IP address clues name the right networks for the requested prefixes',
 'subnets(address, prefixes) yields, for each requested prefix length in order (8, 16, 24, 32 by default), exactly the IPv4 network of that length that contains the address, with host bits cleared, and gen_dotted_quad_clues renders each as "<prefix>:<network>".',
 ['inputs'], 'all 2^32 addresses and all prefix lengths 0 to 32',
 'one address is tested',
 ['sbclassifier/iputils.py'], [('subnets', 'sbclassifier/iputils.py')], ['yielded networks and strings'])

prop('C30', 'DNS lookups are bounded in time, fail softly and restore the socket timeout',
 'dns_lookup and reverse_dns_lookup run with the 10 second default socket timeout, restore the previous default on every exit whatever the resolver does, and return an empty result on a timeout or when the name or address does not resolve. memoize calls its function once per distinct argument tuple and returns that result from then on.',
 ['fault_sequences', 'inputs'], 'every resolver outcome (result, each kind of error) and every previous timeout',
 'one lookup is tested with the network absent',
 ['sbclassifier/dnsutils.py'], [('timed', 'sbclassifier/dnsutils.py:timed'), ('memoize', 'sbclassifier/dnsutils.py')], ['return value, socket.getdefaulttimeout()'])

prop('C31', 'NNTP posting hosts give network and domain clues for every header',
 'For every NNTP-Posting-Host header the tokenizer can mine either the address clues (the networks of an IP address, plus has-reverse, host name and domain when it resolves backwards) or the name clues (host name, its two top-level labels, and the networks of each address it resolves to), '
 'whatever the resolver answers and without failing.',
 ['inputs', 'fault_sequences'], 'all header lists up to the bound and all resolver answers',
 'no tests',
 [T], [('mine_nntp, clues_from_ipaddress, clues_from_domainname', T)], ['clues yielded'])

prop('C32', 'The URL-following classifier only ever refines unsure scores',
 'With no URL pending, SlurpingClassifier learns, unlearns and scores exactly like Classifier. Fetched page tokens replace the score only if the plain score was strictly between the cutoffs, fewer than 150 clues were available and the '
 'enlarged score falls outside that range; otherwise score and evidence are those of the message alone. Learning with a URL pending also learns the tokens of its page.',
 ['inputs', 'histories'], 'all plain and enlarged scores, clue counts and pending-URL states',
 'no tests',
 ['sbclassifier/classifiers/slurping.py'], [('spamprob', 'sbclassifier/classifiers/slurping.py:SlurpingClassifier')], ['return value of spamprob, counts'])

prop('C33', 'Transfer encodings and MIME structure are transparent to body tokens',
 'The body tokens of a message are exactly those of its text parts (any text subtype, also without a Content-Type header or with a malformed one), at any depth of multiparts and attached messages, each with its base64, quoted-printable or uuencode transfer encoding (in any letter case) decoded: '
 'encoding the same text differently changes no token. Parts of other types give no body tokens.',
 ['inputs'], 'texts up to the stated symbolic windows in every encoding, and all structures of up to three parts',
 'no tests',
 [T], [('textparts, Tokenizer.tokenize_body', T)], ['token stream'])

prop('C34', 'MIME headers of every part give content, charset and file name clues',
 'For the message and every part in it, at any depth, the tokens contain "content-type:<type>" with the lower-cased type (the default type if it is missing or malformed), "content-type/type:" and "charset:" with the lower-cased type parameter and charset, "content-disposition:" with the whole lower-cased value, and for a file name '
 '"filename:fname:<name>" with case kept, "filename:fname comp:" for each of its components if there are several (separated by /, \\ or :), and "filename:fname piece:" for each piece of a component if punctuation divides it; and no other tokens of these kinds.',
 ['inputs'], 'header values up to the stated symbolic windows and all structures of up to three parts',
 'no tests',
 ['sbclassifier/strippers.py', T], [('crack_content_xyz, crack_filename', 'sbclassifier/strippers.py'), ('Tokenizer.tokenize_headers', T)], ['token stream'])

prop('C35', 'Options for body clues add or change just what they document',
 'CHECK_OCTETS adds "octet:" with the first OCTET_PREFIX_SIZE bytes of the content of every application/octet-stream part; IMAGE_SIZE adds the size of all images together as the nearest power of two; X_SHORT_RUNS adds the (whole) binary logarithm of the longest run of words shorter than three characters; '
 'REPLACE_NONASCII_CHARS turns control and high-bit characters into question marks before words are split; without GENERATE_LONG_SKIPS only the skip tokens vanish. None of them changes another token or makes tokenizing fail.',
 ['inputs', 'configurations'], 'texts up to the stated symbolic windows for every option',
 'no tests',
 [T], [('Tokenizer.tokenize_body, tokenize_text, tokenize_word', T)], ['token stream'])

prop('C36', 'Options for header clues add or change just what they document',
 'Basic header tokenizing adds "<header>:<word>" for the words of every header value, except headers whose name begins with a match of a skip pattern, and "only" leaves just these and the MIME and body tokens; COUNT_ALL_HEADER_LINES counts every header name as spelled; RECORD_HEADER_ABSENCE adds "noheader:<name>" '
 'for each safe header that is absent; the Habeas options report each Habeas header, or all nine together, as valid or invalid; the summaries report the length of the common prefix or suffix of all To and Cc addresses. None of them changes another token.',
 ['inputs', 'configurations'], 'header values up to the stated symbolic windows for every option',
 'no tests',
 [T], [('Tokenizer.tokenize_headers', T)], ['token stream'])

prop('C37', 'Options for URL clues find URLs without protocol and pick hosts apart safely',
 'FANCY_URL_RECOGNITION also takes www.x and ftp.x at the start of a word for URLs, of the protocols http and ftp. X_PICK_APART_URLS adds, for any URL: each %xx escape and how many there are, whether the host part has a user, a port other than the standard one of http or https, or a host of digits and dots, and '
 'takes the other URL clues from the URL without escapes; with X_LOOKUP_IP also the networks of every address of the host, or a lookup error. None of them fails on any URL.',
 ['inputs', 'configurations'], 'all URLs up to the stated symbolic windows and all answers of the lookup',
 'no tests',
 ['sbclassifier/strippers.py'], [('URLStripper', 'sbclassifier/strippers.py')], ['text and tokens returned by analyze'])

prop('C38', 'Following a URL fails softly, and asking again gives the same clues',
 'Following a URL gives the clues of the page (those tokenize() finds in its text and its response headers, behind X_WEB_PREFIX), or exactly one clue that names the failure: url:non_resolving, url:non_html, url:unknown_error or url:http_XXX for an HTTP error; lookup and retrieval errors never surface. '
 'Asking for the same URL again, also after a restart with the same cache directory, gives the same clues without retrieving anything until the page expires, each URL has its own page, and damaged lists of failures are replaced by new ones. '
 'A proxy is used only if one is configured, and nothing is retrieved for names that do not resolve or end like images, styles and scripts.',
 ['inputs', 'fault schedules', 'histories'], 'the stated URLs, pages, statuses and failures',
 'no tests',
 ['sbclassifier/classifiers/slurping.py'], [('SlurpingClassifier.slurp, setup, _save_caches', 'sbclassifier/classifiers/slurping.py')], ['tokens', 'requests made'])

prop('C39', 'The last http URL of a text is the one followed, reduced to its base on request',
 'SlurpingURLStripper strips the same text and gives the same tokens as URLStripper, and afterwards the pending URL is that of the last http URL of this text without the punctuation after it, or none if the text has none. '
 'base_url(), used with X_ONLY_SLURP_BASE, keeps the last two labels of the host (three if the last has fewer than three characters) and the port, leaves hosts with a numeric last label whole, and drops path, query and fragment.',
 ['inputs'], 'texts and URLs up to the stated symbolic windows',
 'no tests',
 ['sbclassifier/classifiers/slurping.py'], [('SlurpingURLStripper, base_url', 'sbclassifier/classifiers/slurping.py')], ['text, tokens and pending URL'])

prop('C40', 'Tokenizing leaves a message alone and depends on nothing but that message',
 'Tokenizing a message, however much of the token stream is consumed, changes neither its headers, parts and payloads nor its id, classification and training flag. '
 'Its set of tokens depends on the message and the options alone: it is the same when the message is tokenized again, after any other message, with its stream consumed in turn with that of another message, or by a new Tokenizer. '
 'An ASCII message gives the same tokens as str and as Message object.',
 ['inputs', 'histories', 'interleavings'], 'the stated messages with symbolic parts, pairs of messages and switch points',
 'tests tokenize no message twice',
 ['sbclassifier/tokenizer.py', 'sbclassifier/strippers.py'], [('Tokenizer.__call__, tokenize_headers, tokenize_body', 'sbclassifier/tokenizer.py')], ['message before and after', 'tokens'])
prop('C41', 'Objects are independent of each other, and of the arguments they are given',
 'After any interleaving of operations on two classifiers (of any kind, each with its own file), two caches, two corpora (each with its own directory), two corpora with a trainer each, or two messages, each is in the state, and gave the results, that its own operations alone produce in a new process. '
 'learn, unlearn and spamprob leave the list, set or other collection of tokens they are given as it was and remember nothing of it. '
 'The list of evidence spamprob returns may be changed freely: later results are the same.',
 ['histories', 'interleavings'], 'all interleavings of up to 4 or 5 operations on two objects',
 'tests use one object at a time',
 ['sbclassifier/classifiers/basic.py', 'sbclassifier/classifiers/storage.py', 'sbclassifier/corpora', 'sbclassifier/message.py', 'sbclassifier/trainers.py'],
 [('Classifier', 'sbclassifier/classifiers/basic.py'), ('NaiveCache', 'sbclassifier/corpora/caches.py'), ('Corpus', 'sbclassifier/corpora/base.py')], ['state of each object', 'arguments'])
prop('C42', 'Dangerous markup gives virus clues, and hidden URLs count, wherever they are',
 'In the decoded, lower-cased text of every text part, with numeric character references replaced, each opening or closing script or iframe tag, each src= with a cid: URL, and each height= or width= whose value starts with 0 gives a "virus:" token with this markup as found; nothing else does, and it does not matter whether the markup is in a section that is removed later. '
 'URLs inside comments, style blocks and tags give their tokens, too, and uuencoded sections only those of their begin line. '
 'The words are those of the text that is left after uuencoded sections, URLs, style blocks, comments, noframes blocks and other tags are removed, in this order.',
 ['inputs'], 'texts of the stated pieces with symbolic bytes',
 'no tests',
 [T], [('find_html_virus_clues', T+':find_html_virus_clues'), ('order of the passes', T+':Tokenizer.tokenize_body')], ['tokens of the body'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    print(len(P))
