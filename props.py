"""What each check explores.  A job is one harness with its arguments."""

Q, T, QT = ('quick',), ('thorough',), ('quick', 'thorough')


# Harnesses with long inputs: the limit of instructions tells non-termination.
LONG = ('_long', '_huge', '_many', '_deep', '_empty', '_space', '_chain', '_crowd')


def job(entry, *args, covers=(), bound, tiers=QT, opts={}, **kw):
    if entry.endswith(LONG):
        opts = {'max-steps': 400000000, **opts}
    return dict(opts=opts, entry=entry, args=list(args), covers=list(covers), bound=bound, tiers=tiers, **kw)


RUNS = 'a space, a letter, an escape, an empty nest, U+3000, a start and an end'
HUGE = {'max-steps': 4000000000}


# Covers of inmem::whole and combs::covers.
FORMS = [1, 2, 3, 4, 5]
AFTER_ERR = [9, 10]
OPS = [30, 31, 32, 33, 34, 35]
APS = [40, 41, 42, 43, 44, 45]

OUT = ('Longer symbolic parts than stated, other than in the long and deep inputs listed; '
       'nesting deeper than stated (parsing recurses on nests by design, which the project lists as a to-do).')

STRISH = ['Rc<String>', 'Rc<str>', 'Rc<Box<str>>', 'Arc<String>', 'Arc<str>', 'Arc<Box<str>>']
STREAM_OUT = 'Contents and numbers of calls beyond those stated.'
TEXT_OUT = 'Texts longer than stated, other than the long ones listed.'

OWN = "a user's own text that keeps empty chunks, each with a source of its own"
POS_KIND = ['bytes of ASCII', 'bytes of UTF-8', 'bytes of ASCII in an operative nest', 'bytes of UTF-8 in an operative nest', 'characters among delimiters and wide ones']
POS_STREAM = ['one PosStr text', 'chunks of PosStr, divided in any way', 'pieces of Rc<String>, divided in any way', 'characters as Rc<String>', 'chunks of Arc<str>, divided in any way', 'pieces of Arc<str>, divided in any way', 'characters as Arc<str>', OWN + ', divided in any way, perhaps with an empty chunk']
SOURCES7 = ['chunks of a PosStr text', 'chunks of a PosStrish text'] + \
    [f'{t} pieces' for t in STRISH] + ['chunks of a slice-allocated text'] + [f'characters as {t}' for t in STRISH] + [OWN]
LONG7 = ['PosStr chunks', 'Rc<str> chunks', 'Rc<String> pieces', 'characters as Rc<String>', 'chunks of a slice-allocated text']
SOURCES8 = SOURCES7[:9] + [OWN] + SOURCES7[9:15] + [''] * 4 + ['a PosStr chunk', 'a PosStrish chunk']
EMPTY = ['', ', one perhaps empty', ', up to two of them empty']
TEXTS = ['a TextVec of PosStr', 'a TextVec of PosStrish', 'a slice-allocated text', OWN]
PAIRS9 = ['PosStr and PosStr', 'PosStr and Rc<String>', 'Rc<String> and Arc<str>', 'slice-allocated and PosStr', 'slice-allocated and slice-allocated', 'slice-allocated and Rc<String>', 'Rc<String> and Rc<String>', OWN + ', and the same', OWN + ', and PosStr']


def P6(k):
    return [5, 6, 30] if k in (2, 3) else FORMS + [6]


def pieces7(st, e):
    return ', split in any way' + EMPTY[e] if st < 9 or st == 15 else ''


def pieces8(st, e):
    return ', split in any way' + EMPTY[e] if st < 10 else ''


def C8(st):
    return [1, 2, 3, 4, 6] + ([5] if st < 10 else [])


TREE_OUT = 'Larger trees than stated, other than the long ones listed, and cyclic graphs.'
REFS12 = ['Box and Box', 'Box and Rc', 'Rc and Arc', 'Arc and slice-allocated', 'slice-allocated with two kinds of text', 'slice-allocated and Box', 'Rc and Rc', 'slice-allocated and slice-allocated', 'Arc and Arc']
KIND14 = ['Box', 'Rc', 'Arc', "user's own"]
KIND16 = ['boxes with TextVec', 'slice with PosStr lists', 'slice with PosStrish lists from a stream', 'Rc from a stream', "boxes with a user's stream that takes memory for each character", "boxes with a user's stream of strings that takes memory for each character"]
SPLIT16 = ['in one piece', 'in any pieces', 'in two pieces or one for each character']
SIX = '{ } \\\\ space o a'
REFS17 = ['Box', 'Rc', 'Arc', 'slice-allocated', 'slice-allocated with slice-allocated texts']
KIND19 = ['a PosStr text', 'a slice-allocated text'] + [f'{t} pieces' for t in STRISH] + ['chunks of Rc<str>', 'chunks of Arc<String>']
KIND20 = ['a PosStr text', 'characters as Rc<String>', 'characters as Arc<str>', 'pieces of Rc<String>', 'pieces of Arc<str>', 'pieces of Rc<Box<str>>']
REUSE = [1, 2, 3, 4, 5, 12, 13, 14]
KIND24 = ['datums in boxes', 'datums in Rc', 'datums in Arc', 'datums and texts in a slice', 'a stream of strings', 'a stream of characters']
KIND26 = ['Rc<str> and boxes', 'Rc<String> and Rc', 'Rc<Box<str>> and Arc', 'Arc<str> and boxes', 'Arc<String> and Rc', 'Arc<Box<str>> and boxes',
          'results of which any one or all outlive a text of Rc<str>', 'results of which any one or all outlive a text of Arc<String>', 'a stream of characters to Rc<String>', 'a stream of characters to Arc<str>']
C26 = [[1, 2, 3, 4, 5]] * 6 + [[1, 2]] * 2 + [[1, 2, 3, 4]] * 2
MANY26 = ['from characters, in boxes', 'from characters, in Rc', 'from strings, in boxes', 'from strings, in Arc']
WHAT27 = ['drops it', 'takes it out and sets it', 'changes it in place', 'shares it and drops both']
C27 = [[1, 2, 3, 4, 9], [1, 2, 3, 4, 5, 6], [1, 2, 3, 4, 7, 8, 9], [1, 2, 3, 4, 9]]
KIND25 = ['a string', "chunks of a user's text", 'a string with all in a slice', 'a stream of characters', 'a stream of strings', 'chunks of shared strings', 'chunks in a slice']
KIND22 = [f'{a} and {t}' for t in ('PosStr texts', 'Rc<str> texts') for a in ('boxes', 'Rc', 'Arc', 'a slice', 'a slice with slice-allocated')]
MAP22 = ['pairs', 'a hash map']
C22 = [1, 2, 3, 4, 5, 6, 7, 8, 30, 31, 32, 33, 34, 40, 41, 42, 43, 44, 50]


def C16(k):
    return [1, 2, 4] + [3] * (k in (1, 2))



PROPS = {
    'K01': dict(outside=OUT, jobs=[
        job('k01_utf8', 7, covers=FORMS + [6], bound='every valid UTF-8 text of 7 bytes', tiers=Q),
        job('k01_ascii', 8, covers=FORMS, bound='every ASCII text of 8 bytes', tiers=Q),
        job('k01_within', 6, covers=FORMS, bound='every ASCII text of 6 bytes after any of 6 beginnings in which nests are open', tiers=Q),
        job('k01_huge', 70000, covers=[1, 2, 5], bound='text of 70000 characters with any of 3 delimiters at its end', opts={'max-steps': 2000000000}),
        job('k01_crowd', 70000, covers=[2, 3, 4, 5], bound='70000 forms in a nest or outside of any, then any of 3 delimiters', opts=HUGE),
        job('k01_long', 300, 1, covers=[1, 2, 3], bound='texts of 600 characters and more in 4 patterns, any UTF-8 of up to 4 bytes in the middle'),
        job('k01_space', 20000, covers=[3, 4, 5], bound='20000 whitespace characters in 3 patterns before and after any ASCII character in head position', opts={'max-steps': 2000000000}),
        job('k01_deep', 1500, 1, covers=[3, 4, 5, 6], bound='1500 nests deep, any ASCII character, then 1498 to 1501 ends'),
        job('k01_wide', 1000, 2, covers=[3, 4, 5], bound='a nest with 1000 forms in it, any 2 ASCII characters in the middle or at the end'),
        job('k01_runs', 4, 1, 12, 1, covers=FORMS + [6], bound=f'1 to 12 of any of {RUNS}, then any ASCII character, in up to 4 nests of 2 kinds, about as many ends', opts={'sample-every': 10}),
        job('k01_runs', 3, 2, 5, 0, covers=FORMS + [6], bound=f'1 to 5 of any and then 1 to 5 of any of {RUNS}, in up to 3 nests of 2 kinds, about as many ends', opts={'sample-every': 10}),
        job('k01_utf8', 9, covers=FORMS, bound='every valid UTF-8 text of 9 bytes', tiers=T, cross=True),
        job('k01_ascii', 11, covers=FORMS, bound='every ASCII text of 11 bytes', tiers=T, opts={'sample-every': 10}),
        job('k01_within', 8, covers=FORMS, bound='every ASCII text of 8 bytes after any of 6 beginnings in which nests are open', tiers=T),
    ]),
    'K02': dict(outside=OUT, jobs=[
        job('k02_utf8', 7, covers=FORMS + AFTER_ERR, bound='every valid UTF-8 text of 7 bytes', tiers=Q),
        job('k02_bound', 7, 1, covers=FORMS + [11] + AFTER_ERR + OPS + APS, bound='every ASCII text of 7 bytes, with an operative and an applicative, any outcome of the first call', tiers=Q),
        job('k02_nested', 6, covers=FORMS + AFTER_ERR + APS, bound='every ASCII text of 6 bytes after "{x{a", any outcome of the first call', tiers=Q),
        job('k02_deep', 20, 4, 1, covers=[3, 4, 5] + AFTER_ERR, bound='20 nests deep, any 4 ASCII characters, 18 to 21 ends, then text'),
        job('k02_deep', 600, 2, 0, covers=[3, 4, 5] + AFTER_ERR, bound='600 nests deep, any 2 ASCII characters, 598 to 601 ends, then text'),
        job('k02_strides', 5, covers=[12, 13], bound='every ASCII text of 5 bytes with an operative and an applicative, counting, skipping or collecting the items, from the first or the second on', opts={'sample-every': 4}),
        job('k02_crowd', 70000, covers=[1, 4, 5] + AFTER_ERR, bound='70000 errors, then any of 4 delimiters', opts=HUGE),
        job('k02_errors', 100, 2, covers=[5, 8] + AFTER_ERR, bound='100 errors of 4 kinds in turn, any 2 ASCII characters in between'),
        job('k02_utf8', 9, covers=FORMS + AFTER_ERR, bound='every valid UTF-8 text of 9 bytes', tiers=T),
        job('k02_bound', 9, 1, covers=FORMS + [11] + AFTER_ERR + OPS + APS, bound='every ASCII text of 9 bytes, with an operative and an applicative, any outcome of the first call', tiers=T, opts={'sample-every': 10}),
        job('k02_bound', 8, 2, covers=FORMS + [11] + AFTER_ERR + OPS + APS, bound='every ASCII text of 8 bytes, with an operative and an applicative, any outcome of the first two calls', tiers=T, cross=True),
        job('k02_nested', 8, covers=FORMS + AFTER_ERR + APS, bound='every ASCII text of 8 bytes after "{x{a", any outcome of the first call', tiers=T),
    ]),
    'K03': dict(outside=OUT, jobs=[
        job('k03_text', 6, covers=range(1, 8), bound='every text of 6 bytes of UTF-8 at top level, as head, as operand, between nests, escaped where needed', tiers=Q),
        job('k03_more', 6, covers=[1, 3, 4, 5, 6, 7], bound='every ASCII text of 6 bytes in the same places, with any further characters escaped', tiers=Q),
        job('k03_more_utf8', 5, covers=range(1, 8), bound='every text of up to 5 bytes of UTF-8 in the same places, with any further characters escaped', tiers=Q),
        job('k03_operative_more_utf8', 6, covers=[1], bound='every text of up to 6 bytes of UTF-8 as an operative\'s operands, with any further characters escaped', tiers=Q),
        job('k03_operative', 7, covers=[1], bound='every text of 7 bytes of UTF-8 as an operative\'s operands', tiers=Q),
        job('k03_operative_more', 7, covers=[1], bound='every ASCII text of 7 bytes as an operative\'s operands, with any further characters escaped', tiers=Q),
        job('k03_tree', 2, 2, 1, covers=[1], bound='every tree of depth 2 and up to 2 operands per nest, any text of up to 2 ASCII characters in one place', tiers=Q),
        job('k03_tree', 2, 1, 2, covers=[1], bound='every tree of depth 2 and up to 1 operand per nest, any text of up to 2 ASCII characters in two places', tiers=Q),
        job('k03_long', 300, 1, covers=range(1, 8), bound='texts of 300 characters with 3 patterns of delimiters, any ASCII character in the middle'),
        job('k03_text', 8, covers=range(1, 8), bound='every text of 8 bytes of UTF-8 at top level, as head, as operand, between nests, escaped where needed', tiers=T),
        job('k03_more', 8, covers=[1, 3, 4, 5, 6, 7], bound='every ASCII text of 8 bytes in the same places, with any further characters escaped', tiers=T),
        job('k03_more_utf8', 7, covers=range(1, 8), bound='every text of up to 7 bytes of UTF-8 in the same places, with any further characters escaped', tiers=T),
        job('k03_operative_more_utf8', 8, covers=[1], bound='every text of up to 8 bytes of UTF-8 as an operative\'s operands, with any further characters escaped', tiers=T),
        job('k03_operative', 9, covers=[1], bound='every text of 9 bytes of UTF-8 as an operative\'s operands', tiers=T, cross=True),
        job('k03_operative_more', 9, covers=[1], bound='every ASCII text of 9 bytes as an operative\'s operands, with any further characters escaped', tiers=T),
        job('k03_tree', 2, 2, 2, covers=[1], bound='every tree of depth 2 and up to 2 operands per nest, any text of up to 2 ASCII characters in two places', tiers=T),
        job('k03_tree', 3, 1, 2, covers=[1], bound='every tree of depth 3 and up to 1 operand per nest, any text of up to 2 ASCII characters in two places', tiers=T, opts={'sample-every': 10}),
    ]),
    'K04': dict(outside=OUT, jobs=[
        job('k04_any', 6, 2, covers=FORMS + [11] + OPS + APS, bound='every ASCII text of 6 bytes after "{o", any outcomes of the first two calls', tiers=Q),
        job('k04_within', 4, 2, covers=FORMS + OPS, bound='every ASCII text of 4 bytes in an operative nest in 40 contexts, any outcomes of the first two calls', tiers=Q),
        job('k04_utf8', 6, covers=FORMS + [30], bound='every UTF-8 text of 6 bytes in an operative nest', tiers=Q),
        job('k04_raw', 3, 5, covers=[1, 4, 5] + OPS, bound='any 5 ASCII characters 3 nests deep in operands, 3 to 6 ends', tiers=Q),
        job('k04_raw', 300, 1, covers=[1, 4, 5] + OPS, bound='any ASCII character 300 nests deep in operands, 300 to 303 ends'),
        job('k04_head', 4, 2, covers=[3, 6, 8] + OPS, bound='any 4 ASCII characters in a nest that is the head, operators that are texts, empty nests or extras, any outcomes of two calls', tiers=Q),
        job('k04_deep', 600, 2, covers=[3, 4, 5] + OPS, bound='600 nests deep, any 2 ASCII characters in an operative, then 599 to 601 ends'),
        job('k04_huge', 66000, covers=[9, 10, 30], bound='66000 nests deep in the text of an operative, 3 characters there, about as many ends', opts={'max-steps': 2000000000}),
        job('k04_many', 400, 2, covers=[3, 6, 30], bound='400 operative nests, then any 2 ASCII characters in one'),
        job('k04_long', 300, 1, 1, covers=[3, 6] + OPS + APS, bound='operators of 300 and 301 characters, in one chunk or one for each character, any ASCII character after 300 of them, any outcome'),
        job('k04_removed', 300, covers=[1, 2, 3, 4, 5, 31], bound='300 operative nests that remove themselves before the head, then any ASCII character'),
        job('k04_runs', 3, 1, 8, 1, covers=[1, 2, 3, 4, 5, 33, 43], bound=f'1 to 8 of any of {RUNS}, then any ASCII character, in up to 3 nests in the text of an operative in up to 3 nests of 2 kinds, about as many ends', opts={'sample-every': 10}),
        job('k04_runs', 2, 2, 3, 0, covers=[1, 2, 3, 4, 5, 33, 43], bound=f'1 to 3 of any and then 1 to 3 of any of {RUNS}, in up to 2 nests in the text of an operative in up to 2 nests of 2 kinds, about as many ends', opts={'sample-every': 10}),
        job('k04_any', 8, 2, covers=FORMS + [11] + OPS + APS, bound='every ASCII text of 8 bytes after "{o", any outcomes of the first two calls', tiers=T, opts={'sample-every': 10}),
        job('k04_within', 5, 3, covers=FORMS + OPS, bound='every ASCII text of 5 bytes in an operative nest in 40 contexts, any outcomes of the first three calls', tiers=T, opts={'sample-every': 10}),
        job('k04_utf8', 8, covers=FORMS + [30], bound='every UTF-8 text of 8 bytes in an operative nest', tiers=T),
        job('k04_raw', 3, 8, covers=[1, 4, 5] + OPS, bound='any 8 ASCII characters 3 nests deep in operands, 3 to 6 ends', tiers=T, cross=True),
        job('k04_head', 6, 2, covers=[3, 6, 8] + OPS, bound='any 6 ASCII characters in a nest that is the head, operators that are texts, empty nests or extras, any outcomes of two calls', tiers=T),
    ]),
    'K05': dict(outside=OUT, jobs=[
        job('k05_any', 6, 2, covers=FORMS + [11] + OPS + APS, bound='every ASCII text of 6 bytes after "{a", any outcomes of the first two calls', tiers=Q, opts={'sample-every': 4}),
        job('k05_within', 4, 1, covers=FORMS + APS, bound='every ASCII text of 4 bytes in an applicative nest in 40 contexts, any outcome of the first call', tiers=Q, opts={'sample-every': 4}),
        job('k05_within', 3, 2, covers=FORMS + APS, bound='every ASCII text of 3 bytes in an applicative nest in 40 contexts, any outcomes of the first two calls', tiers=Q, opts={'sample-every': 4}),
        job('k05_utf8', 6, covers=FORMS + [40], bound='every UTF-8 text of 6 bytes in an applicative nest', tiers=Q),
        job('k05_nested', 4, 4, covers=FORMS + OPS + APS, bound='any 4 of 7 parts (starts of applicative, operative and other nests, ends, text, space, empty nests) in an applicative nest, any outcomes of the first four calls', tiers=Q, opts={'sample-every': 4}),
        job('k05_head', 4, 2, covers=[3, 6, 8] + APS, bound='any 4 ASCII characters in a nest that is the head, operators that are texts, empty nests or extras, any outcomes of two calls', tiers=Q),
        job('k05_deep', 600, 1, covers=[4, 5, 6] + APS, bound='any ASCII character 900 nests deep in applicatives'),
        job('k05_crowd', 70000, covers=[4, 5] + APS, bound='an applicative with 70000 operands, with any outcome', opts=HUGE),
        job('k05_many', 5, 5, covers=[3] + APS, bound='5 applicative operands with any outcome of each'),
        job('k05_many', 400, 2, covers=[3] + APS, bound='400 applicative operands with any outcome of the first two'),
        job('k05_long', 300, 1, 1, covers=[3, 6] + OPS + APS, bound='operators of 300 and 301 characters, in one chunk or one for each character, any ASCII character after 300 of them, any outcome'),
        job('k05_removed', 300, covers=[1, 2, 3, 4, 5, 41], bound='300 applicative nests that remove themselves before the head, then any ASCII character'),
        job('k05_nests', 3, 1, covers=FORMS + OPS + APS, bound='any 3 of 6 parts in a nest or applicative that is the head, operators that are texts, empty nests, combinations, empty lists and lists, any outcome of the first call'),
        job('k05_nests', 4, 2, covers=FORMS + OPS + APS, bound='any 4 of 6 parts in a nest or applicative that is the head, operators that are texts, empty nests, combinations, empty lists and lists, any outcomes of the first two calls', tiers=T, opts={'sample-every': 20}),
        job('k05_runs', 3, 1, 8, 1, covers=[1, 2, 3, 4, 5, 33, 43], bound=f'1 to 8 of any of {RUNS}, then any ASCII character, in up to 3 nests of 3 kinds with combiners, about as many ends', opts={'sample-every': 10}),
        job('k05_runs', 3, 2, 3, 0, covers=[1, 2, 3, 4, 5, 33, 43], bound=f'1 to 3 of any and then 1 to 3 of any of {RUNS}, in up to 3 nests of 3 kinds with combiners, about as many ends', opts={'sample-every': 10}),
        job('k05_any', 8, 2, covers=FORMS + [11] + OPS + APS, bound='every ASCII text of 8 bytes after "{a", any outcomes of the first two calls', tiers=T, opts={'sample-every': 10}),
        job('k05_within', 5, 2, covers=FORMS + APS, bound='every ASCII text of 5 bytes in an applicative nest in 40 contexts, any outcomes of the first two calls', tiers=T, opts={'sample-every': 10}),
        job('k05_utf8', 8, covers=FORMS + [40], bound='every UTF-8 text of 8 bytes in an applicative nest', tiers=T, cross=True),
        job('k05_nested', 6, 3, covers=FORMS + OPS + APS, bound='any 6 of 7 parts in an applicative nest, any outcomes of the first three calls', tiers=T, opts={'sample-every': 10}),
        job('k05_head', 6, 2, covers=[3, 6, 8] + APS, bound='any 6 ASCII characters in a nest that is the head, any outcomes of two calls', tiers=T),
    ]),
    'K06': dict(outside=OUT, jobs=
        [job('k06_positions', st, k, n, int(st == 7), covers=P6(k), bound=f'every text of {n} {POS_KIND[k]}, from {POS_STREAM[st]}', tiers=Q)
         for st, k, n in [(0, 1, 6), (0, 3, 4), (1, 0, 4), (1, 4, 4), (2, 2, 3), (3, 1, 5), (4, 4, 4), (5, 4, 4), (6, 1, 5), (7, 0, 4), (7, 4, 4), (7, 2, 3)]] +
        [job('k06_huge', st, 70000, covers=[1, 5, 6, 30], bound=f'text of 70000 characters with any of 3 delimiters after them, from {POS_STREAM[k]}', opts={'max-steps': 2000000000}) for st, k in [(0, 0), (1, 2), (3, 3)]] +
        [job('k06_long', st, 400, 2, covers=[1, 6, 30], bound=f'any 2 ASCII characters after 400 of all widths and of all forms, from {POS_STREAM[(0, 2, 3)[st]]}') for st in (0, 1, 2)] +
        [job('k06_runs', st, 2, 1, m, n, covers=[1, 2, 3, 4, 5, 6, 20, 21, 30], bound=f'1 to {m} of any of {RUNS}{", then any ASCII character" * n}, in up to 2 nests of 3 kinds, from {POS_STREAM[st]}{", in pieces of any one size up to 3" * (st in (1, 2))}', opts={'sample-every': 10}) for st, m, n in ((0, 5, 1), (1, 4, 0), (2, 4, 0), (3, 4, 0))] +
        [job('k06_positions', st, k, n, int(st == 7), covers=P6(k), bound=f'every text of {n} {POS_KIND[k]}, from {POS_STREAM[st]}', tiers=T, cross=(st, k) == (0, 1))
         for st, k, n in [(0, 0, 7), (0, 1, 7), (0, 2, 5), (0, 3, 6), (0, 4, 5), (1, 0, 6), (1, 4, 5), (2, 2, 5), (3, 1, 6), (4, 4, 5), (5, 4, 5), (6, 1, 6), (7, 0, 5), (7, 4, 5), (7, 2, 4)]]
    ),
    'K07': dict(outside=OUT, jobs=
        [job('k07_ascii', st, n, e, covers=FORMS, bound=f'every ASCII text of {n} bytes, {SOURCES7[st]}{pieces7(st, e)}', tiers=Q)
         for st, n, e in [(0, 4, 1), (1, 4, 0), (2, 5, 0), (5, 4, 1), (8, 4, 1), (9, 6, 0), (12, 5, 0), (15, 4, 1)]] +
        [job('k07_wide', st, n, e, covers=FORMS, bound=f'every text of {n} characters of all widths, {SOURCES7[st]}{pieces7(st, e)}', tiers=Q)
         for st, n, e in [(3, 4, 0), (4, 3, 1), (6, 3, 0), (7, 3, 0), (10, 4, 0), (11, 3, 0), (13, 3, 0), (14, 3, 0), (15, 3, 2)]] +
        [job('k07_utf8', st, 4, 0, covers=[1, 3, 4, 5], bound=f'every UTF-8 text of 4 bytes, {SOURCES7[st]}{pieces7(st, 0)}', tiers=Q) for st in range(16)] +
        [job('k07_operative', st, n, e, covers=[30], bound=f'every ASCII text of {n} bytes in an operative nest, {SOURCES7[st]}{pieces7(st, e)}', tiers=Q)
         for st, n, e in [(0, 3, 1), (2, 4, 0), (8, 3, 1), (9, 4, 0), (15, 3, 1)]] +
        [job('k07_empty', st, n, covers=[1, 3, 4, 5], bound=f'{n} empty pieces at any of 5 places in a text with any ASCII character in it, {SOURCES7[st]}') for st, n in ((0, 3000), (2, 3000), (6, 3000), (15, 1000))] +
        [job('k07_long', st, 200 if st < 4 else 80, 2, covers=[1, 3, 5, 6], bound=f'any 2 ASCII characters after {800 if st < 4 else 320} characters and more of all widths, {LONG7[st]}') for st in range(5)] +
        [job('k07_runs', st, 2, 1, m, n, covers=[1, 2, 3, 4, 5, 30, 40], bound=f'1 to {m} of any of {RUNS}{", then any ASCII character" * n}, in up to 2 nests of 3 kinds, {SOURCES7[st]}{", in pieces of any one size up to 3" * (st != 9)}', opts={'sample-every': 10}) for st, m, n in ((0, 4, 0), (2, 5, 1), (8, 4, 0), (9, 5, 1), (15, 4, 0))] +
        [job('k07_taken', st, 2, 2, covers=[1, 3, 4, 5, 63], bound=f'every 2 ASCII characters between texts of all widths, {("chunks of a PosStr text", "chunks of a PosStrish text", "pieces of strings", "characters")[st]}{", in two or for each character" * (st < 3)}, of which up to 2 characters have been taken by any calls', opts={'sample-every': 4}) for st in range(4)] +
        [job('k07_runs', 2, 2, 2, 3, 0, covers=[1, 2, 3, 4, 5, 30, 40], bound=f'1 to 3 of any of {RUNS}, twice, in up to 2 nests of 3 kinds, {SOURCES7[2]}, in pieces of any one size up to 3', tiers=T, opts={'sample-every': 20})] +
        [job('k07_ascii', st, n, e, covers=FORMS, bound=f'every ASCII text of {n} bytes, {SOURCES7[st]}{pieces7(st, e)}', tiers=T, cross=st == 2)
         for st, n, e in [(0, 6, 0), (1, 5, 1), (2, 6, 0), (3, 5, 1), (4, 5, 1), (5, 5, 1), (6, 5, 1), (7, 5, 1), (8, 5, 1), (9, 7, 0), (12, 7, 0), (15, 5, 2)]] +
        [job('k07_wide', st, n, e, covers=FORMS, bound=f'every text of {n} characters of all widths, {SOURCES7[st]}{pieces7(st, e)}', tiers=T, opts={'sample-every': 5})
         for st, n, e in [(0, 4, 1), (2, 5, 0), (3, 5, 0), (4, 4, 1), (8, 4, 1), (10, 6, 0), (11, 6, 0), (13, 6, 0), (14, 6, 0), (15, 4, 2)]] +
        [job('k07_utf8', st, 6, 0, covers=[1, 3, 4, 5], bound=f'every UTF-8 text of 6 bytes, {SOURCES7[st]}{pieces7(st, 0)}', tiers=T, opts={'sample-every': 5}) for st in range(16)] +
        [job('k07_operative', st, n, e, covers=[30], bound=f'every ASCII text of {n} bytes in an operative nest, {SOURCES7[st]}{pieces7(st, e)}', tiers=T, opts={'sample-every': 5})
         for st, n, e in [(0, 4, 1), (2, 4, 1), (3, 5, 0), (8, 4, 1), (9, 6, 0), (15, 4, 1)]]
    ),
    'K08': dict(outside=STREAM_OUT, jobs=
        [job('k08_fixed', st, 3, 4, 300, covers=[4, 6], bound=f'content of 3 characters with 300 empty pieces anywhere, {SOURCES8[st]}, any 4 calls') for st in (0, 1, 3, 8, 9)] +
        [job('k08_strides', st, 3 + (st == 3), covers=[20, 21], bound=f'text of {3 + (st == 3)} characters of all widths, from {("chunks of a PosStr text", "chunks of a PosStrish text", "pieces of strings", "characters")[st]}{" in any pieces with empty ones" * (st < 3)}, any 2 calls and then counting, skipping, visiting or collecting what is left') for st in range(4)] +
        [job('k08_long', st, 300, 3, covers=[1, 2, 4, 6], bound=f'content of 300 characters of all widths, {SOURCES8[st]}, in pieces of 1, 7 or 13 characters or in one, accumulated almost to the end, then any 3 calls') for st in list(range(16))] +
        [job('k08_any', st, n, k, e, covers=C8(st), bound=f'every UTF-8 content of {n} bytes, {SOURCES8[st]}{pieces8(st, e)}, any {k} calls', tiers=Q)
         for st, n, k, e in [(0, 4, 4, 0), (3, 3, 5, 0), (9, 3, 4, 1), (11, 4, 4, 0), (14, 4, 4, 0), (20, 3, 5, 0), (21, 3, 5, 0)]] +
        [job('k08_fixed', st, n, k, e, covers=C8(st), bound=f'content of {n} characters of all widths, {SOURCES8[st]}{pieces8(st, e)}, any {k} calls', tiers=Q)
         for st, n, k, e in [(0, 3, 6, 1), (1, 3, 5, 1), (2, 3, 6, 1), (4, 3, 6, 0), (5, 3, 5, 1), (6, 3, 6, 0), (7, 3, 6, 0), (8, 3, 5, 1), (9, 3, 5, 2)] +
         [(s, 3, 7, 0) for s in range(10, 16)] + [(20, 4, 6, 0), (21, 4, 6, 0)]] +
        [job('k08_any', st, n, k, e, covers=C8(st), bound=f'every UTF-8 content of {n} bytes, {SOURCES8[st]}{pieces8(st, e)}, any {k} calls', tiers=T, cross=st == 3)
         for st, n, k, e in [(0, 5, 6, 0), (2, 4, 6, 1), (3, 5, 6, 0), (8, 4, 6, 0), (9, 4, 6, 1), (10, 5, 6, 0), (20, 5, 7, 0), (21, 5, 7, 0)]] +
        [job('k08_fixed', st, n, k, e, covers=C8(st), bound=f'content of {n} characters of all widths, {SOURCES8[st]}{pieces8(st, e)}, any {k} calls', tiers=T, opts={'sample-every': 5})
         for st, n, k, e in [(s, 4, 8, 0) for s in (0, 1, 2, 3, 4, 5, 6, 7, 8)] + [(s, 3, 7, 1) for s in (0, 2, 3, 8, 9)] +
         [(s, 5, 9, 0) for s in range(10, 16)] + [(20, 5, 9, 0), (21, 5, 9, 0)]]
    ),
    'K09': dict(outside=TEXT_OUT, jobs=
        [job('k09_compare', p, n, e, covers=[1, 2, 3, 4, 5], bound=f'every two UTF-8 texts of up to {n} bytes in any pieces{EMPTY[e]}, as {PAIRS9[p]}', tiers=Q)
         for p, n, e in [(0, 4, 0), (1, 3, 1), (2, 3, 1), (3, 3, 1), (4, 4, 0), (5, 3, 1), (6, 4, 0), (7, 3, 1), (7, 2, 2), (8, 3, 1)]] +
        [job('k09_order', k, 4, covers=[1, 2, 3], bound=f'the order of every two UTF-8 texts of up to 4 bytes in any pieces, as {TEXTS[k]}', tiers=Q) for k in range(4)] +
        [job('k09_huge', 70000, covers=[1, 2], bound='two texts of 70000 characters in 3 and 2 pieces, which differ at most in the last', opts={'max-steps': 2000000000})] +
        [job('k09_long', p, 300, covers=[1, 2], bound=f'two texts of 300 characters of all widths with up to 2 bytes of any UTF-8 after them, one perhaps longer, in pieces of various sizes, pair {p}') for p in range(3)] +
        [job('k09_compare', p, n, e, covers=[1, 2, 3, 4, 5], bound=f'every two UTF-8 texts of up to {n} bytes in any pieces{EMPTY[e]}, as {PAIRS9[p]}', tiers=T, opts={'sample-every': 10}, cross=p == 2)
         for p, n, e in [(0, 4, 1), (1, 4, 1), (2, 4, 1), (3, 4, 1), (4, 4, 1), (5, 4, 1), (6, 4, 1), (0, 5, 0), (3, 5, 0), (7, 4, 1), (7, 3, 2), (8, 3, 2)]] +
        [job('k09_order', k, 5, covers=[1, 2, 3], bound=f'the order of every two UTF-8 texts of up to 5 bytes in any pieces, as {TEXTS[k]}', tiers=T, opts={'sample-every': 5}) for k in range(4)]
    ),
    'K10': dict(outside=TEXT_OUT, jobs=
        [job('k10_read', k, 6, 1 + (k == 3), covers=[1], bound=f'every UTF-8 text of up to 6 bytes in any pieces{EMPTY[1 + (k == 3)]}, as {TEXTS[k]}', tiers=Q) for k in range(4)] +
        [job('k10_encode', k, 6, 7, covers=[2, 3, 4], bound=f'every UTF-8 text of up to 6 bytes in any pieces, buffers of up to 7 bytes, as {TEXTS[k]}', tiers=Q) for k in range(4)] +
        [job('k10_huge', k, 27000, covers=[2, 3], bound=f'a text of 67500 bytes in 3 pieces and any ASCII character, encoded into a buffer of about its size, as {TEXTS[k]}', opts={'max-steps': 2000000000}) for k in range(2)] +
        [job('k10_long', k, 300, covers=[2, 3, 4], bound=f'a text of 300 characters of all widths, any UTF-8 of up to 4 bytes among them, buffers of about its size, as {TEXTS[k]}') for k in range(2)] +
        [job('k10_from_str', 7, covers=[1], bound='every UTF-8 string of 7 bytes')] +
        [job('k10_read', k, 8, 1, covers=[1], bound=f'every UTF-8 text of up to 8 bytes in any pieces, one perhaps empty, as {TEXTS[k]}', tiers=T) for k in range(4)] +
        [job('k10_encode', k, 8, 9, covers=[2, 3, 4], bound=f'every UTF-8 text of up to 8 bytes in any pieces, buffers of up to 9 bytes, as {TEXTS[k]}', tiers=T, cross=k == 1) for k in range(4)]
    ),
    'K11': dict(outside=TEXT_OUT, jobs=
        [job('k11_concat', k, 4, 2, covers=[1, 2, 3, 4], bound=f'every way of concatenating 4 texts of up to 2 characters, as {TEXTS[k]}', tiers=Q) for k in range(4)] +
        [job('k11_concat', k, 6, 1, covers=[1, 2, 3, 4], bound=f'every way of concatenating 6 texts of up to 1 character, as {TEXTS[k]}', tiers=Q, opts={'sample-every': 10}) for k in range(4)] +
        [job('k11_memory', 6, 6, 2, covers=[5, 6, 7], bound='6 texts of up to 2 characters and up to 6 slots', tiers=Q, opts={'sample-every': 10})] +
        [job('k11_empty', 6, covers=[1, 2], bound='every UTF-8 string of up to 6 bytes')] +
        [job('k11_crowd', k, 70000, covers=[1, 2], bound=f'70000 texts from the left, one of them empty, as {TEXTS[k]}', opts=HUGE) for k in range(2)] +
        [job('k11_many', k, 400, covers=[1, 2, 3, 4, 5], bound=f'400 texts from the left, the right, the middle, by pairs and pairs of them, or as two parts, one of them empty, as {TEXTS[k]}') for k in range(3)] +
        [job('k11_concat', k, 7, 1, covers=[1, 2, 3, 4], bound=f'every way of concatenating 7 texts of up to 1 character, as {TEXTS[k]}', tiers=T, opts={'sample-every': 50}) for k in range(3)] +
        [job('k11_concat', k, 5, 3, covers=[1, 2, 3, 4], bound=f'every way of concatenating 5 texts of up to 3 characters, as {TEXTS[k]}', tiers=T) for k in range(3)] +
        [job('k11_memory', 7, 7, 2, covers=[5, 6, 7], bound='7 texts of up to 2 characters and up to 7 slots', tiers=T)]
    ),
    'K12': dict(outside=TREE_OUT, jobs=
        [job('k12_pairs', r, 1, 1, 4, covers=[1, 2, 3], bound=f'every two trees of depth up to 1 with leaves of 4 kinds and any content, {REFS12[r]}') for r in range(9)] +
        [job('k12_changed', r, 2, o, k, covers=[1, 2, 3], bound=f'every tree of depth up to 2 with leaves of {k} kinds, against itself or with one part changed to depth {o}, {REFS12[r]}', tiers=Q) for r, o, k in [(1, 1, 2), (0, 0, 2), (3, 0, 2), (4, 0, 2), (7, 0, 2)]] +
        [job('k12_clone', 2, 4, covers=[1, 2], bound='every tree of depth up to 2 with leaves of 4 kinds, cloned'),
         job('k12_clone', 3, 1, covers=[1, 2], bound='every tree of depth up to 3 with leaves of 1 kind, cloned', opts={'sample-every': 5}),
         job('k12_errors', covers=[1, 2, 3], bound='every two errors of any kinds and contents'),
         job('k12_positions', covers=[1, 2], bound='every two errors or texts at any two positions')] +
        [job('k12_refs', k, 1, 1, 4, covers=[1, 2, 3], bound=f'every two {KIND14[k]} references to trees of depth up to 1 with leaves of 4 kinds, others referring to them and to all parts or not') for k in range(3)] +
        [job('k12_long', s, 100, covers=[1, 2], bound=f'lists and nests of 100, 200 and 400 that differ nowhere or in one place, shape {s}') for s in range(8)] +
        [job('k12_pairs', r, 1, 2, 2, covers=[1, 2, 3], bound=f'every tree of depth up to 1 and every of depth up to 2 with leaves of 2 kinds, {REFS12[r]}', tiers=Q, opts={'sample-every': 10}) for r in range(9)] +
        [job('k12_pairs', r, 2, 2, 1, covers=[1, 2, 3], bound=f'every two trees of depth up to 2 with leaves of 1 kind, {REFS12[r]}', tiers=Q, opts={'sample-every': 5}) for r in range(9)] +
        [job('k12_pairs', r, 1, 2, 3, covers=[1, 2, 3], bound=f'every tree of depth up to 1 and every of depth up to 2 with leaves of 3 kinds, {REFS12[r]}', tiers=T, opts={'sample-every': 20}, cross=r == 1) for r in range(9)] +
        [job('k12_changed', r, 2, 1, 3, covers=[1, 2, 3], bound=f'every tree of depth up to 2 with leaves of 3 kinds, against itself or with one part changed to depth 1, {REFS12[r]}', tiers=T, opts={'sample-every': 20}) for r in range(9)]
    ),
    'K13': dict(outside=TREE_OUT, jobs=
        [job('k13_graph', k, 3, 0, covers=[1, 2, 3], bound=f'every {"Rc Arc".split()[k]} graph of 3 datums with any sharing, weak references and order of dropping', tiers=Q) for k in range(2)] +
        [job('k13_graph', k, 4, 1, covers=[1, 2, 3], bound=f'every {"Rc Arc".split()[k]} graph of 4 datums with any sharing and order of dropping, weak references to all or none', tiers=Q, opts={'sample-every': 10}) for k in range(2)] +
        [job('k13_tree', k, 8, covers=[5], bound=f'every {"Box Rc Arc".split()[k]} tree of up to 8 branches', opts={'sample-every': 5}) for k in range(3)] +
        [job('k13_refuse', 6, 7, covers=[4, 5], bound='every tree of up to 6 branches with any pattern of 7 refusals to take a datum out', opts={'sample-every': 10})] +
        [job('k13_graph', k, 4, 0, covers=[1, 2, 3], bound=f'every {"Rc Arc".split()[k]} graph of 4 datums with any sharing, weak references and order of dropping', tiers=T, opts={'sample-every': 100}) for k in range(2)] +
        [job('k13_tree', k, 9, covers=[5], bound=f'every {"Box Rc Arc".split()[k]} tree of up to 9 branches', tiers=T, opts={'sample-every': 20}) for k in range(3)] +
        [job('k13_refuse', 7, 8, covers=[4, 5], bound='every tree of up to 7 branches with any pattern of 8 refusals to take a datum out', tiers=T, opts={'sample-every': 20})]
    ),
    'K14': dict(outside=TREE_OUT + ' Shapes that no motif of the stated length gives when repeated.', jobs=
        [job('k14_chain', k, p, 24, o, w, covers=[1, 2] + [3] * (o > 4) + [4] * (o > 5), bound=f'every {KIND14[k]} tree made by repeating a motif of {p} steps 24, 48 and 96 times, {o} kinds of side branch{", lists and combinations in any order" * (o > 5)}{", weak references to all" * w}', tiers=Q)
         for k, p, o, w in [(0, 3, 4, 0), (0, 2, 9, 0), (1, 3, 3, 0), (1, 2, 3, 1), (1, 2, 9, 0), (2, 2, 3, 1), (2, 2, 9, 0), (3, 2, 9, 0)]] +
        [job('k14_two', k, 2, 1, 24, 3, covers=[1, 2], bound=f'every two such {KIND14[k]} trees side by side, motifs of 2 and 1 steps', tiers=Q) for k in range(4)] +
        [job('k14_chain', k, 4, 24, o, w, covers=[1, 2] + [3] * (o > 4) + [4] * (o > 5), bound=f'every {KIND14[k]} tree made by repeating a motif of 4 steps 24, 48 and 96 times, {o} kinds of side branch{", lists and combinations in any order" * (o > 5)}{", weak references to all" * w}', tiers=T, opts={'sample-every': 10})
         for k, o, w in [(0, 4, 0), (1, 5, 0), (1, 3, 1), (2, 5, 0), (3, 5, 0)]] +
        [job('k14_chain', k, 3, 24, 9, 0, covers=[1, 2, 3, 4], bound=f'every {KIND14[k]} tree made by repeating a motif of 3 steps 24, 48 and 96 times, lists and combinations in any order, 9 kinds of side branch', tiers=T, opts={'sample-every': 20}) for k in range(4)] +
        [job('k14_two', k, 2, 2, 24, 4, covers=[1, 2], bound=f'every two such {KIND14[k]} trees side by side, motifs of 2 steps', tiers=T, opts={'sample-every': 10}) for k in range(4)] +
        [job('k14_chain', k, 2, 200, 3, 0, covers=[1, 2], bound=f'every {KIND14[k]} tree made by repeating a motif of 2 steps 200, 400 and 800 times', tiers=T) for k in range(4)]
    ),
    'K15': dict(outside='More slots and calls than stated, other than the many listed.', jobs=
        [job('k15_history', 3, 4, 5, covers=[1, 2, 3, 4], bound='any 4 calls of an allocator of up to 3 slots, datums of 5 kinds', tiers=Q),
         job('k15_history', 5, 6, 5, covers=[1, 2, 3, 4], bound='any 6 calls of an allocator of up to 5 slots, datums of 5 kinds', tiers=Q, opts={'sample-every': 20}),
         job('k15_many', 70000, covers=[1, 2], bound='70000 slots, used up and past that', opts=HUGE),
         job('k15_many', 1000, covers=[1, 2], bound='1000 slots, used up and past that'),
         job('k15_history', 5, 7, 5, covers=[1, 2, 3, 4], bound='any 7 calls of an allocator of up to 5 slots, datums of 5 kinds', tiers=T, opts={'sample-every': 100})]
    ),
    'K16': dict(outside=OUT + ' More requests to the allocator than stated.', jobs=
        [job('k16_ascii', k, 4, 6, sp, covers=C16(k), bound=f'every ASCII text of 4 bytes, {KIND16[k]}, {SPLIT16[sp]}, refusing any one of 6 requests or all from one on', tiers=Q, opts={'sample-every': 5}) for k, sp in [(0, 0), (1, 1), (2, 1), (4, 0)]] +
        [job('k16_within', k, 3, 10, sp, covers=[1, 2, 3, 4], bound=f'every ASCII text of 3 bytes after any of 3 beginnings, {KIND16[k]}, {SPLIT16[sp]}, refusing any one of 10 requests or all from one on', tiers=Q, opts={'sample-every': 5}) for k, sp in [(0, 0), (1, 2), (2, 2), (3, 2), (5, 2)]] +
        [job('k16_amounts', 3, sp, 14, covers=[2, 3, 4], bound=f'every ASCII text of 3 bytes after any of 3 beginnings, {SPLIT16[sp]}, with slices of up to 14 slots', tiers=Q, opts={'sample-every': 5}) for sp in (0, 2)] +
        [job('k16_shared', n, f, covers=[1, 2], bound=f'every ASCII text of {n} bytes after any of 3 beginnings, keeping strong or weak references to any of the first {f} datums allocated and to all or none of the rest') for n, f in [(3, 4), (4, 3)]] +
        [job('k16_runs', k, 2, 4, 0, 12, covers=[1, 4], bound=f'1 to 4 of any of {RUNS}, in up to 2 nests of 3 kinds, {KIND16[k]}, refusing any one of 12 requests or all from one on', opts={'sample-every': 10}) for k in (0, 1)] +
        [job('k16_ascii', k, 5, 10, sp, covers=C16(k), bound=f'every ASCII text of 5 bytes, {KIND16[k]}, {SPLIT16[sp]}, refusing any one of 10 requests or all from one on', tiers=T, opts={'sample-every': 5}, cross=k == 0) for k, sp in [(0, 0), (1, 1), (2, 1), (3, 2)]] +
        [job('k16_within', k, 4, 12, sp, covers=[1, 2, 3, 4], bound=f'every ASCII text of 4 bytes after any of 3 beginnings, {KIND16[k]}, {SPLIT16[sp]}, refusing any one of 12 requests or all from one on', tiers=T, opts={'sample-every': 20}) for k, sp in [(0, 0), (1, 2), (2, 2), (3, 2), (5, 2)]] +
        [job('k16_amounts', 4, sp, 18, covers=[2, 3, 4], bound=f'every ASCII text of 4 bytes after any of 3 beginnings, {SPLIT16[sp]}, with slices of up to 18 slots', tiers=T, opts={'sample-every': 10}) for sp in (0, 2)]
    ),
    'K17': dict(outside='More and larger operators than stated, other than the many listed.', jobs=
        [job('k17_pair', r, n, d, k, covers=[1, 2, 3, 4], bound=f'every sequence of {n} operators bound as pairs and every head, of depth up to {d} with leaves of {k} kinds, {REFS17[r]}', tiers=Q) for r in range(5) for n, d, k in [(2, 1, 2), (3, 0, 4)]] +
        [job('k17_map', r, n, d, k, 2, covers=[1, 2, 3, 4][:2 if n == 1 else 4], bound=f'every set of {n} operators in a hash map and every head, of depth up to {d} with leaves of {k} kinds, {REFS17[r]}, with any hash function to 2 values', tiers=Q) for r in range(5) for n, d, k in [(1, 1, 2), (2, 0, 4), (3, 0, 2)]] +
        [job('k17_deep', r, d, k, covers=[2, 3], bound=f'every operator of depth up to {d} with leaves of {k} kinds, and an equal head, {REFS17[r]}', opts={'sample-every': 5}) for r in range(5) for d, k in [(2, 3), (3, 1)]] +
        [job('k17_pair', r, 1, 2, 1, covers=[1, 2], bound=f'every operator and every head of depth up to 2 with texts as leaves, {REFS17[r]}') for r in (0, 4)] +
        [job('k17_map', r, 1, 2, 1, 2, covers=[1, 2], bound=f'every operator in a hash map and every head of depth up to 2 with texts as leaves, {REFS17[r]}, with any hash function to 2 values') for r in (1, 3)] +
        [job('k17_crowd', n, k, covers=[1, 2, 3], bound=f'{n} operators in {MAP22[k]}, and 6 heads among or beside them', opts=HUGE) for k, n in [(0, 70000), (1, 20000)]] +
        [job('k17_many', 300, covers=[1, 2, 3], bound='300 operators and any head among or beside them')] +
        [job('k17_chunked', t, 3, 2, covers=[5, 6], bound=f'every two texts of up to 3 bytes in any pieces as operator and head, {TEXTS[t]}', tiers=Q) for t in range(2)] +
        [job('k17_long', t, 300, 1, covers=[5, 6], bound=f'two texts of 300 and 301 characters as operator and head, whole, in two pieces or one for each character, any ASCII character at the end, {TEXTS[t]}') for t in range(2)] +
        [job('k17_empty', 2, covers=[1], bound='every head of depth up to 2 with the empty bindings'),
         job('k17_change', 4, covers=[1, 2], bound='any 4 insertions and removals')] +
        [job('k17_pair', r, 3, 1, 2, covers=[1, 2, 3, 4], bound=f'every sequence of 3 operators bound as pairs and every head, of depth up to 1 with leaves of 2 kinds, {REFS17[r]}', tiers=T, opts={'sample-every': 100}) for r in range(5)] +
        [job('k17_map', r, 2, 1, 2, 2, covers=[1, 2, 3, 4], bound=f'every set of 2 operators in a hash map and every head, of depth up to 1 with leaves of 2 kinds, {REFS17[r]}, with any hash function to 2 values', tiers=T, opts={'sample-every': 100}) for r in range(5)] +
        [job('k17_chunked', t, 4, 2, covers=[5, 6], bound=f'every two texts of up to 4 bytes in any pieces as operator and head, {TEXTS[t]}', tiers=T) for t in range(2)]
    ),
    'K18': dict(outside=OUT, jobs=
        [job('k18_str', 6, covers=[1, 2, 3], bound='every UTF-8 text of 6 bytes, by the function for strings', tiers=Q),
         job('k18_stream', 5, 0, covers=[1, 2, 3, 6], bound='every ASCII text of 5 bytes in any pieces, by the function for streams', tiers=Q),
         job('k18_stream', 6, 2, covers=[1, 2, 3, 6], bound='every ASCII text of 6 bytes in two pieces or one for each character, by the function for streams', tiers=Q),
         job('k18_stream_wide', 4, 0, covers=[1, 2, 3, 6], bound='every UTF-8 text of 4 bytes in any pieces, by the function for streams'),
         job('k18_core', 6, covers=[1, 2, 3], bound='every UTF-8 text of 6 bytes, by the function of the core crate', tiers=Q),
         job('k18_str_with', 4, 1, covers=[1, 3, 5], bound=f'every sequence of 4 of the characters {SIX}, with combiners of any outcomes, by the function for strings', tiers=Q),
         job('k18_str_calls', 1, 2, covers=[1, 3, 5], bound=f'combinations in 12 arrangements with combiners of any outcomes, and any of {SIX} between, by the function for strings', tiers=Q),
         job('k18_stream_with', 1, 2, 2, covers=[1, 3, 5, 6], bound=f'combinations in 12 arrangements with combiners of any outcomes, and any of {SIX} between, by the function for streams', tiers=Q),
         job('k18_core_with', 5, 1, covers=[1, 3, 5], bound='every ASCII text of 5 bytes with combiners of any outcomes, by the function of the core crate', tiers=Q),
         job('k18_core_calls', 2, 2, covers=[1, 3, 5], bound='combinations in 12 arrangements with combiners of any outcomes, and any 2 ASCII characters between, by the function of the core crate', tiers=Q),
         job('k18_crowd', 0, 70000, covers=[1, 2, 3], bound='70000 forms, then any of 3 delimiters, by the function for strings', opts=HUGE),
         job('k18_crowd', 1, 70000, covers=[1, 2, 3, 6], bound='70000 forms, then any of 3 delimiters, by the function for streams, in pieces of 1000', opts=HUGE),
         job('k18_crowd', 2, 10000, covers=[1, 2, 3], bound='10000 forms, then any of 3 delimiters, by the function for memory of the caller', opts=HUGE),
         job('k18_long', 150, covers=[1, 2, 3, 6], bound='150 forms with any 2 ASCII characters before, among or near the end of them, by each function'),
         job('k18_runs', 0, 2, 1, 5, 1, covers=[1, 2, 3], bound=f'1 to 5 of any of {RUNS}, then any ASCII character, in up to 2 nests of 2 kinds, by the function for strings', opts={'sample-every': 10}),
         job('k18_runs', 1, 2, 1, 5, 0, covers=[1, 2, 3, 6], bound=f'1 to 5 of any of {RUNS}, in up to 2 nests of 2 kinds, by the function for streams, in pieces of 2', opts={'sample-every': 10}),
         job('k18_runs', 2, 2, 1, 5, 1, covers=[1, 2, 3], bound=f'1 to 5 of any of {RUNS}, then any ASCII character, in up to 2 nests of 2 kinds, by the function of the core crate', opts={'sample-every': 10}),
         job('k18_str', 8, covers=[1, 2, 3], bound='every UTF-8 text of 8 bytes, by the function for strings', tiers=T, cross=True),
         job('k18_stream', 7, 2, covers=[1, 2, 3, 6], bound='every ASCII text of 7 bytes in two pieces or one for each character, by the function for streams', tiers=T, opts={'sample-every': 5}),
         job('k18_core', 8, covers=[1, 2, 3], bound='every UTF-8 text of 8 bytes, by the function of the core crate', tiers=T),
         job('k18_str_with', 6, 1, covers=[1, 3, 5], bound=f'every sequence of 6 of the characters {SIX}, with combiners of any outcomes, by the function for strings', tiers=T, opts={'sample-every': 5}),
         job('k18_core_with', 6, 1, covers=[1, 3, 5], bound='every ASCII text of 6 bytes with combiners of any outcomes, by the function of the core crate', tiers=T, opts={'sample-every': 5}),
         job('k18_stream_with', 2, 2, 2, covers=[1, 3, 5, 6], bound=f'combinations in 12 arrangements with combiners of any outcomes, and any 2 of {SIX} between, by the function for streams', tiers=T, opts={'sample-every': 20})]
    ),
    'K19': dict(outside=OUT, jobs=
        [job('k19_whole', k, n, covers=[1, 2, 3, 4] if n > 5 else [1, 3], bound=f'every UTF-8 text of {n} bytes in one piece, {KIND19[k]}', tiers=Q) for k, n in [(0, 6), (1, 5)] + [(k, 4) for k in range(2, 10)]] +
        [job('k19_ascii', k, 5, covers=[1, 2, 3, 4, 5], bound=f'every ASCII text of 5 bytes in any pieces, {KIND19[k]}', tiers=Q, opts={'sample-every': 5}) for k in (0, 1, 2, 6, 8)] +
        [job('k19_wide', k, 5, covers=[1, 2, 3, 5], bound=f'every text of 5 characters of all widths in any pieces, {KIND19[k]}', tiers=Q, opts={'sample-every': 5}) for k in (3, 5)] +
        [job('k19_operative', k, 3, covers=[1, 2, 3, 4, 5], bound=f'every ASCII text of 3 bytes as operands, in any pieces, {KIND19[k]}', tiers=Q) for k in (0, 1, 4, 7, 9)] +
        [job('k19_long', k, 300, covers=[1, 2, 3, 5], bound=f'texts of 300 characters of all widths and escapes, {KIND19[k]}') for k in range(10)] +
        [job('k19_runs', k, 2, 1, 4, n, covers=[1, 2, 3, 4, 5], bound=f'1 to 4 of any of {RUNS}{", then any ASCII character" * n}, in up to 2 nests of 3 kinds, in pieces of any one size up to 3, {KIND19[k]}', opts={'sample-every': 10}) for k, n in ((0, 1), (1, 0), (2, 0), (6, 0))] +
        [job('k19_whole', k, 8, covers=[1, 2, 3, 4], bound=f'every UTF-8 text of 8 bytes in one piece, {KIND19[k]}', tiers=T, opts={'sample-every': 5}, cross=k == 0) for k in range(10)] +
        [job('k19_ascii', k, 6, covers=[1, 2, 3, 4, 5], bound=f'every ASCII text of 6 bytes in any pieces, {KIND19[k]}', tiers=T, opts={'sample-every': 5}) for k in range(10)] +
        [job('k19_wide', k, 6, covers=[1, 2, 3, 5], bound=f'every text of 6 characters of all widths in any pieces, {KIND19[k]}', tiers=T, opts={'sample-every': 20}) for k in range(10)] +
        [job('k19_operative', k, 4, covers=[1, 2, 3, 4, 5], bound=f'every ASCII text of 4 bytes as operands, in any pieces, {KIND19[k]}', tiers=T, opts={'sample-every': 5}) for k in range(10)]
    ),
    'K20': dict(outside=OUT, jobs=
        [job('k20_ascii', k, 5 if k else 6, e, covers=[1, 2, 3, 4], bound=f'every ASCII text of {5 if k else 6} bytes, {KIND20[k]}{EMPTY[e]}', tiers=Q, opts={'sample-every': 5}) for k, e in [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0)]] +
        [job('k20_ascii', 3, 4, 1, covers=[1, 2, 3, 4], bound=f'every ASCII text of 4 bytes, {KIND20[3]}{EMPTY[1]}', tiers=Q, opts={'sample-every': 5})] +
        [job('k20_within', k, 3, covers=[1, 2, 3, 4], bound=f'every ASCII text of 3 bytes after any of 3 beginnings, {KIND20[k]}{" in two or for each character" * (k > 2)}', tiers=Q) for k in range(6)] +
        [job('k20_uses', k, 3, 4, 1, covers=[5], bound=f'every ASCII text of 3 bytes, {["pieces of strings", "characters"][k]}, any 4 calls of the stream', tiers=Q) for k in range(2)] +
        [job('k20_long', k, 150, covers=[1, 2, 3, 4], bound='150 forms of all kinds and any 2 ASCII characters') for k in range(4)] +
        [job('k20_runs', k, 2, 1, 4, n, covers=[1, 2, 3, 4], bound=f'1 to 4 of any of {RUNS}{", then any ASCII character" * n}, in up to 2 nests of 3 kinds, {KIND20[k]}{", in pieces of any one size up to 3" * (k == 3)}', opts={'sample-every': 10}) for k, n in ((0, 1), (1, 0), (3, 0))] +
        [job('k20_ascii', k, 7 if k < 3 else 6, 0, covers=[1, 2, 3, 4], bound=f'every ASCII text of {7 if k < 3 else 6} bytes, {KIND20[k]}', tiers=T, opts={'sample-every': 5}, cross=k == 0) for k in range(6)] +
        [job('k20_ascii', k, 5, 1, covers=[1, 2, 3, 4], bound=f'every ASCII text of 5 bytes, {KIND20[k]}{EMPTY[1]}', tiers=T, opts={'sample-every': 5}) for k in (3, 4, 5)] +
        [job('k20_within', k, 4, covers=[1, 2, 3, 4], bound=f'every ASCII text of 4 bytes after any of 3 beginnings, {KIND20[k]}{" in two or for each character" * (k > 2)}', tiers=T, opts={'sample-every': 5}) for k in range(6)] +
        [job('k20_uses', k, 4, 5, 1, covers=[5], bound=f'every ASCII text of 4 bytes, {["pieces of strings", "characters"][k]}, any 5 calls of the stream', tiers=T, opts={'sample-every': 5}) for k in range(2)]
    ),
    'K21': dict(outside=OUT + ' Classifiers that give one character several roles.', jobs=
        [job('k21_roles', l, n, covers=FORMS, bound=f'every assignment of roles to {l} letters and every text of {n} of them', tiers=Q, opts={'sample-every': 10 * (n > 4) or 1}) for l, n in [(4, 5), (5, 4)]] +
        [job('k21_ascii', 5, covers=FORMS, bound='every ASCII text of 5 bytes with x, }, backslash and newline in any roles', tiers=Q, opts={'sample-every': 20}),
         job('k21_free', 8, covers=FORMS, bound='8 different characters, each in any role', opts={'sample-every': 10}),
         job('k21_bound', 7, covers=[1, 2, 3, 4, 5, 6, 30, 40], bound='7 different characters, each in any role, with combiners bound', opts={'sample-every': 10}),
         job('k21_stream', 0, 6, covers=[1, 2, 3, 4, 5, 6, 30, 40], bound='6 different characters, each in any role, with combiners bound, from a stream of strings: one, two or one for each character', opts={'sample-every': 10}),
         job('k21_stream', 1, 7, covers=[1, 2, 3, 4, 5, 6, 30, 40], bound='7 different characters, each in any role, with combiners bound, from a stream of characters', opts={'sample-every': 10}),
         job('k21_default', covers=[60, 61, 62, 63, 64], bound='every char')] +
        [job('k21_roles', l, n, covers=FORMS, bound=f'every assignment of roles to {l} letters and every text of {n} of them', tiers=T, opts={'sample-every': 20}) for l, n in [(3, 6), (5, 5)]] +
        [job('k21_ascii', 6, covers=FORMS, bound='every ASCII text of 6 bytes with x, }, backslash and newline in any roles', tiers=T, cross=True),
         job('k21_free', 9, covers=FORMS, bound='9 different characters, each in any role', tiers=T, opts={'sample-every': 20}),
         job('k21_bound', 8, covers=[1, 2, 3, 4, 5, 6, 30, 40], bound='8 different characters, each in any role, with combiners bound', tiers=T, opts={'sample-every': 20})]
    ),
    'K22': dict(outside=OUT, jobs=
        [job('k22_ascii', k, m, 5, 1, covers=FORMS, bound=f'every ASCII text of 5 bytes, {KIND22[k]}, {MAP22[m]}', tiers=Q) for k in range(10) for m in [k % 2]] +
        [job('k22_nested', k, m, 3, 1, covers=C22, bound=f'every ASCII text of 3 bytes after any of 5 beginnings with combiners of any outcomes, {KIND22[k]}, {MAP22[m]}', tiers=Q) for k in range(10) for m in [(k + 1) % 2]] +
        [job('k22_long', k, m, 150, covers=[1, 2, 4, 5, 34, 44, 50], bound=f'150 forms of all kinds, {KIND22[k]}, {MAP22[m]}') for k in range(10) for m in [k // 2 % 2]] +
        [job('k22_runs', k, m, 2, 4, n, covers=[1, 2, 3, 4, 5, 34, 44, 50], bound=f'1 to 4 of any of {RUNS}{", then any ASCII character" * n}, in up to 2 nests of 3 kinds, {KIND22[k]}, {MAP22[m]}', opts={'sample-every': 10}) for k in range(10) for m, n in [(k % 2, int(k < 4))]] +
        [job('k22_ascii', k, m, 7, 1, covers=FORMS, bound=f'every ASCII text of 7 bytes, {KIND22[k]}, {MAP22[m]}', tiers=T, opts={'sample-every': 10}, cross=(k, m) == (1, 0)) for k in range(10) for m in range(2)] +
        [job('k22_nested', k, m, 4, 1, covers=C22, bound=f'every ASCII text of 4 bytes after any of 5 beginnings with combiners of any outcomes, {KIND22[k]}, {MAP22[m]}', tiers=T, opts={'sample-every': 10}) for k in range(10) for m in range(2)]
    ),
    'K23': dict(outside='Longer histories than stated, and races between threads.', jobs=
        [job('k23_history', k, 5, covers=[1, 2, 3, 4, 5, 6, 7], bound=f'any 5 steps of cloning, downgrading, upgrading, dropping, writing and taking, {["Rc", "Arc"][k]}', tiers=Q, opts={'sample-every': 10}) for k in range(2)] +
        [job('k23_sole', k, 5, covers=[1], bound=f'any 5 reads and writes, {["Box", "mutable borrow", "mutable borrow with slice-allocated texts", "Rc alone", "Arc alone"][k]}') for k in range(5)] +
        [job('k23_direct', 4, covers=[1], bound='any 4 writes through the reference itself, Box and mutable borrow')] +
        [job('k23_history', k, 6, covers=[1, 2, 3, 4, 5, 6, 7], bound=f'any 6 steps of cloning, downgrading, upgrading, dropping, writing and taking, {["Rc", "Arc"][k]}', tiers=T, opts={'sample-every': 200}) for k in range(2)]
    ),
    'K24': dict(outside=OUT, jobs=
        [job('k24_two', k, 3, n, 1, covers=REUSE + OPS + APS, bound=f'every two ASCII texts of 3 and {n} bytes, the first iterated any part of the way, {KIND24[k]}', tiers=Q, opts={'sample-every': 20}) for k, n in [(0, 3), (1, 2), (2, 2), (3, 3), (4, 2), (5, 2)]] +
        [job('k24_after', k, 4, 1, covers=REUSE + OPS + APS + [50], bound=f'8 texts that fail or are not finished, iterated any part of the way, then every ASCII text of 4 bytes, {KIND24[k]}', tiers=Q, opts={'sample-every': 20}) for k in (0, 3, 4)] +
        [job('k24_three', k, 2, 0, covers=[1, 2, 4, 5, 12, 13, 14], bound=f'every three texts of 2 ASCII characters, {KIND24[k]}', tiers=Q, opts={'sample-every': 20}) for k in (0, 3)] +
        [job('k24_within', k, 3, 1, covers=[1, 2, 3, 4, 5, 12, 13, 14] + OPS + APS, bound=f'every ASCII text of 3 bytes in an applicative that parses by itself, {KIND24[k]}', tiers=Q, opts={'sample-every': 20}) for k in range(6)] +
        [job('k24_many', k, 200, 2, covers=[1, 2, 4, 5, 12, 13, 14, 50], bound=f'200 texts that fail or are not finished, then any 2 ASCII characters, {KIND24[k]}') for k in range(6)] +
        [job('k24_change', 3, 3, m, covers=FORMS + [13, 33, 43] + [12] * (m == 0), bound=f'every two ASCII texts of 3 bytes with the delimiters and {MAP22[m]} changed between them', opts={'sample-every': 20}) for m in range(2)] +
        [job('k24_two', k, 4, 3, 1, covers=REUSE + OPS + APS, bound=f'every two ASCII texts of 4 and 3 bytes, the first iterated any part of the way, {KIND24[k]}', tiers=T, opts={'sample-every': 50}, cross=k == 0) for k in range(6)] +
        [job('k24_after', k, 5, 1, covers=REUSE + OPS + APS + [50], bound=f'8 texts that fail or are not finished, iterated any part of the way, then every ASCII text of 5 bytes, {KIND24[k]}', tiers=T, opts={'sample-every': 50}) for k in range(6)] +
        [job('k24_within', k, 4, 2, covers=[1, 2, 3, 4, 5, 12, 13, 14] + OPS + APS, bound=f'every ASCII text of 4 bytes in an applicative that parses by itself, {KIND24[k]}', tiers=T, opts={'sample-every': 50}) for k in range(6)]
    ),
    'K25': dict(outside=OUT + ' Repetitions beyond 48, by which growth would have shown.', jobs=
        [job('k25_ascii', k, 16, 4, 0, 1, covers=[1, 2, 3, 4, 5, 6, 7], bound=f'every piece of 4 ASCII characters, 16 and 32 times, {KIND25[k]}', opts={'sample-every': 4}) for k in range(7)] +
        [job('k25_ascii', k, 16, 3, w, 1, covers=[1, 2, 3, 4, 5, 6, 7], bound=f'every piece of 3 ASCII characters, 16 and 32 times, in a nest of kind {w}, {KIND25[k]}', opts={'sample-every': 4}) for k in range(7) for w in (1, 2, 3, 4, 5, 6)] +
        [job('k25_nests', k, 16, 2, 1, covers=[1, 2, 3, 4, 5, 6, 7], bound=f'every two of 8 pieces, 16 and 32 times, at the top or in nests, {KIND25[k]}', opts={'sample-every': 4}) for k in range(7)] +
        [job('k25_text', 24, 3, covers=[1, 2, 3], bound='texts of 24 and 48 chunks of any 1 to 3 bytes of UTF-8 each, with empty ones between them'),
         job('k25_result', 24, 4, covers=[1, 2], bound='results from every piece of 4 ASCII characters, 24 and 48 times, compared')] +
        [job('k25_ascii', k, 40, 5, w, 1, covers=[1, 2, 3, 4, 5, 6, 7], bound=f'every piece of 5 ASCII characters, 40 and 80 times, in a nest of kind {w}, {KIND25[k]}', tiers=T, opts={'sample-every': 20}, cross=k == 0 and w == 0) for k in range(7) for w in (0, 3, 6)] +
        [job('k25_nests', k, 24, 3, 1, covers=[1, 2, 3, 4, 5, 6, 7], bound=f'every three of 8 pieces, 24 and 48 times, at the top or in nests, {KIND25[k]}', tiers=T, opts={'sample-every': 20}) for k in range(7)]
    ),
    'K26': dict(outside=OUT + ' Bytes of blocks that are held, as opposed to their number.', jobs=
        [job('k26_ascii', k, 4, 0, covers=[1, 2, 3, 4, 5], bound=f'every ASCII text of 4 bytes in any pieces, parsed any part of the way, {KIND26[k]}', opts={'sample-every': 50}) for k in range(6)] +
        [job('k26_ascii', k, 3, 2, covers=[1, 2, 3, 4, 5], bound=f'every ASCII text of 3 bytes in any pieces, with up to two empty ones anywhere, {KIND26[k]}', opts={'sample-every': 50}) for k in (0, 3)] +
        [job('k26_ascii', k, 4, 0, covers=[1, 2], bound=f'every ASCII text of 4 bytes in any chunks, {KIND26[k]}', opts={'sample-every': 50}) for k in (6, 7)] +
        [job('k26_ascii', k, 5, 0, covers=[1, 2, 3, 4], bound=f'every ASCII text of 5 bytes, parsed any part of the way, {KIND26[k]}', opts={'sample-every': 50}) for k in (8, 9)] +
        [job('k26_within', k, 2 + (k > 5), covers=C26[k], bound=f'every {2 + (k > 5)} ASCII characters in 3 kinds of nests, in two pieces or by the character, {KIND26[k]}', opts={'sample-every': 50}) for k in range(10)] +
        [job('k26_many', k, 8, 3 + (k < 2), covers=[1], bound=f'every piece of {3 + (k < 2)} ASCII characters, 8 and 16 times, {MANY26[k]}', opts={'sample-every': 10}) for k in range(4)] +
        [job('k26_ascii', k, 5, 0, covers=[1, 2, 3, 4, 5], bound=f'every ASCII text of 5 bytes in any pieces, parsed any part of the way, {KIND26[k]}', tiers=T, opts={'sample-every': 500}, cross=k == 0) for k in range(6)] +
        [job('k26_ascii', k, 6, 0, covers=[1, 2, 3, 4], bound=f'every ASCII text of 6 bytes, parsed any part of the way, {KIND26[k]}', tiers=T, opts={'sample-every': 100}) for k in (8, 9)] +
        [job('k26_within', k, 4, covers=C26[k], bound=f'every 4 ASCII characters in 3 kinds of nests, in two pieces or by the character, {KIND26[k]}', tiers=T, opts={'sample-every': 500}) for k in range(10)] +
        [job('k26_many', k, 20, 5, covers=[1], bound=f'every piece of 5 ASCII characters, 20 and 40 times, {MANY26[k]}', tiers=T, opts={'sample-every': 50}) for k in range(4)]
    ),
    'K27': dict(outside=OUT + ' More than one other thread, or one that is itself interrupted while it acts. Orders of memory accesses weaker than sequentially consistent ones.', jobs=
        [job('k27_any', k, 2, covers=C27[k], bound=f'every tree of depth up to 2; one thread {WHAT27[k]}, another acts in 10 ways on any datum in it, at any atomic access', opts={'sample-every': 10}) for k in range(4)] +
        [job('k27_chain', k, 5, covers=C27[k], bound=f'chains of up to 5 datums, 3 directions and 3 kinds of branches; one thread {WHAT27[k]}, another acts in 10 ways on any datum in it, at any atomic access', opts={'sample-every': 100}) for k in range(4)] +
        [job('k27_chain', k, 12, covers=C27[k], bound=f'chains of up to 12 datums, 3 directions and 3 kinds of branches; one thread {WHAT27[k]}, another acts in 10 ways on any datum in it, at any atomic access', tiers=T, opts={'sample-every': 1000}) for k in range(4)]
    ),
}
