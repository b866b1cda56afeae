"""fog's reusable objects and module-level functions behind one interface.

A Family has build() -> the (possibly shared) object, gen_args(ch) -> arguments, apply(obj, args) -> canonical,
comparable result.  Used by C09 (same result in every process) and C10 (same result in every interleaving).
"""
import hashlib

from fogsim import routines
from fogsim.work import Key, gen_seed, gen_strings

TEXTS = ['', 'a', 'University of North Carolina', 'NORTH carolina, university of', 'le chat-là, aujourd\'hui', "it's 3.14 o'clock! #HashTag2Be @Me :)",
         'aaa bbb ccc', 'Élève élève ELEVE', 'the cat the cat sat', 'müller-lüdenscheidt', 'Wikipedia', 'xyz 123 xyz', 'café 12 café 7', 'Straße',
         'hello http://a.b/c?d mail@x.org', 'soooooo loooooong', 'zig zag zog', 'i o u', 'McDonald', 'Breschnew', '\U0001f600 smile \U0001f600', 'tab\tnew\nline',
         '&amp; &lt;tag&gt;', 'l\'État-nation qu\'il', '12,5 -3 10.000', 'U.S.A. vs U.K.', 'dr. no', 'rock\'n\'roll', 'x y z w v u t s', 'a b c d e f g h i j k']
WORDS = ['apple', 'pear', 'plum', 'fig', 'kiwi', 'lime', 'date', 'nut', 'oat', 'rye', 'mango', 'grape']


def gen_text(ch):
    if ch.chance(1, 12):
        return ' '.join(gen_word(ch) if ch.chance(1, 2) else ch.pick(WORDS) + str(ch.below(40)) for _ in range(ch.between(8, 40)))
    if ch.chance(3, 4):
        return ch.pick(TEXTS)
    if ch.chance(1, 2):
        return ch.pick([' ', ' ', '-', ', ']).join(gen_word(ch) for _ in range(ch.between(1, 5)))
    return ' '.join(ch.pick(WORDS) for _ in range(ch.between(1, 6)))


ALPHABETS = ['abcdeiou', 'aeiouxyzkc', 'schphtzwvj', 'aabbcc', 'АбвгдеЖз'.lower(), 'éèàçœüßs', 'ABCaeiou', 'abcdefghijklmnopqrstuvwxyz']


def gen_word(ch):
    if ch.chance(1, 2):
        return ch.pick(['Wikipedia', 'müller', 'Breschnew', 'john', 'jhon', 'abc', 'xavier', 'Dijkstra', 'lüdenscheidt', 'apple', 'kiwi', 'aa'])
    al = ch.pick(ALPHABETS)
    return ''.join(ch.pick(al) for _ in range(ch.between(2, 9) if ch.chance(7, 8) else ch.between(10, 24)))


def gen_tokens(ch):
    k = ch.below(3)
    if k == 0:
        return gen_text(ch)
    toks = [ch.pick(WORDS) for _ in range(ch.between(0, 8))]
    if ch.chance(1, 8):
        toks += [ch.pick(WORDS) + str(ch.below(99)) for _ in range(ch.between(5, 60))]
    return ch.pick([list, list, tuple, set, frozenset])(toks)


def num(x):
    """Canonical value; floats are rounded, so that the order of a float sum does not matter."""
    if isinstance(x, float):
        return round(x * (1 + 1e-13) + 3.7213e-11, 9)      # off the ties of ordinary fractions
    if isinstance(x, (set, frozenset)):
        return ('set',) + tuple(sorted((num(y) for y in x), key=repr))
    if isinstance(x, dict):
        return ('dict',) + tuple(sorted(((num(k), num(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (list, tuple)):
        return tuple(num(y) for y in x)
    if hasattr(x, 'tolist'):
        return num(x.tolist())
    if isinstance(x, (int, str, bool, type(None), bytes)):
        return x
    if hasattr(x, '__next__'):
        return tuple(num(y) for y in x)
    return repr(x)


def bag(x):
    return tuple(sorted((num(y) for y in x), key=repr))


class Family(object):
    def __init__(self, name, build, gen_args, apply):
        self.name, self.build, self.gen_args, self.apply = name, build, gen_args, apply


# -- families ---------------------------------------------------------------------------------------

def _fp_options(ch):
    kw = {}
    if ch.chance(1, 3):
        kw['keep_digits'] = False
    if ch.chance(1, 3):
        kw['min_token_size'] = ch.pick([2, 3])
    if ch.chance(1, 3):
        kw['split'] = ch.pick([['-'], ['-', "'"], ['/', ',']])
    if ch.chance(1, 3):
        kw['stopwords'] = ch.pick([['the', 'of'], ['le', 'la'], ['cat']])
    if ch.chance(1, 3):
        kw['squeeze'] = True
    return kw


def fingerprint_like(ch):
    from fog import key as K, tokenizers as T
    which = ch.pick(['FingerprintTokenizer', 'NgramsFingerprintTokenizer', 'FingerprintingKeyer', 'NgramsFingerprintKeyer'])
    kw = _fp_options(ch)
    cls = getattr(T if 'Tokenizer' in which else K, which)
    ng = which.startswith('Ngrams')
    method = ch.pick(['call', 'key', 'tokenize'])

    def apply(o, a):
        args = (a[0], a[1]) if ng else (a[1],)
        f = o if method == 'call' else getattr(o, method)
        return num(f(*args))
    return Family('%s(%r).%s' % (which, kw, method), lambda: cls(**kw), lambda c: (c.between(1, 3), gen_text(c)), apply)


def ready_made(ch):
    from fog import key as K, tokenizers as T
    o, n, ng = ch.pick([(K.fingerprint, 'key.fingerprint', 0), (K.ngrams_fingerprint, 'key.ngrams_fingerprint', 1),
                        (T.fingerprint_tokenizer, 'tokenizers.fingerprint_tokenizer', 0), (T.ngrams_fingerprint_tokenizer, 'tokenizers.ngrams_fingerprint_tokenizer', 1),
                        (T.words_tokenizer, 'tokenizers.words_tokenizer', 0)])
    return Family(n, lambda: o, lambda c: (c.between(1, 3), gen_text(c)), lambda o, a: num(o(*a) if ng else o(a[1])))


def words(ch):
    from fog.tokenizers import WordTokenizer
    kw = {}
    for k in ('lower', 'unidecode', 'reduce_words', 'decode_html_entities', 'normalize_mentions', 'normalize_hashtags', 'mentions_as_words',
              'hashtags_as_words', 'split_hashtags'):
        if ch.chance(1, 4):
            kw[k] = True
    if ch.chance(1, 4):
        kw['min_word_length'] = ch.pick([2, 3])
    if ch.chance(1, 4):
        kw['max_word_length'] = ch.pick([6, 8])
    if ch.chance(1, 4):
        kw['stoplist'] = ['the', 'Cat', 'of']
    k = ch.below(4)
    if k == 1:
        kw['keep'] = ['word', 'number']
    elif k == 2:
        kw['drop'] = ['punct', 'emoji']
    return Family('WordTokenizer(%r)' % kw, lambda: WordTokenizer(**kw), lambda c: (gen_text(c),), lambda o, a: num(list(o(a[0]))))


def hasher(ch):
    from fog import lsh as L
    kind = ch.pick(['MinHash', 'SuperMinHash', 'LSBMinHash', 'MinHash-numpy'])
    seed = gen_seed(ch, kind == 'MinHash-numpy')
    h = ch.pick([4, 8, 16])
    if kind == 'LSBMinHash':
        build = lambda: L.LSBMinHash(precision=1, seed=seed)
    elif kind == 'SuperMinHash':
        build = lambda: L.SuperMinHash(h)
    elif kind == 'MinHash':
        build = lambda: L.MinHash(h, seed=seed)
    else:
        build = lambda: L.MinHash(h, seed=seed, use_numpy=True)
    return Family('%s(%d, seed=%r)' % (kind, h, seed), build, lambda c: (gen_tokens(c),), lambda o, a: num(o.create_signature(a[0])))


def function(ch):
    from fog import key as K, phonetics as P, tokenizers as T, lsh as L, metrics as M, utils as U
    name, f, args = ch.pick([
        ('cologne', lambda s: num(P.cologne(s)), 'word'), ('rusalka', lambda s: num(P.rusalka(s)), 'word'),
        ('omission_key', lambda s: num(K.omission_key(s)), 'word'), ('skeleton_key', lambda s: num(K.skeleton_key(s)), 'word'),
        ('levenshtein_1d_keys', lambda s: bag(K.levenshtein_1d_keys(s)), 'word'), ('damerau_levenshtein_1d_keys', lambda s: bag(K.damerau_levenshtein_1d_keys(s)), 'word'),
        ('levenshtein_1d_blocks', lambda s: bag(K.levenshtein_1d_blocks(s)), 'word'), ('damerau_levenshtein_1d_blocks', lambda s: bag(K.damerau_levenshtein_1d_blocks(s)), 'word'),
        ('levenshtein_2d_blocks', lambda s: bag(K.levenshtein_2d_blocks(s)), 'word'), ('damerau_levenshtein_2d_blocks', lambda s: bag(K.damerau_levenshtein_2d_blocks(s)), 'word'),
        ('ngram_keys', lambda s: bag(K.ngram_keys(2, s[:7])), 'word'), ('ngrams', lambda s: num(list(T.ngrams(2, s))), 'text'),
        ('trigrams', lambda s: num(list(T.trigrams(s))), 'text'), ('squeeze', lambda s: num(U.squeeze(s)), 'text'),
        ('simhash', lambda s: num(L.simhash(s.split(), f=128)), 'text'), ('simhash256', lambda s: num(L.simhash(s.split(), f=256)), 'text'),
        ('jaccard', lambda s, t: num(M.jaccard_similarity(s, t)), 'pair'), ('dice', lambda s, t: num(M.dice_coefficient(s, t)), 'pair'),
        ('overlap', lambda s, t: num(M.overlap_coefficient(s, t)), 'pair'), ('cosine', lambda s, t: num(M.cosine_similarity(s, t)), 'pair'),
        ('weighted_jaccard', lambda s, t: num(M.weighted_jaccard_similarity(count(s), count(t))), 'pair'),
        ('sparse_normalize', lambda s: num(M.sparse_normalize(count(s))), 'text'),
        ('quadrigrams', lambda s: num([list(T.bigrams(s)), list(T.quadrigrams(s)), list(T.quadrigrams(s.split()))]), 'text'),
        ('squeeze_roman', lambda s: num(U.squeeze(s, keep_roman_numerals=True)), 'text'),
        ('simhash512', lambda s, t: num([L.simhash(s.split()[:8], f=512), L.simhash_similarity(L.simhash(s[:40]), L.simhash(t[:40])), L.simhash_distance(L.simhash(s[:40]), L.simhash(t[:40]))]), 'pair'),
        ('sparse_cosine', lambda s, t: num([M.sparse_cosine_similarity(count(s), count(t)), M.sparse_dot_product(count(s), count(t)), M.sparse_norm(count(s)),
                                            M.sparse_binary_cosine_similarity(count(s), count(t))]), 'pair'),
        ('lsh_similarities', lambda s, t: num([L.minhash_similarity(L.MinHash(8, seed=1).create_signature(s), L.MinHash(8, seed=1).create_signature(t)),
                                               L.lsb_minhash_similarity(L.LSBMinHash(1, seed=1).create_signature(s), L.LSBMinHash(1, seed=1).create_signature(t))]), 'pair'),
        ('binary_cosine', lambda s, t: num(M.binary_cosine_similarity(s, t)), 'pair'),
    ])
    if args == 'word':
        ga = lambda c: (gen_word(c),)
    elif args == 'text':
        ga = lambda c: (gen_text(c) or 'x',)
    else:
        ga = lambda c: (gen_text(c) or 'x', gen_text(c) or 'y')
    return Family(name, lambda: f, ga, lambda o, a: o(*a))


def count(s):
    d = {}
    for c in s:
        d[c] = d.get(c, 0) + 1
    return d


def clustering(ch, top=8):
    case = routines.gen_case(ch, top=top)
    for k in case.callbacks().values():
        # a callback giving a set would itself depend on the hash seed
        if isinstance(k, Key):
            k.kind = {'mods_set': 'mods_str', 'charset': 'chars'}.get(k.kind, k.kind)
    return Family(case.describe(), lambda: list(case.items), lambda c: (),
                  lambda data, a: num(case.canon(list(case.start(data=data)))))


def text_clustering(ch):
    """Clustering strings with fog's own shared keys and tokenizers."""
    from fog import clustering as C, key as K, tokenizers as T, phonetics as P
    items = list(dict.fromkeys(gen_text(ch) for _ in range(ch.between(2, 8))))
    canon = lambda cs: num(sorted(tuple(sorted(c)) for c in cs))
    k = ch.below(9)
    if k >= 5:
        # clusters depend on the order in which pairs are met
        items = list(dict.fromkeys(gen_word(ch) for _ in range(ch.between(3, 9))))
        salt = str(ch.below(1 << 16))
        sim = lambda a, b: hashlib.md5((salt + min(a, b) + '|' + max(a, b)).encode()).digest()[0] < 120
        if k == 5:
            f, n = (lambda d: canon(C.blocking(d, blocks=list, similarity=sim, mode='fuzzy_clusters'))), 'blocking(fuzzy, list)'
        elif k == 6:
            f, n = (lambda d: canon(C.blocking(d, blocks=lambda s: T.ngrams(2, s), similarity=sim, mode='fuzzy_clusters'))), 'blocking(fuzzy, bigrams)'
        elif k == 7:
            f, n = (lambda d: canon(C.intersection_index(d, radius=0.3, metric='overlap', mode='fuzzy_clusters'))), 'intersection_index(fuzzy)'
        else:
            f, n = (lambda d: canon(C.key_collision(d, keys=lambda s: T.ngrams(2, s), merge=False))), 'key_collision(bigrams)'
        return Family('%s on %r %s' % (n, items, salt), lambda: list(items), lambda c: (), lambda d, a: f(d))
    if k == 0:
        f, n = (lambda d: canon(C.key_collision(d, key=K.fingerprint))), 'key_collision(fingerprint)'
    elif k == 1:
        f, n = (lambda d: canon(C.key_collision([x.split()[0] for x in d if x.split()], key=P.cologne))), 'key_collision(cologne)'
    elif k == 2:
        f, n = (lambda d: canon(C.intersection_index(d, key=T.fingerprint_tokenizer, radius=0.4, mode='fuzzy_clusters'))), 'intersection_index(fuzzy, fingerprint_tokenizer)'
    elif k == 3:
        f, n = (lambda d: canon(C.blocking(d, blocks=T.fingerprint_tokenizer, similarity=lambda a, b: len(set(a) & set(b)) >= 4, mode='fuzzy_clusters'))), 'blocking(fuzzy, fingerprint_tokenizer)'
    else:
        f, n = (lambda d: num(sorted(tuple(sorted(p)) for p in C.ppjoin(d, threshold=0.41, tokenizer=T.fingerprint_tokenizer)))), 'ppjoin(fingerprint_tokenizer)'
    return Family('%s on %r' % (n, items), lambda: list(items), lambda c: (), lambda d, a: f(d))


def projection(ch):
    import networkx as nx
    from fog.graph import monopartite_projection
    left = WORDS[:ch.between(2, 6)]
    right = ['R' + w for w in WORDS[:ch.between(2, 6)]]
    edges = [(l, r, ch.between(1, 5)) for l in left for r in right if ch.chance(1, 2)]
    kw = {}
    m = ch.pick([None, 'jaccard', 'overlap', 'dice', 'cosine', 'binary_cosine'])
    if m:
        kw['metric'] = m
    if ch.chance(1, 2):
        kw['threshold'] = ch.pick([0.213, 0.513])
    kw['use_topology'] = ch.chance(1, 2)

    def build():
        g = nx.Graph()
        for l in left:
            g.add_node(l, bipartite='L')
        for r in right:
            g.add_node(r, bipartite='R')
        for l, r, w in edges:
            g.add_edge(l, r, weight=w)
        return g

    def apply(g, a):
        p = monopartite_projection(g, 'L', **kw)
        return (bag(p.nodes), bag((tuple(sorted((u, v))), num(w)) for u, v, w in p.edges(data='weight')))
    return Family('monopartite_projection(%r, %r)' % (edges, kw), build, lambda c: (), apply)


def sparsify(ch):
    import networkx as nx
    from fog.graph import floatsam_sparsification
    nodes = WORDS[:ch.between(3, 9)]
    edges = [(a, b, ch.between(1, 20) / 20.0) for i, a in enumerate(nodes) for b in nodes[i + 1:] if ch.chance(1, 2)]
    kw = {'learning_rate': ch.pick([0.05, 0.1])}

    def build():
        g = nx.Graph()
        g.add_nodes_from(nodes)
        for a, b, w in edges:
            g.add_edge(a, b, weight=w)
        return g
    return Family('floatsam_sparsification(%r, %r)' % (edges, kw), build, lambda c: (), lambda g, a: num(floatsam_sparsification(g, **kw)))


def evaluation(ch):
    from fog import evaluation as E
    items = list(WORDS[:ch.between(2, 10)])
    if ch.chance(1, 6):
        items = [w + str(i) for i in range(ch.between(2, 5)) for w in items]
    a = [ch.below(4) for _ in items]
    b = [ch.below(4) for _ in items]
    group = lambda ls, f: [f(x for x, l in zip(items, ls) if l == k) for k in sorted(set(ls))]
    f = ch.pick([list, tuple, set, frozenset])

    def apply(o, args):
        return num([E.best_matching_macro_average(o[0], o[1]), bag(map(bag, E.labels_to_clusters(dict(zip(items, a))))),
                    num(E.clusters_to_labels([sorted(c) for c in o[0]]))])
    return Family('best_matching(%r, %r, %s)' % (group(a, list), group(b, list), f.__name__), lambda: (group(a, f), group(b, f)), lambda c: (), apply)


FAMILIES = [(4, fingerprint_like), (2, ready_made), (3, words), (4, hasher), (4, function), (3, text_clustering), (2, clustering), (2, projection),
            (1, sparsify), (2, evaluation)]


def gen_family(ch):
    return ch.weighted(FAMILIES)(ch)
