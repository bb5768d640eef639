# Which word an ambiguous text stands for.
from sx.scenario import Scenario

from utg import dictionary
from utg import relations as r
from utg import words

from props import common as c
from props import vocabulary

W = r.WORD_TYPE


def less(ctx, a, b):
    """Lists of forms, first difference decides."""
    acc = []
    same = True
    for x, y in zip(a, b):
        if isinstance(x, str) and isinstance(y, str) and type(x) is str and type(y) is str:
            if x == y:
                continue
        acc.append(ctx.And(same, x < y))
        same = ctx.And(same, ctx.same_text(x, y))
    return ctx.Or(*acc), same


def weight(ctx, features):
    return ctx.count([ctx.Not(ctx.Eq(value, c.default(rel))) for rel, value in features.items()])


def same_features(ctx, properties, features):
    acc = []
    for rel in c.ALL:
        if rel in features:
            acc.append(properties.is_specified(rel))
            acc.append(ctx.Eq(properties.get(rel), features[rel]))
        else:
            acc.append(ctx.Not(properties.is_specified(rel)))
    return ctx.And(*acc)


def verdict(ctx, vocabulary_, entries, text, label='winner'):
    """`entries` of all words in order of addition."""
    got, error = ctx.raises(vocabulary_.get_word, text)
    here = [ctx.same_text(e.text, text) for e in entries]
    ctx.check(ctx.Iff(error is None, ctx.Or(*here)), label + '-known')
    if error is not None:
        return
    ctx.check(ctx.same_text(got.form, text), label + '-text')
    weights = [weight(ctx, e.features) for e in entries]
    compared = {}
    for i, e in enumerate(entries):
        if here[i] is False:
            continue
        better = []
        for j, o in enumerate(entries):
            if j == i or here[j] is False:
                continue
            if o.kind != e.kind:
                if o.kind.value < e.kind.value:
                    better.append(here[j])
                continue
            key = (id(o.forms), id(e.forms))
            if key not in compared:
                compared[key] = less(ctx, o.forms, e.forms)
            smaller, same = compared[key]
            lighter = weights[j] <= weights[i] if j < i else weights[j] < weights[i]
            better.append(ctx.And(here[j], ctx.Or(smaller, ctx.And(same, lighter))))
        wins = ctx.And(here[i], ctx.Not(ctx.Or(*better)))
        ctx.check(ctx.Implies(wins, ctx.And(got.word.type == e.kind, *[ctx.same_text(a, b) for a, b in zip(got.word.forms, e.forms)])), label + '-word')
        ctx.check(ctx.Implies(wins, same_features(ctx, got.properties, e.features)), label + '-features')
        ctx.check(ctx.Implies(wins, same_features(ctx, got.word.properties, {rel: e.features[rel] for rel in e.own})), label + '-own-features')
    ctx.observe('shown', got.form)
    ctx.observe('features', sorted(rel.__name__ for rel in c.ALL if got.properties.is_specified(rel)))


def some_word(ctx, name, kind, slots, alphabet, own_groups, schema_own=(), lengths=(1, 1)):
    size = c.SIZES[kind.name]
    texts = ['x%03d' % i for i in range(size)]
    for s in slots:
        texts[s] = ctx.string('%s.f%d' % (name, s), lengths[0], lengths[1], alphabet)
    own = {}
    for g in own_groups:
        value = ctx.record('%s.%s' % (name, g.__name__), g, none=True)
        if value is not None:
            own[g] = value
    if schema_own:
        extra = ctx.choose(name + '.own', schema_own)
        own.update(extra)
    return vocabulary.build(kind, texts, own), kind, texts, own


def lookup(ctx, specs, orders, alphabet, incremental=False, lengths=(1, 1)):
    made = [some_word(ctx, 'w%d' % i, *spec, lengths=lengths) for i, spec in enumerate(specs)]
    order = ctx.choose('order', orders)
    entries = []
    known = dictionary.Dictionary() if incremental else dictionary.Dictionary(words=[made[i][0] for i in order])
    text = ctx.string('text', lengths[0], lengths[1], alphabet)
    for i in order:
        word, kind, texts, own = made[i]
        new = vocabulary.entries(word, kind, texts, own, len(entries))
        for e in new:
            e.own = list(own)
        entries.extend(new)
        if incremental:
            known.add_word(word)
            verdict(ctx, known, entries, text)
    if not incremental:
        verdict(ctx, known, entries, text)


def crowd(ctx, number, kinds, positions):
    """Many words with the same texts and two arbitrary ones among them."""
    made = []
    for i in range(number):
        kind = kinds[i % len(kinds)]
        texts = ['x%03d' % n for n in range(c.SIZES[kind.name])]
        texts[0] = 'аб'[i % 2]
        if len(texts) > 1:
            texts[1] = 'да'[i // 2 % 2]
            texts[-1] = 'конец %03d' % (number - i)
        own = {r.NUMBER: r.NUMBER.PLURAL} if i % 3 else {r.GENDER: r.GENDER.FEMININE, r.NUMBER: r.NUMBER.SINGULAR}
        made.append((vocabulary.build(kind, texts, own), kind, texts, own))
    for n, at in enumerate(positions):
        made.insert(at, some_word(ctx, 'w%d' % n, kinds[0], [0, 1] if c.SIZES[kinds[0].name] > 1 else [0], 'аб', [r.NUMBER]))
    known = dictionary.Dictionary(words=[m[0] for m in made])
    entries = []
    for word, kind, texts, own in made:
        new = vocabulary.entries(word, kind, texts, own, len(entries))
        for e in new:
            e.own = list(own)
        entries.extend(new)
    verdict(ctx, known, entries, ctx.string('text', 1, 1, 'аб'))


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, specs, bounds, orders=None, incremental=False, alphabet='аб', lengths=(1, 1)):
        n = len(specs)
        if orders is None:
            orders = [[0, 1], [1, 0]] if n == 2 else [[0, 1, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0], [0, 2, 1], [1, 0, 2]]
        out.append(Scenario(name, lookup, bounds, dict(specs=specs, orders=orders, alphabet=alphabet, incremental=incremental, lengths=lengths)))
    A = 'аб'
    T, I, P, N = W.TEXT, W.INTEGER, W.PREPOSITION, W.NOUN
    G = [r.GENDER]
    U = [{}, {r.WORD_CASE: r.WORD_CASE.UPPER}]
    add('texts', [(T, [0], A, [r.GENDER, r.NUMBER])] * 2, 'two TEXT words of one letter, own gender and number given or not, both orders')
    add('texts-three', [(T, [0], A, G)] * 3, 'three TEXT words of one letter, own gender given or not, all orders')
    add('kinds', [(T, [0], A, G), (I, [0], A, G), (P, [0, 2], A, [])], 'words of three parts of speech with the same letters, all orders')
    add('prepositions', [(P, [0, 1, 2], A, [])] * 2, 'two prepositions, all forms of one letter, both orders')
    add('prepositions-own', [(P, [0, 2], A, [r.ANIMALITY], [{}, {r.PREPOSITION_FORM: r.PREPOSITION_FORM.SPECIAL}])] * 2,
        'two prepositions, own animacy and form given or not, both orders')
    nouns = [(N, [0, 1, 9], A, [r.ANIMALITY])] * 2
    add('nouns', nouns, 'two nouns with three letters among their forms, own animacy given or not, both orders')
    add('nouns-number', [(N, [0, 6], A, [], [{}, {r.NUMBER: r.NUMBER.PLURAL}, {r.NUMBER: r.NUMBER.SINGULAR}])] * 2, 'two nouns, own number given or not, both orders')
    add('noun-last-forms', [(N, [11, 12, 17], A, [])] * 2, 'two nouns with three letters among their last forms, both orders')
    add('noun-verb', [(N, [3, 10], A, G), (W.VERB, [0, 4, 19], A, [r.ASPECT])], 'a noun and a verb sharing letters, own gender and aspect given or not, both orders')
    add('adjective-participle', [(W.ADJECTIVE, [0, 100], A, []), (W.PARTICIPLE, [0, 147], A, [r.ASPECT])], 'an adjective and a participle sharing letters, both orders')
    add('pronouns', [(W.PRONOUN, [0, 30], A, [r.PERSON])] * 2, 'two pronouns sharing letters, own person given or not, both orders')
    add('verbs', [(W.VERB, [0, 1, 8], A, [r.VOICE])] * 2, 'two verbs sharing letters, own voice given or not, both orders')
    add('one-by-one', [(T, [0], A, [r.GENDER, r.NUMBER])] * 2, 'two TEXT words, looked up after each addition', incremental=True)
    add('one-by-one-three', [(P, [0, 1], A, [])] * 3, 'three prepositions, looked up after each addition', incremental=True, orders=[[0, 1, 2]])
    add('same-twice', [(P, [0, 1], A, G)] * 2, 'the same preposition added again between others', orders=[[0, 1, 0], [0, 0, 1], [1, 0, 0, 1]])
    add('letters', [(P, [0, 1, 2], 'Бвё -', [])] * 2, 'two prepositions, forms of one of five characters, both orders', alphabet='Бвё -')
    add('characters', [(P, [0, 1], c.EVERY, [])] * 2, 'two prepositions, two forms of one character of ASCII, Cyrillic and common signs, both orders', alphabet=c.EVERY)
    add('character-pairs', [(P, [0], c.EVERY, [])] * 2, 'two prepositions, a form of up to two characters of ASCII, Cyrillic and common signs, both orders', alphabet=c.EVERY, lengths=(0, 2))
    add('longer', [(P, [0, 1], 'аБ', [])] * 2, 'two prepositions, two forms of up to 2 letters, both orders', alphabet='аБ', lengths=(0, 2))
    add('longer-own', [(P, [0], 'аБ', [r.GENDER])] * 2, 'two prepositions, own gender given or not, a form of up to 3 letters, both orders', alphabet='аБ', lengths=(0, 3))
    for number, kinds, positions in ((6, [T], [0, 3]), (14, [P, T], [0, 9]), (14, [P, I], [5, 15]), (9, [N, P], [0, 10])):
        out.append(Scenario('crowd-%d-%s' % (number, kinds[-1].name), crowd, 'two arbitrary words among %d others with the same texts' % number, dict(number=number, kinds=kinds, positions=positions)))
    if deep:
        add('nouns-three', [(N, [0, 7], A, [r.ANIMALITY])] * 3, 'three nouns with two letters among their forms, own animacy given or not, all orders')
        add('texts-four', [(T, [0], A, G)] * 4, 'four TEXT words of one letter, own gender given or not, four orders',
            orders=[[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1]])
        add('adjectives', [(W.ADJECTIVE, [0, 40, 100], A, [r.ADJECTIVE_CATEGORY])] * 2, 'two adjectives with three letters among their forms, both orders')
        add('participles', [(W.PARTICIPLE, [0, 147], A, [r.ASPECT])] * 2, 'two participles with two letters among their forms, both orders')
    return out
