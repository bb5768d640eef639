# Sequences of operations: what is rendered, stored and looked up afterwards.
from sx.scenario import Scenario

from utg import constructors
from utg import dictionary
from utg import exceptions
from utg import lexicon
from utg import relations as r
from utg import templates
from utg import transformators
from utg import words

from props import c15
from props import common as c
from props import markup

W = r.WORD_TYPE
FIRST = 'x [слово|герой|%s] 5%% [Герой|рд]'
SECOND = '[герой|мн,%s] и [число] [слово|число|Дт]'


class Inputs(object):
    """Arbitrary values from which equal objects can be built any number of times."""

    def __init__(self, ctx, full=True, number=True):
        self.case = ctx.choose('case', ['рд', 'тв', 'дт']) if full else 'рд'
        self.number = ctx.record('hero.number', r.NUMBER, none=number)
        self.animality = ctx.record('hero.animality', r.ANIMALITY, none=full)
        self.gender = ctx.record('word.gender', r.GENDER, none=number)
        self.asked = ctx.record('hero.case', r.CASE)
        self.form = ctx.string('form', 1, 1, 'аб')


class World(object):
    def __init__(self, i):
        noun = ['x%03d' % n for n in range(18)]
        self.hero = words.Word(type=W.NOUN, forms=['h%03d' % n for n in range(18)], properties=words.Properties(i.animality, i.number))
        self.word = words.Word(type=W.NOUN, forms=[i.form] + noun[1:], properties=words.Properties(i.gender))
        self.extra = words.Word(type=W.NOUN, forms=[i.form, '', ''] + ['e%03d' % n for n in range(15)])
        self.preposition = words.Word(type=W.PREPOSITION, forms=['в', 'во', ''], properties=words.Properties())
        self.plain = words.Word(type=W.TEXT, forms=['слово'])
        self.dictionary = dictionary.Dictionary(words=[self.word, self.plain, self.preposition])
        self.other = dictionary.Dictionary()
        self.externals = {'герой': words.WordForm(self.hero, words.Properties(i.asked)), 'число': constructors.construct_integer(2),
                          'слово': words.WordForm(self.word, words.Properties(r.NUMBER.PLURAL))}
        self.names = sorted(self.externals)
        self.first, self.second = templates.Template(), templates.Template()
        self.first.parse(FIRST % i.case, externals=self.externals)
        self.second.parse(SECOND % i.case, externals=self.externals)
        self.third = templates.Template()
        self.third.parse('[x002] [во] [x002|герой]', externals=self.externals)
        self.lexicon, self.lexicon2 = lexicon.Lexicon(), lexicon.Lexicon()
        self.lexicon.add_template('k', self.first, frozenset(['a']))
        self.lexicon.add_template('k', self.second)
        self.features = words.Properties(i.asked, i.gender)
        self.inputs = i

    # what a user can see ------------------------------------------------------------------------
    def texts(self):
        return [self.first.substitute(externals=self.externals, dictionary=self.dictionary), self.second.substitute(externals=self.externals, dictionary=self.dictionary),
                self.third.substitute(externals=self.externals, dictionary=self.dictionary)]

    def stored(self):
        return [self.hero.serialize(), self.word.serialize(), self.extra.serialize(), self.preposition.serialize(), self.first.serialize(), self.second.serialize(), self.features.serialize(),
                self.externals['герой'].properties.serialize(), self.externals['герой'].form_properties.serialize(), self.externals['число'].properties.serialize(),
                self.externals['слово'].properties.serialize(),
                self.third.serialize(), self.dictionary.get_word('x002').properties.serialize()]

    def known(self):
        found = self.dictionary.get_word('в')
        return [self.dictionary.has_word(t) for t in ('слово', 'x001', 'во', 'h000', 'в', self.inputs.form)] + [found.form, found.properties.serialize(), len(self.dictionary.get_words()),
                                                                                                         self.other.has_word('слово'), len(self.lexicon.get_templates('k', frozenset())), self.lexicon2.has_key('k')]

    def facts(self):
        return [self.word.number_of_syllables, self.word.has_fluent_vowel, self.externals['слово'].form, self.externals['слово'].starts_with_consonant_cluster, self.hero.normal_form()]

    def seen(self):
        return [self.texts(), self.stored(), self.known(), self.facts(), sorted(self.externals)]


def op_render(w):
    w.texts()


def op_render_other(w):
    w.second.substitute(externals={'герой': w.externals['число'], 'число': w.externals['герой'], 'слово': w.externals['герой']}, dictionary=w.other)


def op_render_asked(w):
    t = templates.Template()
    t.parse('[x002|мн,тв] [X002|число|дт] [во|герой|спц]', externals=w.externals)
    t.substitute(externals=w.externals, dictionary=w.dictionary)
    t.substitute(externals={'герой': w.externals['число'], 'число': w.externals['слово']}, dictionary=w.dictionary)


def op_fail(w):
    for externals in ({}, {'герой': w.externals['герой']}):
        try:
            w.first.substitute(externals=externals, dictionary=w.other)
        except exceptions.UtgError:
            pass


def op_parse(w):
    t = templates.Template()
    t.parse('[слово|мн] %d [герой|слово]', externals=('герой', 'слово'))
    t.substitute(externals=w.externals, dictionary=w.dictionary)
    try:
        t.parse('[слово|ой]', externals=())
    except exceptions.UtgError:
        pass


def op_lookup(w):
    w.dictionary.has_word('нет')
    w.dictionary.get_words()
    found = w.dictionary.get_word('во')
    found.properties.clone(r.CASE.GENITIVE)
    words.WordForm.get_form(found.word, found.properties)
    try:
        w.dictionary.get_word('нет')
    except exceptions.UtgError:
        pass


def op_facts(w):
    w.facts()
    w.externals['число'].form
    w.preposition.number_of_syllables


def op_compare(w):
    w.word == w.hero
    w.first == w.second
    w.first != w.first
    hash(w.word)
    w.features == words.Properties(r.CASE.DATIVE)
    hash(w.features)
    set([w.hero, w.word])
    str(w.features)


def op_numerals(w):
    for n in (0, 1, 2, 21, -5, 1000000):
        constructors.construct_integer(n).form


def op_store(w):
    words.Word.deserialize(w.word.serialize()).form(w.features)
    again = templates.Template.deserialize(w.first.serialize())
    again.substitute(externals=w.externals, dictionary=w.dictionary)
    words.Properties.deserialize(w.features.serialize()).clone(r.NUMBER.PLURAL, r.CASE.DATIVE)
    w.features.clone(w.externals['герой'].properties, r.VOICE.REVERSE)
    w.first.get_undictionaried_words(externals=w.externals, dictionary=w.other)


def op_transform(w):
    for name in ('герой', 'число'):
        for slave in (w.word, w.preposition):
            transformators.transform(slave_word=slave, slave_propeties=w.features, master_form=w.externals[name])


def op_other_objects(w):
    d = dictionary.Dictionary()
    d.add_word(words.Word(type=W.TEXT, forms=['h000']))
    d.add_word(w.hero)
    lex = lexicon.Lexicon()
    lex.add_template('k', w.first)
    lex.add_template('z', w.second)
    w.lexicon.get_templates('k', frozenset('a'))
    w.lexicon.get_random_template('k', frozenset('a'))
    w.lexicon.get_random_nearest_template('k', frozenset('ab'))
    p = words.Properties()
    words.Properties(p, r.CASE.DATIVE)
    words.Word(type=W.TEXT, forms=['т']).properties.clone(r.WORD_CASE.UPPER)


def op_fill(w):
    twin = words.Word(type=W.NOUN, forms=list(w.extra.forms), properties=w.extra.properties)
    twin.autofill_missed_forms()
    twin.number_of_syllables
    complete = words.Word.deserialize(w.word.serialize())
    complete.autofill_missed_forms()


def op_new(w):
    for kind in W.records:
        made = words.Word(type=kind, forms=['n%d' % i for i in range(c.SIZES[kind.name])])
        words.WordForm(made).form
        words.WordForm(made, words.Properties(r.NUMBER.PLURAL, r.CASE.DATIVE)).form
        made.normal_form()
        words.Word.create_test_word(kind, prefix='t').autofill_missed_forms()
    templates.Template().serialize()
    lexicon.Lexicon().has_key('k')
    dictionary.Dictionary().get_words()


OPS = [op_render, op_render_other, op_render_asked, op_fail, op_parse, op_lookup, op_facts, op_compare, op_numerals, op_store, op_transform, op_other_objects, op_fill, op_new]


def history(ctx, first, length):
    inputs = Inputs(ctx, False, length < 3)
    expected = World(inputs).seen()
    ctx.restart()
    w = World(inputs)
    OPS[first](w)
    for i in range(length - 1):
        OPS[ctx.choose('op%d' % i, len(OPS))](w)
    got = w.seen()
    for label, a, b in zip(('texts', 'stored', 'known', 'facts', 'externals'), got, expected):
        ctx.check(ctx.Eq(a, b), label + '-unchanged')
    new = World(inputs)
    ctx.check(ctx.Eq(new.texts(), expected[0]), 'new-objects-behave-the-same')
    ctx.check(ctx.Eq(new.stored(), expected[1]), 'new-objects-are-stored-the-same')
    ctx.observe('texts', got[0])


def mixed_up(ctx):
    """Two worlds with different values do not influence each other."""
    a, b = Inputs(ctx), None
    case = ctx.record('other.case', r.CASE)
    w = World(a)
    before = w.seen()
    a2 = Inputs.__new__(Inputs)
    a2.case, a2.number, a2.animality, a2.gender, a2.asked, a2.form = 'дт', r.NUMBER.PLURAL, r.ANIMALITY.INANIMATE, r.GENDER.FEMININE, case, 'в'
    other = World(a2)
    theirs = other.seen()
    ctx.check(ctx.Eq(w.seen(), before), 'first-world-unchanged')
    w.dictionary.add_word(words.Word(type=W.TEXT, forms=['новое']))
    w.lexicon.add_template('new', w.first)
    w.extra.autofill_missed_forms()
    w.first.parse('[герой]', externals=w.externals)
    ctx.check(ctx.Eq(other.seen(), theirs), 'second-world-unchanged')
    ctx.check(not other.dictionary.has_word('новое'), 'dictionaries-apart')
    ctx.check(not other.lexicon.has_key('new'), 'lexicons-apart')


def same_words(ctx):
    """Equal words in place of the same words."""
    inputs = Inputs(ctx)
    w = World(inputs)
    first = w.texts()
    twin = World(inputs)
    w.externals = {k: words.WordForm(words.Word.deserialize(x.word.serialize()), words.Properties.deserialize(x.properties.serialize())) for k, x in twin.externals.items()}
    w.dictionary = dictionary.Dictionary(words=[words.Word.deserialize(x.serialize()) for x in (twin.preposition, twin.word, twin.plain)])
    ctx.check(ctx.Eq(w.texts(), first), 'equal-words')
    w.first, w.second = templates.Template.deserialize(w.first.serialize()), templates.Template.deserialize(w.second.serialize())
    ctx.check(ctx.Eq(w.texts(), first), 'equal-templates')
    ctx.check(ctx.Eq(w.texts(), first), 'again')
    ctx.observe('texts', first)


FILLED = '[п] [сущ] [сущ|число] [п|имя] [п|сущ] [Имя|число]'


def fill_between(ctx, pattern, asked):
    """Words used before their missing forms were filled in behave like words that were filled in from the start."""
    texts = [ctx.string('form%d' % k, 0, 1, 'всоа') if k in pattern else x for k, x in enumerate(['', 'в', 'об'])]
    other = ctx.choose('other', ['арка', 'вход', ''])
    case = ctx.record('case', r.CASE)
    noun = ['', 'сон', 'сна', ''] + ['сн%d' % k for k in range(13)] + ['']

    def built():
        return [words.Word(type=W.PREPOSITION, forms=list(texts)), words.Word(type=W.NOUN, forms=list(noun)), words.Word(type=W.TEXT, forms=[other])]

    def show(made):
        t = templates.Template()
        t.parse(FILLED, externals=('п', 'сущ', 'имя', 'число'))
        externals = dict(zip(('п', 'сущ', 'имя'), [words.WordForm(made[0]), words.WordForm(made[1], words.Properties(case)), words.WordForm(made[2], words.Properties(case))]))
        externals['число'] = constructors.construct_integer(5)
        facts = [[x.number_of_syllables, x.has_fluent_vowel, x.normal_form(), externals[n].starts_with_consonant_cluster] for x, n in zip(made, ('п', 'сущ', 'имя'))]
        agreed = [transformators.transform(slave_word=x, slave_propeties=words.Properties(case), master_form=externals[n]).serialize() for x in made[:2] for n in ('имя', 'число', 'сущ')]
        return [t.substitute(externals=externals, dictionary=dictionary.Dictionary(words=made)), facts, agreed, [ctx.json_roundtrip(x.serialize()) for x in made]]
    fresh = built()
    for x in fresh:
        x.autofill_missed_forms()
    expected = show(fresh)
    ctx.restart()
    used = built()
    before = show(used) if 'shown' in asked else None
    if 'hashed' in asked:
        set(used)
        str(used[0].properties)
        used[0] == used[2]
    for x in used:
        x.autofill_missed_forms()
    got = show(used)
    for label, a, b in zip(('text', 'facts', 'agreement', 'stored'), got, expected):
        ctx.check(ctx.Eq(a, b), 'filled-' + label)
    again = built()
    ctx.check(before is None or ctx.Eq(show(again), before), 'unfilled-words-behave-as-before')
    ctx.observe('text', got[0])


def ch_reparse(w):
    w.first.parse(SECOND % 'тв', externals=w.externals)


def ch_swap(w):
    w.first.parse(SECOND % 'рд', externals=w.externals)
    w.second.parse(FIRST % 'тв', externals=('герой',))
    w.third.parse('[герой|мн] [x001|загл]', externals=w.externals)


def ch_words(w):
    w.dictionary.add_word(words.Word(type=W.NOUN, forms=['a', 'в', 'во', 'x002', 'слово'] + ['y%03d' % n for n in range(13)], properties=words.Properties(r.GENDER.NEUTER)))
    w.other.add_word(w.plain)


def ch_externals(w):
    w.externals['герой'] = words.WordForm(w.word, words.Properties(r.CASE.INSTRUMENTAL))
    w.externals['число'] = constructors.construct_integer(21)


def ch_more_externals(w):
    w.externals['x002'] = words.WordForm(w.hero, words.Properties(r.NUMBER.PLURAL))


def ch_templates(w):
    w.lexicon.add_template('k', w.third)
    w.lexicon2.add_template('k', w.first)


def ch_restored(w):
    w.first, w.third = templates.Template.deserialize(w.third.serialize()), templates.Template.deserialize(w.first.serialize())
    w.word = words.Word.deserialize(w.hero.serialize())


def ch_fill(w):
    w.extra.autofill_missed_forms()
    w.externals['герой'] = words.WordForm(w.extra, words.Properties(r.CASE.GENITIVE))


CHANGES = [ch_reparse, ch_swap, ch_words, ch_externals, ch_more_externals, ch_templates, ch_restored, ch_fill]


def evolved(ctx, change, several):
    """What was asked before a change of the texts, words or externals does not matter after it."""
    inputs = Inputs(ctx, False, False)
    after = ctx.choose('after', len(CHANGES) + 1) if several else len(CHANGES)
    changes = [CHANGES[change]] + CHANGES[after:after + 1]

    def asked(w):
        return w.seen() + [w.extra.number_of_syllables, w.extra.has_fluent_vowel, w.first.get_undictionaried_words(externals=w.externals, dictionary=w.dictionary)]
    w = World(inputs)
    for x in changes:
        x(w)
    expected = asked(w)
    ctx.restart()
    w = World(inputs)
    for x in changes:
        asked(w)
        x(w)
    got = asked(w)
    for label, a, b in zip(('texts', 'stored', 'known', 'facts', 'externals', 'syllables', 'fluent-vowel', 'missing'), got, expected):
        ctx.check(ctx.Eq(a, b), label + '-as-if-never-asked')
    ctx.observe('texts', got[0])


def many_renders(w, i):
    t = templates.Template()
    t.parse('x%d [слово|герой|мн] [герой|%s] [нет%d]' % (i, ['рд', 'тв', 'мн'][i % 3], i), externals=('слово', 'герой'))
    try:
        t.substitute(externals=w.externals, dictionary=w.dictionary)
    except exceptions.UtgError:
        pass


def many_words(w, i):
    x = words.Word(type=W.PREPOSITION, forms=['слово%d' % i, 'во' * (i % 5), ''], properties=words.Properties(r.GENDER.records[i % 3]))
    x.number_of_syllables
    x.has_fluent_vowel
    hash(x)
    shown = words.WordForm(x, words.Properties(r.PREPOSITION_FORM.records[i % 3]))
    shown.form
    shown.starts_with_consonant_cluster
    transformators.transform(slave_word=w.preposition, slave_propeties=words.Properties(), master_form=shown)
    w.other.add_word(words.Word(type=W.TEXT, forms=['текст %d' % i]))
    w.dictionary.has_word('слово%d' % i)
    words.Word.deserialize(x.serialize())


def many_numerals(w, i):
    numeral = constructors.construct_integer(i * 7 % 1201)
    numeral.form
    constructors.construct_integer(-i)
    transformators.transform(slave_word=w.word, slave_propeties=words.Properties(r.CASE.records[i % 6]), master_form=numeral)


def many_features(w, i):
    p = words.Properties(r.CASE.records[i % 6], r.NUMBER.records[i // 6 % 2], r.GENDER.records[i // 12 % 3], r.PERSON.records[i // 36 % 3])
    w.hero.form(p)
    w.word.form(p)
    words.WordForm(w.word, p).form
    w.features.clone(p)
    words.Properties.deserialize(p.serialize())
    hash(p)


def crowded(ctx, many, number):
    """However much was done in between."""
    inputs = Inputs(ctx, False, False)
    expected = World(inputs).seen()
    ctx.restart()
    w = World(inputs)
    once = ctx.bool('asked-before')
    if once:
        w.texts()
        w.facts()
    other = w.other
    w.other = dictionary.Dictionary()
    for i in range(number):
        many(w, i)
    w.other = other
    got = w.seen()
    for label, a, b in zip(('texts', 'stored', 'known', 'facts', 'externals'), got, expected):
        ctx.check(ctx.Eq(a, b), label + '-unchanged')
    ctx.observe('texts', got[0])


def changed_copy(ctx, step):
    """What is done to a copy, or to what was passed in, does not reach the original."""
    inputs = Inputs(ctx)
    w = World(inputs)
    before = w.seen()
    if step == 'lists':
        features = [r.CASE.DATIVE, r.NUMBER.PLURAL]
        p = words.Properties(*features)
        features.append(r.GENDER.NEUTER)
        ctx.check(not p.is_specified(r.GENDER), 'own-copy-of-features')
        added = [w.word]
        d = dictionary.Dictionary(words=added)
        added.append(w.hero)
        ctx.check(not d.has_word('h005'), 'own-copy-of-words')
    elif step == 'listing':
        w.dictionary.get_words().clear()
        list(w.word.all_forms()).clear()
        words.Word.get_keys(W.NOUN).clear()
        templates_ = list(w.lexicon.get_templates('k', frozenset('a')))
        templates_.clear()
        w.first.get_undictionaried_words(externals={}, dictionary=w.other).clear()
    elif step == 'stored':
        data = ctx.json_roundtrip(w.word.serialize())
        data['forms'][0] = 'иное'
        data['properties'].clear()
        data = w.first.serialize()
        data['substitutions'].clear()
        data = w.features.serialize()
        data.clear()
        data = ctx.json_roundtrip(w.first.serialize())
        t = templates.Template.deserialize(data)
        shown = t.substitute(externals=w.externals, dictionary=w.dictionary)
        data['substitutions'].clear()
        data['template'] = ''
        ctx.check(ctx.Eq(t.substitute(externals=w.externals, dictionary=w.dictionary), shown), 'template-keeps-its-text')
    elif step == 'externals':
        names = dict(w.externals)
        t = templates.Template()
        t.parse('[слово|герой]', externals=names)
        names.clear()
        ctx.check(ctx.Eq(t.substitute(externals=w.externals, dictionary=w.dictionary), t.substitute(externals=dict(w.externals), dictionary=w.dictionary)), 'parsed-once')
    ctx.check(ctx.Eq(w.seen(), before), 'original-unchanged')


def gone(ctx):
    """Words, dictionaries and externals of one rendering may be gone at the next one."""
    z = templates.Template()
    z.parse('[x] [во]', externals=['x'])
    shown = [ctx.string('x%d' % i, 0, 2, 'вст') for i in range(2)]
    empty = words.Word(type=W.PREPOSITION, forms=['в', 'во', 'вв'])
    for i in (0, 1, 0):
        word = words.Word(type=W.TEXT, forms=[shown[i]])
        form = words.WordForm(word)
        d = dictionary.Dictionary(words=[empty])
        ctx.check(ctx.same_text(z.substitute(externals={'x': form}, dictionary=d), shown[i] + ' во'), 'gone-%d' % i)
        del d
        del form
        del word
    ctx.observe('done', 1)


def read_again(ctx, kind):
    """Objects read from equal data are separate."""
    size = c.SIZES[kind.name]
    own = ctx.record('own', r.GENDER, none=True)
    word = words.Word(type=kind, forms=[ctx.string('form', 0, 1, 'аб')] + ['x', ''] + [''] * (size - 3), properties=words.Properties(own))
    before = list(word.forms)
    one, two = [words.Word.deserialize(ctx.json_roundtrip(word.serialize())) for i in range(2)]
    ctx.check(ctx.Eq(one, two), 'read-equal')
    one.autofill_missed_forms()
    one.forms[1] = 'y'
    for word in (two, words.Word.deserialize(ctx.json_roundtrip(two.serialize()))):
        for got, want in zip(word.forms, before):
            ctx.check(ctx.same_text(got, want), 'read-apart')
    ctx.observe('form', two.forms[0])


def places(ctx):
    """The same variable shows the same text wherever it stands."""
    inputs = Inputs(ctx)
    w = World(inputs)
    one, two = [ctx.choose(n, ['[x002]', '[X002]', '[X002|мн,тв]', '[слово|герой]', '[Слово|герой]', '[герой]', '[во|слово]', '[слово|число|дт]', '[число]', '[x002|число]']) for n in ('one', 'two')]
    alone = []
    for text in (one, two):
        t = templates.Template()
        t.parse(text, externals=w.externals)
        alone.append(t.substitute(externals=World(inputs).externals, dictionary=World(inputs).dictionary))
    t = templates.Template()
    t.parse(one + ';' + two + ';' + one, externals=w.externals)
    shown = t.substitute(externals=w.externals, dictionary=w.dictionary)
    ctx.check(ctx.same_text(shown, alone[0] + ';' + alone[1] + ';' + alone[0]), 'same-everywhere')
    ctx.observe('shown', shown)


def parse_after(ctx, alphabet, length, around, names):
    """What was parsed before, with whatever externals, does not matter."""
    one = around[0] + ctx.string('one', 0, length, alphabet) + around[1]
    two = around[0] + ctx.string('two', 0, length, alphabet) + around[1]
    first = [n for n in names if ctx.bool('first.' + n)]
    second = [n for n in names if ctx.bool('second.' + n)]
    same_object = ctx.bool('same-object')
    used = templates.Template()
    ctx.raises(used.parse, '[' + one + ']', externals=first)
    template = used if same_object else templates.Template()
    want = markup.read(two, second)
    result, error = ctx.raises(template.parse, '[' + two + ']', externals=second)
    if isinstance(want, markup.Problem):
        ctx.check(isinstance(error, exceptions.UtgError), 'refused')
        return
    ctx.check(error is None, 'accepted')
    stored = template.serialize()['substitutions']
    ctx.check(len(stored) == 1, 'one-variable')
    ctx.check(ctx.same_text(stored[0]['id'], want.name), 'name')
    ctx.check(c15.same_parts(ctx, markup.normal_parts(stored[0]['dependencies']), markup.expected_parts(want)), 'parts')


def numerals_ready():
    constructors.construct_integer(1).form


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []
    for i, op in enumerate(OPS):
        out.append(Scenario('history-' + op.__name__[3:], history, 'all sequences of %d operations starting with this one, two templates, every case, number, animacy and gender' % (3 if deep else 2),
                            dict(first=i, length=3 if deep else 2)))
    out.append(Scenario('two-worlds', mixed_up, 'two sets of objects with any features', {}))
    out.append(Scenario('same-words', same_words, 'any features', {}))
    out.append(Scenario('gone', gone, 'three renderings of words of up to 2 letters, words and dictionary created for each', {}))
    for t in (W.NOUN, W.PREPOSITION):
        out.append(Scenario('read-again-' + t.name, read_again, 'first form of up to 1 letter, own gender', dict(kind=t)))
    out.append(Scenario('places', places, 'every two of ten variables, any features', {}))
    for step in ('lists', 'listing', 'stored', 'externals'):
        out.append(Scenario('copies-' + step, changed_copy, 'any features', dict(step=step)))
    for i, change in enumerate(CHANGES):
        out.append(Scenario('evolved-' + change.__name__[3:], evolved, 'this change, then none or any of eight others, everything asked before each', dict(change=i, several=True)))
    for many, number in ((many_renders, 270), (many_words, 530), (many_numerals, 530), (many_features, 530)):
        out.append(Scenario('crowded-' + many.__name__[5:], crowded, '%d different ones between' % (number * 4 if deep else number), dict(many=many, number=number * 4 if deep else number)))
    for s in out:
        s.setup = numerals_ready
    for pattern in ([0], [1], [0, 2]):
        out.append(Scenario('filled-' + '-'.join(map(str, pattern)), fill_between, 'preposition forms %s of up to one letter, any case, words used before being filled in' % pattern, dict(pattern=pattern, asked=('shown', 'hashed'))))
    out.append(Scenario('parsed-features', parse_after, 'every two feature lists of up to %d characters' % (4 if deep else 3), dict(alphabet='мн ', length=4 if deep else 3, around=('х|', ''), names=['мн'])))
    out.append(Scenario('parsed-lists', parse_after, 'every two continuations of a feature list of up to 2 characters', dict(alphabet='едм, ', length=3 if deep else 2, around=('х|мн,е', 'д'), names=['ед'])))
    out.append(Scenario('parsed-names', parse_after, 'every two names of up to 2 characters', dict(alphabet='аА |', length=3 if deep else 2, around=('', '|мн'), names=['а'])))
    out.append(Scenario('numerals-not-ready', same_words, 'any features, the table of numerals not built yet', {}))
    return out
