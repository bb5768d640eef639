# Whole sentences of the documentation, for every choice of what fills their variables.
from sx.scenario import Scenario

from utg import constructors
from utg import dictionary
from utg import relations as r
from utg import templates
from utg import words

from props import common as c
from props import c02
from props import c03

W = r.WORD_TYPE
S, P = r.NUMBER.SINGULAR, r.NUMBER.PLURAL
FULL, SEMANTIC = r.DEPENDENCY_MODE.FULL, r.DEPENDENCY_MODE.SEMANTIC
NORMAL = r.NOUN_FORM.NORMAL


def noun(tag, *own):
    return words.Word(type=W.NOUN, forms=[tag + 'абвгдежзиклмнопрст'[i] for i in range(18)], properties=words.Properties(*own))


def of_noun(tag, noun_form, number, case):
    return tag + 'абвгдежзиклмнопрст'[c.slot(W.NOUN, (noun_form, number, case))]


def verb(known):
    """A verb with the given past forms; the other forms are marks."""
    return words.Word(type=W.VERB, forms=['делать'] + known + ['д%d' % i for i in range(5, 20)], properties=words.Properties(r.ASPECT.PERFECTIVE, r.VOICE.DIRECT))


def of_verb(known, number, gender):
    if number == P:
        return known[3]
    for value in c.values(r.GENDER):
        if gender == value:
            return known[c.slot(W.VERB, (r.VERB_FORM.INDICATIVE, r.TIME.PAST, number, None, value)) - 1]


def adjective(tag):
    return words.Word(type=W.ADJECTIVE, forms=[tag + 'ый', tag + 'ое'] + ['%s%d' % (tag, i) for i in range(2, 101)], properties=words.Properties(r.ADJECTIVE_CATEGORY.QUALITY))


def of_adjective(tag, animality, number, case, gender):
    animality = [x for x in c.values(r.ANIMALITY) if animality == x][0]
    gender = [x for x in c.values(r.GENDER) if gender == x][0]
    i = c.slot(W.ADJECTIVE, (r.ADJECTIVE_FORM.FULL, r.GRADE.POSITIVE, animality, number, case, gender if number == S else None))
    return tag + ('ый', 'ое')[i] if i < 2 else '%s%d' % (tag, i)


def someone(ctx, name, tag, animality=False, stated=(), numbers=(S, P)):
    """A variable: a noun of any gender in any number."""
    gender = ctx.record(name + '.gender', r.GENDER)
    number = ctx.choose(name + '.number', list(numbers))
    alive = ctx.record(name + '.animality', r.ANIMALITY) if animality else r.ANIMALITY.ANIMATE
    form = words.WordForm(noun(tag, alive, gender), words.Properties(number, *stated))
    return form, gender, number, alive


PAST = ['подарил', 'подарило', 'подарила', 'подарили']
BIT = ['укусил', 'укусило', 'укусила', 'укусили']
RAN = ['побежал', 'побежало', 'побежала', 'побежали']


def present(ctx, lo, hi, verbs, numbers):
    """[Npc] [подарил|npc] [hero|дт] [coins] [монета|coins|вн]."""
    n = ctx.int('n', lo, hi)
    npc, gender, number, _ = someone(ctx, 'npc', 'ру')
    hero, _, hero_number, _ = someone(ctx, 'hero', 'ге', numbers=numbers)
    coin = noun('монет', r.ANIMALITY.INANIMATE, r.GENDER.FEMININE)
    template = templates.Template()
    template.parse('[Npc] [%s|npc] [hero|дт] [coins] [монета|coins|вн].' % ctx.choose('verb', verbs), externals=('hero', 'npc', 'coins'))
    result = template.substitute(externals={'hero': hero, 'npc': npc, 'coins': constructors.construct_integer(n)},
                                 dictionary=dictionary.Dictionary(words=[coin, verb(PAST)]))
    noun_form, coins, case = c02.expected(c02.numeral_class(ctx, n), FULL, r.CASE.ACCUSATIVE, r.ANIMALITY.INANIMATE)
    first = of_noun('Ру', NORMAL, number, r.CASE.NOMINATIVE) + ' ' + of_verb(PAST, number, gender)
    expected = first + ' ' + of_noun('ге', NORMAL, hero_number, r.CASE.DATIVE) + ' ' + str(n) + ' ' + of_noun('монет', noun_form, coins, case) + '.'
    ctx.check(ctx.same_text(result, expected), 'sentence')
    ctx.observe('text', result)


def bite(ctx):
    """Вчера [mob] [укусил|mob] [hero|вн]."""
    mob, gender, number, _ = someone(ctx, 'mob', 'ги', True)
    hero, _, hero_number, _ = someone(ctx, 'hero', 'ге', True)
    template = templates.Template()
    template.parse('Вчера [mob] [%s|mob] [hero|вн].' % ctx.choose('verb', BIT), externals=('mob', 'hero'))
    result = template.substitute(externals={'hero': hero, 'mob': mob}, dictionary=dictionary.Dictionary(words=[verb(BIT)]))
    expected = 'Вчера ' + of_noun('ги', NORMAL, number, r.CASE.NOMINATIVE) + ' ' + of_verb(BIT, number, gender) + ' ' + \
        of_noun('ге', NORMAL, hero_number, r.CASE.ACCUSATIVE) + '.'
    ctx.check(ctx.same_text(result, expected), 'sentence')
    ctx.observe('text', result)


def handsome(ctx, explicit):
    """[красивый|hero|вн] [hero|вн]: each place names its own case; a case before the variable gives way to that of the variable."""
    hero, gender, number, alive = someone(ctx, 'hero', 'ге', True, () if explicit else (r.CASE.NOMINATIVE,))
    case = ctx.choose('case', c.values(r.CASE))
    part = 'красивый|hero|%s' if explicit else 'красивый|%s|hero'
    template = templates.Template()
    template.parse(('[' + part + '] [hero|%s]') % (case.verbose_id, case.verbose_id), externals=('hero',))
    result = template.substitute(externals={'hero': hero}, dictionary=dictionary.Dictionary(words=[adjective('красив')]))
    expected = of_adjective('красив', alive, number, case if explicit else r.CASE.NOMINATIVE, gender) + ' ' + of_noun('ге', NORMAL, number, case)
    ctx.check(ctx.same_text(result, expected), 'sentence')
    ctx.observe('text', result)


def hamsters(ctx, lo, hi, layout, modes):
    """Full and semantic dependency on the same number in one sentence."""
    n = ctx.int('n', lo, hi)
    case = ctx.choose('case', c.values(r.CASE))
    text = layout % {'case': case.verbose_id}
    template = templates.Template()
    template.parse(text, externals=('n',))
    hamster = noun('хомячк', r.ANIMALITY.ANIMATE, r.GENDER.MASCULINE)
    result = template.substitute(externals={'n': constructors.construct_integer(n)},
                                 dictionary=dictionary.Dictionary(words=[hamster, adjective('красив'), verb(RAN)]))
    form = c02.numeral_class(ctx, n)
    number, own = c03.expected(form, modes[0], case, r.GENDER.MASCULINE)
    adj = of_adjective('красив', r.ANIMALITY.ANIMATE, number, own, r.GENDER.MASCULINE)
    noun_form, number, own = c02.expected(form, modes[1], case, r.ANIMALITY.ANIMATE)
    who = of_noun('хомячк', noun_form, number, own)
    number, _ = c03.expected(form, modes[2], r.CASE.NOMINATIVE, r.GENDER.MASCULINE)
    expected = {'{n}': str(n), '{a}': adj, '{A}': 'К' + adj[1:], '{h}': who, '{r}': of_verb(RAN, number, r.GENDER.MASCULINE)}
    out = ''
    for piece in LAYOUTS[layout].split(' '):
        out = out + (' ' if piece != LAYOUTS[layout].split(' ')[0] else '') + expected.get(piece, piece)
    ctx.check(ctx.same_text(result, out), 'sentence')
    ctx.observe('text', result)


LAYOUTS = {'[n] [красивый|n|%(case)s] [хомячка|n|%(case)s] [побежал|n] в норку': '{n} {a} {h} {r} в норку',
           '[Красивый|n|сзв,%(case)s] [хомячка|n|сзв,%(case)s] [побежал|n|сзв] в норку': '{A} {h} {r} в норку',
           '[Красивый|сзв|n|%(case)s] [n] [хомячка|%(case)s|n|пзв] [побежал|n] в норку': '{A} {n} {h} {r} в норку'}
MODES = [(FULL, FULL, FULL), (SEMANTIC, SEMANTIC, SEMANTIC), (SEMANTIC, FULL, FULL)]
RANGES = [('large', 10001, 10 ** 10), ('negative', -10 ** 6, -1), ('small', 0, 40), ('high', 2 * 10 ** 9, 2 * 10 ** 9 + 130)]


def SCENARIOS(tier):
    out = []
    for name, lo, hi in RANGES + ([('cached', 41, 10000)] if tier == 'thorough' else []):
        words_ = 'every number %d..%d' % (lo, hi)
        verbs = PAST if name == 'small' else PAST[2:3]
        out.append(Scenario('present-' + name, present, words_ + ', every gender and number of both people, %d verb forms' % len(verbs),
                            dict(lo=lo, hi=hi, verbs=verbs, numbers=(S, P) if name != 'large' else (S,))))
        for i, (layout, modes) in enumerate(zip(LAYOUTS, MODES)):
            out.append(Scenario('hamsters-%d-%s' % (i, name), hamsters, words_ + ', every case', dict(lo=lo, hi=hi, layout=layout, modes=modes)))
    out.append(Scenario('bite', bite, 'every gender, number and animality of both, four verb forms', {}))
    out.append(Scenario('handsome', handsome, 'every gender, number, animality and case', dict(explicit=True)))
    out.append(Scenario('handsome-overridden', handsome, 'every gender, number, animality and case', dict(explicit=False)))
    return out
