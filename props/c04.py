# Which pairs of words are agreed at all, and what agreement may touch.
from sx.scenario import Scenario

from utg import relations as r
from utg import words
from utg import transformators

from props import common as c

RULES = {('NOUN', 'INTEGER'), ('PRONOUN', 'INTEGER'), ('ADJECTIVE', 'INTEGER'), ('VERB', 'INTEGER'), ('PARTICIPLE', 'INTEGER')}
PROBED = [r.CASE, r.ANIMALITY, r.NUMBER, r.GENDER, r.NOUN_FORM, r.INTEGER_FORM, r.PREPOSITION_FORM, r.WORD_CASE, r.TIME]


def word_of(kind, tag):
    return words.Word(type=kind, forms=[tag + 'аб%d' % i for i in range(c.SIZES[kind.name])], properties=words.Properties())


def no_rule(ctx, slave):
    """Pairs without a rule leave every feature of the dependent word as it was."""
    masters = [t for t in r.WORD_TYPE.records if (slave.name, t.name) not in RULES]
    master = ctx.choose('master', masters)
    props = c.properties(ctx, 'p', PROBED[:6], PROBED[6:])
    own = c.properties(ctx, 'm', [r.NUMBER, r.CASE, r.GENDER, r.INTEGER_FORM])
    result = transformators.transform(word_of(slave, 'ш'), props, words.WordForm(word_of(master, 'щ'), own))
    for relation in c.ALL:
        ctx.check(result.get(relation) == props.get(relation), 'unchanged-' + relation.__name__)
        ctx.check(result.is_specified(relation) == props.is_specified(relation), 'as-specified-' + relation.__name__)
    ctx.observe('number', result.get(r.NUMBER))


def frame(ctx, slave, master):
    """With a rule: only the groups the rule is about change, the given features are not written to, the master's features do not matter."""
    if slave == r.WORD_TYPE.PREPOSITION:
        touched = (r.PREPOSITION_FORM,)
        relevant = [r.PREPOSITION_FORM, r.CASE]
    else:
        relevant = [r.INTEGER_FORM, r.CASE, r.GENDER, r.ANIMALITY]
        touched = (r.NUMBER, r.CASE, r.NOUN_FORM) if slave.name in ('NOUN', 'PRONOUN') else (r.NUMBER, r.CASE)
    props = c.properties(ctx, 'p', relevant + [r.NUMBER, r.TIME, r.WORD_CASE, r.PERSON, r.VOICE])
    before = [(relation, props.get(relation), props.is_specified(relation)) for relation in c.ALL]
    own = c.properties(ctx, 'm', [r.GENDER, r.ANIMALITY, r.DEPENDENCY_MODE])
    own_before = [(relation, own.get(relation), own.is_specified(relation)) for relation in c.ALL]
    head = word_of(master, 'щ')
    word = word_of(slave, 'ш')
    result = transformators.transform(word, props, words.WordForm(head, own))
    for relation, value, given in before:
        ctx.check(props.get(relation) == value, 'input-kept')
        ctx.check(props.is_specified(relation) == given, 'input-kept-specified')
        if relation not in touched:
            ctx.check(result.get(relation) == value, 'frame-' + relation.__name__)
            ctx.check(result.is_specified(relation) == given, 'frame-specified-' + relation.__name__)
    for relation, value, given in own_before:
        ctx.check(own.get(relation) == value, 'master-kept')
    if slave != r.WORD_TYPE.PREPOSITION:
        again = transformators.transform(word, props, words.WordForm(head, words.Properties()))
        for relation in touched:
            ctx.check(again.get(relation) == result.get(relation), 'same-for-every-numeral-object')
    ctx.check(word.forms == ['шаб%d' % i for i in range(c.SIZES[slave.name])], 'word-kept')
    for relation in touched:
        ctx.observe(relation.__name__, result.get(relation))


def SCENARIOS(tier):
    out = []
    for t in r.WORD_TYPE.records:
        if t != r.WORD_TYPE.PREPOSITION:
            out.append(Scenario('no-rule-' + t.name, no_rule, 'every master part of speech without a rule; nine feature groups arbitrary, '
                                'three of them possibly left out', dict(slave=t)))
    for a, b in sorted(RULES):
        out.append(Scenario('frame-' + a, frame, 'every value of nine feature groups of the dependent word and three of the numeral',
                            dict(slave=getattr(r.WORD_TYPE, a), master=getattr(r.WORD_TYPE, b))))
    for t in r.WORD_TYPE.records:
        out.append(Scenario('frame-PREPOSITION-' + t.name, frame, 'every value of seven feature groups',
                            dict(slave=r.WORD_TYPE.PREPOSITION, master=t)))
    return out
