# Published names and stored codes.
from sx.scenario import Scenario

from utg import relations as r
from utg import templates
from utg import words

from props import common as c
from props import markup
from props.published import GROUPS


def member(group, name):
    return getattr(getattr(r, group), name, None)


def written(ctx, record, group):
    """The published short name of a value."""
    text = None
    for name, (code, meaning, short) in GROUPS[group][1].items():
        text = short if text is None else ctx.If(ctx.Eq(record, member(group, name)), short, text)
    return text


def stored_code(ctx, record, group):
    out = None
    for name, (code, meaning, short) in GROUPS[group][1].items():
        out = code if out is None else ctx.If(ctx.Eq(record, member(group, name)), code, out)
    return out


def only(ctx, props, relation, record):
    """The set has this one feature."""
    return ctx.And(ctx.Eq(props.get(relation), record), props.is_specified(relation),
                   *[ctx.Not(props.is_specified(x)) for x in c.ALL if x is not relation])


def parsed(text):
    return words.Properties(*[words.Properties.deserialize(part) for part in parts(text)])


def parts(text):
    template = templates.Template()
    template.parse(text, externals=('x',))
    return template.serialize()['substitutions'][0]['dependencies']


def short(ctx, group, length, alphabet):
    """Every text; those that are published names mean what was published."""
    names = [(short, name) for name, (code, meaning, short) in GROUPS[group][1].items() if len(short) == length]
    text = ctx.string('text', length, length, alphabet)
    ctx.assume(ctx.Or(*[ctx.same_text(text, short) for short, name in names]))
    props, error = ctx.raises(templates.Substitution.parse_properties, text)
    ctx.check(error is None, 'accepted')
    relation = getattr(r, group)
    for short, name in names:
        record = member(group, name)
        ctx.check(record is not None, 'there-' + name)
        ctx.check(ctx.Implies(ctx.same_text(text, short), only(ctx, props, relation, record)), 'names-' + name)
    ctx.check(only(ctx, parsed('[x|' + text + ']'), relation, props.get(relation)), 'same-in-template')
    ctx.observe('features', props.get(relation))


def meaning(ctx, group):
    """Every value: its meaning and short name, as shown to people."""
    relation = getattr(r, group)
    record = ctx.record('value', relation)
    for name, (code, text, short) in GROUPS[group][1].items():
        known = member(group, name)
        ctx.check(known is not None, 'there-' + name)
        this = ctx.Eq(record, known)
        ctx.check(ctx.Implies(this, ctx.same_text(record.text, text)), 'meaning-' + name)
        ctx.check(ctx.Implies(this, ctx.same_text(record.verbose_id, short)), 'short-name-' + name)
        ctx.check(ctx.Implies(this, ctx.same_text(str(words.Properties(record)), '(' + short + ')')), 'shown-' + name)
    ctx.observe('text', record.text)


def codes(ctx, group):
    """Every stored code of the group, read and written."""
    number, members = GROUPS[group]
    relation = getattr(r, group)
    code = ctx.int('code', -1, 30)
    ctx.assume(ctx.Or(*[code == x for x, _, _ in members.values()]))
    key = str(number) if ctx.choose('json', [True, False]) else number
    props = words.Properties.deserialize({key: code})
    for name, (x, _, _) in members.items():
        ctx.check(ctx.Implies(code == x, only(ctx, props, relation, member(group, name))), 'read-' + name)
    record = ctx.record('value', relation)
    again = ctx.json_roundtrip(words.Properties(record).serialize())
    ctx.check(list(again) == [str(number)], 'group-code')
    for name, (x, _, _) in members.items():
        ctx.check(ctx.Implies(ctx.Eq(record, member(group, name)), ctx.Eq(again[str(number)], x)), 'written-' + name)
    ctx.observe('value', props.get(relation))


def shown(ctx, kind, key_values, text, label):
    """The text is the form of the slot of these values (when there is such a slot)."""
    found = []
    for i, key in enumerate(c.KEYS[kind.name]):
        here = ctx.And(*[ctx.Eq(v, k) for v, k in zip(key_values, key) if k is not None])
        found.append(here)
        ctx.check(ctx.Implies(here, ctx.same_text(text, 'x%d' % i)), '%s-%d' % (label, i))
    return ctx.Or(*found)


def word_values(ctx, kind, varied, fixed):
    """Values for the groups of the slots: some arbitrary, the others as given or the default."""
    out = []
    for relation in c.SCHEMAS[kind.name]:
        if relation in varied:
            out.append(ctx.record('f.' + relation.__name__, relation))
        else:
            out.append(fixed.get(relation, c.values(relation)[0]))
    return out


def through_names(ctx, kind, varied, fixed):
    """Short names in a variable select the slot documented for their meaning."""
    relations = c.SCHEMAS[kind.name]
    values = word_values(ctx, kind, varied, fixed)
    text = '[x'
    for relation, value in zip(relations, values):
        text = text + '|' + written(ctx, value, relation.__name__)
    template = templates.Template()
    template.parse(text + ']', externals=('x',))
    result = template.substitute({'x': words.WordForm(c.marked(kind, 'x'))}, markup.Echo())
    shown(ctx, kind, values, result, 'slot')
    ctx.observe('text', result)


def stored_word(ctx, kind, varied, fixed, own):
    """A word as it lies in storage: numbers only."""
    features = {}
    records = {}
    for relation in own:
        record = ctx.record('own.' + relation.__name__, relation)
        records[relation] = record
        features[str(GROUPS[relation.__name__][0])] = stored_code(ctx, record, relation.__name__)
    code = GROUPS['WORD_TYPE'][1][kind.name][0]
    word = words.Word.deserialize({'type': code, 'forms': c.marked_forms(kind, 'x'), 'properties': features})
    ctx.check(word.type == kind, 'type')
    for relation in own:
        ctx.check(ctx.Eq(word.properties.get(relation), records[relation]), 'own-' + relation.__name__)
    values = word_values(ctx, kind, varied, fixed)
    request = words.Properties(*[words.Properties.deserialize({str(GROUPS[relation.__name__][0]): stored_code(ctx, value, relation.__name__)})
                                 for relation, value in zip(c.SCHEMAS[kind.name], values)])
    text = word.form(request)
    shown(ctx, kind, [records.get(relation, value) for relation, value in zip(c.SCHEMAS[kind.name], values)], text, 'slot')
    again = ctx.json_roundtrip(word.serialize())
    ctx.check(ctx.Eq(again, {'type': code, 'forms': c.marked_forms(kind, 'x'), 'properties': features}), 'written-back')
    ctx.observe('text', text)


def stored_template(ctx, length):
    """A template as it lies in storage."""
    before = ctx.string('before', 0, length, 'а%[ ')
    after = ctx.string('after', 0, length, 'я%]')
    number, case = ctx.record('number', r.NUMBER), ctx.record('case', r.CASE)
    upper = ctx.record('upper', r.WORD_CASE)
    second = {'2': stored_code(ctx, number, 'NUMBER'), '0': stored_code(ctx, case, 'CASE'), '12': stored_code(ctx, upper, 'WORD_CASE')}
    first = ctx.choose('name', ['имя', 'Имя', ' имя'])
    data = {'template': escaped(before) + '%s, %s' + escaped(after),
            'substitutions': [{'id': first, 'dependencies': []}, {'id': 'слово', 'dependencies': [first, second]}]}
    template = templates.Template.deserialize(data)
    name = words.WordForm(words.Word(type=r.WORD_TYPE.NOUN, forms=['и%d' % i for i in range(18)], properties=words.Properties(r.GENDER.FEMININE)))
    noun = words.WordForm(words.Word(type=r.WORD_TYPE.NOUN, forms=['в%d' % i for i in range(18)]))
    result = template.substitute({first: name, 'слово': noun}, markup.Echo())
    for i, key in enumerate(c.KEYS['NOUN'][:12]):
        here = ctx.And(ctx.Eq(number, key[1]), ctx.Eq(case, key[2]))
        for record, letter in ((r.WORD_CASE.LOWER, 'в'), (r.WORD_CASE.UPPER, 'В')):
            ctx.check(ctx.Implies(ctx.And(here, ctx.Eq(upper, record)),
                                  ctx.same_text(result, before + 'и0, ' + letter + str(i) + after)), 'text-%d' % i)
    ctx.check(ctx.Eq(ctx.json_roundtrip(template.serialize()), data), 'written-back')
    ctx.observe('text', result)


def escaped(text):
    out = ''
    for x in text:
        out = out + ('%%' if x == '%' else x)
    return out


def SCENARIOS(tier):
    deep = tier == 'thorough'
    out = []
    for group, (number, members) in GROUPS.items():
        out.append(Scenario('meaning-' + group, meaning, 'every value', dict(group=group)))
        out.append(Scenario('codes-' + group, codes, 'every published stored code, every value', dict(group=group)))
        for length in sorted(set(len(short) for _, _, short in members.values())):
            alphabet = ''.join(sorted(set(''.join(short for _, _, short in members.values() if len(short) == length))))
            out.append(Scenario('short-%s-%d' % (group, length), short, 'every published name of %d characters' % length,
                                dict(group=group, length=length, alphabet=alphabet)))
    rest = {'NOUN': [({}, [])],
            'ADJECTIVE': [({}, [r.ADJECTIVE_FORM, r.GRADE]), ({r.GRADE: r.GRADE.SUPERLATIVE}, [r.GENDER]), ({r.ADJECTIVE_FORM: r.ADJECTIVE_FORM.SHORT}, [])],
            'PRONOUN': [({}, [])],
            'VERB': [({}, [r.VERB_FORM]), ({r.VERB_FORM: r.VERB_FORM.INDICATIVE}, []), ({r.VERB_FORM: r.VERB_FORM.IMPERATIVE}, [])],
            'PARTICIPLE': [({}, [r.PARTICIPLE_FORM, r.TIME]), ({r.PARTICIPLE_FORM: r.PARTICIPLE_FORM.SHORT}, []), ({r.TIME: r.TIME.FUTURE}, [r.GENDER])],
            'PREPOSITION': [({}, [])], 'INTEGER': [({}, [])], 'TEXT': [({}, [])]}
    own = {'NOUN': [r.ANIMALITY, r.GENDER], 'ADJECTIVE': [r.ADJECTIVE_CATEGORY], 'PRONOUN': [r.PRONOUN_CATEGORY], 'VERB': [r.ASPECT, r.VOICE],
           'PARTICIPLE': [r.ASPECT, r.VOICE], 'INTEGER': [r.NUMBER, r.INTEGER_FORM], 'PREPOSITION': [], 'TEXT': []}
    for kind in r.WORD_TYPE.records:
        if kind.name not in rest:
            continue
        for i, (fixed, left) in enumerate(rest[kind.name]):
            schema = c.SCHEMAS[kind.name]
            varied = [x for x in schema if x not in fixed and x not in left]
            bounds = 'every value of ' + (', '.join(x.__name__ for x in varied) or 'no group')
            if kind.name not in ('INTEGER', 'TEXT'):
                out.append(Scenario('names-%s-%d' % (kind.name, i), through_names, bounds, dict(kind=kind, varied=varied, fixed=fixed)))
            out.append(Scenario('word-%s-%d' % (kind.name, i), stored_word, bounds + ', every value of its own features',
                                dict(kind=kind, varied=varied, fixed=fixed, own=own[kind.name])))
    out.append(Scenario('template', stored_template, 'every case, number and letter size, texts of up to %d characters around' % (3 if deep else 2),
                        dict(length=3 if deep else 2)))
    return out
