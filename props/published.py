# Names, meanings, short names and stored codes as published (README, "Свойства слов") and as found in stored data.
# Written down once: the check compares the code against it.

# group: (stored code of the group, {member: (stored code, meaning, short name)})
GROUPS = {
    'CASE': (0, {
        'NOMINATIVE': (0, 'именительный', 'им'),
        'GENITIVE': (1, 'родительный', 'рд'),
        'DATIVE': (2, 'дательный', 'дт'),
        'ACCUSATIVE': (3, 'винительный', 'вн'),
        'INSTRUMENTAL': (4, 'творительный', 'тв'),
        'PREPOSITIONAL': (5, 'предложный', 'пр'),
    }),
    'ANIMALITY': (1, {
        'ANIMATE': (0, 'одушевлённое', 'од'),
        'INANIMATE': (1, 'неодушевлённое', 'но'),
    }),
    'NUMBER': (2, {
        'SINGULAR': (0, 'единственное число', 'ед'),
        'PLURAL': (1, 'множественное число', 'мн'),
    }),
    'GENDER': (3, {
        'MASCULINE': (0, 'мужской род', 'мр'),
        'NEUTER': (1, 'средний род', 'ср'),
        'FEMININE': (2, 'женский род', 'жр'),
    }),
    'VERB_FORM': (4, {
        'INFINITIVE': (0, 'инфинитив', 'инф'),
        'INDICATIVE': (1, 'изъявительное наклонение', 'изъяв'),
        'IMPERATIVE': (3, 'повелительное наклонение', 'пов'),
    }),
    'TIME': (5, {
        'PAST': (1, 'прошедшее время', 'прш'),
        'PRESENT': (2, 'настоящее время', 'нст'),
        'FUTURE': (3, 'будущее время', 'буд'),
    }),
    'PERSON': (6, {
        'FIRST': (0, '1-ое лицо', '1л'),
        'SECOND': (1, '2-ое лицо', '2л'),
        'THIRD': (2, '3-е лицо', '3л'),
    }),
    'ASPECT': (7, {
        'IMPERFECTIVE': (0, 'несовершенный', 'несов'),
        'PERFECTIVE': (1, 'совершенный', 'сов'),
    }),
    'ADJECTIVE_CATEGORY': (9, {
        'QUALITY': (0, 'качественное', 'кач'),
        'RELATIVE': (1, 'относительное', 'отн'),
        'POSSESSIVE': (2, 'притяжательное', 'прит'),
    }),
    'GRADE': (10, {
        'POSITIVE': (0, 'положительная степень', 'пол'),
        'COMPARATIVE': (1, 'сравнительная степень', 'сравн'),
        'SUPERLATIVE': (2, 'превосходная степень', 'прев'),
    }),
    'PRONOUN_CATEGORY': (11, {
        'PERSONAL': (0, 'личное', 'личн'),
        'REFLEXIVE': (1, 'возвратное', 'возвр'),
        'POSSESSIVE': (2, 'притяжательное', 'притяж'),
        'INTERROGATIVE': (3, 'вопросительное', 'вопр'),
        'RELATIVE': (4, 'относительное', 'относ'),
        'DEMONSTRATIVE': (5, 'указательное', 'указат'),
        'ATTRIBUTIVE': (6, 'определительное', 'опред'),
        'NEGATIVE': (7, 'отрицательное', 'отриц'),
        'VAGUE': (8, 'неопределённое', 'неопр'),
        'MUTUAL': (9, 'взаимное', 'взаимн'),
    }),
    'WORD_CASE': (12, {
        'LOWER': (0, 'строчная', 'строч'),
        'UPPER': (1, 'заглавная', 'загл'),
    }),
    'WORD_TYPE': (13, {
        'NOUN': (0, 'существительное', 'сущ'),
        'ADJECTIVE': (1, 'прилагательное', 'прил'),
        'PRONOUN': (2, 'местоимение', 'мест'),
        'VERB': (3, 'глагол', 'гл'),
        'PARTICIPLE': (4, 'причастие', 'прич'),
        'INTEGER': (5, 'целое число', 'целое'),
        'TEXT': (6, 'текст', 'текст'),
        'PREPOSITION': (10, 'предлог', 'предл'),
    }),
    'INTEGER_FORM': (14, {
        'SINGULAR': (0, 'один', 'цо'),
        'DUAL': (1, 'дуальные 2, 3, 4', 'цд'),
        'COMPOSITE_DUAL': (2, 'составные дуальные на 2, 3, 4', 'цсд'),
        'PLURAL': (3, 'остальные целые', 'цост'),
        'MIL_BIL': (4, 'миллион и миллиард', 'цмм'),
    }),
    'VOICE': (15, {
        'DIRECT': (0, 'прямой залог', 'прям'),
        'REVERSE': (1, 'возвратный залог', 'взв'),
    }),
    'PREPOSITION_FORM': (16, {
        'NORMAL': (0, 'основная форма', 'осн'),
        'ALTERNATIVE': (1, 'альтернативная форма', 'алт'),
        'SPECIAL': (2, 'специальная форма', 'спц'),
    }),
    'ADJECTIVE_FORM': (17, {
        'FULL': (0, 'полная форма', 'полнприл'),
        'SHORT': (1, 'краткая форма', 'крприл'),
    }),
    'PARTICIPLE_FORM': (18, {
        'FULL': (0, 'полная форма', 'полнприч'),
        'SHORT': (1, 'краткая форма', 'крприч'),
    }),
    'NOUN_FORM': (19, {
        'NORMAL': (0, 'нормальная форма', 'нс'),
        'COUNTABLE': (1, 'счётная форма', 'счт'),
    }),
    'DEPENDENCY_MODE': (20, {
        'FULL': (0, 'полная зависимость', 'пзв'),
        'SEMANTIC': (1, 'семантическая зависимость', 'сзв'),
    }),
}
