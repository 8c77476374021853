"""What decides each property: harness entries, their bounds, and what lies outside."""


def R(entry, params, bounds, covers=(1, 2)):
    return {'entry': entry, 'params': list(params), 'bounds': bounds, 'covers': list(covers)}


BIG = '8 databases of 6-58 patterns (many literals side by side or inside of each other, many parsers side by side, alone or shared, long literals, many tokens) in 3 orders of addition, about 9 matching messages each'


HUGE = '7 databases with %d patterns side by side, in a chain or with as many tokens or bytes'


def db(mode, quick=True):
    """runs over databases; mode: 1 soundness, 2 completeness, 4 precedence, 8 agreement of the engines"""
    if quick:
        return [
            R('h_lits', (mode, 2, 2, 3), 'any 2 literals of 0-2 bytes of UTF-8, any message of up to 3 bytes'),
            R('h_empty', (mode, 2, 2), 'any 2 out of 7 patterns with and without empty literals, any message of up to 2 bytes'),
            R('h_letters', (mode, 3, 2, 3, 2), 'any 3 literals of 1-2 letters a-b, any message of up to 3 such letters'),
            R('h_shapes', (mode, 2, 2, 1, 3), 'any 2 patterns of 1-2 tokens (SET, bounded SET, GREEDY named or not, 1-letter literal), any message of up to 3 letters a-c'),
            R('h_lpl', (mode, 2, 1, 2), 'any 2 patterns literal / literal parser / literal parser literal / parser literal, 1-byte literals, any message of up to 2 bytes'),
            R('h_pool', (mode, 2, 16, 3), 'any 1-2 additions out of 16 patterns with shared beginnings, any message of up to 3 bytes'),
            R('h_pool', (mode, 3, 8, 2), 'any 1-3 additions out of 8 patterns, any message of up to 2 bytes'),
            R('h_whole', (mode, 2), 'all 16 patterns added from any place on in either direction, any message of up to 2 bytes', (1,) if mode == 2 else (1,)),
            R('h_many', (mode, 0, 8, 1), BIG + ' with any byte at any place', (1,) if mode == 2 else (1, 2)),
            R('h_cross', (mode, 3, 3, 3), 'any 3 additions out of 3 beginnings x 3 ends, any byte after any of the beginnings'),
            R('h_cross_all', (mode, 8), '20 patterns with 4 beginnings and 5 ends in 160 orders, any byte after any of the beginnings', (1,)),
            R('h_huge', (mode, 0, 7, 300), HUGE % 300 + ', any byte at some places of about 3 messages each', (1,) if mode == 2 else (1, 2)),
            R('h_carry', (mode, 2, 2), '2 patterns out of 5 with names, identifiers, values, tags of 6 kinds, some of them shared; any message of up to 2 characters of "abc19"'),
            R('h_logs', (mode, 1, 0, 10), '11 realistic patterns, each of 10 log lines of up to 96 bytes with any byte instead of or before any of theirs, or after them', (1,) if mode == 2 else (1, 2)),
        ]
    return [
        R('h_lits', (mode, 3, 2, 3), 'any 3 literals of 0-2 bytes of UTF-8, any message of up to 3 bytes'),
        R('h_lits', (mode, 2, 3, 4), 'any 2 literals of 0-3 bytes of UTF-8, any message of up to 4 bytes'),
        R('h_empty', (mode, 3, 2), 'any 3 out of 7 patterns with and without empty literals, any message of up to 2 bytes'),
        R('h_letters', (mode, 4, 2, 3, 2), 'any 4 literals of 1-2 letters a-b, any message of up to 3 such letters'),
        R('h_shapes', (mode, 2, 2, 2, 3), 'any 2 patterns of 1-2 tokens with literals of up to 2 letters, any message of up to 3 letters'),
        R('h_shapes', (mode, 2, 3, 1, 3), 'any 2 patterns of 1-3 tokens, any message of up to 3 letters'),
        R('h_lpl', (mode, 2, 1, 3), 'any 2 patterns of the common shapes, any message of up to 3 bytes'),
        R('h_pool', (mode, 3, 16, 3), 'any 1-3 additions out of 16 patterns, any message of up to 3 bytes'),
        R('h_whole', (mode, 3), 'all 16 patterns, any message of up to 3 bytes', (1,)),
        R('h_many', (mode, 0, 8, 2), BIG + ' with any 2 bytes at any place', (1,) if mode == 2 else (1, 2)),
        R('h_cross', (mode, 4, 3, 3), 'any 4 additions out of 3 beginnings x 3 ends, any byte after any of the beginnings'),
        R('h_cross', (mode, 3, 4, 5), 'any 3 additions out of 4 beginnings x 5 ends, any byte after any of the beginnings'),
        R('h_huge', (mode, 0, 7, 1100), HUGE % 1100 + ', any byte at some places of about 3 messages each', (1,) if mode == 2 else (1, 2)),
        R('h_huge', (mode, 6, 1, 20000), 'messages of 60-200 thousand bytes for every kind of parser, any byte at some places', (1,) if mode == 2 else (1, 2)),
        R('h_carry', (mode, 2, 3), '2 patterns out of 5 with names, identifiers, values, tags of 6 kinds, some of them shared; any message of up to 3 characters of "abc19"'),
        R('h_logs', (mode, 2, 0, 10), 'realistic patterns, 10 log lines with any 2 bytes at any place', (1,) if mode == 2 else (1, 2)),
    ]


OUT_DB = 'more patterns, longer literals and longer arbitrary messages than stated; symbolic texts after a GREEDY in databases (they enter a 64 bit hash no solver inverts, so these texts are concrete there); names with a hyphen'

PROPS = {
    'C01': {
        'runs': [
            R('h_set', (3, 2), 'SET: any set of up to 2 bytes, any text of up to 3 bytes of UTF-8, minimum and maximum any 64 bit number or none'),
            R('h_set', (5, 1), 'SET: any set of up to 1 byte, any text of up to 5 bytes, any minimum and maximum'),
            R('h_int', (3,), 'INT: any text of up to 3 bytes, any minimum and maximum'),
            R('h_greedy', (6, 3), 'GREEDY: any end text of 1-3 bytes or none, any text of up to 6 bytes'),
            R('h_factory', (2, 2, 0), 'parsers made by the factory from up to 2 constraints with any numbers in any order', (1, 2, 3, 4, 5)),
            R('h_set_big', (0, 5, 4, 2), 'SET: 5 sets, runs of 0-33 characters, then any 2 bytes, then more, any minimum and maximum'),
            R('h_set_big', (0, 11, 16, 1), 'SET and INT: 10 sets of up to 68 characters, runs of 0-257 characters, then any byte, then more, any minimum and maximum'),
            R('h_set_hole', (0, 9, 1, 1), 'SET: any byte at any place of 9 sets of up to 22 characters, any text of 1 byte'),
            R('h_greedy_big', (14, 2), 'GREEDY: 9 end texts, fillers of up to 64 characters around any 2 bytes'),
        ],
        'thorough': [
            R('h_set', (4, 3), 'SET: any set of up to 3 bytes, any text of up to 4 bytes, any minimum and maximum'),
            R('h_set', (6, 2), 'SET: any set of up to 2 bytes, any text of up to 6 bytes, any minimum and maximum'),
            R('h_int', (4,), 'INT: any text of up to 4 bytes, any minimum and maximum'),
            R('h_set_big', (0, 11, 16, 2), 'SET and INT: 10 sets, runs of 0-257 characters, then any 2 bytes, then more, any minimum and maximum'),
            R('h_set_hole', (0, 8, 2, 2), 'SET: any 2 bytes at any place of 8 sets, any text of 2 bytes'),
            R('h_greedy_big', (16, 4), 'GREEDY: 9 end texts, fillers of up to 257 characters around any 4 bytes'),
            R('h_greedy', (8, 4), 'GREEDY: any end text of 1-4 bytes or none, any text of up to 8 bytes'),
            R('h_factory', (3, 3, 3), 'parsers made by the factory from up to 3 constraints in any order', (1, 2, 3, 4, 5)),
        ],
        'outside': 'longer sets, texts and end texts',
    },
    'C02': {
        'runs': [
            R('h_single', (3, 2, 1), 'one pattern of any 1-2 tokens (literal of any byte, SET, bounded SET with non-ASCII, bounded INT, GREEDY), any message of up to 3 bytes, both engines'),
            R('h_single', (2, 3, 1), 'one pattern of any 1-3 tokens, any message of up to 2 bytes, both engines'),
            R('h_text', (3, 0, 14), '14 pattern texts compiled by the real grammar, any message of up to 3 bytes, both engines'),
            R('h_any_name', (2, 2), 'any name of up to 2 bytes for one or two of the parsers of a pattern, any 2 bytes at any place of a message; both engines'),
            R('h_logs', (4, 1, 0, 10), 'realistic patterns, 10 log lines with any byte at any place'),
            R('h_huge', (4, 4, 3, 300), 'patterns of 300 tokens, literals of up to 1200 bytes, messages of thousands of bytes, any byte at some places'),
            R('h_huge', (4, 6, 1, 7000), 'messages of 21-70 thousand bytes for every kind of parser, any byte at some places'),
        ],
        'thorough': [
            R('h_single', (3, 3, 1), 'one pattern of any 1-3 tokens, any message of up to 3 bytes, both engines'),
            R('h_single', (4, 2, 2), 'one pattern of any 1-2 tokens with literals of up to 2 bytes, any message of up to 4 bytes, both engines'),
            R('h_text', (5, 0, 14), '14 pattern texts, any message of up to 5 bytes, both engines'),
            R('h_any_name', (5, 2), 'any name of up to 5 bytes for one or two of the parsers of a pattern, any 2 bytes at any place of a message; both engines'),
        ],
        'outside': 'patterns of more tokens with an arbitrary message, longer arbitrary messages',
    },
    'C03': {'runs': db(1), 'thorough': db(1, False), 'outside': OUT_DB},
    'C04': {'runs': db(2), 'thorough': db(2, False), 'outside': OUT_DB},
    'C05': {'runs': db(4), 'thorough': db(4, False), 'outside': OUT_DB},
    'C06': {'runs': db(8), 'thorough': db(8, False), 'outside': OUT_DB},
    'C07': {
        'runs': [
            R('h_grammar_any', (7, 0), 'any pattern text of up to 7 bytes of UTF-8', (1, 8)),
            R('h_grammar_hole', (3, 0, 20, 0), '20 pattern texts with any 0-3 bytes in the middle', (1, 8)),
            R('h_lits', (0, 2, 3, 3), 'any 2 literals of 0-3 bytes, any message of up to 3 bytes', ()),
            R('h_single', (3, 2, 1), 'one pattern of any 1-2 tokens, any message of up to 3 bytes'),
            R('h_pool', (0, 2, 16, 3), 'any 1-2 additions out of 16 patterns, any message of up to 3 bytes', ()),
            R('h_logs', (0, 2, 0, 10), 'realistic patterns, log lines with any 2 bytes at any place', ()),
            R('h_garbage', (0, 1), 'a JSON document with any byte at any place'),
            R('h_garbage', (1, 1), 'a YAML document with any byte at any place'),
            R('h_grammar_long', (0, 8, 1, 3), '8 long pattern texts with any byte at any place', (1, 8)),
            R('h_many', (0, 0, 8, 1), BIG + ' with any byte at any place', ()),
            R('h_huge', (0, 0, 7, 300), HUGE % 300 + ', any byte at some places', ()),
            R('h_set', (3, 2), 'SET: any set, any text, any minimum and maximum'),
            R('h_set_big', (0, 11, 16, 1), 'SET and INT on long texts, any minimum and maximum'),
            R('h_greedy_big', (14, 2), 'GREEDY on long texts'),
        ],
        'thorough': [
            R('h_grammar_any', (9, 0), 'any pattern text of up to 9 bytes of UTF-8', (1, 8)),
            R('h_grammar_hole', (6, 0, 20, 0), '20 pattern texts with any 0-6 bytes in the middle', (1, 8)),
            R('h_lits', (0, 3, 2, 3), 'any 3 literals of 0-2 bytes, any message of up to 3 bytes', ()),
            R('h_pool', (0, 3, 16, 4), 'any 1-3 additions out of 16 patterns, any message of up to 4 bytes', ()),
            R('h_logs', (0, 3, 0, 10), 'realistic patterns, log lines with any 3 bytes at any place', ()),
            R('h_grammar_long', (0, 8, 2, 3), '8 long pattern texts with any 2 bytes at any place', (1, 8)),
            R('h_many', (0, 0, 8, 2), BIG + ' with any 2 bytes at any place', ()),
            R('h_garbage', (0, 2), 'a JSON document with any 2 bytes at any place'),
            R('h_garbage', (1, 2), 'a YAML document with any 2 bytes at any place'),
        ],
        'outside': 'longer inputs; exhaustion of memory or of the stack by inputs far beyond the bounds',
    },
    'C08': {
        'runs': [
            R('h_grammar_any', (8, 1), 'any pattern text of up to 8 bytes of UTF-8', (1, 4, 8)),
            R('h_grammar_hole', (4, 0, 20, 1), '20 pattern texts with any 0-4 bytes of UTF-8 in the middle', (1, 2, 3, 4, 5, 6, 7, 8)),
            R('h_grammar_long', (0, 8, 1, 1), '8 long pattern texts with any byte at any place', (1, 2, 3, 4, 5, 6, 7, 8)),
        ],
        'thorough': [
            R('h_grammar_any', (10, 1), 'any pattern text of up to 10 bytes of UTF-8', (1, 4, 6, 8)),
            R('h_grammar_hole', (6, 0, 20, 1), '20 pattern texts with any 0-6 bytes of UTF-8 in the middle', (1, 2, 3, 4, 5, 6, 7, 8)),
            R('h_grammar_long', (0, 8, 2, 1), '8 long pattern texts with any 2 bytes at any place', (1, 2, 3, 4, 5, 6, 7, 8)),
        ],
        'outside': 'longer texts; names with a hyphen, about which the documentation and the tests disagree',
    },
    'C09': {
        'runs': [
            R('h_grammar_any', (8, 2), 'any pattern text of up to 8 bytes of UTF-8', (1, 8)),
            R('h_grammar_hole', (4, 0, 20, 2), '20 pattern texts with any 0-4 bytes of UTF-8 in the middle', (1, 8)),
            R('h_grammar_long', (0, 8, 1, 2), '8 long pattern texts with any byte at any place', (1, 8)),
        ],
        'thorough': [
            R('h_grammar_any', (10, 2), 'any pattern text of up to 10 bytes of UTF-8', (1, 8)),
            R('h_grammar_hole', (6, 0, 20, 2), '20 pattern texts with any 0-6 bytes of UTF-8 in the middle', (1, 8)),
            R('h_grammar_long', (0, 8, 2, 2), '8 long pattern texts with any 2 bytes at any place', (1, 8)),
        ],
        'outside': 'longer texts; the position reported for an empty set; names with a hyphen',
    },
    'C10': {
        'runs': [
            R('h_doc', (0,), 'JSON file: any selection of fields, in any rotation, with any printable text in them'),
            R('h_doc', (3,), 'JSON pattern: any selection of fields, in any rotation, with any printable text in them'),
            R('h_keys', (0, 1, 4, 0, 0), 'file with any additional key of 1-4 bytes, a text, list or map as its value', (2,)),
            R('h_keys', (0, 1, 30, 0, 2), 'file with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (0, 1, 4, 1, 0), 'pattern with any additional key of 1-4 bytes, a text, list or map as its value', (2,)),
            R('h_keys', (0, 1, 30, 1, 2), 'pattern with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (0, 0, 0, 1, 1), 'pattern with a known or likely key changed by any character at any place'),
            R('h_keys', (0, 1, 4, 2, 0), 'test message with any additional key of 1-4 bytes, a text, list or map as its value', (2,)),
            R('h_keys', (0, 1, 30, 2, 2), 'test message with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (0, 0, 0, 2, 1), 'test message with a known or likely key changed by any character at any place'),
            R('h_types', (0,), 'a value of a wrong type or form in any one field'),
            R('h_uuid', (0, 0, 36), 'any printable character at any place of the identifier', (1, 2, 3)),
            R('h_file', (0, 3), 'files of 0-3 patterns'),
            R('h_file_text', (0, 2, 3), 'the same from a file: any text of 2 bytes as one of the texts', (1,)),
            R('h_doc_text', (0, 3, 3), 'JSON file: any text of 3 bytes as one of the texts of a pattern with up to 3 values, tags and test messages', (1,)),
            R('h_doc_text', (0, 1, 8), 'JSON file: likewise, any text of 1 byte, up to 8 values, tags and test messages', (1,)),
            R('h_doc_text', (3, 2, 4), 'JSON pattern: likewise, 2 bytes, 4 of each', (1,)),
            R('h_doc_text', (0, 0, 4), 'JSON file: one of the texts empty'),
            R('h_doc_text', (3, 0, 4), 'JSON pattern: one of the texts empty'),
        ],
        'thorough': [
            R('h_doc', (0,), 'JSON file: any selection of fields, in any rotation, with any printable text in them'),
            R('h_doc', (3,), 'JSON pattern: any selection of fields, in any rotation, with any printable text in them'),
            R('h_keys', (0, 1, 6, 0, 0), 'file with any additional key of 1-6 bytes, a text, list or map as its value', (2,)),
            R('h_keys', (0, 1, 30, 0, 2), 'file with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (0, 1, 6, 1, 0), 'pattern with any additional key of 1-6 bytes, a text, list or map as its value', (2,)),
            R('h_keys', (0, 1, 30, 1, 2), 'pattern with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (0, 0, 0, 1, 1), 'pattern with a known or likely key changed by any character at any place'),
            R('h_keys', (0, 1, 6, 2, 0), 'test message with any additional key of 1-6 bytes, a text, list or map as its value', (2,)),
            R('h_keys', (0, 1, 30, 2, 2), 'test message with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (0, 0, 0, 2, 1), 'test message with a known or likely key changed by any character at any place'),
            R('h_types', (0,), 'a value of a wrong type or form in any one field'),
            R('h_uuid', (0, 0, 36), 'any printable character at any place of the identifier', (1, 2, 3)),
            R('h_file', (0, 6), 'files of 0-6 patterns'),
            R('h_doc_text', (0, 4, 3), 'JSON file: any text of 4 bytes as one of the texts of a pattern with up to 3 values, tags and test messages', (1,)),
            R('h_doc_text', (0, 1, 20), 'JSON file: likewise, any text of 1 byte, up to 20 values, tags and test messages', (1,)),
        ],
        'outside': 'longer documents, JSON escapes in texts, more than two fields out of rotation',
    },
    'C11': {
        'runs': [
            R('h_doc', (1,), 'YAML flow style: one field at a time varies in presence and text, the others all there or all missing, any rotation'),
            R('h_doc', (2,), 'YAML block style: likewise'),
            R('h_keys', (1, 1, 4, 0, 0), 'file with any additional key of 1-4 printable characters, a text, list or map as its value', (2,)),
            R('h_keys', (1, 1, 30, 0, 2), 'file with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (1, 1, 4, 1, 0), 'pattern with any additional key of 1-4 printable characters, a text, list or map as its value', (2,)),
            R('h_keys', (1, 1, 30, 1, 2), 'pattern with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (1, 0, 0, 1, 1), 'pattern with a known or likely key changed by any character at any place'),
            R('h_keys', (1, 1, 4, 2, 0), 'test message with any additional key of 1-4 printable characters, a text, list or map as its value', (2,)),
            R('h_keys', (1, 1, 30, 2, 2), 'test message with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (1, 0, 0, 2, 1), 'test message with a known or likely key changed by any character at any place'),
            R('h_types', (1,), 'a value of a wrong type or form in any one field'),
            R('h_uuid', (1, 0, 36), 'any printable character at any place of the identifier', (1, 2, 3)),
            R('h_file', (1, 3), 'files of 0-3 patterns'),
            R('h_file_text', (1, 2, 3), 'the same from a file: any 2 characters as one of the texts', (1,)),
            R('h_file_text', (2, 1, 3), 'likewise, block style, any character', (1,)),
            R('h_doc_text', (1, 3, 3), 'YAML flow style: any 3 characters (printable, line feed, tab) as one of the texts of a pattern with up to 3 values, tags and test messages, tabs escaped or as they are', (1,)),
            R('h_doc_text', (1, 1, 6), 'YAML flow style: likewise, any character, up to 6 of each', (1,)),
            R('h_doc_text', (2, 2, 3), 'YAML block style: likewise, 2 characters', (1,)),
            R('h_doc_text', (1, 0, 4), 'YAML flow style: one of the texts empty'),
            R('h_doc_text', (2, 0, 4), 'YAML block style: one of the texts empty'),
        ],
        'thorough': [
            R('h_doc', (1,), 'YAML flow style'), R('h_doc', (2,), 'YAML block style'),
            R('h_keys', (1, 1, 6, 0, 0), 'file with any additional key of 1-6 printable characters, a text, list or map as its value', (2,)),
            R('h_keys', (1, 1, 30, 0, 2), 'file with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (1, 1, 6, 1, 0), 'pattern with any additional key of 1-6 printable characters, a text, list or map as its value', (2,)),
            R('h_keys', (1, 1, 30, 1, 2), 'pattern with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (1, 0, 0, 1, 1), 'pattern with a known or likely key changed by any character at any place'),
            R('h_keys', (1, 1, 6, 2, 0), 'test message with any additional key of 1-6 printable characters, a text, list or map as its value', (2,)),
            R('h_keys', (1, 1, 30, 2, 2), 'test message with any additional key of 1-30 printable characters without blanks and apostrophes'),
            R('h_keys', (1, 0, 0, 2, 1), 'test message with a known or likely key changed by any character at any place'),
            R('h_types', (1,), 'a value of a wrong type or form in any one field'),
            R('h_uuid', (1, 0, 36), 'any printable character at any place of the identifier', (1, 2, 3)),
            R('h_file', (1, 6), 'files of 0-6 patterns'),
            R('h_doc_text', (1, 4, 3), 'YAML flow style: any 4 characters as one of the texts of a pattern with up to 3 values, tags and test messages', (1,)),
            R('h_doc_text', (2, 3, 4), 'YAML block style: likewise, 3 characters', (1,)),
        ],
        'outside': 'longer documents, YAML anchors, tags, multi-line scalars and escapes',
    },
    'C12': {
        'runs': [
            R('h_validate', (2, 2, 2), 'one pattern with or without own values and tags; any test message of up to 2 bytes with any 0-2 expected values and tags', (1, 2, 3, 4, 5, 6)),
            R('h_validate_big', (12, 3), 'a pattern with 3 named parsers, 10 values, 9 tags and 12 test messages, in one of which an expected value, key or tag or the message has any 3 bytes'),
            R('h_validate_big', (4, 5), 'likewise with 4 test messages, any 5 bytes in one of them'),
            R('h_validate_big', (70, 1), 'likewise with 70 test messages, any byte in one of them'),
            R('h_source_big', (12, 1), 'a source of 12 items, any two of which fail (the source or a test message)'),
            R('h_messages', (3,), '1-3 test messages, each with or without an expected value'),
            R('h_source', (2, 6, 2, 1), '1-2 patterns out of 6 or failures of the source, each with or without any test message of 2-3 letters', (1, 2, 3)),
        ],
        'thorough': [
            R('h_validate', (3, 2, 2), 'any test message of up to 3 bytes with any 0-2 expected values and tags', (1, 2, 3, 4, 5, 6)),
            R('h_validate_big', (12, 5), '12 test messages, any 5 bytes'),
            R('h_messages', (5,), '1-5 test messages, each with or without an expected value'),
            R('h_source', (3, 6, 2, 1), '1-3 patterns out of 6 or failures of the source', (1, 2, 3)),
        ],
        'outside': 'longer messages, more expectations, longer names of values',
    },
    'C13': {
        'runs': [
            R('h_extension', (6,), 'any end of the file name of up to 6 bytes of UTF-8, JSON or YAML contents, all five ways to load', (1, 2, 3)),
            R('h_faults', (3,), 'any failure or interruption of opening, and any schedule of up to 3 short, interrupted or failing reads, all five ways to load'),
            R('h_torn', (0,), 'the file ends after any number of bytes'),
            R('h_bytes', (4,), 'any 4 bytes in the file, UTF-8 or not'),
            R('h_load_tests', (3,), 'two patterns, any test message of 3 bytes, strict and lenient'),
            R('h_load_db', (2,), 'files of 0-2 patterns out of 4, identifiers and names perhaps the same, both formats, four ways to load'),
            R('h_around', (2,), 'any 0-2 bytes of UTF-8 before, after or between the parts of the document (no digits in JSON)', (1, 2, 3, 4)),
            R('h_file_text', (0, 1, 3), 'any text of 1 byte as one of the texts of a JSON file', (1,)),
            R('h_file_text', (1, 1, 3), 'any character as one of the texts of a YAML file', (1,)),
            R('h_load_big', (600, 1), 'a file of 600 patterns (120 kB) with any byte in one of them', (1,)),
        ],
        'thorough': [
            R('h_extension', (7,), 'any end of the file name of up to 7 bytes of UTF-8', (1, 2, 3)),
            R('h_faults', (5,), 'any schedule of up to 5 short, interrupted or failing reads'),
            R('h_torn', (0,), 'the file ends after any number of bytes'),
            R('h_bytes', (6,), 'any 6 bytes in the file, UTF-8 or not'),
            R('h_load_tests', (4,), 'any test message of 4 bytes'),
            R('h_load_db', (3,), 'files of 0-3 patterns out of 4, identifiers and names perhaps the same, both formats, four ways to load'),
            R('h_around', (3,), 'any 0-3 bytes of UTF-8 before, after or between the parts of the document (no digits in JSON)', (1, 2, 3, 4)),
            R('h_file_text', (0, 2, 3), 'any text of 2 bytes as one of the texts of a JSON file', (1,)),
            R('h_file_text', (1, 2, 3), 'any 2 characters as one of the texts of a YAML file', (1,)),
            R('h_load_big', (3000, 2), 'a file of 3000 patterns (600 kB) with any 2 bytes in one of them', (1,)),
        ],
        'outside': 'file systems which return other errors, arbitrary contents of more than 6 bytes',
        'assumptions': ['open, read, lseek, stat and close are those of harness/src/vfs.rs, for the symbolic and the native runs alike'],
    },
    'C14': {
        'runs': [
            R('h_clone', (2, 2, 5, 2), '0-2 additions out of 5 before cloning, 0-2 to either side afterwards, any message of up to 2 bytes, both engines'),
            R('h_clone_big', (0, 8, 1), BIG + ' with any byte at any place; cloned half way or before the last addition, the rest added to either side; a clone of the clone, the others dropped'),
        ],
        'thorough': [
            R('h_clone', (2, 3, 5, 2), '0-2 additions out of 5 before cloning, 0-3 to either side afterwards, any message of up to 2 bytes'),
            R('h_clone', (2, 2, 7, 3), '0-2 additions out of 7 before cloning, 0-2 afterwards, any message of up to 3 bytes'),
        ],
        'outside': 'longer arbitrary histories',
    },
    'C15': {
        'runs': [
            R('h_sorted', (4,), '0-4 arbitrary elements, optionally one removed, any element looked for', (1, 2, 3)),
            R('h_sorted_big', (9, 1), '9 elements pushed in one of 4 orders, then any element, optionally one removed, any element looked for', (2, 3)),
            R('h_sorted_big', (24, 1), 'likewise with 24 elements', (2, 3)),
            R('h_sorted_many', (71,), '71 elements pushed in one of 4 orders, any one pushed before, half way or afterwards, one of 6 removed or not'),
            R('h_sorted_long', (9,), '1-9 distinct elements pushed in either order, any element looked for'),
        ],
        'thorough': [
            R('h_sorted', (5,), '0-5 arbitrary elements, optionally one removed, any element looked for', (1, 2, 3)),
            R('h_sorted_big', (12, 2), '12 elements pushed in one of 4 orders, then any 2 elements, optionally one removed, any element looked for', (2, 3)),
            R('h_sorted_many', (300,), '300 elements pushed in one of 4 orders, any one pushed before, half way or afterwards, one of 6 removed or not'),
            R('h_sorted_long', (16,), '1-16 distinct elements pushed in either order, any element looked for'),
        ],
        'outside': 'more elements; element types other than bytes',
    },
    'C16': {
        'runs': [
            R('h_prefix', (5, 5), 'any two texts of up to 5 bytes of UTF-8', (1, 2, 3, 4)),
            R('h_prefix_big', (3, 20), 'common beginnings of 0-19 characters of 1-3 bytes, then any 0-3 bytes on either side, then 12 more characters or none', (1, 2, 3, 4)),
            R('h_prefix_big', (2, 42), 'likewise, 0-41 characters and any 0-2 bytes', (1, 2, 3, 4)),
            R('h_flatten_big', (12,), '0-12 lists of 0-9 elements', (1,)),
            R('h_flatten', (3, 3), '0-3 lists of 0-3 elements', (1,)),
        ],
        'thorough': [
            R('h_prefix', (7, 7), 'any two texts of up to 7 bytes of UTF-8', (1, 2, 3, 4)),
            R('h_prefix_big', (4, 42), 'common beginnings of 0-41 characters of 1-3 bytes, then any 0-4 bytes on either side, then 12 more characters or none', (1, 2, 3, 4)),
            R('h_flatten', (4, 4), '0-4 lists of 0-4 elements', (1,)),
        ],
        'outside': 'longer texts',
    },
    'C17': {
        'runs': [
            R('h_near', (3, 0, 29), 'any two out of 29 parsers which are equal or differ in one parameter, at the beginning or after a literal, with any continuation; any message of up to 3 characters of "abc19"'),
            R('h_near_names', (1,), 'any two out of 3 x 20 parsers which differ in nothing but names which are much alike, with 3 kinds of continuation; any byte at the end of the message'),
            R('h_near_wide', (0,), 'any two out of 21 parsers of which parameters agree in some bits only (low bits of characters and lengths, beginnings of names), 4 kinds of end text, any character'),
        ],
        'thorough': [
            R('h_near_names', (2,), 'any two out of 3 x 20 parsers which differ in nothing but names which are much alike, any 2 bytes at the end of the message'),
            R('h_near_wide', (0,), 'parsers which differ in some bits of their parameters'),
            R('h_near', (4, 0, 29), 'likewise, any message of up to 4 characters'),
        ],
        'outside': 'parsers whose parameters collide in a 64 bit hash; other parameters',
    },
    'C18': {
        'runs': [
            R('h_order_lits', (2, 2, 3), 'any 2 patterns of 1-2 byte literals, one of them perhaps with a SET, in either order, any message of up to 3 bytes, both engines'),
            R('h_order_pool', (3, 8, 2), 'any 3 out of 8 patterns in any order, any message of up to 2 bytes, both engines'),
            R('h_monotone', (3, 7, 2), 'any 3 additions out of 7, any message of up to 2 bytes asked after each'),
            R('h_order_big', (0, 8, 1), BIG + ' with any byte at any place; asked after every seventh addition'),
        ],
        'thorough': [
            R('h_order_lits', (3, 1, 3), 'any 3 patterns of 1-byte literals in any order, any message of up to 3 bytes'),
            R('h_order_pool', (3, 16, 2), 'any 3 out of 16 patterns in any order, any message of up to 2 bytes'),
            R('h_order_pool', (2, 16, 4), 'any 2 out of 16 patterns in any order, any message of up to 4 bytes'),
            R('h_monotone', (4, 7, 2), 'any 4 additions out of 7, any message of up to 2 bytes asked after each'),
            R('h_order_big', (0, 8, 2), BIG + ' with any 2 bytes at any place; asked after every seventh addition'),
        ],
        'outside': 'more patterns; which one of several matching patterns is reported',
    },
    'C19': {
        'runs': [
            R('h_load_db', (2,), 'files of 0-2 patterns out of 4, identifiers and names perhaps the same, both formats, four ways to load'),
            R('h_source', (2, 6, 2, 0), '1-2 items, each one of 6 patterns (with or without any test message of 2-3 letters) or a failure, lenient; any message of up to 2 bytes', (1, 2, 3)),
            R('h_source', (2, 6, 2, 1), 'the same, strict', (1, 2, 3)),
            R('h_source_big', (8, 0), 'a source of 8 items, any two of which fail (the source or a test message), lenient; any of its patterns asked with any byte'),
            R('h_source_big', (12, 1), 'a source of 12 items, any two of which fail, strict'),
            R('h_source_long', (150, 0), 'a source of 150 items, one of 15 runs of which fails, in 3 ways, lenient; 6 of its patterns asked with any byte'),
            R('h_source_long', (150, 1), 'a source of 150 items, one of 15 runs of which fails, in 3 ways, strict'),
            R('h_load_tests', (3,), 'from a file: two patterns, any test message of 3 bytes, strict and lenient'),
        ],
        'thorough': [
            R('h_load_db', (3,), 'files of 0-3 patterns out of 4, identifiers and names perhaps the same, both formats, four ways to load'),
            R('h_source', (3, 4, 1, 0), '1-3 items out of 4 patterns and failures, lenient; any message of up to 1 byte', (1, 2, 3)),
            R('h_source', (3, 4, 2, 1), 'the same, strict', (1, 2, 3)),
            R('h_source_big', (20, 0), 'a source of 20 items, any two of which fail, lenient'),
            R('h_source_big', (20, 1), 'a source of 20 items, any two of which fail, strict'),
            R('h_source_long', (1100, 0), 'a source of 1100 items, one of 15 runs of which fails, in 3 ways, lenient; 6 of its patterns asked with any byte'),
            R('h_source_long', (1100, 1), 'a source of 1100 items, one of 15 runs of which fails, in 3 ways, strict'),
            R('h_load_tests', (4,), 'from a file: two patterns, any test message of 4 bytes, strict and lenient'),
        ],
        'outside': 'longer sources',
    },
    'C20': {
        'runs': [
            R('h_repeat', (2, 7, 2), '1-2 additions out of 7, any two messages of up to 2 bytes asked as x, y, x; both engines'),
            R('h_monotone', (3, 7, 2), 'any 3 additions out of 7, any message of up to 2 bytes asked twice after each'),
            R('h_repeat_big', (0, 8, 1), BIG + ' with any byte at any place; asked before and after each of the others; both engines'),
            R('h_ask', (1100, 1), '1100 questions between two askings of any message of up to 1 byte; both engines'),
            R('h_buffer_one', (2,), '6 databases of 1-2 patterns, any two messages of 1-2 bytes asked one after the other at the same address, and the second again without its last byte; both engines'),
            R('h_buffer', (1,), 'any two messages of 1 byte at the same address, two databases alive at once, a pattern added in between; both engines'),
        ],
        'thorough': [
            R('h_ask', (5000, 2), '5000 questions between two askings of any message of up to 2 bytes; both engines'),
            R('h_buffer_one', (3,), '6 databases of 1-2 patterns, any two messages of 1-3 bytes asked one after the other at the same address, and the second again without its last byte; both engines'),
            R('h_buffer', (2,), 'any two messages of 1-2 bytes at the same address, two databases alive at once, a pattern added in between; both engines'),
            R('h_repeat', (3, 7, 2), '1-3 additions out of 7, any two messages of up to 2 bytes asked as x, y, x; both engines'),
            R('h_monotone', (4, 7, 2), 'any 4 additions out of 7, any message of up to 2 bytes asked twice after each'),
            R('h_repeat_big', (0, 8, 2), BIG + ' with any 2 bytes at any place; asked before and after each of the others; both engines'),
        ],
        'outside': 'longer histories; several threads (the API hands out shared references only)',
    },
    'C22': {
        'runs': [
            R('h_error_text', (2,), 'every error of a test message, any 3 texts of 2 bytes in it', (1, 2, 3, 4, 5, 6, 7)),
            R('h_error_text', (9,), 'every error of a test message, any 3 texts of 9 bytes in it', (1, 2, 3, 4, 5, 6, 7)),
            R('h_error_grammar', (4,), 'any pattern text of up to 4 bytes, alone or after %{, after two lines and %{INT, or after %{SET("a"'),
            R('h_error_build', (), 'the other errors of a build; a JSON document of { and any ASCII byte; 4 I/O errors', (1, 2, 3, 4)),
        ],
        'thorough': [
            R('h_error_text', (40,), 'every error of a test message, any 3 texts of 40 bytes in it', (1, 2, 3, 4, 5, 6, 7)),
            R('h_error_grammar', (6,), 'any pattern text of up to 6 bytes, alone or after %{, after two lines and %{INT, or after %{SET("a"'),
        ],
        'outside': 'the wording around the values; quoting of control characters and quotes in lists of tags',
    },
    'C23': {
        'runs': [
            R('h_pattern_api', (2, 2, 2), 'patterns of up to 2 tokens of 4 kinds, texts of up to 2 bytes, with and without name, values, tags and test messages', (1, 2)),
            R('h_pattern_long', (12, 2), 'patterns of 12 tokens, values, tags and test messages, with any text of 2 bytes in one of them, taken apart and copied before and half way', (1,)),
            R('h_pattern_long', (40, 1), 'likewise with 40 of each and any text of 1 byte', (1,)),
            R('h_parser_api', (1, 2), 'SET, INT and GREEDY made in 3 ways, with 16 pairs of limits, names and sets of up to 1 byte, texts of 2 bytes', (1, 2, 3)),
            R('h_parser_same', (4,), 'pairs of parsers which mean the same, names and sets of 4 bytes', (1, 2)),
        ],
        'thorough': [
            R('h_pattern_api', (3, 2, 2), 'patterns of up to 3 tokens of 4 kinds, texts of up to 2 bytes, with and without name, values, tags and test messages', (1, 2)),
            R('h_pattern_long', (150, 1), 'patterns of 150 tokens, values, tags and test messages, with any text of 1 byte in one of them, taken apart and copied before and half way', (1,)),
            R('h_parser_api', (2, 3), 'SET, INT and GREEDY made in 3 ways, with 16 pairs of limits, names and sets of up to 2 bytes, texts of 3 bytes', (1, 2, 3)),
            R('h_parser_same', (6,), 'pairs of parsers which mean the same, names and sets of 6 bytes', (1, 2)),
        ],
        'outside': 'Debug output',
    },
}
