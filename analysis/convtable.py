"""Family of AutoFrom types, written by tools/gen_conv.py: (module, source, target, elements converted, fields)"""
TABLE = [
    ('autofrom::named2', 'Named1', 'Named2', True, (('a', 'X'), ('b', 'V'), ('c', 'O'), ('d', 'X'), ('e', 'X'), ('f', 'V'), ('g', 'O'), ('h', 'X'), ('i', 'V'), ('j', 'u'), ('k', 'u'))),
    ('autofrom::named3', 'Named1', 'Named3', False, (('a', 'X'), ('b', 'V'), ('c', 'O'), ('d', 'X'), ('e', 'X'), ('f', 'V'), ('g', 'O'), ('h', 'X'), ('i', 'V'), ('j', 'u'), ('k', 'u'))),
    ('autofrom::onex2', 'OneX1', 'OneX2', True, (('a', 'X'),)),
    ('autofrom::singlex2', 'SingleX1', 'SingleX2', True, (('0', 'X'),)),
    ('autofrom::oneplain2', 'OnePlain1', 'OnePlain2', True, (('a', 'u'),)),
    ('autofrom::singleplain2', 'SinglePlain1', 'SinglePlain2', True, (('0', 'u'),)),
    ('autofrom::onev2', 'OneV1', 'OneV2', True, (('a', 'V'),)),
    ('autofrom::singlev2', 'SingleV1', 'SingleV2', True, (('0', 'V'),)),
    ('autofrom::oneo2', 'OneO1', 'OneO2', True, (('a', 'O'),)),
    ('autofrom::singleo2', 'SingleO1', 'SingleO2', True, (('0', 'O'),)),
    ('autofrom::oneb2', 'OneB1', 'OneB2', True, (('a', 'X'),)),
    ('autofrom::singleb2', 'SingleB1', 'SingleB2', True, (('0', 'X'),)),
    ('autofrom::onesubw2', 'OneSubW1', 'OneSubW2', True, (('a', 'X'),)),
    ('autofrom::singlesubw2', 'SingleSubW1', 'SingleSubW2', True, (('0', 'X'),)),
    ('autofrom::onesubp2', 'OneSubP1', 'OneSubP2', True, (('a', 'X'),)),
    ('autofrom::singlesubp2', 'SingleSubP1', 'SingleSubP2', True, (('0', 'X'),)),
    ('autofrom::long2', 'Long1', 'Long2', True, (('a', 'u'), ('b', 'X'), ('c', 'u'), ('d', 'X'), ('e', 'u'), ('f', 'X'), ('g', 'u'), ('h', 'X'), ('i', 'X'), ('j', 'u'), ('k', 'X'), ('l', 'u'), ('m', 'X'), ('n', 'u'), ('o', 'X'), ('p', 'V'), ('q', 'O'), ('r', 'X'), ('s', 'u'), ('t', 'X'))),
    ('autofrom::vecs2', 'Vecs1', 'Vecs2', True, (('a', 'V'), ('b', 'V'), ('c', 'V'), ('d', 'V'), ('e', 'V'))),
    ('autofrom::options2', 'Options1', 'Options2', True, (('a', 'O'), ('b', 'O'), ('c', 'O'), ('d', 'O'))),
    ('autofrom::boxes2', 'Boxes1', 'Boxes2', True, (('a', 'X'), ('b', 'X'), ('c', 'X'), ('d', 'X'), ('e', 'X'), ('f', 'X'), ('g', 'X'), ('h', 'X'), ('i', 'X'))),
    ('autofrom::places2', 'Places1', 'Places2', True, (('item', 'X'), ('t', 'u'), ('v1', 'u'), ('v0', 'X'), ('ident', 'O'), ('type', 'u'), ('from', 'X'))),
    ('autofrom::paths2', 'Paths1', 'Paths2', True, (('a', 'V'), ('b', 'O'), ('c', 'X'), ('d', 'u'), ('e', 'u'), ('f', 'u'), ('g', 'X'))),
    ('autofrom::back2', 'Back1', 'Back2', True, (('z', 'u'), ('y', 'X'), ('x', 'X'), ('w', 'O'), ('v', 'V'))),
    ('autofrom::back3', 'Back1', 'Back3', False, (('z', 'u'), ('y', 'X'), ('x', 'X'), ('w', 'O'), ('v', 'V'))),
    ('autofrom::back4', 'Back1', 'Back4', True, (('z', 'u'), ('y', 'X'), ('x', 'X'), ('w', 'O'), ('v', 'V'))),
    ('autofrom::tup2', 'Tup1', 'Tup2', True, (('0', 'X'), ('1', 'V'), ('2', 'O'), ('3', 'X'), ('4', 'X'), ('5', 'V'), ('6', 'O'), ('7', 'X'), ('8', 'u'), ('9', 'u'))),
    ('autofrom::tuplong2', 'TupLong1', 'TupLong2', True, (('0', 'X'), ('1', 'u'), ('2', 'X'), ('3', 'u'), ('4', 'X'), ('5', 'u'), ('6', 'u'), ('7', 'u'), ('8', 'X'), ('9', 'X'), ('10', 'X'), ('11', 'u'), ('12', 'X'), ('13', 'V'), ('14', 'O'))),
    ('autofrom::tupboxes2', 'TupBoxes1', 'TupBoxes2', True, (('0', 'X'), ('1', 'X'), ('2', 'X'), ('3', 'X'), ('4', 'X'), ('5', 'X'), ('6', 'X'), ('7', 'X'))),
    ('autofrom::tupvecs2', 'TupVecs1', 'TupVecs2', True, (('0', 'V'), ('1', 'V'), ('2', 'V'), ('3', 'V'))),
    ('autofrom::tupoptions2', 'TupOptions1', 'TupOptions2', True, (('0', 'O'), ('1', 'O'), ('2', 'O'), ('3', 'O'))),
    ('autofrom::tuppaths2', 'TupPaths1', 'TupPaths2', True, (('0', 'V'), ('1', 'O'), ('2', 'X'), ('3', 'u'), ('4', 'u'), ('5', 'u'), ('6', 'X'), ('7', 'X'))),
    ('autofrom::enum2', 'Enum1', 'Enum2', True, {'U': (), 'T1': (('0', 'X'),), 'T2': (('0', 'X'), ('1', 'V'), ('2', 'O'), ('3', 'X'), ('4', 'X')), 'T3': (('0', 'u'), ('1', 'u')), 'S1': (('a', 'X'),), 'S2': (('a', 'X'), ('b', 'V'), ('c', 'O'), ('d', 'X'), ('e', 'X'), ('f', 'u'), ('g', 'u')), 'V': ()}),
    ('autofrom::big2', 'Big1', 'Big2', True, {'T1': (('0', 'X'),), 'S1': (('a', 'u'),), 'N1': (), 'T2': (('0', 'X'), ('1', 'u')), 'S2': (('a', 'u'), ('b', 'X')), 'N2': (), 'T3': (('0', 'X'), ('1', 'u'), ('2', 'X')), 'S3': (('a', 'u'), ('b', 'X'), ('c', 'X')), 'N3': (), 'T4': (('0', 'X'), ('1', 'u'), ('2', 'X'), ('3', 'u')), 'S4': (('a', 'u'), ('b', 'X'), ('c', 'X'), ('d', 'u')), 'N4': (), 'T5': (('0', 'X'), ('1', 'u'), ('2', 'X'), ('3', 'u'), ('4', 'X')), 'S5': (('a', 'u'), ('b', 'X'), ('c', 'X'), ('d', 'u'), ('e', 'X')), 'N5': (), 'T6': (('0', 'X'), ('1', 'u'), ('2', 'X'), ('3', 'u'), ('4', 'X'), ('5', 'X')), 'S6': (('a', 'u'), ('b', 'X'), ('c', 'X'), ('d', 'u'), ('e', 'X'), ('f', 'X')), 'N6': (), 'T7': (('0', 'X'), ('1', 'u'), ('2', 'X'), ('3', 'u'), ('4', 'X'), ('5', 'X'), ('6', 'u')), 'S7': (('a', 'u'), ('b', 'X'), ('c', 'X'), ('d', 'u'), ('e', 'X'), ('f', 'X'), ('g', 'u')), 'N7': (), 'T8': (('0', 'X'), ('1', 'u'), ('2', 'X'), ('3', 'u'), ('4', 'X'), ('5', 'X'), ('6', 'u'), ('7', 'X')), 'S8': (('a', 'u'), ('b', 'X'), ('c', 'X'), ('d', 'u'), ('e', 'X'), ('f', 'X'), ('g', 'u'), ('h', 'X')), 'N8': (), 'OnlyV': (('0', 'V'),), 'FieldV': (('f', 'V'),), 'FirstV': (('0', 'V'), ('1', 'u'), ('2', 'X')), 'LastV': (('0', 'X'), ('1', 'u'), ('2', 'V')), 'MidV': (('p', 'X'), ('q', 'V'), ('r', 'u')), 'OnlyO': (('0', 'O'),), 'FieldO': (('f', 'O'),), 'FirstO': (('0', 'O'), ('1', 'u'), ('2', 'X')), 'LastO': (('0', 'X'), ('1', 'u'), ('2', 'O')), 'MidO': (('p', 'X'), ('q', 'O'), ('r', 'u')), 'OnlyB': (('0', 'X'),), 'FieldB': (('f', 'X'),), 'FirstB': (('0', 'X'), ('1', 'u'), ('2', 'X')), 'LastB': (('0', 'X'), ('1', 'u'), ('2', 'X')), 'MidB': (('p', 'X'), ('q', 'X'), ('r', 'u')), 'OnlyX': (('0', 'X'),), 'FieldX': (('f', 'X'),), 'FirstX': (('0', 'X'), ('1', 'u'), ('2', 'X')), 'LastX': (('0', 'X'), ('1', 'u'), ('2', 'X')), 'MidX': (('p', 'X'), ('q', 'X'), ('r', 'u')), 'Onlyu': (('0', 'u'),), 'Fieldu': (('f', 'u'),), 'Firstu': (('0', 'u'), ('1', 'u'), ('2', 'X')), 'Lastu': (('0', 'X'), ('1', 'u'), ('2', 'u')), 'Midu': (('p', 'X'), ('q', 'u'), ('r', 'u')), 'Swap': (('v1', 'u'), ('v0', 'u'), ('item', 'X'), ('t', 'X'), ('type', 'X')), 'Vec': (('0', 'u'), ('1', 'u')), 'Option': (('b', 'u'), ('a', 'u')), 'Other': (('0', 'X'),), 'Long': (('0', 'u'), ('1', 'X'), ('2', 'u'), ('3', 'X'), ('4', 'u'), ('5', 'X'), ('6', 'u'), ('7', 'X'), ('8', 'u'), ('9', 'X'), ('10', 'u'), ('11', 'X'), ('12', 'u'), ('13', 'u')), 'LongNamed': (('a', 'u'), ('b', 'X'), ('c', 'u'), ('d', 'X'), ('e', 'u'), ('f', 'X'), ('g', 'u'), ('h', 'X'), ('i', 'u'), ('j', 'X'), ('k', 'u'), ('l', 'X'), ('m', 'u'), ('n', 'u')), 'Paths': (('0', 'V'), ('1', 'O'), ('2', 'X'), ('3', 'u'), ('4', 'u'), ('5', 'u'), ('6', 'X'), ('7', 'X')), 'PathsNamed': (('a', 'V'), ('b', 'O'), ('c', 'X'), ('d', 'u'), ('e', 'u'), ('f', 'u'), ('g', 'X'), ('h', 'X'))}),
    ('autofrom::units2', 'Units1', 'Units2', True, {'A': (), 'B': (), 'C': (), 'D': (), 'E': (), 'F': (), 'G': (), 'H': (), 'I': (), 'J': (), 'K': (), 'L': ()}),
    ('autofrom::one2', 'One1', 'One2', True, {'Only': (('0', 'V'),)}),
    ('autofrom::one3', 'One1', 'One3', False, {'Only': (('0', 'V'),)}),
]
