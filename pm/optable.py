"""Frozen specification of Pip's operator and command tables (language level facts).

Each row: (text, arity, associativity, fold default, flags).  Rows are grouped
from the loosest-binding level to the tightest.  Flags: V = operands evaluated
(lvalues stay lvalues), R = operands evaluated to plain values, L = distributes
over Lists, G = distributes over Ranges too, B = builds functions from functions.
"""

LEVELS = [
    (1, None, [
        ('O', 'OUTPUT', None, 'R'),
        ('P', 'PRINT', None, 'R'),
        ('Y', 'YANK', None, 'R'),
        ('YO', 'YANKOUTPUT', None, 'R'),
        ('YP', 'YANKPRINT', None, 'R'),
    ]),
    (2, 'R', [
        (':', 'ASSIGN', None, 'V'),
        ('::', 'SWAP', None, 'V'),
    ]),
    (3, 'R', [
        ('?', 'IFTE', None, ''),
    ]),
    (2, 'L', [
        ('|', 'OR', 0, ''),
    ]),
    (2, 'L', [
        ('&', 'AND', 1, ''),
    ]),
    (1, None, [
        ('!', 'NOT', None, 'R'),
    ]),
    (2, 'L', [
        ('==', 'OBJEQUAL', 1, 'R'),
    ]),
    (1, None, [
        ('V', 'EVAL', None, 'R'),
        ('FI', 'FILTER', None, 'R'),
        ('FN', 'FILTERNOT', None, 'R'),
        ('FU', 'FILTERUNPACK', None, 'R'),
        ('FX', 'FILTERINDEXES', None, 'R'),
        ('FJ', 'FILTERJOIN', None, 'R'),
        ('RE', 'RECURSE', None, 'R'),
    ]),
    (2, 'R', [
        ('M', 'MAP', [], 'R'),
        ('MC', 'MAPCOORDS', [], 'R'),
        ('ME', 'MAPENUMERATE', [], 'R'),
        ('MJ', 'MAPJOIN', '', 'R'),
        ('MM', 'MAPMAP', [], 'R'),
        ('MP', 'MAPPAIRS', [], 'R'),
        ('MS', 'MAPSUM', 0, 'R'),
        ('MU', 'MAPUNPACK', [], 'R'),
        ('MF', 'MAPFLATTEN', [], 'R'),
        ('FI', 'FILTER', [], 'R'),
        ('FN', 'FILTERNOT', [], 'R'),
        ('FE', 'FILTERENUMERATE', [], 'R'),
        ('FU', 'FILTERUNPACK', [], 'R'),
        ('FX', 'FILTERINDEXES', [], 'R'),
        ('FJ', 'FILTERJOIN', [], 'R'),
        ('SK', 'SORTKEYED', [], 'R'),
        ('DK', 'DESCENDINGKEYED', [], 'R'),
        ('V', 'EVAL', None, 'R'),
    ]),
    (3, 'R', [
        ('MR', 'MAPREGEX', [], 'R'),
        ('MZ', 'MAPZIP', [], 'R'),
    ]),
    (3, 'R', [
        ('\\?', 'RVALIFTE', None, 'RB'),
    ]),
    (2, 'L', [
        ('\\|', 'RVALOR', 0, 'RB'),
    ]),
    (2, 'L', [
        ('\\&', 'RVALAND', 1, 'RB'),
    ]),
    (1, None, [
        ('\\!', 'NOT', None, 'RB'),
    ]),
    (2, 'C', [
        ('<', 'NUMLESS', 1, 'RB'),
        ('>', 'NUMGREATER', 1, 'RB'),
        ('=', 'NUMEQUAL', 1, 'RB'),
        ('<=', 'NUMLESSEQ', 1, 'RB'),
        ('>=', 'NUMGREATEREQ', 1, 'RB'),
        ('!=', 'NUMNOTEQUAL', 1, 'RB'),
        ('LT', 'STRLESS', 1, 'RB'),
        ('GT', 'STRGREATER', 1, 'RB'),
        ('Q', 'STREQUAL', 1, 'RB'),
        ('LE', 'STRLESSEQ', 1, 'RB'),
        ('GE', 'STRGREATEREQ', 1, 'RB'),
        ('NE', 'STRNOTEQUAL', 1, 'RB'),
        ('#=', 'LENEQUAL', 1, 'RB'),
        ('#<', 'LENLESS', 1, 'RB'),
        ('#>', 'LENGREATER', 1, 'RB'),
        ('~=', 'FULLMATCH', 1, 'RB'),
    ]),
    (2, 'L', [
        ('N', 'IN', None, 'RB'),
        ('NI', 'NOTIN', None, 'RB'),
    ]),
    (1, None, [
        ('RP', 'REPR', None, 'R'),
        ('ST', 'STR', None, 'R'),
    ]),
    (2, 'L', [
        ('CB', 'COMBINATIONS', [], 'RB'),
    ]),
    (1, None, [
        ('MX', 'MAX', None, 'RB'),
        ('M', 'MAX', None, 'RB'),
        ('MN', 'MIN', None, 'RB'),
        ('N', 'MIN', None, 'RB'),
        ('RC', 'RANDCHOICE', None, 'RB'),
        ('SH', 'SHUFFLE', None, 'RB'),
        ('SN', 'SORTNUM', None, 'RB'),
        ('SS', 'SORTSTRING', None, 'RB'),
        ('DN', 'DESCENDINGNUM', None, 'RB'),
        ('DS', 'DESCENDINGSTRING', None, 'RB'),
        ('UQ', 'UNIQUE', None, 'RB'),
        ('EN', 'ENUMERATE', None, 'RB'),
        ('PM', 'PERMUTATIONS', None, 'RB'),
        ('FL', 'FLATTEN', None, 'RB'),
        ('FA', 'FLATTENALL', None, 'RB'),
    ]),
    (2, 'L', [
        ('AE', 'APPENDELEM', [], 'RB'),
        ('AL', 'APPENDLIST', [], 'RB'),
        ('PE', 'PREPENDELEM', [], 'RB'),
        ('PU', 'PUSH', [], 'VB'),
        ('PB', 'PUSHBACK', [], 'VB'),
        ('PK', 'PICK', [], 'VB'),
    ]),
    (1, None, [
        ('PO', 'POP', None, 'VB'),
        ('DQ', 'DEQUEUE', None, 'VB'),
    ]),
    (2, 'L', [
        ('^', 'SPLIT', [], 'RLGB'),
        ('^@', 'SPLITAT', [], 'RB'),
        ('@?', 'FIND', None, 'RB'),
        ('@*', 'FINDALL', [], 'RB'),
        ('<>', 'GROUP', [], 'RB'),
        ('CH', 'CHOP', [], 'RB'),
        ('J', 'JOIN', '', 'RB'),
        ('JW', 'JOINWRAP', None, 'RB'),
        ('RL', 'REPEATLIST', [], 'RB'),
        ('Z', 'ZIP', [], 'RB'),
        ('ZD', 'ZIPDEFAULT', [], 'RB'),
        ('ZJ', 'ZIPJOIN', [], 'RB'),
        ('H', 'PREFIX', [], 'VB'),
        ('S', 'SUFFIX', [], 'VB'),
        ('WV', 'WEAVE', [], 'RB'),
        ('UW', 'UNWEAVE', [], 'RB'),
        ('CP', 'CARTESIANPRODUCT', [], 'RB'),
        ('CG', 'COORDINATEGRID', None, 'RLGB'),
        ('ZG', 'ZEROGRID', None, 'RLGB'),
        ('OG', 'ONEGRID', None, 'RLGB'),
        ('TD', 'TODIGITS', [], 'RB'),
        ('FD', 'FROMDIGITS', 0, 'RB'),
    ]),
    (3, 'L', [
        ('RA', 'REPLACEAT', None, 'RB'),
        ('TR', 'TRANSLITERATE', None, 'RB'),
    ]),
    (1, None, [
        ('^', 'SPLIT', None, 'RLGB'),
        ('<>', 'GROUP', None, 'RB'),
        ('CH', 'CHOP', None, 'RB'),
        ('J', 'JOIN', None, 'RB'),
        ('RV', 'REVERSE', None, 'RB'),
        ('R', 'REVERSE', None, 'RB'),
        ('RF', 'REFLECT', None, 'RB'),
        ('PZ', 'PALINDROMIZE', None, 'RB'),
        ('QR', 'QUADREFLECT', None, 'RB'),
        ('QP', 'QUADPALINDROMIZE', None, 'RB'),
        ('Z', 'ZIP', None, 'RB'),
        ('ZD', 'ZIPDEFAULT', None, 'RB'),
        ('ZJ', 'ZIPJOIN', None, 'RB'),
        ('H', 'PREFIX', None, 'VB'),
        ('S', 'SUFFIX', None, 'VB'),
        ('WV', 'WEAVE', None, 'RB'),
        ('UW', 'UNWEAVE', None, 'RB'),
        ('CP', 'CARTESIANPRODUCT', None, 'RB'),
        ('CG', 'COORDINATEGRID', None, 'RLGB'),
        ('ZG', 'ZEROGRID', None, 'RLGB'),
        ('OG', 'ONEGRID', None, 'RLGB'),
        ('EY', 'IDENTITYMATRIX', None, 'RLGB'),
        ('TD', 'TODIGITS', None, 'RB'),
        ('FD', 'FROMDIGITS', None, 'RB'),
    ]),
    (3, 'L', [
        ('R', 'REPLACE', None, 'R'),
    ]),
    (2, 'L', [
        ('WR', 'WRAP', '', 'RLGB'),
        ('~', 'FIRSTMATCH', '', 'RLGB'),
    ]),
    (2, 'L', [
        ('.', 'CAT', '', 'RLGB'),
    ]),
    (1, None, [
        ('X', 'REGEX', None, 'RB'),
        ('.', 'DOT', None, 'RLB'),
        ('K', 'KLEENESTAR', None, 'RLB'),
    ]),
    (2, 'L', [
        ('RM', 'REMOVE', '', 'RB'),
        ('DC', 'DELETECHARS', '', 'RLGB'),
    ]),
    (2, 'L', [
        ('X', 'STRMUL', '', 'RLGB'),
    ]),
    (2, 'L', [
        ('||', 'STRIP', '', 'RLB'),
        ('|>', 'LSTRIP', '', 'RLB'),
        ('<|', 'RSTRIP', '', 'RLB'),
        ('TM', 'TRIM', '', 'RLB'),
    ]),
    (1, None, [
        ('||', 'STRIP', None, 'RLB'),
        ('|>', 'LSTRIP', None, 'RLB'),
        ('<|', 'RSTRIP', None, 'RLB'),
        ('TM', 'TRIM', None, 'RLB'),
        ('LC', 'LOWERCASE', None, 'RLB'),
        ('UC', 'UPPERCASE', None, 'RLB'),
        ('SC', 'SWAPCASE', None, 'RLB'),
        ('TC', 'TITLECASE', None, 'RLB'),
        ('IC', 'INITIALCAPS', None, 'RLB'),
    ]),
    (2, 'L', [
        (',', 'RANGE', None, 'RLGB'),
        ('\\,', 'INCLRANGE', None, 'RLGB'),
        ('RR', 'RANDRANGE', 0, 'RLGB'),
        ('TB', 'TOBASE', 0, 'RLGB'),
    ]),
    (1, None, [
        (',', 'RANGETO', None, 'RLGB'),
        ('\\,', 'INCLRANGETO', None, 'RLGB'),
        ('RR', 'RANDRANGETO', None, 'RLGB'),
        ('TB', 'TOBASE', None, 'RLGB'),
    ]),
    (2, 'L', [
        ('BA', 'BITWISEAND', -1, 'RLGB'),
        ('BO', 'BITWISEOR', 0, 'RLGB'),
        ('BX', 'BITWISEXOR', 0, 'RLGB'),
        ('AT', 'ARCTAN', None, 'RLGB'),
        ('CM', 'NUMCMP', 0, 'RB'),
        ('|<', 'FLOOR', 0, 'RLGB'),
        ('>|', 'CEIL', 0, 'RLGB'),
        ('RZ', 'ROUNDZERO', 0, 'RLGB'),
        ('RN', 'ROUNDNEAREST', 0, 'RLGB'),
    ]),
    (1, None, [
        ('BN', 'BITWISENOT', None, 'RLGB'),
        ('SI', 'SINE', None, 'RLGB'),
        ('CO', 'COSINE', None, 'RLGB'),
        ('TA', 'TANGENT', None, 'RLGB'),
        ('SE', 'SECANT', None, 'RLGB'),
        ('CS', 'COSEC', None, 'RLGB'),
        ('CT', 'COTAN', None, 'RLGB'),
        ('AT', 'ARCTAN', None, 'RLGB'),
        ('RD', 'RADIANS', None, 'RLGB'),
        ('DG', 'DEGREES', None, 'RLGB'),
        ('BL', 'BITLENGTH', None, 'RLGB'),
        ('|<', 'FLOOR', None, 'RLGB'),
        ('>|', 'CEIL', None, 'RLGB'),
        ('RZ', 'ROUNDZERO', None, 'RLGB'),
        ('RN', 'ROUNDNEAREST', None, 'RLGB'),
    ]),
    (2, 'L', [
        ('+', 'ADD', 0, 'RLB'),
        ('-', 'SUB', 0, 'RLB'),
        ('AD', 'ABSOLUTEDIFF', 0, 'RLGB'),
    ]),
    (2, 'L', [
        ('*', 'MUL', 1, 'RLGB'),
        ('/', 'DIV', 1, 'RLGB'),
        ('%', 'MOD', 0, 'RLGB'),
        ('//', 'INTDIV', 1, 'RLGB'),
    ]),
    (1, None, [
        ('+', 'POS', None, 'RLB'),
        ('-', 'NEG', None, 'RLGB'),
        ('/', 'INVERT', None, 'RLGB'),
        ('%', 'MOD', None, 'RLGB'),
        ('HV', 'HALVE', None, 'RLGB'),
        ('HU', 'HALVEUP', None, 'RLGB'),
        ('DB', 'DOUBLE', None, 'RLGB'),
        ('SQ', 'SQUARE', None, 'RLGB'),
        ('**', 'POW', None, 'RLGB'),
        ('E', 'POW', None, 'RLGB'),
        ('EE', 'POWEROFTEN', None, 'RLGB'),
        ('RT', 'SQRT', None, 'RLGB'),
        ('EX', 'EXPONENTIAL', None, 'RLGB'),
        ('LN', 'NATURALLOG', None, 'RLGB'),
        ('LB', 'BINARYLOG', None, 'RLGB'),
        ('LD', 'DECIMALLOG', None, 'RLGB'),
    ]),
    (2, 'R', [
        ('**', 'POW', 1, 'RLGB'),
        ('E', 'POW', 1, 'RLGB'),
        ('EE', 'POWEROFTEN', 1, 'RLGB'),
        ('RT', 'ROOT', 1, 'RLGB'),
    ]),
    (2, 'L', [
        ('FB', 'FROMBASE', 0, 'RLGB'),
    ]),
    (1, None, [
        ('U', 'INC', None, 'VB'),
        ('D', 'DEC', None, 'VB'),
        ('#', 'LEN', None, 'RB'),
        ('A', 'ASC', None, 'RLGB'),
        ('C', 'CHR', None, 'RLGB'),
        ('AB', 'ABS', None, 'RLGB'),
        ('SG', 'SIGN', None, 'RLGB'),
        ('FB', 'FROMBASE', None, 'RLGB'),
    ]),
    (2, 'L', [
        ('@', 'AT', None, 'VB'),
        ('@<', 'LEFTOF', None, 'VB'),
        ('@>', 'RIGHTOF', None, 'VB'),
    ]),
    (1, None, [
        ('@', 'AT', None, 'VB'),
        ('@<', 'LEFTOF', None, 'VB'),
        ('@>', 'RIGHTOF', None, 'VB'),
        ('++', 'INC', None, 'VB'),
        ('--', 'DEC', None, 'VB'),
    ]),
]

COMMANDS = {
    'F': ('LOOPVAR', 'EXPR', 'CODE'),
    'I': ('EXPR', 'CODE', 'ELSE'),
    'L': ('EXPR', 'CODE'),
    'LR': ('EXPR', 'EXPR', 'CODE'),
    'T': ('EXPR', 'CODE'),
    'W': ('EXPR', 'CODE'),
    'WG': (),
}
