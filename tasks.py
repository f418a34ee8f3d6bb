"""What each check explores: harness functions, their configurations, the labels that have to be
reached, and the bounds in words."""

KW = 61  # spellings in the harness's keyword table


def T(entry, *cfg, need=(2,), what=""):
    return dict(entry=entry, cfg=list(cfg), need=list(need), what=what)


def any_text(p, n, need=(2,)):
    return T("h_lex_any", p, n, need=need, what=f"every UTF-8 text of {n} bytes")


def upto(p, n):
    return [any_text(p, k, need=() if k == 0 else (2,)) for k in range(n + 1)]


def keywords(p, before, after):
    return T("h_lex_keyword", p, before, after, 0, 0, KW,
             what=f"every keyword with {before} free ASCII characters before and {after} after it")


def misspelled(p, insert, after):
    return T("h_lex_misspelled", p, insert, after, 0, 0, KW,
             what="every keyword with " + ("a free ASCII character inserted" if insert else "any one character replaced by a free ASCII character")
             + " at any place" + (" and a free character after it" if after else ""))


def two_keywords(p):
    return T("h_lex_two_keywords", p, 0, 0, 0, 0, KW, what="every pair of keywords with a free ASCII character between them")


def string(p, n, after, before=1):
    return T("h_lex_string", p, n, after, before,
             what=f'a quote, {n} characters out of " : a blank, line feed, é' + (f", a quote and {after} more characters" if after else "") + (", after one other character" if before else ""))


def string_words(p):
    return T("h_lex_string_words", p, 0, 0, 0, 0, KW, what="every keyword or comment marker inside of a string, with string characters around it")


def comment(p, multi, n, after=0):
    need = (16,) if after else ()
    return T("h_lex_comment", p, multi, n, after, 1, need=need,
             what=("OBTW" if multi else "BTW") + f" and {n} characters out of quote, line feed, blank, letters of the markers, é, …" + (f", TLDR and {after - 1} more characters" if after else ""))


def comments(p):
    return T("h_lex_comments", p, need=(2, 15, 16), what="two comment markers (or …) with free characters around them")


def number(p, n, dots):
    return T("h_lex_number", p, n, dots, 1, what=f"{n} characters out of " + ("+ - . 1 5 blank x" if dots else "+ - digits blank x") + " after one other character")


def integer(p, free, fixed=0):
    return T("h_lex_integer", p, free, fixed, need=(2, 21),
             what=f"every integer of {free + fixed} digits" + (f" that starts with {'2147483647'[:fixed]}" if fixed else "") + ", signed or not, at the end of the text or before any ASCII character")


def flt(p, a, b):
    return T("h_lex_float", p, a, b, need=(2, 22), what=f"floats with {a} and {b} digits out of 0 3 7 9 around the dot, signed or not, with something after them")


LONG = ["identifier", "string", "BTW comment", "OBTW comment", "run of blanks", "run of symbols"]


def long(p, kind, n):
    return T("h_lex_long", p, kind, n, what=f"a {LONG[kind]} of {n} characters with any ASCII character at any one place")


def sequence(p, n):
    return T("h_lex_sequence", p, n, what=f"{n} tokens out of a menu of 18 (one of each kind) with up to two blanks of any kind, or nothing, between them")


def lexer(p, depth):
    """all families; depth 0 = quick, 1 = thorough"""
    if depth == 0:
        return upto(p, 4) + [keywords(p, 1, 1), misspelled(p, 0, 0), misspelled(p, 1, 0), string(p, 3, 1), comment(p, 0, 3), comment(p, 1, 3, 2),
                             comments(p), number(p, 3, 0), number(p, 4, 1), integer(p, 5), flt(p, 1, 1)] + [long(p, k, 12) for k in range(6)] + [sequence(p, 2)]
    return upto(p, 5) + [keywords(p, 1, 2), keywords(p, 2, 1), misspelled(p, 0, 1), misspelled(p, 1, 1), two_keywords(p), string(p, 4, 2), string_words(p),
                         comment(p, 0, 6), comment(p, 1, 5, 3), comment(p, 1, 6), comments(p), number(p, 5, 0), number(p, 6, 1), integer(p, 9), integer(p, 10),
                         flt(p, 2, 3)] + [long(p, k, 40) for k in range(6)] + [sequence(p, 3)]


def numbers(p, depth):
    r = [number(p, 4, 0), number(p, 5, 1), integer(p, 9), integer(p, 4, 6), flt(p, 0, 2), flt(p, 1, 1), flt(p, 2, 0), flt(p, 2, 2), flt(p, 1, 3)]
    r += [integer(p, k) for k in range(1, 9)]
    if depth:
        r += [number(p, 5, 0), number(p, 7, 1), integer(p, 10), flt(p, 3, 3), flt(p, 0, 4), flt(p, 4, 0), flt(p, 5, 1)]
    return r


LEX_ASSUME = [
    "texts are valid UTF-8 (the type guarantees it)",
    "integer literals beyond 32 bits, which the language leaves open, are excluded",
    "outside of the stated lengths nothing is claimed",
]

CHECKS = {
    "C01": dict(kind="lexer", need=(1, 2), quick=lexer(1, 0), thorough=lexer(1, 1), assume=LEX_ASSUME),
    "C02": dict(kind="lexer", need=(2, 23), quick=lexer(2, 0), thorough=lexer(2, 1), assume=LEX_ASSUME),
    "C03": dict(kind="lexer", need=(2, 3, 4), quick=lexer(3, 0), thorough=lexer(3, 1), assume=LEX_ASSUME),
    "C04": dict(kind="lexer", need=tuple([2] + list(range(10, 26))), quick=lexer(4, 0), thorough=lexer(4, 1), assume=LEX_ASSUME),
    "C05": dict(kind="lexer", need=(2, 17, 18, 19, 20),
                quick=upto(5, 4) + [keywords(5, 0, 1), keywords(5, 1, 1), keywords(5, 0, 2), misspelled(5, 0, 0), misspelled(5, 1, 0), two_keywords(5), sequence(5, 2)],
                thorough=upto(5, 5) + [keywords(5, 1, 2), keywords(5, 2, 1), keywords(5, 0, 3), misspelled(5, 0, 1), misspelled(5, 1, 1), two_keywords(5), sequence(5, 3)],
                assume=LEX_ASSUME),
    "C06": dict(kind="lexer", need=(2, 23),
                quick=upto(6, 4) + [string(6, 4, 1), string(6, 3, 2), string(6, 5, 0), string_words(6), long(6, 1, 20), sequence(6, 2), comments(6)],
                thorough=upto(6, 5) + [string(6, 6, 1, 0), string(6, 5, 2), string(6, 4, 3), string_words(6), long(6, 1, 60), sequence(6, 3), comments(6)],
                assume=LEX_ASSUME),
    "C07": dict(kind="lexer", need=(2, 21, 22), quick=upto(7, 4) + numbers(7, 0) + [sequence(7, 2)], thorough=upto(7, 5) + numbers(7, 1) + [sequence(7, 3)], assume=LEX_ASSUME),
    "C08": dict(kind="lexer", need=(2, 15, 16),
                quick=upto(8, 4) + [comment(8, 0, 4), comment(8, 1, 4, 2), comment(8, 1, 5), comments(8), string_words(8), long(8, 2, 20), long(8, 3, 20), sequence(8, 2)],
                thorough=upto(8, 5) + [comment(8, 0, 6), comment(8, 1, 6, 3), comment(8, 1, 7), comments(8), string_words(8), long(8, 2, 60), long(8, 3, 60), sequence(8, 3)],
                assume=LEX_ASSUME),
    "C09": dict(kind="lexer", need=(2,),
                quick=[T("h_lex_split", 9, a, b, what=f"every text of {a} bytes, a line feed and {b} bytes") for a, b in [(0, 2), (1, 1), (1, 2), (2, 1), (2, 2), (2, 0)]]
                + [T("h_lex_split_sequence", 9, 1, 1, what="menu tokens before and after the line feed")]
                + [T("h_lex_blank", 9, n, what=f"every text of {n} bytes with a blank inserted anywhere") for n in (2, 3)]
                + [T("h_lex_blank_sequence", 9, 2, what="two menu tokens with a blank inserted anywhere")],
                thorough=[T("h_lex_split", 9, a, b, what=f"every text of {a} bytes, a line feed and {b} bytes") for a, b in [(2, 2), (1, 3), (3, 1), (3, 2), (2, 3)]]
                + [T("h_lex_split_sequence", 9, 1, 1, what="menu tokens before and after the line feed"), T("h_lex_split_sequence", 9, 2, 1, what="two menu tokens before and one after the line feed")]
                + [T("h_lex_blank", 9, n, what=f"every text of {n} bytes with a blank inserted anywhere") for n in (3, 4)]
                + [T("h_lex_blank_sequence", 9, 3, what="three menu tokens with a blank inserted anywhere")],
                assume=LEX_ASSUME),
    "C23": dict(kind="lexer", need=(2, 3, 4, 5, 6),
                quick=[T("h_pos_pair", 23, n, need=(5,), what=f"all pairs of places in every text of {n} bytes") for n in range(6)]
                + [T("h_pos_advance", 23, n, what=f"any position (coordinates up to 65535) advanced by every text of {n} bytes, cut anywhere") for n in range(6)],
                thorough=[T("h_pos_pair", 23, n, need=(5,), what=f"all pairs of places in every text of {n} bytes") for n in range(9)]
                + [T("h_pos_advance", 23, n, what=f"any position (coordinates up to 65535) advanced by every text of {n} bytes, cut anywhere") for n in range(9)],
                assume=["texts are valid UTF-8 (the type guarantees it)", "coordinates stay within 32 bits"]),
}


# ---- parser -------------------------------------------------------------------------------

# mirrors of the tables in harness/src/par.rs, for the descriptions
MENUS = ["every kind of token", "every kind of token but comma, ellipsis and comments", "values, name parts, AN, MKAY and every operator", "values, name parts, AN, MKAY, NOT, SUM OF, ALL OF",
         "x AN MKAY NOT DIFF OF SMOOSH", "x SRS 'Z", "what follows in simple statements (15 kinds)", "parts of I HAS A (16 kinds)", "parts of VISIBLE (9 kinds)",
         "parts of assignments and slots (10 kinds)", "parts of I IZ (10 kinds)", "parts of loop headers (12 kinds)", "x SRS YR AN 7 'Z", "starts of simple statements (13 kinds)",
         "marks of blocks (15 kinds)", "x 7 , ... R SUM OF AN VISIBLE", "x 7 , ... BTW OBTW R VISIBLE", "marks of O RLY and x", "marks of WTF, x and 7", "marks of loops and functions, x, 7, GTFO",
         "a few of everything (12 kinds)", "starts of every statement (25 kinds)", "what can follow in any statement (18 kinds)", "x 7 R"]
PARTS = ["", "O RLY? / MEBBE", "WTF? / OMG", "O RLY", "WTF", "O RLY? / YA RLY", "O RLY? / NO WAI", "WTF? / OMGWTF", "IM IN YR x", "HOW IZ I x", "I HAS A x ITZ", "x R", "VISIBLE", "I IZ x YR",
         "FOUND YR", "x HAS A y ITZ", "I HAS A", "I IZ", "GIMMEH", "/ x / OIC / y", "/ IM OUTTA YR x / y", "/ x / IF U SAY SO / y", "/ y", "/ YA RLY / x / OIC / y", "/ OMG 7 / x / OIC / y",
         "IM IN YR x TIL", "IM IN YR x UPPIN YR", "SUM OF", "SMOOSH x AN", "IM IN YR x / y / IM OUTTA YR", "HOW IZ I x / y / IF U SAY SO", "x"]
LINES = ["marks of every block and x", "marks of O RLY and x", "marks of WTF and x", "loops, functions, x, GTFO", "marks of every block, x and malformed lines",
         "marks of O RLY, IM IN YR, HOW IZ I, x and malformed lines", "marks of every block, malformed headers", "O RLY?, YA RLY, OIC, IM IN YR, IM OUTTA YR, x"]
GAPS = {16: "comma for line break (also repeated, leading, trailing, with empty lines)", 17: "ellipsis and line break put in (also repeated, with empty lines, around commas)",
        18: "comments put in (of both kinds, anywhere)"}


def par(p, n, menu, first=None, breaks=0, before=0, after=0, valid=0):
    what = " ".join(x for x in [PARTS[before], f"{n} tokens out of " + (f"(first) {MENUS[first]}, (others) " if first is not None else "") + MENUS[menu], PARTS[after]] if x)
    if breaks:
        what += ", with a line break or none before any"
    if valid:
        what += ", those that are well formed"
    return T("h_par", p, before, 0 if first is None else first + 1, menu, n, breaks, after, 0, 0, valid, what=what)


def par_lines(p, menu, n, valid=0, before=0, after=0):
    return T("h_par_lines", p, menu, n, before, 0, 0, after, 0, 0, valid, what=f"{n} lines out of {LINES[menu]}" + (", those that are well formed" if valid else ""))


def follow(k):
    return "followed by one of 8 programs" if k == 0 else f"followed by {k - 1} tokens (starts and parts of every statement) with or without line breaks"


def sequence_of(p, n, menu, first=None, breaks=0, before=0, after=0, then=0):
    what = " ".join(x for x in [PARTS[before], f"{n} tokens out of " + (f"(first) {MENUS[first]}, (others) " if first is not None else "") + MENUS[menu], PARTS[after]] if x)
    return T("h_par_sequence", p, before, 0 if first is None else first + 1, menu, n, breaks, after, then, what=what + (", with a line break or none before any" if breaks else "") + ", " + follow(then))


def sequence_lines(p, menu, n, then=0):
    return T("h_par_sequence_lines", p, menu, n, 0, 0, 0, 0, then, what=f"{n} lines out of {LINES[menu]}, {follow(then)}")


def layout(p, n, menu, first=None, before=0, after=0, kinds=0, around=0):
    what = " ".join(x for x in [PARTS[before], f"{n} tokens out of " + (f"(first) {MENUS[first]}, (others) " if first is not None else "") + MENUS[menu], PARTS[after]] if x)
    return T("h_par_layout", p, before, 0 if first is None else first + 1, menu, n, kinds, after, around, what=what + "; " + GAPS[p] + (f", {kinds} ways of it" if kinds else "") + (", also around the program" if around else ""))


def layout_lines(p, menu, n, around=0):
    return T("h_par_layout_lines", p, menu, n, 0, 0, 0, 0, around, what=f"{n} lines out of {LINES[menu]}; " + GAPS[p] + (", also around the program" if around else ""))


def headers(p, n, valid=0):
    """each statement and block header with n free tokens"""
    if valid:
        # x and one token, I IZ and one token: never well formed
        return [t for k in range(1, n + 1) for i, t in enumerate(headers_of(p, k, 1)) if k > 1 or i not in (2, 3)]
    return headers_of(p, n, 0)


def headers_of(p, n, valid):
    return [par(p, n, 7, before=16, valid=valid), par(p, n, 8, before=12, valid=valid), par(p, n, 9, before=31, valid=valid), par(p, n, 10, before=17, valid=valid),
            par(p, n, 5, before=18, valid=valid), par(p, n, 3, before=14, valid=valid)]


def blocks(p, n, valid=0, loop=None):
    loop = loop or n
    return [par(p, loop, 11, before=8, after=20, valid=valid), par(p, n, 12, before=9, after=21, valid=valid), par(p, n, 3, before=1, after=19, valid=valid), par(p, n, 3, before=2, after=19, valid=valid),
            par(p, 1 if valid else 3, 1, before=3, after=23, valid=valid), par(p, 1 if valid else 3, 1, before=4, after=24, valid=valid),
            par(p, 3, 22, before=5, after=19, breaks=1, valid=valid), par(p, 3, 22, before=6, after=19, breaks=1, valid=valid), par(p, 3, 22, before=7, after=19, breaks=1, valid=valid),
            par(p, 2, 22, before=29, after=22, breaks=1, valid=valid), par(p, 2, 22, before=30, after=22, breaks=1, valid=valid)]


PAR_ASSUME = [
    "tokens come on non-decreasing lines",
    "identifiers, strings and symbols have one payload each: the parser looks at no payload but that of the symbol \"?\"",
    "outside of the stated lengths nothing is claimed",
]
OPERATORS = tuple(100 + t for t in range(50, 66))

CHECKS.update({
    "C10": dict(kind="parser", need=(2, 3, 4, 60),
                quick=[par(10, n, 0, breaks=1) for n in (0, 1, 2, 3)] + [par(10, 4, 22, 21), par(10, 6, 3), par(10, 4, 15, breaks=1), par(10, 4, 14, breaks=1)]
                + [par_lines(10, 4, 4), par_lines(10, 6, 4)] + headers(10, 5) + blocks(10, 4),
                thorough=[par(10, n, 0, breaks=1) for n in (0, 1, 2, 3)] + [par(10, 4, 1), par(10, 5, 22, 21), par(10, 7, 3), par(10, 5, 15, breaks=1), par(10, 5, 14, breaks=1), par(10, 4, 20, breaks=1)]
                + [par_lines(10, 4, 6), par_lines(10, 6, 6)] + headers(10, 7) + blocks(10, 6), assume=PAR_ASSUME),
    "C11": dict(kind="parser", need=(2, 3, 4) + OPERATORS,
                quick=[par(11, n, 2) for n in (1, 2, 3)] + [par(11, 4, 2, valid=1), par(11, 6, 3), par(11, 7, 4), par(11, 7, 5), par(11, 3, 2, before=10), par(11, 3, 2, before=11), par(11, 3, 2, before=14),
                       par(11, 3, 2, before=12, valid=1), par(11, 4, 3, before=27), par(11, 4, 3, before=28), par(11, 3, 3, before=13, valid=1), par(11, 3, 1)],
                thorough=[par(11, n, 2) for n in (1, 2, 3, 4)] + [par(11, 5, 2, valid=1), par(11, 8, 3), par(11, 10, 4), par(11, 10, 5), par(11, 4, 2, before=10), par(11, 4, 2, before=11), par(11, 4, 2, before=14),
                          par(11, 4, 2, before=12, valid=1), par(11, 6, 3, before=27), par(11, 6, 3, before=28), par(11, 5, 3, before=13, valid=1), par(11, 4, 1)], assume=PAR_ASSUME),
    "C12": dict(kind="parser", need=(2, 3, 4, 20, 21),
                quick=[par(12, n, 2) for n in (1, 2, 3)] + [par(12, 6, 3), par(12, 7, 4), par(12, 7, 5), par(12, 3, 2, before=11), par(12, 5, 3, before=11), par(12, 5, 9, before=31), par(12, 4, 5, before=18), par(12, 5, 10, before=17),
                       par(12, 5, 8, before=12), par(12, 4, 15, breaks=1), par(12, 4, 3, before=15)],
                thorough=[par(12, n, 2) for n in (1, 2, 3, 4)] + [par(12, 8, 3), par(12, 9, 4), par(12, 9, 5), par(12, 4, 2, before=11), par(12, 7, 3, before=11), par(12, 7, 9, before=31), par(12, 7, 5, before=18), par(12, 7, 10, before=17),
                          par(12, 7, 8, before=12), par(12, 5, 15, breaks=1), par(12, 6, 3, before=15)], assume=PAR_ASSUME),
    "C13": dict(kind="parser", need=tuple([2, 4] + [100 + t for t in (2, 3, 5, 6, 7, 8, 11, 13, 14, 15, 16, 21, 22, 23, 40, 41, 42, 43, 44, 45)]),
                quick=[par(13, 1, 1, valid=1), par(13, 2, 1, valid=1), par(13, 3, 1, 13, valid=1), par(13, 5, 22, 13, valid=1)] + headers(13, 6, 1) + [par(13, 4, 20, breaks=1, valid=1), par(13, 4, 3, before=10, valid=1), par(13, 4, 3, before=15, valid=1)],
                thorough=[par(13, 1, 1, valid=1), par(13, 2, 1, valid=1), par(13, 4, 1, 13, valid=1), par(13, 7, 22, 13, valid=1)] + headers(13, 8, 1) + [par(13, 5, 20, breaks=1, valid=1), par(13, 6, 3, before=10, valid=1), par(13, 6, 3, before=15, valid=1)], assume=PAR_ASSUME),
    "C14": dict(kind="parser", need=tuple([2, 3, 4] + [100 + t for t in (1, 4, 9, 10, 12, 25, 26, 27, 28, 29, 30, 31, 32, 33)]),
                quick=[par_lines(14, 0, n, 1) for n in range(1, 8)] + [par_lines(14, 1, 8, 1), par_lines(14, 2, 8, 1), par_lines(14, 3, 8, 1), par_lines(14, 4, 4), par_lines(14, 5, 5)] + blocks(14, 5, 1, 7) + [par(14, 4, 14, breaks=1)],
                thorough=[par_lines(14, 0, n, 1) for n in (7, 8, 9)] + [par_lines(14, 1, 10, 1), par_lines(14, 2, 10, 1), par_lines(14, 3, 10, 1), par_lines(14, 4, 6), par_lines(14, 5, 7)] + blocks(14, 7, 1, 9) + [par(14, 5, 14, breaks=1)],
                assume=PAR_ASSUME),
    "C15": dict(kind="parser", need=(2, 3, 4),
                quick=[sequence_of(15, 1, 0), sequence_of(15, 2, 1, breaks=1), sequence_of(15, 3, 22, 21, breaks=1), sequence_of(15, 3, 16, breaks=1), sequence_of(15, 2, 22, 21, then=3), sequence_lines(15, 4, 4), sequence_lines(15, 6, 4), sequence_lines(15, 5, 3, 2)]
                + [sequence_of(15, 3, 11, before=8), sequence_of(15, 3, 11, before=8, after=20), sequence_of(15, 3, 12, before=9, after=21), sequence_of(15, 2, 3, before=1, after=19), sequence_of(15, 2, 3, before=2, after=19),
                   sequence_of(15, 2, 1, before=3, after=23), sequence_of(15, 2, 1, before=4, after=24), sequence_of(15, 2, 22, before=5, after=19), sequence_of(15, 2, 22, before=6, after=19), sequence_of(15, 2, 22, before=7, after=19)],
                thorough=[sequence_of(15, 3, 1, breaks=1), sequence_of(15, 4, 22, 21, breaks=1), sequence_of(15, 4, 16, breaks=1), sequence_of(15, 2, 22, 21, breaks=1, then=4), sequence_of(15, 3, 22, 21, then=3), sequence_lines(15, 4, 5), sequence_lines(15, 6, 5), sequence_lines(15, 5, 4, 3)]
                + [sequence_of(15, 5, 11, before=8), sequence_of(15, 6, 11, before=8, after=20), sequence_of(15, 6, 12, before=9, after=21), sequence_of(15, 4, 3, before=1, after=19), sequence_of(15, 4, 3, before=2, after=19),
                   sequence_of(15, 3, 1, before=3, after=23), sequence_of(15, 3, 1, before=4, after=24), sequence_of(15, 3, 22, before=5, after=19), sequence_of(15, 3, 22, before=6, after=19), sequence_of(15, 3, 22, before=7, after=19)],
                assume=PAR_ASSUME + ["the first program leaves no block open and does not end in an ellipsis"]),
    "C16": dict(kind="parser", need=(2, 3, 4),
                quick=[layout(16, 1, 21, around=1), layout(16, 2, 22, 21, around=1), layout(16, 3, 22, 21), layout(16, 4, 20, kinds=3), layout_lines(16, 4, 2, around=1), layout_lines(16, 0, 3), layout_lines(16, 7, 3),
                       layout(16, 2, 3, before=1, after=19), layout(16, 2, 11, before=8, after=20), layout(16, 1, 12, before=9, after=21), layout(16, 1, 22, before=3, after=23), layout(16, 1, 22, before=4, after=24)],
                thorough=[layout(16, 3, 22, 21, around=1), layout(16, 4, 22, 21), layout(16, 5, 20, kinds=3), layout_lines(16, 4, 3, around=1), layout_lines(16, 0, 4), layout_lines(16, 7, 5),
                          layout(16, 3, 3, before=1, after=19), layout(16, 3, 11, before=8, after=20), layout(16, 2, 12, before=9, after=21), layout(16, 2, 22, before=3, after=23), layout(16, 2, 22, before=4, after=24)],
                assume=PAR_ASSUME),
    "C17": dict(kind="parser", need=(2, 3, 4),
                quick=[layout(17, 2, 1), layout(17, 3, 22, 21), layout(17, 4, 20, kinds=6), layout(17, 6, 23, kinds=3), layout(17, 5, 3, kinds=3), layout_lines(17, 4, 3), layout_lines(17, 7, 4),
                       layout(17, 2, 3, before=1, after=19), layout(17, 2, 11, before=8, after=20), layout(17, 2, 12, before=9, after=21), layout(17, 1, 22, before=3, after=23), layout(17, 1, 22, before=4, after=24)],
                thorough=[layout(17, 3, 1), layout(17, 4, 22, 21), layout(17, 5, 20, kinds=6), layout(17, 8, 23, kinds=3), layout(17, 7, 3, kinds=3), layout_lines(17, 4, 4), layout_lines(17, 7, 5),
                          layout(17, 3, 3, before=1, after=19), layout(17, 4, 11, before=8, after=20), layout(17, 3, 12, before=9, after=21), layout(17, 2, 22, before=3, after=23), layout(17, 2, 22, before=4, after=24)],
                assume=PAR_ASSUME),
    "C18": dict(kind="parser", need=(2, 3, 4),
                quick=[layout(18, 1, 21, around=1), layout(18, 2, 22, 21, around=1), layout(18, 3, 22, 21), layout(18, 4, 20, kinds=4), layout_lines(18, 4, 2, around=1), layout_lines(18, 0, 3),
                       layout(18, 2, 3, before=1, after=19), layout(18, 2, 11, before=8, after=20), layout(18, 1, 12, before=9, after=21), layout(18, 1, 22, before=3, after=23), layout(18, 1, 22, before=4, after=24)],
                thorough=[layout(18, 3, 22, 21, around=1), layout(18, 4, 22, 21), layout(18, 5, 20, kinds=4), layout_lines(18, 4, 3, around=1), layout_lines(18, 0, 4),
                          layout(18, 3, 3, before=1, after=19), layout(18, 3, 11, before=8, after=20), layout(18, 2, 12, before=9, after=21), layout(18, 2, 22, before=3, after=23), layout(18, 2, 22, before=4, after=24)],
                assume=PAR_ASSUME),
    "C19": dict(kind="parser", need=tuple([2, 3, 4] + [100 + t for t in range(101, 127) if t not in (123, 125)]),
                quick=[par(19, n, 1, breaks=1) for n in (1, 2, 3)] + [par(19, 5, 22, 21), par(19, 5, 3), par(19, 4, 14, breaks=1), par_lines(19, 4, 4), par_lines(19, 6, 4)] + headers(19, 5) + blocks(19, 4),
                thorough=[par(19, n, 1, breaks=1) for n in (1, 2, 3)] + [par(19, 4, 1), par(19, 6, 22, 21), par(19, 7, 3), par(19, 5, 14, breaks=1), par_lines(19, 4, 6), par_lines(19, 6, 6)] + headers(19, 7) + blocks(19, 6),
                assume=PAR_ASSUME),
    "C20": dict(kind="parser", need=(2, 22, 23, 60),
                quick=[par_lines(20, 4, n) for n in (1, 2, 3, 4, 5)] + [par_lines(20, 6, 4), par_lines(20, 5, 6), par(20, 3, 1, breaks=1), par(20, 4, 14, breaks=1)],
                thorough=[par_lines(20, 4, n) for n in (5, 6)] + [par_lines(20, 6, 6), par_lines(20, 5, 8), par(20, 3, 1, breaks=1), par(20, 5, 14, breaks=1)], assume=PAR_ASSUME),
    "C21": dict(kind="parser", need=(2, 3, 4, 5),
                quick=[T("h_par_text", 21, n, what=f"every UTF-8 text of {n} bytes") for n in range(5)] + [T("h_par_hole", 21, k, n, what=f"a program text (number {k} of 8) with any {n} bytes in its hole") for k in range(8) for n in (0, 2, 3)]
                + [T("h_par_written", 21, 0, 32, 2, 8, what="two words out of 32, separated in 8 ways"), T("h_par_written", 21, 0, 8, 3, 5, what="three words out of 8, separated in 5 ways")],
                thorough=[T("h_par_text", 21, n, what=f"every UTF-8 text of {n} bytes") for n in range(6)] + [T("h_par_hole", 21, k, n, what=f"a program text (number {k} of 8) with any {n} bytes in its hole") for k in range(8) for n in (3, 4)]
                + [T("h_par_written", 21, 0, 32, 3, 4, what="three words out of 32, separated in 4 ways"), T("h_par_written", 21, 0, 16, 3, 8, what="three words out of 16, separated in 8 ways")],
                assume=["texts are valid UTF-8 (the type guarantees it)", "outside of the stated lengths nothing is claimed"]),
    "C22": dict(kind="parser", need=(2,),
                quick=[par(22, n, 0, breaks=1) for n in (0, 1, 2)] + [par(22, 3, 1, breaks=1), par(22, 4, 22, 21), par(22, 6, 3), par(22, 4, 15, breaks=1), par(22, 4, 14, breaks=1), par_lines(22, 4, 4), par_lines(22, 6, 4)] + headers(22, 5) + blocks(22, 4),
                thorough=[par(22, 3, 0, breaks=1), par(22, 4, 1), par(22, 5, 22, 21), par(22, 7, 3), par(22, 5, 15, breaks=1), par(22, 5, 14, breaks=1), par_lines(22, 4, 6), par_lines(22, 6, 6)] + headers(22, 7) + blocks(22, 6), assume=PAR_ASSUME),
})
