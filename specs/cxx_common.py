"""Strings built from options, compared by their words; contracts of C and C++ builds."""
import string
from .common import *
from pyv.interp import cat_parts, cat_of
from pyv.vals import lit_text

basename = strfun("os.path.basename/1", StrS, StrS)
expanduser = strfun("os.path.expanduser/1", StrS, StrS)
lastpart = z3.Function("after_the_last_dot", StrS, StrS)
J = z3.Int("wd_j")


def is_join(z):
    return z3.is_app(z) and z.decl().name() == "str_join"


def words(z):
    """The blank separated words of a term: lists of pieces (a text, a term, or a joined list)."""
    ws, cur = [], []

    def end():
        if cur:
            ws.append(list(cur))
            cur.clear()
    for p in cat_parts(z3.simplify(z)):
        t = lit_text(p)
        if t is None:
            cur.append(p)
            continue
        pieces = re.split(r"([ \t\n]+)", t)
        for q in pieces:
            if q and q.isspace():
                end()
            elif q:
                cur.append(q)
    end()
    return ws


import re


def piece(p):
    return lit(p) if isinstance(p, str) else p


def words_are(eng, z, expected):
    """Formulas that say: the words of z are the expected ones, each exactly once (lists in their order).
    expected: ("word", [pieces], optional) or ("each", prefix, len, elem) with elem(j) the j-th entry."""
    out = []
    z = z3.simplify(z)
    left = list(expected)

    def cases(z):
        # alternatives become cases
        if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE:
            return [(And(z.arg(0), g), t) for g, t in cases(z.arg(1))] + [(And(Not(z.arg(0)), g), t) for g, t in cases(z.arg(2))]
        return [(z3.BoolVal(True), z)]
    for guard, t in cases(z):
        left = list(expected)
        # joined lists whose entries carry their own blanks stand alone
        ws = []
        for w in words(t):
            cur = []
            for p in w:
                if not isinstance(p, str) and is_join(p):
                    own = own_blanks(eng, p)
                    if own:
                        if cur:
                            ws.append(cur)
                            cur = []
                        ws.append([p])
                        continue
                cur.append(p)
            if cur:
                ws.append(cur)
        for w in ws:
            if len(w) == 1 and not isinstance(w[0], str) and is_join(w[0]):
                n, arr = w[0].arg(1), w[0].arg(2)
                hit = None
                for e in left:
                    if e[0] != "each":
                        continue
                    for pre, post in (("", ""), (" ", ""), ("", " ")):
                        sepr = lit_text(w[0].arg(0))
                        if sepr is None or not (sepr.strip() == "" and (sepr or pre or post)):
                            continue
                        f = And(n == e[2], z3.ForAll([J], Implies(And(0 <= J, J < n), sel(arr, J) == cat_of([lit(pre + e[1]), *cat_parts(e[3](J)), lit(post)])), patterns=[sel(arr, J)]))
                        if eng.valid(Implies(guard, f)):
                            hit = e
                            break
                    if hit:
                        break
                if hit is None:
                    return [("list-of-options-as-expected", Not(guard), str(w)[:200])]
                left.remove(hit)
                continue
            term = cat_of([q for p in w for q in cat_parts(piece(p))])
            hit = None
            for e in left:
                if e[0] == "word":
                    if eng.valid(Implies(guard, term == cat_of([q for p in e[1] for q in cat_parts(piece(p))]))):
                        hit = e
                        break
            if hit is None:
                # an empty value is no word
                if eng.valid(Implies(guard, term == lit(""))):
                    continue
                return [("word-as-expected", Not(guard), str(w)[:200])]
            left.remove(hit)
        for e in left:
            if e[0] == "each":
                out.append(("no-entry-missing-" + e[1], Implies(guard, e[2] == 0)))
            elif len(e) > 2 and e[2]:
                continue
            else:
                out.append(("no-word-missing", Implies(guard, cat_of([q for p in e[1] for q in cat_parts(piece(p))]) == lit(""))))
    return out or [("as-expected", z3.BoolVal(True))]


def own_blanks(eng, p):
    """Do the entries of a joined list start or end with a blank of their own?"""
    sepr = lit_text(p.arg(0))
    return sepr == ""


def rule_words(rule):
    """The words of a command template: texts and {fields}; None if it is not plain."""
    out = []
    cur = ""
    for text, field, spec, conv in string.Formatter().parse(rule):
        for q in re.split(r"([ \t\n]+)", text):
            if q and q.isspace():
                if cur:
                    out.append(cur)
                cur = ""
            else:
                cur += q
        if field is not None:
            if spec or conv:
                return None
            cur += "{" + field + "}"
    if cur:
        out.append(cur)
    return out


def rule_is(rule, compiler, once, pairs, fixed=(), optional=()):
    """The template runs the compiler with each of these words exactly once and nothing else; a pair's second word follows its first."""
    w = rule_words(rule)
    if not w or w[0] != compiler:
        return "run by %s: %s" % (compiler, rule)
    w = w[1:]
    for a, b in pairs:
        k = [i for i, x in enumerate(w) if x == a]
        if len(k) != 1 or k[0] + 1 >= len(w) or w[k[0] + 1] != b:
            if a + b in w:
                w.remove(a + b)
                continue
            return "%s %s: %s" % (a, b, rule)
        del w[k[0]:k[0] + 2]
    for x in once:
        if w.count(x) != 1:
            return "%s once: %s" % (x, rule)
        w.remove(x)
    for x in fixed:
        if x not in w:
            return "%s: %s" % (x, rule)
        w.remove(x)
    w = [x for x in w if x not in optional]
    if w:
        return "nothing else: %s" % w
    return None
