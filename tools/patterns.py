"""C06: the regular expressions of check_name and check_dimable_name, read by vx from /repo's source,
denote exactly the documented names.  For each literal: the language `Regex::is_match` accepts is
translated to an SMT-LIB regular expression and its symmetric difference with the documented grammar
must be empty (z3; cvc5 when z3 gives no answer).  A model is a name on which the two differ; it is
handed to the native harness, which replays it against the public validate functions.
This discharges the contracts of vx_pattern_* that units/checknames.rs assumes.
"""
import json, os, re, subprocess, time
import re._parser as sre
import re._constants as C

W = '(re.union (re.range "a" "z") (re.range "A" "Z") (re.range "0" "9") (str.to_re "_"))'
F = '(re.union (re.range "a" "z") (re.range "A" "Z") (str.to_re "_"))'
WS = '(re.* %s)' % W
ID = '(re.++ %s %s)' % (F, WS)
S = '(str.to_re "%s")'
# the documented grammar: the same text as plain_name / dim_name in units/checknames.rs
SPEC = {
    'check_name': WS,
    'check_dimable_name': '(re.union %s (re.++ %s (str.to_re "[%%s]")) (re.++ %s %s %s) %s (re.++ %s %s))' % (ID, ID, ID, S, WS, S, S, ID),
}
ALL = '(re.* re.allchar)'


class Unsupported(Exception):
    pass


def ch(n):
    return '"\\u{%x}"' % n


def rng(a, b):
    b = min(b, 0x2FFFF)
    return '(re.range %s %s)' % (ch(a), ch(b)) if a <= b else 're.none'


def union(l):
    l = list(l)
    return 're.none' if not l else l[0] if len(l) == 1 else '(re.union %s)' % ' '.join(l)


def cat(l):
    l = list(l)
    return '(str.to_re "")' if not l else l[0] if len(l) == 1 else '(re.++ %s)' % ' '.join(l)


# \d \w \s of the regex crate are Unicode classes: ASCII plus the lower BMP as Python classifies it
def cls(pred):
    out, a = [], None
    for n in range(0x3000 + 1):
        if n < 0x3000 and pred(chr(n)):
            a = n if a is None else a
        elif a is not None:
            out.append(rng(a, n - 1))
            a = None
    return union(out)


def category(c):
    if c in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        r = cls(lambda x: x.isdecimal())
    elif c in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        r = cls(lambda x: x.isalnum() or x == '_')
    elif c in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        r = cls(lambda x: x.isspace())
    else:
        raise Unsupported(str(c))
    return r if 'NOT' not in str(c) else '(re.diff re.allchar %s)' % r


def tr(seq, ci):
    """a parsed sequence without anchors"""
    return cat(one(op, av, ci) for op, av in seq)


def lit(n, ci):
    if ci and chr(n).isalpha():
        return union('(str.to_re %s)' % ch(ord(x)) for x in sorted({chr(n).lower(), chr(n).upper()}) if len(x) == 1)
    return '(str.to_re %s)' % ch(n)


def one(op, av, ci):
    if op is C.LITERAL:
        return lit(av, ci)
    if op is C.NOT_LITERAL:
        return '(re.diff re.allchar %s)' % lit(av, ci)
    if op is C.ANY:
        return '(re.diff re.allchar (str.to_re "\\u{a}"))'
    if op is C.IN:
        neg, parts = False, []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                parts.append(lit(a, ci))
            elif o is C.RANGE:
                parts.append(rng(*a))
                if ci:
                    for x in range(a[0], min(a[1], 0x7f) + 1):
                        parts.append(lit(x, True))
            elif o is C.CATEGORY:
                parts.append(category(a))
            else:
                raise Unsupported(str(o))
        u = union(parts)
        return '(re.diff re.allchar %s)' % u if neg else u
    if op is C.BRANCH:
        return union(tr(b, ci) for b in av[1])
    if op is C.SUBPATTERN:
        if av[1] or av[2]:
            raise Unsupported('flags')
        return tr(av[3], ci)
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        r = tr(sub, ci)
        if hi is C.MAXREPEAT:
            return '(re.++ ((_ re.^ %d) %s) (re.* %s))' % (lo, r, r) if lo else '(re.* %s)' % r
        return '((_ re.loop %d %d) %s)' % (lo, hi, r)
    raise Unsupported(str(op))


BEGIN, END = (C.AT_BEGINNING, C.AT_BEGINNING_STRING), (C.AT_END, C.AT_END_STRING)


def lang(seq, pre, post, ci):
    """texts in which `seq` matches; pre / post: text may still precede / follow"""
    seq = list(seq)
    while seq and seq[0][0] is C.AT and seq[0][1] in BEGIN:
        seq, pre = seq[1:], False
    while seq and seq[-1][0] is C.AT and seq[-1][1] in END:
        seq, post = seq[:-1], False
    if len(seq) == 1:
        op, av = seq[0]
        if op is C.BRANCH:
            return union(lang(b, pre, post, ci) for b in av[1])
        if op is C.SUBPATTERN and not av[1] and not av[2]:
            return lang(av[3], pre, post, ci)
    if not seq and not pre and not post:
        return '(str.to_re "")'
    return cat(([ALL] if pre else []) + [tr(seq, ci)] + ([ALL] if post else []))


def translate(pattern):
    p = sre.parse(pattern)  # \A \z ^ $ groups classes repetitions: the shared subset of both dialects
    if p.state.flags & ~(re.UNICODE | re.IGNORECASE):
        raise Unsupported('flags')
    if re.search(r'\[[^\]]*(\[|&&|--|~~)', pattern.replace('\\[', '')) or '\\p' in pattern:
        raise Unsupported('class syntax of the regex crate')
    return lang(p, True, True, bool(p.state.flags & re.IGNORECASE))


def solve(text, f):
    open(f, 'w').write(text)
    for cmd in (['z3-new', '-T:60', f], ['cvc5', '--strings-exp', '--tlimit=60000', '--produce-models', f]):
        try:
            out = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90).stdout.decode()
        except Exception:
            continue
        if out.startswith('unsat'):
            return 'unsat', cmd[0], None
        if out.startswith('sat'):
            m = re.search(r'"((?:[^"]|"")*)"\)\)', out)
            if m:
                s = m.group(1).replace('""', '"')
                s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda k: chr(int(k.group(1), 16)), s)
                return 'sat', cmd[0], s
            return 'sat', cmd[0], None
    return 'unknown', '', None


def run(REPO, B, tier, seed):
    t0 = time.time()
    r = dict(name='patterns (SMT)', status='proved', obligations=0, discharged=0, failed=[], inputs=[], why='', ms=0,
             trusted=['tools/patterns.py: reading a regular expression as Regex::is_match does (alphabet U+0000..U+2FFFF)', 'z3, cvc5 (strings)'],
             proved=[])
    info = os.path.join(B, 'gen/checknames/checknames.json')
    try:
        fns = json.load(open(info))
    except Exception:
        fns = []
    pats = {f['path']: f['pattern'] for f in fns if 'pattern' in f}
    names = []
    for fn, spec in SPEC.items():
        r['obligations'] += 2
        if fn not in pats:
            r['status'], r['why'] = 'undecided', r['why'] + '%s: no regular expression extracted; ' % fn
            continue
        try:
            l = translate(pats[fn])
        except (Unsupported, sre.error if hasattr(sre, 'error') else re.error, re.error) as e:
            r['status'], r['why'] = 'undecided', r['why'] + '%s: %r not translated: %s; ' % (fn, pats[fn], e)
            continue
        for what, a, b in (('accepts only documented names', l, spec), ('accepts every documented name', spec, l)):
            q = '(set-logic QF_S)\n(set-option :produce-models true)\n(declare-const s String)\n(assert (str.in_re s %s))\n(assert (not (str.in_re s %s)))\n(check-sat)\n(get-value (s))\n' % (a, b)
            res, who, model = solve(q, os.path.join(B, 'gen/checknames/%s_%s.smt2' % (fn, 'only' if a == l else 'all')))
            if res == 'unsat':
                r['discharged'] += 1
                r['proved'].append('%s %s (%s)' % (fn, what, who))
            elif res == 'sat':
                r['status'] = 'failed'
                r['failed'].append(dict(function='svd-rs/src/lib.rs ' + fn, obligation='the regular expression ' + what,
                                        verifier='%r: %s answers sat with the name %r' % (pats[fn], who, model)))
                if model is not None:
                    names.append(model)
            else:
                if r['status'] == 'proved':
                    r['status'] = 'undecided'
                r['why'] += '%s %s: no answer; ' % (fn, what)
    if names:
        exe = os.path.join(B, 'svdh/debug/svdh')
        o = os.path.join(B, 'run/C06_names.json')
        try:
            subprocess.run([exe, 'C06', '--secs', '1', '--out', o], env=dict(os.environ, SVDH_NAMES=json.dumps(names)), timeout=60)
            r['inputs'] = json.load(open(o))['failures'][:5]
        except Exception as e:
            r['why'] += 'replay: %s' % e
    r['ms'] = int((time.time() - t0) * 1000)
    return r


if __name__ == '__main__':
    import sys
    print(json.dumps(run('/repo', sys.argv[1] if len(sys.argv) > 1 else '/verif/.build', 'quick', 1), indent=1))
