#!/usr/bin/env python3
"""Mechanical extraction of function text from /repo/src into Verus files.

Nothing is re-typed: every exec function body that is verified is copied from the
working tree of /repo on each run.  The only transformations are the ones of DROPS
(removals) and REWRITES (token-level desugarings) below.  A template (tpl/*.rs) holds
the environment (stub types, spec functions, lemmas) and directives:

  //@fn FILE | [CONTAINER |] NAME [| key=value ...]     extract a function
  //@ret NAME            name of the returned value in the contract
  //@contract            following lines: requires/ensures/decreases
  //@loop N              following lines: invariant/decreases of the N-th loop (source order)
  //@ghost POS           following lines: ghost code; POS = entry | exit | loopN.{before,begin,end,after}
                         | letNAME#k.after (after the k-th `let NAME`/`let (NAME..` statement)
                         | NAME#k.before / NAME#k.after (statement holding the k-th call of NAME)
  //@closure N HEAD      the N-th closure (source order) gets the parameter list and contract HEAD
  //@nclosures N          number of closures the contract was written for (default: last annotated + 1)
  //@endfn
  //@consts FILE | CONTAINER [| macro=..] [| external]  associated constants as written
  //@constexpr FILE | CONTAINER | NAME                  initialiser of one of them (for an axiom)
  //@item FILE | KIND NAME                              extract a struct/enum/const
"""
import re, sys, os, json

DROPS = [
    "attributes (#[inline], #[cfg..], derive, doc), comments, visibility, `const` of const fn",
    "`use` statements inside bodies",
    "statements/blocks guarded by #[cfg(feature = \"debug\")] / log::..! tracing calls (no effect on results)",
]
REWRITES = [
    "trace_input(CTX, |P| BODY)(ARG) in tail position, or with a BODY free of `return` and `?` -> { let P = ARG; BODY } (trace_input is the identity on its closure without feature `debug`)",
    "wrap_ber_parser(F)(ARG) -> wrap_ber_parser(F, ARG), whose body is that of the returned closure",
    "for P in E.iter() / E.iter_elements() / E.iter().copied() / &E { B } -> index-based while loop over the same slice, P bound first in the body",
    "closure parameter `_` -> fresh name; a closure may be given parameter types and a contract, its parameter pattern is then bound first in its body",
    "match / if let with slice patterns -> the same tests on length and elements, in the same order, with the same bindings",
    "Err::Error, Some, Ok as function values -> functions with that constructor as their body",
    "for X in A..=B -> while loop",
    "nested fn without recursion -> closure bound at the start of the body",
    "for P in I { B } for another iterator I -> let mut it = I; loop { match it.next() { None => break, Some(P) => B } } (the language's definition)",
    "I.collect() / Result::from_iter(I.map(F)) into a Result of a Vec -> loop over I.next() pushing each Ok value, stopping at the first Err (documented behaviour of FromIterator for Result)",
    "body X.iter().flat_map(|p| { S; (A..B).map(move |i| E) }) -> nested loops pushing the items to a Vec, which is returned (the lazy iterator taken eagerly; the closures have no effects)",
    "R.iter().map(|p| E).collect() into a Vec, E without control flow -> index-based loop over the same slice pushing E",
    "write!(W, FMT, ..) / format!(FMT, ..) whose FMT has only {} and {:0N} -> the literal characters and arguments appended in order to a buffer (contracts of {}, {:0N} trusted), then written",
    "f64/f32 -> structs F64/F32 whose operators and methods have trusted contracts (IEEE 754 exactness); integral float literals, `as f64`/`as f32`, A *= B -> A = A * (B)",
    "macro_rules arms: metavariables substituted by the instance arguments",
]


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- lexer
TOK = re.compile(
    r"""(?P<ws>\s+)|(?P<lc>//[^\n]*)|(?P<bc>/\*)|(?P<raw>b?r(?P<h>\#*)")|(?P<str>b?"(?:\\.|[^"\\])*")
      |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')|(?P<lt>'[A-Za-z_]\w*)
      |(?P<num>\d[\w]*(?:\.\d[\w]*)?)|(?P<id>[A-Za-z_]\w*)
      |(?P<op><<=|>>=|\.\.=|\.\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|.)""",
    re.X | re.S,
)


def lex(s):
    """list of (kind, text, line)"""
    out = []
    i, line = 0, 1
    while i < len(s):
        m = TOK.match(s, i)
        k = m.lastgroup
        if k == "h":
            k = "raw"
        t = m.group(0)
        if k == "raw":
            end = s.find('"' + m.group("h"), m.end())
            t = s[i : end + 1 + len(m.group("h"))]
            k = "str"
        elif k == "bc":
            d, j = 1, i + 2
            while d:
                a, b = s.find("/*", j), s.find("*/", j)
                if a != -1 and a < b:
                    d, j = d + 1, a + 2
                else:
                    d, j = d - 1, b + 2
            t = s[i:j]
            k = "lc"
        out.append((k, t, line))
        line += t.count("\n")
        i += len(t)
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = set(")]}")


def skip_ws(t, i):
    while i < len(t) and t[i][0] in ("ws", "lc"):
        i += 1
    return i


def match(t, i):
    """index of the closing delimiter of t[i]"""
    d = 0
    for j in range(i, len(t)):
        x = t[j][1] if t[j][0] == "op" else ""
        if x in OPEN:
            d += 1
        elif x in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise Undecided("unbalanced")


def text(t):
    return "".join(x[1] for x in t)


def norm(s):
    return re.sub(r"\s+", "", re.sub(r"//[^\n]*", "", s))


# ---------------------------------------------------------------- item scanner
class Fn:
    def __init__(self, cont, name, sig, body, line):
        self.cont, self.name, self.sig, self.body, self.line = cont, name, sig, body, line


def scan(t, cont, out):
    """collect functions (recursively through impl/trait/mod/const _ blocks)"""
    i = 0
    n = len(t)
    while i < n:
        i = skip_ws(t, i)
        if i >= n:
            break
        k, x, ln = t[i]
        if x == "#":
            j = skip_ws(t, i + 1)
            if t[j][1] == "!":
                j = skip_ws(t, j + 1)
            end = match(t, j)
            attr = norm(text(t[j : end + 1]))
            i = end + 1
            if attr.startswith("[cfg(") and "test" in attr and "not(test)" not in attr:
                # skip the following item
                depth_i = skip_ws(t, i)
                while t[depth_i][1] not in ("{", ";"):
                    if t[depth_i][1] in OPEN:
                        depth_i = match(t, depth_i)
                    depth_i += 1
                i = (match(t, depth_i) if t[depth_i][1] == "{" else depth_i) + 1
            continue
        if x in ("impl", "trait", "mod", "unsafe", "pub", "extern", "const", "fn", "static", "type", "use", "struct", "enum", "macro_rules", "async", "default", "union"):
            # find fn / block
            j = i
            isfn = None
            head_kw = x
            while j < n:
                y = t[j][1]
                if t[j][0] in ("ws", "lc"):
                    j += 1
                    continue
                if y == "fn" and isfn is None and head_kw not in ("impl", "trait", "type", "use"):
                    isfn = j
                if y in ("impl", "trait", "mod", "struct", "enum", "macro_rules", "use", "type", "static") and head_kw in ("pub", "unsafe", "const"):
                    if isfn is None:
                        head_kw = y
                if y == "{" and x == "type":
                    j = match(t, j)  # const argument
                elif y == "{" or y == ";":
                    break
                if y in "([" and t[j][0] == "op":
                    j = match(t, j)
                j += 1
            if j >= n:
                break
            if t[j][1] == ";":
                if isfn is not None:
                    nm = t[skip_ws(t, isfn + 1)][1]
                    out.append(Fn(cont, nm, t[isfn:j], None, t[isfn][2]))
                elif norm(text(t[i:j])).lstrip("pub").startswith("const") and cont:
                    q = i
                    while t[q][1] != "const":
                        q += 1
                    out.append(Fn(cont, "const:" + t[skip_ws(t, q + 1)][1], t[q:j], None, t[q][2]))
                elif x == "type" and cont:
                    out.append(Fn(cont, "type:" + t[skip_ws(t, i + 1)][1], t[i:j], None, t[i][2]))
                i = j + 1
                continue
            e = match(t, j)
            if isfn is not None:
                nm = t[skip_ws(t, isfn + 1)][1]
                out.append(Fn(cont, nm, t[isfn:j], t[j : e + 1], t[isfn][2]))
            elif head_kw == "macro_rules":
                nm = t[skip_ws(t, skip_ws(t, i + 1) + 1)][1]
                out.append(Fn(cont, "macro:" + nm, t[i:j], t[j : e + 1], t[i][2]))
            elif head_kw in ("impl", "trait", "mod") or (head_kw == "const" and norm(text(t[i:j])).startswith("const_:()=")):
                h = norm(text(t[i:j]))
                scan(t[j + 1 : e], cont + [h], out)
            i = e + 1
            continue
        if t[i][1] in OPEN:
            i = match(t, i)
        i += 1


_cache = {}


def items(path):
    if path not in _cache:
        try:
            s = open(path).read()
        except OSError as e:
            raise Undecided(f"cannot read {path}: {e}")
        t = lex(s)
        out = []
        scan(t, [], out)
        _cache[path] = (t, out)
    return _cache[path]


def strip_generics(h):
    """impl<'a,T>X for Y -> X for Y; trait X<'i>:Sized -> X<'i> (normalised text)"""
    h = re.sub(r"^(pub(\([^)]*\))?)?(unsafe)?(?=impl|trait)", "", h)
    for kw in ("impl", "trait"):
        if h.startswith(kw):
            h = h[len(kw) :]
            if h.startswith("<"):
                d = 0
                for i, c in enumerate(h):
                    if c == "<":
                        d += 1
                    elif c == ">" and h[i - 1] != "-":
                        d -= 1
                        if d == 0:
                            h = h[i + 1 :]
                            break
            if kw == "trait":
                d = 0
                for i, c in enumerate(h):
                    if c in "<(":
                        d += 1
                    elif c in ">)":
                        d -= 1
                    elif c == ":" and d == 0:
                        return h[:i]
            return h
    return h


def macro_items(path, macro):
    t, its = items(path)
    if macro:
        mname, args, arm = macro
        ms = [f for f in its if f.name == "macro:" + mname]
        if not ms:
            raise Undecided(f"{path}: macro {mname} not found")
        body = ms[0].body
        # arms: (pattern) => { ... };
        arms = []
        i = 1
        while i < len(body) - 1:
            i = skip_ws(body, i)
            if i >= len(body) - 1:
                break
            if body[i][1] in OPEN:
                pe = match(body, i)
                j = skip_ws(body, pe + 1)
                if body[j][1] != "=>":
                    raise Undecided("macro arm")
                j = skip_ws(body, j + 1)
                be = match(body, j)
                arms.append((body[i : pe + 1], body[j + 1 : be]))
                i = be + 1
            else:
                i += 1
        if arm >= len(arms):
            raise Undecided(f"{path}: macro {mname} has no arm {arm}")
        src = arms[arm][1]
        # substitute
        new = []
        k = 0
        while k < len(src):
            if src[k][1] == "$" and k + 1 < len(src) and src[k + 1][1] in args:
                v = args[src[k + 1][1]]
                for kk, tt, _ in lex(v):
                    new.append((kk, tt, src[k][2]))
                k += 2
            else:
                new.append(src[k])
                k += 1
        out = []
        scan(new, [], out)
        its = out
    return its


def parse_macro(s):
    if not s:
        return None
    m = re.match(r"(\w+)(?:#(\d+))?\((.*)\)$", s)
    args = {}
    for p in m.group(3).split(","):
        if p.strip():
            a, b = p.split(":=")
            args[a.strip().lstrip("$")] = b.strip()
    return (m.group(1), args, int(m.group(2) or 0))


def find_consts(path, cont, macro=None):
    """all associated constants of the container, as written"""
    c = norm(cont)
    r = []
    for f in macro_items(path, macro):
        if f.name.startswith("const:") and f.cont and strip_generics(f.cont[-1]).replace("$crate::", "").split("where")[0].rstrip("{") == c:
            r.append(text(strip_crate(drop_attrs(drop_comments(f.sig)))).strip() + ";")
    if not r:
        raise Undecided(f"{path}: no constants in `{cont}`")
    return r


def find_assoctype(path, cont, name, macro=None):
    """associated type of the container, as written"""
    c = norm(cont)
    for f in macro_items(path, macro):
        if f.name == "type:" + name and f.cont and strip_generics(f.cont[-1]).replace("$crate::", "").split("where")[0].rstrip("{") == c:
            return text(strip_crate(drop_attrs(drop_comments(f.sig)))).strip() + ";"
    raise Undecided(f"{path}: no associated type {name} in `{cont}`")


def find_fn(path, cont, name, macro=None):
    its = macro_items(path, macro)
    c = norm(cont) if cont else ""
    cand = []
    for f in its:
        if f.name != name or f.body is None:
            continue
        if cont == "" or cont is None:
            if any(not x.startswith(("mod", "const_")) for x in f.cont):
                continue
            cand.append(f)
        else:
            # `where` clauses are ignored in the comparison
            if f.cont and any(strip_generics(x).replace("$crate::", "").split("where")[0].rstrip("{") == c for x in f.cont):
                cand.append(f)
    if len(cand) != 1:
        raise Undecided(f"{path}: {len(cand)} candidates for `{cont or ''} :: {name}`")
    return cand[0]


# ---------------------------------------------------------------- body transformations
def drop_comments(t):
    out = []
    for k, x, l in t:
        if k == "lc":
            out.append(("ws", "\n" if x.startswith("//") else " ", l))
        else:
            out.append((k, x, l))
    return out


def drop_attrs(t):
    """remove attributes; a statement/block under cfg(feature="debug") is removed with it"""
    out = []
    i = 0
    while i < len(t):
        if t[i][1] == "#" and t[i][0] == "op":
            j = skip_ws(t, i + 1)
            if j < len(t) and t[j][1] == "[":
                e = match(t, j)
                a = norm(text(t[j : e + 1]))
                i = e + 1
                if a == '[cfg(feature="debug")]' or a == "[cfg(test)]":
                    j = skip_ws(t, i)
                    if t[j][1] == "{":
                        i = match(t, j) + 1
                    else:
                        while t[j][1] != ";":
                            if t[j][1] in OPEN:
                                j = match(t, j)
                            j += 1
                        i = j + 1
                continue
        out.append(t[i])
        i += 1
    return out


def drop_log(t):
    out = []
    i = 0
    while i < len(t):
        if t[i][0] == "id" and ((t[i][1] == "log" and i + 1 < len(t) and t[i + 1][1] == "::") or (t[i][1] in ("log_error", "log_trace", "debug_log") and i + 1 < len(t) and t[i + 1][1] == "!")):
            j = i
            while t[j][1] not in ("(", "{", "["):
                j += 1
            j = match(t, j) + 1
            if j < len(t) and t[j][1] == ";":
                j += 1
            i = j
            continue
        out.append(t[i])
        i += 1
    return out


def uncurry_trace(t):
    """trace_generic(A, B, F, ARG) and trace(A, F, ARG) -> trace_input(A, F)(ARG) (all three apply their closure)"""
    i = 0
    while i < len(t):
        if t[i][0] == "id" and t[i][1] in ("trace_generic", "trace"):
            j = skip_ws(t, i + 1)
            if j < len(t) and t[j][1] == "(":
                e = match(t, j)
                args, cur, k, bars = [], [], j + 1, 0
                while k < e:
                    if t[k][1] in OPEN and t[k][0] == "op":
                        m = match(t, k)
                        cur += t[k : m + 1]
                        k = m + 1
                        continue
                    if t[k][1] == "|":
                        bars ^= 1
                    if t[k][1] == "," and not bars:
                        args.append(cur)
                        cur = []
                    else:
                        cur.append(t[k])
                    k += 1
                if text(cur).strip():
                    args.append(cur)
                n = 4 if t[i][1] == "trace_generic" else 3
                if len(args) == n:
                    l = t[i][2]
                    o = lambda x: ("op", x, l)
                    t = t[:i] + [("id", "trace_input", l), o("(")] + args[n - 3] + [o(",")] + args[n - 2] + [o(")"), o("(")] + args[n - 1] + [o(")")] + t[e + 1 :]
        i += 1
    return t


def uncurry_wrap(t):
    """wrap_ber_parser(F)(ARG) -> wrap_ber_parser(F, ARG)"""
    for i in range(len(t)):
        if t[i] [0] == "id" and t[i][1] == "wrap_ber_parser":
            j = skip_ws(t, i + 1)
            if j < len(t) and t[j][1] == "(":
                e = match(t, j)
                a = skip_ws(t, e + 1)
                if a < len(t) and t[a][1] == "(":
                    ae = match(t, a)
                    l = t[i][2]
                    return uncurry_wrap(t[:e] + [("op", ",", l), ("ws", " ", l)] + t[a + 1 : ae] + t[ae:ae + 1] + t[ae + 1 :])
    return t


def beta_trace(t):
    """trace_input(CTX, |P| BODY)(ARG) -> { let P = ARG; BODY } where it is the tail expression"""
    for name in ("trace_input", "trace"):
        for i in range(len(t)):
            if t[i][1] == name and t[i][0] == "id":
                j = skip_ws(t, i + 1)
                if t[j][1] != "(":
                    continue
                e = match(t, j)
                a = skip_ws(t, e + 1)
                if a >= len(t) or t[a][1] != "(":
                    raise Undecided("trace_input not applied")
                ae = match(t, a)
                rest = skip_ws(t, ae + 1)
                # must be followed only by the closing brace of the body
                if not (rest < len(t) and t[rest][1] == "}" and skip_ws(t, rest + 1) >= len(t)):
                    # elsewhere: only if the closure cannot leave early
                    if any(x[1] in ("return", "?") for x in t[j:e]):
                        raise Undecided("trace_input not in tail position")
                # split args
                k = j + 1
                while t[k][1] != ",":
                    if t[k][1] in OPEN:
                        k = match(t, k)
                    k += 1
                k = skip_ws(t, k + 1)
                arg = t[a + 1 : ae]
                if t[k][1] == "|":
                    p = k + 1
                    while t[p][1] != "|":
                        p += 1
                    pat = t[k + 1 : p]
                    body = t[p + 1 : e]
                    # trailing comma
                    while body and (body[-1][0] == "ws" or body[-1][1] == ","):
                        body = body[:-1]
                    l = t[i][2]
                    new = [("op", "{", l), ("ws", " ", l), ("id", "let", l), ("ws", " ", l)] + pat + [("ws", " ", l), ("op", "=", l), ("ws", " ", l)] + arg + [("op", ";", l), ("ws", "\n", l)] + body + [("op", "}", l)]
                else:
                    f = t[k:e]
                    while f and (f[-1][0] == "ws" or f[-1][1] == ","):
                        f = f[:-1]
                    new = f + t[a : ae + 1]
                return beta_trace(t[:i] + new + t[ae + 1 :])
    return t


def strip_crate(t):
    """crate::[lowercase::]*Name -> Name (single module in the verified file)"""
    out = []
    i = 0
    while i < len(t):
        if t[i][1] == "$" and i + 1 < len(t) and t[i + 1][1] == "crate":
            i += 1
            continue
        if t[i][1] in ("crate", "nom", "super") and t[i][0] == "id" and i + 1 < len(t) and t[i + 1][1] == "::":
            i += 2
            while i + 1 < len(t) and t[i][0] == "id" and t[i][1][0].islower() and t[i + 1][1] == "::" and (i + 2 >= len(t) or t[i + 2][1] != "<"):
                i += 2
            continue
        out.append(t[i])
        i += 1
    return out


CTORS = {"Err::Error": "verif_err_error", "Some": "verif_some", "Ok": "verif_ok"}


def eta(t, fname, meta):
    """a constructor used as a function value -> a function with the constructor as its body"""
    out = []
    i = 0
    while i < len(t):
        if t[i][0] == "op" and t[i][1] == "(":
            e = match(t, i)
            x = norm(text(t[i + 1 : e]))
            p = i - 1
            while p > 0 and t[p][0] == "ws":
                p -= 1
            if x in CTORS and t[p][1] in ("map_err", "map", "and_then", "or_else"):
                out += [t[i], ("id", CTORS[x], t[i][2]), t[e]]
                meta["rewrites"].append(f"{fname}: {x} as a function value -> {CTORS[x]}")
                i = e + 1
                continue
        out.append(t[i])
        i += 1
    return out


def drop_use(t):
    """`use path;` statements inside a body (names are resolved by the environment)"""
    out = []
    i = 0
    while i < len(t):
        if t[i][0] == "id" and t[i][1] == "use":
            while t[i][1] != ";":
                i += 1
            i += 1
            continue
        out.append(t[i])
        i += 1
    return out


def loops(t):
    """[(kw index, open brace, close brace)] of loops in source order"""
    r = []
    for i in range(len(t)):
        if t[i][0] == "id" and t[i][1] in ("loop", "while", "for"):
            p = i - 1
            while p >= 0 and t[p][0] == "ws":
                p -= 1
            if t[i][1] == "for" and p >= 0 and (t[p][1] in ("<", ">") or (t[p][0] == "id")):
                continue
            j = i + 1
            while t[j][1] != "{":
                if t[j][1] in OPEN and t[j][1] != "{":
                    j = match(t, j)
                j += 1
            r.append((i, j, match(t, j)))
    return r


def closure_wild(t):
    """|_| / |_: T| -> |__w| / |__w: T|"""
    out = list(t)
    for i in range(1, len(t) - 1):
        if t[i][1] == "_" and t[i][0] == "id" and t[i - 1][1] == "|" and t[skip_ws(t, i + 1)][1] in ("|", ":"):
            out[i] = ("id", "__w", t[i][2])
    return out


FOR_SUF = (".iter_elements()", ".iter().copied()", ".iter().cloned()", ".iter().enumerate()", ".iter()")


def forix(t, fname, meta):
    """for P in E.iter()/.iter_elements()/.iter().copied() / &E  ->  indexed while loop (P bound at the start of the body)"""
    n = 0
    i = 0
    while i < len(t):
        if t[i][0] == "id" and t[i][1] == "for":
            lp = [l for l in loops(t) if l[0] == i]
            if lp:
                _, o, c = lp[0]
                j = i + 1
                while not (t[j][0] == "id" and t[j][1] == "in"):
                    if t[j][1] in OPEN:
                        j = match(t, j)
                    j += 1
                pat = text(t[i + 1 : j]).strip()
                e = text(t[j + 1 : o]).strip()
                ne = norm(e)
                byref = None
                base = None
                if ".." in ne and not any(ne.endswith(x) for x in FOR_SUF):
                    i += 1
                    continue
                for sfx in FOR_SUF:
                    if ne.endswith(sfx):
                        base = ne[: -len(sfx)]
                        byref = sfx in (".iter()", ".iter().enumerate()")
                        break
                if base is None and ne.startswith("&") and re.match(r"^&[\w.]+$", ne):
                    base, byref = ne[1:], True
                if base is not None:
                    iv = f"__i{n}"
                    bv = f"__b{n}"
                    n += 1
                    acc = f"{bv}[{iv}]"
                    if ne.endswith(".iter().enumerate()"):
                        m = re.match(r"^\((\w+),\s*(&?)\s*(\w+)\)$", pat)
                        if not m:
                            raise Undecided(f"{fname}: for pattern {pat}")
                        bind = f"let {m.group(1)} = {iv}; let {m.group(3)} = " + ("" if m.group(2) else "&") + acc + ";"
                    elif byref and pat.startswith("&"):
                        bind = f"let {pat[1:].strip()} = {acc};"
                    elif byref:
                        bind = f"let {pat} = &{acc};"
                    else:
                        bind = f"let {pat} = {acc};"
                    s = f"let {bv} = verif_slice(&{base}); let mut {iv}: usize = 0; while {iv} < {bv}.len() {{ {bind} {iv} += 1;"
                    new = lex(s)
                    meta["rewrites"].append(f"{fname}: for {pat} in {e} -> indexed loop")
                    t = t[:i] + new + t[o + 1 :]
        i += 1
    return t


def split_top(t, seps):
    """split a token list at top-level separators"""
    r, cur, i = [], [], 0
    while i < len(t):
        x = t[i]
        if x[0] == "op" and x[1] in OPEN:
            e = match(t, i)
            cur += t[i : e + 1]
            i = e + 1
            continue
        if x[0] == "op" and x[1] in seps:
            r.append(cur)
            cur = []
        else:
            cur.append(x)
        i += 1
    r.append(cur)
    return r


def pat_elem(p, acc, byval, fname):
    """(conditions, bindings) for a pattern on one octet"""
    p = [x for x in p if x[0] != "ws"]
    alts = split_top(p, ("|",))
    if len(alts) > 1:
        cs = []
        for a in alts:
            c, b = pat_elem(a, acc, byval, fname)
            if b:
                raise Undecided(f"{fname}: binding in alternative pattern")
            cs.append("(" + " && ".join(c) + ")" if c else "true")
        return ["(" + " || ".join(cs) + ")"], []
    if len(p) == 1 and p[0][1] == "_":
        return [], []
    if len(p) == 1 and p[0][0] in ("num", "chr"):
        return [f"{acc} == {p[0][1]}"], []
    if len(p) == 3 and p[1][1] == "..=":
        return [f"({p[0][1]} <= {acc} && {acc} <= {p[2][1]})"], []
    if p[0][0] == "id" and len(p) == 1:
        return [], [f"let {p[0][1]} = {'' if byval else '&'}{acc};"]
    if p[0][0] == "id" and len(p) > 2 and p[1][1] == "@":
        c, b = pat_elem(p[2:], acc, byval, fname)
        return c, b + [f"let {p[0][1]} = {'' if byval else '&'}{acc};"]
    raise Undecided(f"{fname}: pattern {text(p)}")


def pat_slice(p, sv, fname):
    """(conditions, bindings) of a slice pattern `[..]` / `&[..]` on the slice variable sv; None: catch-all"""
    p = [x for x in p if x[0] != "ws"]
    alts = split_top(p, ("|",))
    if len(alts) > 1:
        cs = []
        for a in alts:
            c, b = pat_slice(a, sv, fname)
            if b:
                raise Undecided(f"{fname}: binding in alternative pattern")
            cs.append("(" + " && ".join(c) + ")")
        return ["(" + " || ".join(cs) + ")"], []
    if len(p) == 1 and p[0][1] == "_":
        return [], []
    if len(p) == 1 and p[0][0] == "id":
        return [], [f"let {p[0][1]} = {sv};"]
    byval = p[0][1] == "&"
    if byval:
        p = p[1:]
    if p[0][1] != "[" or match(p, 0) != len(p) - 1:
        raise Undecided(f"{fname}: slice pattern {text(p)}")
    el = split_top(p[1:-1], (",",))
    el = [e for e in el if e]
    rest = [i for i, e in enumerate(el) if e[-1][1] == ".."]
    conds, binds = [], []
    if not rest:
        conds.append(f"{sv}.len() == {len(el)}")
        for i, e in enumerate(el):
            c, b = pat_elem(e, f"{sv}[{i}]", byval, fname)
            conds += c
            binds += b
    else:
        r = rest[0]
        n = len(el) - 1
        after = n - r
        if n:
            conds.append(f"{sv}.len() >= {n}")
        for i, e in enumerate(el):
            if i < r:
                c, b = pat_elem(e, f"{sv}[{i}]", byval, fname)
            elif i > r:
                c, b = pat_elem(e, f"{sv}[{sv}.len() - {len(el) - i}]", byval, fname)
            else:
                c, b = [], []
                if len(e) > 1:
                    if e[1][1] != "@":
                        raise Undecided(f"{fname}: pattern {text(e)}")
                    b = [f"let {e[0][1]} = slice_subrange({sv}, {r}, {sv}.len(){f' - {after}' if after else ''});"]
            conds += c
            binds += b
    return conds, binds


def is_slice_pat(p):
    p = [x for x in p if x[0] != "ws"]
    for a in split_top(p, ("|",)):
        if a and (a[0][1] == "[" or (a[0][1] == "&" and len(a) > 1 and a[1][1] == "[")):
            return True
    return False


def slicepat(t, fname, meta, cnt=None):
    """match / if let on slice patterns -> length and element tests, elements bound in the same order"""
    cnt = cnt if cnt is not None else [0]
    i = 0
    while i < len(t):
        if t[i][0] == "id" and t[i][1] == "match":
            j = i + 1
            while t[j][1] != "{":
                if t[j][1] in OPEN:
                    j = match(t, j)
                j += 1
            c = match(t, j)
            arms = []
            k = skip_ws(t, j + 1)
            while k < c:
                p0 = k
                guard = None
                while not (t[k][0] == "op" and t[k][1] == "=>"):
                    if t[k][0] == "id" and t[k][1] == "if" and guard is None:
                        guard = k
                    if t[k][0] == "op" and t[k][1] in OPEN:
                        k = match(t, k)
                    k += 1
                pat = t[p0 : guard if guard is not None else k]
                gd = t[guard + 1 : k] if guard is not None else None
                k = skip_ws(t, k + 1)
                if t[k][1] == "{":
                    e = match(t, k)
                    body = t[k : e + 1]
                    k = skip_ws(t, e + 1)
                    if k < c and t[k][1] == ",":
                        k = skip_ws(t, k + 1)
                else:
                    b0 = k
                    while k < c and not (t[k][0] == "op" and t[k][1] == ","):
                        if t[k][0] == "op" and t[k][1] in OPEN:
                            k = match(t, k)
                        k += 1
                    body = t[b0:k]
                    k = skip_ws(t, k + 1)
                arms.append((pat, gd, body))
            if any(is_slice_pat(p) for p, _, _ in arms):
                sv = f"__s{cnt[0]}"
                cnt[0] += 1
                out = f"{{ let {sv} = {text(t[i + 1 : j]).strip()}; "
                done = False
                for n, (p, gd, b) in enumerate(arms):
                    cs, bs = pat_slice(p, sv, fname)
                    cond = list(cs)
                    if gd is not None:
                        cond.append("{ " + " ".join(bs) + " " + text(gd).strip() + " }")
                    bt = text(slicepat(list(b), fname, meta, cnt)).strip()
                    if not cond:
                        out += f"{{ {' '.join(bs)} {bt} }}"
                        done = True
                        break
                    out += f"if {' && '.join(cond)} {{ {' '.join(bs)} {bt} }} else "
                if not done:
                    out += "{ vstd::pervasive::unreached() }"
                out += " }"
                meta["rewrites"].append(f"{fname}: match on slice patterns -> length/element tests")
                new = lex(out)
                t = t[:i] + new + t[c + 1 :]
                i += len(new)
                continue
        if t[i][0] == "id" and t[i][1] == "if":
            q = skip_ws(t, i + 1)
            if t[q][1] == "let":
                e = q + 1
                while not (t[e][0] == "op" and t[e][1] == "="):
                    if t[e][1] in OPEN:
                        e = match(t, e)
                    e += 1
                pat = t[q + 1 : e]
                if is_slice_pat(pat):
                    j = e + 1
                    while t[j][1] != "{":
                        if t[j][1] in OPEN:
                            j = match(t, j)
                        j += 1
                    c = match(t, j)
                    sv = f"__s{cnt[0]}"
                    cnt[0] += 1
                    cs, bs = pat_slice(pat, sv, fname)
                    inner = text(slicepat(list(t[j + 1 : c]), fname, meta, cnt))
                    end = c
                    els = ""
                    k = skip_ws(t, c + 1)
                    if k < len(t) and t[k][1] == "else":
                        k2 = skip_ws(t, k + 1)
                        if t[k2][1] != "{":
                            raise Undecided(f"{fname}: else if after slice pattern")
                        end = match(t, k2)
                        els = " else " + text(slicepat(list(t[k2 : end + 1]), fname, meta, cnt))
                    out = f"{{ let {sv} = {text(t[e + 1 : j]).strip()}; if {' && '.join(cs) or 'true'} {{ {' '.join(bs)} {inner} }}{els} }}"
                    meta["rewrites"].append(f"{fname}: if let on slice pattern -> length/element tests")
                    new = lex(out)
                    t = t[:i] + new + t[end + 1 :]
                    i += len(new)
                    continue
        i += 1
    return t


def closures(t):
    """[(first |, last |, body start, body end (exclusive), is block)] in source order"""
    r = []
    i = 0
    while i < len(t):
        if t[i][0] == "op" and t[i][1] in ("|", "||"):
            p = i - 1
            while p >= 0 and t[p][0] == "ws":
                p -= 1
            if p >= 0 and (t[p][1] in ("(", ",", "=", "move", "=>", "{", ";", "&")):
                if t[i][1] == "||":
                    q = i
                else:
                    q = i + 1
                    while t[q][1] != "|":
                        if t[q][1] in OPEN:
                            q = match(t, q)
                        q += 1
                b = skip_ws(t, q + 1)
                if t[b][1] == "->":
                    while t[b][1] != "{":
                        b += 1
                if t[b][1] == "{":
                    e = match(t, b) + 1
                    r.append((i, q, b, e, True))
                else:
                    e = b
                    while e < len(t) and not (t[e][0] == "op" and (t[e][1] in (",", ";") or t[e][1] in CLOSE)):
                        if t[e][0] == "op" and t[e][1] in OPEN:
                            e = match(t, e)
                        e += 1
                    r.append((i, q, b, e, False))
                i = q
        i += 1
    return r


def annotate_closures(t, dirs, fname, meta, nclosures=None):
    """//@closure N HEAD: the N-th closure gets parameter types and a contract; its pattern is bound first in its body"""
    if not dirs:
        return t
    cl = closures(t)
    want = nclosures if nclosures is not None else max(dirs) + 1
    if len(cl) != want:
        raise Undecided(f"{fname}: {len(cl)} closures, contract written for {want}")
    for n, head in sorted(dirs.items(), reverse=True):
        if n >= len(cl):
            raise Undecided(f"{fname}: closure {n} not found")
        i, q, b, e, blk = cl[n]
        # closures inside this one have been rewritten already: find its end again
        if blk:
            e = match(t, b) + 1
        else:
            e = b
            while e < len(t) and not (t[e][0] == "op" and (t[e][1] in (",", ";") or t[e][1] in CLOSE)):
                if t[e][0] == "op" and t[e][1] in OPEN:
                    e = match(t, e)
                e += 1
        pats = [text(x).strip() for x in split_top(t[i + 1 : q], (",",))] if t[i][1] == "|" else []
        bind = ""
        for k, p in enumerate(pats):
            p = re.sub(r":[^:].*$", "", p).strip()
            v = f"__c{k}"
            if p.startswith("&"):
                bind += f"let {p[1:].strip()} = *{v}; "
            elif p != "_":
                bind += f"let {p} = {v}; "
        body = text(t[b:e])
        new = lex(f"{head.strip()} {{ {bind}{body} }}")
        meta["rewrites"].append(f"{fname}: closure {n} annotated with a contract")
        t = t[:i] + new + t[e:]
    return t


def nestfn(t, fname, meta):
    """nested fn -> closure bound at the start of the body (a nested function captures nothing)"""
    i = 1
    pre = ""
    while i < len(t):
        if t[i][0] == "id" and t[i][1] == "fn":
            j = skip_ws(t, i + 1)
            name = t[j][1]
            p = skip_ws(t, j + 1)
            if t[j][0] != "id" or t[p][1] != "(":
                i += 1
                continue
            q = match(t, p)
            o = q
            while t[o][1] != "{":
                o += 1
            c = match(t, o)
            if any(k == "id" and x == name for k, x, l in t[o:c]) or any(x in ("fn", "return") for k, x, l in t[o:c]):
                raise Undecided(f"{fname}: nested function {name}")
            pre += f"let {name} = |{text(t[p + 1 : q])}| {text(t[q + 1 : o]).strip()} {text(t[o : c + 1])}; "
            meta["rewrites"].append(f"{fname}: nested fn {name} -> closure")
            t = t[:i] + t[c + 1 :]
            continue
        i += 1
    return t[:1] + lex(" " + pre) + t[1:] if pre else t


def forgen(t, fname, meta):
    """for P in E {..}, E an iterator expression -> loop over next()"""
    n = 0
    i = 0
    while i < len(t):
        if t[i][0] == "id" and t[i][1] == "for":
            lp = [l for l in loops(t) if l[0] == i]
            if lp:
                _, o, c = lp[0]
                j = i + 1
                while not (t[j][0] == "id" and t[j][1] == "in"):
                    if t[j][1] in OPEN:
                        j = match(t, j)
                    j += 1
                e = text(t[j + 1 : o]).strip()
                if ".." not in norm(e):
                    v = f"__it{n}"
                    n += 1
                    pat = text(t[i + 1 : j]).strip()
                    new = lex(f"let mut {v} = {e}; loop {{ match {v}.next() {{ None => break, Some({pat}) => ")
                    meta["rewrites"].append(f"{fname}: for {pat} in {e} -> loop over next()")
                    t = t[:i] + new + t[o : c + 1] + lex("} }") + t[c + 1 :]
        i += 1
    return t


def flatmaps(t, fname, meta):
    """body X.iter().flat_map(|p| { S; (A..B).map(move |i| { E }) }) -> the same items pushed to a vector by nested loops"""
    m = re.match(r"(?s)^\{\s*(.*?)([\w.]+)\s*\.iter\(\)\s*\.flat_map\(\s*\|\s*(\w+)\s*\|\s*\{(.*?)\(\s*(\w+)\s*\.\.\s*(\w+)\s*\)\s*\.map\(\s*(?:move\s*)?\|\s*(\w+)\s*\|\s*(.*?)\s*,?\s*\)\s*\}\s*,?\s*\)\s*\}$", text(t))
    if not m or ".flat_map" in m.group(8):
        return t
    pre, recv, p, s, a, b, i, e = m.groups()
    meta["rewrites"].append(f"{fname}: iter().flat_map(|..| (..).map(..)) -> nested loops pushing to a vector")
    return lex(f"{{ {pre} let mut __out = Vec::new(); let mut __k: usize = 0; while __k < {recv}.len() {{ let {p} = &{recv}[__k]; __k += 1; {s} let mut __r = {a}; while __r < {b} {{ let {i} = __r; __r += 1; __out.push({e}); }} }} __out }}")


def fmts(t, fname, meta):
    """write!(W, "..", args) / format!("..", args) with {} and {:0N} only -> the pieces appended one after the other"""
    i = 0
    while i < len(t):
        if t[i][0] == "id" and t[i][1] in ("write", "format") and i + 2 < len(t) and t[i + 1][1] == "!":
            o = skip_ws(t, i + 2)
            if t[o][1] != "(":
                i += 1
                continue
            c = match(t, o)
            args, j, b = [], o + 1, o + 1
            while j <= c:
                if j == c or t[j][1] == ",":
                    args.append(text(t[b:j]).strip())
                    b = j + 1
                elif t[j][0] == "op" and t[j][1] in OPEN:
                    j = match(t, j)
                j += 1
            if args and not args[-1]:
                args.pop()
            w = args.pop(0) if t[i][1] == "write" else None
            f = args.pop(0) if args else ""
            if not re.match(r'^"([^"\\]|\\x[0-7][0-9a-fA-F])*"$', f):
                i += 1
                continue
            f = re.sub(r"\\x(..)", lambda m: chr(int(m.group(1), 16)), f[1:-1])
            out, k = "let mut __w = VFmt::new(); ", 0
            ok = True
            while k < len(f):
                m = re.match(r"\{(\w*)(?::0(\d))?\}", f[k:])
                if m:
                    if not m.group(1) and not args:
                        ok = False
                        break
                    a = m.group(1) or args.pop(0)
                    out += f"__w.num({m.group(2)}, verif_num({a})); " if m.group(2) else f"__w.str(&{a}); "
                    k += m.end()
                elif f[k] in "{}" or ord(f[k]) > 126:
                    ok = False
                    break
                else:
                    out += f"__w.ch({ord(f[k])}); "
                    k += 1
            if not ok or args:
                i += 1
                continue
            meta["rewrites"].append(f"{fname}: {t[i][1]}!({f!r}) -> its pieces in order")
            t = t[:i] + lex("{ " + out + (f"verif_write_fmt({w}, __w)" if w else "verif_format(__w)") + " }") + t[c + 1 :]
        i += 1
    return t


def floats(t, fname, meta):
    """f64/f32 -> F64/F32 (structs whose operators have trusted contracts); float literals, casts to floats, *= and /="""
    t = list(t)
    n = 0
    i = 0
    while i < len(t):
        k, x, l = t[i]
        p = i - 1
        while p >= 0 and t[p][0] in ("ws", "lc"):
            p -= 1
        prev = t[p][1] if p >= 0 else ""
        if k == "num" and (re.match(r"^\d+\.\d", x) or re.search(r"_?f(64|32)$", x)) and not x.startswith("0x"):
            m = re.match(r"^(\d+)(?:\.0+)?(?:_?f64)?$", x)
            if not m:
                raise Undecided(f"{fname}: float literal {x}")
            t[i : i + 1] = lex(f"F64::lit({m.group(1)})")
            n += 1
            continue
        if k == "id" and x == "as":
            q = skip_ws(t, i + 1)
            if t[q][1] in ("f64", "f32"):
                # operand: a postfix expression with unary * in front
                b = p
                while True:
                    if t[b][1] in CLOSE:
                        d = 0
                        while True:
                            if t[b][1] in CLOSE:
                                d += 1
                            elif t[b][1] in OPEN:
                                d -= 1
                                if d == 0:
                                    break
                            b -= 1
                    z = b - 1
                    while z >= 0 and t[z][0] in ("ws", "lc"):
                        z -= 1
                    if z >= 0 and (t[z][1] in (".", "::") or (t[b][1] in OPEN and (t[z][0] == "id" and t[z][1] not in ("return", "in", "if", "match", "while", "else") or t[z][1] in CLOSE))):
                        b = z
                        if t[b][1] in (".", "::"):
                            b -= 1
                            while t[b][0] in ("ws", "lc"):
                                b -= 1
                        continue
                    break
                while b > 0 and t[b - 1][1] == "*" and (t[b - 2][1] in ("(", "=", ",", "{", ";") or (t[b - 2][0] == "ws" and t[b - 3][1] in ("(", "=", ",", "{", ";", "return"))):
                    b -= 1
                e = text(t[b : p + 1])
                t[b : q + 1] = lex(f"verif_to_{t[q][1]}({e})")
                n += 1
                i = b
                continue
        if k == "op" and x in ("*=", "/="):
            b = p
            while b > 0 and t[b - 1][1] not in (";", "{", "}"):
                b -= 1
            b = skip_ws(t, b)
            lhs = text(t[b : p + 1]).strip()
            e = i
            while t[e][1] not in (";", "}"):
                if t[e][1] in OPEN:
                    e = match(t, e)
                e += 1
            rhs = text(t[i + 1 : e]).strip()
            t[i:e] = lex(f"= {lhs} {x[0]} ({rhs})")
            n += 1
            continue
        if k == "id" and x in ("f64", "f32") and prev not in (".", "fn", "::"):
            t[i] = (k, x.upper(), l)
            c = skip_ws(t, i + 1)
            if c < len(t) and t[c][1] == "::":
                c = skip_ws(t, c + 1)
                if t[c][1] in ("NAN", "INFINITY", "NEG_INFINITY", "EPSILON", "MAX", "MIN"):
                    t[c : c + 1] = lex(t[c][1].lower() + "()")
            n += 1
        i += 1
    if n:
        meta["rewrites"].append(f"{fname}: f64/f32 operations -> F64/F32 ({n}x)")
    return t


def mapcollects(t, fname, meta, ret):
    """R.iter().map(|p| E).collect() into a Vec -> loop pushing E for every element"""
    n = 0
    while True:
        s = text(t)
        m = re.search(r"([\w.]+)\s*\.iter\(\)\s*\.map\(\s*\|\s*(\w+)\s*\|([^|;{}?]*?)\)\s*\.collect(::<Vec<_>>)?\(\)", s)
        if not m or "return" in m.group(3) or (not m.group(4) and "Result" in ret):
            return t
        r, p, e, _ = m.groups()
        meta["rewrites"].append(f"{fname}: {r}.iter().map(..).collect() into a Vec -> loop over the elements")
        new = f"{{ let mut __mv{n} = Vec::new(); let mut __mk{n}: usize = 0; while __mk{n} < {r}.len() {{ let {p} = &{r}[__mk{n}]; __mk{n} += 1; __mv{n}.push({e.strip().rstrip(',')}); }} __mv{n} }}"
        n += 1
        t = lex(s[: m.start()] + new + s[m.end() :])


def folds(t, fname, meta):
    """E.fold(INIT, |a, b| X) -> loop; E.try_fold(INIT, |a, b| { S; Ok(X) }) as the value of the function -> loop with ? in the function"""
    n = 0
    i = 0
    while i < len(t):
        if t[i][0] == "id" and t[i][1] in ("fold", "try_fold") and t[i - 1][1] == "." and t[skip_ws(t, i + 1)][1] == "(":
            o = skip_ws(t, i + 1)
            c = match(t, o)
            # start of the receiver: a chain of identifiers, calls and dots
            b = i - 2
            while b >= 0:
                x = t[b][1]
                if t[b][0] == "op" and x in (")", "]"):
                    d = 0
                    while True:
                        if t[b][0] == "op" and x in CLOSE and t[b][1] in CLOSE:
                            d += 1
                        elif t[b][0] == "op" and t[b][1] in OPEN:
                            d -= 1
                        if d == 0:
                            break
                        b -= 1
                elif t[b][0] in ("id", "ws") or x in (".", "::"):
                    pass
                else:
                    break
                b -= 1
            b = skip_ws(t, b + 1)
            recv = text(t[b : i - 1]).strip()
            # arguments
            j = o + 1
            d = 0
            while not (t[j][1] == "," and d == 0):
                if t[j][0] == "op" and t[j][1] in OPEN:
                    j = match(t, j)
                j += 1
                if j >= c:
                    break
            if j >= c:
                i += 1
                continue
            init = text(t[o + 1 : j]).strip()
            m = re.match(r"(?s)\s*\|\s*(\w+)\s*,\s*(\w+)\s*\|\s*(.*?)\s*,?\s*$", text(t[j + 1 : c]))
            if not m or re.search(r"\breturn\b", m.group(3)):
                i += 1
                continue
            acc, el, body = m.groups()
            v = f"__fit{n}"
            if t[i][1] == "fold":
                if "?" in body:
                    i += 1
                    continue
                new = f"{{ let mut {acc} = {init}; let mut {v} = {recv}; loop {{ match {v}.next() {{ None => break, Some({el}) => {{ {acc} = {body}; }} }} }} {acc} }}"
            else:
                e = skip_ws(t, c + 1)
                k = re.match(r"(?s)\{(.*)\bOk\((.*)\)\s*\}$", body)
                if e != len(t) - 1 or not k or re.search(r"\bOk\(", k.group(1)):
                    i += 1
                    continue
                new = f"{{ let mut {acc} = {init}; let mut {v} = {recv}; loop {{ match {v}.next() {{ None => break, Some({el}) => {{ {k.group(1)} {acc} = {k.group(2)}; }} }} }} Ok({acc}) }}"
            meta["rewrites"].append(f"{fname}: {t[i][1]} -> loop over next()")
            n += 1
            t = t[:b] + lex(new) + t[c + 1 :]
        i += 1
    return t


def collects(t, fname, meta):
    """collection into a Result<Vec<_>> -> explicit loop"""
    n = 0
    i = 0
    tail = "let mut __v{n} = Vec::new(); let mut __e{n} = None; loop {{ match __it{n}.next() {{ None => break, Some(__x{n}) => match {x} {{ Ok(__y{n}) => {{ __v{n}.push(__y{n}); }} Err(__z{n}) => {{ __e{n} = Some(__z{n}); break; }} }} }} }} match __e{n} {{ None => Ok(__v{n}), Some(__z{n}) => Err(__z{n}) }} }}"
    while i < len(t):
        if t[i][0] == "id" and t[i][1] == "collect" and t[i - 1][1] == ".":
            # extent of the receiver expression
            b = i - 2
            ang = 0
            while b >= 0:
                x = t[b][1]
                if t[b][0] == "op" and x in CLOSE:
                    d = 0
                    while True:
                        if t[b][0] == "op" and t[b][1] in CLOSE:
                            d += 1
                        elif t[b][0] == "op" and t[b][1] in OPEN:
                            d -= 1
                        if d == 0:
                            break
                        b -= 1
                elif x in (">", ">>"):
                    ang += len(x)
                elif x in ("<", "<<"):
                    ang -= len(x)
                elif ang == 0 and ((t[b][0] == "op" and (x in OPEN or x in ("=", ";", ",", "=>", "}", "{"))) or x == "return"):
                    break
                b -= 1
            b = skip_ws(t, b + 1)
            recv = text(t[b : i - 1]).strip()
            q = skip_ws(t, i + 1)
            tf = ""
            if t[q][1] == "::":
                q2 = q
                while t[q2][1] != "(":
                    q2 += 1
                tf = norm(text(t[q + 1 : q2]))
                q = q2
                if not re.match(r"^<Result<(Vec<|_)", tf):
                    i += 1
                    continue
            if t[q][1] == "(":
                k = f"c{n}"
                n += 1
                s = f"{{ let mut __it{k} = {recv}; " + tail.format(n=k, x=f"__x{k}")
                meta["rewrites"].append(f"{fname}: {recv[:60]}.collect() -> loop")
                t = t[:b] + lex(s) + t[match(t, q) + 1 :]
                i = b
        elif t[i][0] == "id" and t[i][1] == "from_iter" and t[i - 1][1] == "::" and t[i + 1][1] == "(":
            # <Result<..>>::from_iter(RECV.map(F))
            e = match(t, i + 1)
            arg = t[i + 2 : e]
            mi = [k for k in range(len(arg)) if arg[k][1] == "map" and arg[k - 1][1] == "."]
            if mi and text(arg[mi[0] + 1 :]).strip().startswith("(") and match(arg, skip_ws(arg, mi[0] + 1)) == len(arg) - 1 - (1 if arg[-1][0] == "ws" else 0):
                b = i - 2
                ang = 0
                while b >= 0:
                    if t[b][1] in (">", ">>"):
                        ang += len(t[b][1])
                    elif t[b][1] in ("<", "<<"):
                        ang -= len(t[b][1])
                        if ang == 0:
                            break
                    b -= 1
                if not norm(text(t[b:i])).startswith("<Result<"):
                    i += 1
                    continue
                k = f"m{n}"
                n += 1
                recv = text(arg[: mi[0] - 1]).strip()
                g = skip_ws(arg, mi[0] + 1)
                clo = text(arg[g + 1 : match(arg, g)]).strip()
                if recv == "self":
                    s = f"{{ let __f{k} = {clo}; " + tail.format(n=k, x=f"__f{k}(__x{k})").replace(f"__it{k}.next()", "self.next()")
                else:
                    s = f"{{ let mut __it{k} = {recv}; let __f{k} = {clo}; " + tail.format(n=k, x=f"__f{k}(__x{k})")
                meta["rewrites"].append(f"{fname}: from_iter({recv[:60]}.map(..)) -> loop")
                t = t[:b] + lex(s) + t[e + 1 :]
                i = b
        i += 1
    return t


def rangeincl(t, fname, meta):
    """for X in A..=B {..} -> while loop (X incremented before the body)"""
    n = 0
    i = 0
    while i < len(t):
        if t[i][0] == "id" and t[i][1] == "for":
            lp = [l for l in loops(t) if l[0] == i]
            if lp:
                _, o, c = lp[0]
                j = i + 1
                while not (t[j][0] == "id" and t[j][1] == "in"):
                    j += 1
                e = text(t[j + 1 : o]).strip()
                m = re.match(r"^(\w+)\s*\.\.=\s*(\w+)$", e)
                if m:
                    v = f"__r{n}"
                    n += 1
                    new = lex(f"let mut {v} = {m.group(1)}; while {v} <= {m.group(2)} {{ let {text(t[i + 1 : j]).strip()} = {v}; {v} += 1;")
                    meta["rewrites"].append(f"{fname}: for over {e} -> while loop")
                    t = t[:i] + new + t[o + 1 :]
        i += 1
    return t


def stmt_bounds(t, i):
    """start and end (inclusive of ;) of the innermost statement containing token i"""
    # enclosing block start
    d = 0
    s = i
    while s > 0:
        x = t[s - 1][1] if t[s - 1][0] == "op" else ""
        if x in CLOSE:
            d += 1
        elif x in OPEN:
            if d == 0:
                if x == "{":
                    break
            else:
                d -= 1
        elif x == ";" and d == 0:
            break
        s -= 1
    # (s might be inside parens: acceptable only if preceded by { or ;)
    e = i
    d = 0
    while e < len(t):
        x = t[e][1] if t[e][0] == "op" else ""
        if x in OPEN:
            d += 1
        elif x in CLOSE:
            if d == 0:
                if x == "}":
                    return s, None
            else:
                d -= 1
        elif x == ";" and d == 0:
            return s, e
        e += 1
    return s, None


class Piece:
    """collected insertion (position in token list -> text)"""


def emit_fn(f, d, src_rel, mode, meta):
    sig = drop_comments(f.sig)
    sig = [x for x in sig if True]
    # keep from `fn`
    body = f.body
    if mode == "prove":
        body = drop_log(drop_attrs(drop_comments(f.body)))
        body = uncurry_wrap(beta_trace(uncurry_trace(body)))
        # `int` and `nat` are types of Verus: a local of that name gets another one
        body = [("id", x + "_v", l) if k == "id" and x in ("int", "nat") and body[n - 1][1] != "." else (k, x, l) for n, (k, x, l) in enumerate(body)]
        body = strip_crate(drop_use(body))
    sigt = text(strip_crate(sig))
    if d.get("generic"):
        # default method of a trait, verified once for every implementing type: Self becomes the type parameter T
        sigt = re.sub(r"\bSelf\b", "T", sigt)
        sigt = re.sub(r"(\bfn\s+\w+\s*)(<)?", lambda m: m.group(1) + "<" + d["generic"] + (", " if m.group(2) else ">"), sigt, count=1)
        if mode == "prove":
            body = lex(re.sub(r"\bSelf\b", "T", text(body)))
        meta["rewrites"].append(f"{f.name}: default trait method as generic function, Self -> T")
    if d.get("inst"):
        # a generic function taken at one type: the parameter and its bounds are dropped, its uses replaced
        tp, ty = d["inst"].split(":=")
        sigt = re.sub(r"\bwhere\b.*$", "", sigt, flags=re.S)
        sigt = re.sub(r",\s*" + tp + r"\s*(?=[,>])", "", sigt, count=1)
        sigt = re.sub(r"\b" + tp + r"\b", ty, sigt)
        if mode == "prove":
            body = lex(re.sub(r"\b" + tp + r"::", f"<{ty}>::", re.sub(r"<" + tp + r" as \w+>::", f"<{ty}>::", text(body))))
        meta["rewrites"].append(f"{f.name}: generic function taken at {tp} = {ty}")
    sigt = re.sub(r"(?<=[(,\s])_\s*:", "_arg:", sigt)
    sigt = re.sub(r"(?<=[(,\s])(int|nat)\s*:(?!:)", r"\1_v:", sigt)
    sigt = re.sub(r"\b(?:std|core)::(?:io|fmt|convert|ops|marker)::(Write|Display|TryFrom|Range|PhantomData)\b", r"\1", sigt)
    for a, b in d["sigsub"]:
        if a not in sigt:
            raise Undecided(f"{f.name}: signature text `{a}` not found")
        sigt = sigt.replace(a, b)
    # split return type
    st = lex(sigt)
    arrow = None
    dpt = 0
    where = None
    for i, (k, x, l) in enumerate(st):
        if x in OPEN and k == "op":
            dpt += 1
        elif x in CLOSE and k == "op":
            dpt -= 1
        elif x == "->" and dpt == 0 and arrow is None:
            arrow = i
        elif x == "where" and dpt == 0 and k == "id":
            where = i
    head = text(st[: arrow if arrow is not None else (where if where is not None else len(st))]).rstrip()
    ret = text(st[arrow + 1 : where]).strip() if arrow is not None else None
    wh = text(st[where:]).rstrip() if where is not None else ""
    if d.get("rename"):
        head = re.sub(r"\bfn\s+" + re.escape(f.name) + r"\b", "fn " + d["rename"], head, count=1)
    if d.get("floats"):
        head, ret = (text(floats(lex(x), f.name, meta)) if x else x for x in (head, ret))
        if mode == "prove":
            body = floats(body, f.name, meta)
    if mode == "prove":
        body = nestfn(body, f.name, meta)
    for a, b in d["subst"] if mode == "prove" else []:
        bt = text(body)
        nb, k = re.subn(a, b, bt)
        if k == 0 and not a.startswith("(?#opt)"):
            raise Undecided(f"{f.name}: rewrite /{a}/ has no match")
        meta["rewrites"].append(f"{f.name}: s/{a}/{b}/ ({k}x)")
        body = lex(nb)
    if mode == "prove":
        body = flatmaps(body, f.name, meta)
        body = fmts(body, f.name, meta)
        if "collect" in text(body):
            body = mapcollects(body, f.name, meta, f.sig if isinstance(f.sig, str) else text(f.sig))
        body = eta(body, f.name, meta)
        body = annotate_closures(body, d.get("closures") or {}, f.name, meta, d.get("nclosures"))
        body = slicepat(body, f.name, meta)
        body = closure_wild(body)
        body = forix(body, f.name, meta)
        body = rangeincl(body, f.name, meta)
        body = folds(body, f.name, meta)
        body = forgen(body, f.name, meta)
        body = collects(body, f.name, meta)
    ins = {}

    def add(pos, s):
        ins.setdefault(pos, []).append(s)

    lp = loops(body) if mode == "prove" else []
    if mode == "prove" and d["nloops"] is not None and len(lp) != d["nloops"]:
        raise Undecided(f"{f.name}: {len(lp)} loops, contract written for {d['nloops']}")
    for n, s in d["loops"].items() if mode == "prove" else []:
        if n >= len(lp):
            raise Undecided(f"{f.name}: loop {n} not found")
        add(lp[n][1], "\n" + s + "\n")
    label_iter = d.get("iter", {})
    if mode == "prove":
        for pos, s in d["ghost"]:
            if pos == "entry":
                add(1, "\n" + s + "\n")
            elif pos == "exit":
                add(len(body) - 1, "\n" + s + "\n")
            elif pos.startswith("loop"):
                m = re.match(r"loop(\d+)\.(\w+)$", pos)
                n, w = int(m.group(1)), m.group(2)
                if n >= len(lp):
                    raise Undecided(f"{f.name}: loop {n} not found")
                i, o, c = lp[n]
                if w == "before":
                    add(i, s + "\n")
                elif w == "begin":
                    add(o + 1, "\n" + s + "\n")
                elif w == "end":
                    add(c, "\n" + s + "\n")
                elif w == "after":
                    j = skip_ws(body, c + 1)
                    add(c + 1, "\n" + s + "\n")
            else:
                m = re.match(r"(let\s*)?([\w:]+)#(\d+)\.(before|after)$", pos)
                if not m:
                    raise SystemExit("bad ghost position " + pos)
                nm, k, w = m.group(2), int(m.group(3)), m.group(4)
                hits = []
                for i in range(len(body)):
                    if body[i][0] == "id" and body[i][1] == nm:
                        j = skip_ws(body, i + 1)
                        if m.group(1):
                            q = i - 1
                            while q > 0 and body[q][1] not in (";", "{", "}", "=", "let"):
                                q -= 1
                            if body[q][1] == "let":
                                hits.append(i)
                        elif body[j][1] in ("(", "!", "::"):
                            hits.append(i)
                if k >= len(hits):
                    raise Undecided(f"{f.name}: ghost anchor {pos} not found")
                s0, e0 = stmt_bounds(body, hits[k])
                if w == "before":
                    add(s0, "\n" + s + "\n")
                else:
                    if e0 is None:
                        raise Undecided(f"{f.name}: ghost anchor {pos} not a statement")
                    add(e0 + 1, "\n" + s + "\n")
    out = []
    for i, (k, x, l) in enumerate(body) if mode == "prove" else []:
        if i in ins:
            out.append("".join(ins[i]))
        out.append(x)
    bt = "".join(out)
    res = head
    if ret is not None:
        res += f" -> ({d['ret'] or 'r'}: {ret})"
    if wh:
        res += " " + wh
    res += "\n" + d["contract"] + "\n"
    if mode == "assume":
        res = "#[verifier::external_body] /*proved elsewhere*/\n" + res + "{ unimplemented!() }\n"
    else:
        res += bt + "\n"
    for a in reversed(d["attr"]):
        res = a + "\n" + res
    if d.get("vis"):
        pass
    return res


def unroll(path):
    """//@repeat $a,$b : x1,y1 ; x2,y2 ... //@endrepeat: the lines in between once per instance, with $a,$b replaced
    (separator | instead of , if the variable list uses it); may be nested"""
    def expand(lines):
        out, i = [], 0
        while i < len(lines):
            l0, line = lines[i]
            m = re.match(r"\s*//@(repeat|endrepeat)\b\s*(.*)$", line.rstrip("\n"))
            if not m:
                out.append((l0, line))
                i += 1
                continue
            if m.group(1) == "endrepeat":
                raise SystemExit(f"{path}:{l0}: stray endrepeat")
            depth, j = 1, i + 1
            while depth:
                k = re.match(r"\s*//@(repeat|endrepeat)\b", lines[j][1])
                if k:
                    depth += 1 if k.group(1) == "repeat" else -1
                j += 1
            vs, inst = m.group(2).split(":", 1) if "|" not in m.group(2) else re.split(r"\s:\s", m.group(2), maxsplit=1)
            sep = "|" if "|" in vs else ","
            vs = [v.strip() for v in vs.split(sep)]
            body = lines[i + 1:j - 1]
            for n, x in enumerate(inst.split(";")):
                vals = [v.strip() for v in x.split(sep)]
                if len(vals) != len(vs):
                    raise SystemExit(f"{path}:{l0}: repeat instance {n}")
                cur = []
                for bl, t in body:
                    for v, y in sorted(zip(vs, vals), key=lambda p: -len(p[0])):
                        t = t.replace(v, y)
                    cur.append((f"{bl}.{n}", t))
                out += expand(cur)
            i = j
        return out
    return expand(list(enumerate(open(path), 1)))


def parse_tpl(path):
    """yield ('text', str) | ('fn', dict) | ('item', dict)"""
    cur = []
    fn = None
    sec = None
    for ln, line in unroll(path):
        m = re.match(r"\s*//@(\w+)\s?(.*)$", line.rstrip("\n"))
        if not m:
            if fn is None:
                cur.append(line)
            elif sec is not None:
                sec.append(line)
            elif line.strip():
                raise SystemExit(f"{path}:{ln}: stray line in fn directive")
            continue
        k, a = m.group(1), m.group(2).strip()
        if k == "fn":
            if cur:
                yield ("text", "".join(cur))
                cur = []
            parts = [p.strip() for p in re.split(r"\s\|\s", a)]
            kv = [p for p in parts if re.match(r"^\w+=", p)]
            parts = [p for p in parts if not re.match(r"^\w+=", p)]
            fn = dict(file=parts[0], cont=parts[1] if len(parts) == 3 else "", name=parts[-1], ret=None, contract=[], loops={}, ghost=[], subst=[], sigsub=[], attr=[], nloops=None, tpl=path, tline=ln)
            for p in kv:
                kk, v = p.split("=", 1)
                fn[kk] = v
        elif k == "ret":
            fn["ret"] = a
        elif k == "contract":
            sec = fn["contract"]
        elif k == "loop":
            sec = []
            fn["loops"][int(a)] = sec
        elif k == "nloops":
            fn["nloops"] = int(a)
        elif k == "nclosures":
            fn["nclosures"] = int(a)
        elif k == "closure":
            n, h = a.split(" ", 1)
            fn.setdefault("closures", {})[int(n)] = h
        elif k == "ghost":
            sec = []
            fn["ghost"].append((a, sec))
        elif k == "subst":
            x, y = (a + " ").split(" ==> ")
            fn["subst"].append((x, y))
        elif k == "sigsub":
            x, y = (a + " ").split(" ==> ")
            fn["sigsub"].append((x, y.strip()))
        elif k == "floats":
            fn["floats"] = True
        elif k == "attr":
            fn["attr"].append(a)
        elif k == "generic":
            fn["generic"] = a
        elif k == "endfn":
            fn["contract"] = "".join(fn["contract"])
            fn["loops"] = {n: "".join(s) for n, s in fn["loops"].items()}
            fn["ghost"] = [(p, "".join(s)) for p, s in fn["ghost"]]
            if fn["nloops"] is None and fn["loops"]:
                fn["nloops"] = len(fn["loops"])
            yield ("fn", fn)
            fn = None
            sec = None
        elif k == "tagconsts":
            if cur:
                yield ("text", "".join(cur))
                cur = []
            yield ("tagconsts", a)
        elif k == "default":
            yield ("default", [p.strip() for p in re.split(r"\s\|\s", a)])
        elif k == "require":
            yield ("require", [p.strip() for p in re.split(r"\s\|\s", a)])
        elif k == "assoctype":
            if cur:
                yield ("text", "".join(cur))
                cur = []
            parts = [p.strip() for p in re.split(r"\s\|\s", a)]
            yield ("assoctype", dict(file=parts[0], cont=parts[1], name=parts[2], macro=next((p[6:] for p in parts if p.startswith("macro=")), None)))
        elif k == "consts":
            if cur:
                yield ("text", "".join(cur))
                cur = []
            parts = [p.strip() for p in re.split(r"\s\|\s", a)]
            yield ("consts", dict(file=parts[0], cont=parts[1], macro=next((p[6:] for p in parts if p.startswith("macro=")), None), ext="external" in parts))
        elif k == "constexpr":
            if cur:
                yield ("text", "".join(cur))
                cur = []
            parts = [p.strip() for p in re.split(r"\s\|\s", a)]
            yield ("constexpr", dict(file=parts[0], cont=parts[1], name=parts[2], opts=parts[3:]))
        elif k == "item":
            if cur:
                yield ("text", "".join(cur))
                cur = []
            parts = [p.strip() for p in a.split("|")]
            yield ("item", dict(file=parts[0], what=parts[1], opts=parts[2:]))
        else:
            raise SystemExit(f"{path}:{ln}: unknown directive {k}")
    if cur:
        yield ("text", "".join(cur))


def find_item(repo, rel, what):
    """struct/enum/const/type text without attributes, all fields pub"""
    t, _ = items(os.path.join(repo, rel))
    kind, name = what.split()
    meta = None
    if name.startswith("$"):
        # inside a macro_rules arm: $var=Name
        meta, name = name[1:].split("=")
    for i in range(len(t)):
        if t[i][1] == kind and t[i][0] == "id":
            j = skip_ws(t, i + 1)
            if meta and t[j][1] == "$" and t[j + 1][1] == meta:
                t = t[:j] + [("id", name, t[j][2])] + t[j + 2 :]
            elif meta:
                continue
            if t[j][1] == name:
                k = j
                while t[k][1] not in ("{", ";", "("):
                    if t[k][1] == "[":
                        k = match(t, k)
                    k += 1
                if t[k][1] == ";":
                    e = k
                elif t[k][1] == "(":
                    e = match(t, k)
                    while t[e][1] != ";":
                        e += 1
                else:
                    e = match(t, k)
                x = drop_attrs(drop_comments(t[i : e + 1]))
                s = text(x)
                s = re.sub(r"\n\s*\n+", "\n", s)
                s = re.sub(r"\bpub(\s*\([^)]*\))?\s+", "", s)
                if kind == "struct" and t[k][1] == "{":
                    b = s.index("{")
                    s = s[: b + 1] + re.sub(r"(^|\n|,)(\s*)([a-z_]\w*\s*:)", r"\1\2pub \3", s[b + 1 :])
                elif kind == "struct" and t[k][1] == "(":
                    b = s.index("(")
                    s = s[: b + 1] + "pub " + s[b + 1 :]
                return "pub " + s, t[i][2]
    raise Undecided(f"{rel}: {what} not found")


def strip_comments_text(path):
    return text(drop_comments(items(path)[0]))


def tag_number(repo, name):
    m = re.search(r"\b" + name + r"\s*=\s*(\w+)", strip_comments_text(os.path.join(repo, "src/tag.rs")))
    if not m:
        raise Undecided(f"src/tag.rs: tag {name} not found")
    return m.group(1)


def expand(repo, files, out, demoted=None):
    """files: [(template, mode)] -> writes the Verus file, returns meta"""
    meta = dict(functions=[], rewrites=[], items=[], undecided=[])
    demoted = demoted or {}
    parts = []
    line = 1

    def push(s):
        nonlocal line
        parts.append(s)
        line += s.count("\n")

    for path, mode in files:
        for kind, x in parse_tpl(path):
            if kind == "text":
                if mode == "assume":
                    # lemmas are proved where their own unit is verified
                    x = re.sub(r"(?m)^(pub (?:broadcast )?proof fn )", r"#[verifier::external_body] /*proved elsewhere*/\n\1", x)
                    x = re.sub(r"(?m)^(    fn [^\n]*\) -> [^\n]*\{[^\n]*\}$)", r"    #[verifier::external_body] /*proved elsewhere*/\n\1", x)
                    x = re.sub(r"(?m)^(    proof fn [^\n]*\)\s*\{)", r"    #[verifier::external_body] /*proved elsewhere*/\n\1", x)
                push(x)
            elif kind == "default":
                # the implementation must not override any of the default methods NAME[,NAME..]
                rel, cont, names = x[:3]
                mac = parse_macro(next((p[6:] for p in x[3:] if p.startswith("macro=")), None))
                its = macro_items(os.path.join(repo, rel), mac)
                c = norm(cont)
                for f in its:
                    if f.name in names.split(",") and any(strip_generics(y).replace("$crate::", "").split("where")[0].rstrip("{") == c for y in f.cont):
                        raise Undecided(f"{rel}: {cont} overrides {f.name}")
            elif kind == "require":
                # the file contains this text (layout ignored)
                rel, txt = x
                if norm(strip_comments_text(os.path.join(repo, rel))).find(norm(txt)) < 0:
                    raise Undecided(f"{rel}: `{txt}` not found")
            elif kind == "assoctype":
                e = find_assoctype(os.path.join(repo, x["file"]), x["cont"], x["name"], parse_macro(x["macro"]))
                # Verus takes only literals as const arguments: { Tag::Name.0 } by its value in src/tag.rs
                e = re.sub(r"\{\s*Tag::(\w+)\.0\s*\}", lambda m: tag_number(repo, m.group(1)), e)
                push(e + "\n")
                meta["items"].append(f"{x['file']} associated type {x['name']} of {x['cont']}")
            elif kind == "tagconsts":
                t, _ = items(os.path.join(repo, x))
                i = [i for i in range(len(t)) if t[i][1] == "newtype_enum"][0]
                while t[i][1] != "{":
                    i += 1
                inner = drop_comments(t[i + 1 : match(t, i)])
                i = 0
                while inner[i][1] != "{":
                    i += 1
                ent = text(inner[i + 1 : match(inner, i)])
                push("impl Tag {\n" + "".join(f"    pub const {n}: Tag = Tag({v});\n" for n, v in re.findall(r"(\w+)\s*=\s*(\w+)", ent)) + "}\n")
                meta["items"].append(f"{x} newtype_enum Tag")
            elif kind == "consts":
                cs = find_consts(os.path.join(repo, x["file"]), x["cont"], parse_macro(x["macro"]))
                if x.get("ext"):
                    # Verus takes only paths and literals here: other initialisers are opaque, their value is stated by a //@constexpr axiom
                    cs = ["#[verifier::external_body] " + c.split("=", 1)[0] + "= panic!();" if "(" in c.split("=", 1)[-1] else c for c in cs]
                push("\n".join(cs) + "\n")
                meta["items"].append(f"{x['file']} constants of {x['cont']}")
            elif kind == "constexpr":
                cs = find_consts(os.path.join(repo, x["file"]), x["cont"])
                e = [m.group(1) for c in cs for m in [re.match(r"(?s)const\s+" + x["name"] + r"\s*:[^=]*=(.*);$", c.strip())] if m]
                if len(e) != 1:
                    raise Undecided(f"{x['file']}: constant {x['name']} of {x['cont']} not found")
                e = e[0].strip()
                for o in x["opts"]:
                    a, b = o[4:].split("==>")
                    e = e.replace(a.strip(), b.strip())
                push(e + "\n")
                meta["items"].append(f"{x['file']} initialiser of {x['cont']}::{x['name']} (stated as an axiom)")
            elif kind == "item":
                s, ln = find_item(repo, x["file"], x["what"])
                for o in x["opts"]:
                    if o.startswith("sub:"):
                        a, b = o[4:].split("==>")
                        a, b = a.strip(), b.strip()
                        if a not in s:
                            raise Undecided(f"{x['what']}: `{a}` not found")
                        s = s.replace(a, b)
                        meta["rewrites"].append(f"{x['what']}: {a} -> {b}")
                    elif o:
                        s = o + "\n" + s
                push(s + "\n")
                meta["items"].append(f"{x['file']}:{ln} {x['what']}")
            else:
                mac = parse_macro(x.get("macro"))
                fmode = mode
                fid = f"{x['tpl']}:{x['tline']}"
                f = find_fn(os.path.join(repo, x["file"]), x["cont"], x["name"], mac)
                if fid in demoted:
                    meta["undecided"].append(dict(function=x["name"], why=demoted[fid]))
                    fmode = "assume"
                try:
                    s = emit_fn(f, x, x["file"], fmode, meta)
                except Undecided as e:
                    if fmode == "assume":
                        raise
                    # structure changed: keep the contract for the callers, body left undecided
                    meta["undecided"].append(dict(function=x["name"], why=str(e)))
                    fmode = "assume"
                    s = emit_fn(f, x, x["file"], fmode, meta)
                start = line
                push(s)
                meta["functions"].append(dict(id=fid, name=x.get("rename") or x["name"], source=f"{x['file']}:{f.line}", cont=x["cont"], mode=fmode, start=start, end=line, key=x.get("key"), macro=x.get("macro"), nsrc=len(f.body)))
    open(out, "w").write("".join(parts))
    return meta


if __name__ == "__main__":
    repo, out = sys.argv[1], sys.argv[2]
    fl = []
    for a in sys.argv[3:]:
        m = "prove"
        if a.startswith("assume:"):
            m, a = "assume", a[7:]
        fl.append((a, m))
    try:
        m = expand(repo, fl, out)
    except Undecided as e:
        print("UNDECIDED", e)
        sys.exit(9)
    json.dump(m, open(out + ".json", "w"), indent=1)
    for d in m["undecided"]:
        print("UNDECIDED", d)
