"""Reference interpreter: an independent model of the language, used as the oracle for recorded executions.

It has its own reader, value model and evaluator.  For every top level evaluation it predicts what an observer of the
real interpreter sees: kind of result (value or error), structural dump of the value, printed text, the line and the
module an error is reported for, and (where the model commits to it) the error message.

Raw lists are lists of the source text (code), Lst are list values; both share their element container (Python list v)
the way references are shared in the language.
"""
import json, math, os, re, sys

BUILTINS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "builtins.json")))
SIGS = {k: v[0] for k, v in BUILTINS.items()}

sys.setrecursionlimit(200000)


class Sym:
    __slots__ = ("name", "line")

    def __init__(self, name, line=None):
        self.name, self.line = name, line


class Raw:
    __slots__ = ("v", "line")

    def __init__(self, v, line=None):
        self.v, self.line = v, line


class Lst:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Dic:
    __slots__ = ("d",)

    def __init__(self):
        self.d = {}          # normalised key -> (key, value)


class Fn:
    __slots__ = ("f", "sig", "special", "name", "doc", "builtin", "module")

    def __init__(self, f, sig, special=False, name="", doc="", builtin=False, module=None):
        self.f, self.sig, self.special, self.name, self.doc, self.builtin, self.module = f, sig, special, name, doc, builtin, module


class LVal:
    __slots__ = ("set",)

    def __init__(self, s):
        self.set = s


class _N:
    def __repr__(self):
        return "NIL"


class _U:
    def __repr__(self):
        return "UNDEF"


NIL, UNDEF = _N(), _U()


class FuelError(Exception):
    """an error of the program; line/module are filled in by the innermost failing call"""

    def __init__(self, msg=None, line="?", module=None):
        Exception.__init__(self, msg)
        self.msg, self.line, self.module = msg, line, module
        self.placed = line != "?"
        self.stack = None


class Unsupported(Exception):
    """the program leaves the part of the language which is modelled"""


class OutOfSteps(Exception):
    pass


_budget = [0]


def spend(n):
    """limits work on shared or cyclic data, whose text may be exponentially long"""
    _budget[0] -= n + 1
    if _budget[0] < 0:
        raise OutOfSteps()


# ------------------------------------------------------------------ reader
INT_RE = re.compile(r"[+-]?\d+\Z")
DBL_RE = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z")
ODD_NUM = re.compile(r"[+-]?(0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*([pP][+-]?\d+)?|inf|infinity|nan(\(.*)?)\Z", re.I)


def wrap32(n):
    n &= 0xFFFFFFFF
    return n - (1 << 32) if n & 0x80000000 else n


def atom(text, line):
    if INT_RE.match(text):
        n = int(text)
        if -2147483648 <= n <= 2147483647:
            return n
    if DBL_RE.match(text):
        d = float(text)
        if not math.isinf(d) and not (d != 0 and abs(d) < 2.3e-308) and not (d == 0 and re.search(r"[1-9]", re.split("[eE]", text)[0])):
            return d
        return Sym(text, line)
    if ODD_NUM.match(text):
        raise Unsupported("number " + text)
    if text in ("true", "#t"):
        return True
    if text in ("false", "#f"):
        return False
    if text.upper() == "NIL":
        return NIL
    return Sym(text, line)


def tokenize(code):
    """list of (kind, text, line); kind: ( ) ' ` , ,@ str atom"""
    out = []
    i, n, line = 0, len(code), 1
    while i < n:
        c = code[i]
        if c == "\n":
            line += 1
            i += 1
        elif c in " \t\r\f\v":
            i += 1
        elif c == ";":
            j = code.find("\n", i)
            if j < 0:
                j = n - 1
            i = j + 1
            line += 1
        elif c in "()'`":
            out.append((c, c, line))
            i += 1
        elif c == ",":
            if i + 1 < n and code[i + 1] == "@":
                out.append((",@", ",@", line))
                i += 2
            else:
                out.append((",", ",", line))
                i += 1
        elif c == '"':
            i += 1
            s = []
            esc = False
            while True:
                if i >= n:
                    raise FuelError(line=None)
                c = code[i]
                if esc:
                    if c in "nrt":
                        s.append({"n": "\n", "r": "\r", "t": "\t"}[c])
                    elif c in "\\\"":
                        s.append(c)
                    else:
                        raise Unsupported("escape")
                    esc = False
                elif c == "\\":
                    esc = True
                elif c == '"':
                    i += 1
                    break
                else:
                    s.append(c)
                if c == "\n":
                    line += 1
                i += 1
            out.append(("str", "".join(s), line))
        elif c == "\\":
            raise Unsupported("backslash")
        else:
            j = i
            while j < n and code[j] not in " \t\r\n\f\v();'`,\"\\":
                j += 1
            out.append(("atom", code[i:j], line))
            i = j
    return out


def parse(code):
    """(do code) as Raw; FuelError if unbalanced"""
    toks = [("(", "(", 1), ("atom", "do", 1)] + tokenize(code)
    last = toks[-1][2]
    toks.append((")", ")", last))
    pos = 0

    def expr():
        nonlocal pos
        if pos >= len(toks):
            raise FuelError(line=None)
        k, t, ln = toks[pos]
        pos += 1
        if k == "(":
            v = []
            hl = None
            while True:
                if pos >= len(toks):
                    raise FuelError(line=None)
                if toks[pos][0] == ")":
                    pos += 1
                    return Raw(v, hl)
                if not v:
                    hl = toks[pos][2] if toks[pos][0] in ("atom", "str") else None
                v.append(expr())
        if k == ")":
            raise FuelError(line=None)
        if k in ("'", "`", ",", ",@"):
            if pos >= len(toks) or toks[pos][0] == ")":
                raise FuelError(line=None)
            x = expr()
            return Raw([Sym({"'": "quote", "`": "quasiquote", ",": "_unquote", ",@": "_unquotesplicing"}[k]), x])
        if k == "str":
            return t
        return atom(t, ln)

    r = expr()
    if pos != len(toks):
        raise FuelError(line=None)
    return r


# ------------------------------------------------------------------ value helpers
def isbool(x):
    return isinstance(x, bool)


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def isdbl(x):
    return isinstance(x, float)


def isstr(x):
    return isinstance(x, str)


def islist(x):
    """a list value (nil counts as the empty list)"""
    return x is NIL or isinstance(x, (Lst, Raw))


def items(x):
    if x is NIL:
        return []
    if isinstance(x, (Lst, Raw)):
        return x.v
    raise FuelError()


def val(x):
    """element of a list as a value"""
    if isinstance(x, Raw):
        return Lst(x.v)
    return x


def fmt_double(d):
    if math.isnan(d):
        return "nan"
    if math.isinf(d):
        return "inf" if d > 0 else "-inf"
    return "%f" % d


def tostr(x):
    if isstr(x):
        return x
    if isbool(x):
        return "#t" if x else "#f"
    if isint(x):
        return str(x)
    if isdbl(x):
        return fmt_double(x)
    if isinstance(x, Sym):
        return x.name
    if x is NIL:
        return "NIL"
    if x is UNDEF:
        return "<undefined>"
    if isinstance(x, (Lst, Raw)):
        spend(len(x.v))
        return "(" + " ".join(inlist(e) for e in x.v) + ")"
    if isinstance(x, Fn):
        return "function " + x.sig
    if isinstance(x, Dic):
        return dictstr(x)
    return "?"


def inlist(x):
    if isstr(x):
        return '"' + x + '"'
    return tostr(x)


def dictstr(d):
    spend(len(d.d))
    r = ", ".join("[%s : %s]" % (inlist(k), inlist(v)) for k, v in dictitems(d))
    return "{ " + r + " }"


def typeid(x):
    if x is UNDEF:
        return 0
    if x is NIL:
        return 1
    if isbool(x):
        return 2
    if isint(x):
        return 3
    if isdbl(x):
        return 4
    if isstr(x):
        return 5
    if isinstance(x, (Lst, Raw)):
        return 6
    if isinstance(x, Fn):
        return 7
    if isinstance(x, Sym):
        return 8
    if isinstance(x, Dic):
        return 9
    raise Unsupported("type")


TYPENAMES = ["Undefined", "Nil", "Bool", "Int", "Double", "String", "List", "Function", "Symbol", "NativeDictionary"]


def keyof(x):
    """identity of a dictionary key and its place in the order of the keys"""
    if isstr(x):
        return (0, x)
    if isint(x) or isdbl(x):
        if isdbl(x) and math.isnan(x):
            raise Unsupported("nan key")
        return (1, float(x))
    if x is NIL or x is UNDEF:
        return (2 + typeid(x), "")
    if isinstance(x, (Fn, Dic)):
        raise Unsupported("key by identity")
    return (2 + typeid(x), tostr(x))


def dictitems(d):
    def order(k):
        return (k[0], k[1].encode("latin-1") if isinstance(k[1], str) else k[1])
    return [d.d[k] for k in sorted(d.d, key=order)]


def atoi(s):
    m = re.match(r"[ \t\n\v\f\r]*([+-]?\d+)", s)
    if not m:
        return 0
    n = max(-(1 << 63), min((1 << 63) - 1, int(m.group(1))))
    return wrap32(n)


def atof(s):
    m = re.match(r"[ \t\n\v\f\r]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)", s)
    if re.match(r"[ \t\n\v\f\r]*[+-]?(0[xX]|inf|nan)", s, re.I):
        raise Unsupported("number text")
    return float(m.group(1)) if m else 0.0


def toint(x):
    if isbool(x):
        return int(x)
    if isint(x):
        return x
    if isdbl(x):
        if not (-2147483649.0 < x < 2147483648.0):
            raise FuelError()
        return int(x)
    if isstr(x):
        return atoi(x)
    raise FuelError()


def todbl(x):
    if isbool(x):
        return 1.0 if x else 0.0
    if isint(x) or isdbl(x):
        return float(x)
    if isstr(x):
        return atof(x)
    raise FuelError()


def strictint(x):
    if not isint(x):
        raise FuelError()
    return x


def strictbool(x):
    if not isbool(x):
        raise FuelError()
    return x


def truthy(x):
    """condition of a loop"""
    if isbool(x):
        return x
    if isint(x):
        return x != 0
    if isdbl(x):
        return abs(x) > 1e-8
    raise FuelError()


def equal(l, r):
    if isinstance(l, Dic) and isinstance(r, Dic):
        raise Unsupported("dict equality")
    if isinstance(l, Sym) or isinstance(r, Sym):
        return isinstance(l, Sym) and isinstance(r, Sym) and l.name == r.name
    if isbool(l) and isbool(r):
        return l == r
    if l is NIL or r is NIL:
        return l is NIL and r is NIL
    if islist(l) and islist(r):
        a, b = items(l), items(r)
        spend(len(a))
        return len(a) == len(b) and all(eleq(x, y) for x, y in zip(a, b))
    if l is UNDEF or r is UNDEF:
        return l is UNDEF and r is UNDEF
    if isstr(l) or isstr(r):
        return tostr(l) == tostr(r)
    if isdbl(l) or isdbl(r):
        return abs(todbl(l) - todbl(r)) < 1e-8
    if isint(l) or isint(r):
        return toint(l) == toint(r)
    raise FuelError()


def eleq(l, r):
    """equality of list elements: numbers by value, otherwise the types must agree"""
    l, r = val(l), val(r)
    if (isint(l) or isdbl(l)) and (isint(r) or isdbl(r)):
        return equal(l, r)
    if typeid(l) != typeid(r):
        return False
    if isinstance(l, Fn):
        return l is r
    return equal(l, r)


def less(l, r, oreq):
    if isdbl(l) or isdbl(r):
        a, b = todbl(l), todbl(r)
    elif isint(l) or isint(r):
        a, b = toint(l), toint(r)
    elif isstr(l) or isstr(r):
        a, b = tostr(l).encode("latin-1"), tostr(r).encode("latin-1")
    else:
        raise FuelError("no %s operator for types %s and %s" % ("<= or >=" if oreq else "< or >", TYPENAMES[typeid(l)], TYPENAMES[typeid(r)]))
    return a <= b if oreq else a < b


def noop(op, l, r):
    return FuelError("no %s operator for types %s and %s" % (op, TYPENAMES[typeid(l)], TYPENAMES[typeid(r)]))


def fdiv(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def op_add(l, r):
    if isstr(l) or isstr(r):
        return tostr(l) + tostr(r)
    if isdbl(l) or isdbl(r):
        return todbl(l) + todbl(r)
    if isint(l) or isint(r):
        return wrap32(toint(l) + toint(r))
    if islist(l) and islist(r):
        return Lst(list(items(l)) + list(items(r)))
    raise noop("+", l, r)


def op_sub(l, r):
    if isdbl(l) or isdbl(r):
        return todbl(l) - todbl(r)
    if isint(l) or isint(r):
        return wrap32(toint(l) - toint(r))
    raise noop("-", l, r)


def op_mul(l, r):
    if isdbl(l) or isdbl(r):
        return todbl(l) * todbl(r)
    if isint(l) or isint(r):
        return wrap32(toint(l) * toint(r))
    raise noop("*", l, r)


def op_div(l, r):
    if isdbl(l) or isdbl(r):
        return fdiv(todbl(l), todbl(r))
    if isint(l) or isint(r):
        a, b = toint(l), toint(r)
        if b == 0:
            raise FuelError("Division by zero")
        return wrap32(abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
    raise noop("/", l, r)


def op_mod(l, r):
    if isdbl(l) or isdbl(r):
        a, b = todbl(l), todbl(r)
        if b == 0 or math.isinf(a) or math.isnan(a) or math.isnan(b):
            return math.nan
        return math.fmod(a, b)
    if isint(l) or isint(r):
        a, b = toint(l), toint(r)
        if b == 0:
            raise FuelError("Division by zero")
        m = abs(a) % abs(b)
        return -m if a < 0 else m
    raise noop("%", l, r)


# ------------------------------------------------------------------ dump (same notation as the driver)
def dump(x, depth=0):
    if depth > 200:
        return "..."
    if x is None:
        return "0"
    if x is UNDEF:
        return "u"
    if x is NIL:
        return "n"
    if isbool(x):
        return "#t" if x else "#f"
    if isint(x):
        return "i%d" % x
    if isdbl(x):
        return "dnan" if math.isnan(x) else "d%.17g" % x
    if isstr(x):
        return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(x, (Lst, Raw)):
        spend(len(x.v))
        return "(" + " ".join(dump(e, depth + 1) for e in x.v) + ")"
    if isinstance(x, Fn):
        return 'F"' + x.sig.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(x, Sym):
        return "'" + x.name
    if isinstance(x, Dic):
        return "{" + ", ".join(dump(k, depth + 1) + ":" + dump(v, depth + 1) for k, v in dictitems(x)) + "}"
    if isinstance(x, LVal):
        return "L"
    raise Unsupported("dump")


# ------------------------------------------------------------------ scopes
class Scope:
    __slots__ = ("vars", "name", "glob", "closure", "prev", "module", "line", "in_return", "lvalue", "args", "in_eval", "uname", "udoc", "depth", "tok")

    def __init__(self, name, glob=None, module="", closure=None):
        self.vars = {}
        self.name = name
        self.glob = glob
        self.closure = closure
        self.prev = None
        self.module = module or (glob.module if glob else "")
        self.line = None
        self.in_return = False
        self.lvalue = False
        self.in_eval = False
        self.args = None
        self.uname = ""
        self.udoc = ("", "")
        self.depth = 1
        self.tok = "?"

    def find(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return s
            s = s.closure
        return None


class Interp:
    def __init__(self, inp="", files=None, maxsteps=200000, libpath="", fuelpath=None):
        self.fuelpath = fuelpath
        self.out = []
        self.input = inp
        self.inpos = 0
        self.files = files if files is not None else {}
        self.macros = {}
        self.modules = {}        # file name -> Scope, searched in order of the names
        self.steps = 0
        self.total = 0
        self.maxsteps = maxsteps
        self.trace_on = False
        self.trace_buf = ""
        self.tracing = False
        self.fncalls = 0
        self.events = []
        self.hook = self.onerror = None      # debugger: called before each call, and for errors leaving a function
        self.libpath = libpath
        self.g = Scope("<main>")
        self.g.glob = self.g
        self.install()

    # -------------------------------------------------------------- top level
    def eval(self, code, module="main", tracing=False, expand=False):
        """observation of one evaluation: dict k, v, o, line, mod, m"""
        self.out = []
        self.total += self.steps
        self.steps = 0
        g = self.g
        try:
            r = self.eval_code(code, g, module, tracing, expand)
            res = {"k": "ok", "v": dump(r), "s": tostr(r) if r is not None else ""}
            self.last = r
        except FuelError as e:
            res = {"k": "err", "line": e.line if e.placed else None, "mod": e.module, "m": e.msg, "stack": e.stack}
        except RecursionError:
            raise Unsupported("deep recursion")
        res["o"] = "".join(self.out)
        return res

    def eval_code(self, code, scope, module, tracing=False, expand=False):
        scope.module = module
        if scope is self.g:
            self.tracing = tracing
        if not scope.in_eval:
            scope.in_return = False
        ast = parse(code)
        ast = self.expand(ast, scope)
        if expand and ast is not None:
            return val(ast)
        return self.ev(ast, scope)

    # -------------------------------------------------------------- evaluation
    def resolve(self, sym, scope):
        s = scope.find(sym.name)
        if s is not None:
            return s.vars[sym.name]
        if sym.name in self.g.vars:
            return self.g.vars[sym.name]
        for f in sorted(self.modules):
            if sym.name in self.modules[f].vars:
                return self.modules[f].vars[sym.name]
        return sym

    def evv(self, ast, scope):
        r = self.ev(ast, scope)
        return NIL if r is None else r

    def evarg(self, ast, scope):
        return self.evv(ast, scope) if isinstance(ast, (Raw, Lst)) or ast is NIL else ast

    def place(self, e, scope, line):
        if not e.placed:
            if line is not None:
                scope.line = line
            e.line = scope.line
            e.module = scope.module
            e.placed = True
            e.stack = self.stack(scope)

    def stack(self, scope):
        r = []
        while scope is not None:
            r.append((scope.name, scope.line, scope.module))
            scope = scope.prev
        return r[::-1]

    def fail(self, scope, msg=None):
        e = FuelError(msg)
        self.place(e, scope, None)
        return e

    def ev(self, ast, scope):
        if ast is None:
            return None
        if isinstance(ast, Sym):
            return val(self.resolve(ast, scope))
        if isinstance(ast, (Raw, Lst)):
            lst = list(ast.v)
        else:
            return ast
        if not lst:
            return NIL
        self.steps += 1
        if self.steps > self.maxsteps:
            raise OutOfSteps()
        head = lst[0]
        hname = tostr(head)
        if hname in self.macros:
            kind, formals, body = self.macros[hname]
            if kind != "eval":
                raise Unsupported("expand macro at run time")
            return self.ev(self.replace_args(hname, head, formals, lst, body, scope), scope)
        if isinstance(head, Raw):
            raise Unsupported("list as function")
        if isinstance(head, Sym):
            line = head.line
        else:
            line = ast.line if isinstance(ast, Raw) else None
        if line is not None:
            scope.line, scope.tok = line, hname
        fn = self.resolve(head, scope) if isinstance(head, Sym) else head
        if not isinstance(fn, Fn):
            raise self.fail(scope, 'Function "%s" not found' % tostr(fn))
        if fn.special:
            args = lst[1:]
        else:
            res = [self.resolve(a, scope) if isinstance(a, Sym) else a for a in lst[1:]]
        if self.tracing:
            self.out.append("--> " + hname + "\n")
        if not fn.special:
            args = [self.evv(a, scope) if isinstance(a, Raw) else a for a in res]
        if line is not None:
            scope.line, scope.tok = line, hname
        self.events.append((scope.line, scope.name)) if self.events is not None else None
        if self.hook is not None:
            self.hook(scope, lst)
        try:
            return fn.f(args, scope)
        except FuelError as e:
            if not e.placed and line is not None:
                scope.tok = hname
            self.place(e, scope, line)
            raise

    # -------------------------------------------------------------- macros
    def subst(self, name, value, expr, splice, hit):
        out = []
        for e in expr:
            if isinstance(e, Sym) and e.name == name:
                hit[0] = True
                if splice and isinstance(value, Raw):
                    out.extend(value.v)
                else:
                    out.append(value)
            elif isinstance(e, (Raw,)):
                out.append(Raw(self.subst(name, value, e.v, splice, hit), e.line))
            else:
                out.append(e)
        return out

    def replace_args(self, hname, head, formals, call, body, scope):
        real = call[1:]
        hit = [False]
        expr = list(body)
        for i, f in enumerate(formals):
            expr = self.subst(tostr(f), Sym("###%d###" % i), expr, False, hit)
        quoted = Raw([Sym("quote"), Lst(list(real))])
        expr = self.subst("quoted-macro-args", quoted, expr, True, hit)
        if len(real) < len(formals):
            if isinstance(head, Sym) and head.line is not None:
                scope.line = head.line
            raise self.fail(scope, "Bad argument count in macro %s, has %d expected %d" % (hname, len(real), len(formals)))
        for i in range(len(formals)):
            v = real[i]
            if isinstance(v, Raw):
                v = self.expand_pass(v, scope, [False])
                v = NIL if v is None else v
            if isinstance(v, Raw):
                v = Raw(v.v, v.line)
            expr = self.subst("###%d###" % i, v, expr, False, hit)
        return Raw(expr, body_line(body))

    def expand(self, ast, scope):
        while True:
            hit = [False]
            ast = self.expand_pass(ast, scope, hit)
            if not hit[0]:
                return ast

    def as_code(self, r):
        """the value of a macro is code at every depth"""
        if isinstance(r, (Lst, Raw)):
            spend(len(r.v))
            return Raw([self.as_code(x) for x in r.v], r.line if isinstance(r, Raw) else None)
        return r

    def expand_pass(self, ast, scope, hit):
        if not isinstance(ast, Raw):
            return ast
        lst = ast.v
        if not lst:
            return ast
        hname = tostr(lst[0])
        if hname == "define-macro-expand" and isinstance(self.g.vars.get(hname), Fn):
            if isinstance(lst[0], Sym) and lst[0].line is not None:
                scope.line = lst[0].line
            args = lst[1:]
            if len(args) != 3:
                raise self.fail(scope)
            body = self.expand(args[2], scope) if isinstance(args[2], Raw) else Raw([args[2]])
            formals = args[1].v if isinstance(args[1], Raw) else [args[1]]
            self.macros[tostr(args[0])] = ("expand", formals, body.v if body is not None else [])
            return None
        m = self.macros.get(hname)
        if m and m[0] == "expand":
            hit[0] = True
            code = self.replace_args(hname, lst[0], m[1], lst, m[2], scope)
            r = self.evv(code, scope)
            return self.as_code(r)
        out = []
        for e in lst:
            x = self.expand(e, scope)
            if x is not None:
                out.append(Raw(x.v) if isinstance(x, Lst) else x)
        return Raw(out, ast.line)

    # -------------------------------------------------------------- functions
    def call(self, fn, args, scope):
        r = fn.f(args, scope)
        return NIL if r is None else r

    def make_fn(self, formals, body, scope):
        name = scope.uname
        module = scope.module
        sig, doc = scope.udoc
        interp = self

        def f(args, caller):
            child = Scope(name, interp.g, module, scope)
            child.prev = caller
            child.depth = caller.depth + 1
            interp.fncalls += 1
            if child.depth > 2500:
                raise Unsupported("depth")
            names = [tostr(a) for a in formals]
            a = list(args) + [NIL] * (len(names) - len(args))
            for n, v in zip(names, a):
                child.vars[n] = v
            child.args = a
            if len(a) > len(names):
                child.vars["_additionalArgs"] = Lst(list(a[len(names):]))
            child.lvalue = caller.lvalue
            if interp.onerror is None:
                return interp.ev(body, child)
            try:
                return interp.ev(body, child)
            except FuelError as e:
                if interp.onerror is not None:
                    interp.onerror(e, child, body)
                raise

        return Fn(f, sig, name=name, doc=doc, module=module)

    def install(self):
        g = self.g.vars
        I = self

        def reg(names, f, special=False, sig=None):
            for n in names.split():
                g[n] = Fn(f, sig or SIGS.get(n, "(%s)" % n), special=special, name=n, builtin=True)

        def need(args, lo, hi=None):
            hi = lo if hi is None else hi
            if not lo <= len(args) <= hi:
                raise _BadCount()

        class _BadCount(FuelError):
            pass

        def builtin(names, lo, hi=None, special=False, label=None):
            hi_ = lo if hi is None else hi

            def deco(f):
                for n in names.split():
                    def w(args, scope, f=f, n=n):
                        if not (lo <= len(args) and (hi_ == -1 or len(args) <= hi_)):
                            raise I.fail(scope)
                        return f(args, scope)
                    g[n] = Fn(w, SIGS.get(n, "(%s)" % n), special=special, name=n, builtin=True)
                return f
            return deco

        # arithmetic
        def fold(op):
            def f(args, scope):
                r = None
                for a in args:
                    a = val(a)
                    r = a if r is None else op(r, a)
                return r
            return f
        for names, op in (("string add +", op_add), ("mul *", op_mul), ("div /", op_div), ("mod %", op_mod)):
            reg(names, fold(op))

        def sub(args, scope):
            if len(args) == 1:
                a = args[0]
                if isint(a):
                    return wrap32(-a)
                if isdbl(a):
                    return -a
                raise FuelError()
            return fold(op_sub)(args, scope)
        reg("sub -", sub)
        builtin("<<", 2)(lambda a, s: wrap32(strictint(a[0]) << (strictint(a[1]) & 31)))
        builtin(">>", 2)(lambda a, s: strictint(a[0]) >> (strictint(a[1]) & 31))
        builtin("|", 2)(lambda a, s: strictint(a[0]) | strictint(a[1]))
        builtin("&", 2)(lambda a, s: strictint(a[0]) & strictint(a[1]))
        builtin("^", 2)(lambda a, s: strictint(a[0]) ^ strictint(a[1]))
        builtin("~", 1)(lambda a, s: ~strictint(a[0]))
        builtin("<", 2)(lambda a, s: less(val(a[0]), val(a[1]), False))
        builtin(">", 2)(lambda a, s: less(val(a[1]), val(a[0]), False))
        builtin("<=", 2)(lambda a, s: less(val(a[0]), val(a[1]), True))
        builtin(">=", 2)(lambda a, s: less(val(a[1]), val(a[0]), True))
        builtin("equal = ==", 2)(lambda a, s: equal(val(a[0]), val(a[1])))
        builtin("!=", 2)(lambda a, s: not equal(val(a[0]), val(a[1])))
        builtin("not !", 1)(lambda a, s: not strictbool(a[0]))

        # lists
        reg("list", lambda a, s: Lst(list(a)))

        @builtin("map", 2)
        def _map(a, s):
            if not isinstance(a[0], Fn):
                raise I.fail(s, "No function in map")
            if not islist(a[1]):
                raise I.fail(s, "No list in map")
            return Lst([I.call(a[0], [val(e)], s) for e in list(items(a[1]))])

        @builtin("reduce", 3)
        def _reduce(a, s):
            if not isinstance(a[0], Fn):
                raise I.fail(s, "No function in reduce")
            if not islist(a[1]):
                raise I.fail(s, "No list in reduce")
            r = val(a[2])
            for e in list(items(a[1])):
                r = I.call(a[0], [val(e), r], s)
            return r

        def cons(a, s):
            v = []
            if a:
                v.append(a[0])
            if len(a) > 1:
                v.extend(items(a[1])) if islist(a[1]) else v.append(a[1])
            return Lst(v)
        reg("cons", cons)

        @builtin("len", 1)
        def _len(a, s):
            x = a[0]
            if isinstance(x, Dic):
                return len(x.d)
            if isstr(x):
                return len(x)
            return len(items(x))

        def lval(a, i):
            def st(v):
                c = items(a)
                if not 0 <= i < len(c):
                    raise FuelError()
                c[i] = v
            return LVal(st)

        @builtin("first car", 1)
        def _first(a, s):
            x = a[0]
            if isstr(x):
                return x[:1]
            if s.lvalue:
                return lval(x, 0)
            v = items(x)
            if not v:
                raise FuelError()
            return val(v[0])

        @builtin("last", 1)
        def _last(a, s):
            x = a[0]
            if isstr(x):
                if not x:
                    raise FuelError()
                return x[-1:]
            if s.lvalue:
                def st(v):
                    c = items(x)
                    if not c:
                        raise FuelError()
                    c[len(c) - 1] = v
                return LVal(st)
            v = items(x)
            if not v:
                raise FuelError()
            return val(v[-1])

        @builtin("rest cdr", 1)
        def _rest(a, s):
            x = a[0]
            if isstr(x):
                if not x:
                    raise FuelError()
                return x[1:]
            return Lst(list(items(x)[1:]))

        @builtin("nth", 2)
        def _nth(a, s):
            i = strictint(a[0])
            x = a[1]
            if isstr(x):
                if not 0 <= i <= len(x):
                    raise FuelError()
                return x[i:i + 1]
            if s.lvalue:
                return lval(x, i)
            v = items(x)
            if not 0 <= i < len(v):
                raise FuelError()
            return val(v[i])

        @builtin("push", 2, 3)
        def _push(a, s):
            pos = toint(a[2]) if len(a) > 2 else 0
            if not islist(a[1]):
                raise FuelError()
            v = items(a[1])
            if 0 <= pos < len(v):
                v.insert(pos, val(a[0]))
                return Lst(list(v))
            return NIL

        @builtin("pop", 1, 2)
        def _pop(a, s):
            pos = toint(a[1]) if len(a) > 1 else 0
            if not islist(a[0]):
                raise FuelError()
            v = items(a[0])
            if 0 <= pos < len(v):
                return val(v.pop(pos))
            return NIL

        def append(a, s):
            v = []
            for x in a:
                v.extend(items(x))
            return Lst(v)
        reg("append", append)

        @builtin("reverse", 1)
        def _reverse(a, s):
            if isstr(a[0]):
                return a[0][::-1]
            return Lst(list(items(a[0]))[::-1])

        # conversions and text
        builtin("sym", 1)(lambda a, s: Sym(tostr(a[0])))
        builtin("str", 1)(lambda a, s: tostr(a[0]))
        builtin("type", 1)(lambda a, s: typeid(a[0]))
        builtin("typestr", 1)(lambda a, s: TYPENAMES[typeid(a[0])])

        def parseint(x):
            t = tostr(x)
            if re.match(r"[ \t\n\v\f\r]*[+-]?\d+\Z", t):
                n = int(t)
                if -2147483648 <= n <= 2147483647:
                    return n
            return UNDEF

        def parseflt(x):
            t = tostr(x)
            if re.match(r"[ \t\n\v\f\r]*[+-]?(0[xX]|inf|nan)", t, re.I):
                raise Unsupported("number text")
            m = re.match(r"[ \t\n\v\f\r]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)", t)
            if not m:
                return UNDEF
            d = float(m.group(1))
            if math.isinf(d) or (d != 0 and abs(d) < 2.3e-308) or (d == 0 and re.search(r"[1-9]", re.split("[eE]", m.group(1))[0])):
                return UNDEF
            return d
        builtin("parse-integer", 1)(lambda a, s: parseint(a[0]))
        builtin("parse-float", 1)(lambda a, s: parseflt(a[0]))

        @builtin("int", 1)
        def _int(a, s):
            x = a[0]
            if isbool(x) or isint(x):
                return int(x)
            if isdbl(x):
                return toint(x)
            if isstr(x):
                return parseint(x)
            return UNDEF

        @builtin("float", 1)
        def _float(a, s):
            x = a[0]
            if isbool(x) or isint(x) or isdbl(x):
                return float(x)
            if isstr(x):
                return parseflt(x)
            return UNDEF

        @builtin("search", 2, 4)
        def _search(a, s):
            t = tostr(a[0])
            pos = toint(a[2]) if len(a) > 2 else -1
            ln = toint(a[3]) if len(a) > 3 else -1
            x = val(a[1])
            if isstr(x):
                if pos == -1:
                    return x.find(t)
                if pos < 0 or pos > len(x):
                    return -1
                if ln == -1:
                    return x.find(t, pos)
                if ln < 0:
                    raise Unsupported("negative length")
                if pos + ln > len(x):
                    end = len(x)
                else:
                    end = pos + ln
                return x.find(t, pos, end)
            if islist(x):
                for i, e in enumerate(items(x)):
                    if tostr(e) == t:
                        return i
                return -1
            raise FuelError()

        @builtin("slice", 3)
        def _slice(a, s):
            t = tostr(a[0])
            p, n = toint(a[1]), toint(a[2])
            if p < 0 or p > len(t):
                raise FuelError()
            return t[p:p + n] if n >= 0 else t[p:]

        @builtin("replace", 3)
        def _replace(a, s):
            t, f, r = tostr(a[0]), tostr(a[1]), tostr(a[2])
            return t.replace(f, r) if f else t
        builtin("trim", 1)(lambda a, s: tostr(a[0]).strip(" \t\n\v\f\r"))
        builtin("lower-case", 1)(lambda a, s: "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in tostr(a[0])))
        builtin("upper-case", 1)(lambda a, s: "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in tostr(a[0])))

        @builtin("format", 1, 6)
        def _format(a, s):
            return ref_format(tostr(a[0]), [tostr(x) for x in a[1:]])

        # output
        def rep(a):
            t = ""
            for x in a:
                if t:
                    t += " "
                t += tostr(x)
            if I.trace_on:
                I.trace_buf += t
            return t

        def pr(a, s):
            t = rep(a)
            I.out.append(t)
            return t

        def prln(a, s):
            t = rep(a)
            I.out.append(t + "\n")
            return t
        reg("print", pr)
        reg("println", prln)
        builtin("sleep", 1)(lambda a, s: UNDEF if toint(a[0]) >= -1 else UNDEF)
        builtin("flush", 0)(lambda a, s: UNDEF)

        @builtin("trace", 1)
        def _trace(a, s):
            I.trace_on = strictbool(a[0])
            return I.trace_on
        reg("gettrace", lambda a, s: I.trace_buf)

        @builtin("readline", 0)
        def _readline(a, s):
            return I.readline()
        reg("nop", lambda a, s: UNDEF)

        @builtin("return", 1)
        def _return(a, s):
            s.in_return = True
            return val(a[0])

        # arguments
        def fargs(s):
            if s.args is None:
                raise I.fail(s)
            return s.args
        builtin("argscount", 0)(lambda a, s: len(fargs(s)))
        builtin("args", 0)(lambda a, s: Lst(list(fargs(s))))

        @builtin("arg", 1)
        def _arg(a, s):
            i = strictint(a[0])
            v = fargs(s)
            if not 0 <= i < len(v):
                raise FuelError()
            return val(v[i])

        # evaluation
        @builtin("apply", 2)
        def _apply(a, s):
            f = I.evv(a[0], s)
            if not islist(a[1]):
                raise I.fail(s, "Expected list as arguments in apply")
            if not isinstance(f, Fn):
                raise FuelError()
            return f.f([val(e) for e in items(a[1])], s)

        @builtin("eval", 1)
        def _eval(a, s):
            if islist(a[0]):
                return I.ev(Raw(list(items(a[0]))), s)
            return I.ev(a[0], s)

        @builtin("evalstr", 1)
        def _evalstr(a, s):
            if not isstr(a[0]):
                raise Unsupported("evalstr of non string")
            old, oldin = s.module, s.in_eval
            s.in_eval = True
            try:
                return I.eval_code(a[0], s, "<evalstr>:" + old + ":" + a[0], I.tracing)
            finally:
                s.module, s.in_eval = old, oldin

        # dictionaries
        def dic(x):
            if not isinstance(x, Dic):
                raise FuelError()
            return x
        builtin("make-dict", 0)(lambda a, s: Dic())

        @builtin("dict-set", 3)
        def _dset(a, s):
            d = dic(a[0]).d
            k = keyof(val(a[1]))
            d[k] = (d[k][0] if k in d else val(a[1]), val(a[2]))
            return val(a[2])

        @builtin("dict-get", 2)
        def _dget(a, s):
            d = dic(a[0]).d
            k = keyof(val(a[1]))
            return d[k][1] if k in d else NIL

        @builtin("dict-remove", 2)
        def _drem(a, s):
            return dic(a[0]).d.pop(keyof(val(a[1])), None) is not None
        builtin("dict-keys", 1)(lambda a, s: Lst([k for k, v in dictitems(dic(a[0]))]))

        @builtin("dict-clear", 1)
        def _dclr(a, s):
            dic(a[0]).d.clear()
            return UNDEF
        builtin("dict-contains-key", 2)(lambda a, s: keyof(val(a[1])) in dic(a[0]).d)
        builtin("dict-contains-value", 2)(lambda a, s: any(eleq(v, a[1]) for k, v in dictitems(dic(a[0]))))

        # variables
        def defform(names, glob):
            @builtin(names, 2, special=True)
            def _def(a, s):
                sym = I.evarg(a[0], s)
                if not isinstance(sym, (Sym, str)):
                    raise I.fail(s, "Symbol expected")
                v = I.evv(a[1], s)
                (I.g if glob else s).vars[tostr(sym)] = v
                return v
        defform("def", False)
        defform("gdef", True)

        @builtin("setf", 2, special=True)
        def _setf(a, s):
            old = s.lvalue
            s.lvalue = True
            try:
                target = I.evarg(a[0], s)
            finally:
                s.lvalue = old
            v = I.evv(a[1], s)
            if isinstance(target, LVal):
                target.set(v)
                return v
            n = tostr(target)
            w = s.find(n) if n else None
            if w is None and n in I.g.vars:
                w = I.g
            if w is None:
                raise FuelError("Symbol " + n + " not found")
            w.vars[n] = v
            return v

        @builtin("rval", 1, special=True)
        def _rval(a, s):
            old = s.lvalue
            s.lvalue = False
            try:
                return I.evv(a[0], s)
            finally:
                s.lvalue = old
        builtin("need-l-value", 0)(lambda a, s: s.lvalue)
        builtin("delvar", 1)(lambda a, s: s.vars.pop(tostr(a[0]), None) is not None)

        # special forms
        def boolform(names, init):
            def f(a, s):
                r = init
                for x in a:
                    v = strictbool(I.evv(x, s))
                    r = (r and v) if init else (r or v)
                    if r != init:
                        break
                return r
            reg(names, f, special=True)
        boolform("and &&", True)
        boolform("or ||", False)
        builtin("quote", 1, special=True)(lambda a, s: Lst(list(a[0].v)) if isinstance(a[0], Raw) else a[0])

        def has_unquote(e):
            """unquote marks which belong to no inner template"""
            if not isinstance(e, Raw) or not e.v:
                return False
            if isinstance(e.v[0], Sym) and e.v[0].name in ("_unquote", "_unquotesplicing"):
                return True
            return not (isinstance(e.v[0], Sym) and e.v[0].name == "quasiquote") and any(has_unquote(x) for x in e.v)

        def qq(expr, s):
            """-> (value, splicing)"""
            if len(expr) == 2 and isinstance(expr[0], Sym):
                if expr[0].name in ("_unquote", "_unquotesplicing"):
                    if has_unquote(expr[1]):
                        raise Unsupported("unquote in an unquoted expression")
                    return I.evv(expr[1], s), expr[0].name == "_unquotesplicing"
                if expr[0].name == "quasiquote":
                    return Raw(list(expr)), False
            out = []
            for e in expr:
                if isinstance(e, Raw):
                    r, sp = qq(e.v, s)
                    if sp:
                        out.extend(items(r))
                    else:
                        out.append(r)
                else:
                    out.append(e)
            return Raw(out), False

        @builtin("quasiquote", 1, special=True)
        def _qq(a, s):
            if not isinstance(a[0], Raw):
                return a[0]
            r, sp = qq(a[0].v, s)
            if sp:
                raise Unsupported("splicing at top level")
            return val(r)

        @builtin("if", 2, 3, special=True)
        def _if(a, s):
            c = strictbool(I.evv(a[0], s))
            return I.ev(a[1] if c else (a[2] if len(a) > 2 else None), s)

        @builtin("while", 2, special=True)
        def _while(a, s):
            r = UNDEF
            c = I.evv(a[0], s)
            while truthy(c):
                I.steps += 1
                if I.steps > I.maxsteps:
                    raise OutOfSteps()
                r = I.ev(a[1], s)
                if s.in_return:
                    break
                c = I.evv(a[0], s)
            return r

        def do(a, s):
            r = UNDEF
            for st in a:
                if not isinstance(st, Raw):
                    e = FuelError("List expected in do", line=st.line if isinstance(st, Sym) else None, module=s.module)
                    e.placed = isinstance(st, Sym) and st.line is not None
                    if not e.placed:
                        e.placed, e.line = True, None
                    e.stack = I.stack(s)
                    raise e
                r = I.ev(st, s)
                if s.in_return:
                    break
            return r
        reg("do begin", do, special=True)

        @builtin("fn lambda", 2, special=True)
        def _fn(a, s):
            f = a[0]
            if isinstance(f, (Raw, Lst)):
                formals = f.v
            elif f is NIL:
                formals = []
            else:
                raise Unsupported("formal arguments")
            return I.make_fn(formals, a[1], s)

        def defnform(names, defname):
            @builtin(names, 3, special=True)
            def _defn(a, s):
                if not isinstance(a[1], (Raw, Lst)):
                    raise Unsupported("formal arguments")
                old = (s.uname, s.udoc)
                try:
                    s.udoc = ("(" + " ".join([tostr(a[0])] + [tostr(x) for x in a[1].v]) + ")", "")
                    s.uname = tostr(I.evarg(a[0], s))
                    f = I.make_fn(a[1].v, a[2], s)
                finally:
                    s.uname, s.udoc = old
                d = I.g.vars[defname]
                return d.f([a[0], f], s)
        defnform("defn", "def")
        defnform("gdefn", "gdef")

        @builtin("define-macro define-macro-eval", 3, special=True)
        def _dm(a, s):
            if not isinstance(a[1], Raw) or not isinstance(a[2], Raw):
                raise Unsupported("macro")
            I.macros[tostr(a[0])] = ("eval", list(a[1].v), list(a[2].v))
            return None
        reg("define-macro-expand", lambda a, s: (_ for _ in ()).throw(Unsupported("define-macro-expand at run time")))

        # files and modules
        builtin("File-Exists", 1)(lambda a, s: tostr(a[0]) in I.files)
        builtin("File-ReadAllText", 1)(lambda a, s: I.files.get(tostr(a[0]), ""))

        @builtin("File-WriteAllText", 2)
        def _fw(a, s):
            n = tostr(a[0])
            if n.startswith("nodir") and "/" in n:
                return False
            if n == "/dev/full":
                return tostr(a[1]) == ""
            if n.startswith("/") or n in ("", "."):
                raise Unsupported("path")
            I.files[n] = tostr(a[1])
            return True

        def imp(a, s):
            r = UNDEF
            for m in a:
                org = tostr(m).replace("\\", "/")

                def norm(x):
                    return x if x.startswith("/") or not x else os.path.normpath(x)

                def ext(x):
                    return x if x.endswith(".fuel") else x + ".fuel"
                cands = [org, I.libpath + "/" + ext(org), "./Library/" + ext(org), "./lib/fuel/" + ext(org)]
                name = next((c for c in cands if norm(c) in I.files), None)
                if name is None:
                    tried = cands[3]
                    if I.fuelpath is not None:
                        tried = I.fuelpath + "/" + ext(org)
                        if norm(tried) in I.files:
                            name = tried
                if name is None:
                    I.out.append("WARNING: Library %s not found! Tried path %s\n" % (org, tried))
                    continue
                code = I.files[norm(name)]
                if not code:
                    continue
                sc = Scope("import " + name, I.g, name)
                sc.prev = s
                sc.depth = s.depth + 1
                r = I.eval_code(code, sc, name)
                I.modules[name] = sc
            return r
        reg("import", imp)

        # mathematics
        def m1(n, f):
            builtin(n, 1)(lambda a, s: f(todbl(val(a[0]))))

        def safe(f):
            def w(x):
                try:
                    return float(f(x))
                except ValueError:
                    return math.nan
                except OverflowError:
                    return math.copysign(math.inf, x) if f is math.sinh else math.inf
            return w
        builtin("Math-Pi", 0)(lambda a, s: 3.14159265358979323846)
        for n, f in (("Sin", math.sin), ("Sinh", math.sinh), ("Asin", math.asin), ("Cos", math.cos), ("Cosh", math.cosh), ("Acos", math.acos),
                     ("Tan", math.tan), ("Tanh", math.tanh), ("Atan", math.atan), ("Exp", math.exp), ("Sqrt", math.sqrt), ("Abs", abs)):
            m1("Math-" + n, safe(f))
        m1("Math-Log", lambda x: -math.inf if x == 0 else safe(math.log)(x))
        m1("Math-Log10", lambda x: -math.inf if x == 0 else safe(math.log10)(x))

        def keepinf(f):
            return lambda x: x if math.isinf(x) or math.isnan(x) else math.copysign(float(f(x)), x)
        m1("Math-Round", keepinf(lambda x: math.floor(abs(x) + 0.5) if abs(x) < 4503599627370496.0 and abs(x) != 0.49999999999999994 else (abs(x) if abs(x) > 1 else 0.0)))
        m1("Math-Truncate", keepinf(lambda x: math.trunc(x)))
        m1("Math-Floor", keepinf(lambda x: math.floor(x)))
        m1("Math-Ceiling", keepinf(lambda x: math.ceil(x)))

        @builtin("Math-Pow", 2)
        def _pow(a, s):
            x, y = todbl(val(a[0])), todbl(val(a[1]))
            odd = y == math.floor(y) and math.fmod(y, 2) != 0 if not math.isinf(y) and not math.isnan(y) else False
            try:
                return math.pow(x, y)
            except OverflowError:
                return -math.inf if x < 0 and odd else math.inf
            except ValueError:
                if x == 0:
                    return math.copysign(math.inf, x) if odd else math.inf
                return math.nan

        def _vars(a, s):
            I.out.append("variables:\n")
            for k in sorted(s.vars, key=lambda x: x.encode("latin-1")):
                v = s.vars[k]
                if isinstance(v, Fn) and v.builtin or isinstance(v, LVal):
                    continue
                t = '"' + v + '"' if isstr(v) else tostr(v)
                I.out.append("%s --> %s : %s \n" % (k.rjust(20), t.ljust(40), TYPENAMES[typeid(v)]))
            return UNDEF
        reg("vars", _vars)

        def unmodelled(n):
            def f(a, s):
                raise Unsupported("builtin " + n)
            reg(n, f)
        for n in ("break", "copyright", "date-time", "doc", "fuel", "help", "htmldoc", "platform", "searchdoc", "tickcount", "version", "_unquote", "_unquotesplicing"):
            if n not in g:
                unmodelled(n)

    def readline(self):
        if self.inpos >= len(self.input):
            return ""
        j = self.input.find("\n", self.inpos)
        if j < 0:
            j = len(self.input)
        r = self.input[self.inpos:j]
        self.inpos = j + 1
        return r


def body_line(body):
    return None


def ref_format(t, args):
    out = []
    i = 0
    while i < len(t):
        m = re.compile(r"\{([0-4])(?:,(-?)(\d{1,6}))?\}").match(t, i)
        if m:
            k = int(m.group(1))
            if k >= len(args):
                raise FuelError()
            a = args[k]
            w = int(m.group(3) or 0)
            out.append(a.ljust(w) if m.group(2) else a.rjust(w))
            i = m.end()
        else:
            out.append(t[i])
            i += 1
    return "".join(out)




def run_ref(codes, module="main", inp="", files=None, flags="", maxsteps=200000, libpath="", fuelpath=None):
    """observations of the evaluations of the codes in one environment; raises Unsupported / OutOfSteps"""
    _budget[0] = 400000
    it = Interp(inp, dict(files or {}), maxsteps, libpath, fuelpath)
    return [it.eval(c, module, "t" in flags, "x" in flags) for c in codes], it
