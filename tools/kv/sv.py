"""Parser and flattener for the SystemVerilog subset kratos emits.

Produces the index-based flat form for spec/SvType.tla: only syntax and names are
dealt with here; operator widths, signs and behaviour are the specification's.
Anything not understood raises SvError (an error of the check, or, where a caller
says so, a rejected text)."""
import re
from .flat import order_procs


class SvError(Exception):
    pass


TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/|\(\*.*?\*\))
 |(?P<num>\d*\s*'\s*[sS]?[bBoOdDhH]\s*[0-9a-fA-F_xXzZ?]+|\d+)
 |(?P<str>"(?:\\.|[^"\\])*")
 |(?P<id>[A-Za-z_$`][A-Za-z0-9_$]*)
 |(?P<op>'\{|<<<=|>>>=|<<<|>>>|===|!==|==\?|!=\?|\*\*|<<=|>>=|<->|->|\+=|-=|\+\+|--|<<|>>|<=|>=|==|!=|&&&|&&|\|\||~&|~\||~\^|\^~|::|\+:|-:|\#\#|[-+*/%&|^~!<>=?:;,.(){}\[\]'@\#])
""", re.X | re.S)

KEYWORDS = set("""module endmodule input output inout logic signed unsigned assign always always_comb always_ff
always_latch begin end if else case endcase default for genvar generate endgenerate function endfunction task
endtask return posedge negedge typedef enum struct packed parameter localparam initial final unique priority
import interface endinterface modport int integer automatic void break assert property endproperty assume cover
bit reg wire package endpackage""".split())


def tokenize(s):
    out, p = [], 0
    while p < len(s):
        m = TOK.match(s, p)
        if not m:
            raise SvError("cannot tokenize at %r" % s[p:p + 30])
        p = m.end()
        k = m.lastgroup
        if k == "ws":
            continue
        out.append((k, m.group(k)))
    out.append(("eof", ""))
    return out


BIN = [["||"], ["&&"], ["|"], ["^", "~^", "^~"], ["&"], ["==", "!=", "===", "!=="], ["<", "<=", ">", ">="],
       ["<<", ">>", "<<<", ">>>"], ["+", "-"], ["*", "/", "%"], ["**"]]


class P:
    def __init__(self, text):
        self.t = tokenize(text)
        self.p = 0
        self.types = set()

    def peek(self, k=0):
        return self.t[min(self.p + k, len(self.t) - 1)][1]

    def kind(self, k=0):
        return self.t[min(self.p + k, len(self.t) - 1)][0]

    def next(self):
        x = self.t[self.p][1]
        self.p += 1
        return x

    def eat(self, x):
        if self.peek() == x and self.kind() != "str":
            self.p += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise SvError("expected %r, found %r near %r" % (x, self.peek(), " ".join(t[1] for t in self.t[max(0, self.p - 8):self.p + 8])))

    def ident(self):
        if self.kind() != "id" or self.peek() in KEYWORDS:
            raise SvError("expected identifier, found %r near %r" % (self.peek(), " ".join(t[1] for t in self.t[max(0, self.p - 8):self.p + 8])))
        return self.next()

    # ---------------------------------------------------------- expressions
    def expr(self):
        c = self.binary(0)
        if self.eat("?"):
            a = self.expr()
            self.need(":")
            b = self.expr()
            return ("tern", c, a, b)
        return c

    def binary(self, lv):
        if lv == len(BIN):
            return self.unary()
        a = self.binary(lv + 1)
        while self.peek() in BIN[lv] and self.kind() == "op":
            op = self.next()
            b = self.binary(lv + 1)
            a = ("bin", op, a, b)
        return a

    def unary(self):
        if self.kind() == "op" and self.peek() in ("+", "-", "!", "~", "&", "|", "^", "~&", "~|", "~^", "^~"):
            op = self.next()
            return ("un", op, self.unary())
        return self.primary()

    def primary(self):
        k, x = self.t[self.p]
        if k == "num":
            self.next()
            e = self.number(x)
            if self.peek() == "'" and self.peek(1) == "(":
                self.next()
                self.need("(")
                p = self.expr()
                self.need(")")
                return ("size", e, p)
            return e
        if k == "str":
            self.next()
            return ("str", x)
        if self.eat("("):
            e = self.expr()
            self.need(")")
            if self.peek() == "'" and self.peek(1) == "(":
                self.next()
                self.need("(")
                p = self.expr()
                self.need(")")
                return ("size", e, p)
            return e
        if self.eat("{"):
            first = self.expr()
            if self.eat("{"):
                inner = [self.expr()]
                while self.eat(","):
                    inner.append(self.expr())
                self.need("}")
                self.need("}")
                return ("rep", first, inner[0] if len(inner) == 1 else ("cat", inner))
            l = [first]
            while self.eat(","):
                l.append(self.expr())
            self.need("}")
            return self.postfix(("cat", l))
        if x in ("signed", "unsigned") and self.peek(1) == "'":
            self.next()
            self.next()
            self.need("(")
            p = self.expr()
            self.need(")")
            return ("sign", x == "signed", p)
        if x in ("$signed", "$unsigned"):
            self.next()
            self.need("(")
            p = self.expr()
            self.need(")")
            return ("sign", x == "$signed", p)
        if k == "id":
            n = self.ident()
            if self.eat("::"):
                n = self.ident()
            if self.peek() == "'" and self.peek(1) == "(":
                self.next()
                self.need("(")
                p = self.expr()
                self.need(")")
                return ("tcast", n, p)
            if self.peek() == "(":
                self.next()
                a = []
                if not self.eat(")"):
                    while True:
                        if self.eat("."):
                            m = self.ident()
                            self.need("(")
                            a.append((m, self.expr()))
                            self.need(")")
                        else:
                            a.append((None, self.expr()))
                        if not self.eat(","):
                            break
                    self.need(")")
                return ("call", n, a)
            return self.postfix(("id", n))
        raise SvError("unexpected %r near %r" % (x, " ".join(t[1] for t in self.t[max(0, self.p - 8):self.p + 8])))

    def postfix(self, e):
        while True:
            if self.eat("["):
                a = self.expr()
                if self.eat(":"):
                    b = self.expr()
                    self.need("]")
                    e = ("rng", e, a, b)
                else:
                    self.need("]")
                    e = ("sel", e, a)
            elif self.peek() == "." and self.kind(1) == "id":
                self.next()
                e = ("mem", e, self.ident())
            else:
                return e

    def number(self, x):
        x = x.replace(" ", "").replace("_", "")
        if "'" not in x:
            return ("num", int(x), 32, True, False)
        w, r = x.split("'")
        sg = False
        if r[0] in "sS":
            sg = True
            r = r[1:]
        base = {"b": 2, "o": 8, "d": 10, "h": 16}[r[0].lower()]
        if re.search("[xXzZ?]", r[1:]):
            raise SvError("x/z literal " + x)
        v = int(r[1:], base)
        width = int(w) if w else 32
        return ("num", v & ((1 << width) - 1), width, sg, True)

    # ----------------------------------------------------------- statements
    def label(self):
        if self.eat(":"):
            self.ident()

    def stmt(self):
        x = self.peek()
        if self.eat(";"):
            return ("blk", [])
        if self.eat("begin"):
            self.label()
            b = []
            while not self.eat("end"):
                b.append(self.stmt())
            self.label()
            return ("blk", b)
        if x == "if":
            self.next()
            self.need("(")
            c = self.expr()
            self.need(")")
            t = self.stmt()
            e = self.stmt() if self.eat("else") else ("blk", [])
            return ("if", c, t, e)
        if x in ("unique", "priority", "unique0"):
            self.next()
            x = self.peek()
        if x == "case":
            self.next()
            self.need("(")
            c = self.expr()
            self.need(")")
            cs, d = [], ("blk", [])
            while not self.eat("endcase"):
                if self.eat("default"):
                    self.eat(":")
                    d = self.stmt()
                else:
                    v = [self.expr()]
                    while self.eat(","):
                        v.append(self.expr())
                    self.need(":")
                    cs.append((v, self.stmt()))
            return ("case", c, cs, d)
        if x == "for":
            self.next()
            self.need("(")
            gv = self.eat("genvar")
            if self.eat("int") or self.eat("integer"):
                self.eat("unsigned")
            n = self.ident()
            self.need("=")
            a = self.expr()
            self.need(";")
            c = self.binary(0)
            self.need(";")
            n2 = self.ident()
            op = self.next()
            if op == "=":
                s = self.expr()
            elif op in ("++", "--"):
                s = ("num", 1, 32, True, False)
                op = op[0] + "="
            else:
                s = self.expr()
            self.need(")")
            if n2 != n:
                raise SvError("for loop variable")
            return ("for", n, a, c, op, s, self.stmt())
        if x == "return":
            self.next()
            if self.eat(";"):
                return ("ret", None)
            e = self.expr()
            self.need(";")
            return ("ret", e)
        if x == "break":
            self.next()
            self.need(";")
            return ("break",)
        if x == "assert":
            return self.skip_assert()
        if x == "void" and self.peek(1) == "'":
            self.next()
            self.next()
            self.need("(")
            e = self.expr()
            self.need(")")
            self.need(";")
            return ("calls", e)
        l = self.primary()
        if l[0] == "call":
            self.need(";")
            return ("calls", l)
        if self.eat("="):
            r = self.expr()
            self.need(";")
            return ("as", "b", l, r)
        if self.eat("<="):
            r = self.expr()
            self.need(";")
            return ("as", "n", l, r)
        raise SvError("bad statement near %r" % " ".join(t[1] for t in self.t[max(0, self.p - 8):self.p + 8]))

    def skip_assert(self):
        self.next()
        self.eat("property")
        self.need("(")
        d = 1
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")
        if self.eat("else"):
            self.stmt()
        else:
            self.eat(";")
        return ("blk", [])

    # --------------------------------------------------------------- modules
    def dims(self):
        r = []
        while self.eat("["):
            a = self.expr()
            if self.eat(":"):
                b = self.expr()
            else:
                a, b = ("num", 0, 32, True, False), ("bin", "-", a, ("num", 1, 32, True, False))
            self.need("]")
            r.append((a, b))
        return r

    def dtype(self):
        """(base, signed, packed dims); base is 'logic' or a type name"""
        base = None
        if self.peek() in ("logic", "bit", "reg", "wire"):
            self.next()
            base = "logic"
        elif self.peek() in ("int", "integer"):
            self.next()
            return ("int", not self.eat("unsigned"), [])
        elif self.peek() == "interface":
            raise SvError("generic interface")
        elif self.kind() == "id" and self.peek() not in KEYWORDS and (self.kind(1) == "id" or self.peek(1) == "["):
            base = self.ident()
            if self.eat("::"):
                base = self.ident()
        sg = False
        if self.eat("signed"):
            sg = True
        elif self.eat("unsigned"):
            pass
        return (base or "logic", sg, self.dims())

    def typedef(self):
        self.need("typedef")
        if self.eat("enum"):
            t = self.dtype() if self.peek() != "{" else ("int", True, [])
            self.need("{")
            vals, nxt = [], ("num", 0, 32, True, False)
            while True:
                n = self.ident()
                v = None
                if self.eat("="):
                    v = self.expr()
                vals.append((n, v))
                if not self.eat(","):
                    break
            self.need("}")
            nm = self.ident()
            self.need(";")
            return ("enum", nm, t, vals)
        if self.eat("struct"):
            self.need("packed")
            self.eat("signed")
            self.need("{")
            ms = []
            while not self.eat("}"):
                t = self.dtype()
                n = self.ident()
                self.need(";")
                ms.append((n, t))
            nm = self.ident()
            self.need(";")
            return ("struct", nm, ms)
        t = self.dtype()
        n = self.ident()
        self.need(";")
        return ("alias", n, t)

    def params(self):
        r = []
        if self.eat("#"):
            self.need("(")
            while True:
                self.eat("parameter")
                ty = None
                if self.peek() == "type":
                    self.next()
                    n = self.ident()
                    v = None
                    if self.eat("="):
                        v = self.dtype()
                    r.append((n, "type", v))
                else:
                    if self.peek() in ("logic", "int") or (self.kind(1) == "id" and self.peek() not in KEYWORDS):
                        ty = self.dtype()
                    n = self.ident()
                    v = self.expr() if self.eat("=") else None
                    r.append((n, ty, v))
                if not self.eat(","):
                    break
            self.need(")")
        return r

    def module(self):
        kind = self.next()
        name = self.ident()
        m = {"kind": kind, "name": name, "imports": [], "ports": [], "items": [], "params": []}
        while self.eat("import"):
            m["imports"].append(self.ident())
            self.need("::")
            self.need("*")
            self.need(";")
        m["params"] = self.params()
        if self.eat("("):
            if not self.eat(")"):
                last = None
                while True:
                    if self.peek() in ("input", "output", "inout"):
                        d = self.next()
                        t = self.dtype()
                        n = self.ident()
                        m["ports"].append((n, d, t, self.dims()))
                        last = (d, t)
                    elif self.kind(1) == "id" or self.peek(1) == ".":
                        ty = self.ident()
                        mp = self.ident() if self.eat(".") else None
                        n = self.ident()
                        m["ports"].append((n, "iface", (ty, mp), self.dims()))
                    else:
                        n = self.ident()
                        m["ports"].append((n, last[0], last[1], self.dims()))
                    if not self.eat(","):
                        break
                self.need(")")
        self.need(";")
        end = "endmodule" if kind == "module" else "endinterface"
        while not self.eat(end):
            if self.kind() == "eof":
                raise SvError("missing " + end)
            m["items"] += self.item()
        return m

    def item(self):
        x = self.peek()
        if x == "typedef":
            return [self.typedef()]
        if x == "assign":
            self.next()
            l = self.primary()
            self.need("=")
            r = self.expr()
            self.need(";")
            return [("assign", l, r)]
        if x == "always_comb":
            self.next()
            return [("comb", self.stmt())]
        if x == "always_latch":
            self.next()
            return [("latch", self.stmt())]
        if x in ("always_ff", "always"):
            self.next()
            ev = None
            if self.eat("@"):
                if self.eat("*"):
                    ev = None
                else:
                    self.need("(")
                    if self.eat("*"):
                        ev = None
                        self.need(")")
                    else:
                        ev = []
                        while True:
                            e = self.next()
                            if e not in ("posedge", "negedge"):
                                raise SvError("event " + e)
                            ev.append((e == "posedge", self.expr()))
                            if not (self.eat(",") or self.eat("or")):
                                break
                        self.need(")")
            s = self.stmt()
            return [("comb", s) if ev is None else ("seq", ev, s)]
        if x in ("initial", "final"):
            self.next()
            self.skip_stmt()
            return [("skip",)]
        if x in ("function", "task"):
            return [self.function()]
        if x == "for":
            self.next()
            self.need("(")
            self.eat("genvar")
            n = self.ident()
            self.need("=")
            a = self.expr()
            self.need(";")
            c = self.binary(0)
            self.need(";")
            self.ident()
            op = self.next()
            s = ("num", 1, 32, True, False) if op in ("++", "--") else self.expr()
            self.need(")")
            b = []
            if self.eat("begin"):
                self.label()
                while not self.eat("end"):
                    b += self.item()
                self.label()
            else:
                b += self.item()
            return [("genfor", n, a, c, op, s, b)]
        if x in ("generate", "endgenerate"):
            self.next()
            return []
        if x in ("localparam", "parameter"):
            self.next()
            ty = self.dtype() if self.peek() in ("logic", "int") else None
            n = self.ident()
            self.need("=")
            v = self.expr()
            self.need(";")
            return [("lparam", n, ty, v)]
        if x == "property":
            while self.next() != "endproperty":
                pass
            return []
        if x in ("assert", "assume", "cover"):
            self.skip_assert()
            return []
        if x == "modport":
            self.next()
            n = self.ident()
            self.need("(")
            ps, d = [], None
            while True:
                if self.peek() in ("input", "output", "inout"):
                    d = self.next()
                ps.append((self.ident(), d))
                if not self.eat(","):
                    break
            self.need(")")
            self.need(";")
            return [("modport", n, ps)]
        if x == "import":
            self.next()
            self.ident()
            self.need("::")
            self.need("*")
            self.need(";")
            return []
        if self.eat(";"):
            return []
        # declaration or instance
        if x in ("logic", "bit", "reg", "wire", "int", "integer"):
            t = self.dtype()
        else:
            if self.kind(1) == "op" and self.peek(1) == "#" or (self.kind(1) == "id" and self.peek(2) == "("):
                return [self.instance()]
            t = self.dtype()
        r = []
        while True:
            n = self.ident()
            r.append(("decl", n, t, self.dims()))
            if self.eat("="):
                raise SvError("initialised declaration")
            if not self.eat(","):
                break
        self.need(";")
        return r

    def skip_stmt(self):
        if self.eat("begin"):
            self.label()
            d = 1
            while d:
                x = self.next()
                if x in ("begin", "case"):
                    d += 1
                elif x in ("end", "endcase"):
                    d -= 1
                elif self.kind() == "eof":
                    raise SvError("unterminated block")
            self.label()
        else:
            while self.next() != ";":
                pass

    def instance(self):
        mod = self.ident()
        ps = []
        if self.eat("#"):
            self.need("(")
            while True:
                self.need(".")
                n = self.ident()
                self.need("(")
                ps.append((n, self.expr()))
                self.need(")")
                if not self.eat(","):
                    break
            self.need(")")
        inst = self.ident()
        self.need("(")
        conns = []
        if not self.eat(")"):
            while True:
                self.need(".")
                n = self.ident()
                self.need("(")
                conns.append((n, None if self.peek() == ")" else self.expr()))
                self.need(")")
                if not self.eat(","):
                    break
            self.need(")")
        self.need(";")
        return ("inst", mod, ps, inst, conns)

    def function(self):
        kind = self.next()
        self.eat("automatic")
        ret = None
        if kind == "function":
            if self.eat("void"):
                ret = "void"
            else:
                ret = self.dtype()
        n = self.ident()
        args = []
        if self.eat("("):
            if not self.eat(")"):
                while True:
                    self.eat("input")
                    if self.peek() in ("output", "inout"):
                        raise SvError("function output argument")
                    t = self.dtype()
                    an = self.ident()
                    args.append((an, t, self.dims()))
                    if not self.eat(","):
                        break
                self.need(")")
        self.need(";")
        b = []
        while not self.eat("end" + kind):
            b.append(self.stmt())
        return ("func", n, ret, args, b)


def parse_modules(text):
    """all modules / interfaces and package-level typedefs of a text"""
    p = P(text)
    mods, tds = [], []
    while p.kind() != "eof":
        if p.peek() in ("module", "interface"):
            mods.append(p.module())
        elif p.peek() == "typedef":
            tds.append(p.typedef())
        elif p.peek() == "import":
            while p.next() != ";":
                pass
        elif p.peek().startswith("`"):
            p.next()
            if p.kind() == "str":
                p.next()
        elif p.peek() in ("package", "endpackage"):
            if p.next() == "package":
                p.ident()
                p.need(";")
        else:
            raise SvError("unexpected %r at file level" % p.peek())
    return mods, tds


UNOPS = {"-": "neg", "+": "plus", "~": "~", "!": "!", "&": "rand", "|": "ror", "^": "rxor"}


class Scope:
    def __init__(self, prefix):
        self.prefix = prefix
        self.names = {}      # name -> ("var", idx) | ("const", v, w, sg) | ("iface", scope) | ("fn", k)
        self.types = {}


class SvFlat:
    def __init__(self, modules, top, types=(), ifaces=()):
        """modules: {name: text}; types: texts of package-level typedefs; ifaces: texts"""
        self.mods = {}
        self.gtypes, self.gconst = {}, {}
        self.vars, self.names, self.ix = [], [], {}
        self.comb, self.seq, self.fn, self.rd, self.wr = [], [], [], [], []
        self.maxw = 1
        tds = []
        for t in types:
            m, d = parse_modules(t)
            tds += d
        for t in list(ifaces):
            m, d = parse_modules(t)
            for x in m:
                self.mods[x["name"]] = x
        for n, t in modules.items():
            m, d = parse_modules(t)
            tds += d
            if [x["name"] for x in m] != [n]:
                raise SvError("text of module %s defines %s" % (n, [x["name"] for x in m]))
            if n in self.mods:
                raise SvError("module %s defined twice" % n)
            self.mods[n] = m[0]
        g = Scope("")
        pend = list(tds)
        for _ in range(len(tds) + 1):
            rest = []
            for d in pend:
                try:
                    self.typedef(g, d)
                except KeyError:
                    rest.append(d)
            pend = rest
        if pend:
            raise SvError("unresolved type in typedef %s" % pend[0][1])
        self.gscope = g
        self.used = set()
        self.top = self.inst_module(top, "", {}, 0)
        o = order_procs(self.comb, self.rd, self.wr)
        self.comb = [self.comb[i] for i in o]

    # ---------------------------------------------------------------- types
    def resolve_type(self, sc, t, params_ok=True):
        """-> (packed dims list [(n,l,dn)], signed, struct or None)"""
        base, sg, dims = t
        ds = [self.rngdim(sc, d, False) for d in dims]
        if base == "logic":
            return ds, sg, None
        if base == "int":
            return [{"n": 32, "l": 0, "dn": True, "up": False}], sg, None
        ty = sc.types.get(base) or self.gscope_types().get(base)
        if ty is None:
            raise KeyError(base)
        d2, sg2, st = ty
        return ds + d2, sg or sg2, st

    def gscope_types(self):
        return getattr(self, "gscope", None).types if getattr(self, "gscope", None) else {}

    def rngdim(self, sc, d, up):
        a, b = self.const(sc, d[0]), self.const(sc, d[1])
        # value of the bounds
        return {"n": abs(a - b) + 1, "l": min(a, b), "dn": a >= b, "up": up}

    def typedef(self, sc, d):
        if d[0] == "enum":
            t = self.resolve_type(sc, d[2])
            sc.types[d[1]] = (t[0] or [{"n": 1, "l": 0, "dn": True, "up": False}], t[1], None)
            w = 1
            for x in t[0]:
                w *= x["n"]
            nxt = 0
            for n, v in d[3]:
                if v is not None:
                    nxt = self.const(sc, v)
                sc.names[n] = ("const", nxt & ((1 << w) - 1), w, t[1])
                nxt += 1
        elif d[0] == "struct":
            ms = []
            for n, t in d[2]:
                ds, sg, st = self.resolve_type(sc, t)
                w = 1
                for x in ds:
                    w *= x["n"]
                ms.append({"n": n, "w": w, "sg": sg, "st": st})
            tot = sum(m["w"] for m in ms)
            sc.types[d[1]] = ([{"n": tot, "l": 0, "dn": True, "up": False}], False, {"name": d[1], "ms": ms})
        else:
            sc.types[d[1]] = self.resolve_type(sc, d[2])

    # ------------------------------------------------------------ constants
    def const(self, sc, e):
        v = self.const_or_none(sc, e)
        if v is None:
            raise SvError("not a constant expression: %r" % (e,))
        return v

    def const_or_none(self, sc, e):
        k = e[0]
        if k == "num":
            return e[1] - (1 << e[2]) if (e[3] and e[4] and e[1] >> (e[2] - 1)) else e[1]
        if k == "id":
            r = self.lookup(sc, e[1])
            if r and r[0] == "const":
                return r[1] - (1 << r[2]) if (r[3] and r[1] >> (r[2] - 1)) else r[1]
            return None
        if k == "un":
            v = self.const_or_none(sc, e[2])
            if v is None:
                return None
            return {"-": -v, "+": v}.get(e[1])
        if k == "bin":
            a, b = self.const_or_none(sc, e[2]), self.const_or_none(sc, e[3])
            if a is None or b is None:
                return None
            if e[1] == "+":
                return a + b
            if e[1] == "-":
                return a - b
            if e[1] == "*":
                return a * b
            if e[1] == "/" and b:
                return a // b
            return None
        return None

    def lookup(self, sc, n):
        r = sc.names.get(n)
        if r is None and hasattr(self, "gscope"):
            r = self.gscope.names.get(n)
        return r

    # -------------------------------------------------------------- modules
    def addvar(self, name, pdims, sg, up, st):
        ups = [dict(d, up=True) for d in up]
        self.vars.append({"dims": ups + pdims, "sg": sg})
        w = 1
        for d in ups + pdims:
            w *= d["n"]
        self.maxw = max(self.maxw, w)
        self.names.append(name)
        i = len(self.vars)
        if name in self.ix:
            raise SvError("%s declared twice" % name)
        self.ix[name] = i
        if not hasattr(self, "st"):
            self.st = {}
        self.st[i] = (st, len(ups) + len(pdims))
        return i

    def declare(self, sc, n, v):
        if n in sc.names:
            raise SvError("%s declared twice in %s" % (n, sc.prefix))
        sc.names[n] = v

    def inst_module(self, name, prefix, overrides, depth, ifmap=None):
        if depth > 12:
            raise SvError("recursive instantiation")
        if name not in self.mods:
            raise SvError("module %s is not defined" % name)
        self.used.add(name)
        m = self.mods[name]
        sc = Scope(prefix)
        over = dict(overrides)
        for n, ty, v in m["params"]:
            if n in over:
                val = over.pop(n)
            elif v is None:
                raise SvError("parameter %s of %s has no value" % (n, name))
            elif ty == "type":
                sc.types[n] = self.resolve_type(sc, v)
                continue
            else:
                val = self.constval(sc, v)
            if ty == "type":
                sc.types[n] = self.resolve_type(sc, val)
                continue
            if ty is not None:
                ds, sg, st = self.resolve_type(sc, ty)
                w = 1
                for d in ds:
                    w *= d["n"]
                val = (val[0], w, sg)
            self.declare(sc, n, ("const", val[0] & ((1 << val[1]) - 1), val[1], val[2]))
        if over:
            raise SvError("unknown parameter %s of %s" % (sorted(over)[0], name))
        for it in m["items"]:
            if it[0] in ("enum", "struct", "alias"):
                self.typedef(sc, it)
            elif it[0] == "lparam":
                v = self.constval(sc, it[3])
                self.declare(sc, it[1], ("const", v[0], v[1], v[2]))
        sc.ports = {}
        for n, d, t, up in m["ports"]:
            if d == "iface":
                target = (ifmap or {}).get(n)
                if target is None:
                    # top-level interface port: instantiate its members as ports
                    target = self.inst_iface(t[0], prefix + n + ".", depth + 1)
                    mp = t[1]
                    sc.ports[n] = ("iface", target, mp)
                else:
                    sc.ports[n] = ("iface", target, t[1])
                self.declare(sc, n, ("iface", target))
                continue
            ds, sg, st = self.resolve_type_e(sc, t)
            i = self.addvar(prefix + n, ds, sg, [self.rngdim(sc, u, True) for u in up], st)
            self.declare(sc, n, ("var", i))
            sc.ports[n] = (d, i)
        for it in m["items"]:
            if it[0] == "decl":
                tn = it[2][0]
                if tn in self.mods and self.mods[tn]["kind"] == "interface":
                    self.declare(sc, it[1], ("iface", self.inst_iface(tn, prefix + it[1] + ".", depth + 1)))
                    continue
                ds, sg, st = self.resolve_type_e(sc, it[2])
                i = self.addvar(prefix + it[1], ds, sg, [self.rngdim(sc, u, True) for u in it[3]], st)
                self.declare(sc, it[1], ("var", i))
            elif it[0] == "inst" and it[1] in self.mods and self.mods[it[1]]["kind"] == "interface":
                self.declare(sc, it[3], ("iface", self.inst_iface(it[1], prefix + it[3] + ".", depth + 1, sc, it[4])))
        for it in m["items"]:
            if it[0] == "func":
                self.decl_fn(sc, it)
        for it in m["items"]:
            if it[0] == "func":
                self.def_fn(sc, it)
        for it in m["items"]:
            self.item(sc, it, depth)
        return sc

    def resolve_type_e(self, sc, t):
        try:
            return self.resolve_type(sc, t)
        except KeyError as e:
            raise SvError("unknown type %s" % e)

    def inst_iface(self, name, prefix, depth, sc=None, conns=()):
        if name not in self.mods:
            raise SvError("interface %s is not defined" % name)
        s = self.inst_module(name, prefix, {}, depth)
        for pn, e in conns:
            d, i = s.ports[pn]
            self.connect(sc, d, i, e)
        return s

    def constval(self, sc, e):
        if e[0] == "num":
            return (e[1], e[2], e[3])
        if e[0] == "id":
            r = self.lookup(sc, e[1])
            if r and r[0] == "const":
                return r[1:]
            if e[1] in sc.types or e[1] in self.gscope_types():
                return (e[1], False, [])
        if e[0] == "un" and e[1] == "-":
            v = self.constval(sc, e[2])
            return ((-v[0]) & ((1 << v[1]) - 1), v[1], v[2])
        return (self.const(sc, e), 32, True)

    def connect(self, sc, d, i, e):
        if e is None:
            return
        self.R, self.W = set(), set()
        child = {"t": "id", "i": i}
        if d == "input":
            self.W.add(i)
            self.push([{"t": "as", "nb": False, "l": child, "r": self.ex(sc, e)}])
        elif d == "output":
            self.R.add(i)
            self.push([{"t": "as", "nb": False, "l": self.ex(sc, e, True), "r": child}])
        else:
            raise SvError("inout connection")

    def push(self, b):
        self.comb.append(b)
        self.rd.append(self.R)
        self.wr.append(self.W)

    def item(self, sc, it, depth):
        self.R, self.W = set(), set()
        k = it[0]
        if k == "assign":
            self.push([{"t": "as", "nb": False, "l": self.ex(sc, it[1], True), "r": self.ex(sc, it[2])}])
        elif k in ("comb", "latch"):
            self.push(self.stmts(sc, it[1]))
        elif k == "seq":
            ev = [{"pos": p, "v": self.ex(sc, e)} for p, e in it[1]]
            self.seq.append({"ev": ev, "b": self.stmts(sc, it[2])})
        elif k == "inst":
            _, mod, ps, inst, conns = it
            if mod not in self.mods:
                raise SvError("module %s is not defined" % mod)
            if self.mods[mod]["kind"] == "interface":
                return
            self.declare(sc, inst, ("inst",))
            over = {}
            for n, e in ps:
                if n in over:
                    raise SvError("parameter %s set twice" % n)
                over[n] = self.constval(sc, e)
            ifmap, rest, seen = {}, [], set()
            pk = {p[0]: p for p in self.mods[mod]["ports"]}
            for n, e in conns:
                if n in seen:
                    raise SvError("port %s connected twice" % n)
                seen.add(n)
                if n not in pk:
                    raise SvError("%s has no port %s" % (mod, n))
                if pk[n][1] == "iface":
                    x = e[1] if e[0] == "mem" else e
                    r = self.lookup(sc, x[1])
                    if not r or r[0] != "iface":
                        raise SvError("interface connection %r" % (e,))
                    ifmap[n] = r[1]
                else:
                    rest.append((n, e))
            child = self.inst_module(mod, sc.prefix + inst + ".", over, depth + 1, ifmap)
            for n, e in rest:
                d, i = child.ports[n]
                self.connect(sc, d, i, e)
            self.unconn = getattr(self, "unconn", [])
            self.unconn += [sc.prefix + inst + "." + n for n in pk if n not in seen]
        elif k == "genfor":
            _, n, a, c, op, s, body = it
            i = self.const(sc, a)
            lim = self.const(sc, c[3])
            st = self.const(sc, s)
            cnt = 0
            cmpf = {"<": lambda x: x < lim, ">": lambda x: x > lim, "<=": lambda x: x <= lim, ">=": lambda x: x >= lim,
                    "!=": lambda x: x != lim}[c[1]]
            while cmpf(i):
                sc2 = Scope(sc.prefix)
                sc2.names = dict(sc.names)
                sc2.types = sc.types
                sc2.names[n] = ("const", i & 0xffffffff, 32, True)
                for b in body:
                    self.item(sc2, b, depth)
                i = i + st if op in ("+=", "++") else i - st
                cnt += 1
                if cnt > 4096:
                    raise SvError("endless generate loop")

    # ------------------------------------------------------------ functions
    def decl_fn(self, sc, it):
        _, n, ret, args, b = it
        one = [{"n": 1, "l": 0, "dn": True, "up": False}]
        fs = Scope(sc.prefix)
        fs.names = dict(sc.names)
        fs.types = sc.types
        a = []
        for an, t, up in args:
            ds, sg, st = self.resolve_type_e(sc, t)
            i = self.addvar("%s%s#%s" % (sc.prefix, n, an), ds, sg, [self.rngdim(sc, u, True) for u in up], st)
            fs.names[an] = ("var", i)
            a.append(i)
        if ret in (None, "void"):
            r = self.addvar("%s%s#" % (sc.prefix, n), one, False, [], None)
        else:
            ds, sg, st = self.resolve_type_e(sc, ret)
            r = self.addvar("%s%s#" % (sc.prefix, n), ds, sg, [], st)
            fs.names[n] = ("var", r)
        fl = self.addvar("%s%s#fl" % (sc.prefix, n), one, False, [], None)
        self.fn.append({"args": a, "ret": r, "fl": fl, "b": [], "scope": fs, "an": [x[0] for x in args], "R": set(), "W": set()})
        self.declare(sc, n, ("fn", len(self.fn)))
        for f in self.fn:
            f["scope"].names.setdefault(n, ("fn", len(self.fn)))

    def def_fn(self, sc, it):
        f = self.fn[sc.names[it[1]][1] - 1]
        self.R, self.W = set(), set()
        self.curfn = sc.names[it[1]][1]
        for k, v in sc.names.items():
            if v[0] == "fn":
                f["scope"].names.setdefault(k, v)
        f["b"] = [y for s in it[4] for y in self.stmts(f["scope"], s)]
        f["R"], f["W"] = self.R - set(f["args"]), self.W
        self.curfn = None

    # ----------------------------------------------------------- statements
    def stmts(self, sc, s):
        k = s[0]
        if k == "blk":
            return [y for x in s[1] for y in self.stmts(sc, x)]
        if k == "as":
            return [{"t": "as", "nb": s[1] == "n", "l": self.ex(sc, s[2], True), "r": self.ex(sc, s[3])}]
        if k == "if":
            return [{"t": "if", "c": self.ex(sc, s[1]), "th": self.stmts(sc, s[2]), "el": self.stmts(sc, s[3])}]
        if k == "case":
            return [{"t": "sw", "c": self.ex(sc, s[1]), "cs": [{"v": [self.ex(sc, v) for v in vs], "b": self.stmts(sc, b)} for vs, b in s[2]],
                     "d": self.stmts(sc, s[3])}]
        if k == "for":
            _, n, a, c, op, st, b = s
            sc2 = Scope(sc.prefix)
            sc2.names = dict(sc.names)
            sc2.types = sc.types
            sc2.names[n] = ("iter", n)
            if c[0] != "bin" or c[2] != ("id", n):
                raise SvError("for condition")
            inc = self.const(sc, st)
            if op == "-=":
                inc = -inc
            elif op != "+=":
                raise SvError("for step " + op)
            return [{"t": "for", "nm": n, "st": self.const(sc, a), "cmp": c[1], "en": self.const(sc, c[3]), "inc": inc,
                     "b": self.stmts(sc2, b)}]
        if k == "ret":
            if s[1] is None:
                raise SvError("return without value")
            return [{"t": "ret", "e": self.ex(sc, s[1]), "f": self.curfn}]
        if k == "calls":
            r = self.lookup(sc, s[1][1])
            if not r or r[0] != "fn":
                if s[1][1].startswith("$"):
                    return []
                raise SvError("call of unknown function " + s[1][1])
            f = self.fn[r[1] - 1]
            self.R |= f["R"]
            self.W |= f["W"]
            return [{"t": "call", "f": r[1], "a": self.args(sc, f, s[1][2])}]
        raise SvError("statement " + k)

    def args(self, sc, f, a):
        if any(n for n, _ in a):
            by = {n: e for n, e in a}
            if set(by) != set(f["an"]):
                raise SvError("function arguments")
            return [self.ex(sc, by[n]) for n in f["an"]]
        if len(a) != len(f["an"]):
            raise SvError("number of function arguments")
        return [self.ex(sc, e) for _, e in a]

    # ---------------------------------------------------------- expressions
    def num(self, v, w, sg):
        self.maxw = max(self.maxw, w)
        return {"t": "num", "v": ("K", v, w), "w": w, "sg": sg, "n": v if v < (1 << 30) else -1}

    def ex(self, sc, e, lhs=False):
        x = self.ex_(sc, e, lhs)
        return x

    def index(self, sc, e):
        v = self.const_or_none(sc, e)
        if v is not None:
            return {"t": "num", "v": 0, "w": 32, "sg": True, "n": v}
        if e[0] == "id":
            r = self.lookup(sc, e[1])
            if r and r[0] == "iter":
                return {"t": "it", "nm": e[1]}
        return self.ex(sc, e)

    def depth(self, x):
        """number of dimensions that can still be selected from; None if not known (a scalar may be selected with [0])"""
        if x["t"] == "id":
            return len(self.vars[x["i"] - 1]["dims"]) or 1
        if x["t"] in ("sel", "rng"):
            n = self.depth(x["p"])
            return n if n is None or x["t"] == "rng" else n - 1
        return None

    def structinfo(self, x):
        """struct type of a translated primary, None if it is not struct typed"""
        if x["t"] == "id":
            st, nd = self.st[x["i"]]
            return (st, nd - 1) if st else None      # number of array dims in front
        if x["t"] == "sel":
            s = self.structinfo(x["p"])
            return (s[0], s[1] - 1) if s and s[1] > 0 else None
        if x["t"] == "mem":
            return (x["_st"], 0) if x["_st"] else None
        return None

    def ex_(self, sc, e, lhs=False):
        k = e[0]
        if k == "num":
            return self.num(e[1], e[2], e[3])
        if k == "id":
            r = self.lookup(sc, e[1])
            if r is None:
                raise SvError("undeclared identifier %s in %s" % (e[1], sc.prefix or "top"))
            if r[0] == "var":
                (self.W if lhs else self.R).add(r[1])
                return {"t": "id", "i": r[1]}
            if r[0] == "const":
                return self.num(r[1], r[2], r[3])
            if r[0] == "iter":
                self.maxw = max(self.maxw, 32)
                return {"t": "it", "nm": r[1]}
            raise SvError("%s used as a value" % e[1])
        if k == "sel":
            p = self.ex(sc, e[1], lhs)
            if p["t"] not in ("id", "sel", "rng", "mem"):
                raise SvError("select of a non-variable")
            if self.depth(p) == 0:
                raise SvError("select of a single bit")
            return {"t": "sel", "p": p, "ix": self.index(sc, e[2])}
        if k == "rng":
            p = self.ex(sc, e[1], lhs)
            if p["t"] not in ("id", "sel", "rng", "mem"):
                raise SvError("select of a non-variable")
            if self.depth(p) == 0:
                raise SvError("range of a single bit")
            return {"t": "rng", "p": p, "h": self.const(sc, e[2]), "l": self.const(sc, e[3])}
        if k == "mem":
            if e[1][0] == "id":
                r = self.lookup(sc, e[1][1])
                if r and r[0] == "iface":
                    return self.ex_(r[1], ("id", e[2]), lhs)
            p = self.ex(sc, e[1], lhs)
            s = self.structinfo(p)
            if not s or s[1] != 0:
                raise SvError("member select of a non-struct: %s" % e[2])
            for i, m in enumerate(s[0]["ms"]):
                if m["n"] == e[2]:
                    return {"t": "mem", "p": p, "ms": [q["w"] for q in s[0]["ms"]], "mi": i + 1, "sg": m["sg"], "_st": m["st"]}
            raise SvError("no member " + e[2])
        if k == "un":
            op = e[1]
            neg = None
            if op in ("~&", "~|", "~^", "^~"):
                return {"t": "un", "op": "!", "a": {"t": "un", "op": {"~&": "rand", "~|": "ror"}.get(op, "rxor"), "a": self.ex(sc, e[2])}}
            return {"t": "un", "op": UNOPS[op], "a": self.ex(sc, e[2])}
        if k == "bin":
            op = {"===": "==", "!==": "!=", "<<<": "<<"}.get(e[1], e[1])
            if op in ("~^", "^~"):
                return {"t": "un", "op": "~", "a": {"t": "bin", "op": "^", "a": self.ex(sc, e[2]), "b": self.ex(sc, e[3])}}
            return {"t": "bin", "op": op, "a": self.ex(sc, e[2]), "b": self.ex(sc, e[3])}
        if k == "tern":
            return {"t": "tern", "c": self.ex(sc, e[1]), "a": self.ex(sc, e[2]), "b": self.ex(sc, e[3])}
        if k == "cat":
            r = {"t": "cat", "a": [self.ex(sc, x, lhs) for x in e[1]]}
            self.maxw = max(self.maxw, self.estw(r))
            return r
        if k == "rep":
            mw = self.maxw
            n = self.const(sc, e[1])
            self.maxw = mw
            r = {"t": "rep", "n": n, "p": self.ex(sc, e[2])}
            self.maxw = max(self.maxw, self.estw(r))
            return r
        if k == "size":
            w = self.const(sc, e[1])
            self.maxw = max(self.maxw, w)
            return {"t": "size", "w": w, "p": self.ex(sc, e[2])}
        if k == "sign":
            return {"t": "sign", "sg": e[1], "p": self.ex(sc, e[2])}
        if k == "tcast":
            r = self.lookup(sc, e[1])
            if r and r[0] == "const":
                return {"t": "size", "w": r[1], "p": self.ex(sc, e[2])}
            ty = sc.types.get(e[1]) or self.gscope_types().get(e[1])
            if ty is None:
                raise SvError("unknown type " + e[1])
            w = 1
            for d in ty[0]:
                w *= d["n"]
            return {"t": "sign", "sg": ty[1], "p": {"t": "size", "w": w, "p": self.ex(sc, e[2])}}
        if k == "call":
            r = self.lookup(sc, e[1])
            if not r or r[0] != "fn":
                raise SvError("call of unknown function " + e[1])
            f = self.fn[r[1] - 1]
            self.R |= f["R"]
            return {"t": "call", "f": r[1], "a": self.args(sc, f, e[2])}
        raise SvError("expression " + k)

    def estw(self, e):
        """upper bound of the self-determined width (only picks the word domain)"""
        t = e["t"]
        if t in ("num", "size"):
            return e["w"]
        if t == "it":
            return 32
        if t in ("id", "sel", "rng", "mem"):
            d = 1
            q = e
            while q["t"] != "id":
                q = q["p"]
            for x in self.vars[q["i"] - 1]["dims"]:
                d *= x["n"]
            return d
        if t == "un":
            return self.estw(e["a"])
        if t in ("bin", "tern"):
            return max(self.estw(e["a"]), self.estw(e["b"]))
        if t == "cat":
            return sum(self.estw(x) for x in e["a"])
        if t == "rep":
            return e["n"] * self.estw(e["p"])
        if t == "sign":
            return self.estw(e["p"])
        return 32

    def design(self):
        def clean(x):
            if isinstance(x, dict):
                return {k: clean(v) for k, v in x.items() if not k.startswith("_")}
            if isinstance(x, list):
                return [clean(v) for v in x]
            return x
        fn = [{"args": f["args"], "ret": f["ret"], "fl": f["fl"], "b": clean(f["b"])} for f in self.fn]
        vs = []
        for v in self.vars:
            vs.append({"dims": v["dims"] or [{"n": 1, "l": 0, "dn": True, "up": False}], "sg": v["sg"]})
        # scalars keep an empty dimension list: a select of a scalar is an error upstream
        return {"kind": "s", "vars": vs, "comb": clean(self.comb), "seq": clean(self.seq), "fn": fn}
