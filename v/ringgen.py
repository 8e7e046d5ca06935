"""F!{expr}: infix field expression -> spec term.  RING!{l == r | h == k * (c) | ...}: a call of a generated lemma (l == r follows from the
hypotheses because l - r = sum c*(h - k) is a polynomial identity, which Verus checks by normalising both sides)."""
import re
TOK = re.compile(r"\s*(?:(`[^`]*`)|(\d+)|([A-Za-z_][A-Za-z0-9_]*(?:\.(?:[A-Za-z_0-9]+)(?:\(\))?|\(\))*)|(==|[-+*^()|]))")

def toks(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise ValueError("bad field expression: %r at %r" % (s, s[i:i + 20]))
        if m.group(1): out.append(("atom", m.group(1)[1:-1].strip()))
        elif m.group(2): out.append(("int", int(m.group(2))))
        elif m.group(3): out.append(("atom", m.group(3)))
        else: out.append(("op", m.group(4)))
        i = m.end()
    return out

class P:
    def __init__(self, t): self.t, self.i = t, 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else (None, None)
    def eat(self, op):
        if self.peek() == ("op", op): self.i += 1; return True
        return False
    def expr(self):
        a = ("neg", self.term()) if self.eat("-") else self.term()
        while True:
            if self.eat("+"): a = ("add", a, self.term())
            elif self.eat("-"): a = ("sub", a, self.term())
            else: return a
    def term(self):
        a = self.pow()
        while self.eat("*"): a = ("mul", a, self.pow())
        return a
    def pow(self):
        a = self.prim()
        if self.eat("^"):
            k, n = self.peek(); self.i += 1
            b = a
            for _ in range(n - 1): b = ("mul", b, a)
            return b
        return a
    def prim(self):
        if self.eat("("):
            a = self.expr()
            assert self.eat(")"), self.t
            return a
        if self.eat("-"): return ("neg", self.prim())
        k, v = self.peek(); self.i += 1
        assert k in ("atom", "int"), (self.t, self.i)
        return (k, v)

def parse(s):
    p = P(toks(s)); e = p.expr()
    assert p.i == len(p.t), "trailing: %s" % (p.t[p.i:],)
    return e

def term(e):
    k = e[0]
    if k == "atom": return e[1]
    if k == "int": return {0: "f0()", 1: "f1()"}.get(e[1], "fint(%d)" % e[1])
    if k == "neg": return "fneg(%s)" % term(e[1])
    return "f%s(%s, %s)" % (k, term(e[1]), term(e[2]))

def atoms(e, acc):
    if e[0] == "atom":
        if e[1] not in acc: acc.append(e[1])
    elif e[0] != "int":
        for x in e[1:]: atoms(x, acc)
    return acc

def ren(e, m):
    if e[0] == "atom": return ("atom", m[e[1]])
    if e[0] == "int": return e
    return (e[0],) + tuple(ren(x, m) for x in e[1:])

def ex(e, ix):
    k = e[0]
    B = lambda x: "Box::new(%s)" % x
    if k == "atom": return "Ex::V(%d, %d)" % (ix[e[1]], 97 ** ix[e[1]])
    if k == "int": return "Ex::K(%d)" % e[1]
    if k == "neg": return "Ex::N(%s)" % B(ex(e[1], ix))
    if k == "sub": return "Ex::A(%s, %s)" % (B(ex(e[1], ix)), B("Ex::N(%s)" % B(ex(e[2], ix))))
    return "Ex::%s(%s, %s)" % ({"add": "A", "mul": "M"}[k], B(ex(e[1], ix)), B(ex(e[2], ix)))

def depth(e):
    if e[0] in ("atom", "int"): return 1
    return (2 if e[0] == "sub" else 1) + max(depth(x) for x in e[1:])

def split_top(s, sep):
    out, d, cur, i = [], 0, "", 0
    while i < len(s):
        c = s[i]
        if c == "`":
            j = s.index("`", i + 1); cur += s[i:j + 1]; i = j + 1; continue
        if c in "({[": d += 1
        if c in ")}]": d -= 1
        if d == 0 and s.startswith(sep, i): out.append(cur); cur = ""; i += len(sep); continue
        cur += c; i += 1
    out.append(cur)
    return out

class Rings:
    def __init__(self): self.lem, self.order = {}, []
    def call(self, body):
        parts = split_top(body, "|")
        l, r = [parse(x) for x in split_top(parts[0], "==")]
        hyps = []
        for h in parts[1:]:
            eqn, co = h.rsplit("*", 1) if False else re.match(r"(.*)\bwith\b(.*)$", h, re.S).groups()
            a, b = [parse(x) for x in split_top(eqn, "==")]
            hyps.append((a, b, parse(co)))
        at = []
        for e in [l, r] + [x for h in hyps for x in h]: atoms(e, at)
        m = {a: "v%d" % i for i, a in enumerate(at)}
        ix = {"v%d" % i: i for i in range(len(at))}
        L, R = ren(l, m), ren(r, m)
        H = [tuple(ren(x, m) for x in h) for h in hyps]
        key = repr((L, R, H))
        if key not in self.lem:
            n = "ring_%d" % len(self.order)
            rhs = R
            for a, b, c in H: rhs = ("add", rhs, ("mul", c, ("sub", a, b)))
            d = max(depth(L), depth(rhs)) + 2
            t = "pub proof fn %s(%s)%s ensures %s == %s\n{ hide(fint); broadcast use fieldax; l_fint01(); let env = seq![%s]; let e1 = %s; let e2 = %s;\n assert(norm(Ex::A(Box::new(%s), Box::new(Ex::N(Box::new(%s))))) == PL::E) by (compute_only);\n l_ring(e1, e2, env);\n" % (
                n, ", ".join("v%d: Num" % i for i in range(len(at))), (" requires " + ", ".join("%s == %s" % (term(a), term(b)) for a, b, c in H)) if H else "", term(L), term(R),
                ", ".join("v%d" % i for i in range(len(at))), ex(L, ix), ex(rhs, ix), ex(L, ix), ex(rhs, ix))
            t += " assert(rev(e1, env) == %s && rev(e2, env) == %s) by { reveal_with_fuel(rev, %d); }\n" % (term(L), term(rhs), d)
            acc = R
            for a, b, c in H:
                t += " l_subeq(%s, %s); l_mul0(%s); ax_add0(%s);\n" % (term(a), term(b), term(c), term(R))
            t += "}\n"
            self.lem[key] = (n, t); self.order.append(key)
        n = self.lem[key][0]
        return "%s(%s);" % (n, ", ".join(at))
    def text(self): return "".join(self.lem[k][1] for k in self.order)

def find(s, name):
    i = 0
    while True:
        i = s.find(name + "{", i)
        if i < 0: return
        j, d = i + len(name) + 1, 1
        while d:
            if s[j] == "{": d += 1
            if s[j] == "}": d -= 1
            j += 1
        yield i, j, s[i + len(name) + 1:j - 1]
        i = j

def expand(text, rings):
    for name, f in (("F!", lambda b: term(parse(b))), ("RING!", rings.call)):
        out, p = "", 0
        for i, j, b in list(find(text, name)):
            out += text[p:i] + f(b); p = j
        text = out + text[p:]
    return text
