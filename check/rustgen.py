"""Rust source for the types chosen by EnumLikeGen.tla: their names, definitions, readers and writers."""


class Gen:
    def __init__(self):
        self.defs = {}      # name -> definition and impl
        self.leaves = set() # names for the hand-written types (the derive does not read const arguments)

    # ---- types
    def ty(self, t, params=(), life=False):
        """life: inside a definition that declares the lifetime 'a"""
        k = t[0]
        if k == "unit":
            return "()"
        if k == "bool":
            return "bool"
        if k == "leaf":
            if t[1] == "Lc":
                self.leaves.add("pub type Lc%d<'a> = Lc<'a, %d>;\n" % (t[2], t[2]))
                return "Lc%d<%s>" % (t[2], "'a" if life else "'static")
            self.leaves.add("pub type %s%d = %s<%d>;\n" % (t[1], t[2], t[1], t[2]))
            return "%s%d" % (t[1], t[2])
        if k == "opt":
            return "Option<%s>" % self.ty(t[1], params, life)
        if k == "res":
            return "Result<%s, %s>" % (self.ty(t[1], params, life), self.ty(t[2], params, life))
        if k == "tup":
            return "(%s)" % "".join(self.ty(x, params, life) + ", " for x in t[1])
        if k == "arr":
            return "[%s; %d]" % (self.ty(t[2], params, life), t[1])
        if k == "par":
            return params[t[1] - 1]
        if k == "adt":
            self.adt(t[1])
            args = (["'a" if life else "'static"] if self.has_life(t[1]) else []) + [self.ty(x, params, life) for x in t[2]]
            return t[1]["name"] + ("<%s>" % ", ".join(args) if args else "")
        raise ValueError(k)

    @staticmethod
    def style(d):
        return sum(map(ord, d["name"])) % 7

    def has_life(self, d):
        """every other definition with a borrowing field has a lifetime parameter"""
        def uses(t):
            if t[0] == "leaf":
                return t[1] == "Lc"
            if t[0] in ("opt",):
                return uses(t[1])
            if t[0] == "res":
                return uses(t[1]) or uses(t[2])
            if t[0] == "tup":
                return any(map(uses, t[1]))
            if t[0] == "arr":
                return uses(t[2])
            return False
        return self.style(d) % 2 == 0 and any(uses(f["t"]) for v in d["vars"] for f in v["f"])

    # ---- definitions
    def adt(self, d):
        name = d["name"]
        if name in self.defs:
            return
        self.defs[name] = None
        st = self.style(d)
        life = self.has_life(d)
        ps = list(d["params"])
        lt = ["'a"] if life else []
        gen_plain = lt + ps
        if st == 1:
            gen_def = lt + [p + ": Copy" for p in ps]
        elif st == 5:
            gen_def = lt + [p + ": Copy + ::enum_like::EnumLike" for p in ps]
        else:
            gen_def = gen_plain
        where = " where " + ", ".join("%s: Copy" % p for p in ps) if ps and st in (2, 4) else ""
        if ps and st == 3:
            where = " where (%s,): Copy, %s: Sized" % (ps[0], ps[-1])
        g = lambda x: "<%s>" % ", ".join(x) if x else ""
        ty = lambda t: self.ty(t, ps, life)
        vis = "pub " if st % 2 else ""
        doc = "/// a documented part\n    #[allow(dead_code)]\n    " if st == 6 else ""

        def fields(v, pub):
            p = vis if pub else ""
            if v["k"] == "tuple":
                return "(%s)" % ", ".join(doc + p + ty(f["t"]) for f in v["f"])
            if v["k"] == "named":
                return " { %s }" % ", ".join(doc + p + f["n"] + ": " + ty(f["t"]) for f in v["f"])
            return ""

        der = "#[derive(Clone, Copy, EnumLike, PartialEq, Eq, PartialOrd, Ord, Hash)]\n"
        if d["enum"]:
            body = ",\n    ".join(doc + v["n"] + fields(v, False) + (" = %d" % v["e"] if v["e"] != -1 else "") for v in d["vars"])
            src = der + "pub enum %s%s%s {\n    %s\n}\n" % (name, g(gen_def), where, body)
        else:
            v = d["vars"][0]
            if v["k"] == "named":
                src = der + "pub struct %s%s%s%s\n" % (name, g(gen_def), where, fields(v, True))
            else:
                src = der + "pub struct %s%s%s%s;\n" % (name, g(gen_def), fields(v, True), where)

        # reader and writer
        rd, wr = [], []
        for v in d["vars"]:
            path = "%s::%s" % (name, v["n"]) if d["enum"] else name
            n = len(v["f"])
            mk = "%s { %s }" % (path, ", ".join("%s: g%d" % (f["n"] if v["k"] == "named" else str(i), i) for i, f in enumerate(v["f"])))
            if n == 0:
                rd.append('"%s" => %s {},' % (v["n"], path))
                wr.append('%s {} => o.push_str("%s"),' % (path, v["n"]))
                continue
            r, w = [], []
            r.append('p.lit("(");' if v["k"] == "tuple" else 'p.lit(" { ");')
            w.append('o.push_str("%s%s");' % (v["n"], "(" if v["k"] == "tuple" else " { "))
            for i, f in enumerate(v["f"]):
                if i:
                    r.append('p.lit(", ");')
                    w.append('o.push_str(", ");')
                if v["k"] == "named":
                    r.append('p.lit("%s: ");' % f["n"])
                    w.append('o.push_str("%s: ");' % f["n"])
                r.append("let g%d: %s = Txt::parse(p);" % (i, ty(f["t"])))
                w.append("g%d.show(o);" % i)
            r.append('p.lit(")");' if v["k"] == "tuple" else 'p.lit(" }");')
            w.append('o.push_str("%s");' % (")" if v["k"] == "tuple" else " }"))
            rd.append('"%s" => { %s %s }' % (v["n"], " ".join(r), mk))
            wr.append("%s => { %s }" % (mk, " ".join(w)))
        imp = "impl%s Txt for %s%s%s {\n    fn parse(p: &mut P) -> Self { match p.word() { %s w => { eprintln!(\"driver error: no variant {}\", w); std::process::exit(3) } } }\n" % (
            g(lt + [x + ": Txt" for x in ps]), name, g(gen_plain), where, "\n        ".join(rd))
        if d["vars"]:
            imp += "    fn show(&self, o: &mut String) { match *self { %s } }\n}\n" % "\n        ".join(wr)
        else:
            imp += "    fn show(&self, o: &mut String) { match *self {} }\n}\n"
        self.defs[name] = src + imp

    def source(self, terms, kind="fn(&Table) -> Report", entry=lambda i, ty: "table::<%s>" % ty, extra=""):
        """terms: list of (idx, term)"""
        tys = [(i, self.ty(t)) for i, t in terms]
        out = ["use enum_like_derive::EnumLike;\n"]
        out += sorted(self.leaves)
        out += [x for x in self.defs.values()]
        out.append("pub static TYPES: &[(usize, %s)] = &[\n" % kind)
        out += ["    (%d, %s),\n" % (i, entry(i, ty)) for i, ty in tys]
        out.append("];\npub static NAMES: &[&str] = &[%s];\n" % ", ".join('"%s"' % ty for _, ty in tys) + extra)
        return "".join(out)


def key(t):
    """A type as text, for messages"""
    return Gen().ty(t)
