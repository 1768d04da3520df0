"""Names and signedness from the debug metadata of the extracted IR (struct fields, locals, parameters)."""
import re


class Dbg:
    def __init__(self, text):
        self.md = {}
        for m in re.finditer(r"^!(\d+) = (?:distinct )?(!.*)$", text, re.M):
            self.md[int(m.group(1))] = m.group(2)
        self.structs = {}
        self.subs = {}
        self.locals = {}
        self.rets = {}
        self._build()
        # define lines: function -> subprogram
        for m in re.finditer(r"^define .*?@([\w.]+)\(.*!dbg !(\d+)", text, re.M):
            self.subs[m.group(1)] = int(m.group(2))
        bysp = {}
        for k, v in self.md.items():
            if v.startswith("!DILocalVariable("):
                nm, sc, ty = self.attr(v, "name"), self.ref(v, "scope"), self.ref(v, "type")
                sp = self.scope_sub(sc)
                bysp.setdefault(sp, {}).setdefault(nm, []).append((self.attr(v, "arg"), ty, self.attr(v, "line")))
        for fn, sp in self.subs.items():
            self.locals[fn] = bysp.get(sp, {})
            ty = self.ref(self.md.get(sp, ""), "type")
            if ty is not None:
                tys = self.ref(self.md.get(ty, ""), "types")
                lst = re.findall(r"!(\d+)|null", self.md.get(tys, "")[1:]) if tys is not None else []
                if lst and lst[0]:
                    self.rets[fn] = self.signed(int(lst[0]))

    def attr(self, v, n):
        m = re.search(r"\b%s: (\"[^\"]*\"|[^,)]+)" % n, v)
        return m.group(1).strip('"') if m else None

    def ref(self, v, n):
        m = re.search(r"\b%s: !(\d+)" % n, v or "")
        return int(m.group(1)) if m else None

    def scope_sub(self, sc):
        for _ in range(50):
            v = self.md.get(sc, "")
            if v.startswith("!DISubprogram"):
                return sc
            n = self.ref(v, "scope")
            if n is None:
                return None
            sc = n
        return None

    def _build(self):
        comp = {}
        for k, v in self.md.items():
            if v.startswith("!DICompositeType(") and ("DW_TAG_structure_type" in v or "DW_TAG_union_type" in v):
                el = self.ref(v, "elements")
                if el is None:
                    continue
                mem = []
                for r in re.findall(r"!(\d+)", self.md.get(el, "")[1:]):
                    d = self.md.get(int(r), "")
                    if "DW_TAG_member" in d:
                        mem.append((self.attr(d, "name"), self.ref(d, "baseType")))
                comp[k] = mem
                nm = self.attr(v, "name")
                if nm:
                    self.structs[nm] = mem
        for k, v in self.md.items():
            if v.startswith("!DIDerivedType(") and "DW_TAG_typedef" in v:
                b = self.ref(v, "baseType")
                if b in comp:
                    self.structs.setdefault(self.attr(v, "name"), comp[b])

    def base(self, name):
        if not name:
            return None
        n = re.sub(r"^(struct|union)\.", "", name)
        n = re.sub(r"\.\d+$", "", n)
        return self.structs.get(n)

    def field(self, sname, fname):
        m = self.base(sname)
        if m is None:
            return None
        for i, (n, _) in enumerate(m):
            if n == fname:
                return i
        return None

    def signed(self, t):
        for _ in range(20):
            v = self.md.get(t, "")
            if v.startswith("!DIBasicType"):
                e = self.attr(v, "encoding")
                if e in ("DW_ATE_signed", "DW_ATE_signed_char"):
                    return True
                if e in ("DW_ATE_unsigned", "DW_ATE_unsigned_char", "DW_ATE_boolean"):
                    return False
                return None
            if v.startswith("!DICompositeType") and "enumeration" in v:
                b = self.ref(v, "baseType")
                return self.signed(b) if b is not None else False
            if v.startswith("!DICompositeType") and "array" in v:
                t = self.ref(v, "baseType")
                if t is None:
                    return None
                continue
            n = self.ref(v, "baseType")
            if n is None:
                return None
            if "DW_TAG_pointer_type" in v:
                return None
            t = n
        return None

    def field_signed(self, sname, i):
        m = self.base(sname)
        if m is None or i >= len(m):
            return None
        return self.signed(m[i][1])

    def local_signed(self, fn, name):
        d = self.locals.get(fn)
        if d is None:
            return None
        for n in (name, re.sub(r"\d+$", "", name)):
            if n in d:
                return self.signed(d[n][0][1])
        return None

    def ret_signed(self, fn):
        return self.rets.get(fn)
