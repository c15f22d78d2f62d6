"""Loading of the MIR dump written by the mirdump rustc driver."""
import json


class Ty:
    __slots__ = ("i", "k", "s", "d", "size", "align", "offs", "variants", "elem", "len", "bits", "name",
                 "elems", "_layout", "args", "signed", "tag")

    def __init__(self, i, d):
        self.i = i
        self.d = d
        self.k = d["k"]
        self.s = d["s"]
        self.name = d.get("name")
        self.elem = d.get("elem")
        self.len = d.get("len")
        self.bits = d.get("bits")
        self.elems = d.get("elems")
        self.args = [a.get("ty") if isinstance(a, dict) else a for a in d["args"]] if isinstance(d.get("args"), list) else None
        self.variants = d.get("variants")
        self.signed = self.k == "int"
        self.size = None
        self.align = None
        self.offs = None
        self.tag = None
        if "layout" in d:
            l = json.loads(d["layout"])
            self.size = l["size"]["num_bits"] // 8 if isinstance(l["size"], dict) else l["size"] // 8
            self.align = l["abi_align"]
            f = l["fields"]
            if isinstance(f, dict) and "Arbitrary" in f:
                self.offs = [o["num_bits"] // 8 if isinstance(o, dict) else o // 8 for o in f["Arbitrary"]["offsets"]]
            v = l["variants"]
            if isinstance(v, dict) and "Multiple" in v:
                m = v["Multiple"]
                self.tag = {"tag": m["tag"], "enc": m["tag_encoding"], "field": m["tag_field"],
                            "offs": [[o["num_bits"] // 8 if isinstance(o, dict) else o // 8 for o in x["offsets"]] for x in m["variants"]]}
            elif isinstance(v, dict) and "Single" in v:
                self.tag = {"single": v["Single"]["index"]}

    def is_zst(self):
        return self.size == 0

    def __repr__(self):
        return "Ty<%s>" % self.s


class Inst:
    __slots__ = ("key", "name", "defn", "crate", "kind", "args", "local", "virt", "intrinsic", "_raw", "_body",
                 "lines", "file", "shim")

    def __init__(self, key, d):
        self.key = key
        self.name = d["name"]
        self.defn = d["def"]
        self.crate = d["crate"]
        self.kind = d["kind"]
        self.args = d["args"]
        self.local = d["local"]
        self.virt = d.get("virt")
        self.intrinsic = d.get("intrinsic")
        self._raw = d.get("body")
        self._body = None
        self.lines = d.get("lines")
        self.file = d.get("file")
        self.shim = d["kind"] == "Shim"

    @property
    def has_body(self):
        return self._raw is not None

    @property
    def body(self):
        if self._body is None:
            self._body = parse_body(json.loads(self._raw))
        return self._body

    def __repr__(self):
        return "Inst<%s>" % self.name


class Body:
    __slots__ = ("blocks", "locals", "argc", "spread", "names", "loops")


def _place(p):
    pr = []
    for e in p["projection"]:
        if e == "Deref":
            pr.append(("*",))
        else:
            (k, v), = e.items()
            if k == "Field":
                pr.append(("f", v[0], v[1]))
            elif k == "Downcast":
                pr.append(("d", v))
            elif k == "Index":
                pr.append(("x", v))
            elif k == "ConstantIndex":
                pr.append(("ci", v["offset"], v["min_length"], v["from_end"]))
            elif k == "Subslice":
                pr.append(("ss", v["from"], v["to"], v["from_end"]))
            else:
                pr.append(("other", k, v))
    return (p["local"], tuple(pr))


def _op(o):
    (k, v), = o.items()
    if k == "Copy" or k == "Move":
        return ("p", _place(v), k == "Move")
    if k == "Constant":
        c = v["const_"]
        return ("c", c["kind"], c["ty"])
    if k == "RuntimeChecks":
        return ("k", False)
    raise Exception("operand " + k)


def _rv(r):
    (k, v), = r.items()
    if k == "Use":
        return ("use", _op(v[0]))
    if k == "Ref":
        return ("ref", _place(v[2]))
    if k == "AddressOf":
        return ("ref", _place(v[1]))
    if k == "Reborrow":
        return ("use", ("p", _place(v[2] if isinstance(v, list) and len(v) > 2 else v[-1]), False))
    if k == "BinaryOp":
        return ("bin", v[0], _op(v[1]), _op(v[2]))
    if k == "CheckedBinaryOp":
        return ("cbin", v[0], _op(v[1]), _op(v[2]))
    if k == "UnaryOp":
        return ("un", v[0], _op(v[1]))
    if k == "Cast":
        ck = v[0]
        if isinstance(ck, dict):
            (a, b), = ck.items()
            ck = a + ":" + (b if isinstance(b, str) else list(b)[0] if isinstance(b, dict) else str(b))
        return ("cast", ck, _op(v[1]), v[2])
    if k == "Discriminant":
        return ("discr", _place(v))
    if k == "Aggregate":
        a = v[0]
        ops = [_op(x) for x in v[1]]
        if isinstance(a, str):
            return ("agg", a, None, ops)
        (ak, av), = a.items()
        if ak == "Adt":
            return ("agg", "adt", (av[1], av[4]), ops)  # variant, active field (unions)
        return ("agg", ak.lower(), av, ops)
    if k == "CopyForDeref":
        return ("use", ("p", _place(v), False))
    if k == "Len":
        return ("len", _place(v))
    if k == "Repeat":
        n = v[1]
        return ("repeat", _op(v[0]), n)
    if k == "ThreadLocalRef":
        return ("tls", v)
    raise Exception("rvalue " + k)


def parse_body(b):
    o = Body()
    o.locals = [l["ty"] for l in b["locals"]]
    o.argc = b["arg_count"]
    o.spread = b["spread_arg"]
    o.names = {}
    for vd in b.get("var_debug_info", []) or []:
        try:
            pl = vd["value"]["Place"]
            if not pl["projection"]:
                o.names[pl["local"]] = vd["name"]
        except Exception:
            pass
    blocks = []
    for bb in b["blocks"]:
        sts = []
        for s in bb["statements"]:
            k = s["kind"]
            if isinstance(k, dict):
                (a, v), = k.items()
                if a == "Assign":
                    sts.append(("=", _place(v[0]), _rv(v[1])))
                elif a == "SetDiscriminant":
                    sts.append(("setd", _place(v["place"]), v["variant_index"]))
                elif a == "Intrinsic":
                    sts.append(("intr", v))
                elif a in ("StorageDead",):
                    pass
        t = bb["terminator"]["kind"]
        if isinstance(t, str):
            tt = (t,)
        else:
            (a, v), = t.items()
            if a == "Goto":
                tt = ("goto", v["target"])
            elif a == "SwitchInt":
                tt = ("switch", _op(v["discr"]), [(int(x), y) for x, y in v["targets"]["branches"]], v["targets"]["otherwise"])
            elif a == "Call":
                tt = ("call", _op(v["func"]), [_op(x) for x in v["args"]], _place(v["destination"]), v["target"])
            elif a == "Drop":
                tt = ("goto", v["target"])
            elif a == "Assert":
                m = v["msg"]
                tt = ("assert", _op(v["cond"]), v["expected"], v["target"], m if isinstance(m, str) else list(m)[0])
            else:
                tt = (a,)
        blocks.append((sts, tt))
    o.blocks = blocks
    o.loops = None
    return o


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.roots = d["roots"]
        self.types = {int(k): Ty(int(k), v) for k, v in d["types"].items() if v}
        self.insts = {k: Inst(k, v) for k, v in d["insts"].items() if v}
        self.allocs = {}
        self.vtables = {}
        for k, v in d["allocs"].items():
            if v is None:
                continue
            if "vt" in v:
                self.vtables[tuple(v["vt"])] = v["methods"]
            else:
                self.allocs[int(k)] = v
        self.by_def = {}
        for i in self.insts.values():
            self.by_def.setdefault(i.defn, []).append(i)
        self.by_s = {}
        for t in self.types.values():
            self.by_s.setdefault(t.s, t.i)
        self.ty_by_name = {}
        for t in self.types.values():
            if t.k == "adt":
                self.ty_by_name.setdefault(t.name, t.i)

    def find(self, defn, unique=True):
        l = self.by_def.get(defn, [])
        if not l:
            return None
        return l[0]

    def fields(self, ti, variant=0):
        t = self.types[ti]
        if t.k == "adt":
            return t.variants[variant]["fields"]
        if t.k == "tuple":
            return [{"name": str(n), "ty": e} for n, e in enumerate(t.elems)]
        if t.k == "closure":
            up = self.types[t.d["upvars"]]
            return [{"name": "up%d" % n, "ty": e} for n, e in enumerate(up.elems or [])]
        return []

    def field_index(self, ti, name, variant=0):
        for n, f in enumerate(self.fields(ti, variant)):
            if f["name"] == name:
                return n, f["ty"]
        raise KeyError("%s has no field %s" % (self.types[ti].s, name))
