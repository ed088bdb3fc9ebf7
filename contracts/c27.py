"""C27: reflection."""
import dataclasses, enum, sys, types, typing
from typing import List, Optional, ForwardRef
import z3
from pyvc.spec import check, assume
from pyvc.values import *
from pyvc.tds import *
from pyvc.driver import Obligation
from pyvc.engine import Undecided, zi
from aas_test_engines import reflect as R

NOEX = "<not excluded>"
LEAF = {"bool": bool, "str": str, "int": int, "bytes": bytes, "any": any}
KIND = {"bool": R.BoolType, "str": R.StringType, "int": R.NumberType, "bytes": R.BytesType, "any": R.AnyType}


# --------------------------------------------- class declarations, as plain data
# a world: {"enums": [name], "strs": [name], "classes": [(module, name, bases, abstract, fields)]}
# a field: (name, type, optional, force_name, exclude_as[, default[, further metadata]])
# a type: ("bool",) ... | ("enum", i) | ("sfv", i) | ("cls", i) | ("fwd", i) | ("list", t) | ("nelist", t)
class Built:
    def __init__(self, w):
        self.w = w
        self.enums = [enum.Enum(n, {"A": "a", "B": "b"}, module="m0", qualname=n) for n in w["enums"]]
        self.strs = [type(n, (R.StringFormattedValue,), {"__module__": "m0", "__qualname__": n}) for n in w["strs"]]
        self.classes, self.scope = [], {}
        for i, (mod, name, bases, abstract, fields) in enumerate(w["classes"]):
            specs = []
            for (fn, t, opt, force, excl, *more) in fields:
                meta = dict(more[1]) if len(more) > 1 else {}
                if force is not None: meta["force_name"] = force
                if excl != NOEX: meta["exclude_as"] = excl
                a = self.ann(t)
                specs.append((fn, Optional[a] if opt else a, dataclasses.field(metadata=meta, **({"default": more[0]} if more and more[0] != NOEX else {}))))
            c = dataclasses.make_dataclass(name, specs, bases=tuple(self.classes[b] for b in bases), namespace={"__module__": mod, "__qualname__": name}, eq=False)
            c.__module__ = mod
            if abstract: c = R.abstract(c)
            self.classes.append(c)
            self.scope[f"F{i}"] = c

    def ann(self, t):
        k = t[0]
        if k in LEAF: return LEAF[k]
        if k == "enum": return self.enums[t[1]]
        if k == "sfv": return self.strs[t[1]]
        if k == "cls": return self.classes[t[1]]
        if k == "fwd": return ForwardRef(f"F{t[1]}")
        if k == "list": return List[self.ann(t[1])]
        if k == "nelist": return R.NonEmptyList[self.ann(t[1])]

    def decl(self, i):
        """declared fields of class i, in dataclass order"""
        out = {}
        for c in reversed(self.classes[i].__mro__[1:]):
            for j, k in enumerate(self.classes):
                if k is c:
                    for f in self.decl(j): out[f[0]] = f
        for f in self.w["classes"][i][4]: out[f[0]] = f
        return list(out.values())

    def is_abstract(self, i): return self.w["classes"][i][3]

    def below(self, i):
        """concrete classes strictly below class i (each once)"""
        return [j for j in range(len(self.classes)) if j != i and issubclass(self.classes[j], self.classes[i]) and not self.is_abstract(j)]

    def reach(self, t, seen):
        """every class, enumeration and string type occurring in the reflection"""
        k = t[0]
        if k in ("list", "nelist"): self.reach(t[1], seen)
        elif k in ("enum", "sfv"): seen.add(t)
        elif k in ("cls", "fwd"):
            t = ("cls", t[1])
            if t in seen: return
            seen.add(t)
            for f in self.decl(t[1]):
                if f[4] == NOEX: self.reach(f[1], seen)
            for j in self.below(t[1]): self.reach(("cls", j), seen)

    def full_name(self, t):
        if t[0] == "enum": return "m0." + self.w["enums"][t[1]]
        if t[0] == "sfv": return "m0." + self.w["strs"][t[1]]
        return ".".join(self.w["classes"][t[1]][:2])

    def matches(self, t, r, seen, nested=True):
        """the reflected type r describes the declaration t"""
        k = t[0]
        if k in KIND: return type(r) is KIND[k]
        if k == "enum": return isinstance(r, R.EnumType) and r.cls is self.enums[t[1]]
        if k == "sfv": return isinstance(r, R.StringFormattedValueType) and r.cls is self.strs[t[1]]
        if k in ("list", "nelist"):
            return isinstance(r, R.ListType) and r.allow_empty == (k == "list") and (not nested or self.matches(t[1], r.item_type, seen))
        i = t[1]
        if not isinstance(r, R.ClassType) or r.cls is not self.classes[i]: return False
        if (i in seen): return seen[i] is r
        seen[i] = r
        kept = [f for f in self.decl(i) if f[4] == NOEX]
        if [(a.name, a.required, a.force_name) for a in r.attrs] != [(f[0], not f[2], f[3]) for f in kept]: return False
        if r.static_attrs != {f[0]: f[4] for f in self.decl(i) if f[4] != NOEX}: return False
        if r.is_abstract() != self.is_abstract(i): return False
        if not nested: return len(r.subclasses) >= len(self.below(i))
        if not all(self.matches(f[1], a.type, seen) for f, a in zip(kept, r.attrs)): return False
        below = self.below(i)
        got = list(r.subclasses)
        if not all(isinstance(x, R.ClassType) for x in got): return False
        if {id(x.cls) for x in got} != {id(self.classes[j]) for j in below}: return False
        tree = all(len(self.w["classes"][j][2]) <= 1 for j in range(len(self.classes)))
        if tree and len(got) != len(below): return False
        return all(self.matches(("cls", next(j for j in below if self.classes[j] is x.cls)), x, seen) for x in got)

    def construct_ok(self, r):
        args = {a.name: object() for a in r.attrs}
        obj = r.construct(args)
        return type(obj) is r.cls and all(getattr(obj, n) is v for n, v in args.items()) and all(getattr(obj, n) == v for n, v in r.static_attrs.items())



def h_reflect(w, t):
    b = Built(w)
    r, table = R.reflect(b.ann(t), {}, b.scope)
    seen = {}
    check("the reflected type describes the declaration", b.matches(t, r, seen))
    reach = set()
    b.reach(t, reach)
    for i, ct in seen.items():
        check("constructing passes the arguments and the fixed values", b.construct_ok(ct))
    reach = {x for x in reach if x[0] != "enum"}
    names = {b.full_name(x) for x in reach}
    for q in sorted({n.rpartition(".")[2] for n in names}) + ["Nope", "", "ey", "str", "m1", "key", "KEY", "Key", "s", "S ", "Outer"]:
        want = [x for x in reach if b.full_name(x).endswith("." + q)]
        try:
            got = table.lookup(q)
        except ValueError:
            check("a name carried by exactly one type is found", len(want) != 1)
        else:
            check("lookup fails for missing and ambiguous names", len(want) == 1)
            check("lookup finds the type of that name", b.matches(want[0], got, {}))


def h_function(w, args, ret, defaults=()):
    b = Built(w)
    scope = {}
    exec("def fn(" + ", ".join((["*"] if args else []) + [n + (f"={defaults[i]!r}" if i < len(defaults) and defaults[i] != NOEX else "") for i, (n, t, o) in enumerate(args)]) + "): pass", scope)
    fn = scope["fn"]
    fn.__annotations__ = {n: Optional[b.ann(t)] if opt else b.ann(t) for n, t, opt in args}
    if ret == ("none",): fn.__annotations__["return"] = None
    elif ret is not None: fn.__annotations__["return"] = b.ann(ret)
    r = R.reflect_function(fn, {}, b.scope)
    check("keeps the function", r.func is fn)
    check("arguments in order with their optionality", [(a.name, a.required) for a in r.args] == [(n, not opt) for n, t, opt in args])
    check("with their types", all(b.matches(t, a.type, {}, False) for (n, t, o), a in zip(args, r.args)))
    if ret in (None, ("none",)): check("no return type", type(r.return_type) is R.NoneType)
    else: check("with its return type", b.matches(ret, r.return_type, {}, False))


def h_real():
    """the meta-model and the interfaces themselves"""
    from aas_test_engines.test_cases.v3_0 import model
    t, table = R.reflect(model.Environment, model.__dict__)
    def every(root):
        out, todo = [], [root]
        while todo:
            for s in todo.pop().__subclasses__():
                out.append(s); todo.append(s)
        return out
    for ct in [x for x in table.symbols.values() if isinstance(x, R.ClassType)]:
        want = {c for c in every(ct.cls) if not R.is_abstract(c)}
        check("concrete subclasses", {x.cls for x in ct.subclasses} == want and len(ct.subclasses) == len(want))
        fs = [f for f in dataclasses.fields(ct.cls) if "exclude_as" not in f.metadata]
        check("attributes", [(a.name, a.required) for a in ct.attrs] == [(f.name, type(None) not in typing.get_args(f.type)) for f in fs])


def gen_world(g):
    r = g.r
    names = ["Key", "AKey", "Ref", "Value", "Base", "K", "Item", "Outer.Key", "key", "KEY", "Key_"]
    n = r.randint(1, 6)
    w = {"enums": ["E", "Kind"][:r.randint(1, 2)], "strs": ["S", "Text"][:r.randint(1, 2)], "classes": []}
    used = set()
    def typ(i, depth=0, opt=False):
        k = r.choice(["bool", "str", "int", "bytes", "any", "enum", "sfv", "cls", "cls", "fwd", "list", "list", "nelist"])
        if k in ("list", "nelist"):
            if depth >= 2: k = "str"
            else:
                t = ("fwd", r.randrange(n)) if r.random() < 0.3 else typ(i, depth + 1)
                return (k, t)
        if k == "fwd" and not opt: k = "cls"
        if k == "cls": return ("cls", r.randrange(i)) if i else ("int",)
        if k == "fwd": return ("fwd", r.randrange(n))
        if k == "enum": return ("enum", r.randrange(len(w["enums"])))
        if k == "sfv": return ("sfv", r.randrange(len(w["strs"])))
        return (k,)
    for i in range(n):
        while True:
            mn = (r.choice(["m1", "m2", "pkg.m1"]), r.choice(names + [f"C{i}"]))
            if mn not in used: break
        used.add(mn)
        bases = []
        if i and r.random() < 0.6: bases = [r.randrange(i)]
        if i > 2 and bases and r.random() < 0.15:
            b2 = r.randrange(i)
            if b2 not in bases: bases = [max(bases[0], b2), min(bases[0], b2)]
        fields = []
        for f in r.sample(["a", "b", "value", "type", "id_short", "x1"], r.choice([0, 1, 2, 2, 3])):
            opt = r.random() < 0.4
            fields.append((f, typ(i, 0, opt), opt, r.choice([None, None, None, "forced", "keyName", ""]), r.choice([NOEX] * 5 + [None, [], "fix", 0])))
        if r.random() < 0.01:
            for j in range(r.choice([20, 45, 70, 130])): fields.append((f"many{j}", typ(i), False, None, NOEX))
        if fields and r.random() < 0.3: fields[-1] += (r.choice([NOEX, None, "", "x", 0, 1, True, ()]), r.choice([{}, {"exclude": True}, {"name": "y", "optional": True}]))
        w["classes"].append((mn[0], mn[1], bases, r.random() < 0.25, fields))
    return w, typ, n


def consistent(w):
    try: Built(w)
    except TypeError: return False
    return True


def gen_reflect(g):
    while True:
        w, typ, n = gen_world(g)
        if consistent(w): break
    r = g.r
    t = r.choice([("cls", n - 1), ("cls", 0), ("cls", r.randrange(n)), ("list", ("cls", 0)), ("nelist", ("fwd", n - 1)), typ(n)])
    return [w, t]


def gen_function(g):
    while True:
        w, typ, n = gen_world(g)
        if consistent(w): break
    r = g.r
    args = []
    for a in r.sample(["request", "limit", "cursor", "id", "level", "b", "r", "_x", "returns", "self", "cls"], r.randint(0, 5)): args.append((a, typ(n), r.random() < 0.4))
    return [w, args, r.choice([None, ("none",), typ(n)]), [r.choice([NOEX, NOEX, None, "", 0, True]) for _ in range(r.randint(0, 5))]]


MODULES = ["aas_test_engines.reflect"]
O = Obligation
FN = ["_reflect_class", "_reflect_list", "_reflect_unsafe", "_reflect", "_unwrap_optional", "_unwrap_forward_ref", "_collect_subclasses", "SymbolTable._resolve", "ClassType.construct"]
OBLIGATIONS = [
    O("reflect and lookup on class declarations", h_reflect, gen=gen_reflect, mode="bounded", samples=4000, functions=["aas_test_engines.reflect:" + f for f in FN + ["reflect", "SymbolTable.lookup"]],
      why="reads class objects through the interpreter's own introspection; random declarations of up to 6 classes with recursion, inheritance and forward references"),
    O("reflect_function on signatures", h_function, gen=gen_function, mode="bounded", samples=2500, functions=["aas_test_engines.reflect:reflect_function"],
      why="reads function objects through the interpreter's own introspection; random signatures of up to 5 arguments"),
    O("reflection of the meta-model", h_real, mode="closed"),
]


# ----------------------------------------------------------- deductive contracts
def unwrapped(t): return (True, t)
def forward(t): return t
def excluded(f): return False
def excluded_as(f): return None
def forced(f): return None
def subclasses_of(c): return []


def h_class(cls, table, g, l):
    """_reflect_class against the contracts of its helpers, for any fields"""
    r = R._reflect_class(cls, g, l, table)
    fs = [f for f in dataclasses.fields(cls) if not excluded(f)]
    check("describes the class", isinstance(r, R.ClassType) and r.cls is cls)
    check("one attribute per kept field: name, optionality, type and forced name, in order",
          [(a.name, a.required, a.force_name, a.type.ref_cls) for a in r.attrs] == [(f.name, unwrapped(f.type)[0], forced(f), forward(unwrapped(f.type)[1])) for f in fs])
    check("every excluded field has its fixed value", all(implies_static(r.static_attrs, f) for f in dataclasses.fields(cls)))
    check("and no other field", all(excluded(f) or f.name not in r.static_attrs for f in dataclasses.fields(cls)))
    subs = subclasses_of(cls)
    check("one entry per concrete subclass, in order", [a.ref_cls for a in r.subclasses] == subs)


def implies_static(d, f): return (f.name in d and d[f.name] is excluded_as(f)) if excluded(f) else True


ANN = TAbs("annotation")
FIELD = TAbs("field", attrs={"name": TStr(), "type": ANN, "metadata": TAbs("metadata")})
CLS = TAbs("class")


def meta_get(e, o, a, k):
    key = e.resolve(a[0])
    if key == "exclude_as":
        h = e.app("has_exclude", (o.t,), B)
        v = Opaque(e.app("exclude", (o.t,), U))
    elif key == "force_name":
        h = e.app("has_force", (o.t,), B)
        v = SStr(e.app("force", (o.t,), e.S))
    else: raise Undecided("metadata " + repr(key))
    return h, v


def class_setup(eng):
    def getitem(e, o, a, k):
        h, v = meta_get(e, o, a, k)
        if e.branch(h): return v
        e.raise_(KeyError, a[0])
    def get(e, o, a, k):
        h, v = meta_get(e, o, a, k)
        return e.mk_union([(h, v), (z3.Not(h), a[1] if len(a) > 1 else None)])
    def contains(e, o, a, k): return SBool(meta_get(e, o, a, k)[0])
    META = TAbs("metadata", methods={"__getitem__": getitem, "get": get, "__contains__": contains})
    FIELD.attrs["metadata"] = META
    n = z3.Int("fields.n")
    eng.ax.append(n >= 0)
    flds = SList(n, lambda i: eng.mk(FIELD, "field[]", (zi(i),)))
    m = z3.Int("subs.n")
    eng.ax.append(m >= 0)
    subs = SList(m, lambda i: SObj(eng.app("sub[]", (zi(i),), U), CLS))
    # dataclass field names are distinct
    i, j = z3.Ints("fi fj")
    name = lambda x: eng.getattr(eng.mk(FIELD, "field[]", (x,)), "name").t
    eng.ax.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, name(i) == name(j)), i == j)))
    eng.models[dataclasses.fields] = lambda e, a, k: flds
    eng.models[dataclasses.is_dataclass] = lambda e, a, k: True
    eng.models[R._unwrap_optional] = lambda e, a, k: (SBool(e.app("req", (a[0].t,), B)), SObj(e.app("inner", (a[0].t,), U), ANN))
    eng.models[unwrapped] = eng.models[R._unwrap_optional]
    eng.models[R._unwrap_forward_ref] = lambda e, a, k: SObj(e.app("fwd", (a[0].t,), U), ANN)
    eng.models[forward] = eng.models[R._unwrap_forward_ref]
    eng.models[R._reflect] = lambda e, a, k: Opaque(e.fresh("reflected", U))
    eng.models[R._collect_subclasses] = lambda e, a, k: subs
    eng.models[subclasses_of] = lambda e, a, k: subs
    def md(e, f): return e.getattr(f, "metadata")
    eng.models[excluded] = lambda e, a, k: SBool(e.app("has_exclude", (md(e, a[0]).t,), B))
    eng.models[excluded_as] = lambda e, a, k: Opaque(e.app("exclude", (md(e, a[0]).t,), U))
    eng.models[forced] = lambda e, a, k: e.mk_union([(e.app("has_force", (md(e, a[0]).t,), B), SStr(e.app("force", (md(e, a[0]).t,), e.S))), (z3.Not(e.app("has_force", (md(e, a[0]).t,), B)), None)])



def direct(c): return c.__subclasses__()
def concrete(c): return True
def below(c): return []


def h_subclasses(cls):
    """by induction: the recursive calls yield the concrete classes below each
    direct subclass (contract of the callee)"""
    got = list(R._collect_subclasses(cls))
    want = []
    for c in direct(cls):
        if concrete(c): want.append(c)
        want.extend(below(c))
    check("each direct subclass if concrete, followed by the concrete classes below it", got == want)


def h_lookup(table, name):
    hits = [t for n, t in table.items() if n.endswith("." + name + "'>")]
    st = R.SymbolTable()
    st.symbols = table
    try:
        r = st.lookup(name)
    except ValueError:
        check("a name carried by exactly one type is found", len(hits) != 1)
        return
    check("lookup fails for missing and ambiguous names", len(hits) == 1)
    check("lookup finds the type of that name", r is hits[0])


def h_construct(args, static, cls):
    r = R.ClassType(cls, [], static, [])
    o = r.construct(args)
    check("constructs the class with the arguments and the fixed values", o == built({**args, **static}))


def built(d): return None


def h_function_args(fn, table):
    r = R.reflect_function(fn, {}, {})
    ann = [(n, t) for n, t in fn.__annotations__.items() if n != "return"]
    check("keeps the function", r.func is fn)
    check("annotated arguments in order, optional exactly when annotated optional",
          [(a.name, a.required, a.type) for a in r.args] == [(n, unwrapped(t)[0], reflected(unwrapped(t)[1])) for n, t in ann])
    check("the annotated return type", r.return_type is reflected(fn.__annotations__["return"] if "return" in fn.__annotations__ else None))


def reflected(t): return t


def h_unwrap(plain, generic, optional, inner):
    check("a plain type is required", R._unwrap_optional(plain) == (True, plain))
    check("a list is required", R._unwrap_optional(generic) == (True, generic))
    check("an optional type is not, and is its inner type", R._unwrap_optional(optional) == (False, inner))


def c_unwrap(w, t):
    b = Built(w)
    a = b.ann(t)
    check("required", R._unwrap_optional(a) == (True, a))
    check("optional", R._unwrap_optional(Optional[a]) == (False, a))


def h_list(item, table, g, l, empty):
    r = R._reflect_list(item, g, l, table, empty)
    check("a list of the item type that may be empty as declared", isinstance(r, R.ListType) and r.allow_empty == empty and r.item_type.ref_cls is forward(item))


def mk_optional(e):
    return SObj(z3.Const("optional", U), TAbs("optional", attrs={"__origin__": lambda e, o: typing.Union, "__args__": lambda e, o: (SObj(z3.Const("inner", U), TAbs("inner")), type(None))}))



def inductive(f, hyp):
    """model: the call under contract runs the real body, nested calls its contract"""
    depth = [0]
    def m(e, a, k):
        if depth[0]: return hyp(e, a, k)
        depth[0] += 1
        try: return e.call_pyfunc(f, a, k)
        finally: depth[0] -= 1
    return m


def kids(e, t, fn):
    n = e.app(fn + ".n", (t,), I)
    e.assume(n >= 0)
    return SList(n, lambda i: SObj(e.app(fn, (t, zi(i)), U), CLS2))


CLS2 = TAbs("class*", methods={"__subclasses__": lambda e, o, a, k: kids(e, o.t, "direct")})


def subclass_setup(eng):
    hyp = lambda e, a, k: kids(e, e.resolve(a[0]).t, "below")
    eng.models[R._collect_subclasses] = inductive(R._collect_subclasses, hyp)
    eng.models[below] = hyp
    eng.models[direct] = lambda e, a, k: kids(e, e.resolve(a[0]).t, "direct")
    eng.models[R.is_abstract] = lambda e, a, k: SBool(e.app("is_abstract", (e.resolve(a[0]).t,), B))
    eng.models[concrete] = lambda e, a, k: SBool(z3.Not(e.app("is_abstract", (e.resolve(a[0]).t,), B)))


def function_setup(eng):
    un = lambda e, a, k: (SBool(e.app("req", (a[0].t,), B)), SObj(e.app("inner", (a[0].t,), U), ANN))
    eng.models[R._unwrap_optional] = un
    eng.models[unwrapped] = un
    def refl(e, a, k):
        x = e.resolve(a[0])
        if x is None: return Opaque(e.app("none.reflected", (), U))
        return Opaque(e.app("reflected", (x.t,), U))
    eng.models[R._reflect] = refl
    eng.models[reflected] = refl


def mk_fn(e):
    n = z3.Int("ann.n")
    e.ax.append(n >= 0)
    i, j = z3.Ints("ai aj")
    key = lambda i: e.app("ann.key", (zi(i),), e.S)
    idx = lambda s: e.app("ann.idx", (s,), I)
    e.ax.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), idx(key(i)) == i)))
    has = lambda k: z3.And(idx(e.st(k)) >= 0, idx(e.st(k)) < n, key(idx(e.st(k))) == e.st(k))
    get = lambda k: SObj(e.app("ann.get", (e.st(k),), U), ANN)
    m = SMap(n, key, has, get)
    return SObj(z3.Const("fn", U), TAbs("function", attrs={"__annotations__": lambda e, o: m}))


OBLIGATIONS += [
    O("_reflect_class", h_class, [("cls", CLS), ("table", TOpaque()), ("g", TOpaque()), ("l", TOpaque())], setup=class_setup, concrete=h_reflect, gen=gen_reflect, samples=300),
    O("symbol lookup", h_lookup, [("table", lambda e: mk_table(e)), ("name", TStr())], strings="seq", concrete=h_reflect, gen=gen_reflect, samples=300),
    O("_collect_subclasses (inductive step)", h_subclasses, [("cls", CLS2)], setup=subclass_setup, concrete=h_reflect, gen=gen_reflect, samples=300),
    O("_unwrap_optional", h_unwrap, [("plain", TAbs("plain", attrs={"__origin__": None})), ("generic", lambda e: SObj(z3.Const("generic", U), TAbs("generic", attrs={"__origin__": lambda e, o: list}))),
                                     ("optional", lambda e: mk_optional(e)), ("inner", TAbs("inner"))], concrete=c_unwrap, gen=gen_reflect, samples=300),
    O("_reflect_list", h_list, [("item", ANN), ("table", TOpaque()), ("g", TOpaque()), ("l", TOpaque()), ("empty", TBool())], setup=class_setup, concrete=h_reflect, gen=gen_reflect, samples=300),
    O("reflect_function arguments", h_function_args, [("fn", lambda e: mk_fn(e)), ("table", TOpaque())], setup=function_setup, concrete=h_function, gen=gen_function, samples=300),
]


def mk_table(e):
    n = z3.Int("table.n")
    e.ax.append(n >= 0)
    S_ = e.S
    key = lambda i: e.app("table.key", (zi(i),), S_)
    has = lambda k: e.app("table.has", (e.st(k),), B)
    get = lambda k: Opaque(e.app("table.get", (e.st(k),), U))
    return SMap(n, key, has, get)


# ------------------------------------------------ each type read once (recursion ends)
def begin(): ...
def readings(): ...
def reserved(): ...
def description(c): ...


def h_once(cls, g, l, table, other):
    st = R.SymbolTable()
    st.symbols = {**table}
    begin()
    key = str(cls)
    r = R._reflect(cls, g, l, st)
    if key in table:
        check("a type in the table is not read again", readings() == 0)
        check("but is the one in the table", r is table[key])
    else:
        check("a new type is read exactly once", readings() == 1)
        check("under a reserved name, so that types may refer to themselves", reserved())
        check("and its description returned", r is description(cls))
    check("and kept", st.symbols[key] is r)
    if other in table: check("other types stay", st.symbols[other] is table[other])


def once_setup(eng):
    n, res = [], []
    def read(e, a, k):
        c, g, l, st = a
        n.append(1)
        res.append(e.contains(e.getattr(st, "symbols"), e.call(str, [c], {})))
        return Opaque(e.app("description", (c.t,), U))
    eng.models[R._reflect_unsafe] = read
    eng.models[description] = lambda e, a, k: Opaque(e.app("description", (a[0].t,), U))
    def reset(e, a, k): del n[:], res[:]
    eng.models[begin] = reset
    eng.models[readings] = lambda e, a, k: len(n)
    eng.models[reserved] = lambda e, a, k: SBool(z3.And(*[x if z3.is_expr(x) else z3.BoolVal(x) for x in res]))


OBLIGATIONS += [
    O("each type read once", h_once, [("cls", TAbs("type")), ("g", TOpaque()), ("l", TOpaque()), ("table", lambda e: mk_table(e)), ("other", TStr())], setup=once_setup, concrete=h_reflect, gen=gen_reflect, samples=1),
]


# ----------------------------------------------------------------- kinds of types
BASE = [(None, R.NoneType), (bool, R.BoolType), (str, R.StringType), (any, R.AnyType), (int, R.NumberType), (bytes, R.BytesType)]


def is_enumeration(c): ...
def is_formatted(c): ...
def is_class(c): ...
def is_declared(c): ...
def class_reads(): ...
def list_reads(): ...


def h_kinds(cls, items, nonempty, other, item, g, l, table):
    """_reflect_unsafe: which description a type gets"""
    begin()
    for t, kind in BASE: check("the plain types", type(R._reflect_unsafe(t, g, l, table)) is kind)
    check("are not read as classes or lists", len(class_reads()) == 0 and len(list_reads()) == 0)
    try: r = R._reflect_unsafe(cls, g, l, table)
    except Exception:
        check("only what is neither enumeration nor text format nor a declared class is refused", not is_enumeration(cls) and not is_formatted(cls) and not is_declared(cls))
    else:
        if is_enumeration(cls): check("an enumeration", type(r) is R.EnumType and r.cls is cls)
        elif is_formatted(cls): check("a text format", type(r) is R.StringFormattedValueType and r.cls is cls)
        else: check("a declared class", r is description(cls) and is_declared(cls) and class_reads() == [cls])
    begin()
    R._reflect_unsafe(items, g, l, table)
    check("a list, possibly empty, of its item type", list_reads() == [(item, True)])
    begin()
    R._reflect_unsafe(nonempty, g, l, table)
    check("a non-empty list of its item type", list_reads() == [(item, False)])
    try: R._reflect_unsafe(other, g, l, table)
    except NotImplementedError: pass
    else: check("other generic types are refused", False)


TYPE = TAbs("type", attrs={"__origin__": None}, methods={
    "__isinstance__": lambda e, o, a, k: SBool(e.app("is_enum", (o.t,), B)) if a[0] is type(enum.Enum) else False,
    "__issubclass__": lambda e, o, a, k: SBool(e.app("is_formatted", (o.t,), B)) if e.resolve(a[0]) is R.StringFormattedValue else False})


def generic(name, origin):
    return lambda e: SObj(z3.Const(name, U), TAbs(name, attrs={"__origin__": lambda e, o: origin, "__args__": lambda e, o: (SObj(z3.Const("item", U), TAbs("item")),)}))


def kinds_setup(eng):
    classes, lists = [], []
    M = eng.models
    def p(n): return lambda e, a, k: SBool(e.app(n, (e.resolve(a[0]).t,), B))
    for f, n in ((is_enumeration, "is_enum"), (is_formatted, "is_formatted"), (is_declared, "is_declared"), (dataclasses.is_dataclass, "is_declared")): M[f] = p(n)
    M[inspect.isclass] = lambda e, a, k: True
    def reset(e, a, k): del classes[:], lists[:]
    def read_class(e, a, k):
        classes.append(a[0])
        return Opaque(e.app("description", (a[0].t,), U))
    def read_list(e, a, k):
        lists.append((a[0], a[4] if len(a) > 4 else k["allow_empty"]))
        return Opaque(e.fresh("list", U))
    M[begin], M[R._reflect_class], M[R._reflect_list] = reset, read_class, read_list
    M[description] = lambda e, a, k: Opaque(e.app("description", (a[0].t,), U))
    M[class_reads] = lambda e, a, k: e.new_list(list(classes))
    M[list_reads] = lambda e, a, k: e.new_list(list(lists))


OBLIGATIONS += [
    O("kinds of types", h_kinds, [("cls", TYPE), ("items", generic("items", list)), ("nonempty", generic("nonempty", R.NonEmptyList)), ("other", generic("other", dict)), ("item", TAbs("item")), ("g", TOpaque()), ("l", TOpaque()), ("table", TOpaque())],
      setup=kinds_setup, concrete=h_reflect, gen=gen_reflect, samples=1),
]
