"""Symbolic values of the verifier.

Concrete Python values stand for themselves.  Everything else is one of the
classes below; mutable things live in the engine's heap behind a Ref.
"""
import z3

U = z3.DeclareSort("U")          # abstract objects
AStr = z3.DeclareSort("AStr")    # abstract strings (abs mode)
B, I = z3.BoolSort(), z3.IntSort()


class SV:
    pass


class SInt(SV):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SInt({self.t})"


class SBool(SV):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SBool({self.t})"


class SStr(SV):
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SStr({self.t})"


class SEnum(SV):
    """member of enum class `cls`; t: Int = index in list(cls)"""
    def __init__(self, cls, t): self.cls, self.t = cls, t
    def __repr__(self): return f"SEnum({self.cls.__name__},{self.t})"


class SObj(SV):
    """immutable abstract object; t: U ; td: TObj descriptor"""
    def __init__(self, t, td): self.t, self.td = t, td
    def __repr__(self): return f"SObj({self.td},{self.t})"


class SUnion(SV):
    """exactly one of the guards holds"""
    def __init__(self, cases): self.cases = cases
    def __repr__(self): return f"SUnion({self.cases})"


class SList(SV):
    """immutable sequence: n (python int or z3 Int), nth: z3 Int -> value"""
    def __init__(self, n, nth): self.n, self.nth = n, nth
    def __repr__(self): return f"SList(n={self.n})"


class SMap(SV):
    """immutable finite map str -> value.
    n, key(i): enumeration; has(k)->z3 Bool ; get(k)->value (k: value)"""
    def __init__(self, n, key, has, get): self.n, self.key, self.has, self.get = n, key, has, get


class SFun(SV):
    """abstract callable: python-level implementation fn(eng, args, kwargs)"""
    def __init__(self, fn, name="fn", ident=None): self.fn, self.name, self.ident = fn, name, ident


class Opaque(SV):
    """value about which nothing is known except identity (t: U)"""
    def __init__(self, t): self.t = t
    def __repr__(self): return f"Opaque({self.t})"


class Ref(SV):
    __slots__ = ("id",)
    def __init__(self, id): self.id = id
    def __repr__(self): return f"Ref#{self.id}"


class Bound(SV):
    def __init__(self, self_, func): self.self_, self.func = self_, func


class BMeth(SV):
    """method `name` of a value with a built-in model"""
    def __init__(self, recv, name): self.recv, self.name = recv, name


class Closure(SV):
    def __init__(self, node, fid, env, name, defaults, kwdefaults, defcls=None):
        self.node, self.fid, self.env, self.name = node, fid, env, name
        self.defaults, self.kwdefaults, self.defcls = defaults, kwdefaults, defcls


class Poison(SV):
    def __init__(self, loc): self.loc = loc


# heap records (treated as immutable; updates replace the record) -------------
class Obj:
    __slots__ = ("cls", "fields", "sym")
    def __init__(self, cls, fields, sym=None): self.cls, self.fields, self.sym = cls, fields, sym


class Lst:
    __slots__ = ("segs",)
    def __init__(self, segs): self.segs = tuple(segs)


class Set_:
    """elems: tuple of values ; preds: tuple of functions value -> bool/z3"""
    __slots__ = ("elems", "preds")
    def __init__(self, elems, preds=()): self.elems, self.preds = tuple(elems), tuple(preds)


class Dct:
    """puts on top of optional base (SMap).  puts: tuple of (key, value) or
    FoldPuts segments; default: factory for defaultdict"""
    __slots__ = ("base", "puts", "default")
    def __init__(self, base, puts, default=None): self.base, self.puts, self.default = base, tuple(puts), default


class Frame:
    __slots__ = ("vars",)
    def __init__(self, vars): self.vars = vars


# list segments ---------------------------------------------------------------
class Unit:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v


class Span:
    """n elements nth(0..n-1)"""
    __slots__ = ("n", "nth", "key")
    def __init__(self, n, nth, key=None): self.n, self.nth, self.key = n, nth, key


class FM:
    """concatenation over j in [0,n) of the segments of the one case whose
    condition holds: cases(j) -> [(cond, [segs])]"""
    __slots__ = ("n", "cases")
    def __init__(self, n, cases): self.n, self.cases = n, cases


class CarriedSeg:
    """placeholder for 'contents of this list at start of iteration'"""
    __slots__ = ("loc",)
    def __init__(self, loc): self.loc = loc


class GroupSeg(CarriedSeg):
    """placeholder for 'contents, at start of iteration, of the list kept under this key'"""
    __slots__ = ()
