"""Type descriptors: how to make a symbolic value of a declared type, how to
generate concrete ones and how to decode a model into a concrete one."""
import dataclasses, enum, typing, inspect, sys
import z3
from .values import *


class TD:
    pass


class TInt(TD):
    def __init__(self, lo=None, hi=None): self.lo, self.hi = lo, hi
    def __repr__(self): return "int"


class TBool(TD):
    def __repr__(self): return "bool"


class TStr(TD):
    """strings; `pool`: extra sample strings for concrete generation"""
    def __init__(self, pool=(), lang=None): self.pool, self.lang = pool, lang
    def __repr__(self): return "str"


class TEnum(TD):
    def __init__(self, cls): self.cls = cls
    def __repr__(self): return self.cls.__name__


class TOpt(TD):
    def __init__(self, td): self.td = td
    def __repr__(self): return f"Optional[{self.td}]"


class TList(TD):
    def __init__(self, td, min=0): self.td, self.min = td, min
    def __repr__(self): return f"List[{self.td}]"


class TConst(TD):
    """one of a finite set of concrete values"""
    def __init__(self, *values): self.values = values
    def __repr__(self): return f"Const{self.values}"


class TOpaque(TD):
    def __init__(self, samples=(None,)): self.samples = samples
    def __repr__(self): return "Opaque"


class TUnion(TD):
    def __init__(self, *tds): self.tds = tds
    def __repr__(self): return f"Union{self.tds}"


class TAbs(TD):
    """abstract protocol object.  attrs: name -> TD ; methods: name ->
    fn(eng, obj, args, kwargs); cls: python class(es) it is an instance of."""
    def __init__(self, name, attrs=None, methods=None, cls=None, gen=None):
        self.name, self.attrs, self.methods, self.cls, self.gen = name, attrs or {}, methods or {}, cls, gen
    def __repr__(self): return self.name


class TObj(TD):
    def __init__(self, cls, concrete=None, overrides=None):
        self.cls, self._concrete, self.overrides = cls, concrete, overrides or {}
    def __repr__(self): return self.cls.__name__

    @property
    def concrete(self):
        if self._concrete is None:
            self._concrete = concrete_classes(self.cls)
        return self._concrete


def is_abstract(cls):
    from aas_test_engines.reflect import is_abstract as ia
    return ia(cls)


def concrete_classes(cls):
    if not is_abstract(cls):
        return [cls]
    out = []
    def rec(c):
        for s in c.__subclasses__():
            if not is_abstract(s) and s not in out:
                out.append(s)
            rec(s)
    rec(cls)
    return out


_tags = {}


def tag_of(cls):
    """stable integer per concrete class"""
    if cls not in _tags:
        _tags[cls] = len(_tags)
    return _tags[cls]


def cls_of_tag(i):
    for c, j in _tags.items():
        if i == j:
            return c
    return None


_fields_cache = {}


def fields_of(cls):
    """name -> (defining class, TD) for the instance attributes of cls"""
    if cls in _fields_cache:
        return _fields_cache[cls]
    from aas_test_engines.reflect import StringFormattedValue
    out = {}
    if issubclass(cls, StringFormattedValue):
        out["raw_value"] = (StringFormattedValue, TStr())
    elif dataclasses.is_dataclass(cls):
        for f in dataclasses.fields(cls):
            owner = cls
            for c in reversed(cls.__mro__):
                if f.name in c.__dict__.get("__annotations__", {}):
                    owner = c
                    break
            # most base class that declares it
            mod = sys.modules[owner.__module__]
            out[f.name] = (owner, from_annotation(f.type, mod))
    _fields_cache[cls] = out
    return out


def from_annotation(a, mod):
    from aas_test_engines.reflect import StringFormattedValue, NonEmptyList
    if isinstance(a, str):
        a = eval(a, vars(mod))
    if isinstance(a, typing.ForwardRef):
        a = eval(a.__forward_arg__, vars(mod))
    o = getattr(a, "__origin__", None)
    if o is typing.Union:
        args = [x for x in a.__args__ if x is not type(None)]
        if len(args) == 1:
            return TOpt(from_annotation(args[0], mod))
        return TOpaque()
    if o is NonEmptyList:
        return TList(from_annotation(a.__args__[0], mod), 1)
    if o in (list,):
        return TList(from_annotation(a.__args__[0], mod), 0)
    if a is str: return TStr()
    if a is bool: return TBool()
    if a is int: return TInt()
    if inspect.isclass(a):
        if issubclass(a, enum.Enum): return TEnum(a)
        if issubclass(a, StringFormattedValue) or dataclasses.is_dataclass(a): return TObj(a)
        return TOpaque()
    return TOpaque()
