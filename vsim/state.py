"""Complete, comparable pictures of objects: what is in memory, attribute by attribute."""
import hashlib
import types

import numpy as np

PRIVATE_BITS = ("_seed", "_rand_state", "_order")     # how a bit array was generated, not part of a signal's metadata


def _h(b):
    return hashlib.sha256(b).hexdigest()[:20]


def walk(obj, path="", out=None, seen=None, bits=False):
    """list of (path, description) of everything reachable from obj"""
    if out is None:
        out, seen = [], {}
    if obj is None or isinstance(obj, (bool, int, float, complex, str)):
        out.append((path, "%s %r" % (type(obj).__name__, obj)))
        return out
    if isinstance(obj, bytes):
        out.append((path, "bytes " + _h(obj)))
        return out
    if id(obj) in seen:
        out.append((path, "same as " + seen[id(obj)]))
        return out
    if isinstance(obj, np.generic):
        out.append((path, "%s %s" % (obj.dtype.str, _h(obj.tobytes()))))
        return out
    if isinstance(obj, np.random.RandomState):
        s = obj.get_state(legacy=False)
        out.append((path, "RandomState " + _h(repr((s["bit_generator"], s["state"]["key"].tolist() if "key" in s["state"] else s["state"], s.get("has_gauss"), s.get("gauss"))).encode())))
        return out
    seen[id(obj)] = path or "."
    if isinstance(obj, np.ndarray):
        if obj.dtype.hasobject:
            out.append((path, "%s object%s" % (type(obj).__name__, obj.shape)))
            for i, x in enumerate(obj.ravel()):
                walk(x, "%s[%d]" % (path, i), out, seen, bits)
        else:
            out.append((path, "%s %s%s %s" % (type(obj).__name__, obj.dtype.str, obj.shape, _h(np.asarray(obj).tobytes()))))
        d = getattr(obj, "__dict__", None)
        if d:
            for k in sorted(d):
                if bits or k not in PRIVATE_BITS:
                    walk(d[k], path + "." + k, out, seen, bits)
        return out
    if isinstance(obj, dict):
        out.append((path, "%s of %d" % (type(obj).__name__, len(obj))))
        for k in sorted(obj, key=repr):
            walk(obj[k], "%s[%r]" % (path, k), out, seen, bits)
        return out
    if isinstance(obj, (list, tuple)):
        out.append((path, "%s of %d" % (type(obj).__name__, len(obj))))
        for i, x in enumerate(obj):
            walk(x, "%s[%d]" % (path, i), out, seen, bits)
        return out
    if isinstance(obj, (set, frozenset)):
        out.append((path, "%s %s" % (type(obj).__name__, _h(repr(sorted(map(repr, obj))).encode()))))
        return out
    if isinstance(obj, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
        out.append((path, "%s %s" % (type(obj).__name__, getattr(obj, "__qualname__", getattr(obj, "__name__", "?")))))
        return out
    if isinstance(obj, range) or isinstance(obj, slice):
        out.append((path, repr(obj)))
        return out
    d = getattr(obj, "__dict__", None)
    out.append((path, type(obj).__name__))
    if d is not None:
        for k in sorted(d):
            walk(d[k], path + "." + k, out, seen, bits)
    return out


def fp(obj, bits=False):
    """one hash for the whole object"""
    h = hashlib.sha256()
    for p, d in walk(obj, bits=bits):
        h.update(("%s\0%s\n" % (p, d)).encode())
    return h.hexdigest()[:24]


def _unalias(w):
    """aliasing ("same as") resolved to the content, so that only contents are compared"""
    d = dict(w)
    out = {}
    for p, v in w:
        n = 0
        while v.startswith("same as ") and n < 20:
            q = v[8:]
            v = d.get("" if q == "." else q, v)
            n += 1
        out[p] = v
    return out


def diff(a, b, names=("first", "second"), alias=False, bits=False):
    """None, or a description of the first difference between two objects"""
    wa, wb = walk(a, bits=bits), walk(b, bits=bits)
    if wa == wb:
        return None
    da, db = (dict(wa), dict(wb)) if alias else (_unalias(wa), _unalias(wb))
    if not alias:
        # contents below an alias are listed once only
        keys = [k for k in da if k in db] + [k for k in list(da) + list(db) if (k in da) != (k in db)]
    else:
        keys = sorted(set(da) | set(db))
    for k in keys:
        x, y = da.get(k), db.get(k)
        if x != y:
            if not alias and (x is None or y is None) and _below_alias(k, wa if x is None else wb):
                continue
            return "%s: %s %s, %s %s" % (k or "object", names[0], x, names[1], y)
    return None


def _below_alias(k, w):
    return any(d.startswith("same as ") and k.startswith(p) for p, d in w)


def parts(obj):
    """path -> description with aliasing resolved"""
    return _unalias(walk(obj))


# ---- what a user can observe of a signal
DERIVED = ("os", "nframes", "idx_payload", "idx_pilots")           # follow from the others and the shape
INNER = ("_foe", "_pilot_seq_len", "_pilot_ins_rat", "_power_method")   # no property, but later operations depend on them


def _props(cls):
    return sorted({n for c in cls.__mro__ for n, v in vars(c).items() if isinstance(v, property) and not n.startswith("_")})


def describe(v, depth=0):
    if isinstance(v, np.ndarray):
        d = "%s%s %s" % (v.dtype.str, v.shape, _h(np.asarray(v).tobytes() if not v.dtype.hasobject else repr(v).encode()))
        if hasattr(type(v), "_inheritattr_"):
            d = "%s %s M=%r fb=%r fs=%r" % (type(v).__name__, d, v.M, v.fb, v.fs)
            if depth < 1:
                for n in ("coded_symbols", "bits"):
                    try:
                        d += " %s=%s" % (n, describe(getattr(v, n), depth + 1))
                    except AttributeError:
                        pass
        return d
    if isinstance(v, (list, tuple)):
        return "[%s]" % ", ".join(describe(x, depth) for x in v)
    if isinstance(v, np.generic):
        return "%s %s" % (v.dtype.str, _h(v.tobytes()))
    return repr(v)


def meta(s, derived=True):
    """the metadata of a signal, property by property"""
    out = {"type": type(s).__name__}
    for n in _props(type(s)) + ["bits", "coded_symbols"]:
        if not derived and n in DERIVED:
            continue
        try:
            out[n] = describe(getattr(s, n))
        except AttributeError:
            out[n] = "missing"
    for n in INNER:
        if getattr(s, "__dict__", {}).get(n) is not None:
            out[n] = describe(s.__dict__[n])
    return out


def samples(s):
    return describe(np.asarray(s))


def look(s):
    """metadata and samples"""
    if hasattr(type(s), "_inheritattr_"):
        m = meta(s)
        m["samples"] = samples(s)
        return m
    return parts(s)
