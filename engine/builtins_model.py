"""What library functions do, for those whose bodies are not analysed."""
import re
from terms import *
from flow import *

MODELS = {}
_norm = {}


def norm(d):
    r = _norm.get(d)
    if r is not None:
        return r
    s = d
    out = ""
    i = 0
    while i < len(s):
        if s.startswith("<impl ", i) or (s[i] == "<" and out.endswith("::")):
            depth = 0
            j = i
            while True:
                if s[j] == "<":
                    depth += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            inner = s[i + 1:j]
            if inner.startswith("impl "):
                x = inner[5:]
                if " for " in x:
                    x = x.split(" for ")[0]
                x = x.split("<")[0]
                x = "slice" if x.startswith("[") else x.split("::")[-1]
                out += x
            else:
                out = out[:-2]
            i = j + 1
        else:
            out += s[i]
            i += 1
    r = "::".join(out.split("::")[-2:])
    _norm[d] = r
    return r


def m(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def model_for(k):
    n = norm(k.defn)
    k.n = n
    f = MODELS.get(n)
    if f is None:
        last = n.split("::")[-1]
        if n.split("::")[0] in ("Option", "Result") and last == "expect":
            return None
        if k.fn is not None and k.fn.has:
            return None
        f = MODELS.get("*::" + last)
    return f


# ---------------------------------------------------------------- helpers
STRS = ("str", "std::string::String", "std::path::Path", "std::path::PathBuf", "std::ffi::OsStr",
        "std::ffi::OsString", "std::borrow::Cow<str>", "std::boxed::Box<str>",
        "std::boxed::Box<str, std::alloc::Global>")


def unref(t):
    for p in ("&mut ", "&", "*const ", "*mut "):
        if t.startswith(p):
            return t[len(p):]
    return None


def is_str_ty(t):
    return t in STRS


def is_iter_ty(t):
    return bool(re.match(r"std::(iter|slice::Iter|ops::Range|vec::IntoIter|collections::.*::(Iter|Values|Keys|IntoIter)|env::Args|str::Chars|str::Split|option::I)", t))


def deref(k, v, ty):
    """the value behind all references of type ty (text is its own content)"""
    while True:
        u = unref(ty)
        if u is None:
            return v
        if u in ("str", "std::path::Path", "std::ffi::OsStr"):
            return text(k, v)
        v = k.an.load(k.st, v)
        ty = u


def text(k, v):
    """the content of a &str-like value"""
    def f(x):
        if x.op in ("ptr", "slice", "guard"):
            return k.an.load(k.st, x)
        return x
    return apply(f, v)


def deref1(k, v, ty):
    u = unref(ty)
    if u is None:
        return v
    if u in ("str", "std::path::Path", "std::ffi::OsStr"):
        return text(k, v)
    return k.an.load(k.st, v)


def boolsubj(s):
    DOM[s] = (0, 1)
    return mk("md", s, ((0, I0), (1, I1)), BOT)


def opaque_bool(op, *a):
    return boolsubj(mk(op, *a))


def leafcases(v):
    """(condition, leaf) of a diagram"""
    if v.op != "md":
        return [(I1, v)]
    return [(apply(lambda y, x=x: I1 if y is x else I0, v), x) for x in leaves(v) if x is not BOT]


def per_leaf(k, v, f):
    """f(state, leaf) -> value|(value, state)|None, for each leaf of v, merged"""
    cs = leafcases(v)
    if len(cs) == 1:
        r = f(k.st, cs[0][1])
        if r is None or isinstance(r, tuple):
            return r
        return r, k.st
    outs = []
    slot = (k.site, "pl")
    start = k.st
    for c, x in cs:
        s = k.st = start.copy()
        s.pc = band(start.pc, c)
        if s.pc is I0:
            continue
        r = f(s, x)
        if r is None:
            continue
        if isinstance(r, tuple):
            r, s = r
        s.env[slot] = r
        outs.append(s)
    ms = k.an.merge(outs)
    if ms is None:
        return None
    return ms.env.pop(slot), ms


def pure(name):
    def f(k):
        vals = [k.an.value(k.st, deref(k, a, t)) for a, t in zip(k.args, k.tys)]
        if k.ret == "bool":
            return opaque_bool("p:" + name, *vals)
        v = mk("p:" + name, *vals)
        if k.ret in BITS:
            RANGE[v] = k.ret
        return v
    return f


def ptr_parts(x):
    if x.op == "guard":
        x = x.a[2]
    if x.op == "slice":
        return x.a[0], x.a[1], x.a[2], x.a[3]
    if x.op == "ptr":
        return x.a[0], x.a[1], I0, None
    return x, (), I0, None


def cptr(x):
    r, p, _, _ = ptr_parts(x)
    return mk("ptr", r, p)


def elem_ptr(an, st, root, path, j):
    if root.op in ("L", "const"):
        v = an.load(st, mk("ptr", root, path))
        if v.op == "arr":
            return mk("ptr", root, path + (("i", j),))
    return mk("ptr", mk("elem", root, path, j), ())


# ---------------------------------------------------------------- identity and text
@m("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow")
def _deref(k):
    if k.fn is not None and k.fn.has:
        return NotImplemented
    t = k.gen[0] if k.gen else (unref(k.tys[0]) or "")
    return do_deref(k, k.args[0], t)


def do_deref(k, a, t):
    while unref(t) is not None:
        a = k.an.load(k.st, a)
        t = unref(t)
    if is_str_ty(t):
        return text(k, a) if t in ("str", "std::path::Path", "std::ffi::OsStr") else k.an.load(k.st, a)
    if t.startswith("std::vec::Vec<") or t.startswith("[") or t.startswith("std::array"):
        return as_slice(k, a)
    if t.startswith("std::sync::Arc<") or t.startswith("std::rc::Rc<") or "Guard<" in t or t.startswith("std::boxed::Box<"):
        v = k.an.load(k.st, a)
        r = k.an.as_ptr(v)
        u = unref(k.ret)
        for x in leaves(r):
            if x.op == "ptr" and x.a[1] == () and u and x.a[0].op not in ("L", "const"):
                k.an.rty(x.a[0], u)
        return r
    return k.an.load(k.st, a) if False else NotImplemented


def as_slice(k, a):
    def f(x):
        if x.op in ("slice", "bot"):
            return x
        r, p, fr, to = ptr_parts(x)
        return mk("slice", r, p, fr, to)
    return apply(f, a)


@m("Vec::as_slice", "Vec::as_mut_slice", "slice::as_slice")
def _as_slice(k):
    return as_slice(k, k.args[0])


@m("str::as_bytes", "String::as_bytes")
def _as_bytes(k):
    v = deref(k, k.args[0], k.tys[0])
    return apply(lambda x: mk("slice", mk("const", x), (), I0, None), v)


@m("String::as_str", "PathBuf::as_path", "OsStr::to_str", "Path::to_str", "Path::as_os_str",
   "String::into_bytes", "Path::display", "PathAsDisplay::as_display", "OsString::as_os_str",
   "Path::to_path_buf", "Path::new", "ToOwned::to_owned", "SpecToString::spec_to_string",
   "hint::must_use", "str::to_owned", "Path::to_owned", "String::into_boxed_str", "Path::to_string_lossy",
   "DisplayAsDisplay::as_display", "str::to_string", "ToString::to_string", "String::from_utf8_lossy",
   "OsString::into_string", "Path::to_owned", "OsStr::to_os_string", "Cow::into_owned")
def _ident(k):
    t = k.tys[0]
    if k.n in ("ToString::to_string", "ToOwned::to_owned") and k.fn is not None and k.fn.has:
        return NotImplemented
    v = deref(k, k.args[0], t)
    if k.n == "ToOwned::to_owned" and t.startswith("&["):
        v = k.an.load(k.st, k.args[0])
    if k.ret.startswith("std::option::Option<"):
        return some(v)
    return v


@m("Clone::clone", "Clone::clone_from", "*::clone")
def _clone(k):
    if k.fn is not None and k.fn.has:
        return NotImplemented
    return k.an.load(k.st, k.args[0])


@m("slice::to_vec", "slice::into_vec")
def _to_vec(k):
    return k.an.load(k.st, k.args[0])


@m("From::from", "Into::into", "TryFrom::try_from", "FromStr::from_str", "TryInto::try_into")
def _from(k):
    if k.fn is not None and k.fn.has:
        return NotImplemented
    if len(k.args) == 1:
        t = k.tys[0]
        u = t
        while unref(u) is not None:
            u = unref(u)
        r = k.ret
        if is_str_ty(u) and is_str_ty(r):
            return deref(k, k.args[0], t)
        if r.startswith("std::vec::Vec<") and (u.startswith("[") or u.startswith("std::vec::Vec")):
            return deref(k, k.args[0], t)
        if t == r:
            return k.args[0]
        if t in BITS and r in BITS:
            return cast_int(k.args[0], t, r)
        if r.startswith("std::sync::Arc<"):
            return _arc(k)
    return pure(k.n)(k)


@m("str::parse")
def _parse(k):
    """FromStr::from_str of the type that is asked for"""
    return pure("FromStr::from_str")(k)


@m("Default::default")
def _default(k):
    if k.fn is not None and k.fn.has:
        return NotImplemented
    return default_of(k.ret)


def default_of(t):
    if t in BITS:
        return I0
    if is_str_ty(t):
        return S("")
    if t.startswith("std::vec::Vec<"):
        return mk("arr")
    if "Map<" in t or "Set<" in t:
        return mk("mnew")
    if t.startswith("std::option::Option<"):
        return NONE
    if t.startswith("std::collections::VecDeque<"):
        return mk("arr")
    return mk("default", t)


@m("Arc::new", "Rc::new", "Box::new")
def _arc(k):
    r = mk("new", k.site)
    t = k.tys[0]
    k.an.rty(r, t)
    k.an.store(k.st, mk("ptr", r, ()), k.args[0], quiet=True)
    k.an.event("new", k.st, r, k.args[0])
    return mk("ptr", r, ())


@m("RwLock::new", "Mutex::new", "RefCell::new", "Cell::new", "RwLock::into_inner", "Mutex::into_inner")
def _transparent(k):
    return k.args[0]


@m("Arc::ptr_eq")
def _ptr_eq(k):
    return eq(k, k.an.load(k.st, k.args[0]), k.an.load(k.st, k.args[1]))


@m("Arc::as_ptr")
def _arc_as_ptr(k):
    return k.an.load(k.st, k.args[0])


@m("Box::new_uninit")
def _uninit(k):
    r = mk("new", k.site)
    return mk("ptr", r, ())


@m("boxed::box_assume_init_into_vec_unsafe")
def _into_vec(k):
    v = k.an.load(k.st, k.args[0])

    def f(x):
        # MaybeUninit<[T; n]> -> the array
        while x.op == "agg" and len(x.a[3]) == 1:
            x = x.a[3][0]
        if x.op == "upd":
            y = x.a[2]
            while y.op == "agg" and len(y.a[3]) == 1:
                y = y.a[3][0]
            return y
        return x
    return apply(f, v)


# ---------------------------------------------------------------- locks
def lock(mode):
    def f(k):
        an = k.an

        def g(st, x):
            an.uid += 1
            p = cptr(x)
            gd = mk("guard", (k.site, an.uid), mode, p)
            an.event("lock", st, mode, p)
            st.held = st.held | {gd}
            return gd, st
        return per_leaf(k, an.as_ptr(k.args[0]), g)
    return f


MODELS["RwLock::read"] = lock("r")
MODELS["RwLock::write"] = lock("w")
MODELS["Mutex::lock"] = lock("w")
MODELS["RefCell::borrow"] = lock("r")
MODELS["RefCell::borrow_mut"] = lock("w")


@m("RwLock::get_mut", "Arc::get_mut_unchecked")
def _get_mut(k):
    return k.an.as_ptr(k.args[0])


@m("RwLockReadGuard::map", "RwLockWriteGuard::map", "MappedRwLockReadGuard::map", "MappedRwLockWriteGuard::map")
def _gmap(k):
    def g(st, x):
        if x.op != "guard":
            raise Give("guard")
        sub_ = Call()
        r = k.an.call_value(k.args[1], [x.a[2]], ["&T"], "", st, k.site)
        if r is None:
            return None
        v, st = r
        return apply(lambda y: mk("guard", x.a[0], x.a[1], y) if y is not BOT else BOT, v), st
    return per_leaf(k, k.args[0], g)


@m("RwLockReadGuard::try_map", "RwLockWriteGuard::try_map")
def _gtry(k):
    raise Give("try_map")


@m("RwLockWriteGuard::downgrade")
def _downgrade(k):
    def g(st, x):
        n = mk("guard", x.a[0], "r", x.a[2])
        st.held = frozenset(mk("guard", h.a[0], "r", h.a[2]) if h.a[0] == x.a[0] else h for h in st.held)
        k.an.event("downgrade", st, x.a[2])
        return n, st
    return per_leaf(k, k.args[0], g)


@m("mem::drop")
def _mem_drop(k):
    if k.st.held:
        k.an.release(k.st, k.args[0])
    return UNIT


@m("mem::forget")
def _forget(k):
    return UNIT


@m("mem::take")
def _take(k):
    v = k.an.load(k.st, k.args[0])
    d = default_of(unref(k.tys[0]))
    if d.op == "default":
        return NotImplemented
    k.an.store(k.st, k.an.as_ptr(k.args[0]), d)
    return v


# ---------------------------------------------------------------- logging, formatting
@m("log::max_level", "__private_api::max_level", "log::__private_api_log", "env_logger::init",
   "__private_api::log", "io::_print", "io::_eprint", "stdio::_print", "stdio::_eprint")
def _nolog(k):
    if k.ret == "()":
        return UNIT
    return mk("loglevel")


@m("PartialOrd::le", "PartialOrd::lt", "PartialOrd::ge", "PartialOrd::gt")
def _ord(k):
    if k.gen and k.gen[0].startswith("log::"):
        return I0
    if k.fn is not None and k.fn.has:
        return NotImplemented
    op = {"le": "Le", "lt": "Lt", "ge": "Ge", "gt": "Gt"}[k.n.split("::")[-1]]
    return compare(op, deref(k, k.args[0], k.tys[0]), deref(k, k.args[1], k.tys[1]), unreft(k.tys[0]))


def unreft(t):
    while unref(t) is not None:
        t = unref(t)
    return t


def _arg(kind):
    def f(k):
        return mk("fmtarg", kind, k.an.value(k.st, deref(k, k.args[0], k.tys[0])))
    return f


for _x in ("display", "debug", "lower_hex", "upper_hex", "pointer", "binary", "octal", "lower_exp"):
    MODELS["Argument::new_" + _x] = _arg(_x)


@m("Arguments::new", "Arguments::new_const", "Arguments::new_v1", "Arguments::from_str", "Arguments::new_v1_formatted")
def _arguments(k):
    vals = [k.an.value(k.st, deref(k, a, t)) for a, t in zip(k.args, k.tys)]
    return mk("fmt", *vals)


@m("fmt::format", "fmt::format_inner")
def _format(k):
    def f(x):
        if x.op == "fmt" and len(x.a) == 1:
            return x.a[0]
        return x
    return apply(f, k.args[0])


@m("Formatter::write_fmt", "Formatter::write_str", "Formatter::debug_struct", "Formatter::pad", "Display::fmt",
   "Debug::fmt", "LowerHex::fmt")
def _fmt_io(k):
    return mk("p:" + k.n)


# ---------------------------------------------------------------- equality
def eq(k, a, b):
    """condition that two values are equal"""
    a = k.an.value(k.st, a)
    b = k.an.value(k.st, b)
    return eqv(a, b)


def eqv(a, b):
    def f(x, y):
        if x is y:
            return I1
        if x.op in ("int", "str") and y.op in ("int", "str"):
            return I1 if x.a[0] == y.a[0] else I0
        if x.op in ("int", "str"):
            return cond_eq(y, x.a[0])
        if y.op in ("int", "str"):
            return cond_eq(x, y.a[0])
        if x.op == "agg" and y.op == "agg":
            if x.a[1] != y.a[1]:
                return I0
            if len(x.a[3]) == len(y.a[3]):
                r = I1
                for p, q in zip(x.a[3], y.a[3]):
                    r = band(r, eqv(p, q))
                return r
        if x.op == "lin" or y.op == "lin" or x in RANGE or y in RANGE:
            return compare("Eq", x, y, RANGE.get(x) or RANGE.get(y) or "u64")
        if x.op == "arr" and y.op == "arr":
            if len(x.a) != len(y.a):
                return I0
            r = I1
            for p, q in zip(x.a, y.a):
                r = band(r, eqv(p, q))
            return r
        if x.id > y.id:
            x, y = y, x
        return opaque_bool("eq", x, y)
    return apply(f, a, b)


@m("PartialEq::eq", "PartialEq::ne", "*::eq_ignore")
def _eq(k):
    if k.fn is not None and k.fn.has:
        return NotImplemented
    e = eq(k, deref(k, k.args[0], k.tys[0]), deref(k, k.args[1], k.tys[1]))
    return bnot(e) if k.n.endswith("ne") else e


@m("slice::contains")
def _contains(k):
    c = k.an.load(k.st, k.args[0])
    x = k.an.value(k.st, deref(k, k.args[1], k.tys[1]))
    c = k.an.value(k.st, c)

    def f(v, x):
        if v.op == "arr":
            r = I0
            for e in v.a:
                r = bor(r, eqv(e, x))
            return r
        return opaque_bool("contains", v, x)
    return apply(f, c, x)


# ---------------------------------------------------------------- text
@m("str::starts_with", "Path::starts_with", "slice::starts_with")
def _starts(k):
    s, p = [k.an.value(k.st, deref(k, a, t)) for a, t in zip(k.args, k.tys)]
    return starts(s, p)


def starts(s, p):
    def f(x, y):
        if y.op == "int":
            y = S(chr(y.a[0]))
        if x.op == "str" and y.op == "str":
            return I1 if x.a[0].startswith(y.a[0]) else I0
        if y.op == "str" and y.a[0] == "":
            return I1
        return opaque_bool("starts", x, y)
    return apply(f, s, p)


@m("str::ends_with", "slice::ends_with", "Path::ends_with")
def _ends(k):
    s, p = [k.an.value(k.st, deref(k, a, t)) for a, t in zip(k.args, k.tys)]

    def f(x, y):
        if y.op == "int":
            y = S(chr(y.a[0]))
        if x.op == "str" and y.op == "str":
            return I1 if x.a[0].endswith(y.a[0]) else I0
        return opaque_bool("ends", x, y)
    return apply(f, s, p)


@m("str::strip_prefix")
def _strip_prefix(k):
    s, p = [k.an.value(k.st, deref(k, a, t)) for a, t in zip(k.args, k.tys)]
    return apply(lambda c, x, y: (some(after(x, y)) if c is I1 else NONE), starts(s, p), s, p)


def after(x, y):
    if y.op == "int":
        y = S(chr(y.a[0]))
    if x.op == "str" and y.op == "str":
        return S(x.a[0][len(y.a[0]):]) if x.a[0].startswith(y.a[0]) else BOT
    return mk("after", x, y)


@m("str::len", "String::len")
def _strlen(k):
    return vlen(deref(k, k.args[0], k.tys[0]))


@m("str::is_empty", "String::is_empty")
def _strempty(k):
    return compare("Eq", vlen(deref(k, k.args[0], k.tys[0])), I0, "usize")


@m("Path::join", "PathBuf::join")
def _join(k):
    return mk("p:join", *[deref(k, a, t) for a, t in zip(k.args, k.tys)])


@m("PathBuf::push")
def _ppush(k):
    p = k.an.as_ptr(k.args[0])
    v = mk("p:join", k.an.load(k.st, p), deref(k, k.args[1], k.tys[1]))
    k.an.store(k.st, p, v)
    return UNIT


@m("String::push_str", "String::push")
def _push_str(k):
    p = k.an.as_ptr(k.args[0])
    x = deref(k, k.args[1], k.tys[1])

    def f(a, b):
        if b.op == "int":
            b = S(chr(b.a[0]))
        if a.op == "str" and b.op == "str":
            return S(a.a[0] + b.a[0])
        return mk("p:concat", a, b)
    k.an.store(k.st, p, apply(f, k.an.load(k.st, p), x))
    return UNIT


@m("Add::add")
def _sadd(k):
    if k.fn is not None and k.fn.has:
        return NotImplemented
    if k.tys and is_str_ty(k.tys[0]):
        return apply(lambda a, b: S(a.a[0] + b.a[0]) if a.op == b.op == "str" else mk("p:concat", a, b),
                     k.args[0], deref(k, k.args[1], k.tys[1]))
    return pure(k.n)(k)


@m("AddAssign::add_assign", "SubAssign::sub_assign", "BitOrAssign::bitor_assign")
def _addassign(k):
    if k.fn is not None and k.fn.has:
        return NotImplemented
    p = k.an.as_ptr(k.args[0])
    x = deref(k, k.args[1], k.tys[1])
    t = unref(k.tys[0])
    old = k.an.load(k.st, p)
    if is_str_ty(t):
        k.an.store(k.st, p, mk("p:concat", old, x))
    elif "add" in k.n:
        k.an.store(k.st, p, add(old, x))
    elif "sub" in k.n:
        k.an.store(k.st, p, sub(old, x))
    else:
        k.an.store(k.st, p, binop("BitOr", old, x, t))
    return UNIT


for _x in ("Path::file_name", "Path::exists", "Path::is_file", "Path::is_dir", "Path::canonicalize", "Path::parent", "Path::extension",
           "Path::file_stem",
           "str::trim", "str::trim_end", "str::trim_start", "str::trim_end_matches", "str::trim_start_matches",
           "str::trim_matches", "str::contains", "str::find", "str::rfind", "str::split_once", "str::rsplit_once",
           "char::to_digit", "str::to_lowercase", "str::to_uppercase", "str::strip_suffix",
           "str::replace", "slice::join", "str::eq_ignore_ascii_case", "str::is_char_boundary",
           "str::split_at", "slice::split_at", "Chars::as_str", "slice::binary_search_by_key", "slice::binary_search"):
    MODELS[_x] = pure(_x)


@m("slice::concat")
def _concat(k):
    v = k.an.value(k.st, k.args[0])
    v = v.a[0] if v.op == "const" else v
    if v.op == "arr" and all(x.op == "arr" for x in v.a):
        return mk("arr", *[y for x in v.a for y in x.a])
    return pure("slice::concat")(k)


@m("str::get")
def _strget(k):
    return mk("p:str::get", deref(k, k.args[0], k.tys[0]), k.args[1])


# ---------------------------------------------------------------- function objects
@m("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def _callf(k):
    f = k.args[0]
    tup_ = k.args[1]
    if tup_.op == "agg" and tup_.a[0] == "()":
        args = list(tup_.a[3])
    elif tup_ is UNIT:
        args = []
    else:
        args = [proj1(tup_, str(i)) for i in range(len(split_list(k.tys[1][1:-1])))]
    t = k.tys[0]
    while unref(t) is not None and f.op in ("ptr",) and f.a[0].op != "x":
        f = k.an.load(k.st, f)
        t = unref(t)
    tys = split_list(k.tys[1][1:-1]) if k.tys[1].startswith("(") else []
    return k.an.call_value(f, args, tys, k.ret, k.st, k.site)


# ---------------------------------------------------------------- bytes out
WID = {"8": 1, "16": 2, "32": 4, "64": 8, "24": 3, "128": 16}


def sink(an, st, dst, t):
    """where what is written through dst, of type t, ends up, and its type"""
    t = unref(t) or ""
    while True:
        m_ = re.match(r"std::io::(BufWriter|LineWriter)<(&.*)>$", t)
        if m_:
            t = m_.group(2)
        elif unref(t) is None or unref(t).startswith("["):
            return dst, t
        dst = an.load(st, dst)
        t = unref(t)


def emit(k, st, dst, width, end, v):
    """dst: where the writer lives"""
    an = k.an
    dst, t = sink(an, st, dst, k.tys[0])
    if t.startswith("&mut [") or t.startswith("["):
        # writing into a slice overwrites it and moves on
        sl = an.load(st, dst) if t.startswith("&") else dst
        for c, x in leafcases(sl):
            s = st
            root, path, frm, to = ptr_parts(x)
            patch(k, st, c, root, path, frm, width, end, v)
        if t.startswith("&"):
            an.store(st, an.as_ptr(dst), apply(lambda x: subslice(x, width if isinstance(width, T) else I(width), None), sl), quiet=True)
        return False
    for c, x in leafcases(an.as_ptr(dst)):
        root, path, _, _ = ptr_parts(x)
        pc = st.pc
        st.pc = band(pc, c)
        an.event("emit", st, root, path, width if isinstance(width, T) else I(width), end, v)
        st.pc = pc
        if t.startswith("std::vec::Vec<") or True:
            old = an.load(st, mk("ptr", root, path))
            new = mk("vemit", old, width if isinstance(width, T) else I(width), end, v)
            an.store(st, mk("ptr", root, path), new if c is I1 else select(c, new, bnot(c), old), quiet=True)
    return not t.startswith("std::vec::Vec<")


def patch(k, st, c, root, path, frm, width, end, v):
    an = k.an
    pc = st.pc
    st.pc = band(pc, c)
    an.event("patch", st, root, path, frm, width if isinstance(width, T) else I(width), end, v)
    st.pc = pc
    p = mk("ptr", root, path)
    old = an.load(st, p)
    new = mk("patched", old, frm, width if isinstance(width, T) else I(width), end, v)
    an.store(st, p, new if c is I1 else select(c, new, bnot(c), old), quiet=True)


def ioresult(k, st, fallible, since=None):
    """since: the number of events before what may fail"""
    if not fallible:
        return ok(UNIT)
    s = mk("io", k.site)
    d = mk("discr", s)
    for ev in k.an.events[since:] if since is not None else ():
        ev.io = d
    DOM[d] = (0, 1)
    VARIANTS[d] = {0: "Ok", 1: "Err"}
    return mk("md", d, ((0, ok(UNIT)), (1, err(mk("ioerr", k.site)))), BOT)


def _write_model(bits, signed):
    def f(k):
        end = "le"
        g = [x for x in k.gen if "Endian" in x]
        if g:
            end = "le" if "Little" in g[0] else "be"
        elif bits == "8":
            end = "le"
        n = len(k.an.events)
        fl = emit(k, k.st, k.args[0], WID[bits], end, k.args[1])
        return ioresult(k, k.st, fl, n)
    return f


for _b in WID:
    for _s in ("u", "i"):
        MODELS["WriteBytesExt::write_%s%s" % (_s, _b)] = _write_model(_b, _s == "i")


@m("Write::write_all", "Write::write")
def _write_all(k):
    v = bytes_of(k, k.args[1])
    fl = None
    n = len(k.an.events)
    if v.op == "bytes":
        fl = emit(k, k.st, k.args[0], v.a[0], v.a[1], v.a[2])
    else:
        fl = emit(k, k.st, k.args[0], vlen(v), "raw", v)
    if k.n == "Write::write" and fl:
        k.an.event("shortwrite", k.st, "io")
    r = ioresult(k, k.st, fl, n)
    if k.n == "Write::write":
        return apply(lambda x: ok(vlen(v)) if x.op == "agg" and x.a[1] == "Ok" else x, r)
    return r


@m("Write::flush", "BufWriter::new", "BufWriter::with_capacity")
def _flush(k):
    n = len(k.an.events)
    if k.n == "Write::flush":
        k.an.event("flush", k.st, sink(k.an, k.st, k.args[0], k.tys[0])[0])
        return ioresult(k, k.st, True, n)
    k.an.event("buffered", k.st, k.args[-1])
    return k.args[-1]


def bytes_of(k, a):
    v = text(k, a)
    return k.an.value(k.st, v)


def _bytes_model(k):
    m_ = re.search(r"(u|i)(8|16|32|64)", k.name) or re.search(r"(u|i)(8|16|32|64)", k.tys[0])
    return mk("bytes", WID[m_.group(2)], "le" if "le_bytes" in k.n else "be" if "be_bytes" in k.n else "le", k.args[0])


for _t in ("u16", "u32", "u64", "i16", "i32", "i64", "usize", "u8", "num", "i8", "isize"):
    for _e in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        MODELS["%s::%s" % (_t, _e)] = _bytes_model


def _byteorder(bits):
    def f(k):
        end = "le" if "Little" in (k.gen[0] if k.gen else k.name) else "be"
        for c, x in leafcases(k.an.as_ptr(k.args[0])):
            root, path, frm, to = ptr_parts(x)
            patch(k, k.st, c, root, path, frm, WID[bits], end, k.args[1])
        return UNIT
    return f


for _b in WID:
    for _s in ("u", "i"):
        MODELS["ByteOrder::write_%s%s" % (_s, _b)] = _byteorder(_b)


@m("slice::copy_from_slice", "slice::clone_from_slice")
def _cfs(k):
    v = bytes_of(k, k.args[1])
    for c, x in leafcases(k.an.as_ptr(k.args[0])):
        root, path, frm, to = ptr_parts(x)
        if v.op == "bytes":
            patch(k, k.st, c, root, path, frm, v.a[0], v.a[1], v.a[2])
        else:
            patch(k, k.st, c, root, path, frm, vlen(v), "raw", v)
    return UNIT


@m("slice::fill")
def _fill(k):
    for c, x in leafcases(k.an.as_ptr(k.args[0])):
        root, path, frm, to = ptr_parts(x)
        n = k.an.length(k.st, x)
        patch(k, k.st, c, root, path, frm, n, "raw", mk("vrep", k.args[1], n))
    return UNIT


# ---------------------------------------------------------------- vectors
@m("Vec::new", "String::new", "PathBuf::new", "Vec::with_capacity", "String::with_capacity", "VecDeque::new")
def _vnew(k):
    return S("") if k.n.startswith("String") or k.n.startswith("PathBuf") else mk("arr")


@m("vec::from_elem")
def _from_elem(k):
    return apply(lambda n: mk("arr", *([k.args[0]] * n.a[0])) if n.op == "int" and n.a[0] <= 16 else mk("vrep", k.args[0], n), k.args[1])


def vec_update(k, st, p, f, kind, *d):
    """value <- f(value) for the vector(s) p points to"""
    an = k.an
    for c, x in leafcases(an.as_ptr(p)):
        q = cptr(x)
        old = an.load(st, q)
        new = apply(lambda o: f(o), old)
        if c is not I1:
            new = select(c, new, bnot(c), old)
        pc = st.pc
        st.pc = band(pc, c)
        an.event(kind, st, q.a[0], q.a[1], old, *d)
        st.pc = pc
        an.store(st, q, new, quiet=True)


def vec_push(k, st, p, x):
    an = k.an
    for c, q in leafcases(an.as_ptr(p)):
        q = cptr(q)
        old = an.load(st, q)
        new = apply(lambda o: vpush(o, x), old)
        pc = st.pc
        st.pc = band(pc, c)
        an.event("push", st, q.a[0], q.a[1], x, old)
        st.pc = pc
        root, path = q.a
        if c is not I1:
            new = select(c, new, bnot(c), old)
        an.store(st, q, new, quiet=True)
        if root.op != "L":
            e = mk("ptr", mk("elem", root, path, vlen(old)), ())
            if c is I1:
                an.store(st, e, x, quiet=True)
            else:
                an.store(st, e, select(c, x, bnot(c), an.load(st, e)), quiet=True)


def vpush(o, x):
    if o.op == "arr" and len(o.a) < 64:
        return mk("arr", *(o.a + (x,)))
    return mk("vpush", o, x)


@m("Vec::push", "VecDeque::push_back")
def _push(k):
    vec_push(k, k.st, k.args[0], k.args[1])
    return UNIT


@m("Vec::pop")
def _pop(k):
    an = k.an

    def f(st, x):
        q = cptr(x)
        old = an.load(st, q)
        n = vlen(old)
        c = compare("Gt", n, I0, "usize")
        if old.op == "arr":
            if old.a:
                an.store(st, q, mk("arr", *old.a[:-1]), quiet=True)
                return some(old.a[-1]), st
            return NONE, st
        if old.op == "vpush":
            an.store(st, q, old.a[0], quiet=True)
            return some(old.a[1]), st
        e = mk("popped", k.site, old)
        an.event("pop", st, q.a[0], q.a[1], old)
        an.store(st, q, apply(lambda c_: mk("vpop", old) if c_ is I1 else old, c), quiet=True)
        return apply(lambda c_: some(e) if c_ is I1 else NONE, c), st
    return per_leaf(k, an.as_ptr(k.args[0]), f)


@m("Vec::len", "slice::len", "VecDeque::len")
def _len(k):
    return k.an.length(k.st, k.an.as_ptr(k.args[0]))


@m("Vec::is_empty", "slice::is_empty")
def _isempty(k):
    return compare("Eq", k.an.length(k.st, k.an.as_ptr(k.args[0])), I0, "usize")


@m("Vec::capacity", "Vec::reserve", "Vec::shrink_to_fit", "String::reserve")
def _cap(k):
    return UNIT if k.ret == "()" else mk("cap", k.site)


@m("Vec::resize")
def _resize(k):
    n, x = k.args[1], k.args[2]
    vec_update(k, k.st, k.args[0], lambda o: vresize(o, n, x), "resize", n, x)
    return UNIT


def vresize(o, n, x):
    if o.op == "arr" and not o.a:
        return apply(lambda m_: mk("vrep", x, m_), n)
    return apply(lambda m_: mk("vresize", o, m_, x), n)


@m("Vec::insert")
def _vinsert(k):
    i, x = k.args[1], k.args[2]

    def f(o):
        if o.op == "arr" and i.op == "int" and i.a[0] <= len(o.a):
            l = list(o.a)
            l.insert(i.a[0], x)
            return mk("arr", *l)
        return apply(lambda j: mk("vinsert", o, j, x), i)
    vec_update(k, k.st, k.args[0], f, "insert", i, x)
    shift(k, k.args[0])
    return UNIT


def shift(k, p):
    """elements of a vector on the heap are no longer where they were"""
    for c, q in leafcases(k.an.as_ptr(p)):
        q = cptr(q)
        if q.a[0].op != "L":
            k.an.store(k.st, mk("ptr", mk("elem", q.a[0], q.a[1], mk("any", k.site)), ()), mk("moved", k.site), quiet=True)


@m("Vec::remove", "Vec::swap_remove")
def _vremove(k):
    i = k.args[1]
    an = k.an
    e = None

    def f(st, x):
        q = cptr(x)
        old = an.load(st, q)
        v = an.load(st, elem_ptr(an, st, q.a[0], q.a[1], i))
        an.event("vremove", st, q.a[0], q.a[1], old, i)
        an.store(st, q, mk("vswapremove" if k.n.endswith("swap_remove") else "vremove", old, i), quiet=True)
        return v, st
    r = per_leaf(k, an.as_ptr(k.args[0]), f)
    shift(k, k.args[0])
    return r


@m("Vec::clear", "HashMap::clear", "BTreeMap::clear", "HashSet::clear", "String::clear")
def _clear(k):
    z = mk("arr") if k.n.startswith("Vec") else S("") if k.n.startswith("String") else mk("mnew")
    vec_update(k, k.st, k.args[0], lambda o: z, "clear")
    return UNIT


@m("Vec::truncate")
def _trunc(k):
    n = k.args[1]
    vec_update(k, k.st, k.args[0], lambda o: mk("vtrunc", o, n), "truncate", n)
    return UNIT


@m("Vec::append")
def _append(k):
    q = k.an.load(k.st, k.args[1])
    vec_update(k, k.st, k.args[0], lambda o: vcat(o, q), "extend", q)
    k.an.store(k.st, k.an.as_ptr(k.args[1]), mk("arr"), quiet=True)
    return UNIT


@m("Vec::extend_from_slice")
def _efs(k):
    v = bytes_of(k, k.args[1])
    if v.op == "bytes":
        emit(k, k.st, k.args[0], v.a[0], v.a[1], v.a[2])
    elif v.op == "arr" and len(v.a) <= 64 and not k.tys[1].startswith("&[u8"):
        for x in v.a:
            vec_push(k, k.st, k.args[0], x)
    elif k.tys[1].startswith("&[u8"):
        emit(k, k.st, k.args[0], vlen(v), "raw", v)
    else:
        vec_update(k, k.st, k.args[0], lambda o: vcat(o, v), "extend", v)
    return UNIT


def vcat(o, v):
    if v.op == "arr":
        for x in v.a:
            o = vpush(o, x)
        return o
    if o.op == "arr" and not o.a:
        return v
    return mk("vcat", o, v)


@m("Index::index", "IndexMut::index_mut")
def _index(k):
    if k.fn is not None and k.fn.has:
        return NotImplemented
    t, it = (k.gen + ["", ""])[:2]
    t = unreft(t)
    an = k.an
    if "Map<" in t:
        key = an.value(k.st, deref(k, k.args[1], k.tys[1]))

        def g(st, x):
            root, path, _, _ = ptr_parts(x)
            c = has(an.load(st, mk("ptr", root, path)), key)
            an.event("assert", st, "key", c, True)
            return mk("ptr", mk("elem", root, path, key), ()), st
        return per_leaf(k, an.as_ptr(k.args[0]), g)
    i = k.args[1]
    if it == "usize":
        p = an.as_ptr(k.args[0])
        n = an.length(k.st, p)
        an.event("assert", k.st, "bounds", compare("Lt", i, n, "usize"), True, n, i)
        return an.index(k.st, p, i)
    # ranges
    name = it.split("<")[0].split("::")[-1]
    if is_str_ty(t):
        return mk("p:substr", text(k, k.args[0]), i)
    return slice_range(k, an.as_ptr(k.args[0]), name, i)


def slice_range(k, p, name, i):
    an = k.an
    if name == "RangeFull":
        return as_slice(k, p)
    frm, to = I0, None
    if name in ("Range", "RangeFrom", "RangeInclusive"):
        frm = proj1(i, "start")
    if name in ("Range", "RangeTo"):
        to = proj1(i, "end")
    if name in ("RangeInclusive", "RangeToInclusive"):
        to = add(proj1(i, "end"), I1)
    n = an.length(k.st, p)
    if to is not None:
        c = band(compare("Le", frm, to, "usize"), compare("Le", to, n, "usize"))
    else:
        c = compare("Le", frm, n, "usize")
    an.event("assert", k.st, "range", c, True, n, frm, to if to is not None else n)

    def f(x, a, *b):
        return subslice(x, a, b[0] if b else None)
    return apply(f, p, frm, to) if to is not None else apply(f, p, frm)


@m("slice::get", "slice::get_mut", "Vec::get", "Vec::get_mut")
def _get(k):
    i = k.args[1]
    p = k.an.as_ptr(k.args[0])
    n = k.an.length(k.st, p)
    if "Range" in (k.tys[1] if len(k.tys) > 1 else ""):
        name = k.tys[1].split("<")[0].split("::")[-1]
        frm = proj1(i, "start") if name in ("Range", "RangeFrom") else I0
        to = proj1(i, "end") if name in ("Range", "RangeTo") else n
        c = band(compare("Le", frm, to, "usize"), compare("Le", to, n, "usize"))
        e = apply(lambda x, a, b: subslice(x, a, b), p, frm, to)
    else:
        c = compare("Lt", i, n, "usize")
        e = k.an.index(k.st, p, i)
    return apply(lambda c_, x: some(x) if c_ is I1 else NONE, c, e)


@m("slice::first", "slice::first_mut", "slice::last", "slice::last_mut")
def _first(k):
    p = k.an.as_ptr(k.args[0])
    n = k.an.length(k.st, p)
    i = I0 if "first" in k.n else sub(n, I1)
    c = compare("Gt", n, I0, "usize")
    e = k.an.index(k.st, p, i) if c is not I0 else BOT
    return apply(lambda c_, x: some(x) if c_ is I1 else NONE, c, e)


@m("slice::swap")
def _swap(k):
    vec_update(k, k.st, k.args[0], lambda o: mk("vswap", o, k.args[1], k.args[2]), "swap", k.args[1], k.args[2])
    shift(k, k.args[0])
    return UNIT


@m("slice::reverse")
def _reverse(k):
    vec_update(k, k.st, k.args[0], lambda o: mk("vrev", o), "reverse")
    shift(k, k.args[0])
    return UNIT


def order_of(an, st, x, y, ty):
    """the Ordering of two values of a type whose order is lexicographic, or None"""
    if ty in BITS or ty == "bool" or ty == "char":
        an.typed(x, ty)
        an.typed(y, ty)
        return an.ordering(compare("Lt", x, y, ty), compare("Eq", x, y, ty))
    if ty.startswith("&"):
        t = unref(ty)
        return order_of(an, st, an.load(st, x), an.load(st, y), t)
    if ty.startswith("std::cmp::Reverse<"):
        return order_of(an, st, proj1(y, "0"), proj1(x, "0"), ty[len("std::cmp::Reverse<"):-1])
    if ty.startswith("(") and ty.endswith(")"):
        parts, depth, cur = [], 0, ""
        for ch in ty[1:-1]:
            depth += ch in "(<[" and 1 or ch in ")>]" and -1 or 0
            if ch == "," and not depth:
                parts.append(cur.strip())
                cur = ""
            else:
                cur += ch
        if cur.strip():
            parts.append(cur.strip())
        out = None
        for i in reversed(range(len(parts))):
            o = order_of(an, st, proj1(x, str(i)), proj1(y, str(i)), parts[i])
            if o is None:
                return None
            nxt = out
            out = o if nxt is None else apply(lambda a, b: b if a.op == "agg" and a.a[1] == "Equal" else a, o, nxt)
        return out
    return None


@m("slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort",
   "slice::sort_unstable", "slice::sort_by_cached_key")
def _sort(k):
    an = k.an
    what = k.n.split("::")[-1]
    p = an.as_ptr(k.args[0])
    et = (unref(k.tys[0]) or "")[1:-1]
    a, b = mk("sortarg", "a"), mk("sortarg", "b")
    an.rty(a, et)
    an.rty(b, et)
    pa, pb = mk("ptr", a, ()), mk("ptr", b, ())
    st = k.st
    if what.endswith("_by"):
        r = an.call_value(k.args[1], [pa, pb], ["&" + et] * 2, "std::cmp::Ordering", st, k.site)
        cmp_, st = r
    elif "key" in what:
        r = an.call_value(k.args[1], [pa], ["&" + et], "", st, an.ctx(k.site, 0))
        ka, st = r
        r = an.call_value(k.args[1], [pb], ["&" + et], "", st, an.ctx(k.site, 1))
        kb, st = r
        fv = k.args[1]
        g = an.prog.fns.get(fv.a[1]) if fv.op == "agg" and fv.a[0] == "closure" else None
        cmp_ = order_of(an, st, ka, kb, g.locals[0] if g is not None and g.has else "") or tup(ka, kb)
    else:
        cmp_ = mk("natural")
    k.st = st
    if p.op == "slice" and p.a[2] is I1 and p.a[3] is None:
        # all but the first: as if that was taken out, and put back afterwards
        root, path = p.a[:2]
        w = mk("slice", root, path, I0, None)
        old = an.load(st, cptr(p))
        v = an.load(st, elem_ptr(an, st, root, path, I0))
        an.event("vremove", st, root, path, old, I0)
        an.store(st, cptr(p), mk("vremove", old, I0), quiet=True)
        shift(k, p)
        an.event("sort", st, w, cmp_, "unstable" not in what)
        vec_update(k, st, w, lambda o: mk("vsorted", o, cmp_), "sorted")
        shift(k, p)
        vec_update(k, st, w, lambda o: mk("vinsert", o, I0, v), "insert", I0, v)
        shift(k, p)
        return UNIT, st
    an.event("sort", st, p, cmp_, "unstable" not in what)
    vec_update(k, st, p, lambda o: mk("vsorted", o, cmp_) if p.op != "slice" or p.a[2] is I0 and p.a[3] is None else
               mk("vsortedpart", o, cmp_, p.a[2], p.a[3] if p.a[3] is not None else UNIT), "sorted")
    shift(k, p)
    return UNIT, st


@m("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut", "VecDeque::iter")
def _iter(k):
    def f(x):
        root, path, frm, to = ptr_parts(x)
        return mk("it", "ref", root, path, frm, to)
    return apply(f, k.an.as_ptr(k.args[0]))


@m("Option::iter", "Option::iter_mut")
def _opt_iter(k):
    def f(x):
        root, path, _, _ = ptr_parts(x)
        v = k.an.load(k.st, x)
        e = some(mk("ptr", root, path + (("v", "Some"), "0")))
        return apply(lambda c: mk("it", "opt", e if c is I1 else NONE), cond_discr(k.an, v, "Some"))
    return apply(f, k.an.as_ptr(k.args[0]))


@m("Vec::drain")
def _drain(k):
    an = k.an
    v = an.load(k.st, k.args[0])
    an.event("drain", k.st, v)
    name = k.tys[1].split("<")[0].split("::")[-1] if len(k.tys) > 1 else ""
    left = mk("arr")
    if name != "RangeFull":
        i = k.args[1]
        frm = proj1(i, "start") if name in ("Range", "RangeFrom", "RangeInclusive") else I0
        to = None
        if name in ("Range", "RangeTo"):
            to = proj1(i, "end")
        elif name in ("RangeInclusive", "RangeToInclusive"):
            to = add(proj1(i, "end"), I1)
        whole = v
        if frm is not I0 or to is not None:
            v = apply(lambda x, a, *b: part(x, a, b[0] if b else None), whole, frm, *([to] if to is not None else []))
            left = mk("drained", whole, frm, to) if frm is not I0 and to is not None else \
                apply(lambda x, a: part(x, a, None), whole, to) if to is not None else apply(lambda x, a: part(x, I0, a), whole, frm)
    an.store(k.st, an.as_ptr(k.args[0]), left, quiet=True)
    return apply(lambda x: mk("it", "val", x), v)


@m("slice::chunks", "slice::windows", "slice::chunks_exact", "slice::split", "str::split", "str::lines",
   "str::split_whitespace", "str::chars", "str::bytes", "str::char_indices", "env::args", "env::args_os",
   "str::splitn", "str::rsplit")
def _seq(k):
    vals = [k.an.value(k.st, deref(k, a, t)) for a, t in zip(k.args, k.tys)]
    return mk("it", "seq", mk("p:" + k.n, *vals))


@m("*::iter")
def _any_iter(k):
    v = k.an.value(k.st, deref(k, k.args[0], k.tys[0]))
    return mk("it", "seq", v)


# ---------------------------------------------------------------- maps
def has(mv, key):
    """condition that map value mv has key"""
    def f(x, y):
        while True:
            if x.op == "mnew":
                return I0
            if x.op == "mins":
                if x.a[1] is y:
                    return I1
                e = eqv(x.a[1], y)
                if e is I0:
                    x = x.a[0]
                    continue
                if e is I1:
                    return I1
                return bor(e, has(x.a[0], y)) if False else opaque_bool("has", x, y)
            if x.op == "mrem":
                if x.a[1] is y:
                    return I0
                if eqv(x.a[1], y) is I0:
                    x = x.a[0]
                    continue
            if x.op == "eset":
                x = x.a[0]
                continue
            if y.op == "key" and y.a[0] is x:
                return I1
            return opaque_bool("has", x, y)
    return apply(f, mv, key)


def mapkey(k, i):
    return k.an.value(k.st, deref(k, k.args[i], k.tys[i]))


@m("HashMap::new", "BTreeMap::new", "HashSet::new", "BTreeSet::new", "HashMap::with_capacity", "HashSet::with_capacity",
   "HashMap::with_hasher", "HashMap::with_capacity_and_hasher", "HashSet::with_hasher")
def _mnew(k):
    return mk("mnew")


@m("HashMap::get", "HashMap::get_mut", "BTreeMap::get", "BTreeMap::get_mut", "HashMap::contains_key", "BTreeMap::contains_key",
   "HashSet::contains", "BTreeSet::contains", "HashSet::get", "HashMap::get_key_value")
def _mget(k):
    key = mapkey(k, 1)
    an = k.an

    def f(x, y):
        root, path, _, _ = ptr_parts(x)
        mv = an.load(k.st, mk("ptr", root, path))
        c = has(mv, y)
        if "contains" in k.n:
            return c
        e = mk("ptr", mk("elem", root, path, y), ())
        return apply(lambda c_: some(e) if c_ is I1 else NONE, c)
    return apply(f, an.as_ptr(k.args[0]), key)


def map_insert(k, st, p, key, val):
    """for one pointer leaf; returns whether the key was there, and the old value"""
    an = k.an
    q = cptr(p)
    mv = an.load(st, q)
    c = has(mv, key)
    e = mk("ptr", mk("elem", q.a[0], q.a[1], key), ())
    old = an.load(st, e)
    an.event("minsert", st, q.a[0], q.a[1], key, val, c)
    if q.a[0].op == "L":
        an.store(st, q, apply(lambda x: mk("mins", x, key, val), mv), quiet=True)
    else:
        an.store(st, q, apply(lambda x: mk("mins", x, key), mv), quiet=True)
        if val is not UNIT:
            an.store(st, e, val, quiet=True)
    return c, old


@m("HashMap::insert", "BTreeMap::insert", "HashSet::insert", "BTreeSet::insert")
def _minsert(k):
    key = k.an.value(k.st, k.args[1]) if len(k.args) > 2 or not k.tys[1].startswith("&") else deref(k, k.args[1], k.tys[1])
    val = k.args[2] if len(k.args) > 2 else UNIT

    def f(st, x):
        outs = []
        kcs = leafcases(key)
        if len(kcs) == 1:
            c, old = map_insert(k, st, x, key, val)
            if val is UNIT and k.n.split("::")[0].endswith("Set"):
                return bnot(c), st
            return apply(lambda c_, o: some(o) if c_ is I1 else NONE, c, old), st

        def g(st, y):
            c, old = map_insert(k, st, x, y, val)
            if val is UNIT and k.n.split("::")[0].endswith("Set"):
                return bnot(c), st
            return apply(lambda c_, o: some(o) if c_ is I1 else NONE, c, old), st
        k2 = Call()
        k2.an, k2.st, k2.site = k.an, st, k.an.ctx(k.site, "key")
        return per_leaf(k2, key, g)
    return per_leaf(k, k.an.as_ptr(k.args[0]), f)


@m("HashMap::remove", "BTreeMap::remove", "HashSet::remove", "BTreeSet::remove", "HashSet::take")
def _mremove(k):
    key = mapkey(k, 1)

    def f(st, x):
        q = cptr(x)
        mv = k.an.load(st, q)
        c = has(mv, key)
        e = mk("ptr", mk("elem", q.a[0], q.a[1], key), ())
        old = k.an.load(st, e)
        k.an.event("mremove", st, q.a[0], q.a[1], key, c)
        k.an.store(st, q, apply(lambda v, y: mk("mrem", v, y), mv, key), quiet=True)
        if k.ret == "bool":
            return c, st
        return apply(lambda c_, o: some(o) if c_ is I1 else NONE, c, old), st
    return per_leaf(k, k.an.as_ptr(k.args[0]), f)


@m("HashMap::len", "BTreeMap::len", "HashSet::len", "BTreeSet::len", "HashMap::is_empty", "BTreeMap::is_empty",
   "HashSet::is_empty", "BTreeSet::is_empty")
def _mlen(k):
    n = mlen(k.an.load(k.st, k.args[0]))
    return compare("Eq", n, I0, "usize") if "empty" in k.n else n


def mlen(v):
    def f(x):
        while x.op == "eset":
            x = x.a[0]
        if x.op == "mnew":
            return I0
        if x.op == "mins":
            c = has(x.a[0], x.a[1])
            return apply(lambda c_: mlen(x.a[0]) if c_ is I1 else add(mlen(x.a[0]), I1), c)
        s = mk("len", x)
        RANGE[s] = "usize"
        return s
    return apply(f, v)


def map_iter(mode):
    def f(k):
        def g(x):
            root, path, _, _ = ptr_parts(x)
            return mk("it", "map", root, path, mode, "hash" if "Hash" in k.tys[0] else "tree")
        return apply(g, k.an.as_ptr(k.args[0]))
    return f


for _t in ("HashMap", "BTreeMap"):
    MODELS[_t + "::iter"] = MODELS[_t + "::iter_mut"] = map_iter("kv")
    MODELS[_t + "::keys"] = map_iter("k")
    MODELS[_t + "::values"] = MODELS[_t + "::values_mut"] = map_iter("v")
for _t in ("HashSet", "BTreeSet"):
    MODELS[_t + "::iter"] = map_iter("k")


@m("HashMap::into_keys", "BTreeMap::into_keys", "HashMap::into_values", "BTreeMap::into_values", "HashMap::drain")
def _mapval(k):
    md = "k" if "keys" in k.n else "v" if "values" in k.n else "kv"
    return apply(lambda v: mk("it", "mapval", v, md, "hash" if "Hash" in k.n else "tree"), k.args[0])


@m("HashMap::entry", "BTreeMap::entry")
def _entry(k):
    key = k.an.value(k.st, k.args[1])
    b = "hash_map" if k.n.startswith("Hash") else "btree_map"
    E = "std::collections::%s::Entry" % b

    def f(x, y):
        q = cptr(x)
        c = has(k.an.load(k.st, q), y)
        body = mk("entry", q, y)
        o = agg(E, "Occupied", ["0"], [body])
        v = agg(E, "Vacant", ["0"], [body])
        return apply(lambda c_: o if c_ is I1 else v, c)
    return apply(f, k.an.as_ptr(k.args[0]), key)


def entry_of(x):
    return x.a[3][0] if x.op == "agg" else x


@m("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Entry::or_insert_with_key")
def _or_insert(k):
    an = k.an

    def f(st, x):
        e = entry_of(x)
        q, key = e.a
        p = mk("ptr", mk("elem", q.a[0], q.a[1], key), ())
        if x.op == "agg" and x.a[1] == "Occupied":
            return p, st
        if "default" in k.n:
            v = default_of(unref(k.ret))
        elif "with" in k.n:
            r = an.call_value(k.args[1], [], [], unref(k.ret) or "", st, k.site)
            if r is None:
                return None
            v, st = r
        else:
            v = k.args[1]
        map_insert(k, st, q, key, v)
        return p, st
    return per_leaf(k, k.args[0], f)


@m("Entry::and_modify")
def _and_modify(k):
    def f(st, x):
        e = entry_of(x)
        q, key = e.a
        if x.op == "agg" and x.a[1] == "Occupied":
            r = k.an.call_value(k.args[1], [mk("ptr", mk("elem", q.a[0], q.a[1], key), ())], ["&mut V"], "()", st, k.site)
            if r is None:
                return None
            st = r[1]
        return x, st
    return per_leaf(k, k.args[0], f)


@m("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def _occ(k):
    e = deref(k, k.args[0], k.tys[0])
    return apply(lambda x: mk("ptr", mk("elem", x.a[0].a[0], x.a[0].a[1], x.a[1]), ()), e)


@m("OccupiedEntry::insert", "VacantEntry::insert")
def _vac(k):
    e = deref(k, k.args[0], k.tys[0])

    def f(st, x):
        q, key = x.a
        p = mk("ptr", mk("elem", q.a[0], q.a[1], key), ())
        _, old = map_insert(k, st, q, key, k.args[1])
        return (old if k.n.startswith("Occ") else p), st
    return per_leaf(k, e, f)


@m("OccupiedEntry::remove")
def _occrem(k):
    def f(st, x):
        q, key = x.a
        p = mk("ptr", mk("elem", q.a[0], q.a[1], key), ())
        old = k.an.load(st, p)
        k.an.store(st, q, mk("mrem", k.an.load(st, q), key), quiet=True)
        return old, st
    return per_leaf(k, k.args[0], f)


@m("OccupiedEntry::key", "VacantEntry::key", "Entry::key")
def _ekey(k):
    e = deref(k, k.args[0], k.tys[0])
    return apply(lambda x: mk("ptr", mk("const", entry_of(x).a[1]), ()), e)


# ---------------------------------------------------------------- iterators
def to_it(x, ty=""):
    if x.op == "it":
        return x
    if x.op == "agg":
        n = x.a[0].split("::")[-1]
        if n == "Range":
            return mk("it", "range", x.a[3][0], x.a[3][1])
        if n == "RangeFrom":
            return mk("it", "range", x.a[3][0], mk("inf"))
        if n == "RangeInclusive":
            return mk("it", "range", x.a[3][0], add(x.a[3][1], I1))
        if n == "Option":
            return mk("it", "opt", x)
    return mk("it", "seq", x)


@m("RangeInclusive::new")
def _rinc(k):
    return agg("std::ops::RangeInclusive", "", ["start", "end", "exhausted"], [k.args[0], k.args[1], I0])


@m("IntoIterator::into_iter")
def _into_iter(k):
    t = k.gen[0] if k.gen else k.tys[0]
    if k.fn is not None and k.fn.has and k.fn.local:
        return NotImplemented
    u = unref(t)
    if u is not None:
        while unref(u) is not None:
            k.args[0] = k.an.load(k.st, k.args[0])
            u = unref(u)
        if u.startswith("std::vec::Vec<") or u.startswith("["):
            return _iter(k)
        if "Map<" in u or "Set<" in u:
            md = "kv" if "Map<" in u else "k"

            def g(x):
                root, path, _, _ = ptr_parts(x)
                return mk("it", "map", root, path, md, "hash" if "Hash" in u else "tree")
            return apply(g, k.an.as_ptr(k.args[0]))
        if u.startswith("std::option::Option"):
            return apply(lambda x: mk("it", "opt", x), k.an.load(k.st, k.args[0]))
        if is_iter_ty(u):
            return k.args[0]
        return apply(lambda x: mk("it", "seq", x), k.an.load(k.st, k.args[0]))
    a = k.args[0]
    if t.startswith("std::vec::Vec<") or (t.startswith("[") and ";" in t):
        return apply(lambda x: mk("it", "val", x), a)
    if re.match(r"std::collections::(hash_map::|btree_map::)?(HashMap|BTreeMap)<", t):
        return apply(lambda x: mk("it", "mapval", x, "kv", "hash" if "Hash" in t else "tree"), a)
    if re.match(r"std::collections::(\w+::)?(HashSet|BTreeSet)<", t):
        return apply(lambda x: mk("it", "mapval", x, "k", "hash" if "Hash" in t else "tree"), a)
    if t.startswith("std::option::Option"):
        return apply(lambda x: mk("it", "opt", x), a)
    return apply(to_it, a)


@m("Symtab::iter", "RelocSection::iter")
def _goblin_iter(k):
    return apply(lambda x: mk("it", "seq", x), k.an.load(k.st, k.args[0]))


def adapter(name, nargs=1):
    def f(k):
        if k.fn is not None and k.fn.has and k.fn.local:
            return NotImplemented
        args = k.args[1:]

        def g(x, *r):
            x = to_it(x)
            if name in ("copied", "peekable", "fuse", "by_ref", "inspect"):
                if name == "copied":
                    return mk("it", "copied", x)
                return x
            if name == "flatten" and x.op == "it" and x.a[0] == "val" and x.a[1].op == "arr" and all(y.op == "arr" for y in x.a[1].a):
                return mk("it", "val", mk("arr", *[z for y in x.a[1].a for z in y.a]))
            if name == "flat_map" and x.op == "it" and x.a[0] == "val" and x.a[1].op == "arr" and len(x.a[1].a) <= 16:
                got = []
                for n, y in enumerate(x.a[1].a):
                    z = k.an.call_value(r[0], [y], [""], "", k.st, k.an.ctx(k.site, n))
                    z = z and (to_it(z[0]) if z[0].op != "arr" else mk("it", "val", z[0]))
                    if not (z and z.op == "it" and z.a[0] == "val" and z.a[1].op == "arr"):
                        break
                    got.extend(z.a[1].a)
                else:
                    return mk("it", "val", mk("arr", *got))
            if name == "flatten" and x.op == "it" and x.a[0] == "opt" and "std::vec::Vec<" in k.tys[0].split("::Option<")[-1][:20].replace("alloc::", "std::") or \
                    name == "flatten" and x.op == "it" and x.a[0] == "opt" and "option::IntoIter<std::vec::Vec<" in k.tys[0]:
                return apply(lambda c, v: mk("it", "val", v if c is I1 else mk("arr")), cond_discr(k.an, x.a[1], "Some"),
                             proj1(proj1(x.a[1], ("v", "Some")), "0"))
            if name == "chain" and all(y.op == "it" and y.a[0] == "val" and y.a[1].op == "arr" for y in (x,) + r):
                return mk("it", "val", mk("arr", *[z for y in (x,) + r for z in y.a[1].a]))
            return mk("it", name, x, *r)
        r = [a for a in args]
        if name in ("chain", "zip"):
            # anything that can be iterated
            t2 = k.gen[1] if len(k.gen) > 1 else ""
            k2 = Call()
            for s in Call.__slots__:
                try:
                    setattr(k2, s, getattr(k, s))
                except AttributeError:
                    pass
            k2.args, k2.gen, k2.fn = [args[0]], [k.tys[1]], None
            k2.tys = [k.tys[1]]
            r = [_into_iter(k2)]
        x = k.args[0]
        if name == "by_ref":
            return x
        return apply(lambda y: g(y, *r), x)
    return f


for _x in ("map", "filter", "filter_map", "enumerate", "chain", "skip", "take", "zip", "rev", "flatten", "flat_map",
           "skip_while", "take_while", "map_while", "step_by", "cycle"):
    MODELS["Iterator::" + _x] = adapter(_x)
for _x in ("copied", "cloned"):
    MODELS["Iterator::" + _x] = adapter("copied")
for _x in ("peekable", "fuse", "by_ref", "inspect"):
    MODELS["Iterator::" + _x] = adapter(_x)


# ---------------------------------------------------------------- combine
def rounds_of(an, loops, r):
    """what loops over elements that are known come to"""
    import query
    import unroll

    def count(it, ev):
        it = ev(query.strip(it))
        n = known(it) if it.op == "it" else None
        if n is None and it.op == "it" and it.a[0] == "ref" and it.a[1].op == "arr":
            n = len(it.a[1].a)
        return n

    def fix(t):
        if t.op == "vpush" and t.a[0].op == "arr":
            return mk("arr", *(t.a[0].a + (t.a[1],)))
        if t.op == "at" and t.a[0].op == "arr" and t.a[1].op == "int" and 0 <= t.a[1].a[0] < len(t.a[0].a):
            return t.a[0].a[t.a[1].a[0]]
        return None
    u = unroll.Unroll(an, count, fix, None)
    u.own = loops
    try:
        return u.at(())(query.strip(r))
    except unroll.Unknown:
        return r


@m("combinator::map", "Parser::map")
def _parser_map(k):
    """what the function makes of what the parser can give is noted"""
    import grammar
    an = k.an
    if len(k.args) == 2:
        n = [0]

        def call(v):
            n[0] += 1
            st = k.st.copy()
            had = set(an.loops)
            r = (an.call_value(k.args[1], [v], [""], "", st, an.ctx(k.site, n[0])) or (None,))[0]
            new = set(an.loops) - had
            return r if r is None or not new else rounds_of(an, new, r)
        marks, loops = [(x, len(x)) for x in (an.events, an.steps, an.results)], set(an.loops)
        try:
            an.rules[(k.args[0], k.args[1])] = grammar.rule(k.args[0], k.args[1], an.rules, call)
        except grammar.Unknown as e:
            an.rules[(k.args[0], k.args[1])] = grammar.Unclear(str(e))
        for x, y in marks:
            del x[y:]
        for x in [x for x in an.loops if x not in loops]:
            del an.loops[x]
    return NotImplemented


@m("Parser::parse", "EasyParser::easy_parse")
def _parser_parse(k):
    return mk("p:parse", k.an.load(k.st, k.an.as_ptr(k.args[0])), k.an.value(k.st, k.args[1]))


@m("iter::once")
def _once(k):
    return mk("it", "val", mk("arr", k.args[0]))


@m("iter::empty")
def _empty(k):
    return mk("it", "val", mk("arr"))


@m("iter::repeat")
def _repeat(k):
    return mk("it", "repeat", k.args[0])


def iv(site, d):
    s = mk("iv", site, d)
    n = known(d)
    if n is not None and n <= 16:
        DOM[s] = tuple(range(n))
    RANGE[s] = "usize"
    return s


class It(object):
    """one element of an iterator"""
    __slots__ = ("v", "c", "st")

    def __init__(self, v, c, st):
        self.v, self.c, self.st = v, c, st


def elem(k, st, d, j, site):
    """element j of descriptor d: It or None (diverges)"""
    an = k.an
    kind = d.a[0]
    if kind == "ref":
        root, path, frm, to = d.a[1:]
        return It(elem_ptr(an, st, root, path, add(frm, j)), I1, st)
    if kind == "val":
        return It(at(d.a[1], j), I1, st)
    if kind == "seq":
        return It(at(d.a[1], j), I1, st)
    if kind == "range":
        return It(add(d.a[1], j), I1, st)
    if kind == "repeat":
        return It(d.a[1], I1, st)
    if kind == "opt":
        return It(proj1(proj1(d.a[1], ("v", "Some")), "0"), cond_discr(an, d.a[1], "Some"), st)
    if kind == "mapval" or kind == "map" and len(d.a) > 3:
        if kind == "map":
            root, path, mode, order = d.a[1:]
            mv = an.load(st, mk("ptr", root, path))
        else:
            mv, mode, order = d.a[1:]
        key = apply(lambda x: mk("key", shape(x), j), mv)
        kp = mk("ptr", mk("const", key), ())
        if kind == "map":
            vp = apply(lambda y: mk("ptr", mk("elem", root, path, y), ()), key)
        else:
            kp = key
            vp = apply(lambda x, y: at(x, y), mv, key)
        return It({"k": kp, "v": vp, "kv": tup(kp, vp)}[mode], I1, st)
    if kind == "copied":
        e = elem(k, st, d.a[1], j, site)
        if e:
            e.v = an.load(e.st, e.v)
        return e
    if kind == "map":
        e = elem(k, st, d.a[1], j, site)
        if e is None:
            return None
        pc = e.st.pc
        e.st.pc = band(pc, e.c)
        r = an.call_value(d.a[2], [e.v], [""], "", e.st, an.ctx(site, ("map", d.id)))
        if r is None:
            return None
        return It(r[0], e.c, r[1])
    if kind in ("filter", "skip_while", "take_while"):
        e = elem(k, st, d.a[1], j, site)
        if e is None:
            return None
        r = an.call_value(d.a[2], [mk("ptr", mk("const", e.v), ())], [""], "bool", e.st, an.ctx(site, ("filter", d.id)))
        if r is None:
            return None
        boolify(r[0])
        c = cond_eq(r[0], 1)
        if kind == "skip_while":
            c = opaque_bool("after_prefix", site, d)
        return It(e.v, band(e.c, c), r[1])
    if kind in ("filter_map", "map_while"):
        e = elem(k, st, d.a[1], j, site)
        if e is None:
            return None
        r = an.call_value(d.a[2], [e.v], [""], "", e.st, an.ctx(site, ("fmap", d.id)))
        if r is None:
            return None
        v = r[0]
        return It(proj1(proj1(v, ("v", "Some")), "0"), band(e.c, cond_discr(an, v, "Some")), r[1])
    if kind == "enumerate":
        e = elem(k, st, d.a[1], j, site)
        if e is None:
            return None
        n = j if indexable(d.a[1]) else mk("pos", site, d)
        RANGE[n] = "usize"
        e.v = tup(n, e.v)
        return e
    if kind == "chain":
        w = mk("which", site, d)
        DOM[w] = (0, 1)
        outs = []
        for n in (0, 1):
            s = st.copy()
            s.pc = band(st.pc, cond_eq(w, n))
            e = elem(k, s, d.a[1 + n], j, site)
            if e is None:
                continue
            e.st.env[(site, "ch", n, "v")] = e.v
            outs.append((n, e))
        if not outs:
            return None
        vs, cs = {}, {}
        sts = []
        for n, e in outs:
            e.st.env.pop((site, "ch", n, "v"))
            e.st.env[(site, "chv")] = e.v
            e.st.env[(site, "chc")] = e.c
            sts.append(e.st)
        ms = an.merge(sts)
        v, c = ms.env.pop((site, "chv")), ms.env.pop((site, "chc"))
        return It(v, c, ms)
    if kind == "skip":
        if indexable(d.a[1]):
            return elem(k, st, d.a[1], add(j, d.a[2]), site)
        e = elem(k, st, d.a[1], j, site)
        if e:
            e.c = band(e.c, opaque_bool("notskipped", site, d))
        return e
    if kind == "take":
        return elem(k, st, d.a[1], j, site)
    if kind == "zip":
        a = elem(k, st, d.a[1], j, site)
        if a is None:
            return None
        b = elem(k, a.st, d.a[2], j, site)
        if b is None:
            return None
        return It(tup(a.v, b.v), band(a.c, b.c), b.st)
    if kind == "rev":
        if indexable(d.a[1]):
            n = it_len(an, st, d.a[1])
            if n is not None:
                return elem(k, st, d.a[1], sub(sub(n, I1), j), site)
        return elem(k, st, d.a[1], mk("revi", j), site)
    if kind == "step_by":
        return elem(k, st, d.a[1], mul(j, d.a[2]), site)
    if kind in ("flatten", "flat_map"):
        e = elem(k, st, d.a[1], j, site)
        if e is None:
            return None
        v, st2 = e.v, e.st
        if kind == "flat_map":
            r = an.call_value(d.a[2], [v], [""], "", st2, an.ctx(site, ("flat", d.id)))
            if r is None:
                return None
            v, st2 = r
        j2 = mk("iv2", site, d)
        RANGE[j2] = "usize"

        def inner(x):
            if x.op == "agg" and x.a[0].endswith("Option"):
                return mk("it", "opt", x)
            if x.op in ("ptr", "slice", "guard"):
                root, path, frm, to = ptr_parts(x)
                return mk("it", "ref", root, path, frm, to)
            if x.op == "it":
                return x
            return mk("it", "val", x)
        ds = apply(inner, v)
        ls = leafcases(ds)
        outs = []
        for c, x in ls:
            s = st2.copy()
            s.pc = band(st2.pc, c)
            if s.pc is I0:
                continue
            e2 = elem(k, s, x, j2, an.ctx(site, ("fl", d.id)))
            if e2 is None:
                continue
            e2.st.env[(site, "fv")] = e2.v
            e2.st.env[(site, "fc")] = band(e.c, e2.c)
            outs.append(e2.st)
        ms = an.merge(outs)
        if ms is None:
            return None
        v2, c2 = ms.env.pop((site, "fv")), ms.env.pop((site, "fc"))
        return It(v2, c2, ms)
    raise Give("iterator " + kind)


def shape(x):
    while x.op == "eset":
        x = x.a[0]
    return x


def indexable(d):
    return d.a[0] in ("ref", "val", "seq", "range", "repeat") or (
        d.a[0] in ("copied", "map", "enumerate", "take", "skip", "zip", "rev", "step_by") and isinstance(d.a[1], T) and d.a[1].op == "it" and indexable(d.a[1]))


def it_len(an, st, d):
    """how many elements, if that is simple"""
    kind = d.a[0]
    if kind == "ref":
        root, path, frm, to = d.a[1:]
        if to is not None:
            return sub(to, frm)
        return sub(vlen(an.load(st, mk("ptr", root, path))), frm)
    if kind in ("val", "seq"):
        return vlen(d.a[1])
    if kind == "range":
        return sub(d.a[2], d.a[1])
    if kind == "map" and len(d.a) > 3:
        return mlen(an.load(st, mk("ptr", d.a[1], d.a[2])))
    if kind == "mapval":
        return mlen(d.a[1])
    if kind in ("copied", "enumerate") or kind == "map":
        return it_len(an, st, d.a[1])
    if kind == "rev":
        return it_len(an, st, d.a[1])
    if kind == "skip":
        n = it_len(an, st, d.a[1])
        return n and apply(lambda a, b: sub(a, b), n, d.a[2])
    if kind == "chain":
        a, b = it_len(an, st, d.a[1]), it_len(an, st, d.a[2])
        return add(a, b) if a is not None and b is not None else None
    return None


def cond_discr(an, v, variant):
    def f(x):
        if x.op == "agg":
            return I1 if x.a[1] == variant else I0
        s = mk("discr", x)
        if s not in DOM:
            DOM[s] = (0, 1)
            VARIANTS[s] = {0: "None", 1: "Some"}
        n = [d for d, w in VARIANTS.get(s, {0: "None", 1: "Some"}).items() if w == variant]
        return cond_eq(s, n[0] if n else 1)
    return apply(f, v)


def more_cond(site, d):
    s = mk("more", site, d)
    return s, boolsubj(s)


def empty_it(d):
    if d.a[0] == "val" and d.a[1].op == "arr" and not d.a[1].a:
        return True
    if d.a[0] == "range" and d.a[1] is d.a[2]:
        return True
    if d.a[0] in ("copied", "filter", "filter_map", "enumerate") or (d.a[0] == "map" and isinstance(d.a[1], T) and d.a[1].op == "it"):
        return empty_it(d.a[1])
    return False


def note_iter(an, site, d):
    for f in reversed(an.stack):
        if f[0] == "loop":
            l = an.loops[f[1]]
            if (site, d) not in l.iters:
                l.iters.append((site, d))
            return l
    return None


@m("Iterator::next", "Peekable::next", "Peekable::peek", "Iterator::nth", "DoubleEndedIterator::next_back", "Iterator::last",
   "Peekable::next_if", "Iterator::min", "Iterator::max")
def _next(k):
    if k.fn is not None and k.fn.has and k.fn.local:
        return NotImplemented
    an = k.an
    if k.n in ("Iterator::last", "Iterator::min", "Iterator::max"):
        return pure(k.n)(k)
    ip = an.as_ptr(k.args[0])
    t = unref(k.tys[0]) or ""
    v = an.load(k.st, ip)
    while v.op in ("ptr",) and unref(t) is not None:
        ip = an.as_ptr(v)
        v = an.load(k.st, ip)
        t = unref(t)
    what = k.n.split("::")[-1]

    def f(st, x):
        an.event("step", st, what, k.site, ip)
        d = to_it(x)
        if what == "next_back":
            d = mk("it", "rev", d)
        if empty_it(d):
            return NONE, st
        site = k.site
        s, mc = more_cond(site, d)
        loop = None
        inloop = False
        for fr in reversed(an.stack):
            if fr[0] == "loop":
                loop = an.loops[fr[1]]
                break
        if loop is not None:
            try:
                inloop = loop.kind == "mir" and any(
                    y.op != "bot" and to_it(y) is to_it(x) for y in leaves(an.load(loop.init, ip)))
            except Exception:
                inloop = False
        if inloop:
            j = iv(site, d)
            note_iter(an, site, d)
        else:
            j = k.args[1] if what == "nth" else I0
        body = st.copy()
        body.pc = band(st.pc, cond_eq(mc, 1))
        e = elem(k, body, d, j, site)
        outs = []
        if e is not None:
            if not inloop and e.c is I1:
                n = it_len(an, st, d)
                if n is not None and n.op == "int":
                    pass
            if e.c is not I1:
                ASSUME[(s, 1)] = e.c
            e.st.pc = band(st.pc, cond_eq(mc, 1))
            if what == "peek":
                val = some(mk("ptr", mk("const", e.v), ()))
            else:
                val = some(e.v)
            e.st.env[(site, "nx")] = val
            if not inloop and what in ("next", "nth"):
                an.store(e.st, ip, mk("it", "skip", d, add(j, I1)) if d.a[0] != "skip" or d.a[2].op != "int" else
                         mk("it", "skip", d.a[1], add(d.a[2], add(j, I1))), quiet=True)
            outs.append(e.st)
        none = st.copy()
        none.pc = band(st.pc, cond_eq(mc, 0))
        none.env[(site, "nx")] = NONE
        outs.append(none)
        ms = an.merge(outs)
        return ms.env.pop((site, "nx")), ms
    return per_leaf(k, v, f)


def known(d):
    """a constant number of elements that can be written out"""
    if d.a[0] == "val" and d.a[1].op == "arr":
        return len(d.a[1].a)
    if d.a[0] in ("map", "copied", "enumerate") and isinstance(d.a[1], T) and d.a[1].op == "it":
        return known(d.a[1])
    if d.a[0] == "ref":
        if d.a[4] is not None and d.a[4].op == "int" and d.a[3].op == "int":
            return d.a[4].a[0] - d.a[3].a[0]
        if d.a[1].op == "const" and d.a[3].op == "int":
            n = vlen(proj(d.a[1].a[0], d.a[2]))
            if n.op == "int":
                return n.a[0] - d.a[3].a[0]
    if d.a[0] == "range" and d.a[1].op == "int" and d.a[2].op == "int":
        return max(0, d.a[2].a[0] - d.a[1].a[0])
    return None


def of_option(d):
    """d yields at most one element, which is the one of an Option"""
    while d.a[0] in ("map", "copied", "filter") and isinstance(d.a[1], T) and d.a[1].op == "it":
        d = d.a[1]
    return d.a[1] if d.a[0] == "opt" else None


def eager_option(k, st, d, init, step):
    """the elements of an Option are a branch, not a loop"""
    an = k.an
    slot = (k.site, "acc")
    e = elem(k, st.copy(), d, I0, k.site)
    if e is None:
        return None
    outs, stops = [], []
    skip = st.copy()
    skip.pc = band(st.pc, bnot(e.c))
    if skip.pc is not I0:
        skip.env[slot] = init
        outs.append(skip)
    go = e.st
    go.pc = band(st.pc, e.c)
    if go.pc is not I0:
        r = step(e.v, go, init)
        if r is not None:
            acc, go, stop = r
            if stop is not None and stop is not I0:
                s2 = go.copy()
                s2.pc = band(go.pc, stop)
                if s2.pc is not I0:
                    stops.append((acc, s2))
                go.pc = band(go.pc, bnot(stop))
            if go.pc is not I0:
                go.env[slot] = acc
                outs.append(go)
    out = an.merge(outs)
    if out is None:
        out = st.copy()
        out.pc = I0
        return init, out, stops
    return out.env.pop(slot), out, stops


def eager(k, st, d, init, step, early=False):
    """Run step(e, st, acc) -> (acc, st, stop) over the elements of d.

    Returns (acc, state after running out, [states after stopping early])."""
    an = k.an
    site = k.site
    slot = (site, "acc")
    d = to_it(d)
    if of_option(d) is NONE:
        return init, st, []
    if of_option(d) is not None:
        return eager_option(k, st, d, init, step)
    s, mc = more_cond(site, d)
    j = iv(site, d)
    lid = an.ctx(site, ("eager",))
    box = {}
    st = st.copy()
    st.env[slot] = init
    pos = an.pos

    def body(hs):
        an.loops[lid].kind = "eager"
        an.loops[lid].iters = [(site, d)]
        box["stop"] = []
        b = hs.copy()
        b.pc = cond_eq(mc, 1)
        e = elem(k, b, d, j, site)
        if e is None:
            return []
        go = e.st
        c = e.c
        go.pc = band(cond_eq(mc, 1), c)
        skip = go.copy()
        skip.pc = band(cond_eq(mc, 1), bnot(c))
        outs = []
        if skip.pc is not I0:
            outs.append(skip)
        if go.pc is not I0:
            acc = go.env[slot]
            r = step(e.v, go, acc)
            if r is not None:
                acc, go, stop = r
                go.env[slot] = acc
                if stop is not None and stop is not I0:
                    s2 = go.copy()
                    s2.pc = band(go.pc, stop)
                    if s2.pc is not I0:
                        box["stop"].append(s2)
                    go.pc = band(go.pc, bnot(stop))
                if go.pc is not I0:
                    outs.append(go)
        return outs

    loop = an.fix_loop(lid, pos, st, {slot}, body)
    an.pos = pos
    out = loop.head.copy()
    stops = box["stop"]
    if stops:
        subj = mk("exit", lid)
        DOM[subj] = tuple(range(len(stops) + 1))
        loop.exits.append((0, cond_eq(mc, 0), None, out))
        out.pc = band(st.pc, cond_eq(subj, 0))
        fs = []
        for n, s2 in enumerate(stops):
            loop.exits.append((n + 1, s2.pc, None, s2))
            s2 = s2.copy()
            s2.pc = band(st.pc, cond_eq(subj, n + 1))
            fs.append(s2)
    else:
        loop.exits.append((0, cond_eq(mc, 0), None, out))
        out.pc = st.pc
        fs = []
    acc = out.env.pop(slot)
    accs = [f.env.pop(slot) for f in fs]
    return acc, out, list(zip(accs, fs))


def over(k, f):
    """f(state, descriptor) for the iterator argument"""
    v = k.args[0]
    t = k.tys[0]
    if unref(t) is not None and v.op in ("ptr", "md"):
        v = k.an.load(k.st, v)
    return per_leaf(k, v, lambda st, x: f(st, to_it(x)))


def local_impl(k):
    return k.fn is not None and k.fn.has and k.fn.local


@m("Iterator::for_each")
def _for_each(k):
    def f(st, d):
        def step(e, s, acc):
            r = k.an.call_value(k.args[1], [e], [""], "()", s, k.an.ctx(k.site, "f"))
            return (acc, r[1], None) if r else None
        acc, out, _ = eager(k, st, d, UNIT, step)
        return UNIT, out
    return over(k, f)


@m("Iterator::try_for_each", "Iterator::try_fold")
def _try_for_each(k):
    fold = k.n.endswith("fold")
    ret = k.ret or ""
    res = ret.startswith("std::result::Result<")
    if not res and not ret.startswith("std::option::Option<"):
        return pure(k.n)(k) if fold else NotImplemented
    good = "Ok" if res else "Some"

    def f(st, d):
        def step(e, s, acc):
            args = [acc, e] if fold else [e]
            r = k.an.call_value(k.args[-1], args, [""] * len(args), ret, s, k.an.ctx(k.site, "f"))
            if r is None:
                return None
            v, s = r
            s.env[(k.site, "broke")] = v
            on = proj1(proj1(v, ("v", good)), "0") if fold else acc
            return on, s, bnot(cond_res(v, good))
        acc, out, stops = eager(k, st, d, k.args[1] if fold else UNIT, step)
        out.env.pop((k.site, "broke"), None)
        return finish(k, (ok if res else some)(acc), out, [(
            err(proj1(proj1(s.env.pop((k.site, "broke")), ("v", "Err")), "0")) if res else NONE, s) for _, s in stops])
    return over(k, f)


@m("Iterator::fold")
def _fold(k):

    def f(st, d):
        def step(e, s, acc):
            r = k.an.call_value(k.args[2], [acc, e], ["", ""], "", s, k.an.ctx(k.site, "f"))
            return (r[0], r[1], None) if r else None
        acc, out, _ = eager(k, st, d, k.args[1], step)
        return acc, out
    return over(k, f)


@m("Iterator::sum", "Iterator::count", "Iterator::product")
def _sum(k):
    def f(st, d):
        if "count" in k.n:
            n = it_len(k.an, st, d)
            if n is not None and indexable(d):
                return n, st

        def step(e, s, acc):
            if "count" in k.n:
                return add(acc, I1), s, None
            while e.op == "ptr":
                e = k.an.load(s, e)
            return (mul(acc, e) if "product" in k.n else add(acc, e)), s, None
        acc, out, _ = eager(k, st, d, I1 if "product" in k.n else I0, step)
        return acc, out
    return over(k, f)


@m("Iterator::any", "Iterator::all")
def _anyall(k):
    isany = k.n.endswith("any")

    def f(st, d):
        n = few(k, st, d)
        if n is not None:
            r = unrolled(k, st, d, n, isany)
            if r is not None:
                return r

        def step(e, s, acc):
            r = k.an.call_value(k.args[1], [e], [""], "bool", s, k.an.ctx(k.site, "f"))
            if r is None:
                return None
            boolify(r[0])
            c = cond_eq(r[0], 1)
            return acc, r[1], (c if isany else bnot(c))
        acc, out, stops = eager(k, st, d, UNIT, step)
        return finish(k, (I0 if isany else I1), out, [(I1 if isany else I0, s) for _, s in stops])
    return over(k, f)


def few(k, st, d):
    """the number of elements of an iterator over a short list whose elements are known"""
    d = to_it(d)
    if d.op == "it" and d.a[0] == "ref" and d.a[3] in (0, I0):
        v = k.an.load(st, mk("ptr", d.a[1], d.a[2]))
        if v.op == "arr" and len(v.a) <= 8 and (d.a[4] is None or d.a[4].op == "int" and d.a[4].a[0] == len(v.a)):
            return len(v.a)
    return None


def unrolled(k, st, d, n, isany):
    """any/all over a short list, element by element, when the question has no effects"""
    out = I0 if isany else I1
    site = k.site
    for i in range(n):
        b = st.copy()
        e = elem(k, b, to_it(d), I(i), site)
        if e is None or e.c is not I1:
            return None
        r = k.an.call_value(k.args[1], [e.v], [""], "bool", e.st, k.an.ctx(site, ("f", i)))
        if r is None:
            return None
        boolify(r[0])
        c = cond_eq(r[0], 1)
        if r[1].heap is not st.heap:
            return None
        out = bor(out, c) if isany else band(out, c)
    return out, st


def finish(k, v, out, stops):
    slot = (k.site, "fin")
    out.env[slot] = v
    sts = [out]
    for x, s in stops:
        s.env[slot] = x
        sts.append(s)
    ms = k.an.merge(sts)
    return ms.env.pop(slot), ms


@m("Iterator::find", "Iterator::position", "Iterator::find_map", "DoubleEndedIterator::rfind", "Iterator::rposition")
def _find(k):
    what = k.n.split("::")[-1]

    def f(st, d):
        if what[0] == "r":
            d = mk("it", "rev", d)

        def step(e, s, acc):
            arg = mk("ptr", mk("const", e), ()) if what in ("find", "rfind") else e
            r = k.an.call_value(k.args[1], [arg], [""], "bool", s, k.an.ctx(k.site, "f"))
            if r is None:
                return None
            if what == "find_map":
                return r[0], r[1], cond_discr(k.an, r[0], "Some")
            boolify(r[0])
            c = cond_eq(r[0], 1)
            v = some(e) if what in ("find", "rfind") else some(iv(k.site, d))
            return v, r[1], c
        # the accumulator is only looked at where it stops
        acc, out, stops = eager_noacc(k, st, d, step)
        return finish(k, NONE, out, stops)
    return over(k, f)


def eager_noacc(k, st, d, step):
    vals = []

    def step2(e, s, acc):
        r = step(e, s, acc)
        if r is None:
            return None
        v, s, c = r
        s.env[(k.site, "found")] = v
        return acc, s, c
    st = st.copy()
    acc, out, stops = eager(k, st, d, UNIT, step2)
    out.env.pop((k.site, "found"), None)
    return acc, out, [(s.env.pop((k.site, "found")), s) for _, s in stops]


def min_max(name):
    def f(k):
        return pure(name)(k)
    return f


def add_to(kind, acc, e):
    """collect one more element"""
    if kind == "map":
        kk, vv = proj1(e, "0"), proj1(e, "1")
        return apply(lambda a: mk("mins", a, kk, vv), acc)
    if kind == "set":
        return apply(lambda a: mk("mins", a, e, UNIT), acc)
    if kind == "str":
        return mk("p:concat", acc, e)
    return apply(lambda a: vpush(a, e), acc)


def coll_kind(t):
    if "Map<" in t.split("<")[0] + "<":
        return "map", mk("mnew")
    if "Set<" in t.split("<")[0] + "<":
        return "set", mk("mnew")
    if is_str_ty(t):
        return "str", S("")
    return "vec", mk("arr")


@m("Iterator::collect", "FromIterator::from_iter", "Iterator::partition", "Iterator::unzip")
def _collect(k):
    t = k.ret
    if k.n in ("Iterator::partition", "Iterator::unzip"):
        return pure(k.n)(k)
    wrap_ = None
    if t.startswith("std::result::Result<") or t.startswith("std::option::Option<"):
        wrap_ = "R" if t.startswith("std::result") else "O"
        t = split_args(t)[0]
    kind, init = coll_kind(t)
    if k.n == "FromIterator::from_iter":
        v = _into_iter(k)
        if v is NotImplemented:
            return v
        k.args = [v] + list(k.args[1:])

    def f(st, d):
        n = known(d)
        if n is not None and n <= 16 and wrap_ is None:
            acc = init
            for i in range(n):
                e = elem(k, st, d, I(i), k.an.ctx(k.site, i))
                if e is None:
                    return None
                st = e.st
                acc = add_to(kind, acc, e.v)
            return acc, st
        if d.a[0] in ("val",) and kind == "vec" and wrap_ is None:
            return d.a[1], st
        if d.a[0] == "take" and d.a[1].a[0] == "repeat" and kind == "vec" and wrap_ is None:
            return mk("vrep", d.a[1].a[1], d.a[2]), st

        def step(e, s, acc):
            if wrap_:
                good = "Ok" if wrap_ == "R" else "Some"
                c = apply(lambda x: (I1 if x.a[1] == good else I0) if x.op == "agg" else I1, e)
                v = proj1(proj1(e, ("v", good)), "0")
                s.env[(k.site, "bad")] = e
                return add_to(kind, acc, v), s, bnot(cond_res(e, good))
            return add_to(kind, acc, e), s, None
        acc, out, stops = eager(k, st, d, init, step)
        out.env.pop((k.site, "bad"), None)
        if wrap_ is None:
            return acc, out
        good = (ok if wrap_ == "R" else some)(acc)
        return finish(k, good, out, [(
            err(proj1(proj1(s.env.pop((k.site, "bad")), ("v", "Err")), "0")) if wrap_ == "R" else NONE, s) for _, s in stops])
    return over(k, f)


def cond_res(v, variant):
    names = {0: "Ok", 1: "Err"} if variant in ("Ok", "Err") else {0: "None", 1: "Some"}

    def f(x):
        if x.op == "agg":
            return I1 if x.a[1] == variant else I0
        s = mk("discr", x)
        if s not in DOM:
            DOM[s] = (0, 1)
            VARIANTS[s] = names
        return cond_eq(s, [n for n, w in names.items() if w == variant][0])
    return apply(f, v)


@m("Extend::extend")
def _extend(k):
    t = unref(k.tys[0]) or ""
    kind, _ = coll_kind(t)
    k2 = Call()
    for s in Call.__slots__:
        try:
            setattr(k2, s, getattr(k, s))
        except AttributeError:
            pass
    k2.args, k2.gen, k2.fn, k2.tys = [k.args[1]], [k.tys[1]], None, [k.tys[1]]
    it = _into_iter(k2)

    def f(st, d):
        n = known(d)
        if n is not None and n <= 16:
            for i in range(n):
                e = elem(k, st, d, I(i), k.an.ctx(k.site, i))
                if e is None:
                    return None
                st = e.st
                put(st, e.v)
            return UNIT, st
        if d.a[0] in ("copied",) and "u8" in t and d.a[1].a[0] == "ref":
            root, path, frm, to = d.a[1].a[1:]
            v = k.an.load(st, mk("slice", root, path, frm, to))
            emit(k, st, k.args[0], vlen(v), "raw", v)
            return UNIT, st
        if "u8" in t and d.a[0] == "chain":
            r = f(st, d.a[1])
            return f(r[1], d.a[2])
        if "u8" in t and d.a[0] == "val":
            v = d.a[1]
            emit(k, st, k.args[0], vlen(v), "raw", v)
            return UNIT, st

        def step(e, s, acc):
            put(s, e)
            return acc, s, None
        acc, out, _ = eager(k, st, d, UNIT, step)
        return UNIT, out

    def put(st, e):
        k.st = st
        if kind == "map":
            map_insert(k, st, k.an.as_ptr(k.args[0]), proj1(e, "0"), proj1(e, "1"))
        elif kind == "set":
            map_insert(k, st, k.an.as_ptr(k.args[0]), e, UNIT)
        elif kind == "str":
            p = k.an.as_ptr(k.args[0])
            k.an.store(st, p, mk("p:concat", k.an.load(st, p), e))
        else:
            while e.op == "ptr" and t.endswith("<u8>"):
                e = k.an.load(st, e)
            vec_push(k, st, k.args[0], e)
    return per_leaf(k, it, lambda st, x: f(st, to_it(x)))


@m("Vec::retain", "Vec::retain_mut", "BTreeMap::retain", "HashMap::retain", "HashSet::retain", "BTreeSet::retain")
def _retain(k):
    an = k.an

    def f(st, p):
        q = cptr(p)
        root, path = q.a
        ismap = "Map" in k.n
        if k.n.startswith("Vec"):
            d = mk("it", "ref", root, path, I0, None)
        else:
            d = mk("it", "map", root, path, "kv" if ismap else "k", "hash" if "Hash" in k.n else "tree")
        old = an.load(st, q)
        box = {}

        def step(e, s, acc):
            args = [proj1(e, "0"), proj1(e, "1")] if ismap else [e]
            r = an.call_value(k.args[1], args, [""] * len(args), "bool", s, an.ctx(k.site, "f"))
            if r is None:
                return None
            boolify(r[0])
            box["c"] = cond_eq(r[0], 1)
            an.event("keep", r[1], root, path, e, box["c"])
            return acc, r[1], None
        acc, out, _ = eager(k, st, d, UNIT, step)
        new = mk("vretain" if k.n.startswith("Vec") else "mretain", old, k.site, box.get("c", I1))
        an.event("retain", out, root, path, old, box.get("c", I1))
        an.store(out, q, new, quiet=True)
        if k.n.startswith("Vec"):
            k.st = out
            shift(k, q)
        return UNIT, out
    return per_leaf(k, an.as_ptr(k.args[0]), f)


@m("Vec::dedup", "Vec::dedup_by_key")
def _dedup(k):
    vec_update(k, k.st, k.args[0], lambda o: mk("vdedup", o), "dedup")
    shift(k, k.args[0])
    return UNIT


# ---------------------------------------------------------------- intrinsics and numbers
@m("intrinsics::cold_path", "hint::assert_unchecked", "intrinsics::assume")
def _nop(k):
    return UNIT


@m("intrinsics::ctlz", "intrinsics::ctlz_nonzero", "intrinsics::cttz", "intrinsics::ctpop")
def _ctlz(k):
    def f(x):
        if x.op == "int":
            b = BITS.get(k.tys[0], 64)
            if "ctlz" in k.n:
                return I(b - x.a[0].bit_length())
        v = mk(k.n.split("::")[-1], x)
        RANGE[v] = "u32"
        return v
    return apply(f, k.args[0])


@m("intrinsics::saturating_add", "intrinsics::saturating_sub")
def _sat(k):
    t = k.tys[0]
    if "sub" in k.n and t.startswith("u"):
        c = compare("Ge", k.args[0], k.args[1], t)
        return apply(lambda c_, d: d if c_ is I1 else I0, c, sub(k.args[0], k.args[1]))
    return apply(lambda a, b: mk("sat", k.n, a, b), *k.args)


@m("num::next_multiple_of", "u64::next_multiple_of", "usize::next_multiple_of")
def _nmo(k):
    return NotImplemented


@m("u32::next_power_of_two", "u64::next_power_of_two", "usize::next_power_of_two", "num::next_power_of_two")
def _npot(k):
    v = mk("p:npot", k.args[0])
    RANGE[v] = "u32"
    return apply(lambda x: I(1 << max(0, (x.a[0] - 1).bit_length())) if x.op == "int" else v, k.args[0])


def _tryfrom(k):
    return NotImplemented
