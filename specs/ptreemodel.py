"""Assumed contracts of boost::property_tree and std::string, for the functions which read and write the attributes of a
document: a tree is a block with one slot per path, a string the number of its text. get<T>(path) returns the value of the
slot, and throws when there is none; put(path, v) sets that slot and no other."""
from common import *
import symex
from symex import Outcome, Ptr, Unsupported

SLOT = {}            # path -> offset of its slot
TEXT = {}            # text -> its number
BAD_PATH = "ptree_bad_path"
TREE = 1 << 12


def slot(path):
    return SLOT.setdefault(path, 16 * len(SLOT))


def text(t):
    return const(TEXT.setdefault(t, 1000 + len(TEXT)), "I")


def literal(ex, st, p):
    if not isinstance(p, Ptr) or p.off != 0:
        raise Unsupported("a string which is not a literal")
    name = st.mem[p.blk].name.lstrip("@")
    g = ex.mod.globals.get(name)
    if g is None or not g["init"] or g["init"][0] not in ("cstr", "zero"):
        raise Unsupported("a string which is not a literal")
    t = str(g["init"][1]) if g["init"][0] == "cstr" else 'c""'
    return t[2:-1].replace("\\00", "")


def cell(st, p, off):
    b = st.mem[p.blk]
    if isinstance(p.off, int) and p.off + off in b.cells:
        return b.cells[p.off + off][1]
    return None


def setcell(st, p, off, v, size=8):
    st.wblock(p.blk).cells[p.off + off] = (size, v)


def tree(L, name, attrs):
    """a document element with these attributes and no other"""
    p = L.st.alloc(TREE, name)
    for k, v in attrs.items():
        setcell(L.st, p, slot(k), v)
    return p


def attr(L, p, path):
    v = cell(L.st, p, slot(path))
    return v


def only(L, p, attrs):
    """the tree p has these attributes, and no other"""
    n = {k: cell(L.st, p, o) for k, o in SLOT.items()}
    for k, v in attrs.items():
        L.holds("%s is kept or set" % k, FALSE if n[k] is None else eq(tm.lift(n[k]), tm.lift(v)))
    for k, v in n.items():
        if k not in attrs:
            L.holds("%s stays absent" % k, TRUE if v is None else FALSE)


# elements inside elements: the slot of a child holds the address of its tree
def names(path):
    """a.b.<xmlattr>.c -> a, b, <xmlattr>.c"""
    r, attr = [], False
    for n in path.split("."):
        if attr:
            n, attr = "<xmlattr>." + n, False
        elif n == "<xmlattr>":
            attr = True
            continue
        r.append(n)
    if attr:
        raise Unsupported("a path to all attributes")
    return r


def at(p, off):
    return Ptr(p.blk, p.off + off)


def child(st, p, n):
    v = cell(st, p, slot(n))
    return v if isinstance(v, Ptr) else None if v is None else at(p, slot(n))


def find(st, p, path):
    """the address of the element or attribute, or None"""
    for n in names(path):
        p = child(st, p, n)
        if p is None:
            return None
    return p


def place(st, p, path):
    """the element which is to hold the last name of the path, and that name; made when absent"""
    ns = names(path)
    for n in ns[:-1]:
        q = child(st, p, n)
        if q is None:
            q = st.alloc(TREE, n)
            setcell(st, p, slot(n), q)
        p = q
    return p, ns[-1]


def below(st, p):
    """what an element holds: name -> value or address"""
    r = {n: cell(st, p, o) for n, o in SLOT.items()}
    return {n: v for n, v in r.items() if v is not None}


def clear(st, p):
    b = st.wblock(p.blk)
    for o in SLOT.values():
        b.cells.pop(p.off + o, None)


def duplicate(st, p):
    q = st.alloc(TREE, "copy")
    fill(st, q, p)
    return q


def fill(st, q, p):
    for n, v in below(st, p).items():
        setcell(st, q, slot(n), duplicate(st, v) if isinstance(v, Ptr) else v)


def element(L, attrs):
    """an element with these attributes and children (dicts), and no other"""
    p = L.st.alloc(TREE, "element")
    for k, v in attrs.items():
        setcell(L.st, p, slot(k), element(L, v) if isinstance(v, dict) else v)
    return p


def document(L, p, attrs, name=""):
    """the element p holds exactly this"""
    have = below(L.st, p)
    for k in sorted(set(have) | set(attrs)):
        v, w = have.get(k), attrs.get(k)
        if v is None or w is None:
            L.holds("%s%s is %s" % (name, k, "absent" if w is None else "present"), TRUE if v is w else FALSE)
        elif isinstance(v, Ptr) or isinstance(w, dict):
            if not (isinstance(v, Ptr) and isinstance(w, dict)):
                L.holds("%s%s is an element" % (name, k), FALSE)
            else:
                document(L, v, w, name + k + ".")
        elif isinstance(v, tuple) or isinstance(w, tuple):
            if not (isinstance(v, tuple) and isinstance(w, tuple)):
                L.holds("%s%s has three numbers" % (name, k), FALSE)
            else:
                for i in range(3):
                    L.holds("%s%s[%d]" % (name, k, i), eq(tm.lift(v[i]), tm.lift(w[i])))
        else:
            v, w = tm.lift(v), tm.lift(w)
            L.holds("%s%s" % (name, k), eq(v, w) if v.sort == w.sort else FALSE)


# ------------------------------------------------------------------ handlers
def get_in(ex, st, a):
    p = find(st, a[0], path_of(st, a[1]))
    if p is None:
        return [Outcome("throw", st, None, BAD_PATH)]
    return value(ex, st, [p])


def value(ex, st, a):
    v = cell(st, a[0], 0)
    if not isinstance(v, tm.T) or v.sort != "R":
        raise Unsupported("an attribute which is not a number")
    return ex.ret(st, v)


def get_maybe(ex, st, a):
    p = find(st, a[0], path_of(st, a[1]))
    return ex.ret(st, [0, tm.fresh("unset", "R")] if p is None else [1, cell(st, p, 0)])


def get_text(ex, st, a):
    p = find(st, a[1], path_of(st, a[2]))
    if p is None:
        return [Outcome("throw", st, None, BAD_PATH)]
    setcell(st, a[0], 0, cell(st, p, 0), 32)
    return ex.ret(st, None)


def child_maybe(ex, st, a):
    p = find(st, a[1], path_of(st, a[2]))
    setcell(st, a[0], 0, symex.NULL if p is None else p)
    return ex.ret(st, None)


def store3(st, p, v):
    if not isinstance(v, tuple):
        raise Unsupported("an attribute which is not three numbers")
    for i in range(3):
        setcell(st, p, 8 * i, v[i])


def load3(st, p):
    v = tuple(cell(st, p, 8 * i) for i in range(3))
    if None in v:
        raise Unsupported("three numbers which are not known")
    return tuple(tm.lift(x) for x in v)


def value3(ex, st, a):
    store3(st, a[0], cell(st, a[1], 0))
    return ex.ret(st, None)


def get3(ex, st, a):
    p = find(st, a[1], path_of(st, a[2]))
    if p is None:
        return [Outcome("throw", st, None, BAD_PATH)]
    return value3(ex, st, [a[0], p])


def get3_or(ex, st, a):
    p = find(st, a[1], path_of(st, a[2]))
    if p is None:
        store3(st, a[0], load3(st, a[3]))
        return ex.ret(st, None)
    return value3(ex, st, [a[0], p])


def set_in(read):
    def h(ex, st, a):
        v = read(ex, st, a[2])
        if v is None:
            raise Unsupported("put of an unknown value")
        p, n = place(st, a[0], path_of(st, a[1]))
        setcell(st, p, slot(n), v)
        return ex.ret(st, p)
    return h


def tree_new(ex, st, a):
    clear(st, a[0])
    return ex.ret(st, None)


def tree_copy(ex, st, a):
    if a[0] != a[1]:
        clear(st, a[0])
        fill(st, a[0], a[1])
    return ex.ret(st, a[0])


def erase(ex, st, a):
    v = cell(st, a[1], 0)
    n = {i: t for t, i in TEXT.items()}.get(int(v.data)) if tm.isc(v) else None
    if n is None or "." in n:
        raise Unsupported("erase of an unknown name")
    was = cell(st, a[0], slot(n))
    st.wblock(a[0].blk).cells.pop(a[0].off + slot(n), None)
    return ex.ret(st, const(0 if was is None else 1, "I"))


def get_child(ex, st, a):
    p = find(st, a[0], path_of(st, a[1]))
    return [Outcome("throw", st, None, BAD_PATH)] if p is None else ex.ret(st, p)


def path_new(ex, st, a):
    setcell(st, a[0], 0, ("path", literal(ex, st, a[1])))
    return ex.ret(st, None)


def path_of(st, p):
    v = cell(st, p, 0)
    if not (isinstance(v, tuple) and v[0] == "path"):
        raise Unsupported("a path which is not a literal")
    return v[1]


def noop(ex, st, a):
    return ex.ret(st, None)


def first(ex, st, a):
    return ex.ret(st, a[0])


def get(ex, st, a):
    v = cell(st, a[0], slot(path_of(st, a[1])))
    if v is None:
        return [Outcome("throw", st, None, BAD_PATH)]
    return ex.ret(st, v)


def get_or(ex, st, a):
    v = cell(st, a[0], slot(path_of(st, a[1])))
    return ex.ret(st, symex.as_flag(cell(st, a[2], 0)) if v is None else v)


def get_str(ex, st, a):
    v = cell(st, a[1], slot(path_of(st, a[2])))
    if v is None:
        return [Outcome("throw", st, None, BAD_PATH)]
    setcell(st, a[0], 0, v, 32)
    return ex.ret(st, None)


def put(size, conv=lambda v: v):
    def h(ex, st, a):
        v = cell(st, a[2], 0)
        if v is None:
            raise Unsupported("put of an unknown value")
        setcell(st, a[0], slot(path_of(st, a[1])), conv(v))
        return ex.ret(st, a[0])
    return h


def str_new(ex, st, a):
    setcell(st, a[0], 0, text(literal(ex, st, a[1])), 32)
    return ex.ret(st, None)


def str_copy(ex, st, a):
    v = cell(st, a[1], 0)
    if v is None:
        raise Unsupported("copy of an unknown string")
    setcell(st, a[0], 0, v, 32)
    return ex.ret(st, a[0])


def str_val(ex, st, p, lit):
    if lit:
        return text(literal(ex, st, p))
    v = cell(st, p, 0)
    if v is None:
        raise Unsupported("comparison of an unknown string")
    return v


def str_cmp(neg, lit):
    def h(ex, st, a):
        c = eq(str_val(ex, st, a[0], False), str_val(ex, st, a[1], lit))
        return ex.ret(st, not_(c) if neg else c)
    return h


def compare(lit):
    def h(ex, st, a):
        c = eq(str_val(ex, st, a[0], False), str_val(ex, st, a[1], lit))
        return ex.ret(st, tm.ite(c, const(0, "I"), const(1, "I")))
    return h


def put_text(ex, st, a):
    setcell(st, a[0], slot(path_of(st, a[1])), text(literal(ex, st, a[2])))
    return ex.ret(st, a[0])


def unknown(ex, st, a):
    raise Unsupported("a string operation which has no model")


STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>"
PT = r"boost::property_tree::basic_ptree<%s, %s, std::less<%s ?> ?>" % (STR, STR, STR)
PATH = r"boost::property_tree::string_path<%s, boost::property_tree::id_translator<%s ?> ?>" % (STR, STR)
MODEL = (
    ("^%s::string_path\\(char const\\*, char, " % PATH, path_new),
    ("^%s::~string_path\\(\\)" % PATH, noop),
    (r"^(int|double|float|bool) %s::get<(int|double|float|bool)>\(%s const&\) const" % (PT, PATH), get),
    (r"%s::get<bool>\(%s const&, bool const&\) const" % (PT, PATH), get_or),
    (r"^%s %s::get<%s ?>\(%s const&\) const" % (STR, PT, STR, PATH), get_str),
    (r"%s::put<(int|double|float)>\(%s const&, (int|double|float) const&\)" % (PT, PATH), put(8)),
    (r"%s::put<bool>\(%s const&, bool const&\)" % (PT, PATH), put(8, symex.as_flag)),
    (r"%s::put<%s ?>\(%s const&, %s const&\)" % (PT, STR, PATH, STR), put(8)),
    (r"^%s::basic_string<std::allocator<char> ?>\(char const\*, std::allocator<char> const&\)" % STR, str_new),
    (r"^%s::basic_string\(%s(&&| const&)\)" % (STR, STR), str_copy),
    (r"^%s::operator=\(%s(&&| const&)\)" % (STR, STR), str_copy),
    (r"^%s::~basic_string\(\)" % STR, noop),
    (r"^%s::compare\(char const\*\) const" % STR, compare(True)),
    (r"^%s::compare\(%s const&\) const" % (STR, STR), compare(False)),
    (r"%s::put<char ?\[\d+\]>\(%s const&, char const \(&\) ?\[\d+\]\)" % (PT, PATH), put_text),
    (r"^bool std::operator==<char, .*>\(%s const&, char const\*\)" % STR, str_cmp(False, True)),
    (r"^bool std::operator!=<char, .*>\(%s const&, char const\*\)" % STR, str_cmp(True, True)),
    (r"^bool std::operator==<char.*>\(%s const&, %s const&\)" % (STR, STR), str_cmp(False, False)),
    (r"^bool std::operator!=<char.*>\(%s const&, %s const&\)" % (STR, STR), str_cmp(True, False)),
    (r"^%s::" % STR, unknown),
)
A3 = r"std::array<double, 3ul>"
TRANS = r"AL::urdf::Array3dTranslator"
NESTED = (
    (r"^double %s::get<double>\(%s const&\) const" % (PT, PATH), get_in),
    (r"^double %s::get_value<double>\(\) const" % PT, value),
    (r"^boost::optional<double> %s::get_optional<double>\(" % PT, get_maybe),
    (r"^%s %s::get<%s ?>\(%s const&\) const" % (STR, PT, STR, PATH), get_text),
    (r"^%s::get_child_optional\(%s const&\) const" % (PT, PATH), child_maybe),
    (r"^%s::get_child\(%s const&\)" % (PT, PATH), get_child),
    (r"type %s::get_value<%s, %s>\(%s\) const" % (PT, A3, TRANS, TRANS), value3),
    (r"type %s::get<%s, %s>\(%s const&, %s\) const" % (PT, A3, TRANS, PATH, TRANS), get3),
    (r"^%s %s::get<%s, %s>\(%s const&, %s const&, %s\) const" % (A3, PT, A3, TRANS, PATH, A3, TRANS), get3_or),
    (r"%s::put<%s, %s>\(" % (PT, A3, TRANS), set_in(lambda ex, st, p: load3(st, p))),
    (r"%s::put<double>\(%s const&, double const&\)" % (PT, PATH), set_in(lambda ex, st, p: cell(st, p, 0))),
    (r"%s::put<%s ?>\(%s const&, %s const&\)" % (PT, STR, PATH, STR), set_in(lambda ex, st, p: cell(st, p, 0))),
    (r"%s::put<char ?\[\d+\]>\(%s const&, char const \(&\) ?\[\d+\]\)" % (PT, PATH), set_in(lambda ex, st, p: text(literal(ex, st, p)))),
    (r"^%s::put_child\(%s const&, %s const&\)" % (PT, PATH, PT), set_in(lambda ex, st, p: duplicate(st, p))),
    (r"^%s::basic_ptree\(\)" % PT, tree_new),
    (r"^%s::basic_ptree\(%s const&\)" % (PT, PT), tree_copy),
    (r"^%s::operator=\(%s const&\)" % (PT, PT), tree_copy),
    (r"^%s::~basic_ptree\(\)" % PT, noop),
    (r"^%s::erase\(%s const&\)" % (PT, STR), erase),
) + MODEL
