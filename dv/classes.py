"""Contracts assumed for the Trilinos / framework objects that the material,
damage, contact and compute classes talk to, and a harness that evaluates a
constructor followed by a sequence of member functions."""
import re

from . import extract, models
from . import terms as T
from .ir import Unsupported
from .sym import Exec, Ptr, CPtr, NULL, FnPtr, UNDEF, Agg, Eff, var_id
from .terms import *
from .terms import _byid

STEPS = {1: "", 2: "@N", 3: "@NP1"}


class StrV:
    """contents of a std::string"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, StrV) and o.s == self.s

    def __hash__(self):
        return hash(("StrV", self.s))

    def __repr__(self):
        return "StrV(%r)" % self.s


def cstr(ex, p):
    """literal behind a const char*"""
    if isinstance(p, Ptr) and p.region and p.region.startswith("@"):
        nm = p.region[1:]
        for m in [p0 for p0 in ex.mods]:
            g = m.globals.get(nm)
            if g:
                mm = re.search(r'c"((?:[^"\\]|\\[0-9A-Fa-f]{2})*)"', g)
                if mm:
                    s = re.sub(r"\\([0-9A-Fa-f]{2})", lambda z: chr(int(z.group(1), 16)), mm.group(1))
                    return s.split("\0")[0]
                if "zeroinitializer" in g:
                    return ""
    raise Unsupported("string literal behind %r" % (p,))


def strval(ex, p):
    if isinstance(p, CPtr):
        raise Unsupported("conditional string")
    v = ex.read(p.region, ex.index(p))
    if isinstance(v, StrV):
        return v.s
    raise Unsupported("unknown string at %r" % (p,))


def put_str(ex, p, s):
    ex.mem[p.region].append(Eff([], ex.guard, ex.index(p), 0, StrV(s)))


def h_str_ctor(ex, name, a, i):
    put_str(ex, a[0], cstr(ex, a[1]))
    return UNDEF


def h_str_copy(ex, name, a, i):
    put_str(ex, a[0], strval(ex, a[1]))
    return a[0]


def h_str_assign(ex, name, a, i):
    put_str(ex, a[0], cstr(ex, a[1]))
    return a[0]


def h_str_default(ex, name, a, i):
    put_str(ex, a[0], "")
    return UNDEF


def h_str_eq_c(ex, name, a, i):
    return ONE if strval(ex, a[0]) == cstr(ex, a[1]) else ZERO


def h_str_eq_s(ex, name, a, i):
    return ONE if strval(ex, a[0]) == strval(ex, a[1]) else ZERO


def h_str_cmp(ex, name, a, i):
    x, y = strval(ex, a[0]), cstr(ex, a[1])
    return P((x > y) - (x < y))


def h_str_find(ex, name, a, i):
    return P(strval(ex, a[0]).find(cstr(ex, a[1]), int(a[2].const())))


# run-time compiled functions of the Trilinos RTC library (external): after execute, the output variable holds an
# uninterpreted function of the text and of the values filled in, in the order of the declared variables
def rtc(ex, p):
    return ex.__dict__.setdefault("rtc_state", {}).setdefault((p.region, str(p.off)), {"vars": [], "vals": {}, "body": "", "out": {}})


def h_rtc_var(ex, name, a, i):
    rtc(ex, a[0])["vars"].append(strval(ex, a[2]))
    return ONE


def h_rtc_body(ex, name, a, i):
    rtc(ex, a[0])["body"] = strval(ex, a[1])
    return ONE


def h_rtc_fill(ex, name, a, i):
    rtc(ex, a[0])["vals"][int(a[1].const())] = a[2]
    return ONE


def h_rtc_exec(ex, name, a, i):
    st = rtc(ex, a[0])
    args = [st["vals"].get(k, ZERO) for k in range(len(st["vars"]))]
    for k, v in enumerate(st["vars"]):
        st["out"][v] = fn("rtc:%s:%s" % (v, st["body"]), *args)
    return ONE


def h_rtc_get(ex, name, a, i):
    st = rtc(ex, a[0])
    return st["out"][strval(ex, a[1])]


def h_str_append(ex, name, a, i):
    try:
        s = strval(ex, a[0])
    except Unsupported:
        s = "?"
    try:
        t = cstr(ex, a[1])
    except Unsupported:
        try:
            t = strval(ex, a[1])
        except Unsupported:
            t = "?"
    put_str(ex, a[0], s + t)
    return a[0]


def h_str_plus(ex, name, a, i):
    """operator+: result object, left, right"""
    out = ""
    for x in a[1:3]:
        try:
            out += cstr(ex, x)
        except Unsupported:
            try:
                out += strval(ex, x)
            except Unsupported:
                out += "?"
    put_str(ex, a[0], out)
    return UNDEF


def h_stream_ctor(ex, name, a, i):
    put_str(ex, a[0], "")
    return UNDEF


def h_stream_c(ex, name, a, i):
    if isinstance(a[0], Ptr) and a[0].region and not a[0].region.startswith("@"):
        put_str(ex, a[0], strval(ex, a[0]) + cstr(ex, a[1]))
    return a[0]


def h_stream_i(ex, name, a, i):
    if isinstance(a[0], Ptr) and a[0].region and not a[0].region.startswith("@"):
        c = a[1].const() if isinstance(a[1], Poly) else None
        put_str(ex, a[0], strval(ex, a[0]) + ("?" if c is None else str(int(c))))
    return a[0]


def h_stream_str(ex, name, a, i):
    put_str(ex, a[0], strval(ex, a[1]))
    return UNDEF


def h_pl_copy(ex, name, a, i):
    ex.plalias[a[0].region] = pl_path(ex, a[1])
    return UNDEF


def h_map_insert(ex, name, a, i):
    """map<string, T>::operator[]: the cell of that key"""
    r = "map:%s+%s:%s" % (a[0].region, show(a[0].off), strval(ex, a[1]))
    if r not in ex.regions:
        ex.obj(r)
    return Ptr(r, ZERO)


def h_vec_copyctor(ex, name, a, i):
    p = a[0]
    src = data_of(ex, a[1])
    r = "copy:%d:%s" % (ex.ncopies, src)
    ex.ncopies += 1
    ex.array(r)
    ex.regions[r].heap = True
    assign_all(ex, r, snap_reader(ex, src), [snap(ex, src)])
    ex.regions[p.region].data = r
    return UNDEF


def h_getmap(ex, name, a, i):
    if "MAP" not in ex.regions:
        ex.obj("MAP")
    store_rcp(ex, a[0], Ptr("MAP", ZERO))
    return UNDEF


def h_set(ex, name, a, i):
    n = pl_path(ex, a[0]) + strval(ex, a[1])
    v = ex.read(a[2].region, ex.index(a[2]))
    ex.cfg["present"][n] = 1
    ex.params_set.add(n)
    ex.cfg["values"].pop(n, None)
    ask = n in ex.params_read
    p = param_cell(ex, n, "d", v)
    ex.store(p, v)
    if not ask:
        ex.params_read.discard(n)
    return a[0]


def h_str_cmp_s(ex, name, a, i):
    x, y = strval(ex, a[0]), strval(ex, a[1])
    return P((x > y) - (x < y))


def h_comm(ex, name, a, i):
    """the communicator: an object whose virtual functions are assumed (single process)"""
    if "COMM" not in ex.regions:
        ex.obj("COMM")
        ex.regions["COMM"].vtype = "Epetra_Comm"
    return Ptr("COMM", ZERO)


def h_virt_comm(ex, name, a, i):
    return ZERO


def h_pid(ex, name, a, i):
    return ZERO


def pl_path(ex, p):
    r = p.region
    if r in ex.plalias:
        return ex.plalias[r]
    return r[3:] + "/" if r.startswith("PL/") else ""


def pname(ex, a):
    return pl_path(ex, a[0]) + strval(ex, a[1])


def h_isparam(ex, name, a, i):
    n = pname(ex, a)
    ex.params_asked.add(n)
    v = ex.cfg.get("present", {})
    if n in v:
        return ONE if v[n] else ZERO
    return ONE if n in ex.cfg.get("values", {}) else ZERO


def h_issub(ex, name, a, i):
    return ONE if pname(ex, a) in ex.cfg.get("sublists", ()) else ZERO


def h_sublist(ex, name, a, i):
    n = "PL/" + pname(ex, a)
    if n not in ex.regions:
        ex.obj(n)
    return Ptr(n, ZERO)


def param_cell(ex, n, kind, dflt=None):
    """pointer to the cell holding the named parameter"""
    ex.params_read.add(n)
    r = "param:" + n
    if r not in ex.regions:
        ex.obj(r)
        vals = ex.cfg.get("values", {})
        if n in vals:
            v = vals[n]
            v = StrV(v) if isinstance(v, str) else (ONE if v is True else ZERO if v is False else P(v))
        elif dflt is not None:
            v = dflt
        elif kind == "d":
            v = sym("p:" + n)
        elif kind == "i":
            v = sym("p:" + n, True)
        elif kind == "b":
            v = ZERO
        else:
            raise Unsupported("string parameter %s has no value in the contract" % n)
        ex.mem[r].append(Eff([], ONE, ZERO, 0, v))
    return Ptr(r, ZERO)


def h_get(ex, name, a, i):
    k = re.search(r"ParameterList3getI(\w+?)EE", name).group(1)
    kind = {"d": "d", "i": "i", "b": "b"}.get(k[0], "s")
    return param_cell(ex, pname(ex, a), kind)


def h_get_default(ex, name, a, i):
    """get(name, default)"""
    n = pl_path(ex, a[0]) + strval(ex, a[1])
    vals = ex.cfg.get("values", {})
    if n in vals:
        return param_cell(ex, n, "d")
    if "ParameterList3getIS" in name or "basic_string" in name.split("ParameterList3getI")[1][:60]:
        pass
    if ex.cfg.get("present", {}).get(n):
        return param_cell(ex, n, re.search(r"3getI(\w)", name).group(1))
    ex.params_defaulted.add(n)
    if isinstance(a[2], Poly):
        return param_cell(ex, n, "d", a[2])
    v = ex.read(a[2].region, ex.index(a[2]))
    return param_cell(ex, n, "d", v)


def h_fm_self(ex, name, a, i):
    if "FieldManager" not in ex.regions:
        ex.obj("FieldManager")
    return Ptr("FieldManager", ZERO)


def field_id(ex, n):
    d = ex.fields
    if n not in d:
        d[n] = len(d) + 1
    return P(d[n])


def h_field4(ex, name, a, i):
    n = strval(ex, a[4])
    spec = tuple(int(x.const()) for x in a[1:4])
    ex.field_specs.setdefault(n, set()).add(spec)
    return field_id(ex, n)


# fields a class looks up by name only: the specification they are registered with elsewhere in the code
NODE, ELEMENT, GLOBAL, SCALAR, VECTOR, CONSTANT, TWO_STEP = 1, 2, 4, 10, 11, 1, 2
KNOWN_FIELDS = {"Model_Coordinates": (NODE, VECTOR, CONSTANT), "Coordinates": (NODE, VECTOR, TWO_STEP), "Displacement": (NODE, VECTOR, TWO_STEP),
                "Velocity": (NODE, VECTOR, TWO_STEP), "Acceleration": (NODE, VECTOR, TWO_STEP), "Force_Density": (NODE, VECTOR, TWO_STEP),
                "Contact_Force_Density": (NODE, VECTOR, TWO_STEP), "External_Force_Density": (NODE, VECTOR, TWO_STEP), "Volume": (ELEMENT, SCALAR, CONSTANT)}


def h_field1(ex, name, a, i):
    n = strval(ex, a[1])
    if n not in ex.field_specs and n in KNOWN_FIELDS:
        ex.field_specs[n] = {KNOWN_FIELDS[n]}
    return field_id(ex, n)


def vec_obj(ex, r):
    """object standing for an Epetra vector whose values are region r"""
    o = "vec:" + r
    if o not in ex.regions:
        ex.obj(o)
        ex.regions[o].data = r
    if r not in ex.regions:
        ex.array(r)
    return Ptr(o, ZERO)


def field_name(ex, p):
    c = p.const()
    for n, k in ex.fields.items():
        if c == k:
            return n
    raise Unsupported("field id %s is not a literal field" % p)


def store_rcp(ex, sret, p):
    ex.store(sret, p)
    ex.store(Ptr(sret.region, sret.off + 8), NULL)
    ex.store(Ptr(sret.region, sret.off + 16), P(1))


def h_getdata(ex, name, a, i):
    n = field_name(ex, a[2])
    st = a[3].const()
    if st is None or int(st) not in STEPS:
        raise Unsupported("time step argument %s" % a[3])
    dm = a[1].region
    pre = ex.dm_prefix.get(dm, "")
    r = pre + n + STEPS[int(st)]
    ex.data_used.add((n, int(st)))
    store_rcp(ex, a[0], vec_obj(ex, r))
    return UNDEF


def data_of(ex, p):
    if not isinstance(p, Ptr):
        raise Unsupported("vector %r" % (p,))
    d = getattr(ex.regions[p.region], "data", None)
    if d is None:
        raise Unsupported("values of unknown vector %s" % p.region)
    return d


def h_extract(ex, name, a, i):
    ex.store(a[1], Ptr(data_of(ex, a[0]), ZERO))
    return ZERO


def assign_all(ex, r, f, lin=None):
    """whole-vector assignment; lin: [(coefficient, region, effects so far)] when the new value is such a combination"""
    if ex.binders:
        raise Unsupported("whole-vector assignment inside a loop")
    e = Eff([], ex.guard, ZERO, 0, f)
    e.kind = "all"
    e.lin = lin
    ex.mem[r].append(e)


def h_putscalar(ex, name, a, i):
    v = a[1]
    assign_all(ex, data_of(ex, a[0]), lambda idx, v=v: v)
    return ZERO


def snap_reader(ex, r):
    snap = list(ex.mem[r])

    def f(idx):
        save = ex.mem[r]
        ex.mem[r] = snap
        try:
            return ex.read(r, idx)
        finally:
            ex.mem[r] = save
    return f


def snap(ex, r, c=ONE):
    return (c, r, list(ex.mem[r]))


def h_vec_assign(ex, name, a, i):
    r = data_of(ex, a[1])
    assign_all(ex, data_of(ex, a[0]), snap_reader(ex, r), [snap(ex, r)])
    return a[0]


def h_vec_scale(ex, name, a, i):
    f = snap_reader(ex, data_of(ex, a[0]))
    c = a[1]
    assign_all(ex, data_of(ex, a[0]), lambda idx: c * f(idx), [snap(ex, data_of(ex, a[0]), c)])
    return ZERO


def h_vec_update(ex, name, a, i):
    """this = alpha*A + beta*this"""
    f = snap_reader(ex, data_of(ex, a[0]))
    g = snap_reader(ex, data_of(ex, a[2]))
    al, be = a[1], a[3]
    assign_all(ex, data_of(ex, a[0]), lambda idx: al * g(idx) + be * f(idx), [snap(ex, data_of(ex, a[0]), be), snap(ex, data_of(ex, a[2]), al)])
    return ZERO


def h_vec_update2(ex, name, a, i):
    """this = alpha*A + beta*B + gamma*this"""
    t, A, B = (data_of(ex, a[k]) for k in (0, 2, 4))
    f, g, h = snap_reader(ex, t), snap_reader(ex, A), snap_reader(ex, B)
    al, be, ga = a[1], a[3], a[5]
    assign_all(ex, t, lambda idx: al * g(idx) + be * h(idx) + ga * f(idx), [snap(ex, t, ga), snap(ex, A, al), snap(ex, B, be)])
    return ZERO


def h_vec_index(ex, name, a, i):
    return Ptr(data_of(ex, a[0]), a[1].scale(8))


def h_vec_len(ex, name, a, i):
    r = data_of(ex, a[0])
    T.NONNEG.add("len:" + r)
    return sym("len:" + r, True)


def h_influence(ex, name, a, i):
    return models.OMEGA


def h_influence_self(ex, name, a, i):
    if "InfluenceFunction" not in ex.regions:
        ex.obj("InfluenceFunction")
    return Ptr("InfluenceFunction", ZERO)


def h_push(ex, name, a, i):
    v = ex.load(a[1], T_I32)
    ex.pushed.setdefault((a[0].region, a[0].off), []).append(v)
    return UNDEF


def any_name(ex, region):
    """arbitrary contents given to a region: any:<region>, then any2:<region>, ..."""
    d = ex.__dict__.setdefault("nabs", {})
    d[region] = d.get(region, 0) + 1
    return "any%s:%s" % ("" if d[region] == 1 else d[region], region)


def abstracted(rx, outs, ret=ZERO):
    """callee replaced by its frame: the vectors behind the arguments `outs` become arbitrary"""
    def h(ex, name, a, i):
        for k in outs:
            if not isinstance(a[k], Ptr) or a[k].region is None:
                continue
            r = any_name(ex, a[k].region)
            assign_all(ex, a[k].region, lambda idx, r=r: rd(r, idx), [(ONE, r, [])])
        ex.assumed.add("callee represented by its frame only: " + re.sub(r"^_ZN?K?", "", name)[:90])
        return ret
    return (re.compile(rx), h)


def by_contract(rx, outs, ret=ZERO):
    """callee replaced by its (separately proved) contract: entry idx behind argument k becomes outs[k](idx)"""
    def h(ex, name, a, i):
        for k, f in outs.items():
            assign_all(ex, a[k].region, f, None)
        ex.assumed.add("callee represented by its contract: " + re.sub(r"^_ZN?K?", "", name)[:90])
        return ret
    return (re.compile(rx), h)


def abstracted_fields(rx, fields, ret=UNDEF):
    """member function replaced by its frame, given as data manager fields"""
    def h(ex, name, a, i):
        for f in fields:
            if f not in ex.regions:
                ex.array(f)
            r = any_name(ex, f)
            assign_all(ex, f, lambda idx, r=r: rd(r, idx), [(ONE, r, [])])
        ex.assumed.add("callee represented by its frame only: " + re.sub(r"^_ZN?K?", "", name)[:90])
        return ret
    return (re.compile(rx), h)


def h_guard(ex, name, a, i):
    """initialisation of a function-local static object: runs on the first visit"""
    done = ex.__dict__.setdefault("static_done", set())
    key = (a[0].region, str(a[0].off))
    if key in done:
        return ZERO
    done.add(key)
    return ONE


def h_void(ex, name, a, i):
    return UNDEF


from .ir import Ty
T_I32 = Ty("int", 32)
T_D = Ty("double")

S = r"NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
HANDLERS = [(re.compile(rx), h) for rx, h in [
    (r"^__cxa_guard_acquire$", h_guard),
    (r"^_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE4findEPKcm$", h_str_find),
    (r"^_ZN18PG_RuntimeCompiler8Function6addVarE", h_rtc_var),
    (r"^_ZN18PG_RuntimeCompiler8FunctionC[12]E", h_void),
    (r"^_ZN18PG_RuntimeCompiler8Function7addBodyE", h_rtc_body),
    (r"^_ZN18PG_RuntimeCompiler8Function12varValueFillEjd", h_rtc_fill),
    (r"^_ZN18PG_RuntimeCompiler8Function7executeE", h_rtc_exec),
    (r"^_ZN18PG_RuntimeCompiler8Function13getValueOfVarE", h_rtc_get),
    (r"^__cxa_guard_release$|^__cxa_atexit$", h_void),
    (r"^_Z" + S + r"C[12]IS3_EEPKcRKS3_$", h_str_ctor),
    (r"^_Z" + S + r"C[12]EPKcRKS3_$", h_str_ctor),
    (r"^_Z" + S + r"C[12](ERKS4_|EOS4_)$", h_str_copy),
    (r"^_Z" + S + r"C[12]Ev$", h_str_default),
    (r"^_Z" + S + r"D[12]Ev$", h_void),
    (r"^_Z" + S + r"aSE(RKS4_|OS4_)$", h_str_copy),
    (r"^_Z" + S + r"aSEPKc$", h_str_assign),
    (r"^_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareEPKc$", h_str_cmp),
    (r"^_ZSteqIcSt11char_traitsIcESaIcEEbRK" + S[0:0] + r"NSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_$", h_str_eq_c),
    (r"^_ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EESA_$", h_str_eq_s),
    (r"^_ZSteqIcEN", h_str_eq_s),
    (r"^_ZN(K?)7Teuchos13ParameterList11isParameterERK", h_isparam),
    (r"^_ZNK7Teuchos13ParameterList9isSublistERK", h_issub),
    (r"^_ZN(K?)7Teuchos13ParameterList7sublistERK", h_sublist),
    (r"^_ZN(K?)7Teuchos13ParameterList3getI\w+EERK?T_RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE$", h_get),
    (r"^_ZN(K?)7Teuchos13ParameterList3getINSt7__cxx1112basic_string\w+EERK?T_RKS\w_$", h_get),
    (r"^_ZN(K?)7Teuchos13ParameterList3getI\w+EERK?T_RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES", h_get_default),
    (r"^_ZN7Teuchos13ParameterList3setI[dib]E", h_set),
    (r"^_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareERKS4_$", h_str_cmp_s),
    (r"^_ZNK15Epetra_BlockMap4CommEv$", h_comm),
    (r"^virt:Epetra_Comm:", h_virt_comm),
    (r"^_ZN7Teuchos3RCPI.*ED2Ev$", h_void),
    (r"^_ZN10PeridigmNS12FieldManager4selfEv$", h_fm_self),
    (r"^_ZN10PeridigmNS12FieldManager10getFieldIdENS_13PeridigmField8Relation", h_field4),
    (r"^_ZN10PeridigmNS12FieldManager10getFieldIdENSt7", h_field1),
    (r"^_ZN10PeridigmNS11DataManager7getDataEiNS_13PeridigmField4StepE$", h_getdata),
    (r"^_ZNK13Epetra_Vector11ExtractViewEPPd$", h_extract),
    (r"^_ZN18Epetra_MultiVector9PutScalarEd$", h_putscalar),
    (r"^_ZN18Epetra_MultiVectoraSERKS_$|^_ZN13Epetra_VectoraSERKS_$", h_vec_assign),
    (r"^_ZN18Epetra_MultiVector5ScaleEd$", h_vec_scale),
    (r"^_ZN18Epetra_MultiVector6UpdateEdRKS_d$", h_vec_update),
    (r"^_ZN18Epetra_MultiVector6UpdateEdRKS_dS1_d$", h_vec_update2),
    (r"^_ZNK?13Epetra_VectorixEi$", h_vec_index),
    (r"^_ZNK18Epetra_MultiVector8MyLengthEv$", h_vec_len),
    (r"^_ZN10PeridigmNS17InfluenceFunction4selfEv$", h_influence_self),
    (r"^_ZN10PeridigmNS17InfluenceFunction20getInfluenceFunctionEv$", h_influence),
    (r"^_ZNSt6vectorIiSaIiEE9push_backE(RKi|Oi)$", h_push),
    (r"^_ZNSt6vectorIiSaIiEED2Ev$", h_void),
    (r"^_ZN10PeridigmNS\w+MaterialD[012]Ev$", h_void),
    (r"^_Z" + S + r"(9_M_append|6append|pL)E", h_str_append),
    (r"^_ZStplI", h_str_plus),
    (r"^_ZNSt7__cxx111\d+basic_(o|i|)stringstreamIcSt11char_traitsIcESaIcEEC[12]E", h_stream_ctor),
    (r"^_ZNSt7__cxx111\d+basic_(o|i|)stringstreamIcSt11char_traitsIcESaIcEED[12]E", h_void),
    (r"^_ZNKSt7__cxx111\d+basic_(o|i|)stringstreamIcSt11char_traitsIcESaIcEE3strEv", h_stream_str),
    (r"^_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc$", h_stream_c),
    (r"^_ZNSolsE[ijlmd]$", h_stream_i),
    (r"^_ZN7Teuchos13ParameterListC[12]ERKS0_$", h_pl_copy),
    (r"^_ZN7Teuchos13ParameterListD[12]Ev$", h_void),
    (r"^_ZN7Teuchos13ParameterListC[12]E(NS|v|RKNSt)", h_void),
    (r"^_ZN7Teuchos13ParameterListaSERKS0_$", h_pl_copy),
    (r"^_ZNSt3mapINSt7__cxx1112basic_string.*ix(ERKS|ERS|EOS)\w*_$", h_map_insert),
    (r"^_ZN13Epetra_VectorC[12]ERKS_$", h_vec_copyctor),
    (r"^_ZN13Epetra_VectorD[12]Ev$", h_void),
    (r"^_ZNK?10PeridigmNS11DataManager\d+getO\w+MapEv$", h_getmap),
]]


SIGNATURE = "dt N own L DM"


class Class:
    """a class of /repo evaluated from its constructor on"""

    def __init__(self, cls, tus, cfg=None, bases=()):
        self.cls, self.tus, self.cfg = cls, tus, dict(cfg or {})
        self.bases = list(bases)

    def exec(self, handlers=()):
        mods = [extract.module(t) for t in self.tus]
        ex = Exec(mods)
        ex.handlers = list(handlers) + HANDLERS + ex.handlers
        ex.cfg = {k: dict(v) if isinstance(v, dict) else v for k, v in self.cfg.items()}
        ex.cfg.setdefault("present", {})
        ex.cfg.setdefault("values", {})
        ex.params_asked, ex.params_read, ex.params_set = set(), set(), set()
        ex.fields, ex.field_specs, ex.data_used = {}, {}, set()
        ex.pushed = {}
        ex.params_defaulted = set()
        ex.dm_prefix = {}
        ex.plalias = {}
        ex.ncopies = 0
        ex.nlist("L")
        T.NONNEG.add("N")
        ex.array("own", isint=True)
        ex.obj("DM")
        ex.obj("this")
        ex.obj("PL")
        return ex

    def fn(self, ex, name, nparams=None, sel=None):
        for cls, m in [(c, m) for c in [self.cls] + self.bases for m in ex.mods]:
            c = [(n, d) for n, d in extract.find(m, cls + "::" + name)]
            if sel:
                c = [(n, d) for n, d in c if sel(d)]
            if nparams is not None:
                c = [(n, d) for n, d in c if len(m.function(n).params) == nparams]
            if len(c) > 1:
                c2 = [x for x in c if "C2" in x[0]]
                c = c2 or c
            if len(c) == 1:
                return m, m.function(c[0][0])
            if len(c) > 1:
                raise Unsupported("%d candidates for %s::%s" % (len(c), self.cls, name))
        raise Unsupported("no definition of %s::%s" % (self.cls, name))

    def call(self, ex, name, args, nparams=None, sel=None):
        m, f = self.fn(ex, name, nparams, sel)
        save = ex.mods
        ex.mods = [m] + [x for x in ex.mods if x is not m]
        try:
            return ex.run_function(f, args)
        finally:
            ex.mods = save

    def construct(self, ex):
        base = self.cls.split("::")[-1]
        self.call(ex, base, [Ptr("this", ZERO), Ptr("PL", ZERO)], 2)

    def compute(self, ex, name, dt=None, **kw):
        """member function; its arguments are named by sig (default: the usual material/damage/contact signature)"""
        val = {"dt": sym("dt") if dt is None else dt, "N": sym("N", True), "own": Ptr("own", ZERO), "L": Ptr("L", ZERO), "DM": Ptr("DM", ZERO)}
        args = [self.byref(ex, t[1:]) if t[0] == "&" else self.rcp(ex, t[1:]) if t[0] == "%" else val[t] if t in val else sym(t) for t in kw.get("sig", SIGNATURE).split()]
        return self.call(ex, name, [Ptr("this", ZERO)] + args, 1 + len(args))

    @staticmethod
    def rcp(ex, n):
        """a reference-counted pointer to the object n"""
        r, o = "@rcp:" + n, "@obj:" + n
        if r not in ex.regions:
            ex.obj(o)
            ex.obj(r)
            for k, v in enumerate((Ptr(o, ZERO), Ptr(None, ZERO), ONE)):
                ex.mem[r].append(Eff([], ONE, P(8 * k), 0, v))
        return Ptr(r, ZERO)

    @staticmethod
    def byref(ex, n):
        """a variable of the caller handed over by reference, holding the scalar n"""
        r = "@arg:" + n
        if r not in ex.regions:
            ex.array(r)
            ex.regions[r].base = lambda idx, ty: sym(n)
        return Ptr(r, ZERO)
