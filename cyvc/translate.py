"""Mechanical extraction: Cython parse tree (Cython's own parser) -> Python source with the same statements.

What the extraction drops: nogil/gil blocks, decorators, C storage classes, except clauses, docstrings, inline hints.
What it changes: typed declarations become explicit coercions (RT.real / RT.int_ / RT.mv), `&x` becomes a pointer object,
C allocation becomes a fresh buffer of unconstrained values, `/` is exact division and `//` C-truncated division.
Everything else is emitted statement by statement; a construct without a rule raises Unsupported for that function.
"""
import sys
from .expr import Unsupported

_CY = None


def _cython():
    global _CY
    if _CY is None:
        try:
            from Cython.Compiler.TreeFragment import parse_from_strings
        except ImportError:
            sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
            from Cython.Compiler.TreeFragment import parse_from_strings
        from Cython.Compiler import Nodes, ExprNodes
        _CY = parse_from_strings
    return _CY


REALS = {"double", "float", "DTYPE_t", "float64_t", "REAL", "np.float64_t", "cnp.float64_t", "np.double_t", "cnp.double_t"}
INTS = {"int", "Py_ssize_t", "size_t", "long", "short", "char", "unsigned", "int32_t", "uint32_t", "int64_t", "uint64_t", "intp_t",
        "ssize_t", "long long", "unsigned int", "cnp.intp_t", "np.intp_t", "unsigned char", "uint8_t", "int8_t", "cnp.npy_intp"}

BIN = {"AddNode": "+", "SubNode": "-", "MulNode": "*", "ModNode": "%", "PowNode": "**", "MatMultNode": "@"}


def parse(path):
    src = open(path).read()
    return _cython()("m", src, level="module_pxd" if path.endswith(".pxd") else "module")


class Ty:
    """('real',) ('int',) ('bool',) ('obj',) ('mv', elt, ndim) ('ptr', elt) ('carr', elt, size_src) ('struct', name)"""


class Scope:
    def __init__(self, types=None, cells=None):
        self.types = dict(types or {})
        self.cells = set(cells or ())
        self.params = set()
        self.globals = set()


class Emitter:
    def __init__(self, structs=None):
        self.lines = []
        self.ind = 0
        self.structs = structs if structs is not None else {}
        self.mod_types = {}
        self.class_attrs = {}
        self.tmp = 0
        self.typedefs = {}

    def w(self, s):
        self.lines.append("    " * self.ind + s)

    # ---------------- types
    def base_type(self, n):
        k = type(n).__name__
        if n is None: return ("obj",)
        if k == "CSimpleBaseTypeNode":
            name = n.name
            if getattr(n, "module_path", None):
                name = ".".join(list(n.module_path) + [name])
            if name is None: return ("obj",)
            if name in self.typedefs: return self.typedefs[name]
            if name == "bint": return ("bool",)
            if name in REALS: return ("real",)
            if name in INTS: return ("int",)
            if name == "void": return ("void",)
            if name in self.structs: return ("struct", name)
            return ("obj",)
        if k == "MemoryViewSliceTypeNode":
            return ("mv", self.base_type(n.base_type_node), len(n.axes))
        if k == "CQualifierTypeNode" or k == "CConstTypeNode" or k == "CConstOrVolatileTypeNode":
            return self.base_type(n.base_type)
        if k == "TemplatedTypeNode":
            nm = getattr(n.base_type_node, "name", None)
            el = self.base_type(n.base_type_node)
            if el[0] in ("real", "int", "bool") and len(n.positional_args or []) == 1: return ("carr", el, n.positional_args[0])
            if el[0] in ("carr", "carrn") and len(n.positional_args or []) == 1:
                dims = [el[2]] if el[0] == "carr" else list(el[2])
                return ("carrn", el[1], dims + [n.positional_args[0]])
            if nm == "ndarray":
                return ("nd",)
            if nm == "vector":
                return ("vector", self.base_type(n.positional_args[0]) if n.positional_args else ("real",))
            return ("obj",)
        if k == "CComplexBaseTypeNode":
            t, _ = self.declarator(self.base_type(n.base_type), n.declarator)
            return t
        if k == "CTupleBaseTypeNode":
            return ("obj",)
        raise Unsupported(f"type {k}")

    def declarator(self, base, d):
        """-> (type, (name, default_node))"""
        k = type(d).__name__
        if k == "CNameDeclaratorNode": return base, (d.name, getattr(d, "default", None))
        if k == "CPtrDeclaratorNode": return self.declarator(("ptr", base), d.base)
        if k == "CReferenceDeclaratorNode": return self.declarator(base, d.base)
        if k == "CArrayDeclaratorNode":
            return self.declarator(("carr", base, d.dimension), d.base)
        if k == "CConstDeclaratorNode": return self.declarator(base, d.base)
        if k == "CFuncDeclaratorNode": return ("func",), self.declarator(base, d.base)[1]
        raise Unsupported(f"declarator {k}")

    def coerce(self, ty, src):
        k = ty[0]
        if k == "real": return f"RT.real({src})"
        if k == "int": return f"RT.int_({src})"
        if k == "bool": return f"RT.bool_({src})"
        if k == "mv": return f"RT.mv({src}, {ty[2]}, {ty[1][0]!r})"
        if k == "nd": return f"RT.nd({src})"
        if k == "struct": return f"RT.scopy({src})"
        return src

    # ---------------- expressions
    def e(self, n, sc):
        k = type(n).__name__
        f = getattr(self, "e_" + k, None)
        if f is None: raise Unsupported(f"expression {k}")
        return f(n, sc)

    def es(self, ns, sc): return ", ".join(self.e(x, sc) for x in ns)

    def e_NameNode(self, n, sc):
        if n.name in sc.cells: return f"{n.name}[0]"
        return self.nm(n.name)

    def nm(self, name):
        return name + "_" if name in ("None_",) else name

    def e_NoneNode(self, n, sc): return "None"
    def e_NullNode(self, n, sc): return "None"
    def e_EllipsisNode(self, n, sc): return "Ellipsis"
    def e_BoolNode(self, n, sc): return "True" if n.value else "False"

    def e_IntNode(self, n, sc):
        v = str(n.value).rstrip("uUlL")
        return str(int(v, 0))

    def e_FloatNode(self, n, sc): return f"RT.lit({n.value!r})"
    def e_UnicodeNode(self, n, sc): return repr(str(n.value))
    e_StringNode = e_IdentifierStringNode = e_UnicodeNode
    def e_BytesNode(self, n, sc): return repr(bytes(n.value))
    def e_CharNode(self, n, sc): return str(ord(n.value))
    def e_JoinedStrNode(self, n, sc): return "'<formatted>'"

    def e_AttributeNode(self, n, sc): return f"{self.e(n.obj, sc)}.{n.attribute}"

    def e_IndexNode(self, n, sc):
        # chained integer subscripts on the same base are kept as python subscripts: memoryviews return sub-views
        return f"{self.e(n.base, sc)}[{self.idx(n.index, sc)}]"

    def idx(self, n, sc):
        if type(n).__name__ == "TupleNode":
            s = self.es(n.args, sc) if False else ", ".join(self.idx1(x, sc) for x in n.args)
            return s + ("," if len(n.args) == 1 else "") if n.args else "()"
        return self.idx1(n, sc)

    def idx1(self, n, sc):
        if type(n).__name__ == "SliceNode": return self.slice_(n, sc)
        return self.e(n, sc)

    def slice_(self, n, sc):
        g = lambda x: "" if x is None or type(x).__name__ == "NoneNode" else self.e(x, sc)
        s = f"{g(n.start)}:{g(n.stop)}"
        st = g(n.step)
        return s + (":" + st if st else "")

    def e_SliceNode(self, n, sc):
        g = lambda x: "None" if x is None else self.e(x, sc)
        return f"slice({g(n.start)}, {g(n.stop)}, {g(n.step)})"

    def e_SliceIndexNode(self, n, sc):
        g = lambda x: "" if x is None or type(x).__name__ == "NoneNode" else self.e(x, sc)
        return f"{self.e(n.base, sc)}[{g(n.start)}:{g(n.stop)}]"

    def e_SimpleCallNode(self, n, sc):
        return f"{self.e(n.function, sc)}({self.es(n.args, sc)})"

    def e_GeneralCallNode(self, n, sc):
        parts = []
        pos = n.positional_args
        pk = type(pos).__name__
        if pk == "TupleNode": parts += [self.e(x, sc) for x in pos.args]
        elif pk == "AsTupleNode": parts.append("*" + self.e(pos.arg, sc))
        else: parts.append("*" + self.e(pos, sc))
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == "DictNode":
                for it in kw.key_value_pairs:
                    parts.append(f"{it.key.value}={self.e(it.value, sc)}")
            elif type(kw).__name__ == "MergedDictNode":
                for d in kw.keyword_args:
                    if type(d).__name__ == "DictNode":
                        for it in d.key_value_pairs: parts.append(f"{it.key.value}={self.e(it.value, sc)}")
                    else: parts.append("**" + self.e(d, sc))
            else: parts.append("**" + self.e(kw, sc))
        return f"{self.e(n.function, sc)}({', '.join(parts)})"

    def e_AsTupleNode(self, n, sc): return f"tuple({self.e(n.arg, sc)})"

    def e_TupleNode(self, n, sc):
        s = self.es(n.args, sc)
        mf = getattr(n, "mult_factor", None)
        r = f"({s},)" if len(n.args) == 1 else f"({s})"
        return f"({r} * {self.e(mf, sc)})" if mf is not None else r

    def e_ListNode(self, n, sc):
        r = f"[{self.es(n.args, sc)}]"
        mf = getattr(n, "mult_factor", None)
        return f"({r} * {self.e(mf, sc)})" if mf is not None else r

    def e_SetNode(self, n, sc): return f"{{{self.es(n.args, sc)}}}"

    def e_DictNode(self, n, sc):
        return "{" + ", ".join(f"{self.e(i.key, sc)}: {self.e(i.value, sc)}" for i in n.key_value_pairs) + "}"

    def e_StarredUnpackingNode(self, n, sc): return "*" + self.e(n.target, sc)

    def binop(self, n, sc):
        k = type(n).__name__
        return f"({self.e(n.operand1, sc)} {BIN[k]} {self.e(n.operand2, sc)})"
    e_AddNode = e_SubNode = e_MulNode = e_MatMultNode = binop

    def e_PowNode(self, n, sc): return f"RT.pow({self.e(n.operand1, sc)}, {self.e(n.operand2, sc)})"

    def e_ModNode(self, n, sc):
        if type(n.operand1).__name__ in ("UnicodeNode", "StringNode"): return "'<formatted>'"
        return f"RT.mod({self.e(n.operand1, sc)}, {self.e(n.operand2, sc)})"

    def e_DivNode(self, n, sc):
        if getattr(n, "operator", "/") == "//":
            return f"RT.cidiv({self.e(n.operand1, sc)}, {self.e(n.operand2, sc)})"
        return f"RT.div({self.e(n.operand1, sc)}, {self.e(n.operand2, sc)})"

    def e_IntBinopNode(self, n, sc):
        return f"RT.bit({n.operator!r}, {self.e(n.operand1, sc)}, {self.e(n.operand2, sc)})"
    e_BitwiseOrNode = e_IntBinopNode

    def e_UnaryMinusNode(self, n, sc): return f"(-{self.e(n.operand, sc)})"
    def e_UnaryPlusNode(self, n, sc): return self.e(n.operand, sc)
    def e_TildeNode(self, n, sc): return f"(~{self.e(n.operand, sc)})"
    def e_NotNode(self, n, sc): return f"RT.not_({self.e(n.operand, sc)})"

    def e_BoolBinopNode(self, n, sc):
        return f"({self.e(n.operand1, sc)} {n.operator} {self.e(n.operand2, sc)})"

    def e_PrimaryCmpNode(self, n, sc):
        op = {"is_not": "is not", "not_in": "not in"}.get(n.operator, n.operator)
        s = f"{self.e(n.operand1, sc)} {op} {self.e(n.operand2, sc)}"
        c = n.cascade
        while c is not None:
            op = {"is_not": "is not", "not_in": "not in"}.get(c.operator, c.operator)
            s += f" {op} {self.e(c.operand2, sc)}"
            c = c.cascade
        return f"({s})"

    def e_CondExprNode(self, n, sc):
        return f"({self.e(n.true_val, sc)} if {self.e(n.condition, sc)} else {self.e(n.false_val, sc)})"

    def e_TypecastNode(self, n, sc):
        t, _ = self.declarator(self.base_type(n.base_type), n.declarator)
        src = self.e(n.operand, sc)
        if t[0] == "real": return f"RT.real({src})"
        if t[0] == "int": return f"RT.cint({src})"
        if t[0] == "bool": return f"RT.bool_({src})"
        if t[0] == "ptr":
            el = t[1]
            b = n.base_type
            while hasattr(b, "base_type"): b = b.base_type
            if el[0] == "int" and getattr(b, "name", None) == "char": return f"RT.cast_ptr({src}, 'byte')"
            if el[0] == "struct": return f"RT.cast_ptr({src}, {('struct ' + el[1])!r}, {el[1]})"
            return f"RT.cast_ptr({src}, {el[0]!r})"
        if t[0] == "mv": return f"RT.mv({src}, {t[2]}, {t[1][0]!r})"
        return src

    def e_CythonArrayNode(self, n, sc):
        # <double[:n,:m]>ptr
        dims = []
        for ax in n.base_type_node.axes:
            if ax.stop is None or type(ax.stop).__name__ == "NoneNode": raise Unsupported("open cython array cast")
            dims.append(self.e(ax.stop, sc))
        return f"RT.view_ptr({self.e(n.operand, sc)}, ({', '.join(dims)},))"

    def e_AmpersandNode(self, n, sc):
        o = n.operand
        k = type(o).__name__
        if k == "NameNode":
            if o.name in sc.cells: return f"RT.addr_cell({o.name})"
            return o.name                # structs and pointer objects are references already
        if k == "IndexNode":
            b = o
            idxs = []
            while type(b).__name__ == "IndexNode":
                i = b.index
                idxs = ([self.idx1(x, sc) for x in i.args] if type(i).__name__ == "TupleNode" else [self.idx1(i, sc)]) + idxs
                b = b.base
            return f"RT.addr({self.e(b, sc)}, {', '.join(idxs)})"
        if k == "AttributeNode":
            return f"RT.addr_attr({self.e(o.obj, sc)}, {o.attribute!r})"
        raise Unsupported(f"& of {k}")

    def e_SizeofTypeNode(self, n, sc):
        t, _ = self.declarator(self.base_type(n.base_type), n.declarator)
        return str({"real": 8, "int": 4, "bool": 4}.get(t[0], 8)) if t[0] in ("real", "int", "bool", "ptr") else f"RT.sizeof({n.base_type.name!r})"

    def e_SizeofVarNode(self, n, sc):
        o = n.operand
        nm = o.name if type(o).__name__ == "NameNode" else ""
        if nm in ("double", "float"): return "8"
        if nm in INTS: return "4"
        t = sc.types.get(nm) or self.mod_types.get(nm)
        if t: return {"real": "8", "int": "4", "bool": "4", "ptr": "8"}.get(t[0], "8")
        return f"RT.sizeof({nm!r})"

    def e_LambdaNode(self, n, sc):
        args = ", ".join(a.declarator.name + (f"={self.e(a.default, sc)}" if a.default is not None else "") for a in n.args)
        body = n.result_expr
        return f"(lambda {args}: {self.e(body, sc)})"

    def e_ComprehensionNode(self, n, sc):
        # loop is a ForInStatNode nest ending with an append
        clauses, node = [], n.loop
        while True:
            k = type(node).__name__
            if k == "ForInStatNode":
                clauses.append(f"for {self.e(node.target, sc)} in {self.e(node.iterator.sequence, sc)}")
                node = node.body
            elif k == "IfStatNode":
                clauses.append(f"if {self.e(node.if_clauses[0].condition, sc)}")
                node = node.if_clauses[0].body
            elif k == "StatListNode" and len(node.stats) == 1: node = node.stats[0]
            elif k == "ExprStatNode": node = node.expr
            elif k == "ComprehensionAppendNode":
                ty = str(getattr(n, "type", "list"))
                el = self.e(node.expr, sc)
                o, c = ("{", "}") if "set" in ty else ("[", "]")
                return f"{o}{el} {' '.join(clauses)}{c}"
            elif k == "DictComprehensionAppendNode":
                return f"{{{self.e(node.key_expr if hasattr(node, "key_expr") else node.expr.key, sc)}: {self.e(node.value_expr if hasattr(node, "value_expr") else node.expr.value, sc)} {' '.join(clauses)}}}"
            elif k == "YieldExprNode":
                return f"[{self.e(node.arg, sc)} {' '.join(clauses)}]"
            else: raise Unsupported(f"comprehension {k}")

    def e_GeneratorExpressionNode(self, n, sc):
        return self.e_ComprehensionNode(n, sc)
    e_InlinedGeneratorExpressionNode = e_GeneratorExpressionNode

    def e_AssignmentExpressionNode(self, n, sc):
        return f"({n.target_name} := {self.e(n.rhs, sc)})"

    def e_ImportNode(self, n, sc): return f"RT.import_({n.module_name.value!r})"

    # ---------------- statements
    def s(self, n, sc):
        k = type(n).__name__
        f = getattr(self, "s_" + k, None)
        if f is None: raise Unsupported(f"statement {k}")
        f(n, sc)

    def body(self, n, sc):
        self.ind += 1
        mark = len(self.lines)
        self.s(n, sc)
        if len(self.lines) == mark: self.w("pass")
        self.ind -= 1

    def s_StatListNode(self, n, sc):
        for x in n.stats: self.s(x, sc)

    def s_PassStatNode(self, n, sc): self.w("pass")
    def s_BreakStatNode(self, n, sc): self.w("break")
    def s_ContinueStatNode(self, n, sc): self.w("continue")
    def s_GlobalNode(self, n, sc):
        sc.globals.update(n.names); self.w("global " + ", ".join(n.names))
    def s_NonlocalNode(self, n, sc): self.w("nonlocal " + ", ".join(n.names))

    def s_CVarDefNode(self, n, sc):
        base = self.base_type(n.base_type)
        for d in n.declarators:
            ty, (name, default) = self.declarator(base, d)
            if ty[0] == "func": continue
            sc.types[name] = ty
            if default is not None and ty[0] == "carr":
                v = f"RT.carr_init({self.e(ty[2], sc)}, {ty[1][0]!r}, {self.e(default, sc)})"
            elif default is not None:
                v = self.coerce(ty, self.e(default, sc))
            elif ty[0] == "carr": v = f"RT.alloc({self.e(ty[2], sc)}, {ty[1][0]!r})"
            elif ty[0] == "carrn": v = f"RT.alloc_nd(({', '.join(self.e(d, sc) for d in ty[2])},), {ty[1][0]!r})"
            elif ty[0] == "struct": v = f"RT.new_struct({ty[1]})"
            elif ty[0] == "vector": v = f"RT.vector({ty[1][0]!r})"
            elif ty[0] == "real": v = f"RT.undef({name!r})"
            elif ty[0] in ("int", "bool"): v = f"RT.undef_int({name!r})"
            else: v = "None"
            if name in sc.cells: v = f"RT.cell({v})"
            self.w(f"{name} = {v}")

    def static_type(self, n, sc):
        k = type(n).__name__
        if k == "NameNode": return sc.types.get(n.name)
        if k == "AttributeNode" and type(n.obj).__name__ == "NameNode" and n.obj.name == "self": return self.class_attrs.get(n.attribute)
        return None

    def mv_slice(self, n, sc):
        """a slice of a statically typed memoryview (assigning an untyped object to it is a scalar fill)"""
        if type(n).__name__ == "SliceIndexNode":
            t = self.static_type(n.base, sc)
            return bool(t) and t[0] == "mv"
        t = self.static_type(n.base, sc)
        if not t or t[0] != "mv": return False
        i = n.index
        parts = i.args if type(i).__name__ == "TupleNode" else [i]
        return any(type(x).__name__ in ("SliceNode", "EllipsisNode") for x in parts) or len(parts) < t[2]

    def untyped_param(self, n, sc):
        return n is not None and type(n).__name__ == "NameNode" and n.name in sc.params and sc.types.get(n.name) == ("obj",)

    def slice_src(self, src, rhs, sc):
        """value assigned to a memoryview slice: an untyped object is converted to one number"""
        if self.untyped_param(rhs, sc): return f"RT.scalar_fill({src})"
        if rhs is not None and type(rhs).__name__ == "SimpleCallNode": return f"RT.slice_call({self.e(rhs.function, sc)}, {self.es(rhs.args, sc)})"
        return src

    def assign_to(self, lhs, src, sc, rhs=None):
        k = type(lhs).__name__
        if k == "NameNode":
            ty = sc.types.get(lhs.name)
            if ty is None and (lhs.name in sc.globals): ty = self.mod_types.get(lhs.name)
            if ty: src = self.coerce(ty, src)
            self.w(f"{self.e(lhs, sc)} = {src}")
        elif k == "IndexNode":
            if self.mv_slice(lhs, sc): src = self.slice_src(src, rhs, sc)
            self.w(f"{self.e(lhs, sc)} = {src}")
        elif k == "AttributeNode":
            ty = None
            if type(lhs.obj).__name__ == "NameNode" and lhs.obj.name == "self":
                ty = self.class_attrs.get(lhs.attribute)
            self.w(f"{self.e(lhs, sc)} = {self.coerce(ty, src) if ty else src}")
        elif k in ("TupleNode", "ListNode"):
            self.w(f"{self.e(lhs, sc)} = {src}")
            for a in lhs.args:
                if type(a).__name__ == "NameNode" and a.name in sc.types:
                    self.w(f"{self.e(a, sc)} = {self.coerce(sc.types[a.name], self.e(a, sc))}")
        else:
            if k == "SliceIndexNode" and self.mv_slice(lhs, sc): src = self.slice_src(src, rhs, sc)
            self.w(f"{self.e(lhs, sc)} = {src}")

    def s_SingleAssignmentNode(self, n, sc):
        if type(n.rhs).__name__ == "ImportNode":
            self.w(f"{self.e(n.lhs, sc)} = {self.e(n.rhs, sc)}"); return
        self.assign_to(n.lhs, self.e(n.rhs, sc), sc, n.rhs)

    def s_CascadedAssignmentNode(self, n, sc):
        self.tmp += 1
        t = f"_casc{self.tmp}"
        self.w(f"{t} = {self.e(n.rhs, sc)}")
        for l in n.lhs_list: self.assign_to(l, t, sc)

    def s_ParallelAssignmentNode(self, n, sc):
        ts = []
        for st in n.stats:
            self.tmp += 1; t = f"_par{self.tmp}"; ts.append(t)
            self.w(f"{t} = {self.e(st.rhs, sc)}")
        for st, t in zip(n.stats, ts): self.assign_to(st.lhs, t, sc)

    def s_InPlaceAssignmentNode(self, n, sc):
        op = n.operator
        l, r = self.e(n.lhs, sc), self.e(n.rhs, sc)
        ty = sc.types.get(n.lhs.name) if type(n.lhs).__name__ == "NameNode" else None
        if op == "/":
            v = f"RT.div({l}, {r})"
        elif op == "//":
            v = f"RT.cidiv({l}, {r})"
        elif op in ("+", "-", "*"):
            if ty and ty[0] == "ptr": v = f"{l} {op} {r}"
            elif not ty:
                # objects (arrays) mutate in place
                if type(n.lhs).__name__ == "NameNode":
                    self.w(f"{l} {op}= {r}"); return
                self.w(f"{l} {op}= {r}"); return
            else: v = f"{l} {op} {r}"
        elif op == "**": v = f"RT.pow({l}, {r})"
        elif op == "%": v = f"RT.mod({l}, {r})"
        else: v = f"RT.bit({op!r}, {l}, {r})"
        self.w(f"{l} = {self.coerce(ty, v) if ty else v}")

    def s_ExprStatNode(self, n, sc):
        k = type(n.expr).__name__
        if k in ("UnicodeNode", "StringNode", "BytesNode", "JoinedStrNode"): return
        if k == "NameNode":
            return           # an unused declaration or bare name
        self.w(self.e(n.expr, sc))

    def s_ReturnStatNode(self, n, sc):
        if n.value is None: self.w("return")
        else:
            v = self.e(n.value, sc)
            if getattr(self, "ret", None) and self.ret[0] in ("real", "int", "bool", "mv"): v = self.coerce(self.ret, v)
            self.w(f"return {v}")

    def s_RaiseStatNode(self, n, sc):
        self.w("raise" if n.exc_type is None else f"raise {self.e(n.exc_type, sc)}")

    def s_AssertStatNode(self, n, sc): self.w(f"assert {self.e(n.condition, sc)}")

    def s_IfStatNode(self, n, sc):
        kw = "if"
        for c in n.if_clauses:
            self.w(f"{kw} {self.e(c.condition, sc)}:")
            self.body(c.body, sc)
            kw = "elif"
        if n.else_clause is not None:
            self.w("else:")
            self.body(n.else_clause, sc)

    def s_WhileStatNode(self, n, sc):
        self.w(f"while {self.e(n.condition, sc) if n.condition is not None else 'True'}:")
        self.body(n.body, sc)
        if n.else_clause is not None:
            self.w("else:"); self.body(n.else_clause, sc)

    def s_ForInStatNode(self, n, sc):
        self.w(f"for {self.e(n.target, sc)} in {self.e(n.iterator.sequence, sc)}:")
        self.body(n.body, sc)
        if n.else_clause is not None:
            self.w("else:"); self.body(n.else_clause, sc)

    def s_ForFromStatNode(self, n, sc):
        lo = self.e(n.bound1, sc) + (" + 1" if n.relation1 == "<" else "")
        hi = self.e(n.bound2, sc) + (" + 1" if n.relation2 == "<=" else "")
        self.w(f"for {self.e(n.target, sc)} in range({lo}, {hi}):")
        self.body(n.body, sc)

    def s_GILStatNode(self, n, sc): self.s(n.body, sc)
    def s_GILExitNode(self, n, sc): pass

    def s_TryFinallyStatNode(self, n, sc):
        # `with nogil:` is parsed as try/finally around the body
        if type(n.finally_clause).__name__ == "GILExitNode": self.s(n.body, sc); return
        self.w("try:"); self.body(n.body, sc)
        self.w("finally:"); self.body(n.finally_clause, sc)

    def s_TryExceptStatNode(self, n, sc):
        self.w("try:"); self.body(n.body, sc)
        for c in n.except_clauses:
            pat = ""
            if c.pattern:
                p = c.pattern
                pat = " " + (self.e(p[0], sc) if len(p) == 1 else "(" + self.es(p, sc) + ")")
            if c.target is not None: pat += f" as {self.e(c.target, sc)}"
            self.w(f"except{pat}:"); self.body(c.body, sc)
        if n.else_clause is not None:
            self.w("else:"); self.body(n.else_clause, sc)

    def s_WithStatNode(self, n, sc):
        raise Unsupported("with statement")

    def s_DelStatNode(self, n, sc):
        self.w("del " + self.es(n.args, sc))

    def s_CImportStatNode(self, n, sc):
        nm = n.as_name or n.module_name.split(".")[0]
        if n.as_name: self.w(f"{nm} = RT.import_({n.module_name!r})")
        else: self.w(f"{nm} = RT.import_root({n.module_name!r})")

    def s_FromCImportStatNode(self, n, sc):
        for imp in n.imported_names:
            name, as_name = imp[1], imp[2]
            self.w(f"{as_name or name} = RT.from_(__name__, {n.module_name!r}, {name!r}, {n.relative_level!r})")

    def s_FromImportStatNode(self, n, sc):
        m = n.module.module_name.value
        for name, target in n.items:
            if name == "*": self.w(f"RT.star({m!r}, globals())"); continue
            self.w(f"{self.e(target, sc)} = RT.from_(__name__, {m!r}, {name!r}, 0)")

    def s_CTypeDefNode(self, n, sc):
        ty, (name, _) = self.declarator(self.base_type(n.base_type), n.declarator)
        self.typedefs[name] = ty

    def s_CStructOrUnionDefNode(self, n, sc):
        if n.attributes is None: return
        fields = []
        for a in n.attributes:
            base = self.base_type(a.base_type)
            for d in a.declarators:
                ty, (nm, _) = self.declarator(base, d)
                fields.append((nm, ty[0]))
        self.structs[n.name] = fields
        self.w(f"{n.name} = RT.struct({n.name!r}, {fields!r})")

    def s_CDefExternNode(self, n, sc):
        stats = n.body.stats if type(n.body).__name__ == "StatListNode" else [n.body]
        for st in stats:
            if type(st).__name__ != "CVarDefNode": continue
            for d in st.declarators:
                while type(d).__name__ == "CPtrDeclaratorNode": d = d.base
                nm = d.base.name if type(d).__name__ == "CFuncDeclaratorNode" else getattr(d, "name", None)
                if nm and nm not in ("min", "max", "abs"): self.w(f"if RT.has_libc({nm!r}): {nm} = RT.from_('', 'libc.math', {nm!r}, 0)")
    def s_CppClassNode(self, n, sc): pass
    def s_CEnumDefNode(self, n, sc): pass
    def s_PropertyNode(self, n, sc): raise Unsupported("property block")

    def s_PrintStatNode(self, n, sc): pass

    # functions
    def find_cells(self, node):
        """names of scalar locals whose address is taken"""
        out = set()
        def walk(x):
            if isinstance(x, (list, tuple)):
                for y in x: walk(y)
                return
            if x is None or not hasattr(x, "child_attrs"): return
            if type(x).__name__ == "AmpersandNode" and type(x.operand).__name__ == "NameNode": out.add(x.operand.name)
            for a in x.child_attrs or []: walk(getattr(x, a, None))
        walk(node)
        return out

    def func(self, name, args, bodynode, sc, ret=None, is_method=False, star=None, starstar=None, kwonly=0, decorators=()):
        inner = Scope()
        cells = self.find_cells(bodynode)
        params, pre = [], []
        first_kw = len(args) - kwonly
        for i, a in enumerate(args):
            if i == first_kw and kwonly and star is None: params.append("*")
            if i == first_kw and star is not None: params.append("*" + star)
            try:
                ty, (nm, dflt) = self.declarator(self.base_type(a.base_type), a.declarator)
            except Unsupported:
                raise
            if not nm:                       # `def f(x)`: name parsed as the type
                nm, ty = a.base_type.name, ("obj",)
            inner.types[nm] = ty
            inner.params.add(nm)
            d = a.default
            if type(a.declarator).__name__ == "CNameDeclaratorNode" and d is None: d = a.declarator.default
            params.append(nm + (f"={self.dflt(d, sc)}" if d is not None else ""))
            if ty[0] in ("real", "int", "bool", "mv") and not (i == 0 and is_method and nm == "self"):
                pre.append(f"{nm} = {self.coerce(ty, nm)}")
        if star is not None and not kwonly: params.append("*" + star)
        if starstar is not None: params.append("**" + starstar)
        # which address-taken names are scalars declared in this function
        scal = self.scalar_decls(bodynode)
        inner.cells = {c for c in cells if c in scal or (c in inner.types and inner.types[c][0] in ("real", "int", "bool"))}
        for c in inner.cells:
            if c in inner.types: pre.append(f"{c} = RT.cell({c})")
        self.w(f"def {name}({', '.join(params)}):")
        self.ind += 1
        old, self.ret = getattr(self, "ret", None), ret
        mark = len(self.lines)
        try:
            for p in pre: self.w(p)
            self.predeclare(bodynode, inner)
            self.s(bodynode, inner)
            if len(self.lines) == mark: self.w("pass")
        finally:
            self.ret = old
            self.ind -= 1

    def dflt(self, d, sc):
        k = type(d).__name__
        if k == "IntNode" or k == "FloatNode" or k == "BoolNode" or k == "NoneNode": return self.e(d, sc)
        return self.e(d, sc)

    def scalar_decls(self, node):
        out = set()
        def walk(x):
            if isinstance(x, (list, tuple)):
                for y in x: walk(y)
                return
            if x is None or not hasattr(x, "child_attrs"): return
            if type(x).__name__ == "CVarDefNode":
                try:
                    base = self.base_type(x.base_type)
                    for d in x.declarators:
                        ty, (nm, _) = self.declarator(base, d)
                        if ty[0] in ("real", "int", "bool"): out.add(nm)
                except Unsupported: pass
            for a in x.child_attrs or []: walk(getattr(x, a, None))
        walk(node)
        return out

    def predeclare(self, node, sc):
        """types of all cdef'd locals are known from the start (assignments may precede in text only within branches)"""
        def walk(x):
            if isinstance(x, (list, tuple)):
                for y in x: walk(y)
                return
            if x is None or not hasattr(x, "child_attrs"): return
            if type(x).__name__ in ("DefNode", "CFuncDefNode", "LambdaNode"): return
            if type(x).__name__ == "CVarDefNode":
                try:
                    base = self.base_type(x.base_type)
                    for d in x.declarators:
                        ty, (nm, _) = self.declarator(base, d)
                        sc.types.setdefault(nm, ty)
                except Unsupported: pass
            for a in x.child_attrs or []: walk(getattr(x, a, None))
        walk(node)

    def guarded(self, name, emit, is_method=False):
        """emit a definition; on Unsupported emit a stub that raises when called"""
        mark, ind = len(self.lines), self.ind
        try:
            emit()
        except Unsupported as ex:
            del self.lines[mark:]
            self.ind = ind
            self.w(f"def {name}(*a, **k): raise Unsupported({(name + ': ' + str(ex))!r})")

    def s_CFuncDefNode(self, n, sc):
        d = n.declarator
        rt = self.base_type(n.base_type) if not isinstance(n.base_type, type(None)) else ("obj",)
        while type(d).__name__ == "CPtrDeclaratorNode":
            rt = ("ptr", rt); d = d.base
        name = d.base.name
        def emit():
            self.func(name, d.args, n.body, sc, rt, self.in_class())
            if rt == ("obj",): self.w(f"RT.returns_object({name})")
        self.guarded(name, emit)

    def in_class(self): return getattr(self, "cls", None) is not None

    def s_DefNode(self, n, sc):
        def emit():
            for dec in n.decorators or []:
                s = self.e(dec.decorator, sc)
                if s.split(".")[0] == "cython": continue
                if s.split("(")[0] in ("functools.lru_cache", "lru_cache"): continue
                self.w("@" + s)
            self.func(n.name, n.args, n.body, sc, None, self.in_class(),
                      n.star_arg.name if n.star_arg else None, n.starstar_arg.name if n.starstar_arg else None, n.num_kwonly_args)
        self.guarded(n.name, emit)

    def s_CClassDefNode(self, n, sc):
        if n.body is None: return
        bases = ""
        if n.bases is not None and n.bases.args:
            bases = "(" + ", ".join(self.e(b, sc) for b in n.bases.args) + ")"
        self.class_(n.class_name, bases, n.body, sc, cdef=True)

    def s_PyClassDefNode(self, n, sc):
        bases = ""
        if n.bases is not None and getattr(n.bases, "args", None):
            bases = "(" + ", ".join(self.e(b, sc) for b in n.bases.args) + ")"
        self.class_(n.name, bases, n.body, sc)

    def class_(self, name, bases, body, sc, cdef=False):
        old, oldattrs = getattr(self, "cls", None), self.class_attrs
        self.cls = name
        self.class_attrs = dict(self.all_attrs(name))
        self.w(f"class {name}{bases}:")
        self.ind += 1
        mark = len(self.lines)
        if cdef:
            self.w("__new__ = RT.cinit_new")
            for nm, ty in self.class_attrs.items():      # fields declared in the .pxd start zeroed
                z = {"real": "RT.lit('0.0')", "int": "0", "bool": "False", "ptr": "None", "mv": "None"}.get(ty[0])
                if z and nm.isidentifier(): self.w(f"{nm} = {z}")
                if ty[0] == "carr" and nm.isidentifier(): self.w(f"{nm} = RT.carr_field({nm!r}, {self.e(ty[2], sc)}, {ty[1][0]!r})")
        stats = body.stats if type(body).__name__ == "StatListNode" else [body]
        for st in stats:
            k = type(st).__name__
            if k == "CVarDefNode":
                base = self.base_type(st.base_type)
                for d in st.declarators:
                    ty, (nm, _) = self.declarator(base, d)
                    if ty[0] == "func": continue
                    self.class_attrs[nm] = ty
                    z = {"real": "0.0", "int": "0", "bool": "False"}.get(ty[0], "None")
                    if z == "0.0": z = "RT.lit('0.0')"
                    if ty[0] == "carr": z = f"RT.carr_field({nm!r}, {self.e(ty[2], sc)}, {ty[1][0]!r})"
                    self.w(f"{nm} = {z}")
            elif k == "SingleAssignmentNode" and getattr(st.lhs, "name", "") == "__slots__":
                continue
            elif k in ("CFuncDefNode", "DefNode", "StatListNode", "PassStatNode"):
                self.s(st, Scope())
            else:
                m2, i2 = len(self.lines), self.ind
                try: self.s(st, Scope())
                except Unsupported: del self.lines[m2:]; self.ind = i2
        if len(self.lines) == mark: self.w("pass")
        self.ind -= 1
        self.known_attrs[name] = dict(self.class_attrs)
        self.cls, self.class_attrs = old, oldattrs

    known_attrs = {}

    def all_attrs(self, name):
        return self.known_attrs.get(name, {})

    def module(self, tree, sc=None):
        sc = sc or Scope(self.mod_types)
        stats = tree.body.stats if type(tree.body).__name__ == "StatListNode" else [tree.body]
        for st in stats:
            k = type(st).__name__
            mark, ind = len(self.lines), self.ind
            try:
                if k == "CClassDefNode" and tree.is_pxd:
                    # declaration only: remember attribute types
                    attrs = dict(self.all_attrs(st.class_name))
                    if st.bases is not None:
                        for b in st.bases.args:
                            attrs.update(self.all_attrs(getattr(b, "name", "")))
                    if st.body is not None:
                        ss = st.body.stats if type(st.body).__name__ == "StatListNode" else [st.body]
                        for x in ss:
                            if type(x).__name__ == "CVarDefNode":
                                base = self.base_type(x.base_type)
                                for d in x.declarators:
                                    ty, (nm, _) = self.declarator(base, d)
                                    if ty[0] != "func": attrs[nm] = ty
                    self.known_attrs[st.class_name] = attrs
                    continue
                if k in ("CVarDefNode", "SingleAssignmentNode", "ExprStatNode", "InPlaceAssignmentNode", "CascadedAssignmentNode", "ForInStatNode", "IfStatNode"):
                    self.w("try:")
                    self.ind += 1
                    m = len(self.lines)
                    self.s(st, sc)
                    if len(self.lines) == m: self.w("pass")
                    self.ind -= 1
                    self.w("except Unsupported: pass")
                    self.mod_types.update(sc.types)
                else:
                    self.s(st, sc)
            except Unsupported as ex:
                del self.lines[mark:]
                self.ind = ind
                self.w(f"# skipped {k}: {ex}")
        return "\n".join(self.lines)


def extract(paths, structs=None, known=None):
    """python source for a module made of the given .pxd/.pyx files (pxd first)"""
    em = Emitter(structs)
    em.known_attrs = known if known is not None else {}
    for p in paths:
        t = parse(p)
        t.is_pxd = p.endswith(".pxd")
        em.w(f"# --- {p}")
        em.module(t)
    return "\n".join(em.lines) + "\n"
