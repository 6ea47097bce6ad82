"""C15: filter expressions evaluate like NumPy, and anything outside the subset is refused without an effect."""
import ast
import os
import re
import time
import warnings

import numpy as np
from hypothesis import strategies as st

from dataset.filter import evaluate_filter_condition
from utils.data_utils import filter_data_by_condition
from vlib.api import Campaign, require

RULE = ("A case is a set of typed arrays and an expression: built from the grammar (with the value computed alongside), from a rejected template "
        "inserted into a valid expression, or from random tokens. Non-trivial: the expression has at least two operations and its value is neither "
        "all true nor all false; a rejected expression is one Python itself can parse; a token string parses.")
ASSUMPTIONS = ["the subset is: the named arrays, integer/float/boolean literals, + - * / // % ** & | ^ ~, comparisons (chains elementwise), literal "
               "subscripts, and the six listed functions; 4096 bytes, 128 nodes, depth 16, 64 literal items, max(4096, 8 rows) elements"]
BUDGET = {"quick": 45, "thorough": 600}
NEEDS_EXT = False

FUNCS = {"abs": 1, "isfinite": 1, "isnan": 1, "logical_not": 1, "logical_and": 2, "logical_or": 2}
ARITH = ["+", "-", "*", "/", "//", "%"]
COMPARE = ["==", "!=", "<", "<=", ">", ">="]


def arrays_of(case):
    rng = np.random.RandomState(case["seed"])
    n, k = case["rows"], case["width"]
    x = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 100.0], n) * rng.choice([1, 1, 0.3], n)
    if case["special"]:
        x[rng.rand(n) < 0.3] = np.nan
        x[rng.rand(n) < 0.2] = np.inf
    return {"x": x, "y": rng.randint(-4, 5, n), "gf": rng.randn(n, k).astype(np.float32), "b": rng.rand(n) < 0.5,
            "u": rng.randint(0, 256, n).astype(np.uint8), "bf": rng.randint(0, 2, (n, 2, 3, 3)).astype(np.int8), "i8": rng.randint(-128, 128, (n, 2)).astype(np.int8)}


# ---------------------------------------------------------------- expressions of the grammar

def num(draw, d, case):
    """A vector-valued numeric expression as text."""
    kinds = ["name", "col"] if d <= 0 else ["name", "col", "bin", "bin", "lit", "neg", "abs", "pow", "elem"]
    k = draw(st.sampled_from(kinds))
    if k == "name":
        return draw(st.sampled_from(["x", "y", "u", "x", "y"]))
    if k == "col":
        c = draw(st.integers(-case["width"], case["width"] - 1))
        return draw(st.sampled_from([f"gf[:, {c}]", f"gf[..., {c}]", f"i8[:, {c % 2}]", f"bf[:, 1, {c % 3}, -1]", f"bf[..., 0, {c % 3}][:, 1]", "y[::1]", "y[:]",
                                     "x[...]", "gf[0:, 0]", f"gf[:, [{c}]][:, 0]", f"i8[..., [1, 0]][:, {c % 2}]"]))
    if k == "bin":
        return f"({num(draw, d - 1, case)} {draw(st.sampled_from(ARITH))} {num(draw, d - 1, case)})"
    if k == "lit":
        e, op, lit = num(draw, d - 1, case), draw(st.sampled_from(ARITH)), literal(draw)
        return f"({e} {op} {lit})" if draw(st.booleans()) else f"({lit} {op} {e})"
    if k == "neg":
        return f"({draw(st.sampled_from(['-', '+']))}{num(draw, d - 1, case)})"
    if k == "abs":
        return f"{draw(st.sampled_from(['abs', 'np.abs']))}({num(draw, d - 1, case)})"
    if k == "pow":
        return f"({num(draw, d - 1, case)} ** {draw(st.integers(0, 8))})"
    return f"({num(draw, d - 1, case)} + {draw(st.sampled_from(['y[0]', 'gf[-1, 0]', 'x[0]', 'i8[0, 1]', 'y[0:1]']))})"


def literal(draw):
    return draw(st.one_of(st.integers(-5, 5).map(str), st.sampled_from(["0.5", "-1.25", "1e3", "2.0", "100", "-128", "300", "(3 - 1)", "2 ** 3", "True"])))


def boolean(draw, d, case):
    kinds = ["cmp", "name"] if d <= 0 else ["cmp", "cmp", "logic", "logic", "not", "call", "chain", "test", "name"]
    k = draw(st.sampled_from(kinds))
    if k == "name":
        return draw(st.sampled_from(["b", "b", "b[:]"]))
    if k == "cmp":
        r = num(draw, d - 1, case) if draw(st.booleans()) else literal(draw)
        return f"({num(draw, d - 1, case)} {draw(st.sampled_from(COMPARE))} {r})"
    if k == "logic":
        return f"({boolean(draw, d - 1, case)} {draw(st.sampled_from(['&', '|', '^']))} {boolean(draw, d - 1, case)})"
    if k == "not":
        return f"(~{boolean(draw, d - 1, case)})"
    if k == "chain":
        ops = draw(st.lists(st.sampled_from(COMPARE), min_size=2, max_size=3))
        return "(" + literal(draw) + "".join(f" {op} {num(draw, d - 2, case)}" for op in ops) + ")"
    if k == "call":
        f = draw(st.sampled_from(["logical_and", "logical_or", "logical_not"]))
        prefix = draw(st.sampled_from(["", "np."]))
        # logical functions also take numbers
        args = [boolean(draw, d - 1, case) if draw(st.booleans()) else num(draw, d - 1, case) for _ in range(FUNCS[f])]
        return f"{prefix}{f}({', '.join(args)})"
    return f"{draw(st.sampled_from(['isnan', 'np.isfinite', 'isfinite']))}({num(draw, d - 1, case)})"


def draw_setup(draw):
    return {"seed": draw(st.integers(0, 2 ** 32 - 1)), "rows": draw(st.sampled_from([9, 20, 20, 64, 64, 5, 1])), "width": draw(st.sampled_from([1, 2, 4])),
            "special": draw(st.booleans())}


def draw_program(draw):
    case = draw_setup(draw)
    text = boolean(draw, draw(st.integers(0, 4)), case)
    if draw(st.booleans()):
        text = ast.unparse(ast.parse(text, mode="eval"))      # minimal parentheses: precedence matters
    if draw(st.booleans()):
        text = text.replace(" ", "") if draw(st.booleans()) else "  ".join(text.split(" "))
    return dict(case, text=text.strip())


class Unsupported(Exception):
    pass


CMP = {ast.Eq: np.equal, ast.NotEq: np.not_equal, ast.Lt: np.less, ast.LtE: np.less_equal, ast.Gt: np.greater, ast.GtE: np.greater_equal}


def reference(text, arrays, sizes=None):
    """Value by Python's own evaluation; chained comparisons are split into elementwise conjunctions first."""
    tree = ast.parse(text.strip(), mode="eval")

    class Split(ast.NodeTransformer):
        def visit_Compare(self, node):
            self.generic_visit(node)
            if len(node.ops) == 1:
                return node
            left, parts = node.left, []
            for op, right in zip(node.ops, node.comparators):
                parts.append(ast.Compare(left=left, ops=[op], comparators=[right]))
                left = right
            out = parts[0]
            for p in parts[1:]:
                out = ast.Call(func=ast.Name(id="__and", ctx=ast.Load()), args=[out, p], keywords=[])
            return out

    tree = ast.fix_missing_locations(Split().visit(tree))
    env = {"__builtins__": {}, "np": np, "__and": np.logical_and}
    env.update({f: getattr(np, f) for f in FUNCS})
    env.update(arrays)
    return eval(compile(tree, "<reference>", "eval"), env)


def shape_of_tree(text):
    tree = ast.parse(text, mode="eval")

    def depth(n):
        return 1 + max([depth(c) for c in ast.iter_child_nodes(n)], default=0)
    return len(list(ast.walk(tree))), depth(tree)


def run(text, arrays, where=None):
    """(value or None, exception or None); arrays must come out untouched and quickly."""
    before = {k: v.copy() for k, v in arrays.items()}
    start = time.monotonic()
    try:
        value, error = evaluate_filter_condition(text, arrays), None
    except Exception as exc:
        value, error = None, exc
    took = time.monotonic() - start
    for k, v in before.items():
        require(arrays[k].shape == v.shape and arrays[k].tobytes() == v.tobytes(), "evaluating %r changed the data of %s", text, k)
    require(took < 20, "evaluating %r took %.0f s", text, took)
    return value, error


def same(got, want):
    return isinstance(got, np.ndarray) and got.dtype == np.bool_ and got.shape == want.shape and np.array_equal(got, want)


def check_program(case, ctx):
    arrays = arrays_of(case)
    n = case["rows"]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            want, failure = reference(case["text"], {k: v.copy() for k, v in arrays.items()}), None
        except Exception as exc:
            want, failure = None, exc
        nodes, depth = shape_of_tree(case["text"])
        got, error = run(case["text"], arrays)
        if nodes > 128 or depth > 16 or len(case["text"].encode()) > 4096:
            require(error is not None, "%r has %d nodes and depth %d and was accepted", case["text"], nodes, depth)
            ctx.label("over the limit")
            ctx.nontrivial()
            return
        if failure is not None or not isinstance(want, np.ndarray) or want.dtype != np.bool_ or want.shape != (n,):
            require(error is not None, "%r is not a boolean vector in NumPy (%s) but was accepted as %s", case["text"], failure, got)
            ctx.label("no boolean vector")
            return
        require(error is None, "%r was refused: %s", case["text"], error)
        require(same(got, want), lambda: "%r selects %s, NumPy says %s" % (case["text"], got.tolist(), want.tolist()))
        ctx.nontrivial(want.any() and not want.all() and len(re.findall(r"[-+*/%&|^~<>=(]+", case["text"])) >= 2)
        # The same expression as a dataset filter.
        data = {k: v.copy() for k, v in arrays.items()}
        count = filter_data_by_condition(case["text"], data)
        require(count == int(want.sum()), "the filter reports %d of %d matching rows", count, int(want.sum()))
        for k, v in arrays.items():
            require(data[k].dtype == v.dtype and np.array_equal(data[k], v[want], equal_nan=v.dtype.kind == "f"), "rows of %s were not selected by the filter", k)
        ctx.label("filtered")


# ---------------------------------------------------------------- expressions outside it

HOSTILE = [  # {c}: canary path, {e}: a valid boolean expression, {n}: a valid numeric expression
    "__import__('os').system('touch {c}')", "exec(\"open('{c}','w')\")", "open('{c}', 'w')", "x.tofile('{c}')", "np.save('{c}', x)", "np.savetxt('{c}', x)",
    "np.lib.npyio.open('{c}', 'w')", "x.dump('{c}')", "().__class__.__bases__[0].__subclasses__()", "(lambda: open('{c}', 'w'))()",
    "[open('{c}', 'w') for _ in x]", "{{open('{c}', 'w')}}", "f'{{open(chr(47), 0)}}'", "np.core", "np.fromfile('{c}')", "np.memmap('{c}', mode='w+', shape=4)",
    "abs.__self__", "x.__array_interface__", "x.sum()", "x.T", "x.fill(0)", "x.sort()", "abs(x, out=y)", "abs({n}, x)", "logical_and({e}, {e}, b)", "np.logical_not({e}, b)",
    "np.logical_or(b, {e}, b)", "isnan({n}, b)", "np.copyto(x, 0)", "np.put(x, 0, 7)", "x.itemset(0, 7)", "x.__setitem__(0, 7)",
    "{n} if {n} else {n}", "{e} and {e}", "{e} or {e}", "not b", "x in y", "x is y", "x is not None", "x not in (1, 2)", "'abc'", "b'abc'", "1j", "(z := x)", "{{1: 2}}", "{{1, 2}}",
    "x @ y", "y << 1", "y >> 1", "unknown", "__builtins__", "__name__", "x[y]", "x[b]", "x[None]", "x[None, :]", "x[True]", "x[0.0]", "x['a']", "gf[:, y[0]]", "1e999", "9223372036854775808",
    "x ** 9", "x ** -1", "x ** 2.0", "x ** y", "2 ** y", "x ** True", "x ** (1 + 1)", "((9 ** 8) ** 8)", "((2 ** 8) ** 8)", "((1, 2) * 2000)", "(1, 2) + (3,)", "sum(x)", "max(x)", "np.max(x)", "np.where(b, x, y)",
    "np.sum(x)", "np.exp(x)", "np.random.rand(4)", "eval('x')", "globals()", "print(x)", "type(x)", "abs(*x)", "abs(**{{}})", "abs()", "abs(x)(y)", "logical_and(b)", "(yield)", "(await x)",
    "x[0:y]", "x[[y]]", "x[[0, b]]", "abs[0]", "np[0]", "isnan.reduce(b)", "logical_and.reduce([b, b])", "logical_and.at(b, 0, 1)", "np.abs.__call__(x)",
]
WRAPS = ["{h}", "({h}) > 0", "b & ({h})", "b | (({h}) == 0)", "logical_and(b, {h})", "~({h})", "abs({h}) > 1", "(x > 0) & (({h}) < 1)", "0 < ({h}) < 1", "x + ({h}) > 0", "gf[:, 0] == ({h})"]
STATEMENTS = ["x = 1", "import os", "b; b", "b\nb", "del x", "", " ", "b #\nimport os", "(", "b b", "b &", "&", "x[", "x > ", "lambda", "pass", "x += 1", "return b", "b if", ",", "b,", "*b", "$", "b\x00", "\\", "é > 1",
              "0x", "1_", "x > 1 >", ":", "b:", "@b"]


def draw_hostile(draw):
    case = draw_setup(draw)
    kind = draw(st.sampled_from(["hostile", "hostile", "hostile", "statement", "nonboolean", "size"]))
    if kind == "hostile":
        h = draw(st.sampled_from(HOSTILE))
        text = draw(st.sampled_from(WRAPS)).replace("{h}", h)
        text = text.replace("{e}", boolean(draw, 1, case)).replace("{n}", num(draw, 1, case)).replace("{{", "{").replace("}}", "}")
    elif kind == "statement":
        text = draw(st.sampled_from(STATEMENTS))
    elif kind == "nonboolean":
        text = draw(st.sampled_from(["x", "y + 1", "gf", "gf > 0", "x[0] > 0", "x[0:0] > 0", "1 < 2", "True", "bf[:, 0] > 0", "isnan(gf)", "abs(x)", "gf[:, 0:1] > 0", "x[...] + 1", "b + b + y", "u"]))
        if text == "x[0:0] > 0" and case["rows"] == 0:
            text = "x"
    else:
        text = draw(st.sampled_from(["bytes", "nodes", "depth", "items", "elements", "index", "unary", "call"]))
    return dict(case, kind=kind, text=text)


def oversized(text, rows):
    """An expression beyond one limit, together with a legal neighbour just within it: (rejected, accepted or None)."""
    if text == "bytes":
        return "b" + " " * 4096, "b" + " " * 4095
    if text == "nodes":
        # Compare chain: Expression + b-chain; grow a flat chain of comparisons one operand at a time.
        make = lambda k: "x" + " < x" * k
        k = 1
        while shape_of_tree(make(k + 1))[0] <= 128:
            k += 1
        return make(k + 1), make(k)
    if text == "depth":
        make = lambda k: "~" * k + "b"
        k = 1
        while shape_of_tree(make(k + 1))[1] <= 16:
            k += 1
        return make(k + 1), make(k)
    if text == "items":
        return "x[[" + ",".join(["0"] * 65) + "]] > 0", None
    if text == "elements":
        return "((wide[:, 0:1] * wide[0]) > 0)[:, 0]", "((part[:, 0:1] * part[0]) > 0)[:, 0]"
    if text == "index":
        return "(wide[:, [0, 1, 2]] > 0)[:, 0]" if rows * 3 > max(4096, 8 * rows) else "(abs(wide) > 0)[:, 0]", None
    if text == "unary":
        return "(-wide)[:, 0] > 0", "(-part)[:, 0] > 0"
    return "isnan(wide)[:, 0]", "isnan(part)[:, 0]"


def check_hostile(case, ctx):
    arrays = arrays_of(case)
    text = case["text"]
    accepted = None
    if case["kind"] == "size":
        limit = max(4096, 8 * case["rows"])
        arrays["wide"] = np.ones((case["rows"], limit // case["rows"] + 1), np.float32)
        arrays["part"] = np.ones((case["rows"], limit // case["rows"]), np.float32)
        text, accepted = oversized(text, case["rows"])
    if case["kind"] == "nonboolean" and case["rows"] == 1 and text in ("x[0:0] > 0",):
        text = "x"
    canary = os.path.join(ctx.tmp, "canary")
    text = text.replace("{c}", canary)
    home = os.getcwd()
    os.chdir(ctx.tmp)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            value, error = run(text, arrays)
            if accepted is not None:
                ok, refused = run(accepted, arrays)
                require(refused is None and ok is not None and ok.shape == (case["rows"],), "%r is within the limits and was refused: %s", accepted, refused)
    finally:
        os.chdir(home)
    require(not os.listdir(ctx.tmp), "evaluating %r had an effect on the file system", text)
    require(error is not None, "%r is outside the subset and was accepted as %s", text, value)
    ctx.label(case["kind"])
    try:
        ast.parse(text, mode="eval")
        ctx.nontrivial()
    except (SyntaxError, ValueError):
        ctx.label("does not parse")


# ---------------------------------------------------------------- random token strings

TOKENS = ["x", "y", "b", "u", "gf", "i8", "np", "abs", "isnan", "isfinite", "logical_and", "logical_not", ".", ",", ":", "...", "(", ")", "(", ")", "[", "]", "0", "1", "2", "-1", "0.5", "1e3", "True", "None",
          "+", "-", "*", "/", "//", "%", "**", "&", "|", "^", "~", "<", "<=", "==", "!=", ">", ">=", "and", "or", "not", "in", "is", "if", "else", "lambda", "for", "'s'", "__class__", "shape", "out=", "=", ":=",
          "@", "<<", "{", "}", ";", "\n", "#", "foo", "99999999999999999999"]


def in_subset(tree, names):
    """Independent whitelist of what an accepted expression may be made of."""
    def index(n):
        if isinstance(n, ast.Constant):
            return n.value is Ellipsis or type(n.value) is int
        if isinstance(n, ast.UnaryOp):
            return isinstance(n.op, ast.USub) and index(n.operand)
        if isinstance(n, ast.Slice):
            return all(p is None or index(p) for p in (n.lower, n.upper, n.step))
        return isinstance(n, (ast.Tuple, ast.List)) and all(index(e) for e in n.elts)

    def func(n):
        return isinstance(n, ast.Name) and n.id in FUNCS or isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "np" and n.attr in FUNCS

    def expr(n):
        if isinstance(n, ast.Constant):
            return n.value is None or type(n.value) in (int, float, bool)
        if isinstance(n, ast.Name):
            return n.id in names or n.id == "np" or n.id in FUNCS
        if isinstance(n, ast.UnaryOp):
            return isinstance(n.op, (ast.UAdd, ast.USub, ast.Invert)) and expr(n.operand)
        if isinstance(n, ast.BinOp):
            return isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Mod, ast.Pow, ast.BitAnd, ast.BitOr, ast.BitXor)) and expr(n.left) and expr(n.right)
        if isinstance(n, ast.Compare):
            return all(type(o) in CMP for o in n.ops) and expr(n.left) and all(map(expr, n.comparators))
        if isinstance(n, ast.Subscript):
            return expr(n.value) and index(n.slice)
        if isinstance(n, ast.Call):
            return func(n.func) and not n.keywords and all(map(expr, n.args))
        if isinstance(n, (ast.Tuple, ast.List)):
            return index(n)
        return func(n)
    return expr(tree.body)


def draw_tokens(draw):
    case = draw_setup(draw)
    if draw(st.booleans()):
        tokens = draw(st.lists(st.sampled_from(TOKENS), min_size=1, max_size=14))
    else:       # a valid expression with a few tokens replaced, dropped or added
        tokens = re.findall(r"\w+|\*\*|//|[<>=!]=|\.\.\.|\S", boolean(draw, 2, case))
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, len(tokens) - 1))
            op = draw(st.sampled_from(["replace", "drop", "add"]))
            if op == "drop" and len(tokens) > 1:
                del tokens[i]
            elif op == "replace":
                tokens[i] = draw(st.sampled_from(TOKENS))
            else:
                tokens.insert(i, draw(st.sampled_from(TOKENS)))
    text = draw(st.sampled_from([" ", ""])).join(tokens) if draw(st.booleans()) else " ".join(tokens)
    return dict(case, text=text)


def check_tokens(case, ctx):
    arrays = arrays_of(case)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        value, error = run(case["text"], arrays)
        try:
            tree = ast.parse(case["text"], mode="eval")
        except (SyntaxError, ValueError):
            require(error is not None, "%r is no expression and was accepted", case["text"])
            return
        ctx.nontrivial()
        if error is not None:
            ctx.label("refused")
            return
        ctx.label("accepted")
        require(in_subset(tree, arrays), "%r is outside the subset and was accepted", case["text"])
        want = reference(case["text"], arrays)
        require(same(value, np.asarray(want)), lambda: "%r selects %s, NumPy says %s" % (case["text"], value.tolist(), np.asarray(want).tolist()))


CAMPAIGNS = [
    Campaign("programs", lambda: st.composite(draw_program)(), check_program, quick=2500, shards=3),
    Campaign("hostile", lambda: st.composite(draw_hostile)(), check_hostile, quick=2500, shards=2),
    Campaign("tokens", lambda: st.composite(draw_tokens)(), check_tokens, quick=3000, shards=3),
]
