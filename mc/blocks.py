"""
Enumeration of nesting contexts for statements.

Each kind is (name, flags, template) where flags is a subset of "fit":
function / if / try.  In a template "@" marks the body; the marked line's own
indentation is the body's indentation.
"""

from itertools import product

KINDS = [
    # kind, flags, template
    ("if", "i", "if cond:\n    @\n"),
    ("elif", "i", "if cond:\n    pass\nelif cond2:\n    @\n"),
    ("else", "i", "if cond:\n    pass\nelse:\n    @\n"),
    ("try", "t", "try:\n    @\nexcept ValueError:\n    pass\n"),
    ("except", "t", "try:\n    pass\nexcept ValueError as exc:\n    @\nexcept:\n    pass\n"),
    ("except2", "t", "try:\n    cond()\nexcept KeyError:\n    pass\nexcept:\n    @\n"),
    ("tryelse", "t", "try:\n    cond()\nexcept:\n    pass\nelse:\n    @\nfinally:\n    pass\n"),
    ("finally", "", "try:\n    cond()\nfinally:\n    @\n"),
    ("def", "f", "def fn(arg=None, *args, **kw):\n    @\n"),
    ("adef", "f", "@dec\nasync def afn(arg):\n    @\n    return arg\n"),
    ("class", "", "class Cls(object):\n    @\n"),
    ("for", "", "for it in cond:\n    @\nelse:\n    pass\n"),
    ("forelse", "", "for it in cond:\n    pass\nelse:\n    @\n"),
    ("while", "", "while cond:\n    @\n    break\n"),
    ("with", "", "with cond as ctx:\n    @\n"),
    ("match", "", "match cond:\n    case 1:\n        pass\n    case _:\n        @\n"),
    ("trystar", "t", "try:\n    @\nexcept* ValueError:\n    pass\n"),
    ("exceptstar", "t", "try:\n    cond()\nexcept* ValueError as exc:\n    @\n"),
    ("starelse", "t", "try:\n    cond()\nexcept* ValueError:\n    pass\nelse:\n    @\n"),
    ("starfinally", "", "try:\n    cond()\nexcept* ValueError:\n    pass\nfinally:\n    @\n"),
    ("afor", "f", "async def afn2():\n    async for it in cond:\n        @\n"),
    ("awith", "f", "async def afn3():\n    async with cond:\n        @\n"),
    ("lambdadef", "f", "v = [lambda: 1]\n@dec(v)\ndef gen():\n    yield v\n    @\n"),
]
TEMPLATE = {k: t for k, f, t in KINDS}
FLAGS = {k: f for k, f, t in KINDS}

#: extra kinds that only make sense for source (the compiler drops the body)
DEAD = [
    ("if0", "i", "if 0:\n    @\n"),
    ("typechecking", "i", "TYPE_CHECKING = False\nif TYPE_CHECKING:\n    @\n"),
    ("while0", "", "while 0:\n    @\n"),
    ("afterreturn", "f", "def fn2():\n    return 1\n    @\n"),
    ("else1", "i", "if 1:\n    pass\nelse:\n    @\n"),
]
#: less common scopes
EXTRA = [
    ("gclass", "", "class Gcl[T](list[T]):\n    @\n"),
    ("gdef", "f", "def gfn[T: cond](arg: T = None) -> T:\n    @\n"),
    ("cellclass", "f", "def mk(cell):\n    class In(Base, key=cell):\n        attr = cell\n        @\n"),
    ("superclass", "", "@dec\nclass Sup(Base, key=cond):\n    def __init__(self):\n        super().__init__()\n        __class__\n    @\n"),
    ("clsdeco", "", "@dec(lambda q=cond: q)\nclass Dec(Base, metaclass=lambda x=cond, y=cond: 1):\n    @\n"),
]
for k, f, t in DEAD + EXTRA:
    TEMPLATE[k] = t
    FLAGS[k] = f

PADDED = ["if", "class", "def", "trystar", "match"]


def contexts(depth, kinds=None):
    kinds = [k[0] for k in KINDS] if kinds is None else kinds
    for n in range(depth + 1):
        yield from (list(p) for p in product(kinds, repeat=n))


def fill(template, body):
    """Insert *body* (text, unindented) at the @ marker"""
    out = []
    for ln in template.split("\n"):
        if ln.strip() == "@":
            ind = ln[: len(ln) - 1]
            out.extend(ind + b if b else b for b in body.rstrip("\n").split("\n"))
        else:
            out.append(ln)
    return "\n".join(out)


def nest(path, body, sibling=True):
    text = body
    for i, k in enumerate(reversed(path)):
        text = fill(TEMPLATE[k], text)
        if sibling:
            text = f"before{i} = cond\n" + text + f"\nafter{i} = cond\n"
    return text


def flags(path):
    fl = set("".join(FLAGS[k] for k in path))
    return "f" in fl, "i" in fl, "t" in fl


def in_scope(path):
    """True when the innermost scope is not the module"""
    return any(k in CLASSES or "f" in FLAGS[k] for k in path)


CLASSES = {"class", "gclass", "cellclass", "superclass", "clsdeco"}
