"""
C19: the HTML report, the Graphviz file and the text report show exactly the graph.
"""
import io
from html.parser import HTMLParser
from itertools import product

from .. import histories as H
from ..core import Result, expect, expect_eq
from ..util import new_graph, reachable, write_tree

PROPERTY = "C19"
TITLE = "reports and exports show exactly the reachable graph"
ASSUMPTIONS = ["identifiers can be encoded and have no line separators", "the command-line callbacks are used for Graphviz"]

ODD = [
    'q"uote', "lt<b>gt", "amp&lt;", "ampamp&amp;", "back\\slash", "back\\", "tick'", "sp ace", "uml\u00e4\u2603", "pct%s%d", "brace{0}", "hash#x",
    "quest?x", "semi;x", "-->", "]]>", "</h2></a>", "<!--", "\\\"", "\\n", 'a" -> "b', "<script>", "tab\tx", "]", "=", ",", "digraph", "a&quot;b", "x\\\\",
]


def BOUND(tier):
    return (
        f"all histories of {2 if tier == "quick" else 3} API operations (19 operations: modules, scripts, distributions, hooks, excludes, implies, ...), and all pairs of {len(ODD)} odd "
        "script names (in the file name or directory) that import each other's modules, with an additional node that cannot be reached; "
        "each output is parsed by independent HTML and DOT parsers and compared with the nodes, edges and attributes of the graph; "
        "state = the parsed outputs"
    )


def cases(tier):
    for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
        for seq in product(H.OPS, repeat=n):
            yield {"ops": list(seq)}
    for seq in product(H.OPS, repeat=1):
        yield {"ops": list(seq), "extra": "unreachable"}
    for i in range(len(ODD)):
        for where in ("file", "dir", "dist", "distname"):
            for j in range(len(ODD)) if tier == "thorough" else (i, (i + 1) % len(ODD)):
                if where != "distname" or (ODD[i] + ODD[j]).isascii():
                    yield {"odd": [i, j], "where": where}


def setup_env(env):
    H.setup(env)


# ------------------------------------------------------------ parsers


class Page(HTMLParser):
    """Sections of the HTML report; everything else that is not expected is an error"""

    VOID = {"p"}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.sections, self.cur, self.part = [], [], None, None
        self.errors, self.text, self.href = [], "", None

    def handle_starttag(self, tag, attrs):
        attrs = dict(attrs)
        if tag not in ("html", "head", "title", "body", "h1", "h2", "a", "p", "meta", "ul", "li", "div", "span", "section", "h3"):
            self.errors.append(f"unexpected element <{tag}>")
        ident = attrs.get("name") if tag == "a" else None
        ident = ident or (attrs.get("id") if tag in ("a", "h2", "section", "div") else None)
        if ident is not None:
            self.cur = {"id": ident, "title": "", "Depends on:": [], "Used by:": []}
            self.sections.append(self.cur)
            self.part = "title"
        if tag == "a" and "href" in attrs:
            self.href, self.text = attrs["href"], ""

    def handle_endtag(self, tag):
        if tag == "a" and self.href is not None:
            if self.cur is None or self.part == "title":
                self.errors.append("link outside of a section")
            else:
                self.cur[self.part].append((self.href, self.text))
            self.href = None
        if tag == "h2":
            self.part = None

    def handle_data(self, data):
        if self.href is not None:
            self.text += data
        elif self.cur is not None:
            if self.part == "title":
                self.cur["title"] += data
            for key in ("Depends on:", "Used by:"):
                if key in data:
                    self.part = key
            rest = data.replace("Depends on:", "").replace("Used by:", "").strip(" ,\n")
            if rest and self.part != "title" and self.part is not None:
                self.cur.setdefault("plain", []).append(rest)

    def handle_comment(self, data):
        self.errors.append("comment")

    handle_decl = handle_pi = unknown_decl = lambda self, data: None


class DotError(Exception):
    pass


def dot_tokens(text):
    i = 0
    while i < len(text):
        c = text[i]
        if c.isspace():
            i += 1
        elif c == '"':
            out = ""
            i += 1
            while True:
                if i >= len(text):
                    raise DotError("unterminated string")
                if text[i] == "\\" and text[i + 1:i + 2] == '"':
                    out += '"'
                    i += 2
                elif text[i] == "\\" and text[i + 1:i + 2] == "\\":
                    # the graphviz scanner keeps both, they are one in labels
                    out += "\\\\"
                    i += 2
                elif text[i] == '"':
                    i += 1
                    break
                else:
                    out += text[i]
                    i += 1
            yield "id", out
        elif text.startswith("->", i):
            yield "op", "->"
            i += 2
        elif c in "{}[];,=":
            yield "op", c
            i += 1
        elif text.startswith("//", i) or c == "#":
            raise DotError("comment")
        else:
            j = i
            while j < len(text) and (text[j].isalnum() or text[j] in "_.-"):
                j += 1
            if j == i:
                raise DotError(f"unexpected {c!r}")
            word = text[i:j]
            if not word.replace("_", "a").isidentifier() and not word.replace(".", "", 1).lstrip("-").isdigit():
                raise DotError(f"invalid identifier {word!r}")
            yield "id", word
            i = j


def parse_dot(text):
    toks = list(dot_tokens(text)) + [("eof", "")]
    pos = 0

    def peek(k=0):
        return toks[pos + k]

    def take(kind, value=None):
        nonlocal pos
        t = toks[pos]
        if t[0] != kind or value is not None and t[1] != value:
            raise DotError(f"expected {value or kind}, got {t}")
        pos += 1
        return t[1]

    nodes, edges, clusters = {}, {}, []

    def attrs():
        out = {}
        while peek() == ("op", "["):
            take("op", "[")
            while peek() != ("op", "]"):
                k = take("id")
                take("op", "=")
                out[k] = take("id")
                if peek() in (("op", ","), ("op", ";")):
                    take("op")
            take("op", "]")
        return out

    def body(cluster):
        while peek() != ("op", "}"):
            if peek() == ("op", ";"):
                take("op")
                continue
            name = take("id")
            if name == "subgraph" and peek(0)[0] == "id" and peek(1) == ("op", "{"):
                take("id")
                take("op", "{")
                c = {"nodes": [], "attrs": {}}
                clusters.append(c)
                body(c)
                take("op", "}")
            elif peek() == ("op", "="):
                take("op")
                value = take("id")
                if cluster is not None:
                    cluster["attrs"][name] = value
            elif peek() == ("op", "->"):
                take("op")
                tgt = take("id")
                if (name, tgt) in edges:
                    raise DotError(f"edge {name} -> {tgt} twice")
                edges[name, tgt] = attrs()
            elif cluster is not None:
                cluster["nodes"].append(name)
                attrs()
            else:
                if name in nodes:
                    raise DotError(f"node {name} twice")
                nodes[name] = attrs()

    take("id", "digraph")
    if peek()[0] == "id":
        take("id")
    take("op", "{")
    body(None)
    take("op", "}")
    take("eof")
    return nodes, edges, clusters


# --------------------------------------------------------------- check


def run_case(case, env):
    res = Result()
    if "ops" in case:
        with env.case(extra_path=[env.program], subdirs=[]):
            mg = new_graph()
            for op in case["ops"]:
                H.perform(op, mg, env.program)
            if case.get("extra"):
                unreachable(mg)
            check_outputs(mg, res)
    else:
        i, j = case["odd"]
        names = [ODD[i], ODD[j]]
        if any("/" in n for n in names) and case["where"] != "dir":
            names = [n.replace("/", "") for n in names]
        with env.case() as d:
            write_tree(d, {"m.py": "import n, zz\nif n:\n    import p.s\n", "n.py": "import m\n", "p/__init__.py": "", "p/s.py": ""})
            mg = new_graph()
            if not case["where"].startswith("dist"):
                mg.add_module("m")
            dists = []
            for k, n in enumerate(names):
                text = "from . import x\nimport m\nif m:\n    import n\n"
                if case["where"].startswith("dist"):
                    name = f"dist{k}" if case["where"] == "dist" else f"{k}{n}"
                    write_tree(d, {f"{k}{n}-1.dist-info/METADATA": f"Name: {name}\nVersion: 1\n", f"{k}{n}-1.dist-info/RECORD": "m.py,,\np/__init__.py,,\n" if k == 0 else "n.py,,\n"})
                    dists.append(name)
                else:
                    rel = f"{k}{n}.py" if case["where"] == "file" else f"{k}{n}/x.py"
                    write_tree(d, {rel: text})
                    mg.add_script(f"{d}/{rel}")
            for name in dists:
                mg.add_distribution(name)
            mg.add_module("m")
            check_outputs(mg, res)
    return res


def unreachable(mg):
    import modulegraph2 as M

    node = M.MissingModule("unreachable.node")
    mg.add_node(node)
    for n in list(mg.nodes()):
        if n is not node:
            mg.add_edge(node, n, M.DependencyInfo(False, True, False, None))


def check_outputs(mg, res):
    import modulegraph2.__main__ as main

    reach = reachable(mg)
    nodes = {n.identifier: n for n in mg.nodes() if n.identifier in reach}
    edges = {}
    for src, dst, data in mg.edges():
        if src.identifier in nodes:
            edges[src.identifier, dst.identifier] = set(data)
    is_dist = {i for i, n in nodes.items() if type(n).__name__ == "PyPIDistribution"}
    roots = {r.identifier for r in mg.roots()}

    # HTML
    out = io.StringIO()
    main.print_graph(out, main.OutputFormat.HTML, mg)
    page = Page()
    page.feed(out.getvalue())
    page.close()
    expect(not page.errors, f"HTML: {page.errors[:3]}")
    sections = {s["id"]: s for s in page.sections}
    expect_eq(len(sections), len(page.sections), "HTML: sections with the same anchor")
    expect_eq(set(sections) - is_dist, set(nodes) - is_dist, "HTML: sections")
    for i, s in sections.items():
        if i in is_dist:
            continue
        want = f"{type(nodes[i]).__name__} {nodes[i].name}"
        expect_eq(" ".join(s["title"].split()), " ".join(want.split()), f"HTML: heading of {i!r}")
        deps = sorted(d for (x, d) in edges if x == i)
        used = sorted(x for (x, d) in edges if d == i)
        for part, ids in (("Depends on:", deps), ("Used by:", used)):
            links = s[part]
            for href, text in links:
                expect(href.startswith("#") and href[1:] in sections, f"HTML: link to {href!r} does not lead anywhere")
                expect_eq(" ".join(text.split()), " ".join(nodes[href[1:]].name.split()), "HTML: text of a link")
            expect_eq(sorted(h[1:] for h, _ in links if h[1:] not in is_dist), [x for x in ids if x not in is_dist], f"HTML: {part} of {i!r}")

    # Graphviz
    out = io.StringIO()
    main.print_graph(out, main.OutputFormat.GRAPHVIZ, mg)
    try:
        dnodes, dedges, clusters = parse_dot(out.getvalue())
    except DotError as exc:
        expect(False, f"Graphviz: {exc}")

    # backslashes are only special before quotes for the scanner, but labels collapse two
    # of them: both ways of writing them are fine
    def norm(x):
        return x if x in nodes else x.replace("\\\\", "\\")

    expect_eq({norm(i) for i in dnodes}, set(nodes), "Graphviz: nodes")
    expect_eq({(norm(a), norm(b)) for a, b in dedges}, set(edges), "Graphviz: edges")
    for i, at in dnodes.items():
        i = norm(i)
        expect_eq("root" in at, i in roots, f"Graphviz: root attribute of {i!r}")
        if type(nodes[i]).__name__ == "MissingModule":
            expect_eq(at.get("color"), "red", f"Graphviz: color of missing module {i!r}")
    for (a, b), at in dedges.items():
        data = edges[norm(a), norm(b)]
        expect_eq(at.get("style") == "dashed", all(e.is_optional for e in data), f"Graphviz: {a!r} -> {b!r} is dashed")
        expect_eq(at.get("arrowhead") == "none", norm(a).startswith(norm(b) + "."), f"Graphviz: arrow of {a!r} -> {b!r}")
    labels = {n.distribution.name for i, n in nodes.items() if i not in is_dist and n.distribution is not None}

    def label(x):
        return x if x in labels or x is None else x.replace("\\\\", "\\")

    have = {label(c["attrs"].get("label")): sorted(norm(x) for x in c["nodes"]) for c in clusters}
    expect_eq(len(have), len(clusters), "Graphviz: clusters")
    want = {}
    for i, n in nodes.items():
        if i not in is_dist and n.distribution is not None:
            want.setdefault(n.distribution.name, []).append(i)
    expect_eq(have, {k: sorted(v) for k, v in want.items()}, "Graphviz: clusters")

    # text
    out = io.StringIO()
    mg.report(out)
    lines = [ln for ln in out.getvalue().split("\n") if ln.strip()]
    expect(lines[0].split() == ["Class", "Name", "File"] and set(lines[1]) <= set("- "), f"report: heading is {lines[:2]}")
    want = []
    for i in sorted(set(nodes) - is_dist):
        fn = getattr(nodes[i], "filename", None)
        want.append(" ".join(f"{type(nodes[i]).__name__} {i} {'' if fn is None else fn}".split()))
    expect_eq([" ".join(ln.split()) for ln in lines[2:]], want, "report: lines")
    res.step(len(edges) * 2 + len(nodes) * 3)
    res.state([sorted(sections), sorted(map(list, dedges)), lines])
    res.outcome = [len(nodes) > 0, len(clusters), bool(is_dist)]
