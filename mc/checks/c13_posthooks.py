"""
C13: post processing hooks run once per node, in the right order, when the node is complete.
"""
import importlib

import modulegraph2

from ..core import Result, expect, expect_eq
from ..util import write_tree, new_graph, canon, reachable, depinfo, diff_canon
from .. import projects as P
from .c07_resolution import pyc

PROPERTY = "C13"
TITLE = "post-processing hooks run once per node, when it is complete"
ASSUMPTIONS = ["hooks only use the documented graph API (import_module, import_package, add_module)"]

ACTIONS = [["import", "b"], ["import", "p.q.n"], ["import", "zz.w"], ["package", "p"], ["package", "a"], ["add", "ns.k"], ["import", "r"], ["hook", "h4"]]

# configuration of the graph before the root is added
CFG = {
    "excl-p": {"excludes": ["p"]}, "excl-sub": {"excludes": ["p.m", "p.q", "a"]}, "excl-zz": {"excludes": ["zz", "zz.y", "b"]},
    "alias": {"implies": {"zz": ("alias", "p.m"), "a": ("alias", "p.q.n"), "p.m": ("alias", "gone")}},
    "virtual": {"implies": {"zz": ("virtual", "p"), "b": ("virtual", "gone.x"), "p.q": ("virtual", "a")}},
    "seq": {"implies": {"a": ["p.m", "gone.x", "os.path"], "p": ["b"], "p.m": ["p.q.n"], "zz": ["a"], "b": ["inv", "byt"]}},
    "none": {"implies": {"p.m": None, "a": None, "zz": None}},
    "mix": {"excludes": ["p.q"], "implies": {"a": ["p.q.n", "p.q", "os.path"], "b": ("alias", "p.q.n"), "zz.y": ("alias", "os.path"), "zz": ["a"]}},
    "miss": {"missing": True}, "miss2": {"missing": True, "implies": {"a": ["zz.y", "p.zz"], "b": ("alias", "zz")}},
}
# universes of other checks; what those decide is not judged here
OTHER = {"quick": ["c06_relative", "c11_excludes", "c15_hookapi", "c16_robust"], "thorough": ["c06_relative", "c11_excludes", "c15_hookapi", "c16_robust", "c25_compiled", "c26_importers"]}
MORE = {"inv.py": "def 1\n", "byt.pyc": pyc("import inv\nfrom . import x\n")}


def BOUND(tier):
    return (
        "project universe of C04 (root statement x "
        + ("one statement in one other file" if tier == "quick" else "one or two statements in other files")
        + f"), root as module and as script, three recording hooks; x every (node, action) with {len(ACTIONS)} actions where one of the "
        f"hooks adds dependencies or another hook when it sees that node; hook added between two roots; x {len(CFG)} configurations with excludes, implied actions of every kind, missing hooks, and modules with invalid syntax and byte code; "
        f"and the complete quick universes of {', '.join(n[:3].upper() for n in OTHER[tier])} with a recording hook in every graph; state = canonical graph + call order"
    )


def other(name):
    return importlib.import_module("." + name, __package__)


def cases(tier):
    for name in OTHER[tier]:
        for c in other(name).cases("quick"):
            yield {"of": name, "case": c}
    n = 0
    for c in P.enum_projects(tier):
        if len(c) > (2 if tier == "quick" else 3) or (tier == "quick" and any(len(st) > 1 for st in c.values())):
            continue
        for script in (False, True):
            yield {"proj": c, "script": script}
        if len(c) == 1 and len(c["r"]) == 1 or (len(c) == 2 and c["r"][0] in P.ABS[:24:3]) :
            for act in ACTIONS:
                yield {"proj": c, "script": bool(n % 2), "act": act}
            n += 1
        if len(c) == 1:
            yield {"proj": c, "script": False, "late": True}
            for cfg in CFG:
                yield {"proj": c, "script": False, "cfg": cfg}


def relevant(case):
    return "of" in case or P.relevant(case["proj"])


def run_case(case, env):
    res = Result()
    if "of" in case:
        return universe(case, env, res)
    mods = P.project(case["proj"])
    with env.case() as d:
        write_tree(d, P.tree(mods))
        if "cfg" in case:
            write_tree(d, MORE)
        if "act" in case:
            ref = P.Reference(P.Universe(mods), "r")
            res.traces = 0
            for name in sorted(ref.must | ref.must_missing):
                one(res, d, mods, case, name)
                env.purge()
        else:
            one(res, d, mods, case, None)
    res.outcome = ["act" if "act" in case else "plain", case["script"]]
    return res


def universe(case, env, res):
    mod = other(case["of"])
    saved = mod.new_graph
    seen = []

    def recording(**kw):
        mg = saved(**kw)
        calls = []
        mg.add_post_processing_hook(lambda graph, node: calls.append((graph is mg, node.identifier)))
        seen.append((mg, calls))
        return mg

    mod.new_graph = recording
    try:
        mod.run_case(case["case"], env)
    except Exception:
        return res  # reported by the check that owns the case
    finally:
        mod.new_graph = saved
    for mg, calls in seen:
        want = sorted(n.identifier for n in mg.nodes())
        got = sorted(i for _, i in calls)
        twice = sorted({i for i in got if got.count(i) > 1})
        expect(not twice, f"hook called more than once for {twice}")
        expect_eq(got, want, "nodes that the hook is called for")
        expect(all(g for g, _ in calls), "hook called with a different graph")
        res.step(len(calls))
        res.state([case["of"], got])
    res.traces = len(seen)
    res.outcome = ["universe", case["of"]]
    return res


def one(res, d, mods, case, trigger):

    def make():
        g = new_graph()
        cfg = CFG.get(case.get("cfg"), {})
        g.add_excludes(cfg.get("excludes", ()))
        kinds = {"alias": modulegraph2.Alias, "virtual": modulegraph2.Virtual}
        g.add_implies({k: kinds[v[0]](v[1]) if isinstance(v, tuple) else v for k, v in cfg.get("implies", {}).items()})
        if "missing" in cfg:
            def missing(graph, importer, name):
                if name == "zz" or name == "p.zz":
                    node = modulegraph2.VirtualNode(name, None)
                    graph.add_node(node)
                    return node
            g.add_missing_hook(missing)
        return g

    mg = make()
    calls = []
    early = {}
    root = d + "/r.py" if case["script"] else "r"
    act_edges = set()
    adder = []
    trigger_id = root if trigger == "r" else trigger

    def outgoing(n):
        return {(t.identifier, tuple(depinfo(x))) for data, t in mg.outgoing(n) for x in data}

    def hook(label):
        def f(graph, node):
            expect(graph is mg, "hook called with a different graph")
            expect(mg.find_node(node.identifier) is node, f"hook called with {node.identifier!r} that is not in the graph")
            calls.append((label, node.identifier))
            if label == "h3":
                early[node.identifier] = (outgoing(node), set(getattr(node, "globals_written", ())))
            if label == "h2" and node.identifier in (trigger, trigger_id):
                kind, arg = case["act"]
                if kind == "import":
                    expect_eq(mg.import_module(node, arg).identifier, arg, "result of import_module")
                    act_edges.add((node.identifier, arg))
                elif kind == "package":
                    expect_eq(mg.import_package(node, arg).identifier, arg, "result of import_package")
                    act_edges.add((node.identifier, arg))
                elif kind == "hook":
                    if not adder:
                        adder.append(node.identifier)
                        mg.add_post_processing_hook(hook(arg))
                else:
                    mg.add_module(arg)
        return f

    first = set()
    if case.get("late"):
        mg.add_module("p.b")
        first = {n.identifier for n in mg.nodes()}
    for label in ("h1", "h2", "h3"):
        mg.add_post_processing_hook(hook(label))
    (mg.add_script if case["script"] else mg.add_module)(root)
    where = f"[{trigger or case.get('cfg')}/{case.get('act')}] "
    nodes = {n.identifier for n in mg.nodes()}
    per = {}
    for i, (label, ident) in enumerate(calls):
        per.setdefault(ident, []).append(label)
    registered = False
    served = set()
    for label, ident in calls:
        if label == "h4":
            served.add(ident)
        if label == "h3" and ident not in served:
            expect(not registered, where + f"hook that was added before is not called for {ident!r}")
        if ident in adder:
            registered = True
        elif label == "h4":
            expect(registered and per[ident].pop(0) == "h4", where + f"hook that is added later is called for {ident!r}, or not first")
    for ident in sorted(nodes - first):
        expect_eq(per.get(ident), ["h3", "h2", "h1"], where + f"hooks called for {ident!r}")
    expect(set(per) == nodes - first, where + f"hooks called for {sorted(set(per) - (nodes - first))}, not new nodes of the graph")
    pkg = case.get("act", ["", ""])
    for ident, (edges, written) in early.items():
        final = outgoing(ident)
        for t, attr in final - edges:
            ok = (ident, t) in act_edges or (pkg[0] == "package" and (t == pkg[1] or t.startswith(pkg[1] + ".")))
            expect(ok, where + f"hook for {ident!r} called before edge to {t!r} was added")
        late = set(mg.find_node(ident).globals_written) - written if hasattr(mg.find_node(ident), "globals_written") else ()
        expect(not late, where + f"hook for {ident!r} called before global names {sorted(late)} were known")
    # everything that the hook added is processed: same graph as adding it as extra statement
    if trigger and case["act"][0] == "import":
        expect(case["act"][1] in {t.identifier for _, t in mg.outgoing(root if trigger == "r" else trigger)}, where + "no edge")
    if trigger and case["act"][0] != "hook":
        target = case["act"][1]
        ref = P.Reference(P.Universe(mods), target)
        for nm in ref.must | ref.must_missing:
            expect(nm in nodes, where + f"dependency {nm!r} of {target!r} that is added by a hook is not in the graph")
        if case["act"] == ["package", "p"]:
            for nm in ("p.m", "p.b", "p.q", "p.q.n"):
                expect(nm in nodes, where + f"{nm!r} is not in the graph after import_package('p')")
    # hooks do not influence the graph
    if not trigger and not case.get("late"):
        mg2 = make()
        (mg2.add_script if case["script"] else mg2.add_module)(root)
        a, b = canon(mg, d), canon(mg2, d)
        expect(a == b, where + f"graph differs when hooks are present: {diff_canon(a, b)}")
    res.step(len(calls))
    res.traces += 1
    res.state([canon(mg, d), calls])
