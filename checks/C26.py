"""Publishing notebooks: what the filter keeps, removes and inlines, and plots that still work in the published page."""
import copy, json, os, re, shutil
import nbformat.v4 as v4
from trappy.nbexport import HTML
from trappy.nbexport.exporter import TrappyPlotterPreprocessor
from trappy.plotter import AttrConf
from trappy.plotter.EventPlot import EventPlot
from trappy.plotter.ILinePlot import ILinePlot
from checks import C21, C22
from vlib import core
from vlib.pages import Dom, play
from vlib.plots import Gen

CASES = {"quick": 640, "thorough": 40000}
RULE = ("A case is 1-3 notebooks of 0-8 cells each (code with 0-3 outputs of any kind, text, raw), the lines of whose HTML outputs are text, blank lines, near misses of markers, marked lines, blocks (closed, on one "
        "line, open to the end, nested, stops without start), imports of the package's and of other files with and without final newline, and library references, repeated within and across cells and notebooks; "
        "some pages of real plots, published and run. Distinct by the kinds of line of each output.")
ASSUMPTIONS = ["a line has one kind of marker", "HTML results of a cell's last expression have no markers", "imported files exist", "a block does not stop and start again on one line"]
REQUIRED = ["outputs", "lines kept", "marked lines", "blocks", "blocks on one line", "blocks open to the end", "imports", "imports repeated", "libraries", "libraries repeated", "imports in removed blocks",
            "files without final newline", "other outputs unchanged", "other cells unchanged", "notebooks exported", "notebooks after the first", "whole pages", "published plots run", "published event plots"]

START, STOP, LINE = "/* TRAPPY_PUBLISH_REMOVE_START */", "/* TRAPPY_PUBLISH_REMOVE_STOP */", "/* TRAPPY_PUBLISH_REMOVE_LINE */"
SHIPPED = ["plotter/js/ILinePlot.js", "plotter/js/EventPlot.js", "plotter/css/EventPlot.css", "nbexport/__init__.py"]


class World(object):
    """The files and libraries there are, and tokens that occur once."""
    def __init__(self, ctx, page):
        rng = ctx.rng
        self.ctx, self.rng, self.n = ctx, rng, 0
        self.files = {}
        # the page is parsed again by the exporter: there, scripts outside of script elements are not text
        for n in [] if page else rng.sample(SHIPPED, 2):
            with open(os.path.join(core.REPO, "trappy", n)) as f:
                self.files[n] = f.read()
        os.makedirs(ctx.path("src/more"))
        for i, p in enumerate(["src/own0.js", "src/own1.js", "src/more/own0.js", "src/own0.js.js"]):
            p = ctx.path(p)
            t = rng.choice(["", "\n", "var own%d = 1;" % i, "var own%d = 1;\n" % i, "// own%d\n\n  f();\n" % i, "// own%d\n}" % i, "// own%d\n\n\n" % i, "// own%d  \n\tg(); \n  " % i])
            with open(p, "w") as f:
                f.write(t)
            self.files[p] = t
        self.libs = ["http://a.example/x%d.js" % i for i in range(2)] + ["//cdn/lib?v=1&w=2", "//cdn/lib?v=2", "//cdn/lib", "https://b.example/x0.js"]

    def tok(self):
        self.n += 1
        return "line%dx" % self.n

    def text(self):
        rng, t = self.rng, self.tok()
        return rng.choice([t, "  " + t + "  ", "<div>" + t + "</div>", "", "   ", "\t" + t, t + " TRAPPY_PUBLISH_REMOVE_START", "/*TRAPPY_PUBLISH_REMOVE_LINE*/ " + t, "/* TRAPPY_PUBLISH_REMOVE */ " + t,
                           t + ' <!-- TRAPPY_PUBLISH_SOURCE_LIB = "" -->', t + " /* TRAPPY_PUBLISH_IMPORT = x */", "/* TRAPPY_PUBLISH_REMOVE_STOP " + t, t + " <!-- x -->", t + "\u00e9\r", '"' + t + '\\n"'])


class Export(object):
    """What an export has inlined so far; gives the lines expected of each output."""
    def __init__(self, w):
        self.w, self.files, self.libs = w, set(), set()

    def output(self):
        """(lines, expected lines, kinds)"""
        w, rng, ctx = self.w, self.w.rng, self.w.ctx
        lines, want, kinds = [], [], ""
        for _ in range(rng.choice([0, 1, 3, 8, 20])):
            k = rng.random()
            if k < .45:
                t = w.text()
                lines.append(t)
                want.append(t)
                ctx.count("lines kept")
                kinds += "t"
            elif k < .6:
                lines.append(rng.choice(["%s", "gone(); %s", "%s // gone", " x %s y"]) % LINE)
                ctx.count("marked lines")
                kinds += "m"
            elif k < .75:
                j = rng.random()
                pre, post = rng.choice(["", "  ", "x "]), rng.choice(["", " y"])
                if j < .15:
                    lines.append(pre + START + " gone " + STOP + post)
                    ctx.count("blocks on one line")
                    kinds += "1"
                    continue
                if j < .25:
                    lines.append(pre + STOP + post)
                    kinds += "]"
                    continue
                lines.append(pre + START + post)
                for _ in range(rng.choice([0, 1, 4])):
                    q = rng.random()
                    if q < .5:
                        lines.append("gone " + w.text())
                    elif q < .65:
                        lines.append('/* TRAPPY_PUBLISH_IMPORT = "%s" */' % rng.choice(list(w.files)))
                        ctx.count("imports in removed blocks")
                    elif q < .8:
                        lines.append('<!-- TRAPPY_PUBLISH_SOURCE_LIB = "%s" -->' % rng.choice(w.libs))
                    else:
                        lines.append(rng.choice([START, LINE]))
                ctx.count("blocks")
                if j < .35:
                    ctx.count("blocks open to the end")
                    kinds += "["
                    break
                lines.append(pre + STOP + post)
                kinds += "b"
            elif k < .88:
                f = rng.choice(list(w.files))
                lines.append(rng.choice(["%s", "    %s", "<script>%s"]) % ('/* TRAPPY_PUBLISH_IMPORT = "%s" */' % f))
                if f in self.files:
                    ctx.count("imports repeated")
                    kinds += "i"
                    continue
                self.files.add(f)
                body = w.files[f]
                if body and not body.endswith("\n"):
                    ctx.count("files without final newline")
                want.extend(body[:-1].split("\n") if body.endswith("\n") else body.split("\n") if body else [])
                ctx.count("imports")
                kinds += "I"
            else:
                u = rng.choice(w.libs)
                lines.append(rng.choice(["%s", "  %s"]) % ('<!-- TRAPPY_PUBLISH_SOURCE_LIB = "%s" -->' % u))
                if u in self.libs:
                    ctx.count("libraries repeated")
                    kinds += "l"
                    continue
                self.libs.add(u)
                want.append(('lib', u))
                ctx.count("libraries")
                kinds += "L"
        return lines, want, kinds


TAG = re.compile(r'^\s*<script [^<>]*src="([^"]*)"[^<>]*></script>\s*$')


def same(ctx, what, text, want):
    got = text.split("\n") if want or text else []
    ok = len(got) == len(want)
    for g, w in zip(got, want):
        if isinstance(w, tuple):
            m = TAG.match(g)
            ok = ok and m is not None and m.group(1) == w[1]
        else:
            ok = ok and g == w
    if not ok:
        k = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w and not isinstance(w, tuple)), min(len(got), len(want)))
        ctx.check(False, "%s is not as expected from line %d: %r, expected %r" % (what, k, got[k:k + 6], want[k:k + 6]), got=got[:200], expected=want[:200])
    ctx.count("outputs")


def build(w, ex):
    """(notebook, [(cell, output, expected lines)], kinds)"""
    rng = w.rng
    cells, want, kinds = [], [], []
    for c in range(rng.choice([0, 1, 2, 4, 8])):
        k = rng.random()
        if k < .2:
            cells.append(v4.new_markdown_cell("# %s\n%s\n%s" % (w.tok(), LINE, START)))
        elif k < .27:
            cells.append(v4.new_raw_cell("%s %s\n/* TRAPPY_PUBLISH_IMPORT = \"nowhere\" */" % (w.tok(), LINE)))
        else:
            outs = []
            for o in range(rng.choice([0, 1, 1, 2, 3])):
                j = rng.random()
                if j < .7:
                    lines, exp, ks = ex.output()
                    data = {"text/html": "\n".join(lines)}
                    if rng.random() < .5:
                        data["text/plain"] = "<HTML> %s" % LINE
                    outs.append(v4.new_output("display_data", data=data))
                    want.append((c, o, exp))
                    kinds.append(ks)
                elif j < .8:
                    outs.append(v4.new_output("stream", name="stdout", text="%s %s\n" % (w.tok(), LINE)))
                elif j < .87:
                    outs.append(v4.new_output("display_data", data={"text/plain": "%s %s" % (w.tok(), START)}))
                elif j < .94:
                    outs.append(v4.new_output("execute_result", data={"text/html": "<b>%s</b>" % w.tok(), "text/plain": LINE}, execution_count=1))
                else:
                    outs.append(v4.new_output("error", ename="E", evalue="%s %s" % (w.tok(), LINE), traceback=["a"]))
            cells.append(v4.new_code_cell("x = 1 %s\n%s" % (LINE, w.tok()), outputs=outs))
    return v4.new_notebook(cells=cells), want, kinds


def unchanged(ctx, before, after, want):
    """Everything but the HTML of the outputs listed is as it was."""
    a, b = copy.deepcopy(before), copy.deepcopy(after)
    for c, o, _ in want:
        for nb in (a, b):
            nb.cells[c].outputs[o].data["text/html"] = ""
    ctx.check(len(a.cells) == len(b.cells), "%d cells, there were %d" % (len(b.cells), len(a.cells)))
    for i, (x, y) in enumerate(zip(a.cells, b.cells)):
        ctx.check(x == y, "cell %d was changed besides its marked outputs" % i, got=json.dumps(y), expected=json.dumps(x))
        if x.cell_type != "code":
            ctx.count("other cells unchanged")
        else:
            ctx.count("other outputs unchanged", sum(1 for o in x.outputs if o.output_type != "display_data" or "text/html" not in o.data))


def case(ctx):
    rng = ctx.rng
    if rng.random() < .12:
        return plots(ctx)
    mode = rng.choice(["filter", "cells", "notebook", "notebook", "page"])
    w = World(ctx, mode == "page")
    kinds = []
    if mode == "filter":
        p, ex = TrappyPlotterPreprocessor(), Export(w)
        for i in range(rng.choice([1, 3, 6])):
            lines, want, ks = ex.output()
            kinds.append(ks)
            ctx.keep("output %d" % i, "\n".join(lines))
            same(ctx, "output %d" % i, p.filter_output("\n".join(lines)), want)
    elif mode == "cells":
        p, ex = TrappyPlotterPreprocessor(), Export(w)
        nb, want, kinds = build(w, ex)
        ctx.keep("notebook", json.dumps(nb, indent=1))
        before = copy.deepcopy(nb)
        for i, c in enumerate(nb.cells):
            r = p.preprocess_cell(c, {"metadata": {}}, i)
            ctx.check(len(r) == 2, "preprocess_cell gives %r" % (r,))
            nb.cells[i] = r[0]
        for c, o, exp in want:
            same(ctx, "output %d of cell %d" % (o, c), nb.cells[c].outputs[o].data["text/html"], exp)
        unchanged(ctx, before, nb, want)
    else:
        p = TrappyPlotterPreprocessor(enabled=True) if mode == "notebook" else HTML()
        for k in range(rng.choice([1, 2, 2, 3])):
            ex = Export(w)
            nb, want, ks = build(w, ex)
            kinds += ks
            before = copy.deepcopy(nb)
            ctx.keep("notebook %d" % k, json.dumps(nb, indent=1))
            if mode == "notebook":
                out, _ = rng.choice([p, p.preprocess])(nb, {"metadata": {}})
                for c, o, exp in want:
                    same(ctx, "output %d of cell %d of notebook %d" % (o, c, k), out.cells[c].outputs[o].data["text/html"], exp)
                unchanged(ctx, before, out, want)
            else:
                text, _ = p.from_notebook_node(nb)
                ctx.check(nb == before, "exporting changed the notebook given")
                whole(ctx, text, want, ex, w)
            ctx.count("notebooks exported")
            if k:
                ctx.count("notebooks after the first")
    ctx.seen(mode, tuple(kinds))
    ctx.sample(dict(mode=mode, kinds=kinds))


def whole(ctx, text, want, ex, w):
    """In the page: what was kept, in order, each library once, each inlined file once, and nothing that was removed."""
    toks = [m for _, _, exp in want for l in exp if not isinstance(l, tuple) for m in re.findall(r"\bline\d+x", l)]
    pos = -1
    for t in toks:
        pos = text.find(t, pos + 1)
        ctx.check(pos >= 0, "%s is missing from the page, or out of order" % t)
    ctx.check("gone" not in text, "removed text is in the page: %r" % text[max(0, text.find("gone") - 80):text.find("gone") + 40])
    for u in w.libs:
        n = len(re.findall(r'<script [^<>]*src="%s"' % re.escape(u.replace("&", "&amp;")), text)) + (len(re.findall(r'<script [^<>]*src="%s"' % re.escape(u), text)) if "&" in u else 0)
        ctx.check(n == (u in ex.libs), "the library %s is in the page %d times, expected %d" % (u, n, u in ex.libs))
    ctx.count("whole pages")


def plots(ctx):
    """Pages of real plots: published, they make the same plots without the notebook server's scripts."""
    rng = ctx.rng
    raw, cells = [], []
    for i in range(rng.choice([1, 2, 3])):
        shutil.rmtree(ctx.path("jupyter"), ignore_errors=True)
        if rng.random() < .65:
            while True:
                g = Gen(rng, AttrConf.PIVOT_VAL, filters=False, drop=0)
                g.pivot = rng.choice([None, "p"])
                traces, templates, column = g.args()
                if any(c.series for c in g.constraints()):
                    break
            kw = {} if g.pivot is None else {"pivot": g.pivot}
            text = C21.view(ctx, ILinePlot(traces, templates, column=column, permute=g.permute, **kw), True)
            raw.append(("line", text, play(ctx, Dom(text), [C21.script()], "raw%d" % i)))
        else:
            data = {"t%d" % k: [[k + .1, k + .5, "0"], [k + 1, k + 2, "0"]] for k in range(rng.choice([1, 3]))}
            text, ev = C22.page(ctx, lambda: EventPlot(data, sorted(data), [0, 10], lanes=["0"]).view())
            raw.append(("event", text, ev))
        cells.append(v4.new_code_cell("plot", outputs=[v4.new_output("display_data", data={"text/html": raw[-1][1]})]))
    nb = v4.new_notebook(cells=cells)
    ctx.keep("notebook", json.dumps(nb, indent=1)[:40000])
    ex = HTML()
    for again in range(rng.choice([1, 2])):
        out, _ = TrappyPlotterPreprocessor(enabled=True).preprocess(copy.deepcopy(nb), {"metadata": {}})
        check_published(ctx, raw, "".join(c.outputs[0].data["text/html"] for c in out.cells), True)
        page, _ = ex.from_notebook_node(copy.deepcopy(nb))
        check_published(ctx, raw, page, False)
    ctx.seen("plots", tuple(k for k, _, _ in raw), tuple(len(t) for _, t, _ in raw))
    ctx.sample(dict(plots=[k for k, _, _ in raw]))


def check_published(ctx, raw, text, exact):
    dom = Dom(text)
    mine = [s for s in dom.scripts if "ILinePlot" in s or "EventPlot" in s or "_data" in s]
    for s in mine:
        for word in ("TRAPPY_PUBLISH", "ilp_req", "require.config"):
            ctx.check(word not in s, "a published plot still has %s" % word, script=s[:1500])
    with open(os.path.join(core.REPO, "trappy/plotter/js/EventPlot.js")) as f:
        evjs = f.read().strip()
    events = [r for k, _, r in raw if k == "event"]
    n = sum(s.count(evjs) for s in mine)
    ctx.check(n == bool(events), "EventPlot.js is in the page %d times, %d event plots" % (n, len(events)))
    # the event plots' own drawing needs a browser: only the calls to it are run
    dom.scripts = [s.replace(evjs, "") for s in mine]
    r = play(ctx, dom, name="published")
    ctx.check(not r["errors"] or any(p[2]["errors"] for p in raw if p[0] == "line"), "the published scripts fail: %r" % r["errors"][:3])
    ctx.check(not r["required"], "the published page loads scripts of the notebook server")
    want = [q for k, _, x in raw if k == "line" for q in x["graphs"]]
    strip = lambda q: {k: v for k, v in q.items() if k != "n"}
    ctx.check([strip(q) for q in r["graphs"]] == [strip(q) for q in want], "the published page makes %d plots that differ from the %d of the notebook" % (len(r["graphs"]), len(want)))
    ctx.check([e for e in r["events"]] == events, "the published event plots differ from those of the notebook: %r" % (r["events"],))
    libs = re.findall(r'<script [^<>]*src="([^"]*(?:dygraph|synchronizer|underscore|d3)[^"]*)"', text)
    ctx.check(len(libs) == len(set(libs)) == 3 * any(k == "line" for k, _, _ in raw) + 2 * bool(events), "the libraries in the page are %r" % libs)
    ctx.count("published plots run", len(want))
    ctx.count("published event plots", len(events))
