"""What notebook pages show: captures the HTML displayed and runs its scripts in node with recording libraries."""
import contextlib, html.parser, json, os, subprocess, sys
from . import core

RUNNER = os.path.join(os.path.dirname(os.path.abspath(__file__)), "page.js")


@contextlib.contextmanager
def shown():
    """The list of what is displayed, as HTML text."""
    import IPython.display as d
    from IPython.core import display_functions as f
    orig = f.display
    out = []

    def display(*objs, **kw):
        for o in objs:
            out.append(getattr(o, "data", o))
    touched = []
    for m in [d, f] + [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "trappy" and m is not None]:
        if getattr(m, "display", None) is orig:
            m.display = display
            touched.append(m)
    try:
        yield out
    finally:
        for m in touched:
            m.display = orig


class Dom(html.parser.HTMLParser):
    """Elements with their ids, the table's rows of cells, the caption, and the scripts, in order."""
    def __init__(self, text):
        html.parser.HTMLParser.__init__(self)
        self.ids, self.classes, self.rows, self.scripts, self.caption, self.styles = [], {}, [], [], None, []
        self._in = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "tr":
            self.rows.append([])
        elif tag == "td":
            self.rows[-1].append([])
        if "id" in a:
            self.ids.append(a["id"])
            self.classes[a["id"]] = a.get("class")
            if self.rows and "td" in self._in:
                self.rows[-1][-1].append(a["id"])
        if tag == "script":
            self.scripts.append("")
        if tag == "caption":
            self.caption = ""
        self._in.append(tag)

    def handle_endtag(self, tag):
        if tag in self._in:
            while self._in.pop() != tag:
                pass

    def handle_data(self, data):
        if self._in and self._in[-1] == "script":
            self.scripts[-1] += data
        if self._in and self._in[-1] == "caption":
            self.caption += data


def play(ctx, dom, sources=(), name="page"):
    """Run the page's scripts in order after the given script files; the calls recorded."""
    p = ctx.path(name + ".json")
    with open(p, "w") as f:
        json.dump(dict(ids=dom.ids, scripts=dom.scripts, sources=list(sources)), f)
    r = subprocess.run(["node", RUNNER, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if r.returncode:
        raise core.Inconclusive("node: %s" % r.stderr.decode("utf-8", "replace")[-600:])
    return json.loads(r.stdout.decode("utf-8"))
