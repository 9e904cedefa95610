// A notebook in which cells are run, run again and cleared while its user zooms and resizes: stand-ins for the browser and the plot
// library keep the state of every plot, which is written down after each step.
const fs = require("fs"), vm = require("vm");
const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const enc = v => JSON.parse(JSON.stringify(v, (k, x) => typeof x === "number" && !isFinite(x) ? {"$num": String(x)} : x === undefined ? null : x));
const cellOf = {};          // id -> cell of the elements that exist
const widths = {};          // cell -> width of its output
let handlers = [], graphs = [], errors = [], step = 0;

function Dygraph(div, data, options) {
    if (!div) throw new Error("Div is null");
    this.div = div.id; this.sizes = []; this.data = data; this.n = graphs.length;
    this.rawData_ = data.map(r => r.slice());
    this.dateWindow = options.dateWindow || null;
    this.valueRange = options.valueRange || null;
    this.callbacks = [];
    graphs.push(this);
}
Dygraph.prototype.xAxisRange = function () {
    const r = this.rawData_;
    return this.dateWindow ? this.dateWindow.slice() : [r[0][0], r[r.length - 1][0]];
};
Dygraph.prototype.yAxisRange = function () {
    if (this.valueRange) return this.valueRange.slice();
    const ys = [].concat.apply([], this.data.map(r => r.slice(1))).filter(v => typeof v === "number" && isFinite(v));
    return [ys.reduce((a, b) => Math.min(a, b), Infinity), ys.reduce((a, b) => Math.max(a, b), -Infinity)];
};
Dygraph.prototype.updateOptions = function (o) {
    if (o.dateWindow) this.dateWindow = o.dateWindow.slice();
    if (o.valueRange) this.valueRange = o.valueRange.slice();
    this.drawn();
};
Dygraph.prototype.numRows = function () { return this.rawData_.length; };
Dygraph.prototype.drawn = function () { this.callbacks.slice().forEach(f => f(this)); };
Dygraph.prototype.resize = function (w, h) { this.sizes.push([w, h]); };
Dygraph.synchronize = function (list, o) {
    const gs = list.slice();
    let busy = false;
    const fs_ = gs.map(g => {
        const f = me => {
            if (busy || !o.zoom) return;
            busy = true;
            gs.forEach(h => {
                if (h === me) return;
                const u = {dateWindow: me.xAxisRange()};
                if (o.range) u.valueRange = me.yAxisRange();
                h.updateOptions(u);
            });
            busy = false;
        };
        g.callbacks.push(f);
        return f;
    });
    return {detach: () => gs.forEach((g, i) => { g.callbacks = g.callbacks.filter(f => f !== fs_[i]); })};
};

const on = (name, fn) => { String(name).split(/\s+/).forEach(n => handlers.push([n, fn])); };
const off = name => { handlers = handlers.filter(h => h[0] !== name && !(name[0] === "." && h[0].endsWith(name))); };
const $ = sel => {
    if (typeof sel === "object" && sel && !("id" in sel)) {
        const w = {on: (n, f) => (on(n, f), w), bind: (n, f) => (on(n, f), w), resize: f => (on("resize", f), w), off: n => (off(n), w), unbind: n => (off(n), w)};
        return w;
    }
    const id = typeof sel === "object" ? sel.id : String(sel).replace(/^#/, ""), there = id in cellOf;
    return {length: there ? 1 : 0, closest: () => ({length: there ? 1 : 0, width: () => there ? widths[cellOf[id]] : undefined})};
};
$.each = (list, fn) => {
    if (Array.isArray(list) || typeof list.length === "number") for (let i = 0; i < list.length; i++) fn.call(list[i], i, list[i]);
    else Object.keys(list).forEach(k => fn.call(list[k], k, list[k]));
};
$.inArray = (x, list) => list.indexOf(x);
$.map = (list, fn) => list.map(fn);
$.extend = Object.assign;
const box = {Dygraph: Dygraph, $: $, jQuery: $, addEventListener: on, console: console, document: {getElementById: id => id in cellOf ? {id: id} : null}, isNaN: isNaN};
box.window = box;
box.require = {config: () => (deps, fn) => fn()};
vm.createContext(box);
const run = (text, name) => {
    try {
        vm.runInContext(text, box, {filename: name});
    } catch (e) {
        errors.push([step, String(e)]);
    }
};
job.sources.forEach(f => run(fs.readFileSync(f, "utf8"), f));

const live = div => graphs.filter(g => g.div === div);
const out = [];
job.steps.forEach((s, i) => {
    step = i;
    if (s.op === "show" || s.op === "clear")
        Object.keys(cellOf).forEach(id => { if (cellOf[id] === s.cell) delete cellOf[id]; });
    if (s.op === "show") {
        if (s.width) widths[s.cell] = s.width;
        s.ids.forEach(id => { cellOf[id] = s.cell; });
        s.scripts.forEach((t, k) => run(t, "cell " + s.cell + " script " + k));
    } else if (s.op === "zoom") {
        live(s.div).forEach(g => {
            g.dateWindow = s.x.slice();
            if (s.y) g.valueRange = s.y.slice();
            g.drawn();
        });
    } else if (s.op === "unzoom") {
        live(s.div).forEach(g => { g.dateWindow = null; g.drawn(); });
    } else if (s.op === "resize") {
        Object.assign(widths, s.widths);
        handlers.slice().forEach(h => {
            if (h[0].split(".")[0] !== "resize") return;
            try { h[1](); } catch (e) { errors.push([i, String(e)]); }
        });
    }
    out.push(enc({graphs: graphs.filter(g => g.div in cellOf).map(g => ({div: g.div, cell: cellOf[g.div], x: g.xAxisRange(), y: g.yAxisRange(), size: g.sizes[g.sizes.length - 1] || null,
                                                                         raw: g.rawData_, data: g.data}))}));
});
process.stdout.write(JSON.stringify({steps: out, errors: errors}));
