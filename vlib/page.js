// Runs the scripts of a page with stand-ins for the browser and its libraries that record what they are given.
const fs = require("fs"), vm = require("vm");
const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const rec = {graphs: [], synced: [], errors: [], events: [], handlers: [], required: []};
const elements = {};
job.ids.forEach(id => { elements[id] = {id: id}; });
const enc = v => JSON.parse(JSON.stringify(v, (k, x) => {
    if (typeof x === "number" && !isFinite(x)) return {"$num": String(x)};
    if (x === undefined) return null;
    return x;
}));

function Dygraph(div, data, options) {
    const me = {div: div ? div.id : null, data: data, options: options, updates: [], sizes: [], n: rec.graphs.length};
    rec.graphs.push(me);
    this.rec = me;
    this.rawData_ = data.map(r => r.slice());
    const xs = data.map(r => r[0]);
    const ys = [].concat.apply([], data.map(r => r.slice(1))).filter(v => typeof v === "number" && isFinite(v));
    me.x = options.dateWindow || [xs[0], xs[xs.length - 1]];
    me.y = options.valueRange || [ys.reduce((a, b) => Math.min(a, b), Infinity), ys.reduce((a, b) => Math.max(a, b), -Infinity)];
    me.raw = this.rawData_;
}
Dygraph.prototype.xAxisRange = function () { return [this.rec.x[0], this.rec.x[1]]; };
Dygraph.prototype.yAxisRange = function () { return [this.rec.y[0], this.rec.y[1]]; };
Dygraph.prototype.updateOptions = function (o) {
    this.rec.updates.push(enc(o));
    if (o.dateWindow) this.rec.x = o.dateWindow.slice();
    if (o.valueRange) this.rec.y = o.valueRange.slice();
};
Dygraph.prototype.resize = function (w, h) { this.rec.sizes.push([w, h]); };
Dygraph.synchronize = function (graphs, o) {
    const s = {graphs: graphs.map(g => g.rec.n), options: enc(o), detached: false};
    rec.synced.push(s);
    return {detach: () => { s.detached = true; }};
};

function wrapped(sel) {
    const o = {
        closest: () => o, width: () => 900,
        on: (name, fn) => { rec.handlers.push(name); return o; },
    };
    return o;
}
const $ = sel => wrapped(sel);
$.each = (list, fn) => { for (let i = 0; i < list.length; i++) fn(i, list[i]); };

const box = {Dygraph: Dygraph, $: $, console: console, document: {getElementById: id => elements[id] || null}, isNaN: isNaN};
box.window = box;
box.require = {config: c => { rec.required.push(c); return (deps, fn) => fn(); }};
box.EventPlot = {generate: function () { rec.events.push(enc(Array.prototype.slice.call(arguments))); }};
vm.createContext(box);
job.sources.forEach(f => vm.runInContext(fs.readFileSync(f, "utf8"), box, {filename: f}));
job.scripts.forEach((s, i) => {
    try {
        vm.runInContext(s, box, {filename: "script" + i});
    } catch (e) {
        rec.errors.push([i, String(e)]);
    }
});
rec.graphs.forEach(g => { g.raw = enc(g.raw); g.data = enc(g.data); g.options = enc(g.options); });
process.stdout.write(JSON.stringify(rec));
