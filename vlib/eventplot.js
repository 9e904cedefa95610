// Runs pages with event plots and what a user does with them; reports what is drawn after each action.
"use strict";
const fs = require("fs"), vm = require("vm"), make = require("./d3.js");
const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const width = {};
job.plots.forEach(p => { width[p.id] = p.width; });
const env = make(width), d3 = env.d3;
const box = {d3: d3, $: env.$, jQuery: env.$, console: console, isNaN: isNaN, parseFloat: parseFloat,
    document: {getElementById: id => env.root.querySelector("#" + id), body: env.body, createElement: t => new env.El(t)}};
vm.createContext(box);
const globalThis_ = vm.runInContext("this", box);
globalThis_.window = globalThis_;
globalThis_.isWindow = true;
globalThis_.on = env.win.on;
globalThis_.innerWidth = 1000;
box.require = {config: () => (deps, f) => f()};
const errors = [];
const tryTo = (what, f) => { try { return f(); } catch (e) { errors.push([what, String(e && e.stack || e).split("\n").slice(0, 3).join(" | ")]); } };
// selecting the window finds its handlers
const select = d3.select;
d3.select = s => s === globalThis_ ? select(env.win) : select(s);
job.sources.forEach(f => vm.runInContext(fs.readFileSync(f, "utf8"), box, {filename: f}));
job.plots.forEach((p, i) => {
    const div = env.body.add(new env.El("div"));
    div.attrs.id = p.id;
    p.scripts.forEach(s => tryTo("plot " + i, () => vm.runInContext(s, box, {filename: "page" + i})));
});

function offset(n) {
    let x = 0, y = 0;
    for (; n && n.tagName !== "svg"; n = n.parentNode) {
        const m = /translate\(\s*([-\d.e]+)[ ,]+([-\d.e]+)/.exec(n.attrs.transform || "");
        if (m) { x += +m[1]; y += +m[2]; }
    }
    return [x, y];
}
const seen = n => { for (; n; n = n.parentNode) if (n.attrs.visibility === "hidden" || n.styles.visibility === "hidden" || n.styles.display === "none") return false; return true; };
const own = n => { while (n && n.tagName !== "svg") n = n.parentNode; return n; };
const num = v => v === undefined || v === null ? null : +v;
function shape(n) {
    const o = offset(n), a = n.attrs;
    return {tag: n.tagName, dx: o[0], dy: o[1], d: a.d === undefined ? null : String(a.d), stroke: a.stroke || n.styles.stroke || null, fill: a.fill || n.styles.fill || null, text: n.tagName === "text" ? n.textContent : null,
        x: num(a.x), y: num(a.y), w: num(a.width), h: num(a.height), x1: num(a.x1), x2: num(a.x2), y1: num(a.y1), y2: num(a.y2), sw: num(a["stroke-width"]), name: n.__data__ && n.__data__.name || null};
}
function parts(p) {
    const div = env.root.querySelector("#" + p.id), all = div.all();
    const main = own(all.find(n => n.zoom)) || (all.find(n => n.zoom)), mini = own(all.find(n => n.brush) || null);
    return {div: div, main: main, mini: mini, svgs: all.filter(n => n.tagName === "svg")};
}
function picture(svg) {
    if (!svg) return null;
    const all = svg.all().filter(seen);
    const axes = all.filter(n => n.axis).map(n => Object.assign({dx: offset(n)[0], dy: offset(n)[1]}, n.axis));
    return {width: num(svg.attrs.width), height: num(svg.attrs.height), axes: axes, shapes: all.filter(n => ["path", "line", "text", "rect"].indexOf(n.tagName) >= 0 && !/^(background|extent)$/.test(n.attrs["class"] || "") && !(n.parentNode && /resize/.test(n.parentNode.attrs["class"] || ""))).map(shape)};
}
function state() {
    return job.plots.map(p => {
        const q = parts(p);
        const brush = q.mini && q.mini.all().find(n => n.brush);
        return {main: picture(q.main), mini: picture(q.mini), brush: brush ? brush.brush.extent() : null,
            info: q.svgs.filter(s => s !== q.main && s !== q.mini).map(picture), markup: q.div.markup};
    });
}
const out = {states: [], errors: errors, tips: [], notes: env.notes};
out.states.push(state());
job.actions.forEach((a, i) => {
    const p = job.plots[a.plot], q = parts(p), what = "action " + i;
    tryTo(what, () => {
        const z = [q.main].concat(q.main.all()).find(n => n.zoom);
        if (a.kind === "wheel") z.zoom.wheel(z, a.at, a.factor);
        else if (a.kind === "drag") z.zoom.drag(z, a.steps);
        else if (a.kind === "brush") { const n = q.mini.all().find(m => m.brush); n.brush.drag(n, a.extents); }
        else if (a.kind === "resize") {
            Object.assign(width, a.widths);
            Object.keys(env.win.on).forEach(k => { if (k.split(".")[0] === "resize") env.win.on[k].call(globalThis_); });
            if (typeof globalThis_.onresize === "function") globalThis_.onresize();
        } else if (a.kind === "click") {
            d3.at = [a.x, a.y];
            d3.event = {ctrlKey: a.ctrl, altKey: a.alt, shiftKey: false, preventDefault() {}, stopPropagation() {}, pageX: a.x, pageY: a.y, type: "contextmenu"};
            [q.main].concat(q.main.all()).forEach(n => Object.keys(n.on).forEach(k => { if (k.split(".")[0] === "contextmenu") n.on[k].call(n, n.__data__, 0); }));
            d3.event = null;
        } else if (a.kind === "hover") {
            const n = q.main.all().filter(m => m.tagName === "path" && seen(m) && m.__data__ && m.__data__.name === a.name)[0];
            env.notes.tip = null;
            if (n) {
                d3.event = {pageX: 10, pageY: 10, type: "mouseover"};
                ["mouseover", "mouseenter", "mousemove"].forEach(t => { if (n.on[t]) n.on[t].call(n, n.__data__, 0); });
                out.tips.push([i, env.notes.tip]);
                if (n.on.mouseout) n.on.mouseout.call(n, n.__data__, 0);
                d3.event = null;
            } else out.tips.push([i, false]);
        } else if (a.kind === "help") {
            const m = /onclick="([^"]*)"/.exec(q.div.markup);
            env.notes.dialog = null;
            vm.runInContext(m[1], box);
            out.dialog = env.notes.dialog;
        }
    });
    out.states.push(state());
});
process.stdout.write(JSON.stringify(out, (k, v) => typeof v === "number" && !isFinite(v) ? String(v) : v));
