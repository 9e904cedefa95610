// A stand-in for the parts of d3 (3.5), d3-tip and jQuery that draw plots of intervals: elements are kept, nothing is shown.
"use strict";
module.exports = function (width) {
    const notes = {unknown: {}};
    class El {
        constructor(tag) {
            this.tagName = tag.replace(/^svg:/, "");
            this.attrs = {}; this.styles = {}; this.txt = null; this.markup = ""; this.childNodes = []; this.parentNode = null; this.on = {}; this.props = {};
        }
        add(c) { if (c.parentNode) c.drop(); c.parentNode = this; this.childNodes.push(c); return c; }
        drop() {
            const p = this.parentNode;
            if (p) { p.childNodes.splice(p.childNodes.indexOf(this), 1); this.parentNode = null; }
        }
        getAttribute(n) { return n in this.attrs ? String(this.attrs[n]) : null; }
        setAttribute(n, v) { this.attrs[n] = v; }
        removeAttribute(n) { delete this.attrs[n]; }
        appendChild(c) { return this.add(c); }
        removeChild(c) { c.drop(); return c; }
        remove() { this.drop(); }
        get firstChild() { return this.childNodes[0] || null; }
        get textContent() { return this.txt === null ? this.childNodes.map(c => c.textContent).join("") : this.txt; }
        set textContent(v) { this.txt = v === null || v === undefined ? "" : String(v); this.childNodes = []; }
        get classes() { return String(this.attrs["class"] || "").split(/\s+/).filter(x => x); }
        all(out) { out = out || []; this.childNodes.forEach(c => { out.push(c); c.all(out); }); return out; }
        matches(sel) {
            return sel.split(",").some(one => {
                const parts = one.trim().split(/\s*>\s*|\s+/);
                let n = this;
                if (!n.one(parts.pop())) return false;
                while (parts.length) {
                    const p = parts.pop();
                    do { n = n.parentNode; } while (n && !n.one(p));
                    if (!n) return false;
                }
                return true;
            });
        }
        one(s) {
            const m = /^([\w:*-]*)((?:[.#][\w-]+)*)$/.exec(s);
            if (!m) return false;
            if (m[1] && m[1] !== "*" && m[1].replace(/^svg:/, "") !== this.tagName) return false;
            return (m[2].match(/[.#][\w-]+/g) || []).every(p => p[0] === "#" ? this.attrs.id === p.slice(1) : this.classes.indexOf(p.slice(1)) >= 0);
        }
        querySelector(s) { return this.querySelectorAll(s)[0] || null; }
        querySelectorAll(s) { return this.all().filter(n => n.matches(s)); }
    }
    const root = new El("html"), body = root.add(new El("body"));
    const win = {on: {}};

    const fn = v => typeof v === "function" ? v : () => v;
    function tolerant(o) {
        // methods that are not modelled keep the chain going and are noted
        return new Proxy(o, {get(t, k) {
            if (k in t || typeof k === "symbol" || k === "then") return t[k];
            if (/^\d+$/.test(k)) return undefined;
            return function () { notes.unknown[k] = (notes.unknown[k] || 0) + 1; return tolerant(t); };
        }});
    }
    // a selection: groups of nodes, each group with a parent
    class Sel {
        constructor(groups) { this.groups = groups; }
        static of(groups) { return tolerant(new Sel(groups)); }
        each(f) { this.groups.forEach(g => g.nodes.forEach((n, i) => { if (n) f.call(n, n.__data__, i, 0); })); return Sel.of(this.groups); }
        nodes() { const o = []; this.each(function () { o.push(this); }); return o; }
        node() { return this.nodes()[0] || null; }
        size() { return this.nodes().length; }
        empty() { return !this.node(); }
        get length() { return this.groups.length; }
        select(s) {
            return Sel.of(this.groups.map(g => ({parent: g.parent, nodes: g.nodes.map((n, i) => {
                if (!n) return n;
                const c = typeof s === "function" ? s.call(n, n.__data__, i) : n.querySelector(s);
                if (c && "__data__" in n) c.__data__ = n.__data__;
                return c;
            })})));
        }
        selectAll(s) {
            const out = [];
            this.each(function (d, i) { out.push({parent: this, nodes: typeof s === "function" ? Array.from(s.call(this, d, i)) : this.querySelectorAll(s)}); });
            return Sel.of(out);
        }
        filter(f) {
            const t = typeof f === "function" ? f : function () { return this.matches(f); };
            return Sel.of(this.groups.map(g => ({parent: g.parent, nodes: g.nodes.filter((n, i) => n && t.call(n, n.__data__, i))})));
        }
        data(values, key) {
            if (!arguments.length) return this.nodes().map(n => n.__data__);
            const enter = [], exit = [];
            const update = this.groups.map(g => {
                const vs = typeof values === "function" ? values.call(g.parent, g.parent && g.parent.__data__, 0) : values;
                const up = {parent: g.parent, nodes: []}, en = {parent: g.parent, waits: [], update: up}, ex = {parent: g.parent, nodes: []};
                let left = g.nodes.slice();
                Array.from(vs).forEach((v, i) => {
                    let n;
                    if (key) {
                        const k = key.call(vs, v, i), j = left.findIndex(m => m && key.call(m, m.__data__, i) === k);
                        n = j >= 0 ? left.splice(j, 1)[0] : null;
                    } else { n = g.nodes[i]; left[i] = null; }
                    if (n) n.__data__ = v; else en.waits.push([i, v]);
                    up.nodes[i] = n || null;
                });
                ex.nodes = left.filter(n => n);
                enter.push(en); exit.push(ex);
                return up;
            });
            const s = new Sel(update);
            s.enter = () => tolerant(new Enter(enter));
            s.exit = () => Sel.of(exit);
            return tolerant(s);
        }
        datum(v) {
            if (!arguments.length) return (this.node() || {}).__data__;
            return this.each(function (d, i) { this.__data__ = fn(v).call(this, d, i); });
        }
        append(what) {
            return this.select(function (d, i) {
                const c = typeof what === "function" ? what.call(this, d, i) : new El(what);
                return this.add(c);
            });
        }
        insert(what) {
            return this.select(function () {
                const c = this.add(new El(what));
                this.childNodes.unshift(this.childNodes.pop());
                return c;
            });
        }
        attr(n, v) {
            if (typeof n === "object") { Object.keys(n).forEach(k => this.attr(k, n[k])); return Sel.of(this.groups); }
            if (arguments.length < 2) { const e = this.node(); return e ? e.getAttribute(n) : null; }
            return this.each(function (d, i) {
                const x = fn(v).call(this, d, i);
                if (x === null) delete this.attrs[n]; else this.attrs[n] = x;
            });
        }
        style(n, v) {
            if (typeof n === "object") { Object.keys(n).forEach(k => this.style(k, n[k])); return Sel.of(this.groups); }
            if (arguments.length < 2) { const e = this.node(); return e && n in e.styles ? String(e.styles[n]) : n === "width" ? "60px" : ""; }
            return this.each(function (d, i) {
                const x = fn(v).call(this, d, i);
                if (x === null) delete this.styles[n]; else this.styles[n] = x;
            });
        }
        property(n, v) {
            if (arguments.length < 2) return this.node()[n];
            return this.each(function (d, i) { this.props[n] = fn(v).call(this, d, i); });
        }
        classed(n, v) {
            if (arguments.length < 2) return this.node().classes.indexOf(n) >= 0;
            return this.each(function (d, i) {
                const c = this.classes.filter(x => x !== n);
                if (fn(v).call(this, d, i)) c.push(n);
                this.attrs["class"] = c.join(" ");
            });
        }
        text(v) {
            if (!arguments.length) return this.node().textContent;
            return this.each(function (d, i) { this.textContent = fn(v).call(this, d, i); });
        }
        html(v) {
            if (!arguments.length) return this.node().markup;
            return this.each(function (d, i) { this.markup = fn(v).call(this, d, i); });
        }
        on(type, f) {
            if (arguments.length < 2) { const e = this.node(); return e && e.on[type]; }
            return this.each(function () { if (f) this.on[type] = f; else delete this.on[type]; });
        }
        call(f) { f.apply(null, [Sel.of(this.groups)].concat(Array.prototype.slice.call(arguments, 1))); return Sel.of(this.groups); }
        remove() { return this.each(function () { this.drop(); }); }
        transition() { return Sel.of(this.groups); }
        duration() { return Sel.of(this.groups); }
        delay() { return Sel.of(this.groups); }
        ease() { return Sel.of(this.groups); }
        interrupt() { return Sel.of(this.groups); }
        order() { return Sel.of(this.groups); }
    }
    class Enter {
        constructor(groups) { this.groups = groups; }
        append(what) {
            return Sel.of(this.groups.map(g => {
                const nodes = [];
                g.waits.forEach(([i, v]) => {
                    const c = typeof what === "function" ? what.call(g.parent, v, i) : new El(what);
                    c.__data__ = v;
                    g.parent.add(c);
                    g.update.nodes[i] = c;      // what enters joins the selection it enters
                    nodes[i] = c;
                });
                return {parent: g.parent, nodes: Array.from(nodes, n => n || null)};
            }));
        }
        insert(what) { return this.append(what); }
        size() { return this.groups.reduce((a, g) => a + g.waits.length, 0); }
        empty() { return !this.size(); }
        call(f) { f(this); return this; }
    }

    function linear() {
        let dom = [0, 1], ran = [0, 1], cl = false;
        function s(v) {
            let t = (v - dom[0]) / (dom[1] - dom[0] || NaN);
            if (dom[1] === dom[0]) t = 0;
            if (cl) t = Math.max(0, Math.min(1, t));
            return ran[0] * (1 - t) + ran[1] * t;
        }
        s.invert = v => { let t = ran[1] === ran[0] ? 0 : (v - ran[0]) / (ran[1] - ran[0]); if (cl) t = Math.max(0, Math.min(1, t)); return dom[0] * (1 - t) + dom[1] * t; };
        s.domain = function (v) { if (!arguments.length) return dom.slice(); dom = Array.from(v, Number); return s; };
        s.range = function (v) { if (!arguments.length) return ran.slice(); ran = Array.from(v); return s; };
        s.rangeRound = s.range;
        s.clamp = function (v) { if (!arguments.length) return cl; cl = v; return s; };
        s.nice = () => s;
        s.ticks = () => dom.slice();
        s.tickFormat = () => String;
        s.copy = () => linear().domain(dom).range(ran).clamp(cl);
        return s;
    }
    function ordinal() {
        let dom = [], ran = [];
        function s(v) {
            let i = dom.indexOf(String(v));
            if (i < 0) i = dom.push(String(v)) - 1;
            return ran[i % ran.length];
        }
        s.domain = function (v) { if (!arguments.length) return dom.slice(); dom = []; Array.from(v).forEach(x => { if (dom.indexOf(String(x)) < 0) dom.push(String(x)); }); return s; };
        s.range = function (v) { if (!arguments.length) return ran.slice(); ran = Array.from(v); return s; };
        s.copy = () => ordinal().domain(dom).range(ran);
        return s;
    }
    const C20 = ["#1f77b4", "#aec7e8", "#ff7f0e", "#ffbb78", "#2ca02c", "#98df8a", "#d62728", "#ff9896", "#9467bd", "#c5b0d5", "#8c564b", "#c49c94", "#e377c2", "#f7b6d2",
        "#7f7f7f", "#c7c7c7", "#bcbd22", "#dbdb8d", "#17becf", "#9edae5"];
    const pick = step => () => ordinal().range(C20.filter((c, i) => i % step === 0));

    function dispatcher(me) {
        const on = {};
        me.on = function (t, f) { if (arguments.length < 2) return on[t]; on[t] = f; return me; };
        return (t, node) => { Object.keys(on).forEach(k => { if (k.split(".")[0] === t && on[k]) on[k].call(node, node && node.__data__, 0); }); };
    }
    function zoomBehaviour() {
        let x0, x1, y0, y1, view = {x: 0, y: 0, k: 1}, ext = [0, Infinity];
        function zoom(sel) { sel.each(function () { this.zoom = zoom; }); }
        const fire = dispatcher(zoom);
        const rescale = () => {
            if (x1) x1.domain(x0.range().map(v => (v - view.x) / view.k).map(x0.invert));
            if (y1) y1.domain(y0.range().map(v => (v - view.y) / view.k).map(y0.invert));
        };
        const scaleTo = s => { view.k = Math.max(ext[0], Math.min(ext[1], s)); };
        zoom.x = function (z) { if (!arguments.length) return x1; x1 = z; x0 = z.copy(); view = {x: 0, y: 0, k: 1}; return zoom; };
        zoom.y = function (z) { if (!arguments.length) return y1; y1 = z; y0 = z.copy(); view = {x: 0, y: 0, k: 1}; return zoom; };
        zoom.translate = function (v) { if (!arguments.length) return [view.x, view.y]; view = {x: +v[0], y: +v[1], k: view.k}; rescale(); return zoom; };
        zoom.scale = function (v) { if (!arguments.length) return view.k; view = {x: view.x, y: view.y, k: null}; scaleTo(+v); rescale(); return zoom; };
        zoom.scaleExtent = function (v) { if (!arguments.length) return ext; ext = v ? [+v[0], +v[1]] : [0, Infinity]; return zoom; };
        zoom.center = zoom.size = zoom.duration = () => zoom;
        zoom.event = sel => { sel.each(function () { fire("zoomstart", this); rescale(); fire("zoom", this); fire("zoomend", this); }); };
        // the user turns the wheel at p, or drags by d
        zoom.wheel = (node, p, factor) => {
            fire("zoomstart", node);
            const l = (p - view.x) / view.k;
            scaleTo(view.k * factor);
            view.x += p - (l * view.k + view.x);
            rescale(); fire("zoom", node); fire("zoomend", node);
        };
        zoom.drag = (node, steps) => {
            fire("zoomstart", node);
            steps.forEach(d => { view.x += d; rescale(); fire("zoom", node); });
            fire("zoomend", node);
        };
        return zoom;
    }
    function brushOf() {
        let x = null, extent = [0, 0], px = null;
        function brush(sel) {
            sel.each(function () {
                this.brush = brush;
                if (!this.querySelector("rect.extent")) {
                    ["background", "extent"].forEach(c => { this.add(new El("rect")).attrs["class"] = c; });
                    ["e", "w"].forEach(c => { const g = this.add(new El("g")); g.attrs["class"] = "resize " + c; g.add(new El("rect")); });
                }
            });
        }
        const fire = dispatcher(brush);
        brush.x = function (z) { if (!arguments.length) return x; x = z; return brush; };
        brush.y = () => brush;
        brush.clamp = () => brush;
        brush.extent = function (v) {
            if (!arguments.length) return px ? px.map(x.invert) : extent.slice();
            extent = Array.from(v, Number); px = null;
            return brush;
        };
        brush.clear = () => { extent = [0, 0]; px = null; return brush; };
        brush.empty = () => { const e = brush.extent(); return e[0] === e[1]; };
        brush.event = sel => { sel.each(function () { fire("brushstart", this); fire("brush", this); fire("brushend", this); }); };
        brush.drag = (node, list) => {
            fire("brushstart", node);
            list.forEach(e => {
                const r = x.range();
                px = e.map(v => Math.max(r[0], Math.min(r[1], x(v))));
                extent = px.map(x.invert);
                // not the ends asked for but those of the pixels
                fire("brush", node);
            });
            fire("brushend", node);
        };
        return brush;
    }
    function axisOf() {
        let sc = linear();
        function axis(sel) { sel.each(function () { this.axis = {domain: sc.domain(), range: sc.range()}; }); }
        axis.scale = function (v) { if (!arguments.length) return sc; sc = v; return axis; };
        ["orient", "ticks", "tickFormat", "tickSize", "tickPadding", "innerTickSize", "outerTickSize", "tickValues", "tickSubdivide"].forEach(k => { axis[k] = () => axis; });
        return axis;
    }
    function tipOf() {
        let h = () => "";
        const st = {};
        function tip() {}
        tip.attr = tip.direction = tip.offset = tip.rootElement = () => tip;
        tip.style = function (n, v) { if (arguments.length < 2) return n in st ? String(st[n]) : n === "width" ? "60px" : ""; st[n] = v; return tip; };
        tip.html = function (v) { if (!arguments.length) return h; h = fn(v); return tip; };
        tip.show = function (d) { tip.shown = h.apply(this, arguments); notes.tip = tip.shown; return tip; };
        tip.hide = function () { notes.tip = null; return tip; };
        tip.destroy = () => tip;
        return tip;
    }
    const find = s => typeof s === "string" ? root.querySelector(s) : s;
    const d3 = {
        version: "3.5.6",
        select: s => s === win || s && s.isWindow ? Sel.of([{parent: null, nodes: [win]}]) : Sel.of([{parent: root, nodes: [find(s)]}]),
        selectAll: s => Sel.of([{parent: root, nodes: typeof s === "string" ? root.querySelectorAll(s) : Array.from(s)}]),
        scale: {linear: linear, ordinal: ordinal, category20: pick(1), category10: pick(2), category20b: pick(1), category20c: pick(1)},
        svg: {axis: axisOf, brush: brushOf},
        behavior: {zoom: zoomBehaviour},
        tip: tipOf,
        event: null,
        mouse: () => d3.at.slice(),
        at: [0, 0],
        extent: (l, f) => { const v = Array.from(l, f || (x => x)).filter(x => x !== null && !isNaN(x)); return [v.reduce((a, b) => a < b ? a : b), v.reduce((a, b) => a > b ? a : b)]; },
        min: (l, f) => { const v = Array.from(l, f || (x => x)); return v.length ? v.reduce((a, b) => a < b ? a : b) : undefined; },
        max: (l, f) => { const v = Array.from(l, f || (x => x)); return v.length ? v.reduce((a, b) => a > b ? a : b) : undefined; },
        sum: (l, f) => Array.from(l, f || (x => x)).reduce((a, b) => a + b, 0),
        round: (v, n) => n ? Math.round(v * (n = Math.pow(10, n))) / n : Math.round(v),
        range: (a, b, c) => { if (b === undefined) { b = a; a = 0; } const o = []; for (let i = a; i < b; i += c || 1) o.push(i); return o; },
        keys: Object.keys, values: Object.values, entries: o => Object.keys(o).map(k => ({key: k, value: o[k]})),
        bisector: f => { const g = f.length === 1 ? (d, v) => f(d) - v : f; return {
            left: (a, v, lo = 0, hi = a.length) => { while (lo < hi) { const m = lo + hi >>> 1; if (g(a[m], v) < 0) lo = m + 1; else hi = m; } return lo; },
            right: (a, v, lo = 0, hi = a.length) => { while (lo < hi) { const m = lo + hi >>> 1; if (g(a[m], v) > 0) hi = m; else lo = m + 1; } return lo; }}; },
        format: () => String, rgb: x => x, map: o => new Map(Object.entries(o || {})), functor: fn,
    };
    d3.bisect = d3.bisectRight = d3.bisector(x => x).right;
    d3.bisectLeft = d3.bisector(x => x).left;

    // jQuery: elements by id, and trees of markup
    function $(sel) {
        const here = typeof sel === "string" && sel[0] === "#" ? find(sel) : null;
        const o = {markup: [typeof sel === "string" && sel[0] === "<" ? sel : ""], 0: here, length: 1};
        o.width = () => width[here ? here.attrs.id : ""] === undefined ? 900 : width[here.attrs.id];
        o.append = function () {
            Array.from(arguments).forEach(x => {
                const m = typeof x === "string" ? x : x && x.markup ? x.markup.join("") : "";
                o.markup.push(m);
                if (here) here.markup += m;
            });
            return o;
        };
        o.prepend = o.append;
        o.html = o.append;
        ["addClass", "attr", "text", "css", "show", "hide", "on", "modal", "closest", "data", "parent", "each", "find"].forEach(k => {
            o[k] = function () { o.markup.push(Array.from(arguments).filter(a => typeof a === "string").join(" ")); if (k === "modal" || k === "show") notes.dialog = o.markup.join("\n"); return o; };
        });
        return o;
    }
    $.each = (l, f) => { for (let i = 0; i < l.length; i++) f(i, l[i]); };
    $.extend = Object.assign;
    win.isWindow = true;
    return {d3: d3, $: $, El: El, root: root, body: body, win: win, notes: notes};
};
