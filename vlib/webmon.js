// The MIDI monitor tab, used by a user, over a small stand-in for jQuery and the DOM (with event bubbling).
const fs = require('fs'), path = require('path');
const {page, Timers, drain, root, repo, handlers} = require('./webapp.js');

class Node_ {
    constructor(html) {
        const m = /^<([\w-]+)/.exec(html || '') || [];
        this.tag = m[1] || ''; this.kids = []; this.parent = null; this.on = []; this.hidden = false; this.str = null; this.attrs = {}; this.classes = new Set();
        for (const a of (html || '').matchAll(/\s\/?([\w-]+)\s*=\s*(?:"([^"]*)"|'([^']*)')/g)) this.attrs[a[1]] = a[2] ?? a[3];
        for (const c of (this.attrs.class || '').split(/\s+/)) if (c) this.classes.add(c);
    }
    get content() { return this.str !== null ? this.str : this.kids.map((k) => typeof k == 'string' ? k : k.content).join(''); }
    *all() { yield this; for (const k of this.kids) if (typeof k != 'string') yield* k.all(); }
    get visible() { return !this.hidden; }
    cut() { if (this.parent) this.parent.kids = this.parent.kids.filter((k) => k !== this); this.parent = null; }
    scrollIntoView() {}
    async fire(type) {
        let stop = false;
        const e = {type, target: this, currentTarget: this, stopPropagation() { stop = true; }, preventDefault() {}};
        const chain = [];
        for (let n = this; n; n = n.parent) chain.push(n);
        for (const n of chain) {
            for (const h of n.on.slice()) if (h.evs.includes(type)) { e.currentTarget = n; await h.f.call(n, e); }
            if (stop) break;
        }
    }
    matches(sel) { return sel.split(',').map((s) => s.trim()).some((s) => { const p = s.match(/^([\w-]*)((?:\.[\w-]+)*)$/); if (!p) throw new Error('selector ' + sel); return (!p[1] || p[1] == this.tag) && p[2].split('.').filter(Boolean).every((c) => this.classes.has(c)); }); }
}
function Q(list) {
    const o = {
        length: list.length, jquery: '3',
        append(...a) {
            const t = list[0];
            for (const x of a.flat(Infinity)) {
                if (x === null || x === undefined) continue;
                if (x.jquery) { for (let i = 0; i < x.length; i++) { x[i].cut(); x[i].parent = t; t.kids.push(x[i]); } }
                else t.kids.push(String(x));
            }
            if (a.length) t.str = null;
            return o;
        },
        empty() { for (const e of list) { for (const k of e.kids) if (typeof k != 'string') k.parent = null; e.kids = []; e.str = null; } return o; },
        remove() { for (const e of list) e.cut(); return o; },
        text(v) { if (v === undefined) return list.map((e) => e.content).join(''); for (const e of list) { e.kids = []; e.str = v === null ? '' : Array.isArray(v) ? v.join(',') : String(v); } return o; },
        html(v) { return o.text(v); },
        on(evs, f) { for (const e of list) e.on.push({evs: evs.split(/\s+/), f}); return o; },
        addClass(c) { for (const e of list) for (const x of (c || '').split(/\s+/)) if (x) e.classes.add(x); return o; },
        removeClass(c) { for (const e of list) for (const x of (c || '').split(/\s+/)) e.classes.delete(x); return o; },
        toggleClass(c, on) { for (const e of list) for (const x of c.split(/\s+/)) { const w = on === undefined ? !e.classes.has(x) : !!on; if (w) e.classes.add(x); else e.classes.delete(x); } return o; },
        hasClass(c) { return list.some((e) => e.classes.has(c)); },
        toggle(on) { for (const e of list) e.hidden = on === undefined ? !e.hidden : !on; return o; },
        show() { return o.toggle(true); }, hide() { return o.toggle(false); },
        find(sel) { const r = []; for (const e of list) for (const k of e.all()) if (k !== e && k.matches(sel)) r.push(k); return Q(r); },
        children(sel) { const r = []; for (const e of list) for (const k of e.kids) if (typeof k != 'string' && (!sel || k.matches(sel))) r.push(k); return Q(r); },
        first() { return Q(list.slice(0, 1)); }, last() { return Q(list.slice(-1)); }, eq(i) { return Q(list.slice(i, i + 1)); }, get(i) { return i === undefined ? list : list[i]; },
        each(f) { list.forEach((e, i) => f.call(e, i, e)); return o; },
        slice(a, b) { return Q(list.slice(a, b)); },
        prop() { return o; }, css() { return o; }, attr(k, v) { if (v === undefined) return list[0] && list[0].attrs[k]; for (const e of list) e.attrs[k] = String(v); return o; },
        parent() { return Q(list[0] && list[0].parent ? [list[0].parent] : []); }
    };
    list.forEach((e, i) => { o[i] = e; });
    return o;
}
const VIRTUAL = ['ParameterKeys', 'Parameter', 'ParameterDefault', 'Parameters', 'Protocol', 'Morph', 'Tempo', 'Tuner', 'Stats', 'ClientSetup', 'Client'].map((n) => 'clients/kemper/virtual/VirtualKemper' + n + '.js');

handlers.monitor = async function (c) {
    const local = Object.assign({}, c.local), errors = [];
    let ctx = null, head = null;
    async function load() {
        const timers = new Timers();
        ctx = page({timers, log: [], globals: {
            localStorage: {getItem: (k) => k in local ? local[k] : null, setItem: (k, v) => { local[k] = String(v); }, removeItem: (k) => { delete local[k]; }},
            fetch: async (url) => {
                url = decodeURI(url);
                if (url.endsWith('clients/toc.php')) { const d = path.join(repo, 'content/lib/pyswitch/clients'); return {ok: true, text: async () => JSON.stringify({type: 'dir', name: 'clients', children: fs.readdirSync(d).sort().filter((x) => !/^[._]/.test(x)).map((x) => ({type: fs.statSync(path.join(d, x)).isDirectory() ? 'dir' : 'file', name: x}))})}; }
                return {ok: false};
            }
        }});
        ctx.$ = (x) => x instanceof Node_ ? Q([x]) : (x && x.jquery ? x : Q([new Node_(x)]));
        ctx.jQuery = ctx.$;
        ctx.__load(['Tools', 'LocalState', 'PeriodCounter', 'Client', 'ClientFactory', 'KemperClient', 'BoomerangClient', 'Tab', 'VirtualClient']);
        for (const f of VIRTUAL) ctx.__run(fs.readFileSync(path.join(root, f), 'utf8'));
        const dir = path.join(root, 'clients/kemper/virtual');
        for (const f of fs.readdirSync(dir).sort()) if (f.endsWith('.js') && !VIRTUAL.some((v) => v.endsWith('/' + f)) && !f.includes('UI')) ctx.__run(fs.readFileSync(path.join(dir, f), 'utf8'));
        ctx.__load(['MidiMonitor']);
        ctx.__errors = errors;
        ctx.__run(`class Controller { static VERSION = 'v'; constructor() { this.pyswitch = {setMidiMonitor(m) { __mon = m; }}; } handle(e) { __errors.push(String(e && e.stack || e)); } }
            var __mon = null, ctl = new Controller(), tab = new MidiMonitor(ctl, 'MIDI Monitor');`);
        await ctx.__run('tab.initMonitor()');
    }
    const nodes = () => [...ctx.__run('tab.container')[0].all()];
    const body = () => { const trs = nodes().filter((n) => n.tag == 'tr'); return trs; };
    const clickable = (n) => n.on.some((h) => h.evs.includes('click'));
    // a line of the ignore list has 2 cells, a message has 5, a comment one
    const cells = (tr) => tr.kids.filter((k) => k.tag == 'td');
    const lines = () => body().filter((t) => cells(t).length != 2);
    const ignored = () => body().filter((t) => cells(t).length == 2);
    const shown = (n) => { for (let x = n; x && x.tag != 'tr'; x = x.parent) if (x.hidden) return false; return true; };
    const cell = (td) => { const s = [...td.all()].filter((k) => k !== td && k.tag == 'span'); return [td.content, s.every(shown)]; };
    const view = () => ({
        lines: lines().map((t) => cells(t).length == 1 ? [t.content] : cells(t).slice(1).map(cell)),
        ignored: ignored().map((t) => cells(t)[1].content)
    });
    const button = (b) => nodes().filter((n) => n.tag == 'span' && clickable(n) && (n.content == b || (n.attrs.title || '').toLowerCase().includes(b)));
    await load();
    const out = [Object.assign({hit: 1}, view())];
    for (const op of c.ops) {
        let hit = 1;
        if (op[0] == 'msg') { ctx.__m = op[3] ? new Uint8Array(op[2]) : op[2]; ctx.__run(op[1] == 'in' ? '__mon.monitorInput(__m)' : '__mon.monitorOutput(__m)'); }
        else if (op[0] == 'button') { const b = button(op[1]); hit = b.length; if (b.length) await b[0].fire('click'); }
        else if (op[0] == 'ignore') { const t = lines()[op[1]]; const b = t ? [...t.all()].filter(clickable) : []; hit = b.length; if (b.length) await b[0].fire('click'); }
        else if (op[0] == 'unignore') { const t = ignored()[op[1]]; const b = t ? [...t.all()].filter(clickable) : []; hit = b.length; if (b.length) await b[0].fire('click'); }
        else if (op[0] == 'area') { const t = nodes().filter((n) => n.tag == 'table').pop(); await t.fire('click'); }
        else if (op[0] == 'leave') ctx.__run('tab.deactivate()');
        else if (op[0] == 'comment') { ctx.__m = op[1]; ctx.__run('tab.addComment(__m)'); }
        else if (op[0] == 'reload') await load();
        await drain();
        out.push(Object.assign({hit}, op[0] == 'msg' && !op[4] ? {} : view()));
    }
    return {steps: out, errors};
};
