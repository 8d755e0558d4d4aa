// Runs the web application itself (controller, routing with the real sammy.js, configurations, presets, MIDI bridge) in node: the DOM is a stand-in which
// records handlers, the browser services (local storage, Web MIDI, file system access) are simulated and survive "page reloads".
// stdin: one JSON request per line, stdout: one JSON answer per line.
const fs = require('fs'), vm = require('vm'), path = require('path'), crypto = require('crypto'), readline = require('readline');
const repo = process.argv[2], root = path.join(repo, 'web/htdocs');

function rng(seed) { let s = seed >>> 0; return () => { s = (s + 0x6D2B79F5) >>> 0; let t = s; t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }; }
const pause = () => new Promise((r) => setImmediate(r));

// ------------------------------------------------------------------ sources
const sources = new Map();       // class name -> {file, text, deps}
function scan(dir) {
    for (const e of fs.readdirSync(dir, {withFileTypes: true})) {
        const p = path.join(dir, e.name);
        if (e.isDirectory()) { scan(p); continue; }
        if (!e.name.endsWith('.js')) continue;
        const text = fs.readFileSync(p, 'utf8');
        for (const m of text.matchAll(/^class\s+(\w+)(?:\s+extends\s+([\w.]+))?/gm)) if (!sources.has(m[1])) sources.set(m[1], {file: p, text, base: m[2]});
    }
}
scan(path.join(root, 'js'));
scan(path.join(root, 'clients'));
scan(path.join(root, 'devices'));
scan(path.join(root, 'lib/jsmidibridge'));
const scripts = new Map();
function script(p) {
    if (!scripts.has(p)) scripts.set(p, new vm.Script(fs.readFileSync(p, 'utf8'), {filename: p}));
    return scripts.get(p);
}

// ------------------------------------------------------------------ DOM stand-in
function dom(log) {
    const handlers = [];         // {sel, ev, f}
    function mk(sel) {
        const data = {};
        const o = new Proxy(function () {}, {
            get(t, k) {
                if (k === 'then') return undefined;
                if (k === Symbol.iterator) return undefined;
                if (k === 'length') return 1;
                if (k === 'jquery') return '3';
                if (k === '0') return {};
                if (k === 'on' || k === 'bind') return (ev, f) => { if (typeof f == 'function') handlers.push({sel, ev, f}); return o; };
                if (k === 'trigger') return (ev, args) => { for (const h of handlers.slice()) if (h.sel == sel && (h.ev == ev || h.ev.split('.')[0] == ev)) h.f.apply({}, [{type: ev}].concat(args || [])); return o; };
                if (k === 'text' || k === 'html') return (v) => { if (v === undefined) return data.text || ''; data.text = v; return o; };
                if (k === 'val') return (v) => { if (v === undefined) return data.val; data.val = v; return o; };
                if (k === 'is' || k === 'hasClass') return () => false;
                if (k === 'width' || k === 'height') return (v) => v === undefined ? 100 : o;
                if (k === 'data' || k === 'attr') return (...a) => a.length > 1 ? o : undefined;
                if (k === 'visible') return data.visible;
                if (k === 'show') return () => { data.visible = true; return o; };
                if (k === 'hide') return () => { data.visible = false; return o; };
                return () => o;
            }
        });
        return o;
    }
    const singles = new Map(), elements = new Map();
    function $(s) {
        const key = typeof s == 'string' ? s : 'window';
        if (typeof s == 'string' && s[0] == '<') { const e = mk(s); elements.set(s, e); return e; }
        if (!singles.has(key)) singles.set(key, mk(key));
        return singles.get(key);
    }
    $.fn = {};
    $.each = (a, f) => { if (Array.isArray(a)) { for (let i = 0; i < a.length; i++) if (f.call(a[i], i, a[i]) === false) break; } else for (const k in a) if (f.call(a[k], k, a[k]) === false) break; return a; };
    $.extend = (...a) => { if (a[0] === true) a.shift(); return a.length == 1 ? Object.assign($, a[0]) : Object.assign(...a); };
    $.isArray = Array.isArray;
    $.isFunction = (f) => typeof f == 'function';
    $.trim = (s) => s.trim();
    return {$, handlers, elements};
}

// ------------------------------------------------------------------ a page
class Timers {
    constructor() { this.now = 1000; this.list = []; this.id = 0; }
    set(f, ms) { const t = {id: ++this.id, at: this.now + Math.max(0, ms || 0), f}; this.list.push(t); return t.id; }
    clear(id) { this.list = this.list.filter((t) => t.id != id); }
    next() { let b = null; for (const t of this.list) if (!b || t.at < b.at) b = t; return b; }
}
async function drain() { for (let i = 0; i < 3; i++) await pause(); }

function page(o) {       // o: {timers, hash, log, globals}
    const {$, handlers, elements} = dom(o.log);
    const loc = {
        protocol: 'http:', host: 'pyswitch.local', pathname: '/', search: '', _h: o.hash || '',
        toString() { return 'http://pyswitch.local/' + this._h; },
        get href() { return this.toString(); },
        set href(v) {
            const u = new URL(v, this.toString());
            if (u.host != 'pyswitch.local' || u.pathname != '/') throw new Error('left the application: ' + v);
            const old = this._h;
            this._h = u.hash;
            if (old != this._h) o.timers.set(() => { for (const h of handlers) if (String(h.ev).startsWith('hashchange')) h.f.call({}, {}); }, 0);
        },
        get hash() { return this._h; }
    };
    const con = {log() {}, info() {}, warn() {}, error() {}, debug() {}};
    const ctx = Object.assign({
        console: con, $, jQuery: $, document: {location: loc, title: '', getElementById: () => null}, history: {}, crypto: crypto.webcrypto,
        setTimeout: (f, ms) => o.timers.set(f, ms), clearTimeout: (i) => o.timers.clear(i), setInterval: () => 0, clearInterval() {},
        structuredClone, URL, Date: class extends Date { static now() { return o.timers.now; } },
        Math: Object.assign(Object.create(Math), {random: o.random || Math.random})
    }, o.globals || {});
    for (const k of Object.getOwnPropertyNames(Math)) if (k != 'random' && ctx.Math[k] === undefined) ctx.Math[k] = Math[k];
    Object.defineProperty(ctx, 'location', {get: () => loc, set(v) { loc.href = v; }, configurable: true, enumerable: true});
    ctx.window = ctx; ctx.self = ctx; ctx.globalThis = ctx;
    vm.createContext(ctx);
    ctx.__handlers = handlers; ctx.__elements = elements; ctx.__loc = loc;
    ctx.__enc = (x) => Array.from(new TextEncoder().encode(x)); ctx.__dec = (x) => new TextDecoder().decode(Uint8Array.from(x));
    vm.runInContext('class TextEncoder { encode(s) { return Uint8Array.from(__enc(s)); } } class TextDecoder { decode(d) { return __dec(Array.from(d)); } }', ctx);
    script(path.join(root, 'lib/sammy-latest.min.js')).runInContext(ctx);
    const done = new Set();
    ctx.__load = (names, stubs) => {
        const load = (n) => {
            if (done.has(n)) return;
            done.add(n);
            if (stubs && n in stubs) return;
            const s = sources.get(n);
            if (!s) throw new Error('class ' + n + ' not found');
            if (s.base && sources.has(s.base)) load(s.base);
            for (const [m, d] of sources) if (d.file == s.file) done.add(m);
            script(s.file).runInContext(ctx);
        };
        names.forEach(load);
    };
    ctx.__run = (code) => vm.runInContext(code, ctx);
    return ctx;
}

// ------------------------------------------------------------------ W07: the queue, and the routing on top of it
async function queueCase(c) {
    const log = [], timers = new Timers(), sleeps = [];
    const ctx = page({timers, log});
    ctx.__load(['CallbackQueue']);
    const queue = ctx.__run('new CallbackQueue()');
    let n = 0, started = 0, finished = 0, running = 0;
    const sleep = () => new Promise((r) => sleeps.push(r));
    const wrapped = [];
    function trigger(i) {
        if (n >= 300) return;
        const id = n++;
        log.push(['trigger', id, i]);
        let ret;
        try { ret = wrapped[i].call({id}); } catch (e) { log.push(['triggerfail', id, String(e)]); return; }
        if (ret && ret.then) ret.then((v) => log.push(['returned', id]), (e) => log.push(['returnfail', id, String(e)]));
        else log.push(['returned', id]);
    }
    function begin(i, self) {
        const id = self ? self.id : null;
        log.push(['start', id, i]);
        return c.behaviour[(id || 0) % c.behaviour.length];
    }
    function end(b, self) {
        log.push(['end', self.id]);
        if (b.fail == 1) throw new Error('broken operation');
        if (b.fail == 2) throw 'broken';
        if (b.fail == 3) throw undefined;
        return 'r' + self.id;
    }
    for (let i = 0; i < c.functions; i++) {
        const sync = c.sync[i];
        wrapped.push(queue.add(sync ? function () {
            const b = begin(i, this);
            for (const ch of b.children) trigger(ch[1]);
            return end(b, this);
        } : async function () {
            const self = this, b = begin(i, this);
            for (let k = 0; k <= b.sleeps; k++) {
                for (const ch of b.children) if (ch[0] == k) trigger(ch[1]);
                if (k < b.sleeps) { if (b.micro) await null; else await sleep(); }
            }
            return end(b, self);
        }));
    }
    const quiet = async () => { await drain(); log.push(['quiet']); };
    for (const st of c.steps) {
        if (st[0] == 't') trigger(st[1]);
        else if (st[0] == 'tt') for (const i of st[1]) trigger(i);
        else if (sleeps.length) sleeps.splice(Math.floor(st[1] * sleeps.length), 1)[0]();
        await quiet();
    }
    for (let k = 0; k < 3000 && sleeps.length; k++) { sleeps.shift()(); await quiet(); }
    return {log};
}

async function routeCase(c) {
    const log = [], timers = new Timers(), sleeps = [];
    const sleep = () => new Promise((r) => sleeps.push(r));
    let loads = 0, resets = 0;
    const ctl = {
        ui: {
            reset: async () => { log.push(['reset']); if (c.resetSleep) await sleep(); },
            confirmIfDirty: () => { log.push(['confirm']); return true; }
        },
        scanControllers: async () => await load(['scan']),
        loadConfiguration: async (x) => await load(x),
        handle: (e) => { log.push(['handle', String((e && e.message) || e)]); if (c.handleFails) throw new Error('cannot display'); }
    };
    async function load(x) {
        const i = loads++, b = c.behaviour[i % c.behaviour.length];
        log.push(['load', i, x]);
        for (let k = 0; k < b.sleeps; k++) await sleep();
        log.push(['loaded', i]);
        if (b.fail) throw new Error('fail' + i);
    }
    const conf = (kind) => class { constructor(controller, a) { if (controller !== ctl) log.push(['wrongcontroller']); this.kind = kind; this.a = a === undefined ? null : a; } toJSON() { return [kind, this.a]; } };
    const ctx = page({timers, log, hash: c.hash, globals: {ControllerConfiguration: conf('controller'), PresetConfiguration: conf('preset'), WebConfiguration: conf('web'), LocalFolderConfiguration: conf('folder'), __ctl: ctl}});
    ctx.__load(['CallbackQueue', 'Routing']);
    const routing = ctx.__run('new Routing(__ctl)');
    const quiet = async () => {
        for (let k = 0; k < 50; k++) {
            await drain();
            const t = timers.next();
            if (!t || t.at > timers.now + 1) break;
            timers.clear(t.id);
            timers.now = t.at;
            t.f();
        }
        log.push(['quiet']);
    };
    routing.run();
    await quiet();
    for (const st of c.steps) {
        if (st[0] == 'go') { log.push(['go', st[2]]); ctx.__loc.href = 'http://pyswitch.local/' + st[1]; }
        else if (st[0] == 'refresh') { log.push(['refresh']); routing.refresh(); }
        else if (sleeps.length) sleeps.splice(0, 1)[0]();
        await quiet();
    }
    for (let k = 0; k < 3000 && sleeps.length; k++) { sleeps.shift()(); await quiet(); }
    return {log};
}
const handlers = {queue: queueCase, route: routeCase};
module.exports = {page, Timers, drain, rng, root, repo, handlers, sources};
process.on('unhandledRejection', () => {});
process.on('uncaughtException', (e) => { if (current) { current.uncaught = String(e && e.stack || e).substring(0, 500); } });
let current = null;
try { require('./webworld.js'); require('./webemu.js'); require('./webmon.js'); require('./webcli.js'); } catch (e) { if (e.code != 'MODULE_NOT_FOUND') throw e; }
const rl = readline.createInterface({input: process.stdin, terminal: false});
let chain = Promise.resolve();
rl.on('line', (l) => {
    chain = chain.then(async () => {
        const r = JSON.parse(l);
        current = {};
        let out;
        try { out = await handlers[r.kind](r); } catch (e) { out = {error: String(e && e.stack || e).substring(0, 1500)}; }
        if (current.uncaught) out.uncaught = current.uncaught;
        current = null;
        process.stdout.write(JSON.stringify(out, (k, v) => v === undefined ? null : v) + '\n');
    });
});
rl.on('close', () => process.exit(0));
