// The emulator's JavaScript side: what ends up in pyodide's file system, and how PySwitch is started there.
const fs = require('fs'), path = require('path');
const {page, Timers, drain, root, repo, handlers} = require('./webapp.js');

function app(c, out) {
    const timers = new Timers();
    const dirs = new Set(['/home/pyodide']);
    const abs = (p) => p.startsWith('/') ? p : '/home/pyodide/' + p;
    const webFile = (url) => url.startsWith('circuitpy/') ? path.join(repo, 'content', url.substring(10)) : path.join(root, url);
    const pyodide = {
        FS: {
            mkdir(p) { p = abs(p); if (!dirs.has(path.dirname(p))) throw new Error('FS error: no directory ' + path.dirname(p)); dirs.add(p); },
            writeFile(p, data) { p = abs(p); if (!dirs.has(path.dirname(p))) throw new Error('FS error: no directory ' + path.dirname(p)); out.files[p.substring(14)] = data; }
        },
        async loadPackage(n) { out.packages.push(n); },
        runPython(code) {
            out.code.push(code);
            const start = (w) => (width, height, client, config, comm) => { out.started.push({how: w, width, height, protocol: client.getProtocolCode(), config, comm}); runner.running = true; };
            const runner = {running: false, run: start('run'), init: start('init'), stop() { this.running = false; out.stopped++; }, tick() {}};
            return runner;
        }
    };
    const local = new Map(Object.entries(c.local || {}));
    const ctx = page({timers, log: [], globals: {
        localStorage: {getItem: (k) => local.has(k) ? local.get(k) : null, setItem: (k, v) => local.set(k, String(v))},
        fetch: async (url) => { const f = webFile(decodeURI(url)); return fs.existsSync(f) ? {ok: true, text: async () => fs.readFileSync(f, 'utf8')} : {ok: false}; },
        loadPyodide: async () => pyodide
    }});
    return ctx;
}
const CLASSES = ['Tools', 'LocalState', 'CallbackQueue', 'Device', 'PaintAudioDevice', 'Client', 'ClientFactory', 'KemperClient', 'BoomerangClient', 'ConfigFile', 'CommunicationSettings', 'PySwitchRunner'];

handlers.vfs = async function (c) {
    const out = {files: {}, packages: [], code: [], started: [], stopped: 0};
    const ctx = app(c, out);
    ctx.__load(CLASSES);
    ctx.__out = out;
    await ctx.__run("new PySwitchRunner({domNamespace: 'pyswitch', updateIntervalMillis: 10}, 'x').init()");
    return out;
};
handlers.emurun = async function (c) {
    const out = {files: {}, packages: [], code: [], started: [], stopped: 0};
    const ctx = app(c, out);
    ctx.__load(CLASSES);
    ctx.__run("class Controller { static VERSION = 'v'; }");
    ctx.__data = c.data;
    ctx.__opts = {domNamespace: c.namespace, updateIntervalMillis: c.interval};
    ctx.__run(`async function go() {
        const p = new PySwitchRunner(Object.assign({configProvider: new ConfigFile({}), commSettingsProvider: new CommunicationSettings()}, __opts), 'x');
        const cf = new ConfigFile({}), cs = new CommunicationSettings();
        for (const [k, v] of Object.entries(__data.config || {})) cf.setAttribute(k, v);
        for (const [k, v] of Object.entries(__data.comm || {})) cs.setAttribute(k, v);
        p.loaded = null;
        await p.init();
        await p.run({async get() { return __data.files; }});
    }`);
    await ctx.__run('go()');
    return {code: out.code, started: out.started, inputs: out.files['inputs.py'], display: out.files['display.py']};
};
// config.py as rendered by the web application for given settings
handlers.configpy = async function (c) {
    const out = {files: {}, packages: [], code: [], started: [], stopped: 0};
    const ctx = app(c, out);
    ctx.__load(['Tools', 'LocalState', 'ConfigFile']);
    ctx.__run("class Controller { static VERSION = 'v'; }");
    ctx.__set = c.set;
    return await ctx.__run(`(async () => { const cf = new ConfigFile({}); for (const [k, v] of __set) cf.setAttribute(k, v); return {code: await cf.render(), get: cf.get()}; })()`);
};

// ------------------------------------------------------------------ the emulator's page: a minimal DOM for PySwitchFrontend
class El {
    constructor(html) {
        const m = /^<([\w-]+)/.exec(html || '') || [];
        this.tag = m[1] || ''; this.children = []; this.parentNode = null; this.handlers = []; this.value = ''; this.className = '';
        const data = {};
        this.data = data;
        this.dataset = new Proxy(data, {set(t, k, v) { t[k] = String(v); return true; }});
        for (const a of (html || '').matchAll(/\s([\w-]+)="([^"]*)"/g)) {
            if (a[1] == 'id') this.id = a[2]; else if (a[1].startsWith('data-')) data[a[1].substring(5)] = a[2]; else if (a[1] == 'value') this.value = a[2];
        }
    }
    *all() { yield this; for (const c of this.children) yield* c.all(); }
    fire(type) { for (const h of this.handlers.slice()) if (h.evs.includes(type)) h.f.call(this, {type, currentTarget: this}); }
}
function $wrap(el) {
    const o = {0: el, length: 1, jquery: '3',
        append(...a) { for (const x of a.flat()) if (x && x.jquery) for (let i = 0; i < x.length; i++) { x[i].parentNode = el; el.children.push(x[i]); } return o; },
        empty() { el.children = []; return o; }, remove() { if (el.parentNode) el.parentNode.children = el.parentNode.children.filter((c) => c !== el); return o; },
        on(evs, f) { el.handlers.push({evs: evs.split(/\s+/), f}); return o; },
        val(v) { if (v === undefined) return el.value; el.value = String(v); return o; }, text(v) { if (v === undefined) return el.text || ''; el.text = v; return o; },
        addClass() { return o; }, removeClass() { return o; }, hide() { el.hidden = true; return o; }, show() { el.hidden = false; return o; }, attr(k, v) { if (v === undefined) return undefined; return o; }, css() { return o; }, is() { return false; }, prop() { return o; }, toggle() { return o; }
    };
    return o;
}
handlers.frontend = async function (c) {
    const out = {files: {}, packages: [], code: [], started: [], stopped: 0};
    const ctx = app(c, out);
    ctx.$ = (x) => x instanceof El ? $wrap(x) : $wrap(new El(x));
    ctx.jQuery = ctx.$;
    ctx.__load(['Tools', 'Device', 'PaintAudioDevice', 'PySwitchFrontend'], {ParserFrontend: 1});
    ctx.__run("class ParserFrontend { constructor() {} async addInput() {} async init() {} async destroy() {} async showDisplayEditor() {} }");
    const container = new El('<div>'), global = new El('<div>');
    ctx.__c = ctx.$(container); ctx.__g = ctx.$(global); ctx.__ns = c.namespace; ctx.__hw = c.hardware; ctx.__files = c.files;
    const front = await ctx.__run(`(async () => {
        const f = new PySwitchFrontend({ui: {midiMonitor: null}, handle(e) { throw e; }}, __c, {domNamespace: __ns, globalContainer: __g});
        const config = {async get() { return __files; }};
        await f.apply({config, async device() { return await Device.getInstance(config); }, async getHardwareInfo() { return __hw; }});
        return f;
    })()`);
    const all = () => [...container.all(), ...global.all()];
    const ids = () => all().filter((e) => e.id).map((e) => [e.id, Object.assign({}, e.data), e.tag]);
    const first = ids();
    const under = (id) => { const l = all().filter((e) => e.id == id); return l.length ? [...l[0].all()] : []; };
    const changes = [];
    for (const op of c.ops) {       // what the user does on the page
        const [id, type, value] = op;
        const target = under(id).filter((e) => e.handlers.some((h) => h.evs.includes(type)));
        for (const e of target.slice(0, 1)) { if (value !== null) e.value = value; e.fire(type); }
        await drain();
        const r = under(id);
        changes.push([target.length, r.length ? Object.assign({}, r[0].data) : null]);
    }
    return {ids: first, changes};
};

// ------------------------------------------------------------------ the global settings page, used by a user, with the emulator being started from there
class Field extends El {
    constructor(html) {
        super(html);
        this.attrs = {}; this.checked = false; this.text = '';
        for (const a of (html || '').matchAll(/\s([\w-]+)\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+?))(?=[\s/>])/g)) this.attrs[a[1]] = a[2] ?? a[3] ?? a[4];
        if (/\schecked/.test(html || '')) this.checked = true;
    }
    get type() { return this.tag == 'input' ? (this.attrs.type || 'text') : ''; }
    get step() { return this.attrs.step || ''; }
    get min() { return this.attrs.min || ''; }
    get max() { return this.attrs.max || ''; }
    put(v) { v = v === null || v === undefined ? '' : String(v); this.value = this.type == 'number' && !/^-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$/.test(v) ? '' : v; }
    get valueAsNumber() { return this.value === '' ? NaN : Number(this.value); }
}
function $field(el) {
    const w = $wrap(el);
    w.val = (v) => { if (v === undefined) return el.value; el.put(v); return w; };
    w.html = (v) => { if (v === undefined) return el.text; el.text = v; return w; };
    w.prop = (k, v) => { if (v === undefined) return el[k]; el[k] = v; return w; };
    w.attr = (k, v) => { if (v === undefined) return el.attrs[k]; el.attrs[k] = String(v); return w; };
    w.is = (s) => s == ':checked' ? el.checked : false;
    w.get = (i) => el;
    return w;
}
handlers.settings = async function (c) {
    const out = {files: {}, packages: [], code: [], started: [], stopped: 0};
    const local = Object.assign({}, c.local);
    let ctx = null, downloads = [], messages = [];
    const root_ = () => ctx.__run('tab.container')[0];
    const fields = () => [...root_().all()].filter((e) => e.tag == 'input');
    const labels = () => {          // the text before each field
        const r = []; let last = '';
        for (const e of root_().all()) { if (e.tag == 'input') { r.push(last); last = ''; } else if (e.text && !e.handlers.length) last = e.text; }
        return r;
    };
    async function load() {
        ctx = app({local}, out);
        ctx.localStorage = {getItem: (k) => k in local ? local[k] : null, setItem: (k, v) => { local[k] = String(v); }, removeItem: (k) => { delete local[k]; }};
        ctx.$ = (x) => x instanceof El ? $field(x) : (x && x.jquery ? x : $field(new Field(x)));
        ctx.jQuery = ctx.$;
        ctx.Blob = class { constructor(parts, o) { this.parts = parts; } };
        ctx.URL = {createObjectURL: (b) => b, revokeObjectURL() {}};
        ctx.saveAs = (b, name) => { downloads.push([name, b.parts.join('')]); };
        ctx.__load(CLASSES.concat(['Tab', 'EmulatorSettings']));
        ctx.__messages = messages; ctx.__files = c.files;
        ctx.__run(`class Controller {
            static VERSION = 'v';
            constructor() { this.configFile = new ConfigFile(this); this.commSettings = new CommunicationSettings(); this.ui = {}; }
            handle(e) { __messages.push(String(e && e.message || e)); }
            async init() { this.pyswitch = new PySwitchRunner({domNamespace: 'pyswitch', updateIntervalMillis: 20, configProvider: this.configFile, commSettingsProvider: this.commSettings}, 'x'); await this.pyswitch.init(); }
            async restart() { await this.pyswitch.run({async get() { return __files; }}); }
        }
        var ctl = new Controller(), tab = null;
        function open() { tab = new EmulatorSettings(ctl, 'Settings'); }`);
        await ctx.__run('ctl.init()');
        ctx.__run('open()');
    }
    await load();
    const log = [];
    for (const op of [['none']].concat(c.ops)) {
        downloads.length = 0; messages.length = 0; out.started.length = 0;
        let hit = 0;
        if (op[0] == 'set') {
            const f = fields()[op[1]];
            if (f) { hit = 1; if (typeof op[2] == 'boolean') f.checked = op[2]; else f.put(op[2]); f.fire('input'); f.fire('change'); }
        } else if (op[0] == 'button') {
            const bs = [...root_().all()].filter((e) => e.text == op[2] && e.handlers.length);
            hit = bs.length;
            if (bs[op[1]]) bs[op[1]].fire('click');
        } else if (op[0] == 'reload') await load();
        else if (op[0] == 'open') ctx.__run('open()');
        for (let i = 0; i < 5; i++) await drain();
        const code = await ctx.__run('ctl.configFile.render()');
        log.push({hit, fields: fields().map((e, i) => [labels()[i], e.type, e.type == 'checkbox' ? e.checked : e.value]), messages: messages.slice(), downloads: downloads.slice(), code,
                  config: ctx.__run('ctl.configFile.get()'), comm: ctx.__run('ctl.commSettings.get()'), started: out.started.slice()});
    }
    return {log, runpython: out.code.slice(-1)};
};
