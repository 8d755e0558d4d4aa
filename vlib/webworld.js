// The whole application with simulated browser services and connected controllers: loading, editing and saving configurations.
const fs = require('fs'), path = require('path');
const {page, Timers, drain, rng, root, repo, handlers} = require('./webapp.js');

const STUBS = `
class Popup { constructor(o) { this.options = o; } show() { __ev(['popup', this.options.headline || '']); } hide() {} handle(e) { this.options.errorHandler.handle(e); } }
class ClientConnectionButton { constructor() {} setState() {} }
class Notifications { constructor() {} reset() {} message(m, t) { __ev(['message', t || 'E', String((m && m.message) || m)]); } }
class PySwitchFrontend { constructor() {} async reset() {} async apply(parser) { __ev(['shown', await parser.config.get()]); } }
class Tabs { constructor() {} add() {} remove() {} confirmIfDirty() { return true; } toggle() {} show() {} hide() {} }
class Tab { constructor() {} }
class CodeEditor { constructor(c, n, f) { this.f = f; } async setConfig(c) { __ev(['editor', this.f, c ? (await c.get())[this.f] : '']); } }
class MidiMonitor { constructor() {} async initMonitor() {} addComment() {} }
class EmulatorSettings { constructor() {} }
class Upload { constructor(c) {} cleanup() {} }
class Download { async download(config) { __ev(['download', await config.get()]); } }
class ClientController { constructor() { this.state = new LocalState('client'); } async init() {} }
class Client { static async getAvailable() { return []; } }
class PySwitchRunner { constructor() {} async init() {} async stop() {} async run(c) { __ev(['run', await c.get()]); } setProtocolStateCallback() {} }
class Parser { constructor(config) { this.config = config; } async device() { return {hasAdditionalInputs: () => false}; } async updateFromData(d) { this.config.set(d); } }
`;
const STUBBED = {};
for (const m of STUBS.matchAll(/^class (\w+)/gm)) STUBBED[m[1]] = 1;
const CLASSES = ['Tools', 'LocalState', 'CallbackQueue', 'Routing', 'MidiListener', 'MidiHandler', 'MidiBridgeHandler', 'JsMidiBridge', 'DeviceController', 'ConfigFile', 'CommunicationSettings',
    'Configuration', 'ControllerConfiguration', 'PresetConfiguration', 'WebConfiguration', 'LocalFolderConfiguration', 'LocalFolderSelection', 'Presets', 'BrowserProvider', 'BrowserEntry', 'BrowserPopup',
    'PortsProvider', 'LocalPresetsProvider', 'SingleEntryProvider', 'ExamplesProvider', 'TemplatesProvider', 'PySwitchUI', 'Controller'];

function toc(dir, name) {
    if (!fs.statSync(dir).isDirectory()) return {type: 'file', name};
    return {type: 'dir', name, children: fs.readdirSync(dir).sort().filter((x) => x[0] != '.' && x != '__pycache__' && x != 'toc.php').map((x) => toc(path.join(dir, x), x))};
}
function webFile(url) {
    url = decodeURI(url).replace(/^\//, '');
    if (url.startsWith('circuitpy/')) return path.join(repo, 'content', url.substring(10));
    if (url.startsWith('examples/')) return path.join(repo, 'examples', url.substring(9));
    return path.join(root, url);
}

class World {
    constructor(c) {
        this.c = c; this.rnd = rng(c.seed);
        this.timers = new Timers();
        this.local = new Map(); this.idb = new Map(); this.folders = {}; this.events = []; this.bytes = 0; this.badBytes = 0; this.maxMessage = 0;
        this.answers = {confirm: true, prompt: [], pick: null};
        for (const [n, files] of Object.entries(c.folders)) this.folders[n] = {name: n, files: Object.assign({}, files), fail: false, observers: []};
        this.ports = c.ports.map((p, i) => this.port(p, i));
    }
    port(p, i) {
        const w = this, d = {name: p.name, files: Object.assign({}, p.files), fault: null, chunk: 0, bridge: null, lastIn: 0, lastOut: 0, busy: 0, unhandled: 0};
        const lat = () => 1 + Math.floor(w.rnd() * p.latency);
        d.input = {name: p.name, manufacturer: p.manufacturer, id: 'i' + i, onmidimessage: null};
        d.output = {
            name: p.name, manufacturer: p.manufacturer, id: 'o' + i,
            send(msg) {
                const a = Array.from(msg);
                w.bytes += a.length; w.maxMessage = Math.max(w.maxMessage, a.length);
                if (a[0] != 0xf0 || a[a.length - 1] != 0xf7 || a.slice(1, -1).some((b) => !(Number.isInteger(b) && b >= 0 && b < 128))) w.badBytes++;
                if (!d.bridge || d.fault == 'dead') return;
                d.lastIn = Math.max(d.lastIn, w.timers.now + lat());
                w.timers.set(() => { if (d.fault == 'dead') return; d.bridge.receive({manufacturerId: a.slice(1, 4), data: a.slice(4, -1)}).catch(() => { d.unhandled++; }); }, d.lastIn - w.timers.now);
            }
        };
        if (p.bridge) {
            const ctx = page({timers: w.timers, log: [], random: w.rnd});
            ctx.__load(['JsMidiBridge']);
            const b = d.bridge = ctx.__run('new JsMidiBridge()');
            const norm = (x) => x.replace(/^\//, '');
            b.sendSysex = async (man, data) => {
                if (data[0] == 4 && d.current) {        // acknowledges a chunk which has been written
                    d.chunk++;
                    if (typeof d.fault == 'number' && d.chunk > d.fault) { d.current = null; throw new Error('No space left on device'); }
                }
                const a = Uint8Array.from([0xf0].concat(Array.from(man), Array.from(data), [0xf7]));
                d.lastOut = Math.max(d.lastOut, w.timers.now + lat());
                w.timers.set(() => { if (d.fault == 'dead') return; const f = d.input.onmidimessage; if (f) Promise.resolve(f({data: a})).catch(() => { w.events.push(['inputfail']); }); }, d.lastOut - w.timers.now);
            };
            b.getFile = async (x) => { if (!(norm(x) in d.files)) throw new Error(x + ' not found'); return d.files[norm(x)]; };
            b.onError = async () => {};
            b.onReceiveStart = async (x) => { if (d.fault == 'readonly') throw new Error('Read-only filesystem'); d.current = norm(x.path); d.chunk = 0; };
            b.onReceiveFinish = async (x) => { d.files[norm(x.path)] = x.data; d.current = null; };
        }
        return d;
    }
    ev(e) { this.events.push(JSON.parse(JSON.stringify(e, (k, v) => v === undefined ? null : v))); }
    folderHandle(n) {
        const w = this, f = this.folders[n];
        const file = (name) => ({
            kind: 'file', name, dir: n,
            async getFile() { return {name, text: f.files[name] || ''}; },
            async createWritable() {
                if (f.fail === name) throw new Error('NotAllowedError: folder');
                let buf = '';
                return {async write(x) { await w.sleep(3); buf += x; }, async close() { await w.sleep(3); if (f.fail === 'close:' + name) throw new Error('disk full'); f.files[name] = buf; }};
            }
        });
        return {kind: 'directory', name: n, async getFileHandle(name, o) { if (!(name in f.files)) { if (!(o && o.create)) throw new Error('NotFoundError'); f.files[name] = ''; } return file(name); }};
    }
    sleep(ms) { return new Promise((r) => this.timers.set(r, ms)); }
    async open(hash) {
        const w = this;
        if (this.app) for (const p of this.ports) p.input.onmidimessage = null;
        for (const f of Object.values(this.folders)) f.observers = [];
        this.timers.list = [];
        for (const p of this.ports) { p.lastIn = p.lastOut = 0; p.current = null; }
        const store = {getItem: (k) => w.local.has(k) ? w.local.get(k) : null, setItem: (k, v) => w.local.set(k, String(v)), removeItem: (k) => w.local.delete(k)};
        const globals = {
            localStorage: store,
            navigator: {requestMIDIAccess: async () => ({sysexEnabled: true, inputs: new Map(w.ports.map((p) => [p.input.id, p.input])), outputs: new Map(w.ports.map((p) => [p.output.id, p.output]))})},
            fetch: async (url) => {
                await w.sleep(2);
                const f = webFile(url);
                if (url.endsWith('toc.php')) return {ok: true, text: async () => JSON.stringify(toc(path.dirname(f), ''))};
                return fs.existsSync(f) ? {ok: true, text: async () => fs.readFileSync(f, 'utf8')} : {ok: false};
            },
            confirm: (m) => { w.ev(['confirm', m]); return w.answers.confirm; },
            prompt: (m) => { w.ev(['prompt', m]); return w.answers.prompt.length ? w.answers.prompt.shift() : null; },
            idbKeyval: {async get(k) { await w.sleep(1); return w.idb.has(k) ? w.folderHandle(w.idb.get(k)) : undefined; }, async set(k, v) { w.idb.set(k, v.name); }},
            showDirectoryPicker: async () => { await w.sleep(1); if (!w.answers.pick) { const e = new Error('abort'); e.name = 'AbortError'; throw e; } return w.folderHandle(w.answers.pick); },
            FileReader: class { readAsText(f) { w.timers.set(() => this.onload({target: {result: f.text}}), 1); } },
            __ev: (e) => w.ev(e)
        };
        if (this.c.observer) globals.FileSystemObserver = class { constructor(cb) { this.cb = cb; this.dirs = []; } async observe(h) { this.dirs.push([h.dir, h.name]); w.folders[h.dir].observers.push(this); } disconnect() { for (const f of Object.values(w.folders)) f.observers = f.observers.filter((x) => x !== this); } };
        const ctx = this.ctx = page({timers: this.timers, log: [], hash, random: this.rnd, globals});
        ctx.__run(STUBS);
        ctx.__load(CLASSES, STUBBED);
        this.app = ctx.__run('new Controller({})');
        await this.act(() => this.app.run(), 'open');
    }
    // Runs something the user does to its end (as far as it gets), and reports everything observable
    async act(f, name) {
        const st = {done: false};
        this.events.length = this.events.length;
        Promise.resolve().then(f).then(() => { st.done = true; }, (e) => { st.done = true; st.error = String((e && e.message) || e); });
        const end = this.timers.now + 300000;
        for (let k = 0; k < 20000; k++) {
            await drain();
            const t = this.timers.next();
            if (!t || t.at > end) break;
            this.timers.clear(t.id);
            this.timers.now = Math.max(this.timers.now, t.at);
            t.f();
        }
        this.out = st;
    }
    find(browser, where, pred) {
        return (async () => {
            const found = [];
            for (const p of browser.options.providers) {
                if (p.constructor.name != where) continue;
                const t = await p.getToc(browser);
                const walk = (e) => { if (!e) return; if (e.isCallable() && pred(e)) found.push(e); for (const c of e.children) walk(c); };
                walk(t);
                if (found.length) return found[0];
            }
            return null;
        })();
    }
    async pick(browser, where, pred) {
        const e = await this.find(browser, where, pred);
        if (!e) { this.ev(['noentry', where]); return; }
        try { await browser.browse(e); } catch (x) { browser.handle(x); }
    }
    async icon(name, which) {
        const b = this.app.ui.saveBrowser, e = await this.find(b, 'LocalPresetsProvider', (x) => x.value === name);
        if (!e) { this.ev(['noentry', name]); return; }
        const root = await (b.options.providers.find((p) => p.constructor.name == 'LocalPresetsProvider')).getToc(b);
        for (const col of root.data.childLayout) {
            if (!col.get) continue;
            const n = this.ctx.__handlers.length;
            col.get(e);
            for (const h of this.ctx.__handlers.slice(n)) if (h.sel.includes(which)) { await h.f({}); return; }
        }
        this.ev(['noentry', which]);
    }
    key(code) {
        return Promise.all(this.ctx.__handlers.filter((h) => h.sel == 'window' && h.ev == 'keydown').map((h) => h.f({ctrlKey: true, which: code, preventDefault() {}})));
    }
    async step(s) {
        const app = this.app, ui = app && app.ui;
        Object.assign(this.answers, {confirm: true, prompt: [], pick: null}, s.answers || {});
        for (const p of this.ports) p.fault = null;
        for (const [i, f] of Object.entries(s.faults || {})) { this.ports[i].fault = f; }
        switch (s.op) {
            case 'reload': await this.open(s.hash === undefined ? this.ctx.__loc.hash : s.hash); break;
            case 'openPreset': await this.act(() => this.pick(ui.loadBrowser, 'LocalPresetsProvider', (e) => e.value === s.name)); break;
            case 'openPort': await this.act(() => this.pick(ui.loadBrowser, 'PortsProvider', (e) => e.value === s.name)); break;
            case 'openExample': await this.act(() => this.pick(ui.loadBrowser, s.template ? 'TemplatesProvider' : 'ExamplesProvider', (e) => e.data.callPath === s.path)); break;
            case 'openDefault': await this.act(() => this.pick(ui.loadBrowser, 'ExamplesProvider', (e) => e.value === 'PySwitch Default')); break;
            case 'openFolder': await this.act(() => this.pick(ui.loadBrowser, 'SingleEntryProvider', (e) => e.text === 'Open Directory...')); break;
            case 'edit': await this.act(() => app.restart({message: 'none', changeCallback: async () => { await app.currentConfig.parser.updateFromData(s.data); }})); break;
            case 'save': await this.act(() => this.key(83)); break;
            case 'saveLast': await this.act(() => this.key(84)); break;
            case 'saveCurrentEntry': await this.act(() => this.pick(ui.saveBrowser, 'SingleEntryProvider', (e) => typeof e.text == 'function' && e.data.onSelect.toString().includes('currentConfig.save'))); break;
            case 'savePreset': await this.act(() => this.pick(ui.saveBrowser, 'LocalPresetsProvider', (e) => s.overwrite ? e.value === s.name : e.data.newPreset)); break;
            case 'savePort': await this.act(() => this.pick(ui.saveBrowser, 'PortsProvider', (e) => e.value === s.name)); break;
            case 'saveFolder': await this.act(() => this.pick(ui.saveBrowser, 'SingleEntryProvider', (e) => e.text === 'Save to Directory...')); break;
            case 'deletePreset': await this.act(() => this.icon(s.name, 'fa-trash')); break;
            case 'renamePreset': await this.act(() => this.icon(s.name, 'fa-pen')); break;
            case 'external': {
                Object.assign(this.folders[s.folder].files, s.files);
                const obs = new Set(this.folders[s.folder].observers);
                await this.act(async () => { for (const o of obs) await o.cb([{}], o); });
                break;
            }
            case 'folderFault': this.folders[s.folder].fail = s.fail; await this.act(async () => {}); break;
            default: throw new Error('unknown step ' + s.op);
        }
    }
    async snapshot() {
        const app = this.app, cur = app.currentConfig, presets = {};
        for (const [k, v] of this.local) if (k == 'pyswitch-presets') for (const p of (JSON.parse(v).data || [])) { if (p.id in presets) this.ev(['duplicate', p.id]); presets[p.id] = p.data; }
        const r = {done: this.out.done, error: this.out.error, events: this.events, presets, ports: this.ports.map((p) => Object.assign({}, p.files)), folders: {}, hash: this.ctx.__loc.hash,
            bytes: this.bytes, bad: this.badBytes, unhandled: this.ports.map((p) => p.unhandled), maxMessage: this.maxMessage,
            marker: !!(this.ctx.__elements.get('<span class="change-marker" />') || {}).visible};
        for (const [n, f] of Object.entries(this.folders)) r.folders[n] = Object.assign({}, f.files);
        r.current = cur ? {kind: cur.constructor.name, name: await cur.name(), data: Object.assign({}, await cur.get()), dirty: cur.isDirty()} : null;
        this.events = [];
        return r;
    }
}
handlers.world = async (c) => {
    const w = new World(c), out = [];
    await w.open(c.hash || '');
    out.push(await w.snapshot());
    for (const s of c.steps) {
        await w.step(s);
        out.push(await w.snapshot());
    }
    return {out};
};
