// Runs the web application's own configuration model (Parser, ParserInput, ...) and lets it talk to the real Python parser,
// which is run by the parent process. Lines on stdin/stdout; while an operation runs, this process asks the parent ("py") and waits for the answer.
const fs = require('fs'), vm = require('vm'), path = require('path'), crypto = require('crypto');
const root = process.argv[2], repo = process.argv[3];

let inbuf = Buffer.alloc(0);
function readLine() {
    for (;;) {
        const i = inbuf.indexOf(10);
        if (i >= 0) {
            const l = inbuf.subarray(0, i).toString('utf8');
            inbuf = inbuf.subarray(i + 1);
            return l;
        }
        const b = Buffer.alloc(1 << 16);
        let n = 0;
        try { n = fs.readSync(0, b, 0, b.length, null); } catch (e) { if (e.code == 'EAGAIN') continue; throw e; }
        if (n == 0) return null;
        inbuf = Buffer.concat([inbuf, b.subarray(0, n)]);
    }
}
function writeLine(o) {
    const b = Buffer.from(JSON.stringify(o, (k, v) => v === undefined ? null : v) + "\n");
    let off = 0;
    while (off < b.length) {
        try { off += fs.writeSync(1, b, off); } catch (e) { if (e.code != 'EAGAIN') throw e; }
    }
}
class PythonError extends Error {}
function py(msg) {
    writeLine({py: msg});
    const l = readLine();
    if (l === null) process.exit(0);
    const r = JSON.parse(l);
    if (r.error) { const e = new PythonError(r.error); e.python = true; throw e; }
    return fromPy(r);
}
function fromPy(r) {
    if ('handle' in r) return new Proxy({}, { get: (t, k) => {
        if (k === 'then' || typeof k == 'symbol') return undefined;
        if (r.attrs && k in r.attrs) return r.attrs[k];
        return (...args) => py({handle: r.handle, method: k, args});
    } });
    if ('dict' in r) return { toJs: () => new Map(Object.entries(r.dict)) };
    return r.value === null ? undefined : r.value;
}
function toc(dir, name) {
    if (!fs.statSync(dir).isDirectory()) return {type: "file", name};
    return {type: "dir", name, children: fs.readdirSync(dir).sort().filter((x) => x[0] != "." && x != "__pycache__" && x != "toc.php").map((x) => toc(path.join(dir, x), x))};
}
async function fetchStub(url) {
    url = decodeURI(url).replace(/^\.\.\//, "").replace(/^\//, "").replace(/^circuitpy\//, "@");
    const f = url[0] == "@" ? path.join(repo, "content", url.substring(1)) : path.join(root, url);
    if (f.endsWith("toc.php")) return {ok: true, text: async () => JSON.stringify(toc(path.dirname(f), path.basename(path.dirname(f))))};
    if (!fs.existsSync(f)) return {ok: false};
    return {ok: true, text: async () => fs.readFileSync(f, 'utf8')};
}
const warnings = [];
const ctx = { console: { log: () => {}, warn: (...a) => warnings.push(a.join(" ")), error: (...a) => warnings.push(a.join(" ")) }, fetch: fetchStub, crypto: crypto.webcrypto, setTimeout, clearTimeout, structuredClone, Map, Set, Uint8Array };
vm.createContext(ctx);
function load(f) { vm.runInContext(fs.readFileSync(path.join(root, f), 'utf8'), ctx, {filename: f}); }
function walk(d, out) { for (const x of fs.readdirSync(path.join(root, d)).sort()) { const p = d + "/" + x; if (fs.statSync(path.join(root, p)).isDirectory()) walk(p, out); else if (x.endsWith(".js")) out.push(p); } return out; }
function declares(f) { return fs.readFileSync(path.join(root, f), 'utf8'); }
// Load in the order of the index page
const index = fs.readFileSync(path.join(root, "index.html"), 'utf8');
const order = [...index.matchAll(/<script[^>]*src="([^"]+)"/g)].map((m) => m[1].replace(/\?.*$/, ""))
    .filter((f) => (/^js\/(misc\/Tools|model\/|routing\/CallbackQueue)/.test(f) || /^clients\/[^\/]+(\/[^\/]+)?\.js$/.test(f) || /^devices\//.test(f)) && !/(LocalFolder|WebConfiguration|Controller?Configuration|PresetConfiguration|VirtualClient|Detector|Presets|ConfigFile)/.test(f) || /ClientDetector/.test(f));
for (const f of order) load(f);
vm.runInContext(`
class MockPySwitchUI { setDirty() {} resetDirtyState() {} }
class MockController { constructor() { this.ui = new MockPySwitchUI() } }
class MockConfiguration extends Configuration {
    #d; constructor(d) { super(new MockController(), "Dummy"); this.#d = d; }
    async load() { return this.#d; }
}
this.MockConfiguration = MockConfiguration; this.ToolsRef = Tools; this.ClientRef = Client; this.ResolverRef = Resolver; this.MappingOptionsRef = MappingOptions;
`, ctx);
const runner = { pyodide: { runPython: (code) => py({code}) } };
const configs = new Map();
function spec(a) { return { name: a.name, client: a.client, assign: a.assign, arguments: a.arguments() }; }
async function input(c, name, create) { return await c.config.parser.input(name, create); }
const ops = {
    async new(m) { const config = new ctx.MockConfiguration({inputs_py: m.inputs, display_py: m.display}); await config.init(runner, ""); configs.set(m.id, {config, held: new Map()}); await config.parser.init(); return null; },
    async drop(m) { configs.delete(m.id); return null; },
    async code(m) { const d = await configs.get(m.id).config.get(); return {inputs_py: d.inputs_py, display_py: d.display_py}; },
    async tree(m) { return configs.get(m.id).config.parser.inputs(); },
    async splashes(m) { return configs.get(m.id).config.parser.splashes(); },
    async update(m) { configs.get(m.id).config.parser.updateConfig(); return null; },
    async setSplashes(m) { await configs.get(m.id).config.parser.setSplashes(m.splashes); return null; },
    async source(m) { await configs.get(m.id).config.parser.updateFromSource(m.file, m.code); return null; },
    async read(m) {
        const c = configs.get(m.id);
        const i = m.held && c.held.get(m.name) || await input(c, m.name, !!m.create);
        if (!i) return null;
        c.held.set(m.name, i);
        return {actions: i.actions(false).map(spec), hold: i.actions(true).map(spec), time: i.holdTimeMillis(), repeat: i.holdRepeat(), name: i.displayName()};
    },
    // what the user interface does: all actions of the input are taken over, edited and set
    async edit(m) {
        const c = configs.get(m.id);
        const i = m.held && c.held.get(m.name) || await input(c, m.name, true);
        c.held.set(m.name, i);
        for (const e of m.edits) {
            const cur = () => i.actions(!!e.hold).map(spec);
            if (e.op == "set") i.setActions(e.actions, !!e.hold, !!e.noUpdate);
            else if (e.op == "add") i.setActions(cur().concat([e.action]), !!e.hold, !!e.noUpdate);
            else if (e.op == "replace") i.setActions(cur().map((a, k) => k == e.k ? e.action : a), !!e.hold, !!e.noUpdate);
            else if (e.op == "remove") i.setActions(cur().filter((a, k) => k != e.k), !!e.hold, !!e.noUpdate);
            else if (e.op == "order") { const a = cur(); i.setActions(e.order.map((k) => a[k]), !!e.hold, !!e.noUpdate); }
            else if (e.op == "time") i.setHoldTimeMillis(e.value);
            else if (e.op == "repeat") i.setHoldRepeat(e.value);
            else throw new Error("op");
        }
        if (m.update) c.config.parser.updateConfig();
        return null;
    },
    async displays(m) { return await configs.get(m.id).config.parser.getAvailableDisplays(); },
    async actions(m) {      // catalogue with meta information
        const p = configs.get(m.id).config.parser;
        const conv = async (x) => ({ name: x.name, importPath: x.importPath, importName: x.importName, target: x.meta.data.target, category: x.meta.data.category,
            display: x.meta.getDisplayName(), params: await Promise.all((x.parameters || []).map(async (q) => ({ name: q.name, default: q.default, metaDefault: q.meta.getDefaultValue(), type: q.meta.type(), values: q.meta.data.type == "select-page" ? null : await q.meta.getValues(), text: q.meta.type() == "text" ? q.meta.convertInput("Some text") : null }))) });
        const group = async (l, key) => await Promise.all(l.map(async (c) => ({client: c.client, items: await Promise.all(c[key].map(conv))})));
        return { actions: await group(await p.getAvailableActions(), "actions"), mappings: await group(await p.getAvailableMappings(), "mappings"), callbacks: await group(await p.getAvailableCallbacks(), "callbacks"),
            colors: await p.getAvailableColors(), keycodes: await p.getAvailableKeycodes(), fonts: await p.getAvailableFonts(), options: await (new ctx.MappingOptionsRef()).generate(p) };
    },
    async checks(m) { const p = configs.get(m.id).config.parser; return (await p.checks.messages()).map((x) => ({type: x.type, value: x.value, actions: x.actions.map(spec)})); },
    async usages(m) { const p = configs.get(m.id).config.parser; return (await p.checks.getDisplayUsages(m.display, !!m.all)).map((x) => ({input: x.input.assignment.name, ...spec(x)})); },
    // warnings shown for every single action
    async marks(m) {
        const p = configs.get(m.id).config.parser, r = [];
        for (const h of await p.getHardwareInfo()) {
            const i = await p.input(h.data.name);
            if (!i) continue;
            for (const hold of [false, true]) {
                const l = i.actions(hold) || [];
                for (let k = 0; k < l.length; k++) r.push([h.name, hold, k, (await p.checks.messagesForAction(l[k], m.type || null)).map((x) => x.value)]);
            }
        }
        return r;
    },
    async hardware(m) { return await configs.get(m.id).config.parser.getHardwareInfo(); },
    async quote(m) { return ctx.ToolsRef.autoQuote(m.text); },
};
(async () => {
    for (;;) {
        const l = readLine();
        if (l === null) process.exit(0);
        const m = JSON.parse(l);
        try {
            warnings.length = 0;
            const r = await ops[m.op](m);
            writeLine({done: r, warnings});
        } catch (e) {
            writeLine({fail: String(e && e.stack || e), python: !!(e && e.python)});
        }
    }
})();
