// Drives the project's own virtual Kemper (web/htdocs/clients/kemper/virtual) outside of a browser, with a virtual clock. One JSON command per line.
const fs = require("fs"), vm = require("vm"), path = require("path"), readline = require("readline");
const H = process.argv[2];
let now = 0;
const RealDate = Date;
class VDate extends RealDate {
    constructor(...a) { if (a.length) super(...a); else super(now); }
    static now() { return now; }
}
const errors = [], warns = [];
const ctx = {
    console: { log() {}, info() {}, warn: (...a) => warns.push(a.map(String).join(" ")), error: (...a) => errors.push(a.map(x => (x && x.stack) || String(x)).join(" ")) },
    Date: VDate, setTimeout() {}, setInterval() { return 1; }, clearInterval() {}, clearTimeout() {}, Math, JSON
};
vm.createContext(ctx);
const load = f => vm.runInContext(fs.readFileSync(path.join(H, f), "utf8"), ctx, { filename: f });
for (const f of ["js/misc/Tools.js", "js/misc/PeriodCounter.js", "js/model/VirtualClient.js"]) load(f);
const V = "clients/kemper/virtual/";
const order = ["ParameterKeys", "Parameter", "ParameterDefault", "Parameters", "Protocol", "Morph", "Tempo", "Tuner", "Stats", "ClientSetup", "Client"];
for (const n of order) load(V + "VirtualKemper" + n + ".js");
// helper modules somebody may have split off
for (const f of fs.readdirSync(path.join(H, V)).sort()) {
    const n = f.replace(/^VirtualKemper/, "").replace(/\.js$/, "");
    if (f.endsWith(".js") && !order.includes(n) && !f.includes("UI")) { try { load(V + f); } catch (e) { errors.push("load " + f + ": " + e); } }
}
ctx.__now = () => now;
const G = n => vm.runInContext(n, ctx);
const NRPNKey = G("NRPNKey"), CCKey = G("CCKey"), PCKey = G("PCKey"), Client = G("VirtualKemperClient");
let dev = null;
const key = k => k[0] == "n" ? new NRPNKey([k[1], k[2]]) : k[0] == "c" ? new CCKey(k[1]) : new PCKey();
function dump() {
    const ret = {};
    const d = dev.parameters;
    for (const p of known) { if (p.options && p.options.keys) ret[p.options.keys.getId()] = p.value; }
    return ret;
}
let known = [];
const OPS = {
    new(c) {
        now = c.t;
        const o = Object.assign({}, c.opts);
        o.overrideTimeCallback = () => now;
        known = [];
        const P = G("VirtualKemperParameters");
        const init = P.prototype.init;
        P.prototype.init = function (x) { const r = init.call(this, x); known.push(r); return r; };
        dev = new Client(o);
        P.prototype.init = init;
        dev.parameters.addInitCallback(p => known.push(p));
        return {};
    },
    step(c) {
        now = c.t;
        const before = c.upfirst !== false;
        if (before && c.up !== false) dev.update();
        for (const m of c.in || []) dev.doSend(m);
        if (!before && c.up !== false) dev.update();
        return {};
    },
    set(c) { now = c.t; dev.parameters.get(key(c.k)).setValue(c.v); return {}; },
    rig(c) { now = c.t; dev.setRigId(c.v); return {}; },
    bpm(c) { now = c.t; dev.tempo.set(c.v); return {}; },
    get(c) { return { v: c.ks.map(k => dev.parameters.value(key(k))) }; },
    dump(c) { return { v: dump(), rig: dev.getRigId(), bpm: dev.tempo.bpm(), tuner: dev.tuner.running, state: dev.protocol.state, set: dev.protocol.parameterSet }; },
    props(c) { return { v: c.ms.map(m => dev.getMessageProperties(m) || null) }; },
};
const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
rl.on("line", line => {
    const c = JSON.parse(line);
    let r;
    try { r = OPS[c.op](c); } catch (e) { r = { exc: (e && e.stack) || String(e) }; }
    if (dev) { r.out = dev.messageQueue.map(m => Array.from(m)); dev.messageQueue.length = 0; }
    if (errors.length) r.err = errors.splice(0);
    if (warns.length) r.warn = warns.splice(0);
    process.stdout.write(JSON.stringify(r) + "\n");
});
