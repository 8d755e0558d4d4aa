// The connection of the emulator to a client device: detection on simulated Web MIDI ports, selection, virtual clients.
const {page, Timers, drain, handlers} = require('./webapp.js');

async function clientCase(c) {       // {ports: [{name, in, out, answer, noise}], configs: {name: {text, delay}}, steps}
    const timers = new Timers(), log = [], intervals = new Map();
    let iid = 0;
    const T = () => timers.now - 1000;
    const every = (f, ms) => { const id = 'i' + (++iid); const h = {live: true, f, ms: Math.max(1, ms || 1)}; intervals.set(id, h); return id; };
    const ins = new Map(), outs = new Map();
    c.ports.forEach((p, i) => {
        if (p.in) ins.set('i' + i, {name: p.name, manufacturer: p.im || 'M', id: 'i' + i, onmidimessage: null, state: 'connected'});
        if (p.out) outs.set('o' + i, {name: p.name, manufacturer: p.om || 'M', id: 'o' + i, send(msg) {
            const d = Array.from(msg);
            log.push(['out', T(), i, d]);
            const req = d[0] == 0xf0 && d[1] == 0 && d[2] == 0x20 && d[3] == 0x33 && d[6] == 0x41 && d[8] == 4 && d[9] == 1;
            const back = (m, ms, what) => timers.set(() => { const x = ins.get('i' + i); log.push([what, T(), i, m]); if (x && x.onmidimessage) x.onmidimessage({data: Uint8Array.from(m)}); }, ms);
            if (req && p.noise) for (const [ms, m] of p.noise) back(m, ms, 'noise');
            if (req && p.answer !== null) back([0xf0, 0, 0x20, 0x33, p.product || 0, 0, 1, 0, 4, 1, 64, 0, 0xf7], p.answer, 'answer');
        }});
    });
    const ctx = page({timers, log, globals: {
        setInterval: every, clearInterval: (i) => { intervals.delete(i); },
        navigator: {requestMIDIAccess: async () => ({sysexEnabled: true, inputs: ins, outputs: outs})},
        localStorage: {d: {}, getItem(k) { return k in this.d ? this.d[k] : null; }, setItem(k, v) { this.d[k] = String(v); }, removeItem(k) { delete this.d[k]; }},
        externalRefs: {}
    }});
    ctx.__load(['Tools', 'LocalState', 'PeriodCounter', 'MidiListener', 'MidiHandler', 'PythonMidiWrapper', 'VirtualClient', 'Client', 'ClientDetector', 'KemperClientDetector', 'KemperClient', 'BoomerangClient',
        'ClientFactory', 'VirtualKemperClient', 'VirtualKemperClientSetup', 'VirtualKemperMorph', 'VirtualKemperParameter', 'VirtualKemperParameterDefault', 'VirtualKemperParameterKeys', 'VirtualKemperParameters',
        'VirtualKemperProtocol', 'VirtualKemperStats', 'VirtualKemperTempo', 'VirtualKemperTuner', 'VirtualKemperClientUI', 'PySwitchRunner', 'ClientController'], {Controller: 1});
    let shown = null;
    const heard = [];
    ctx.__ctl = {ui: {showVirtualClient: (v) => { shown = v; }, message() {}, notifications: {message() {}}}, handle: (e) => log.push(['handle', String(e)])};
    ctx.__heard = (p) => heard.push(p);
    ctx.__run('class Controller { static VERSION = "2.4.9" }; globalThis.Controller = Controller;');
    ctx.__run(`(() => { const r = MidiListener.prototype.receive; MidiListener.prototype.receive = function(p, d) { if (p == this.portName) __heard(p); return r.call(this, p, d); };
        __ctl.pyswitch = Object.create(PySwitchRunner.prototype); __ctl.midi = new MidiHandler(); })()`);
    const advance = async (ms) => {
        const end = timers.now + ms;
        await drain();
        for (let k = 0; k < 20000; k++) {
            const t = timers.next();
            if (!t || t.at > end) break;
            timers.clear(t.id);
            timers.now = Math.max(timers.now, t.at);
            t.f();
            await drain();
        }
        timers.now = end;
        for (const h of [...intervals.values()]) h.f();
        await drain();
    };
    await ctx.__ctl.midi.init();
    await drain();
    const client = ctx.__run('__ctl.client = new ClientController(__ctl)');
    const configs = {};
    for (const k in c.configs) configs[k] = {get: async () => { if (c.configs[k].delay) await new Promise((r) => timers.set(r, c.configs[k].delay)); return {inputs_py: c.configs[k].text, display_py: ''}; }};
    const wrappers = [];
    const cur = () => { const w = ctx.externalRefs.midiWrapper || null; if (w && !wrappers.includes(w)) wrappers.push(w); return w; };
    const kind = (w) => !w ? null : ctx.__run('(w) => w instanceof PythonMidiWrapper ? "port" : w instanceof VirtualKemperClient ? "virtual-kemper" : w instanceof VirtualClient ? "virtual-" + w.name : "?"')(w);
    let n = 0;
    for (const st of c.steps) {
        if (st[0] == 'select') client.state.set('selectedClient', st[1]);
        if (st[0] == 'init' || st[0] == 'select') {
            log.push(['init', T(), st[0] == 'init' ? st[1] : st[2]]);
            client.init(configs[st[0] == 'init' ? st[1] : st[2]]).then(() => {}, (e) => log.push(['initfail', T(), String(e && e.stack || e).substring(0, 300)]));
            await drain();
            cur();
        } else if (st[0] == 'wait') {
            for (let left = st[1]; left > 0; left -= 10) { await advance(Math.min(10, left)); cur(); }
        } else if (st[0] == 'look') {
            const w = cur(), r = {kind: kind(w), current: client.current, shown: shown === null ? null : shown === w ? 'it' : 'other', intervals: intervals.size, rx: [], tx: null, vq: null};
            for (const x of wrappers) if (x.messageQueue) x.messageQueue.length = 0;
            for (const [id, x] of ins) {
                const m = [0x90, n & 127, 1 + ((n >> 7) & 63)], m2 = [0xf0, 0, 0x20, 0x33, 0, 0, 1, 0, 4, 1, n & 127, 7, 0xf7], m3 = [0xc0, n & 127];
                n++;
                heard.length = 0;
                if (x.onmidimessage) { for (const d of [m, m2, m3]) x.onmidimessage({data: Uint8Array.from(d)}); await drain(); }
                const got = wrappers.map((y) => y.messageQueue.map((d) => Array.from(d)));
                r.rx.push({port: x.name, sent: [m, m2, m3], heard: heard.length, mine: w ? got[wrappers.indexOf(w)] : [], others: got.filter((g, k) => wrappers[k] !== w && g.length).length});
                for (const y of wrappers) y.messageQueue.length = 0;
            }
            const before = log.length;
            if (w) {
                const m = [0x90, n & 127, 99]; n++;
                await w.send({toJs: () => Uint8Array.from(m)});
                await w.send({toJs: () => Uint8Array.from([0x80, 1, 2])});
                await advance(5);
                r.tx = {sent: [m, [0x80, 1, 2]], out: log.splice(before).filter((e) => e[0] == 'out').map((e) => [e[2], e[3]])};
            }
            log.push(['look', T(), r]);
        }
    }
    return {log};
}
handlers.client = clientCase;
