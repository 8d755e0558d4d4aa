PROPERTY = "W13"
NEEDS = "automatic selection with at least two ports, one of them with a device which answers and another one without"
BREAKS = "the failed attempt of the other port replaces the connection to the device found by a virtual client"
EDITS = [("web/htdocs/js/midi/MidiHandler.js", "if (onFailure && !success && !attempts.size) {", "if (onFailure && !attempts.size) {")]
KIT = False
SH = '''#!/bin/bash
exec node "$(dirname "$0")/demo.js"
'''
FILES = {"demo.js": '''const fs = require("fs"), vm = require("vm");
const src = fs.readFileSync("web/htdocs/js/midi/MidiHandler.js", "utf8");
const MidiHandler = vm.runInNewContext(src + "; MidiHandler", { console: { log() {}, warn() {}, error() {} }, setTimeout, clearTimeout });
const h = new MidiHandler();
const port = (n) => ({ name: n, manufacturer: "M" });
h.midiAccess = { inputs: new Map([["a", port("A")], ["b", port("B")]]), outputs: new Map([["c", port("A")], ["d", port("B")]]) };
const log = [];
h.scan(
    (name, attempts) => new Promise((resolve, reject) => {
        const stop = (e) => { attempts.delete(name); reject(new Error("stop")); };
        attempts.set(name, { reject: stop });
        if (name == "B") setTimeout(() => { attempts.delete(name); resolve({ name: name }); }, 20);
        else setTimeout(stop, 200);
    }),
    async (connection, attempts) => {
        for (const [n, a] of new Map(attempts)) await a.reject();
        log.push("success " + connection.name);
    },
    async () => { log.push("failure"); }
);
setTimeout(() => { console.log(log); process.exit(JSON.stringify(log) == '["success B"]' ? 0 : 1); }, 400);
'''}
