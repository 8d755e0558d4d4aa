PROPERTY = "W10"
NEEDS = "a setting whose default is not falsy is explicitly stored as a falsy value, or 0 is stored where the default is null (input channel 1)"
BREAKS = "the emulator runs with the default (all channels) instead of the stored input channel 0"
EDITS = [("web/htdocs/js/model/CommunicationSettings.js", "        if (data.hasOwnProperty(name)) return data[name];", "        if (data[name]) return data[name];")]
KIT = False
SH = '''#!/bin/bash
exec node "$(dirname "$0")/demo.js"
'''
FILES = {"demo.js": '''const fs = require("fs"), vm = require("vm");
const store = {};
class LocalState {
    get(k) { return store[k] === undefined ? undefined : JSON.parse(store[k]); }
    set(k, v) { store[k] = JSON.stringify(v); }
    has(k) { return k in store; }
}
const src = fs.readFileSync("web/htdocs/js/model/CommunicationSettings.js", "utf8");
const C = vm.runInNewContext(src + "; CommunicationSettings", { LocalState: LocalState, console: console });
const c = new C();
const before = c.getAttribute("inChannel");
c.setAttribute("inChannel", 0);
console.log(before, c.getAttribute("inChannel"));
process.exit(before === null && c.getAttribute("inChannel") === 0 ? 0 : 1);
'''}
