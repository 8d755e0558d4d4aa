PROPERTY = "W08"
NEEDS = "two presets whose names differ only in upper and lower case"
BREAKS = "loading a preset returns the data of the other preset whose name differs only in case"
EDITS = [("web/htdocs/js/model/Presets.js", "            if (preset.id == id) {", "            if (String(preset.id).toLowerCase() == String(id).toLowerCase()) {")]
KIT = False
SH = '''#!/bin/bash
exec node "$(dirname "$0")/demo.js"
'''
FILES = {"demo.js": '''const fs = require("fs"), vm = require("vm");
const store = {};
class LocalState {
    get(k) { return store[k] === undefined ? undefined : JSON.parse(store[k]); }
    set(k, v) { store[k] = JSON.stringify(v); }
    has(k) { return k in store; }
}
const src = fs.readFileSync("web/htdocs/js/model/Presets.js", "utf8");
const Presets = vm.runInNewContext(src + "; Presets", { LocalState: LocalState, console: console });
const p = new Presets();
p.set("Live", { inputs_py: "1" });
p.set("live", { inputs_py: "2" });
const got = [p.get("Live").inputs_py, p.get("live").inputs_py];
console.log(got);
process.exit(got[0] == "1" && got[1] == "2" ? 0 : 1);
'''}
