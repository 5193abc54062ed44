"use strict";
// Records the pinned tables of the checks from the current tree (run by hand when a schema layer is updated).
const fs = require("fs"), path = require("path");
const { load } = require("../lib/project.js");
const D = path.join(__dirname, "..", "data"); const f = path.join(D, "p01.json");
if (!fs.existsSync(f)) fs.writeFileSync(f, '{"flags":{},"exact":{}}');
fs.writeFileSync(f, JSON.stringify(require("../checks/P01.js").pinnedOf(load()), null, 0).replace(/","/g, '",\n"') + "\n");
