"use strict";
// node run.js <property> : decides one property on the current tree of /repo (see DESIGN.md).
const fs = require("fs"), path = require("path");
const { run } = require("./lib/runner.js");
const id = process.argv[2];
if (!/^P\d\d$/.test(id ?? "") || !fs.existsSync(path.join(__dirname, "checks", id + ".js"))) { console.error("usage: node run.js P<nn>"); process.exit(2); }
process.exit(run(id));
