"use strict";
// Nothing to build: the checks are plain node programs. This only verifies that the tools they need are there.
const { ts, REPO } = require("./project.js");
require("fs").accessSync(REPO);
console.log("TypeScript", ts.version, "node", process.version);
