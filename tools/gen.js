"use strict";
// Regenerates properties.jsonl and MANIFEST.json from tools/properties.js and tools/manifest.js.
const fs = require("fs"), path = require("path");
const root = path.join(__dirname, "..");
const props = require("./properties.js");
fs.writeFileSync(path.join(root, "properties.jsonl"), props.map((x) => JSON.stringify(x)).join("\n") + "\n");
if (fs.existsSync(path.join(__dirname, "manifest.js"))) {
  const m = require("./manifest.js")(props);
  fs.writeFileSync(path.join(root, "MANIFEST.json"), JSON.stringify(m, null, 1) + "\n");
}
if (fs.existsSync(path.join(__dirname, "design.js"))) require("./design.js");
for (const p of props) if (p.title.length > 80) console.error("title too long", p.id, p.title.length);
