"use strict";
const fs = require("fs"), path = require("path");
const NA = require("./not_applicable.js");
module.exports = (props) => {
  const checks = [], na = [];
  for (const p of props) {
    const f = path.join(__dirname, "..", "checks", p.id + ".js");
    if (fs.existsSync(f)) {
      const c = require(f);
      checks.push({ property: p.id, quick_cmd: `node run.js ${p.id}`, thorough_cmd: `VERIF_TIER=thorough node run.js ${p.id}`, technique: c.technique ?? c.rules[0], level: "other", level_note: c.level_note ?? c.explanation });
    } else na.push({ property: p.id, reason: NA[p.id] ?? "no sound static check has been built for it yet" });
  }
  return { version: 1, setup_cmd: "node lib/setup.js", checks, not_applicable: na, notes: "All checks read /repo's current sources through the TypeScript compiler API; nothing of /repo is executed. Pinned tables in data/, accepted findings in known-findings.json." };
};
