"use strict";
// development aid: node tools/mut.js P05[,P04] file search replace [search replace ...] — runs checks on a modified scratch copy
const fs = require("fs"), cp = require("child_process"), path = require("path");
const [ids, file, ...rest] = process.argv.slice(2);
const dir = "/tmp/w/mut" + process.pid; cp.execSync(`mkdir -p ${dir} && cp -a ${process.env.MUT_SRC || "/repo"}/. ${dir}/ && rm -rf ${dir}/.git`);
let s = fs.readFileSync(path.join(dir, file), "utf8");
for (let i = 0; i < rest.length; i += 2) { if (!s.includes(rest[i])) { console.log("NOT FOUND", rest[i]); process.exit(2); } s = s.replace(rest[i], () => rest[i + 1]); }
fs.writeFileSync(path.join(dir, file), s);
process.env.VERIF_REPO = dir;
for (const id of ids.split(",")) {
  const { run } = require("../lib/runner.js");
  let r; try { r = run(id, { quiet: true }); } catch (e) { console.log(id, "CRASH", e.stack.split("\n").slice(0, 3).join(" ")); continue; }
  console.log(id, r.fresh.length ? "CAUGHT" : "quiet"); for (const v of r.fresh.slice(0, 3)) console.log("   ", v.at, v.message.slice(0, 220));
}
cp.execSync(`rm -rf ${dir}`);
