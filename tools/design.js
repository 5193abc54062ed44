"use strict";
const fs = require("fs"), path = require("path"); const V = path.join(__dirname, ".."); const D = require("./design_text.js");
const props = fs.readFileSync(V + "/properties.jsonl", "utf8").trim().split("\n").map((l) => JSON.parse(l)); const na = require("./not_applicable.js");
const K = JSON.parse(fs.readFileSync(V + "/known-findings.json", "utf8")).findings;
const seeds = fs.readdirSync(V + "/seeded").map((d) => ({ id: d, ...JSON.parse(fs.readFileSync(`${V}/seeded/${d}/meta.json`, "utf8")) }));
const out = [D.head, "## The properties and how each is decided\n"];
const manifest = JSON.parse(fs.readFileSync(V + "/MANIFEST.json", "utf8"));
for (const p of props) {
  const f = `${V}/checks/${p.id}.js`; out.push(`### ${p.id} ${p.title}\n`);
  if (fs.existsSync(f)) {
    const m = require(f); out.push(`*Technique:* ${m.technique}.\n`, m.explanation + "\n"); const rules = Array.isArray(m.rules) ? m.rules : Object.values(m.rules ?? {}); if (rules.length) out.push("*Rules:* " + rules.join("; ") + ".\n");
    if (m.assumptions?.length) out.push("*Assumes:* " + m.assumptions.join("; ") + ".\n"); if (D.notes[p.id]) out.push("*Notes:* " + D.notes[p.id] + "\n");
    const s = seeds.filter((q) => q.property === p.id); if (s.length) out.push("*Planted bugs it catches:* " + s.map((q) => q.id + (q.missed ? " (missed)" : "")).join(", ") + ".\n");
  } else { const r = (manifest.not_applicable ?? []).find((q) => q.property === p.id || q.property_id === p.id || q.id === p.id); out.push(`Not claimed: ${r?.reason ?? na[p.id] ?? ""}\n`); if (D.notes[p.id]) out.push(D.notes[p.id] + "\n"); }
}
out.push(D.tail, ""); for (const k of K) out.push(k.status === "fixed" ? `* ${k.line}` : `* known: property=${k.property} ${k.what}`);
out.push("", "## Planted bugs\n", "| id | property | what breaks | needs |", "|----|----|----|----|", ...seeds.map((s) => `| ${s.id} | ${s.property} | ${String(s.what_it_breaks).replace(/\|/g, "/")} | ${String(s.needs).replace(/\|/g, "/")} |`), "");
fs.writeFileSync(V + "/DESIGN.md", out.join("\n").replace(/\n{3,}/g, "\n\n"));
