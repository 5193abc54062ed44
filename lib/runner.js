"use strict";
const fs = require("fs"), path = require("path");
const ROOT = path.join(__dirname, "..");
const { load, REPO } = require("./project.js");

function known() {
  const f = path.join(ROOT, "known-findings.json");
  if (!fs.existsSync(f)) return [];
  return JSON.parse(fs.readFileSync(f, "utf8")).findings;
}

class Ctx {
  constructor(id, tier) { this.id = id; this.tier = tier; this.violations = []; this.counts = {}; this.samples = {}; this.notes = []; this.seen = new Set(); this.obligations = 0; this.discharged = 0; }
  get p() { return this._p ?? (this._p = load()); }
  get thorough() { return this.tier === "thorough"; }
  /** one obligation of kind `kind`, decided: ok or violated */
  ob(kind, ok, v) {
    this.obligations++; this.counts[kind] = (this.counts[kind] ?? 0) + 1;
    if (ok) this.discharged++;
    else this.violate({ rule: kind, ...v });
    if (v?.sample || (ok && v?.at)) { const l = this.samples[kind] ??= []; if (l.length < 3) l.push(v.sample ?? v.at); }
    return ok;
  }
  count(kind, n = 1) { this.counts[kind] = (this.counts[kind] ?? 0) + n; }
  sample(kind, s) { const l = this.samples[kind] ??= []; if (l.length < 4) l.push(s); }
  /** v: {rule, key, at, message, path?}: key identifies the construct independently of line numbers */
  violate(v) {
    const key = `${v.rule}|${v.key ?? v.at ?? v.message}`;
    if (this.seen.has(key)) return; this.seen.add(key);
    this.violations.push({ ...v, key });
  }
  /** an anchor that must exist, or a rule that must have instances */
  floor(kind, min) {
    const n = this.counts[kind] ?? 0;
    if (n < min) this.violate({ rule: "floor:" + kind, key: "floor", at: "(whole tree)", message: `only ${n} instance(s) of "${kind}" found, at least ${min} expected: the construct the rule is about is gone or no longer recognised` });
  }
  need(x, what) { if (!x) { this.violate({ rule: "anchor", key: what, at: "(whole tree)", message: `${what} not found: the construct the rule is about is gone` }); throw new AnchorMissing(what); } return x; }
}
class AnchorMissing extends Error {}

function run(id, opts = {}) {
  const t0 = Date.now();
  const tier = opts.tier ?? process.env.VERIF_TIER ?? "quick";
  const check = require(path.join(ROOT, "checks", id + ".js"));
  const ctx = new Ctx(id, tier);
  if (opts.project) ctx._p = opts.project;
  for (const part of check.parts ? check.parts : [check.run]) {
    try { part(ctx); } catch (e) {
      if (e instanceof AnchorMissing) continue;
      if (opts.quiet) throw e;
      console.error(e.stack); return 2;
    }
  }
  const list = known().filter((k) => k.property === id && k.status === "known");
  const hit = new Set(); const fresh = [];
  for (const v of ctx.violations) { const k = list.find((x) => x.key === v.key); if (k) hit.add(k); else fresh.push(v); }
  if (opts.quiet) return { fresh, known: [...hit], ctx };
  for (const k of hit) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
  const ev = {
    property: id, tier, seed: Number(process.env.VERIF_SEED ?? 1), level: "other",
    coverage: {
      explanation: check.explanation, rules: check.rules, repo_files_parsed: ctx.p.sourceFiles.length,
      obligations: ctx.obligations, discharged: ctx.discharged, instances_by_rule: ctx.counts, samples: ctx.samples, ...(ctx.extra ?? {}),
    },
    assumptions: check.assumptions ?? [],
    violations: fresh.length,
    wall_s: (Date.now() - t0) / 1000,
  };
  fs.writeFileSync(path.join(ROOT, "evidence", id + ".json"), JSON.stringify(ev, null, 1) + "\n");
  const vf = path.join(ROOT, "evidence", id + ".violations.json");
  if (fresh.length) {
    fs.writeFileSync(vf, JSON.stringify(fresh, null, 1) + "\n");
    for (const v of fresh.slice(0, 40)) console.log(`  ${v.at ?? ""} [${v.rule}] ${v.message}${v.path ? "\n     path: " + v.path.join(" -> ") : ""}`);
    console.log(`VIOLATION property=${id} replay=${vf}`);
    return 1;
  }
  if (fs.existsSync(vf)) fs.rmSync(vf);
  console.log(`OK property=${id} obligations=${ctx.obligations} ${JSON.stringify(ctx.counts)}`);
  return 0;
}
module.exports = { run, Ctx, AnchorMissing, ROOT };
