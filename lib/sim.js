"use strict";
// Forward dataflow over a lowered function: the elements are pairs (property state, branch facts); property states are
// kept apart, the facts of one property state are joined, so the analysis terminates without enumerating paths.
const { resolve, succs } = require("./ir.js");
const { Terms } = require("./terms.js");

const MEM = /[.\[]/; // term key that reads memory

class Facts {
  constructor(m, base) { this.m = m ?? new Map(); this.base = base; }
  clone() { return new Facts(new Map(this.m), this.base); }
  /** base: facts assumed throughout, never invalidated */
  get(k) { return this.m.get(k) ?? this.base?.get(k); }
  set(k, f) { const m = new Map(this.m); m.set(k, { ...(m.get(k) ?? {}), ...f }); return new Facts(m, this.base); }
  killValue(id) { const s = "%" + id + ";"; let m; for (const k of this.m.keys()) if (k.includes(s)) (m ??= new Map(this.m)).delete(k); return m ? new Facts(m, this.base) : this; }
  killMem(name) {
    let m; const re = name ? new RegExp("[.]" + name.replace(/[#$]/g, "\\$&") + "(?![\\w])") : null;
    for (const k of this.m.keys()) if (MEM.test(k) && (!re || re.test(k))) (m ??= new Map(this.m)).delete(k);
    return m ? new Facts(m, this.base) : this;
  }
  join(o) {
    let same = this.m.size === o.m.size; const m = new Map();
    for (const [k, f] of this.m) {
      const g = o.m.get(k); if (!g) { same = false; continue; }
      const r = {}; let n = 0;
      for (const x of Object.keys(f)) { if (x === "ne") { const c = f.ne.filter((z) => g.ne?.some((w) => Object.is(w, z)) || ("eq" in g && !Object.is(g.eq, z))); if (c.length) { r.ne = c; n++; } if (c.length !== f.ne.length) same = false; } else if (x in g && Object.is(g[x], f[x])) { r[x] = f[x]; n++; } else same = false; }
      if ("eq" in f && !("eq" in r) && g.ne && !g.ne.some((z) => Object.is(z, f.eq))) { r.ne = g.ne; n++; }
      if ("eq" in f && !("eq" in r) && "eq" in g) { if (!!f.eq === !!g.eq) { r.truth = !!f.eq; n++; } if ((f.eq == null) === (g.eq == null)) { r.nullish = f.eq == null; n++; } }
      else if ("eq" in f && !("eq" in r)) { if (g.truth === !!f.eq) { r.truth = g.truth; n++; } if (g.nullish !== undefined && g.nullish === (f.eq == null)) { r.nullish = g.nullish; n++; } }
      else if ("eq" in g && !("eq" in f)) { if (f.truth === !!g.eq) { r.truth = f.truth; n++; } if (f.nullish !== undefined && f.nullish === (g.eq == null)) { r.nullish = f.nullish; n++; } }
      if (n) m.set(k, r); else same = false;
    }
    return same ? this : new Facts(m, this.base);
  }
  equals(o) { if (this === o) return true; if (this.m.size !== o.m.size) return false; for (const [k, f] of this.m) { const g = o.m.get(k); if (!g) return false; const a = Object.keys(f), b = Object.keys(g); if (a.length !== b.length) return false; for (const x of a) if (x === "ne") { if (!g.ne || g.ne.length !== f.ne.length || f.ne.some((z) => !g.ne.some((w) => Object.is(z, w)))) return false; } else if (!Object.is(f[x], g[x])) return false; } return true; }
}

/** three-valued evaluation of a condition term under facts */
function evalCond(t, facts) {
  if (t.h === "const") return !!t.n;
  if (t.h === "not") { const r = evalCond(t.a[0], facts); return r === undefined ? undefined : !r; }
  if (t.h === "obj" || t.h === "arr" || t.h === "closure" || t.h === "new") return true;
  if (t.h === "bin" && t.n === "===") {
    const [a, b] = t.a;
    if (a.key === b.key && a.h !== "call") return true;
    if (b.h === "const") {
      const v = valueOf(a, facts);
      if (v) { if ("eq" in v) return v.eq === b.n; if (v.ne?.some((z) => z === b.n)) return false; if (b.n == null && v.nullish === false) return false; if (v.truth === true && !b.n) return false; if (v.truth === false && b.n) return false; }
    }
  }
  if (t.h === "isnull") { const v = valueOf(t.a[0], facts); if (v) { if ("eq" in v) return v.eq == null; if (v.nullish !== undefined) return v.nullish; if (v.truth === true) return false; } }
  const f = facts.get(t.key);
  if (f) { if ("eq" in f) return !!f.eq; if (f.truth !== undefined) return f.truth; if (f.nullish === true) return false; }
  return undefined;
}
function valueOf(t, facts) {
  if (t.h === "const") return { eq: t.n };
  if (t.h === "obj" || t.h === "arr" || t.h === "new" || t.h === "closure" || t.h === "tmpl") return { nullish: false, ...(t.h !== "tmpl" ? { truth: true } : {}), ...facts.get(t.key) };
  return facts.get(t.key);
}
function assume(t, truth, facts) {
  if (t.h === "not") return assume(t.a[0], !truth, facts);
  if (t.h === "const") return facts;
  if (t.h === "bin" && t.n === "===" && t.a[1].h === "const") {
    const k = t.a[0].key, c = t.a[1].n;
    if (truth) facts = facts.set(k, { eq: c, truth: !!c, nullish: c == null });
    else { const o = facts.get(k); facts = facts.set(k, { ne: [...(o?.ne ?? []).filter((z) => !Object.is(z, c)), c] }); }
    return facts;
  }
  if (t.h === "isnull") { return facts.set(t.a[0].key, { nullish: truth, ...(truth ? { truth: false } : {}) }); }
  facts = facts.set(t.key, { truth, ...(truth ? { nullish: false } : {}) });
  return facts;
}

/**
 * spec: { init: state, inst(state, v, cx) -> state | [states] | null (path cut), edge?(state, cond term, truth, block, cx) -> state | null,
 *         exit?(state, kind, cx) , pureCall?(v) }
 * states are plain JSON values. cx: { facts, term(v), at(v), path() }
 */
function simulate(unit, spec, opts = {}) {
  const terms = opts.terms ?? new Terms();
  const key = (s) => typeof s === "string" ? s : JSON.stringify(s);
  const inn = new Map(); // block -> Map(key -> {state, facts, from})
  const work = [];
  let steps = 0;
  const put = (block, pred, state, facts) => {
    // translate phis
    if (pred && block.phis.length) {
      const idx = predIndex(block, pred.block, pred.slot);
      const updates = [], before = state; // all phis of a block take their values at once
      for (const ph of block.phis) {
        const a = ph.args[idx]; if (!a) continue;
        const t = terms.of(a); const f = valueOf(t, facts);
        updates.push([ph, f]);
        if (spec.phi) { const r = spec.phi(state, ph, a, t, before); if (r !== undefined) state = r; }
      }
      for (const [ph] of updates) facts = facts.killValue(ph.id);
      for (const [ph, f] of updates) if (f) facts = facts.set("%" + ph.id + ";", f);
    }
    if (spec.enter) state = spec.enter(state, block);
    let m = inn.get(block); if (!m) inn.set(block, m = new Map());
    const k = key(state);
    const old = m.get(k);
    if (!old) { m.set(k, { state, facts, from: pred && { block: pred.block, k: pred.k } }); work.push([block, k]); }
    else {
      const j = old.facts.join(facts);
      if (!j.equals(old.facts)) { old.facts = j; work.push([block, k]); }
    }
    if (m.size > (opts.maxStates ?? 400)) throw new Error(`too many states at ${unit.name} block ${block.id}` + (process.env.VDEBUG ? "\n" + [...m.keys()].slice(0, 12).join("\n") : ""));
  };
  put(unit.entry, null, spec.init, new Facts(undefined, opts.assume));
  const exits = { return: [], throw: [] };
  const pathOf = (block, k) => {
    const out = []; const seen = new Set(); let b = block, kk = k;
    while (b && !seen.has(b.id + "|" + kk)) { seen.add(b.id + "|" + kk); const e = inn.get(b)?.get(kk); if (!e) break; out.unshift(b); if (!e.from) break; b = e.from.block; kk = e.from.k; }
    return out;
  };
  while (work.length) {
    if (++steps > (opts.maxSteps ?? 200000)) throw new Error("simulation too long: " + unit.name);
    const [block, k] = work.shift();
    const e = inn.get(block).get(k);
    let sts = [[e.state, e.facts]];
    const mkcx = (facts, inst) => ({ facts, terms, term: (v) => terms.of(v), block, k, inst, path: () => pathOf(block, k), eval: (t) => evalCond(t, facts) });
    if (block === unit.retBlock || block === unit.throwExit) {
      const kind = block === unit.retBlock ? "return" : "throw";
      exits[kind].push({ state: e.state, facts: e.facts });
      if (spec.exit) spec.exit(e.state, kind, mkcx(e.facts));
      if (!block.term) continue;
    }
    for (const v of block.insts) {
      const nx = [];
      for (const [s, f0] of sts) {
        let f = f0;
        if (f.m.size) f = f.killValue(v.id);
        if (v.op === "Await" || v.op === "Yield") { if (!v.inlined) f = f.killMem(); }
        else if (v.op === "SetProp" || v.op === "DelProp") f = f.killMem(v.name);
        else if (v.op === "SetElem") f = f.killMem();
        else if (v.op === "Call" && !isPureCall(v, spec)) f = f.killMem();
        const r = spec.inst ? spec.inst(s, v, mkcx(f, v)) : s;
        if (r === null) continue;
        if (Array.isArray(r) && r.multi) { for (const x of r) nx.push([x, f]); } else nx.push([r, f]);
      }
      sts = nx;
      if (!sts.length) break;
    }
    const t = block.term; if (!t) continue;
    for (const [s0, f] of sts) {
      const pred = { block, k };
      if (t.kind === "jump") put(t.to, { ...pred, slot: 0 }, s0, f);
      else if (t.kind === "branch") {
        const ct0 = terms.of(t.cond);
        const ct = spec.cond ? spec.cond(ct0, s0) : ct0;
        let val = evalCond(ct, f); if (val === undefined && ct !== ct0) val = evalCond(ct0, f);
        for (const [truth, to, slot] of [[true, t.t, 0], [false, t.f, 1]]) {
          if (val !== undefined && val !== truth) continue;
          let s = s0;
          if (spec.edge) { s = spec.edge(s0, ct, truth, t, mkcx(f)); if (s === null) continue; }
          put(to, { ...pred, slot }, s, ct === ct0 ? assume(ct, truth, f) : assume(ct0, truth, assume(ct, truth, f)));
        }
      } else if (t.kind === "invoke") {
        let s = s0, sx = s0;
        if (spec.onThrow) { sx = spec.onThrow(s0, t.inst, mkcx(f)); }
        if (spec.afterInvoke) { s = spec.afterInvoke(s0, t.inst, mkcx(f)); }
        if (s !== null) put(t.normal, { ...pred, slot: 0 }, s, f);
        if (sx !== null) put(t.exc, { ...pred, slot: 1 }, sx, f);
      } else if (t.kind === "throw") {
        let s = s0; if (spec.onRaise) s = spec.onRaise(s0, t, mkcx(f));
        if (s !== null) put(t.exc, { ...pred, slot: 0 }, s, f);
      }
    }
  }
  return { inn, exits, steps, pathOf };
}
function predIndex(block, pred, slot) {
  // a block may occur twice among the predecessors (branch with both targets equal)
  const first = block.preds.indexOf(pred);
  if (slot === 1) { const t = pred.term; if (t.kind === "branch" && t.t === t.f) return block.preds.indexOf(pred, first + 1); }
  return first;
}
function isPureCall(v, spec) {
  const n = v.name ?? "";
  if (spec.pureCall && spec.pureCall(v)) return true;
  return /^(lib#(Math|String|Number|BigInt|Date|Console|ObjectConstructor|ArrayConstructor|Promise)|utilities\/|deps:|tl\/2_|0_deps)/.test(n) || /logger/.test(n) || (v.spawned === true && false);
}
/** lines of a witness path, for reports */
function describePath(p, blocks) {
  const out = []; let last;
  for (const b of blocks) { for (const v of [...b.insts, b.term ?? {}]) { const a = v.ast; if (a && a.getSourceFile) { const l = p.loc(a); if (l !== last) { out.push(l); last = l; } break; } } }
  return out.length > 14 ? [...out.slice(0, 4), "…", ...out.slice(-9)] : out;
}
module.exports = { simulate, evalCond, assume, Facts, describePath, valueOf };
