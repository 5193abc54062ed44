"use strict";
// What has been tested on the way: a path-sensitive record of the outcomes of tests (conditions and assertions) about chosen values.
const { resolve } = require("./ir.js");
const { ts } = require("./project.js");
const { simulate, describePath } = require("./sim.js");
const { Terms, PhiTrack, mk } = require("./terms.js");
const { lower, fnLabel, typeRefutes, typeOfValue } = require("./util.js");
const X = require("./crypto.js");

/** facts: "+k" the term k was true, "-k" it was false; equalities as "+(a===b)" with the operands in the order Terms uses */
function factKeys(tt, t, truth, ofTerm) {
  const out = [];
  while (t.h === "not") { truth = !truth; t = t.a[0]; }
  const e = X.equalityTest(tt, t, ofTerm);
  if (e) out.push((truth === e.eq ? "+" : "-") + eqKey(tt, e.a, e.b));
  if (!(t.h === "bin" && t.n === "===")) out.push((truth ? "+" : "-") + t.key);
  return out;
}
/** a name for the class of objects the object of a property access belongs to, when its static type has one */
function nameOfType(t) {
  if (!t) return null;
  if (t.isUnion?.() || t.isIntersection?.()) { const c = t.types.filter((x) => !(x.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null))).map(nameOfType).filter(Boolean); return c.length === 1 || (t.isIntersection() && c.length) ? c[0] : null; }
  const n = t.symbol?.name;
  return n && n !== "__type" && n !== "__object" ? n : null;
}
function classOf(p, v, access) {
  let n = nameOfType(typeOfValue(p, v));
  if (n === null && access) { // the access as written
    let a = access.ast; if (a && ts.isBinaryExpression(a)) a = a.left;
    if (a && (ts.isPropertyAccessExpression(a) || ts.isElementAccessExpression(a))) try { n = nameOfType(p.checker.getTypeAtLocation(a.expression)); } catch { n = null; }
  }
  return n;
}
const eqKey = (tt, a, b) => tt.bin("===", a, b).key;
/**
 * o.policy  lowering policy;  o.keep(key) which facts matter;  o.inst(s, v, cx, T, has) → state | undefined
 * o.edge(s, term, truth, cx, T), o.exit(s, kind, cx, T, has), o.after(s, v, cx, T, has); s.x holds the caller's own state
 */
/** nothing is not equal to a value whose type does not include it */
function absentRefuted(p, t, cond, truth) {
  while (t.h === "not") { t = t.a[0]; truth = !truth; }
  if (!truth || t.h !== "bin" || t.n !== "===") return false;
  const none = t.a.find((y) => y.h === "const" && y.n === undefined || y.key === "undefined"); if (!none || t.a.every((y) => y === none)) return false;
  let c = resolve(cond); while (c.op === "Un" && c.operator === "!") c = resolve(c.args[0]);
  if (c.op !== "Bin" || !/^[!=]==?$/.test(c.operator ?? "")) return false;
  return c.args.some((y) => { y = resolve(y); if (y.op === "Phi" || y.op === "Const" || y.op === "Undef") return false; const ty = typeOfValue(p, y); if (!ty || ty.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.TypeParameter | ts.TypeFlags.Undefined | ts.TypeFlags.Void | ts.TypeFlags.Never)) return false; return !(ty.isUnion() && ty.types.some((z) => z.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Void | ts.TypeFlags.Any))); });
}
function track(ctx, fn, o) {
  const p = ctx.p;
  const u = o.unit ?? lower(p, fn, o.policy ?? {});
  const reads = new Map();
  // o.fields: fields of this whose reads stand for what they hold at that moment
  const mine = (v) => o.fields && o.fields.includes(v.name) && resolve(v.args[0]).op === "This";
  const hook0 = o.terms?.hook, hook = o.fields ? (v, A) => v.op === "GetProp" && mine(v) ? mk("val", [], v.id) : hook0?.(v, A) : hook0;
  const terms = new Terms({ ...(o.terms ?? {}), hook }).fills(u); const pt = new PhiTrack(terms).track(u); pt.unroll = o.unroll;
  const vals = new Map(); for (const b of u.blocks) for (const v of [...b.phis, ...b.insts]) vals.set(v.id, v);
  const ofTerm = (t) => (t.h === "val" ? vals.get(t.n) : undefined);
  const keep = o.keep ?? (() => true);
  const add = (s, ks) => { let f = s.f; for (const k of ks) { if (!keep(k) || f.includes(k)) continue; f = [...f, k].sort(); } return f === s.f ? s : { ...s, f }; };
  const kill = (s, test) => { const f = s.f.filter((k) => !test(k)); return f.length === s.f.length ? s : { ...s, f }; };
  const TX = (s) => { const T = (v) => pt.expand(terms.of(v), s); T.field = (n) => { const k = s.h?.[n] ?? "this." + n; if (!pt.store.has(k)) { const t = mk("x"); t._k = k; pt.store.set(k, t); } return pt.store.get(k); }; T.terms = terms; T.expand = (t) => pt.expand(t, s); return T; };
  const HAS = (s) => { const has = (k) => s.f.includes(k); has.eq = (a, b) => s.f.includes("+" + eqKey(terms, a, b)); has.ne = (a, b) => s.f.includes("-" + eqKey(terms, a, b)); has.true = (t) => s.f.includes("+" + t.key); has.false = (t) => s.f.includes("-" + t.key); has.all = s.f; return has; };
  // a value tested by several branches decides them all the same way until it is computed again
  const tested = new Map(); const bare = (v) => { let n = false; while (v && v.op === "Un" && v.operator === "!") { v = resolve(v.args[0]); n = !n; } return [v, n]; };
  for (const b of u.blocks) if (b.term?.cond) { const [v] = bare(resolve(b.term.cond)); if (v && v.op !== "Const" && v.op !== "Phi") tested.set(v.id, (tested.get(v.id) ?? 0) + 1); }
  for (const [k, n] of tested) if (n < 2) tested.delete(k);
  const assumeTerm = (s, t, truth) => {
    if (t.h === "const") return !!t.n === truth ? s : null;
    const ks = factKeys(terms, t, truth, ofTerm);
    // places the caller knows do not change between tests: opposite outcomes exclude each other
    if (o.stable) for (const k of ks) if (s.f.includes((k[0] === "+" ? "-" : "+") + k.slice(1)) && o.stable(k.slice(1))) return null;
    return add(s, ks);
  };
  const r = simulate(u, {
    init: { f: [], x: o.init ?? {} },
    phi(s, ph, a, t, before) { const id = "%" + ph.id + ";"; s = kill(s, (k) => k.includes(id)); return pt.phi(s, ph, a, t, before); },
    enter: (s, b) => b === u.throwExit && !o.atThrow ? { f: [], x: o.exit ? s.x : {} } : pt.enter(s, b),
    cond: (t, s) => pt.expand(t, s),
    inst(s, v, cx) {
      const before = s; // what was known when a property is written
      if (v.op === "GetProp" && o.reads !== false) { const b = pt.expand(terms.of(v.args[0]), s).key; reads.set(b + "." + v.name, classOf(p, v.args[0], v)); }
      if (v.op === "SetProp") {
        const b = pt.expand(terms.of(v.args[0]), s).key, me = classOf(p, v.args[0], v), re = new RegExp("\\." + v.name.replace(/[$#]/g, "\\$&") + "(?![\\w$])");
        s = kill(s, (k) => {
          if (!k.includes("." + v.name) || !re.test(k)) return false;
          let rest = k; // places read in the fact that are known to be another object
          for (const [r, c] of reads) if (r !== b + "." + v.name && r.endsWith("." + v.name) && c && me && c !== me && rest.includes(r)) rest = rest.split(r).join("?");
          return re.test(rest);
        });
      }
      const id = "%" + v.id + ";";
      if (s.d && v.id in s.d) { const d = { ...s.d }; delete d[v.id]; s = { ...s, d }; }
      if (s.ph) s = pt.age(s, id);
      if (s.f.length) s = kill(s, (k) => k.includes(id));
      if (o.fields && v.op === "GetProp" && mine(v)) { const k = s.h?.[v.name] ?? "this." + v.name; if (!pt.store.has(k)) { const t = mk("x"); t._k = k; pt.store.set(k, t); } s = { ...s, ph: { ...(s.ph ?? {}), [v.id]: k } }; }
      if (o.fields && v.op === "SetProp" && mine(v)) { const t = pt.expand(terms.of(v.args[1]), s); pt.store.set(t.key, t); s = { ...s, h: { ...(s.h ?? {}), [v.name]: t.key } }; }
      if (s.f.length && (v.op === "IterElem" || v.op === "IterKey" || v.op === "IterIndex")) { const e = pt.expand(terms.of(v), s).key; s = kill(s, (k) => k.includes(e)); }
      if (o.onRet && v.op === "Return") o.onRet(s, v.args[0], cx, TX(s), HAS(s));
      if (o.inst) { const q = o.inst(s, v, cx, TX(s), HAS(v.op === "SetProp" ? before : s)); if (q !== undefined) return q; }
      return s;
    },
    edge(s, t, truth, term, cx) {
      if (typeRefutes(p, term.cond, truth)) return null;
      if (absentRefuted(p, t, term.cond, truth)) return null;
      { const [v, n] = bare(resolve(term.cond)); if (v && tested.has(v.id)) { const d = truth !== n; if (s.d && v.id in s.d) { if (s.d[v.id] !== d) return null; } else s = { ...s, d: { ...s.d, [v.id]: d } }; } }
      if (o.edge) { const q = o.edge(s, t, truth, cx, TX(s), HAS(s), term); if (q === null) return null; if (q !== undefined) s = q; }
      return assumeTerm(s, t, truth);
    },
    afterInvoke(s, v, cx) {
      if (v.op === "Call") {
        const n = v.name ?? "", T = TX(s);
        if (/#assert$|\.assert$/.test(n) && v.callArgs?.length) { const q = assumeTerm(s, T(v.callArgs[0]), true); if (q === null) return null; s = q; }
        if (/#assertFalse$/.test(n) && v.callArgs?.length) { const q = assumeTerm(s, T(v.callArgs[0]), false); if (q === null) return null; s = q; }
        if (/#assert(Strict)?Equals$/.test(n) && v.callArgs?.length >= 2) s = add(s, ["+" + eqKey(terms, T(v.callArgs[0]), T(v.callArgs[1]))]);
        if (/#assertNotEquals$/.test(n) && v.callArgs?.length >= 2) s = add(s, ["-" + eqKey(terms, T(v.callArgs[0]), T(v.callArgs[1]))]);
      }
      if (o.after) { const q = o.after(s, v, cx, TX(s), HAS(s)); if (q !== undefined) return q; }
      return s;
    },
    onThrow(s, v, cx) { if (o.onThrow) { const q = o.onThrow(s, v, cx, TX(s), HAS(s)); if (q !== undefined) return q; } return s; },
    onRaise(s, t, cx) { if (o.onRaise) { const q = o.onRaise(s, t, cx, TX(s), HAS(s)); if (q !== undefined) return q; } return s; },
    exit(s, kind, cx) { if (o.exit) o.exit(s, kind, cx, TX(s), HAS(s)); },
  }, { terms, maxStates: o.maxStates ?? 3000 });
  return { u, terms, r, vals, label: fnLabel(p, fn) };
}
module.exports = { track, eqKey, describePath, mk, resolve, nameOfType };
