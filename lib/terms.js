"use strict";
// Canonical terms of SSA values: the same computation written differently gets the same term.
const { resolve } = require("./ir.js");

const PURE = new Set(["utilities/0_int.ts#mod", "utilities/0_hash.ts#sha256", "utilities/0_hash.ts#sha1", "0_deps.ts#ige256Encrypt", "0_deps.ts#ige256Decrypt", "lib#BigIntConstructor", "lib#BigInt", "lib#NumberConstructor", "lib#Number"]);
const PURE_RE = /^(lib#(Math|String|Number|BigIntConstructor|NumberConstructor|ObjectConstructor|Array|ReadonlyArray|Uint8Array)\.|utilities\/(0_int|0_hash|1_math|0_object|0_text|1_base64|0_misc)\.ts#|tl\/2_telegram\.ts#(is|as|isOneOf|isOfEnum|peerToChatId|chatIdToPeer|getChannelChatId)|deps:)/;
const RANDOM = /getRandom|random/i;
const isFluent = (n) => /#TLWriter\.(write|writeInt|writeObject|writeString|writeBytes|writeDouble|writeFloat)/.test(n ?? "");

class Term {
  constructor(h, a, n) { this.h = h; this.a = a; this.n = n; }
  get key() {
    if (this._k) return this._k;
    const A = () => this.a.map((x) => x.key).join(",");
    switch (this.h) {
      case "const": this._k = typeof this.n === "bigint" ? this.n + "n" : this.n === undefined ? "undefined" : JSON.stringify(this.n); break;
      case "param": this._k = "$" + this.n; break;
      case "this": this._k = "this"; break;
      case "prop": this._k = this.a[0].key + "." + this.n; break;
      case "elem": this._k = this.a[0].key + "[" + this.a[1].key + "]"; break;
      case "global": this._k = "@" + short(this.n); break;
      case "val": this._k = "%" + this.n + ";"; break;
      case "bin": this._k = "(" + this.a[0].key + this.n + this.a[1].key + ")"; break;
      case "lin": this._k = "(" + this.n + ")"; break;
      default: this._k = this.h + (this.n !== undefined ? ":" + short(String(this.n)) : "") + "(" + A() + ")" + (this.id !== undefined ? "%" + this.id + ";" : "");
    }
    return this._k;
  }
  toString() { return this.key; }
}
const short = (n) => n.replace(/^[^#]*#/, "");
const C = (v) => new Term("const", [], v);
const mk = (h, a = [], n) => new Term(h, a, n);

/** linear normal form of numeric +,- terms */
function linear(t) {
  if (t.h === "const" && (typeof t.n === "number" || typeof t.n === "bigint")) return { c: t.n, m: new Map(), big: typeof t.n === "bigint" };
  if (t.h === "lin") return t.lin;
  return { c: null, m: new Map([[t.key, { t, k: 1 }]]) };
}
function addLin(x, y, sign) {
  const m = new Map(); for (const [k, v] of x.m) m.set(k, { ...v });
  for (const [k, v] of y.m) { const o = m.get(k); const nk = (o?.k ?? 0) + sign * v.k; if (nk === 0) m.delete(k); else m.set(k, { t: v.t, k: nk }); }
  let c;
  const big = typeof (x.c ?? y.c) === "bigint";
  const z = big ? 0n : 0;
  try { c = sign > 0 ? (x.c ?? z) + (y.c ?? z) : (x.c ?? z) - (y.c ?? z); } catch { return null; }
  return { c, m };
}
function linTerm(l) {
  const c = l.c ?? 0;
  if (l.m.size === 0) return C(c);
  if (l.m.size === 1 && (c === 0 || c === 0n)) { const [v] = l.m.values(); if (v.k === 1) return v.t; }
  const parts = [...l.m.entries()].sort((a, b) => a[0] < b[0] ? -1 : 1);
  const s = parts.map(([k, v]) => (v.k === 1 ? "+" : v.k === -1 ? "-" : (v.k > 0 ? "+" : "") + v.k + "*") + k).join("") + (c ? (c > 0 ? "+" : "") + c : "");
  const t = mk("lin", parts.map(([, v]) => v.t), s); t.lin = { c, m: l.m };
  return t;
}

class Terms {
  /** env: optional map value id -> Term that overrides */
  constructor(opts = {}) { this.memo = new Map(); this.opts = opts; }
  of(v, env) {
    v = resolve(v);
    if (env && env.has(v.id)) return env.get(v.id);
    if (!env && this.memo.has(v.id)) return this.memo.get(v.id);
    if (!env) this.memo.set(v.id, mk("val", [], v.id)); // cycles
    const t = this.of0(v, env);
    if (!env) this.memo.set(v.id, t);
    return t;
  }
  of0(v, env) {
    const A = (x) => this.of(x, env);
    if (this.opts.hook) { const r = this.opts.hook(v, A); if (r) return r; }
    switch (v.op) {
      case "Const": return C(v.value);
      case "Param": return mk("param", [], v.index + (v.block?.unit ?? ""));
      case "This": return mk("this");
      case "Await": case "Id": return A(v.args[0]);
      case "Global": return mk("global", [], v.name);
      case "GetProp": { const o = A(v.args[0]); return this.prop(o, v.name); }
      case "GetElem": {
        const o = A(v.args[0]), i = A(v.args[1]);
        if (o.h === "arr" && i.h === "const" && o.a[i.n] && !o.a.slice(0, i.n + 1).some((x) => x.h === "spread")) return o.a[i.n];
        return mk("elem", [o, i]);
      }
      case "Bin": return this.bin(v.operator, A(v.args[0]), A(v.args[1]), v);
      case "Un": return this.un(v.operator, A(v.args[0]));
      case "Array": return mk("arr", v.args.map(A));
      case "Spread": return mk("spread", v.args.map(A));
      case "Object": {
        if (v.mutated || v.mutatedProps) { const t = mk("obj", v.props.map((q) => A(q.value))); t.props = v.props.map((q) => ({ ...q, t: A(q.value) })); t.id = v.id; t.mutable = true; t.n = t.props.map((q) => (q.spread ? "..." : q.key)).join(","); return t; }
        const props = v.props.map((q) => ({ key: q.key, spread: q.spread, t: A(q.value), keyT: q.keyValue && A(q.keyValue) }));
        const anySpread = props.some((q) => q.spread || q.key === undefined);
        const ps = anySpread ? props : [...props].sort((a, b) => a.key < b.key ? -1 : 1);
        const t = mk("obj", ps.map((q) => q.t), ps.map((q) => q.spread ? "..." : q.key ?? `[${q.keyT?.key}]`).join(",")); t.props = props; return t;
      }
      case "Template": { const t = mk("tmpl", v.args.map(A), JSON.stringify(v.parts)); t.parts = v.parts; return t; }
      case "Closure": { const t = mk("closure", []); t.id = v.id; t.value = v; return t; }
      case "Call": return this.call(v, A);
      case "New": {
        const a = v.args.map(A);
        if (v.cls === "Uint8Array" && a.length === 1) {
          if (a[0].h === "arr") { // new Uint8Array([...x, ...y])
            if (a[0].a.length && a[0].a.every((x) => x.h === "spread")) return cat(a[0].a.map((x) => x.a[0]));
            return mk("bytes", a[0].a);
          }
          const t = mk("zeros", a); t.id = v.id; t.mutable = true; if (v.initRandom) t.h = "rand"; return t;
        }
        const t = mk("new", a, v.name); t.id = v.id; return t;
      }
      case "MapResult": {
        const src = A(v.args[0]), it = A(v.args[1]);
        const x = xorOf(it); if (x && x.some((y) => y.key === src.key)) return x2(x);
        return mk("map", [src, it]);
      }
      case "IterElem": case "IterKey": case "IterHas": case "IterIndex": { const t = mk(v.op, v.args.map(A)); t.id = v.id; return t; }
      case "Phi": {
        if (v.args.length === 1 && resolve(v.args[0]) !== v) return A(v.args[0]);
        if (v.args.length && v.args.every((x) => resolve(x) !== v)) {
          // both arms compute the same term
          const ks = v.args.map((x) => { const y = resolve(x); return y.op === "Const" || y.op === "Param" || y.op === "This" ? A(y) : null; });
          if (ks.every((k) => k && k.key === ks[0].key)) return ks[0];
        }
        return mk("val", [], v.id);
      }
      default: return mk("val", [], v.id);
    }
  }
  /** new arrays of which a loop fills every element with a[i] ^ b[i] */
  fills(u) {
    const by = new Map();
    for (const b of u.blocks) for (const v of b.insts) if (v.op === "SetElem") { const o = resolve(v.args[0]); by.set(o, [...(by.get(o) ?? []), v]); }
    for (const [o, sets] of by) {
      if (o.op !== "New" || o.cls !== "Uint8Array" || sets.length !== 1) continue;
      const [, i, val] = sets[0].args; const x = xorOf(this.of(val)); const ix = this.of(i);
      if (!x || !this.of(val).a.every((y) => y.h !== "elem" || y.a[1].key === ix.key)) continue;
      const ph = resolve(i); if (ph.op !== "Phi") continue;
      const steps = ph.args.map((y) => this.of(y)); const from0 = steps.some((t) => t.h === "const" && t.n === 0), by1 = steps.some((t) => t.h === "lin" && t.lin.c === 1 && t.lin.m.size === 1);
      const len = this.of(o).a[0]; const lens = new Set([...x.map((y) => mk("prop", [y], "length").key), "32", "20", "16", len?.key, mk("prop", [this.of(o)], "length").key]);
      const bound = u.blocks.some((b) => b.term?.cond && (() => { const c = this.of(b.term.cond); return c.h === "bin" && c.n === "<" && c.a[0].key === ix.key && lens.has(c.a[1].key); })());
      if (from0 && by1 && bound && lens.has(len?.key)) this.memo.set(o.id, x2(x));
    }
    if (by.size) { const keep = new Map([...by.keys()].filter((o) => this.memo.get(o.id)?.h === "xor").map((o) => [o.id, this.memo.get(o.id)])); this.memo.clear(); for (const [k, t] of keep) this.memo.set(k, t); }
    return this;
  }
  prop(o, name) {
    if (o.h === "obj" && !o.mutable) { for (let i = o.props.length - 1; i >= 0; i--) { const q = o.props[i]; if (q.spread || q.key === undefined) break; if (q.key === name) return q.t; } if (o.props.every((q) => !q.spread && q.key !== undefined)) return C(undefined); }
    if (name === "byteLength") name = "length";
    return mk("prop", [o], name);
  }
  un(op, a) {
    if (op === "!") { if (a.h === "not") return a.a[0]; return mk("not", [a]); }
    if (op === "-") { const l = addLin({ c: null, m: new Map() }, linear(a), -1); if (l) return linTerm(l); }
    if (op === "+" ) return a;
    if (op === "typeof") { if (a.h === "bigint") return C("bigint"); if (a.h === "number") return C("number"); if (a.h === "const" && a.n !== null && a.n !== undefined) return C(typeof a.n); }
    return mk("un", [a], op);
  }
  bin(op, a, b, v) {
    if (op === "!==" || op === "!=") return mk("not", [this.bin(op === "!==" ? "===" : "==", a, b, v)]);
    if (op === "==" && (b.h === "const" && b.n === null)) return mk("isnull", [a]);
    if (op === "==" && (a.h === "const" && a.n === null)) return mk("isnull", [b]);
    if (op === "==") op = "===";
    if (op === "===") for (const [x, y] of [[a, b], [b, a]]) if (x.h === "un" && x.n === "typeof" && y.h === "const" && y.n === "undefined") return this.bin("===", x.a[0], C(undefined), v);
    if (op === "===" && a.h === "const" && b.h === "const") return C(a.n === b.n);
    if (op === "===") { if (a.key > b.key || (a.h === "const" && b.h !== "const")) { const t = a; a = b; b = t; } if (a.h === "const" && b.h !== "const") { const t = a; a = b; b = t; } return mk("bin", [a, b], "==="); }
    if (/^[<>]=?$/.test(op) && a.h === "const" && b.h === "const" && typeof a.n === typeof b.n && /^(number|bigint)$/.test(typeof a.n)) return C(op === "<" ? a.n < b.n : op === ">" ? a.n > b.n : op === "<=" ? a.n <= b.n : a.n >= b.n);
    if (op === ">") return mk("bin", [b, a], "<");
    if (op === ">=") return mk("not", [mk("bin", [a, b], "<")]);
    if (op === "<=") return mk("not", [mk("bin", [b, a], "<")]);
    if (op === "+" || op === "-") {
      const str = (t) => t.h === "const" && typeof t.n === "string" || t.h === "tmpl";
      if (op === "+" && (str(a) || str(b))) return mk("bin", [a, b], "+");
      const l = addLin(linear(a), linear(b), op === "+" ? 1 : -1); if (l) return linTerm(l);
    }
    if (["*", "&", "|", "^"].includes(op) && a.key > b.key) { const t = a; a = b; b = t; }
    if (op === "<<" && b.h === "const" && typeof b.n === "number" && b.n < 31) { return mk("bin", [C(2 ** b.n), a].sort((x, y) => x.key > y.key ? 1 : -1), "*"); }
    if (op === "**" && a.h === "const" && b.h === "const") { try { return C(a.n ** b.n); } catch { /* */ } }
    return mk("bin", [a, b], op);
  }
  call(v, A) {
    const n = v.name ?? "?"; const m = v.method;
    const recv = v.recv ? A(v.recv) : undefined; const args = (v.callArgs ?? v.args).map(A);
    if (isFluent(n) && recv) return recv;
    if (recv && (m === "subarray" || m === "slice") && /Array|Buffer/.test(n)) return slice(recv, args[0], args[1]);
    if (/#concat$/.test(n) && args.length === 1 && args[0].h === "arr") return cat(args[0].a);
    if (/#sha256$/.test(n)) return mk("sha256", args);
    if (/#sha1$/.test(n)) return mk("sha1", args);
    if (/#ige256Encrypt$/.test(n)) return mk("igeE", args);
    if (/#ige256Decrypt$/.test(n)) return mk("igeD", args);
    if (/#bufferEquals$|#equals?$/.test(n) && args.length === 2 && !recv) return mk("eqbytes", args.map((x) => x).sort((a, b) => a.key > b.key ? 1 : -1));
    if (n === "lib#BigInt" || n === "lib#BigIntConstructor" || /^\?BigInt$/.test(n)) return mk("bigint", args);
    if (/#?Number(Constructor)?[.]isInteger$/.test(n) && args.length === 1) return this.bin("===", this.bin("%", args[0], C(1)), C(0));
    if (n === "lib#Number" || n === "lib#NumberConstructor") return mk("number", args);
    if (/Crypto\.getRandomValues$/.test(n)) { const t = mk("rand", args[0]?.h === "zeros" ? args[0].a : args); t.id = v.id; return t; }
    const t = mk("call", recv ? [recv, ...args] : args, n);
    t.recv = recv; t.args = args; t.method = m; t.name = n;
    if (RANDOM.test(n) || !(PURE.has(n) || PURE_RE.test(n))) t.id = v.id;
    return t;
  }
}
/** the byte strings a and b of an element-wise a[i] ^ b[i] */
function xorOf(it) {
  if (it.h !== "bin" || it.n !== "^") return null;
  const seq = it.a.map((y) => (y.h === "IterElem" ? { s: y.a[0], i: "IterIndex(" + y.a[0].key } : y.h === "elem" ? { s: y.a[0], i: y.a[1].key } : null));
  if (!seq[0] || !seq[1]) return null;
  const ix = seq.map((q, k) => q.i ?? null);
  const ok = ix[0] === ix[1] || it.a[0].h === "IterElem" && ix[1].startsWith(ix[0]) || it.a[1].h === "IterElem" && ix[0].startsWith(ix[1]);
  return ok ? [seq[0].s, seq[1].s] : null;
}
const x2 = (ab) => mk("xor", [...ab].sort((p, q) => p.key > q.key ? 1 : -1));
function slice(o, a, b) {
  a = a ?? C(0);
  if (a.h === "const" && a.n === undefined) a = C(0);
  if (b && b.h === "const" && b.n === undefined) b = undefined;
  if (o.h === "slice" && a.h === "const" && a.n >= 0 && o.a[1].h === "const") {
    const base = o.a[1].n;
    if (!b && o.a.length === 2) return slice(o.a[0], C(base + a.n));
    if (!b && o.a.length === 3 && o.a[2].h === "const") return slice(o.a[0], C(base + a.n), o.a[2]);
    if (b && b.h === "const" && b.n >= 0) { const e = base + b.n; if (o.a.length === 2) return slice(o.a[0], C(base + a.n), C(e)); if (o.a[2].h === "const") return slice(o.a[0], C(base + a.n), C(Math.min(e, o.a[2].n))); }
  }
  if (!b && a.h === "const" && a.n === 0) return o;
  return b ? mk("slice", [o, a, b]) : mk("slice", [o, a]);
}
function cat(list) {
  const out = []; for (const x of list) { if (x.h === "cat") out.push(...x.a); else if (x.h === "bytes" && x.a.length === 0) continue; else out.push(x); }
  return out.length === 1 ? out[0] : mk("cat", out);
}
module.exports = { Terms, Term, mk, C, slice, cat, linear, addLin, linTerm, short, xorOf, x2 };
/** t with every sub-term for which f gives a replacement replaced */
function subst(t, f, tt) {
  tt ??= new Terms();
  const r = f(t); if (r) return r;
  if (!t.a.length) return t;
  if (t.h === "lin") { let acc = { c: t.lin.c, m: new Map() }; for (const { t: q, k } of t.lin.m.values()) { const y = linear(subst(q, f, tt)); for (let i = 0; i < Math.min(Math.abs(k), 16); i++) { const z = addLin(acc, y, k > 0 ? 1 : -1); if (!z) return t; acc = z; } } return linTerm(acc); }
  const a = t.a.map((x) => subst(x, f, tt));
  if (a.every((x, i) => x === t.a[i])) return t;
  if (t.h === "bin") return tt.bin(t.n, a[0], a[1]);
  if (t.h === "not") return tt.un("!", a[0]); if (t.h === "un") return tt.un(t.n, a[0]);
  if (t.h === "prop") return tt.prop(a[0], t.n);
  if (t.h === "slice") return slice(a[0], a[1], a[2]);
  if (t.h === "cat") return cat(a);
  const q = mk(t.h, a, t.n); for (const k of ["id", "name", "method", "parts", "mutable", "value"]) if (t[k] !== undefined) q[k] = t[k];
  if (t.recv) { q.recv = a[0]; q.args = a.slice(1); } else if (t.args) q.args = a;
  if (t.props) q.props = t.props.map((x) => ({ ...x, t: subst(x.t, f, tt) }));
  return q;
}
/** keeps, per path, which value each phi took: spec.phi hook and expansion of terms under a state */
class PhiTrack {
  constructor(terms) { this.terms = terms; this.store = new Map(); }
  phi(s, ph, a, t, before) {
    if (this.unroll) { // loops whose course is determined are followed round by round
      const x = this.expand(t, before ?? s), id = "%" + ph.id + ";"; this.rounds ??= new Map(); let n = this.rounds.get(ph.id); if (!n) this.rounds.set(ph.id, n = new Set());
      if (!x.key.includes(id) && n.size < this.unroll) { n.add(x.key); this.store.set(x.key, x); return s.ph?.[ph.id] === x.key ? s : { ...s, ph: { ...(s.ph ?? {}), [ph.id]: x.key } }; }
    }
    if (t.key !== "%" + ph.id + ";" && t.key.includes("%" + ph.id + ";")) { if (s.ph?.[ph.id] === undefined) return s; const p = { ...s.ph }; delete p[ph.id]; return { ...s, ph: p }; } // carried round a loop
    const x = this.expand(t, before ?? s);
    if (x.h === "const" && (typeof x.n === "number" || typeof x.n === "bigint")) { // a counter that goes round a loop by way of another phi is not followed for ever
      let n = (this.numbers ??= new Map()).get(ph.id); if (!n) this.numbers.set(ph.id, n = new Set()); n.add(x.key);
      if (n.size > 12) { if (s.ph?.[ph.id] === undefined) return s; const p = { ...s.ph }; delete p[ph.id]; return { ...s, ph: p }; }
    }
    this.store.set(x.key, x);
    if (x.key.includes("%" + ph.id + ";") || x.key.includes("old(") && !x.key.startsWith("old(") && t.h !== "val" && x.key.length > 200) { if (s.ph?.[ph.id] === undefined) return s; const p = { ...s.ph }; delete p[ph.id]; return { ...s, ph: p }; }
    if (s.ph?.[ph.id] === x.key) return s;
    return { ...s, ph: { ...(s.ph ?? {}), [ph.id]: x.key } };
  }
  /** the value behind id is computed anew: what phis still hold of its last value is no longer equal to the new one */
  age(s, id) {
    let p;
    for (const [k, x] of Object.entries(s.ph)) if (x.includes(id) && !x.startsWith("old(")) { p ??= { ...s.ph }; const t = mk("old", [], undefined); t._k = "old(" + x.split(id).join("%~;") + ")"; this.store.set(t.key, t); p[k] = t.key; }
    return p ? { ...s, ph: p } : s;
  }
  /** forgets, on entry to a block, the phis nothing reachable from it refers to (needs track(unit) first) */
  enter(s, block) {
    if (!this.liveIn || !s.ph) return s;
    const live = this.liveIn.get(block); let p;
    for (const k of Object.keys(s.ph)) if (!live?.has(+k)) { p ??= { ...s.ph }; delete p[k]; }
    return p ? { ...s, ph: p } : s;
  }
  track(u) {
    const { succs } = require("./ir.js");
    const ids = (v, out) => { const t = this.terms.of(v); for (const m of t.key.matchAll(/%(\d+);/g)) out.add(+m[1]); const dig = (x) => { if (x.h === "val") out.add(x.n); for (const y of x.a ?? []) dig(y); for (const q of x.props ?? []) if (q.t) dig(q.t); if (x.lin) for (const q of x.lin.m.values()) dig(q.t); }; dig(t); };
    this.liveIn = new Map(); const use = new Map(), edgeUse = new Map();
    for (const b of u.blocks) {
      const s = new Set(); use.set(b, s);
      for (const v of b.insts) { for (const a of v.args) ids(a, s); for (const a of v.callArgs ?? []) ids(a, s); if (v.recv) ids(v.recv, s); if (v.fnValue) ids(v.fnValue, s); for (const q of v.props ?? []) if (q.value) ids(q.value, s); }
      if (b.term?.cond) ids(b.term.cond, s); if (b.term?.value) ids(b.term.value, s);
      for (const ph of b.phis) { for (const a of ph.args) { const x = new Set(); ids(a, x); for (const pr of b.preds) { let e = edgeUse.get(pr); if (!e) edgeUse.set(pr, e = new Set()); for (const i of x) e.add(i); } } }
    }
    for (const b of u.blocks) this.liveIn.set(b, new Set(use.get(b)));
    for (let ch = true; ch;) {
      ch = false;
      for (let i = u.blocks.length - 1; i >= 0; i--) {
        const b = u.blocks[i], L = this.liveIn.get(b), n0 = L.size;
        for (const x of edgeUse.get(b) ?? []) L.add(x);
        for (const q of succs(b)) for (const x of this.liveIn.get(q) ?? []) L.add(x);
        if (L.size !== n0) ch = true;
      }
    }
    return this;
  }
  expand(t, s) { return s.ph ? subst(t, (x) => x.h === "val" && s.ph[x.n] !== undefined ? this.store.get(s.ph[x.n]) : null, this.terms) : t; }
}
Object.assign(module.exports, { subst, PhiTrack });
