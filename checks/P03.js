"use strict";
// P03: what the TL encoder lays out is what the TL decoder takes apart.
const { ts } = require("../lib/project.js");
const { track, describePath, mk, resolve } = require("../lib/facts.js");
const { C, linear, addLin: addLin0, linTerm } = require("../lib/terms.js");
const { enclosing } = require("../lib/util.js");

const R = {
  layout: "what is written for a wire type has its width, byte order and prefix",
  room: "room is made before bytes are written",
  range: "a number that does not fit its width is refused",
  fits: "what fits is not refused",
  take: "what is read for a wire type has its width, byte order, signedness and prefix",
  bounds: "no byte is read that has not been received",
  buffer: "the buffer keeps what has been written",
  types: "both sides know the same wire types",
  dispatch: "a wire type is written and read by the same codec",
  field: "every field of an object is written and read under the same condition",
  message: "what frames a message in a container is what is taken off",
  text: "text comes out as it went in",
};

module.exports = {
  technique: "path-sensitive dataflow with byte layouts relative to the position in the buffer, interval facts, and agreement of the encoder with the decoder",
  explanation: "For every primitive write method of the encoder, on every path to its end, the bytes put into the buffer are reconstructed as (offset from the position at entry, byte of the value) and compared with the wire type; the position moves by exactly that much, room for all of it is made before, and numbers are known to lie in the range of the type by then. For every primitive read method the value returned is decomposed into the bytes at their offsets and compared with the same wire type, the position moves by exactly that much, and every byte read is known to lie within the buffer. Length prefixes (with the boundary between the forms) and the padding to four are compared on both sides. The two dispatch functions are compared type name by type name. For objects, the loop of the encoder over the fields and that of the decoder are compared: a flag bit is set exactly when its field is present, a field is written and read exactly when its bit is set, in the order of the schema, with the same type string; identifiers are written and expected in the same cases, vectors with the same header.",
  rules: Object.values(R),
  assumptions: ["DataView, Uint8Array, TextEncoder and TextDecoder behave as specified by their standards", "values passed to the encoder conform to their declared types apart from what it checks itself", "the schema tables themselves are P01 and P02"],
  run(ctx) {
    const p = ctx.p;
    const W = p.findClass("TLWriter")[0], Rd = p.findClass("TLReader")[0]; ctx.need(W, "the encoder"); ctx.need(Rd, "the decoder");
    const cw = roles(p, W), cr = roles(p, Rd);
    for (const [n, spec] of Object.entries(SPEC)) {
      const wm = method(W, "write" + n), rm = method(Rd, "read" + n);
      ctx.need(wm, "write" + n); ctx.need(rm, "read" + n);
      if (wm) writing(ctx, p, W, cw, wm, spec, n); if (rm) reading(ctx, p, Rd, cr, rm, spec, n);
    }
    for (const n of ["write"]) { const m = method(W, n); if (m) writing(ctx, p, W, cw, m, { raw: true }, "raw bytes"); }
    for (const n of ["read", "readView"]) { const m = method(Rd, n); if (m) reading(ctx, p, Rd, cr, m, { raw: true }, "raw bytes"); }
    { const m = method(Rd, "unread"); if (m) unreading(ctx, p, Rd, cr, m); }
    messages(ctx, p, W, Rd);
    growing(ctx, p, W, cw); output(ctx, p, W, cw);
    text(ctx, p);
    const a = dispatchW(ctx, p, W), b = dispatchR(ctx, p, Rd);
    if (a && b) agree(ctx, p, a, b, W, Rd);
    objects(ctx, p, W, Rd);
    ctx.floor(R.layout, 12); ctx.floor(R.take, 14); ctx.floor(R.room, 12); ctx.floor(R.range, 8); ctx.floor(R.bounds, 14); ctx.floor(R.types, 9); ctx.floor(R.dispatch, 9); ctx.floor(R.field, 12); ctx.floor(R.buffer, 2); ctx.floor(R.text, 2); ctx.floor(R.fits, 20); ctx.floor(R.message, 6);
  },
};

const SPEC = { Int24: { int: 3 }, Int32: { int: 4 }, Int64: { int: 8 }, Int128: { int: 16 }, Int256: { int: 32 }, Double: { float: 8 }, Bytes: { bytes: true }, String: { bytes: true, text: true } };
const method = (c, n) => c.members.find((m) => ts.isMethodDeclaration(m) && m.body && m.name.getText() === n);
const label = (p, c) => p.rel(c.getSourceFile()) + "#" + c.name.text;

/** the fields that hold the buffer, the view on it and the position in it, and the method that makes room */
function roles(p, c) {
  const r = { buffer: null, view: null, pos: null, grow: null };
  const ty = (m) => p.checker.typeToString(p.checker.getTypeAtLocation(m.name));
  for (const m of c.members) if (ts.isPropertyDeclaration(m)) { const t = ty(m), n = m.name.getText(); if (/^Uint8Array/.test(t)) r.buffer = r.buffer ?? n; else if (/^DataView/.test(t)) r.view = r.view ?? n; else if (t === "number") r.pos = r.pos ?? n; }
  for (const m of c.members) if (ts.isMethodDeclaration(m) && m.body) p.walk(m.body, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.name.text === r.buffer && n.left.expression.kind === ts.SyntaxKind.ThisKeyword) r.grow = r.grow ?? m; });
  return r;
}

// sums of what cannot be added up are unknown: nothing can be shown of them
const unknown = () => { const t = mk("x"); t._k = "?"; return { c: 0, m: new Map([["?", { t, k: -1 }]]) }; };
const addLin = (a, b, k) => (a && b && addLin0(a, b, k)) || unknown();
/** ---- numbers */
function num(t) { // the value of a constant term, as a bigint or, if it is a fraction, a number
  if (!t) return null;
  if (t.h === "const") { if (typeof t.n === "bigint") return t.n; if (typeof t.n === "number") return Number.isInteger(t.n) ? BigInt(t.n) : t.n; return null; }
  if (t.h === "bigint" || /^bigint\(/.test(t.key) && t.a?.length === 1) return num(t.a[0]);
  if (t.h === "un" && t.n === "-") { const x = num(t.a[0]); return x === null ? null : -x; }
  if (t.h === "bin") {
    const a = num(t.a[0]), b = num(t.a[1]); if (typeof a !== "bigint" || typeof b !== "bigint") return null;
    switch (t.n) { case "<<": return b > 4096n || b < 0n ? null : a << b; case ">>": return a >> b; case "*": return a * b; case "**": return b > 4096n || b < 0n ? null : a ** b; case "+": return a + b; case "-": return a - b; case "&": return a & b; case "|": return a | b; }
    return null;
  }
  const l = linear(t); if (l.m.size) { let s = typeof l.c === "bigint" ? l.c : BigInt(Number(l.c ?? 0)); for (const y of l.m.values()) { if (y.t === t || y.t.key === t.key) return null; const x = num(y.t); if (typeof x !== "bigint") return null; s += x * BigInt(Number(y.k)); } return s; }
  return null;
}
const sub = (a, b) => addLin(linear(a), linear(b), -1);
const isNum = (l, n) => l.m.size === 0 && Number(l.c ?? 0) === n;
const constOf = (l) => l.m.size === 0 ? Number(l.c ?? 0) : null;
const lengthy = (k) => /\.length$/.test(k) || /%\d+\)$/.test(k) || /^\$\d+$/.test(k) || /\[\d+\]$/.test(k) || /\|/.test(k) || /^view:getUint/.test(k) || /&/.test(k);
/** the least a form can be: lengths are not negative, remainders are less than what is divided by */
const rest = (t) => { if (t.h !== "bin") return null; if (t.n === "%") { const n = num(t.a[1]); return typeof n === "bigint" && n > 0n && notNeg(t.a[0]) ? Number(n) - 1 : null; } if (t.n === "&") for (const z of t.a) { const n = num(z); if (typeof n === "bigint" && n >= 0n && n < 1n << 31n) return Number(n); } return null; };
const least = (l) => { let c = Number(l.c ?? 0); for (const [k, y] of l.m) { const n = Number(y.k); if (n >= 0) { if (!lengthy(k) && rest(y.t) === null) return null; continue; } const r = rest(y.t); if (r === null) return null; c += n * r; } return c; };
const nonneg = (l) => { const n = least(l); return n !== null && n >= 0; };
const negated = (l) => addLin(linear(C(0)), l, -1);

/** path facts: x.q holds linear forms that are not negative, x.lo/x.hi the interval of the value written */
function assume(TM, x, t, truth) {
  while (t.h === "not") { t = t.a[0]; truth = !truth; }
  if (t.h === "const") return !!t.n === truth ? x : null;
  if (t.h !== "bin" || !["<", "<=", "==="].includes(t.n)) return x;
  if (t.n === "===" && !truth && t.a.some((z) => z.h === "const" && z.n === "number") && t.a.some((z) => /^un:typeof\(.*\.length\)$/.test(z.key))) return null;
  const [a, b] = t.a; const va = num(a), vb = num(b);
  if (t.n !== "===" && va !== null && vb !== null) { const h = t.n === "<" ? va < vb : va <= vb; return h === truth ? x : null; }
  const forms = [];
  if (t.n === "===") { if (!truth) { // unequal: a remainder that is not zero is at least one
      const z = num(b) === 0n ? a : num(a) === 0n ? b : null; if (z && lengthy(z.key)) forms.push(addLin(linear(z), linear(C(1)), -1)); } else if (![a, b].some((z) => z.h === "const" && typeof z.n === "string")) forms.push(sub(a, b), sub(b, a)); }
  else if (truth) { const l = sub(b, a); forms.push(t.n === "<" ? addLin(l, linear(C(1)), -1) : l); } else { const l = sub(a, b); forms.push(t.n === "<" ? l : addLin(l, linear(C(1)), -1)); }
  // the interval of the value
  let { lo, hi } = x; const V = "$0"; const strict = t.n === "<";
  if (t.n !== "===") {
    if (a.key === V && typeof vb === "bigint") { if (truth) { const h = strict ? vb - 1n : vb; if (hi === undefined || h < BigInt(hi)) hi = String(h); } else { const l = strict ? vb : vb + 1n; if (lo === undefined || l > BigInt(lo)) lo = String(l); } }
    if (b.key === V && typeof va === "bigint") { if (truth) { const l = strict ? va + 1n : va; if (lo === undefined || l > BigInt(lo)) lo = String(l); } else { const h = strict ? va : va - 1n; if (hi === undefined || h < BigInt(hi)) hi = String(h); } }
  }
  let q = x.q ?? [];
  for (const f of forms) {
    if (f.m.has("?")) continue;
    for (const [k, y] of [...f.m]) { const n = num(y.t); if (typeof n === "bigint" && n < 1n << 52n) { f.m.delete(k); f.c = Number(f.c ?? 0) + Number(n) * Number(y.k); } }
    if (f.m.size === 0) { if (Number(f.c ?? 0) < 0) return null; continue; }
    { const most = least(negated(f)); if (most !== null && most > 0) return null; }
    for (const k of q) { const o = linear(TM.get(k)); const s = addLin(f, o, 1); if (s.m.size === 0 && Number(s.c ?? 0) < 0) return null; }
    const g = linTerm(f); TM.set(g.key, g); if (!q.includes(g.key)) q = [...q, g.key].sort();
  }
  return { ...x, q, lo, hi };
}
/** whether the form cannot be negative, given what is known on the path */
function holds(TM, x, l) {
  if (nonneg(l)) return true;
  const fs = (x.q ?? []).map((k) => linear(TM.get(k)));
  for (const f of fs) { const d = addLin(l, f, -1); if (nonneg(d)) return true; for (const g of fs) if (nonneg(addLin(d, g, -1))) return true; }
  return false;
}

/** ---- bytes */
const GET = /^get(Int|Uint|BigInt|BigUint|Float)(8|16|32|64)$/, SET = /^set(Int|Uint|BigInt|BigUint|Float)(8|16|32|64)$/;
const hook = (v, A) => {
  if (v.op === "Call" && GET.test(v.method ?? "") && v.recv) { const t = mk("view", [A(v.recv), ...v.callArgs.map(A)], v.method); t._k = "view:" + v.method + "(" + t.a.map((x) => x.key).join(",") + ")"; return t; }
  return undefined;
};
/** a value as (what it is a part of, from which bit on); cut is the number of bits that count */
function part(t, cut) {
  let shift = 0;
  for (;;) {
    if (t.h === "bin" && t.n === "&") { const m = num(t.a[1]), m2 = num(t.a[0]); const M = typeof m === "bigint" ? m : m2, i = typeof m === "bigint" ? t.a[0] : t.a[1]; if (typeof M !== "bigint" || (BigInt.asUintN(cut, M) !== (1n << BigInt(cut)) - 1n)) break; t = i; continue; }
    if (t.h === "bin" && (t.n === ">>" || t.n === ">>>")) { const k = num(t.a[1]); if (typeof k !== "bigint") break; shift += Number(k); t = t.a[0]; cut += Number(k); continue; }
    if (t.args && /(^|\.)(asUintN|asIntN)$/.test(t.name ?? "") && num(t.args[0]) >= BigInt(cut)) { t = t.args[1]; continue; }
    if (t.h === "bigint" || /^bigint\(/.test(t.key) && t.a?.length === 1) { t = t.a[0]; continue; }
    const l = linear(t); // a multiple of the whole range does not change the bits
    if (l.m.size > 1) { const keep = [...l.m.values()].filter((y) => { const x = num(y.t); return !(typeof x === "bigint" && (x * BigInt(Number(y.k))) % (1n << BigInt(cut)) === 0n); }); if (keep.length === 1 && Number(keep[0].k) === 1 && BigInt(Number(l.c ?? 0)) % (1n << BigInt(cut)) === 0n) { t = keep[0].t; continue; } }
    break;
  }
  return { base: t, shift };
}
/** the bytes a value read is made of: [bit position] → offset, and whether its top byte carries the sign */
function whole(t, B, x) {
  const none = { m: new Map(), signed: false };
  const at = (o, n, big, signed) => { const m = new Map(); for (let i = 0; i < n; i++) { const y = linTerm(addLin(o, linear(C(big ? n - 1 - i : i)), 1)); KEYS.set(y.key, y); m.set(8 * i, y.key); } return { m, signed, w: n * 8 }; };
  if (num(t) === 0n) return none;
  if (t.h === "bigint") return whole(t.a[0], B, x);
  if (t.args && /(^|\.)(asUintN|asIntN)$/.test(t.name ?? "")) { const n = num(t.args[0]), a = whole(t.args[1], B, x); if (!a || typeof n !== "bigint" || !a.m.size || Math.max(...a.m.keys()) + 8 !== Number(n) || a.minus) return null; return { m: a.m, signed: /asIntN$/.test(t.name) }; }
  if (t.h === "elem") { const o = offsetOf(t.a[0], B); return o ? at(addLin(o, linear(t.a[1]), 1), 1, false, false) : null; }
  if (t.h === "view") { const g = GET.exec(t.n); if (t.a[0].key !== "this." + B.view || /Float/.test(g[1])) return null; return at(linear(t.a[1]), +g[2] / 8, +g[2] > 8 && !(t.a[2] && t.a[2].n === true), !/Uint/.test(g[1])); }
  if (t.h === "bin" && t.n === "|") { const a = whole(t.a[0], B, x), b = whole(t.a[1], B, x); return join(a, b); }
  if (t.h === "bin" && t.n === "*") { for (const [c, v] of [[0, 1], [1, 0]]) { const k = num(t.a[c]); if (typeof k !== "bigint" || k < 1n) continue; const e = Math.log2(Number(k)); if (!Number.isInteger(e)) return null; const a = whole(t.a[v], B, x); return a && up(a, e); } return null; }
  if (t.h === "bin" && t.n === "<<") { const a = whole(t.a[0], B, x), k = num(t.a[1]); return a && typeof k === "bigint" ? up(a, Number(k)) : null; }
  if (t.h === "bin" && t.n === ">>") { // sign extension of a number that has been moved to the top of 32 bits
    const k = num(t.a[1]), i = t.a[0]; const a = k === null ? null : whole(i, B, x); if (!a || typeof k !== "bigint") return null; const K = Number(k); if (![...a.m.keys()].every((b) => b >= K) || Math.max(...a.m.keys()) !== 24) return null; return { m: new Map([...a.m].map(([b, o]) => [b - K, o])), signed: true };
  }
  const l = linear(t);
  if (l.m.size && !(l.m.size === 1 && [...l.m.values()][0].t === t && Number([...l.m.values()][0].k) === 1)) {
    let r = none, minus = null;
    if (Number(l.c ?? 0) !== 0) { const c = BigInt(Number(l.c)); if (c > 0n) return null; minus = -c; }
    for (const y of l.m.values()) { const n = num(y.t); if (typeof n === "bigint") { const c = n * BigInt(Number(y.k)); if (c >= 0n || minus !== null) return null; minus = -c; continue; } const k = Number(y.k); const e = Math.log2(k); if (k < 1 || !Number.isInteger(e)) return null; const a = whole(y.t, B, x); r = join(r, a && up(a, e)); if (!r) return null; }
    if (minus !== null) { const top = Math.max(...r.m.keys()); if (r.signed || minus !== 1n << BigInt(top + 8)) return null; r = { ...r, minus: true }; }
    return r;
  }
  return null;
}
const up = (a, k) => ({ ...a, m: new Map([...a.m].map(([b, o]) => [b + k, o])) });
const join = (a, b) => { if (!a || !b) return null; const m = new Map(a.m); for (const [k, o] of b.m) { if (m.has(k)) return null; m.set(k, o); } const top = (z) => z.m.size ? Math.max(...z.m.keys()) : -1; const hi = top(a) >= top(b) ? a : b, lo = hi === a ? b : a; if (lo.signed && lo.m.size) return null; return { m, signed: hi.signed }; };
function offsetOf(t, B) { // where in the buffer a view on it begins
  if (t.key === "this." + B.buffer) return linear(C(0));
  if (t.h === "slice") { const o = offsetOf(t.a[0], B); return o && t.a[1] ? addLin(o, linear(t.a[1]), 1) : null; }
  return null;
}
/** padding that brings a length to a multiple of four, and is less than four */
function mod4(l) { // residue of a linear form, remainders standing for what they are remainders of
  let r = { c: Number(l.c ?? 0), m: new Map() };
  for (const [k, y] of l.m) { let t = y.t; const inner = (t.h === "bin" && t.n === "%" && num(t.a[1]) === 4n) ? t.a[0] : t.h === "bin" && t.n === "&" && num(t.a[1]) === 3n ? t.a[0] : t.h === "bin" && t.n === "&" && num(t.a[0]) === 3n ? t.a[1] : null; const s = inner ? mod4(linear(inner)) : { c: 0, m: new Map([[k, 1]]) }; r.c += Number(y.k) * s.c; for (const [kk, n] of s.m) r.m.set(kk, (r.m.get(kk) ?? 0) + Number(y.k) * n); }
  return r;
}
const multiple4 = (TM, x, l) => { const r = mod4(l); const zs = [...x.z ?? []]; for (const k of x.q ?? []) { const m = negated(linear(TM.get(k))); if ((x.q ?? []).includes(linTerm(m).key) || least(m) === 0) zs.push(k); } for (const k of zs) { const z = mod4(linear(TM.get(k))); for (const s of [1, -1, 2, 3]) { const m = new Map(r.m); for (const [kk, n] of z.m) m.set(kk, (m.get(kk) ?? 0) + s * n); if ((r.c + s * z.c) % 4 === 0 && [...m.values()].every((n) => n % 4 === 0)) return true; } } return r.c % 4 === 0 && [...r.m.values()].every((n) => n % 4 === 0); };
function small(TM, x, l) { // 0 ≤ l ≤ 3
  const c = constOf(l); if (c !== null) return c >= 0 && c <= 3;
  const ms = [...l.m.values()]; if (ms.length !== 1) return false; const { t, k } = ms[0], c0 = Number(l.c ?? 0);
  const rem = t.h === "bin" && (t.n === "%" && num(t.a[1]) === 4n && notNeg(t.a[0]) || t.n === "&" && (num(t.a[1]) === 3n || num(t.a[0]) === 3n));
  if (!rem) return false;
  if (Number(k) === 1 && c0 === 0) return true;
  return Number(k) === -1 && (c0 === 3 || c0 === 4 && holds(TM, x, addLin(linear(t), linear(C(1)), -1)));
}
function notNeg(t) { const l = linear(t); let min = Number(l.c ?? 0); for (const [k, y] of l.m) { if (Number(y.k) >= 0) { if (!lengthy(k) && !(y.t.h === "bin" && y.t.n === "%")) return false; } else if (y.t.h === "bin" && y.t.n === "%" && num(y.t.a[1]) !== null) min += Number(y.k) * (Number(num(y.t.a[1])) - 1); else return false; } return min >= 0; }

/** ---- the write methods */
function writing(ctx, p, c, B, f, spec, n) {
  const L = label(p, c), TM = new Map(), P0 = "this." + B.pos, keyOf = (l) => { const t = linTerm(l); TM.set(t.key, t); return t.key; };
  const rel = (t) => { const l = linear(t); const m = new Map(l.m); const y = m.get(P0); if (!y || Number(y.k) !== 1) return null; m.delete(P0); return { c: l.c, m }; };
  const ob = (rule, ok, k, at, cx, msg) => ctx.ob(rule, !!ok, { key: `${L}.${f.name.getText()}|${k}`, at: p.loc(at ?? f), message: `${L}.${f.name.getText()} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  let ends = 0;
  track(ctx, f, { policy: { inline: (nm, fn) => fn !== B.grow && !/encodeText/.test(nm), never: (nm, fn) => fn === B.grow }, fields: [B.pos], unroll: 40, keep: (k) => /^.(\$1|un:typeof)/.test(k), terms: { hook }, maxStates: 4000, init: { w: [], cap: null },
    inst(s, v, cx, T) {
      const x = s.x;
      const put = (off, size, content) => {
        const o = rel(off); const end = o && addLin(o, size, 1); ob(R.room, end && x.cap !== null && holds(TM, x, addLin(linear(TM.get(x.cap)), end, -1)), "room", v.ast, cx, "writes bytes without having made room for them");
        return { ...s, x: { ...x, w: [...x.w, [o ? keyOf(o) : "?", keyOf(size), content]] } };
      };
      if (v.op === "Call") {
        if (v.targetFn === B.grow && B.grow || v.fn === B.grow && B.grow) { const o = rel(T.field(B.pos)); if (!o) return; const cap = addLin(o, linear(T(v.callArgs[0])), 1); return { ...s, x: { ...x, cap: keyOf(cap) } }; }
        const st = SET.exec(v.method ?? ""); const rc = v.recv ? T(v.recv) : null;
        if (st && rc?.key === "this." + B.view) { const size = +st[2] / 8, val = T(v.callArgs[1]), le = v.callArgs[2] ? T(v.callArgs[2]) : null; const little = size === 1 || le?.n === true; TM.set(val.key, val); if (spec.int || spec.bytes) range(v, x, cx, val, size); return put(T(v.callArgs[0]), linear(C(size)), (/Float/.test(st[1]) ? "f" : "i") + (little ? "" : "BE") + ":" + val.key); }
        if (rc?.key === "this." + B.buffer && v.method === "set") { const src = T(v.callArgs[0]); TM.set(src.key, src); return put(v.callArgs[1] ? T(v.callArgs[1]) : C(0), linear(lenOf(src)), "b:" + src.key); }
        if (rc?.key === "this." + B.buffer && v.method === "fill") { const from = v.callArgs[1] ? T(v.callArgs[1]) : C(0), to = v.callArgs[2] ? T(v.callArgs[2]) : null; return put(from, to ? sub(to, from) : linear(C(NaN)), "z:" + T(v.callArgs[0]).key); }
      }
      if (v.op === "SetElem" && T(v.args[0]).key === "this." + B.buffer) { const val = T(v.args[2]); TM.set(val.key, val); if (spec.int) range(v, x, cx, val, 1); return put(T(v.args[1]), linear(C(1)), "i:" + val.key); }
      return undefined;
    },
    edge(s, t, truth) { const x = assume(TM, s.x, t, truth); if (x === null) return null; let z = x; { let u = t, tr = truth; while (u.h === "not") { u = u.a[0]; tr = !tr; } if (!tr && /Number(Constructor)?\.is(Safe)?Integer$/.test(u.name ?? "")) { if (/\.length$/.test(u.args[0].key)) return null; z = { ...z, odd: 1 }; } if (u.h === "bin" && u.n === "===" && u.a.some((q) => /%/.test(q.n ?? "") && num(q.a[1]) === 1n) && u.a.some((q) => num(q) === 0n) && !tr) z = { ...z, odd: 1 }; } { let u = t, tr = truth; while (u.h === "not") { u = u.a[0]; tr = !tr; } if (tr && u.h === "bin" && u.n === "===" && (num(u.a[1]) === 0n || num(u.a[0]) === 0n)) { const q = num(u.a[1]) === 0n ? u.a[0] : u.a[1]; TM.set(q.key, q); z = { ...z, z: [...new Set([...(z.z ?? []), q.key])].sort() }; } } return z === s.x ? undefined : { ...s, x: z }; },
    onRaise(s, t, cx, T, has) {
      const x = s.x; let ok = true; const lo = x.lo === undefined ? null : BigInt(x.lo), hi = x.hi === undefined ? null : BigInt(x.hi);
      if (spec.int) { const N = BigInt(spec.int * 8); const signed = has.true({ key: "($1===undefined)" }) || has.true({ key: "$1" }) ? true : has.false({ key: "$1" }) ? false : null; const min = signed === false ? 0n : -(1n << (N - 1n)), max = signed === true ? (1n << (N - 1n)) - 1n : (1n << N) - 1n; ok = x.odd || lo !== null && lo > max || hi !== null && hi < min; }
      else if (spec.bytes) { const k = x.w.length ? null : x; ok = (x.q ?? []).some((q) => { const l = linear(TM.get(q)); if (l.m.size !== 1) return false; const y = [...l.m.values()][0]; return Number(y.k) === 1 && /\.length$/.test(y.t.key) && -Number(l.c ?? 0) >= 1 << 24; }); void k; }
      else ok = x.odd || !spec.raw && !spec.float;
      ob(R.fits, ok, "refused", t.ast, cx, `may refuse a value of ${n} that has a place on the wire`); return undefined;
    },
    exit(s, kind, cx, T, has) {
      if (kind !== "return") return; ends++; const x = s.x;
      const pos = rel(T.field(B.pos)); ob(R.layout, pos, "position", null, cx, "leaves the position somewhere unknown"); if (!pos) return;
      const e = spec.raw ? rawW(TM, x, pos) : spec.int ? intW(TM, x, pos, spec.int) : spec.float ? floatW(TM, x, pos) : bytesW(TM, x, pos, spec.text);
      ob(R.layout, e === null, "layout", null, cx, `does not write ${n} as it is on the wire: ${e}`);
      if (spec.bytes) ob(R.range, e !== null || longOk(TM, x), "length", null, cx, "writes the length of a value that is too long for its prefix");
    } });
  ctx.ob(R.layout, ends > 0, { key: L + "." + f.name.getText() + "|ends", at: p.loc(f), message: `${L}.${f.name.getText()} never returns` });
  function range(v, x, cx, val, size) {
    if (!spec.int) return; const q = part(val, size * 8); if (q.base.key !== "$0") return;
    const N = BigInt(spec.int * 8), sgn = null; void sgn; const lo = x.lo === undefined ? null : BigInt(x.lo), hi = x.hi === undefined ? null : BigInt(x.hi);
    const ok = lo !== null && hi !== null && (lo >= -(1n << (N - 1n)) && hi <= (1n << (N - 1n)) - 1n || lo >= 0n && hi <= (1n << N) - 1n);
    ob(R.range, ok, "range", v.ast, cx, `writes ${n} without having refused what does not fit into ${spec.int} bytes`);
  }
}
const lenOf = (t) => { const q = mk("prop", [t], "length"); q._k = t.key + ".length"; return q; };

const sorted = (TM, x) => x.w.map(([o, n, c]) => ({ o: TM.has(o) ? linear(TM.get(o)) : null, n: linear(TM.get(n)), c }));
const same = (a, b) => { const d = addLin(a, b, -1); return isNum(d, 0); };
function ints(TM, segs, from, size, base) { // bytes from..from+size hold the integer base, least significant first
  const got = new Map();
  for (const g of segs) { if (!g.o) return "something is written at an unknown place"; const o = constOf(g.o), n = constOf(g.n); if (o === null || n === null) continue; if (!/^i(BE)?:/.test(g.c)) continue; if (o < from || o >= from + size) continue; if (g.c.startsWith("iBE:")) return "the bytes are in the wrong order"; const q = part(TM.get(g.c.slice(2)), n * 8); for (let i = 0; i < n; i++) got.set(o + i, [q.base.key, q.shift + 8 * i]); }
  for (let i = 0; i < size; i++) { const y = got.get(from + i); if (!y) return `byte ${from + i} is not written`; if (y[0] !== base) return `byte ${from + i} does not belong to the value`; if (y[1] !== 8 * i) return `byte ${from + i} holds the wrong bits of the value`; }
  return null;
}
function intW(TM, x, pos, size) { const segs = sorted(TM, x); if (constOf(pos) !== size) return `the position does not move by ${size}`; if (segs.some((g) => !g.o || constOf(g.o) === null || constOf(g.o) < 0 || constOf(g.o) >= size)) return "bytes are written outside it"; return ints(TM, segs, 0, size, "$0"); }
function floatW(TM, x, pos) { if (constOf(pos) !== 8) return "the position does not move by 8"; const g = sorted(TM, x); return g.length === 1 && constOf(g[0].o) === 0 && constOf(g[0].n) === 8 && g[0].c === "f:$0" ? null : "it is not the eight bytes of the number, least significant first"; }
function rawW(TM, x, pos) { const g = sorted(TM, x); return g.length === 1 && g[0].o && isNum(g[0].o, 0) && g[0].c === "b:$0" && linTerm(pos).key === "$0.length" ? null : "it is not the bytes as given, the position moving by their number"; }
function content(TM, x, isText) { const g = sorted(TM, x).find((y) => /^b:/.test(y.c)); if (!g) return null; const t = TM.get(g.c.slice(2)); const ok = isText ? /#encodeText$|TextEncoder\.encode$/.test(t.name ?? "") && t.args?.[0]?.key === "$0" : t.key === "$0"; return ok ? { g, t, len: lenOf(t) } : null; }
function bytesW(TM, x, pos, isText) {
  const k = content(TM, x, isText); if (!k) { return [...x.w].some(([, , c]) => /^b:/.test(c)) ? "what follows the length is not the value" : "the value is not written"; }
  const segs = sorted(TM, x); const h = k.g.o && constOf(k.g.o); if (h !== 1 && h !== 4) return "the value does not follow a prefix of one or four bytes";
  const L = linear(k.len);
  if (h === 1) { const e = ints(TM, segs, 0, 1, k.len.key); if (e) return "the length: " + e; if (!holds(TM, x, addLin(linear(C(253)), L, -1))) return "a length above 253 is put into the short prefix"; }
  else { const first = segs.filter((g) => g.o && constOf(g.o) === 0 && constOf(g.n) === 1); const t = first.length === 1 ? TM.get(first[0].c.slice(2)) : null; if (t && num(t) === 254n) { const e = ints(TM, segs, 1, 3, k.len.key); if (e) return "the length: " + e; } else { // one number holding both
      const w = segs.find((g) => g.o && constOf(g.o) === 0 && constOf(g.n) === 4); const l = w && linear(TM.get(w.c.slice(2))); if (!l || !w.c.startsWith("i:") || !(l.m.size === 1 && Number(l.m.get(k.len.key)?.k) === 256 && Number(l.c) === 254) && !/254/.test(w.c)) return "the long prefix does not begin with 254"; } }
  const end = addLin(linear(C(h)), L, 1), pad = addLin(pos, end, -1);
  if (!multiple4(TM, x, pos)) return "its end is not brought to a multiple of four";
  if (!small(TM, x, pad)) return "its padding is not the least that is needed";
  const z = segs.filter((g) => /^z:/.test(g.c)); const each = (n) => { for (let i = 0; i < n; i++) { const o = addLin(end, linear(C(i)), 1); if (!segs.some((g) => g.o && same(g.o, o) && constOf(g.n) === 1 && /^i:0n?$/.test(g.c))) return false; } return true; }; const padded = constOf(pad) === 0 || constOf(pad) !== null && each(constOf(pad)) || z.some((g) => g.o && same(g.o, end) && same(g.n, pad) && /^z:0n?$/.test(g.c)); if (!padded) return "its padding is not written"; void padded;
  return null;
}
function longOk(TM, x) { const k = content(TM, x, false) ?? content(TM, x, true); if (!k) return true; if (constOf(k.g.o) === 1) return true; return holds(TM, x, addLin(linear(C((1 << 24) - 1)), linear(k.len), -1)); }

/** ---- the read methods */
function reading(ctx, p, c, B, f, spec, n) {
  const L = label(p, c), TM = new Map(), P0 = "this." + B.pos; const nm = f.name.getText();
  const start = mk("x"); start._k = P0; const size = mk("x"); size._k = "this." + B.buffer + ".length";
  const rel = (t) => { const l = linear(t); const m = new Map(l.m); const y = m.get(P0); if (!y || Number(y.k) !== 1) return null; m.delete(P0); return { c: l.c, m }; };
  const ob = (rule, ok, k, at, cx, msg) => ctx.ob(rule, !!ok, { key: `${L}.${nm}|${k}`, at: p.loc(at ?? f), message: `${L}.${nm} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  const has = (x, end) => { const room = addLin(linear(size), addLin(linear(start), end, 1), -1); return holds(TM, x, room); };
  let ends = 0;
  track(ctx, f, { policy: { inline: (nm) => !/decodeText/.test(nm) }, fields: [B.pos], unroll: 40, keep: (k) => /^.\$0$/.test(k) || /^.\(\$0===undefined\)/.test(k), terms: { hook }, maxStates: 4000,
    inst(s, v, cx, T) {
      const x = s.x;
      const need = (l, n2) => { const o = rel(linTerm(l)); ob(R.bounds, o && has(x, addLin(o, n2, 1)), "bounds", v.ast, cx, "reads bytes without having made sure that they are there"); };
      if (v.op === "Call" && GET.test(v.method ?? "") && v.recv && T(v.recv).key === "this." + B.view) need(linear(T(v.callArgs[0])), linear(C(+GET.exec(v.method)[2] / 8)));
      if (v.op === "Call" && /^(subarray|slice)$/.test(v.method ?? "") && v.recv && T(v.recv).key === "this." + B.buffer && v.callArgs.length === 2) { const a = T(v.callArgs[0]), b = T(v.callArgs[1]); need(linear(a), sub(b, a)); }
      return undefined;
    },
    edge(s, t, truth) { const x = assume(TM, s.x, t, truth); if (x === null) return null; let u = t, tr = truth; while (u.h === "not") { u = u.a[0]; tr = !tr; } let y = x; if (u.h === "bin" && u.n === "===" && (num(u.a[1]) === 0n || num(u.a[0]) === 0n)) { const q = num(u.a[1]) === 0n ? u.a[0] : u.a[1]; TM.set(q.key, q); y = tr ? { ...y, z: [...new Set([...(y.z ?? []), q.key])].sort() } : y; const b = q.h === "bin" && q.n === "&" ? [q.a[0], q.a[1]].find((e) => num(e) === null) : null, m = b && [q.a[0], q.a[1]].map(num).find((e) => e !== null); const w = b && m === 128n ? whole(b, B, y) : null; if (w && w.m.size === 1) y = { ...y, sg: [tr ? 0 : 1, [...w.m.values()][0]] }; }
      if (u.h === "bin" && u.n === "<") { const a = whole(u.a[0], B, y), b2 = num(u.a[1]); const b1 = num(u.a[0]); const a1 = typeof b1 === "bigint" ? whole(u.a[1], B, y) : null; const lim = (z) => z && z.m.size ? 1n << BigInt(8 * z.m.size - 1) : null; const w = a && typeof b2 === "bigint" && b2 === lim(a) ? a : a1 && b1 === lim(a1) - 1n ? a1 : null; if (w && w.m.size && !w.signed && !w.minus) { const top = w.m.get(8 * (w.m.size - 1)); if (top) y = { ...y, sg: [(w === a) === tr ? 0 : 1, top] }; } }
      if (u.h === "bin" && u.n === "<" && tr && num(u.a[0]) === 0n) { /* more than nothing */ const f1 = linTerm(addLin(linear(u.a[1]), linear(C(1)), -1)); TM.set(f1.key, f1); y = { ...y, q: [...new Set([...(y.q ?? []), f1.key])].sort() }; }
      if (u.h === "bin" && u.n === "<" && !tr && num(u.a[0]) === 0n && lengthy(u.a[1].key)) { TM.set(u.a[1].key, u.a[1]); y = { ...y, z: [...new Set([...(y.z ?? []), u.a[1].key])].sort() }; }
      return y === s.x ? undefined : { ...s, x: y }; },
    onRaise(s, t, cx) {
      const x = s.x, lacks = (end) => holds(TM, x, addLin(addLin(addLin(linear(start), end, 1), linear(size), -1), linear(C(1)), -1));
      let ok;
      if (spec.int || spec.float) ok = lacks(linear(C(spec.int ?? spec.float)));
      else if (spec.raw) { const a = mk("x"); a._k = "$0"; ok = lacks(linear(a)); }
      else ok = (x.q ?? []).some((q) => { const l = addLin(linear(TM.get(q)), linear(C(1)), 1); const P = l.m.get(P0), S = l.m.get(size.key); if (!P || !S || Number(P.k) !== 1 || Number(S.k) !== -1) return false; const e = { c: l.c, m: new Map(l.m) }; e.m.delete(P0); e.m.delete(size.key); const k0 = constOf(e); if (k0 !== null) return k0 === 1 || k0 === 4; const len = [...e.m].find(([k]) => /^view:getUint|\||elem|\[/.test(k) && !/%/.test(e.m.get(k).t.n ?? "")); if (!len || Number(len[1].k) !== 1) return false; const m = new Map(e.m); m.delete(len[0]); const h = { c: e.c, m }; return constOf(h) === 1 || constOf(h) === 4 || multiple4(TM, x, e) && (small(TM, x, addLin(h, linear(C(1)), -1)) || small(TM, x, addLin(h, linear(C(4)), -1))); });
      ob(R.fits, ok, "refused", t.ast, cx, `may refuse ${n} although all of it has been received`); return undefined;
    },
    ...retHook((s, v, cx, T, H) => {
      ends++; const x = s.x, t = T(v), pos = rel(T.field(B.pos)); if (!pos) { ob(R.take, false, "position", v.ast, cx, "leaves the position somewhere unknown"); return; }
      const signed = H.true({ key: "($0===undefined)" }) ? true : H.true({ key: "$0" }) ? true : H.false({ key: "$0" }) ? false : null;
      const e = spec.raw ? rawR(t, pos) : spec.int ? intR(t, pos, x, signed) : spec.float ? floatR(t, pos) : bytesR(t, pos, x);
      ob(R.take, e === null, "value", v.ast, cx, `does not read ${n} as it is on the wire: ${e}`);
    }),
  });
  ctx.ob(R.take, ends > 0, { key: L + "." + nm + "|ends", at: p.loc(f), message: `${L}.${nm} never returns` });
  function offs(w) { return [...w.m].map(([b, k]) => { const o = rel(OFF(k, w)); return [b, o ? constOf(o) : null]; }); }
  function OFF(k) { return KEYS.get(k); }
  function intR(t, pos, x, signed) {
    if (constOf(pos) !== spec.int) return `the position does not move by ${spec.int}`;
    const w = whole(t, B, x); if (!w) return "the value is not put together from its bytes";
    if (w.m.size !== spec.int) return `it takes ${w.m.size} bytes`;
    for (const [b, o] of offs(w)) if (o !== b / 8) return "the bytes are not taken with the least significant first";
    if (signed === null) return "its sign is decided without regard to what is asked for";
    if (signed && !w.signed) { // either the top bit is clear, or the range has been taken off
      const top = [...w.m].find(([b]) => b === 8 * (spec.int - 1))[1]; const s = x.sg && x.sg[1] === top ? x.sg[0] : null;
      if (s === null) return "it is read as unsigned where a signed number is asked for"; if (!!w.minus !== (s === 1)) return s ? "a negative number comes out positive" : "a positive number comes out negative";
    }
    if (!signed && (w.signed || w.minus)) return "it is read as signed where an unsigned number is asked for";
    return null;
  }
  function floatR(t, pos) { if (constOf(pos) !== 8) return "the position does not move by 8"; const o = t.h === "view" && t.n === "getFloat64" && t.a[2]?.n === true ? rel(t.a[1]) : null; return o && constOf(o) === 0 ? null : "it is not the number in eight bytes, least significant first"; }
  function chunk(t) { while (t.args && /Array\.from$/.test(t.name ?? "")) t = t.args[0]; if (t.h !== "slice") return null; let o = offsetOf(t, B); if (!o) return null; if (t.a.length < 3 && t.a[0].h === "slice") return chunk(t.a[0]); o = rel(linTerm(o)); return o && { o, n: t.a[2] ? sub(t.a[2], t.a[1]) : null }; }
  function rawR(t, pos) { const k = chunk(t); return k && isNum(k.o, 0) && k.n && linTerm(k.n).key === "$0" && linTerm(pos).key === "$0" ? null : "it is not the next bytes, as many as asked for"; }
  function bytesR(t, pos, x) {
    if (spec.text) { if (!/#decodeText$|TextDecoder\.decode$/.test(t.name ?? "")) return "it is not decoded as text"; t = t.args[0]; }
    const k = chunk(t); if (!k || !k.n) return "it is not a piece of the buffer"; const h = constOf(k.o); if (h !== 1 && h !== 4) return "the value is not taken after a prefix of one or four bytes";
    const lt = linTerm(k.n), w = whole(lt, B, x); if (!w || w.signed) return "its length is not an unsigned number from its prefix";
    const want = h === 1 ? [[0, 0]] : [[0, 1], [8, 2], [16, 3]]; const got = offs(w).sort((a, b) => a[0] - b[0]); if (JSON.stringify(got) !== JSON.stringify(want)) return "its length is not the number in its prefix";
    // which prefix it is depends on the first byte
    const firstOf = (kk) => { const tt = TM.get(kk); return tt; }; let decided = false;
    for (const q of x.q ?? []) { const l = linear(firstOf(q)); if (l.m.size !== 1) continue; const y = [...l.m.values()][0]; const b = whole(y.t, B, x); if (!b || b.m.size !== 1 || offs(b)[0][1] !== 0) continue; const c0 = Number(l.c ?? 0), k0 = Number(y.k); if (h === 1 ? k0 === -1 && c0 === 253 : k0 === 1 && (c0 === -254)) decided = true; }
    if (!decided && h === 1 && (x.ne ?? []).length) decided = true;
    if (!decided) return h === 1 ? "a first byte above 253 is taken for a length" : "the long prefix is not recognised by its first byte";
    const end = addLin(linear(C(h)), k.n, 1), pad = addLin(pos, end, -1);
    if (!multiple4(TM, x, pos)) return "it does not end at a multiple of four"; if (!small(TM, x, pad)) return "its padding is not the least that is needed";
    return null;
  }
}
/** going back: by as much as is asked for, and not beyond the beginning */
function unreading(ctx, p, c, B, f) {
  const L = label(p, c), TM = new Map(); const pos = mk("x"), n = mk("x"); pos._k = "this." + B.pos; n._k = "$0"; const left = addLin(linear(pos), linear(n), -1);
  const ob = (ok, k, at, cx, msg) => ctx.ob(R.bounds, !!ok, { key: `${L}.unread|${k}`, at: p.loc(at ?? f), message: `${L}.unread ${msg}`, path: ok ? undefined : describePath(p, cx.path()) });
  track(ctx, f, { policy: {}, fields: [B.pos], keep: () => false,
    edge(s, t, truth) { const x = assume(TM, s.x, t, truth); return x === null ? null : x === s.x ? undefined : { ...s, x }; },
    onRaise(s, t, cx) { ob(holds(TM, s.x, addLin(negated(left), linear(C(1)), -1)), "refused", t.ast, cx, "may refuse to go back to what has been read"); return undefined; },
    exit(s, kind, cx, T) { if (kind !== "return") return; ob(isNum(addLin(linear(T.field(B.pos)), left, -1), 0), "by", null, cx, "does not go back by what is asked for"); ob(holds(TM, s.x, left), "before", null, cx, "may go back beyond the beginning"); } });
}
/** messages and containers: what is put in front of a body is what is taken off again */
function messages(ctx, p, W, Rd) {
  const name = (n) => find(p, n); const wm = name("writeMessage"), rm = name("deserializeMessage"), rc = name("deserializeMsgContainer"); ctx.need(wm, "writeMessage"); ctx.need(rm, "deserializeMessage"); ctx.need(rc, "deserializeMsgContainer"); if (!wm || !rm || !rc) return;
  const F = p.rel(wm.getSourceFile()); const say = (ok, k, at, msg, cx) => ctx.ob(R.message, !!ok, { key: k, at: p.loc(at), message: msg, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  const isW = (v) => v.op === "Call" && v.targetFn && v.targetFn.parent === W, isR = (v) => v.op === "Call" && v.targetFn && v.targetFn.parent === Rd; const never = (nm, fn) => fn?.parent === W || fn?.parent === Rd || fn === wm || fn === rm || fn === rc;
  let plain = 0, packed = 0, read = 0; const sizers = new Set();
  track(ctx, wm, { policy: { never, inline: (nm, fn) => p.rel(fn.getSourceFile()) === F && !never(nm, fn) && !loopsIn(p, fn) }, keep: () => false, init: { o: [] },
    inst(s, v, cx, T) { if (v.op !== "Call") return; if (isW(v)) return { ...s, x: { ...s.x, o: [...s.x.o, [v.method, ...v.callArgs.map((a) => bare(T(a).key))]] } }; if (v.targetFn && p.rel(v.targetFn.getSourceFile()) === F && v.callArgs.length === 2 && bare(T(v.callArgs[0]).key) === "$0") return { ...s, x: { ...s.x, o: [...s.x.o, ["container", bare(T(v.callArgs[1]).key)]] } }; return undefined; },
    exit(s, kind, cx) {
      if (kind !== "return") return; const o = s.x.o; const signed = (q) => q && (q.length === 2 || q[2] === "true"); const at = wm;
      say(o[0]?.[0] === "writeInt64" && o[0][1] === "$1.msg_id" && signed(o[0]) && o[1]?.[0] === "writeInt32" && o[1][1] === "$1.seqno" && signed(o[1]), "message|head", at, `${F}#writeMessage does not begin a message with its identifier and its sequence number`, cx);
      const last = o[3]; const len = o[2]; const raw = last?.[0] === "write" && last[1] === "$1.body"; if (raw) { plain++; say(o.length === 4 && len[0] === "writeInt32" && len[1] === "$1.body.length", "message|length", at, `${F}#writeMessage does not put the length of a body in front of it`, cx); }
      else { packed++; const m = /^call:(\w+)\(\$1\.body\)$/.exec(len?.[1] ?? ""); say(o.length === 4 && len[0] === "writeInt32" && m && last[0] === "container" && last[1] === "$1.body", "message|container", at, `${F}#writeMessage does not put the length of a container in front of it`, cx); if (m) sizers.add(m[1]); }
    } });
  say(plain > 0, "message|plain", wm, `${F}#writeMessage never writes a body`);
  track(ctx, rm, { policy: { never, inline: (nm, fn) => p.rel(fn.getSourceFile()) === F && !never(nm, fn) }, keep: () => false, init: { o: [] },
    inst(s, v, cx, T) { if (isR(v)) return { ...s, x: { ...s.x, o: [...s.x.o, [v.method, bare(T(v.recv).key), ...v.callArgs.map((a) => bare(T(a).key))]], raw: [...(s.x.raw ?? []), T(v).key] } }; if (v.op === "Call" && v.targetFn === rc) return { ...s, x: { ...s.x, inner: 1 } }; return undefined; },
    edge(s, t, truth) { let u = t, tr = truth; while (u.h === "not") { u = u.a[0]; tr = !tr; } if (u.h === "bin" && u.n === "===" && u.a.some((y) => num(y) === 1945237724n) && u.a.some((y) => /readInt32/.test(y.key))) return { ...s, x: { ...s.x, c: tr ? 1 : 0 } }; return undefined; },
    onRet(s, v, cx, T) {
      read++; const t = T(v), o = s.x.o, key = bare(t.key); const names = t.h === "obj" && typeof t.n === "string" ? t.n.split(",") : null, val = (n) => names && names.includes(n) ? t.a[names.indexOf(n)].key : null; const main = o.filter((q) => q[1] === "$0"); const okHead = main.length === 4 && main[0][0] === "readInt64" && main[0].length === 2 && main[1][0] === "readInt32" && main[1].length === 2 && main[2][0] === "readInt32" && (main[2].length === 2 || main[2][2] === "false") && /^read(View)?$/.test(main[3][0]) && /^call:[\w.#]*readInt32\(\$0/.test(main[3][2]);
      say(okHead, "message|read", v.ast ?? rm, `${F}#deserializeMessage does not take a message as identifier, sequence number, length and as many bytes`, cx);
      const rawAt = (q) => s.x.raw?.[o.indexOf(q)]; if (okHead && names) say(val("msg_id") === rawAt(main[0]) && val("seqno") === rawAt(main[1]), "message|back", v.ast ?? rm, `${F}#deserializeMessage does not give back the identifier and the sequence number it has read`, cx);
      say(s.x.c !== undefined && (s.x.c === 1) === !!s.x.inner, "message|container|read", v.ast ?? rm, `${F}#deserializeMessage does not take a body for a container exactly where it is one`, cx); void key;
    } });
  say(read > 0, "message|read|none", rm, `${F}#deserializeMessage never returns`);
  for (const n of sizers) sizing(ctx, p, name(n), say, F);
  // the container: its identifier, the number of messages, and each of them
  const wc = [...p.fns.values()].find((d) => d && ts.isFunctionDeclaration(d) && d.body && p.rel(d.getSourceFile()) === F && d !== wm && loopsIn(p, d) && calls(p, d).has(wm)); ctx.need(wc, "the function that writes a container"); if (!wc) return;
  let seen = 0;
  track(ctx, wc, { policy: { never }, keep: () => false, init: { o: [] },
    inst(s, v, cx, T) { if (isW(v)) return { ...s, x: { ...s.x, o: [...s.x.o, [v.method, ...v.callArgs.map((a) => bare(T(a).key))]] } }; if (v.op === "Call" && v.targetFn === wm) { seen++; const k = bare(T(v.callArgs[1]).key); say(/^IterElem\(\$1\.messages\)$/.test(k) || /^\$1\.messages\[.+\]$/.test(k), "container|each", v.ast, `${F} writes something else than the messages of a container`, cx); } return undefined; },
    exit(s, kind, cx) { if (kind !== "return") return; const o = s.x.o; say(o.length === 2 && o[0][0] === "writeInt32" && o[0][1] === "1945237724" && o[0][2] === "false" && o[1][0] === "writeInt32" && o[1][1] === "$1.messages.length", "container|head", wc, `${F} does not begin a container with its identifier and the number of messages`, cx); } });
  say(seen > 0, "container|none", wc, `${F} never writes the messages of a container`);
  let n = 0; const lab = (v) => bare(v.key);
  track(ctx, rc, { policy: { never: (nm, fn) => fn?.parent === Rd || fn === rm }, keep: () => false,
    edge(s, t, truth, cx, T) { let u = t; while (u.h === "not") u = u.a[0]; if (u.h === "bin" && (u.n === "<" || u.n === "<=") && u.a.some((y) => /readInt32/.test(y.key))) { n++; const [a, b] = u.a; say(u.n === "<" && /readInt32/.test(lab(b)) && (a.h === "phi" || a.h === "val" || /%/.test(a.key) || a.h === "const"), "container|count", rc, `${F}#deserializeMsgContainer does not read as many messages as there are`, cx); } return undefined; },
    inst(s, v, cx, T) { if (v.op === "Call" && v.targetFn === rm) { const k = lab(T(v.callArgs[0])); say(/^new:TLReader/.test(k) || /TLReader/.test(k), "container|from", v.ast, `${F}#deserializeMsgContainer does not read the messages one after another`, cx); return { ...s, x: { ...s.x, r: 1 } }; } if (v.op === "SetElem") { const iv = resolve(v.args[1]); if (iv.op === "Phi") say(iv.args.map((q) => resolve(q)).some((q) => q.op === "Const" && q.value === 0), "container|first", v.ast, `${F}#deserializeMsgContainer does not begin with the first message`, cx); else if (iv.op === "Bin") say(false, "container|place", v.ast, `${F}#deserializeMsgContainer does not put the messages one after another`, cx); } return undefined; } });
  void n;
}
const calls = (p, d) => { const o = new Set(); p.walk(d.body, (x) => { if (ts.isCallExpression(x)) { const r = p.resolveCallee(x); if (r?.fn) o.add(r.fn); } }); return o; };
/** the length of a container: 8 for its head and, per message, 16 and the length of the body */
function sizing(ctx, p, f, say, F) {
  ctx.need(f, "the function that measures a container"); if (!f) return; if (!loopsIn(p, f)) { ctx.count("container lengths not followed", 1); return; }
  let once = 0;
  track(ctx, f, { policy: {}, keep: () => false, unroll: 2, init: { n: 0 },
    edge(s, t, truth) { let u = t, tr = truth; while (u.h === "not") { u = u.a[0]; tr = !tr; } if (/^IterHas\(/.test(u.key) && tr) return s.x.n >= 2 ? null : { ...s, x: { n: s.x.n + 1 } }; return undefined; },
    onRet(s, v, cx, T) {
      const l = linear(T(v)); if (l.m.has("?")) return; const k = s.x.n; if ([...l.m.keys()].some((y) => /^%\d+;$/.test(y))) return; if (k === 0) { say(l.m.size === 0 && Number(l.c) === 8, "container|size|0", v.ast ?? f, `${F} does not count 8 bytes for the head of a container`, cx); return; }
      once++; const each = [...l.m.values()].every((y) => /\.body\.length$/.test(bare(y.t.key)) || /^call:\w+\(.*\.body\)$/.test(bare(y.t.key))); const bodies = [...l.m.values()].reduce((a, y) => a + Number(y.k), 0);
      say(Number(l.c) === 8 + 16 * k && each && bodies === k, "container|size", v.ast ?? f, `${F} does not count 16 bytes and the body for each message of a container`, cx);
    } });
  ctx.count("container lengths followed", once);
}
const KEYS = new Map();
const retHook = (f) => ({ onRet: f });

/** ---- the rest of the encoder's buffer */
function growing(ctx, p, c, B) {
  const L = label(p, c), f = B.grow; ctx.need(f, "the method that makes room"); if (!f) return; const TM = new Map();
  const sized = mk("x"); sized._k = "this." + B.buffer + ".length"; const P0 = mk("x"); P0._k = "this." + B.pos;
  track(ctx, f, { policy: {}, keep: () => false, terms: {}, init: {},
    inst(s, v, cx, T) {
      const x = s.x;
      if (v.op === "SetProp" && v.name === B.buffer) { const t = T(v.args[1]); TM.set(t.key, t); return { ...s, x: { ...x, buf: t.key, viewed: 0 } }; }
      if (v.op === "SetProp" && v.name === B.view) { const t = T(v.args[1]); return { ...s, x: { ...x, viewed: t.h === "new" && /DataView/.test(t.n ?? "") && (t.a[0].key === (x.buf ?? "?") + ".buffer" || t.a[0].key === `this.${B.buffer}.buffer`) ? 1 : 0 } }; }
      if (v.op === "Call" && v.method === "set" && v.recv) { const r = T(v.recv).key, a = T(v.callArgs[0]), o = v.callArgs[1] ? num(T(v.callArgs[1])) : 0n; const all = a.key === "this." + B.buffer || a.h === "slice" && a.a[0].key === "this." + B.buffer && num(a.a[1]) === 0n && (!a.a[2] || a.a[2].key === "this." + B.pos); if (all && o === 0n && !x.buf) return { ...s, x: { ...x, copied: r } }; if (all && o === 0n && x.old) return { ...s, x: { ...x, copied: r } }; }
      return undefined;
    },
    edge(s, t, truth) { const x = assume(TM, s.x, t, truth); return x === null ? null : x === s.x ? undefined : { ...s, x }; },
    exit(s, kind, cx) {
      if (kind !== "return") return; const x = s.x; const at = p.loc(f);
      const ob = (ok, k, msg) => ctx.ob(R.buffer, !!ok, { key: `${L}|grow|${k}`, at, message: `${L} ${msg}`, path: ok ? undefined : describePath(p, cx.path()) });
      const need = addLin(linear(P0), linear(par()), 1);
      if (!x.buf) { ob(holds(TM, x, addLin(linear(sized), need, -1)), "enough", "is taken to have room where it does not"); return; }
      const t = TM.get(x.buf); const n = t.h === "zeros" ? t.a[0] : null; const cand = !n ? [] : n.args && /Math\.max$/.test(n.name ?? "") ? n.args : [n];
      ob(cand.some((y) => holds(TM, x, addLin(linear(y), need, -1))), "bigger", "does not become big enough for what is to be written");
      ob(x.copied === x.buf, "kept", "loses what has been written when it grows"); ob(x.viewed, "view", "keeps writing numbers into the buffer it has left");
    } });
  function par() { const t = mk("x"); t._k = "$0"; return t; }
}
function output(ctx, p, c, B) {
  const L = label(p, c); const g = c.members.find((m) => ts.isGetAccessorDeclaration(m) && m.name.getText() === "buffer"); ctx.need(g, "the getter of the buffer"); if (!g) return; const TM = new Map();
  let n = 0;
  track(ctx, g, { policy: {}, keep: () => false, fields: [B.buffer],
    edge(s, t, truth) { const x = assume(TM, s.x, t, truth); return x === null ? null : x === s.x ? undefined : { ...s, x }; },
    inst(s, v, cx, T) { if (v.op === "SetProp" && v.name === B.view) { const t = T(v.args[1]); return { ...s, x: { ...s.x, viewed: t.h === "new" && t.a[0].key === T.field(B.buffer).key + ".buffer" ? 1 : 0 } }; } return undefined; },
    exit(s, kind, cx, T) { if (kind === "return" && s.h?.[B.buffer] && s.h[B.buffer] !== "this." + B.buffer) ctx.ob(R.buffer, s.x.viewed === 1, { key: L + "|out|view", at: p.loc(g), message: `${L} keeps writing numbers into the buffer it has left`, path: describePath(p, cx.path()) }); },
    onRet(s, v, cx, T) {
      n++; const t = T(v); const exact = (q) => q.h === "slice" && q.a[0].key === "this." + B.buffer && num(q.a[1]) === 0n && q.a[2]?.key === "this." + B.pos;
      const eq = (s.x.q ?? []).length >= 2 && (s.x.q ?? []).every((k) => { const l = linear(TM.get(k)); return l.m.size === 2 && l.m.has("this." + B.pos) && l.m.has(`this.${B.buffer}.length`) && Number(l.c ?? 0) === 0; });
      ctx.ob(R.buffer, exact(t) || t.key === "this." + B.buffer && eq, { key: L + "|out", at: p.loc(v.ast ?? g), message: `${L} hands out something else than the bytes that have been written`, path: describePath(p, cx.path()) });
    } });
  ctx.ob(R.buffer, n > 0, { key: L + "|out|none", at: p.loc(g), message: `${L} never hands out what has been written` });
}
/** ---- text */
function text(ctx, p) {
  for (const [n, re, cls] of [["encodeText", /TextEncoder\.encode$/, "TextEncoder"], ["decodeText", /TextDecoder\.decode$/, "TextDecoder"]]) {
    const f = p.allFns ? null : null; void f; const d = find(p, n); ctx.need(d, n); if (!d) continue;
    let calls = 0, bom = null, at = d;
    p.walk(d, (x) => { if (ts.isCallExpression(x) && re.test(p.resolveCallee(x)?.name ?? "")) { calls++; at = x; const r = ts.isPropertyAccessExpression(x.expression) ? x.expression.expression : null; let e = r; if (r && ts.isIdentifier(r)) { const s = p.symbolOf(r); const vd = s?.valueDeclaration; if (vd && ts.isVariableDeclaration(vd)) e = vd.initializer; } if (e && ts.isNewExpression(e)) bom = opts(p, e); } });
    ctx.ob(R.text, calls > 0, { key: n, at: p.loc(d), message: `${n} does not use ${cls}` });
    if (cls === "TextDecoder" && calls) ctx.ob(R.text, !!bom && bom.ignoreBOM === true && (bom.label === undefined || /^utf-?8$/i.test(bom.label)), { key: n + "|bom", at: p.loc(at), message: `${n} drops a leading byte order mark (or does not decode UTF-8), so that the text read is not the text written` });
  }
}
function opts(p, e) { const [a, b] = e.arguments ?? []; const o = { label: a && ts.isStringLiteralLike(a) ? a.text : undefined }; if (b && ts.isObjectLiteralExpression(b)) for (const q of b.properties) if (ts.isPropertyAssignment(q)) o[q.name.getText()] = q.initializer.kind === ts.SyntaxKind.TrueKeyword ? true : q.initializer.kind === ts.SyntaxKind.FalseKeyword ? false : q.initializer.getText(); return o; }
function find(p, n) { for (const d of p.fns.values()) { if (d?.name?.getText?.() === n && ts.isFunctionDeclaration(d)) return d; } return null; }

/** ---- which codec serves which wire type */
const bare = (k) => k.replace(/%[\d~]+;/g, "");
const holder = (p, c, re) => c.members.find((m) => ts.isMethodDeclaration(m) && m.body && re.test(m.body.getText()) && mentions(p, m));
const mentions = (p, m) => { let n = 0; p.walk(m.body, (x) => { if (ts.isStringLiteralLike(x) && (x.text === "int128" || x.text === "int256")) n++; }); return n >= 2; };
const codec = (nm) => /\.(write|read)(Int|Double|Bytes|String)\w*$/.test(nm);
function dispatch(ctx, p, c, f, pre, onReturn) {
  track(ctx, f, { policy: { never: (nm) => codec(nm) }, keep: () => false, maxStates: 4000, init: { type: null, calls: [], v: [] },
    edge(s, t, truth) {
      let u = t, tr = truth; while (u.h === "not") { u = u.a[0]; tr = !tr; } const x = s.x;
      if (u.h === "bin" && u.n === "===") { const k = u.a.find((y) => y.h === "const" && typeof y.n === "string"), o = u.a.find((y) => y !== k); if (k && o?.key === "$0") { if (tr) return x.type !== null && x.type !== k.n ? null : { ...s, x: { ...x, type: k.n } }; return x.type === k.n ? null : undefined; } }
      const fact = (tr ? "+" : "-") + bare(u.key); if (x.v.includes((tr ? "-" : "+") + bare(u.key))) return null; if (/\$1|call:/.test(fact)) return { ...s, x: { ...x, v: [...new Set([...x.v, fact])].sort() } };
      return undefined;
    },
    inst(s, v, cx, T) { if (v.op === "Call" && v.method && new RegExp("^" + pre + "(Int|Double|Bytes|String)").test(v.method)) return { ...s, x: { ...s.x, calls: [...s.x.calls, [v.method.slice(pre.length), v.callArgs.map((a) => bare(T(a).key))]] } }; return undefined; },
    onRet(s, v, cx, T) { onReturn(s.x, T(v), v, cx); } });
}
function dispatchW(ctx, p, c) {
  const f = holder(p, c, /writeInt128/); ctx.need(f, "the choice of codec in the encoder"); if (!f) return null; const out = new Map();
  dispatch(ctx, p, c, f, "write", (x, t, v, cx) => { if (t.h === "const" && t.n === false && !x.calls.length) return; const k = x.type ?? "?"; let e = out.get(k); if (!e) out.set(k, e = []); e.push({ ...x, at: v.ast ?? f, path: () => describePath(p, cx.path()) }); });
  return { f, out };
}
function dispatchR(ctx, p, c) {
  const f = holder(p, c, /readInt128/); ctx.need(f, "the choice of codec in the decoder"); if (!f) return null; const out = new Map();
  dispatch(ctx, p, c, f, "read", (x, t, v, cx) => { if (t.h === "const" && t.n === undefined && !x.calls.length) return; const k = x.type ?? "?"; let e = out.get(k); if (!e) out.set(k, e = []); e.push({ ...x, ret: bare(t.key), at: v.ast ?? f, path: () => describePath(p, cx.path()) }); });
  return { f, out };
}
const CODEC = { bytes: "Bytes", string: "String", int: "Int32", long: "Int64", int128: "Int128", int256: "Int256", double: "Double", true: null, Bool: "?" };
function agree(ctx, p, a, b, W, Rd) {
  const LW = label(p, W), LR = label(p, Rd);
  for (const t of new Set([...a.out.keys(), ...b.out.keys(), ...Object.keys(CODEC)])) {
    const w = a.out.get(t) ?? [], r = b.out.get(t) ?? [];
    ctx.ob(R.types, w.length && r.length && t !== "?", { key: "type|" + t, at: p.loc(!w.length ? a.f : !r.length ? b.f : w[0].at), message: `the wire type ${t} is ${!w.length ? "not known to the encoder" : !r.length ? "not known to the decoder" : "served without having been named"}` });
    if (!w.length || !r.length || t === "?") continue;
    for (const e of [...w.map((y) => [y, 1]), ...r.map((y) => [y, 0])]) {
      const [y, enc] = e, want = CODEC[t]; let bad = null; const one = y.calls.length === 1 ? y.calls[0] : null;
      const name = one?.[0], same = (n) => n === want || want === "String" && n === "Bytes" && enc;
      const flagOf = (i) => one[1][i] === undefined || one[1][i] === "true" || one[1][i] === "undefined";
      if (want === undefined) bad = null;
      else if (want === null) bad = y.calls.length ? "is not empty" : !enc && y.ret !== "true" ? "does not come out as true" : enc && !y.v.includes("+($1===true)") && !y.v.includes("-not(($1===true))") ? "is written for what is not true" : null;
      else if (want === "?") {
        const yes = "2574415285", no = "3162085175";
        if (!one || name !== "Int32" || flagOf(enc ? 1 : 0)) bad = "is not a 32-bit identifier";
        else if (enc) { const v = y.v.includes("+$1") || y.v.includes("+($1===true)") ? true : y.v.includes("-$1") || y.v.includes("-($1===true)") ? false : null; bad = v === null || one[1][0] !== (v ? yes : no) ? "is not written as the identifier of its value" : null; }
        else { const v = y.v.some((q) => q.startsWith("+") && q.includes(yes)) ? true : y.v.some((q) => q.startsWith("+") && q.includes(no)) ? false : null; bad = v === null || y.ret !== String(v) ? "does not come out as the value of its identifier" : null; }
      } else if (!one || !same(name)) bad = `is served by ${y.calls.map((q) => q[0]).join(", ") || "nothing"}`;
      else if (enc) { const arg = one[1][0]; const none = !/^\$1$/.test(arg); if (none && !(y.v.includes("+($1===null)") && (arg === "0" || arg === "0n") || t === "string" && arg === '""' && y.v.includes('-(un:typeof($1)==="string")'))) bad = "is not written with its value"; else if (/Int/.test(want) && !flagOf(1)) bad = "is written as unsigned"; }
      else if (y.ret !== `call:TLReader.read${want}(this${one[1].map((q) => "," + q).join("")})` && !new RegExp(`read${want}\\(`).test(y.ret)) bad = "does not come out as what has been read"; else if (/Int/.test(want) && !flagOf(0)) bad = "is read as unsigned";
      ctx.ob(R.dispatch, !bad, { key: `${enc ? "w" : "r"}|${t}`, at: p.loc(y.at), message: `${enc ? LW : LR}: the wire type ${t} ${bad}`, path: bad ? y.path() : undefined });
    }
  }
}

/** ---- objects and vectors */
function objects(ctx, p, W, Rd) {
  const LW = label(p, W), LR = label(p, Rd); const VECTOR = "481674261";
  const ms = (c) => c.members.filter((m) => ts.isMethodDeclaration(m) && m.body);
  const callsOf = (m) => { const o = new Set(); p.walk(m.body, (x) => { if (ts.isCallExpression(x)) { const r = p.resolveCallee(x); if (r?.fn) o.add(r.fn); } }); return o; };
  const reach = (c, from, to) => { const seen = new Set(); const go = (m) => { if (seen.has(m)) return false; seen.add(m); for (const q of callsOf(m)) { if (q === to) return true; if (ms(c).includes(q) && go(q)) return true; } return false; }; return go(from); };
  const usesFlags = (c) => ms(c).filter((m) => /analyzeOptionalParam|isOptionalParam/.test(m.body.getText()));
  const loops = (m) => { let n = 0; p.walk(m.body, (x) => { if (ts.isForOfStatement(x) || ts.isForStatement(x)) n++; }); return n; };
  const wo = usesFlags(W).find((m) => loops(m) && reach(W, m, m)) ?? usesFlags(W).find((m) => reach(W, m, m)), ro = usesFlags(Rd).find((m) => loops(m) && reach(Rd, m, m));
  ctx.need(wo, "the method that writes an object"); ctx.need(ro, "the method that reads an object"); if (!wo || !ro) return;
  const run = (c, f, o) => track(ctx, f, { policy: { never: (nm, fn) => codec(nm), inline: (nm, fn) => ms(c).includes(fn) && fn !== f && !reach(c, fn, f) && !mentions(p, fn) && !codec(nm) }, keep: () => false, maxStates: 6000, ...o });
  for (const enc of [true, false]) {
    const c = enc ? W : Rd, f = enc ? wo : ro, L = enc ? LW : LR; const recs = []; const canon = (k) => bare(k);
    const isElem = (k) => /^IterElem\(/.test(k);
    const judge = (x, cx, at) => { if (x.it) recs.push({ ...x.it, path: describePath(p, cx.path()), at: f }); };
    const fin = { ret: [] };
    const list = (k) => enc ? /definitions\[.*\]\[1\]$/.test(k) : /(^\$\d|definitions\[.*\]|desc\w*)\[1\]$/.test(k);
    run(c, f, { init: { it: null, done: [], idw: 0, prim: 0 },
      inst(s, v, cx, T) {
        const x = s.x;
        if (v.op === "IterElem") { const k = canon(T(v.args[0]).key); if (!list(k)) return; return { ...s, x: { ...x, it: { loop: v.id, acts: [], E: canon(T(v).key) } } }; }
        if (!x.it && v.op === "Call" && enc && v.method === "writeInt32" && /\[0\]$/.test(canon(T(v.callArgs[0]).key))) { const u = v.callArgs[1] ? T(v.callArgs[1]) : null; ctx.ob(R.field, u?.h === "const" && u.n === false, { key: LW + "|id|unsigned", at: p.loc(v.ast), message: `${LW} does not write the identifier of an object as an unsigned number` }); return { ...s, x: { ...x, idw: x.idw + 1, late: x.done.length } }; }
        if (!x.it) return;
        const E = x.it.E, act = (a) => ({ ...s, x: { ...x, it: { ...x.it, acts: [...x.it.acts, a] } } });
        if (v.op === "SetElem") {
          const i = canon(T(v.args[1]).key), val = T(v.args[2]), vk = canon(val.key);
          if (i.startsWith(`call:analyzeOptionalParam(${E}[1]`) && i.endsWith(".flagField")) { const bit = `(1<<${i.slice(0, -".flagField".length)}.bitIndex)`; if (val.h === "const" && Number(val.n) === 0 && x.it.nl === i) return undefined; const or = val.h === "bin" && val.n === "|" && val.a.some((y) => canon(y.key) === bit && val.a.some((z) => z !== y && (canon(z.key).endsWith(`[${i}]`) || z.h === "const" && Number(z.n) === 0 && x.it.nl === i))); return act(or || vk === bit && enc && val.h === "bin" && val.n === "<<" && false ? "flag" : "wrong flag"); }
          if (i === E + "[0]") { if (/readInt32\(this(,true)?\)$/.test(vk)) return act("word"); if (!enc) return act(new RegExp(`\\(this,(${esc(E + "[1]")}|call:getOptionalParamInnerType\\(${esc(E + "[1]")}\\)),`).test(vk) ? "field" : "other"); }
          return undefined;
        }
        if (v.op === "Call" && enc) {
          if (v.method === "writeInt32") { if (T(v.callArgs[0]).h !== "const") fin.word = true; const a = canon(T(v.callArgs[0]).key); return act(a === "0" || a.endsWith(`[${E}[0]]`) || /^%?$/.test(a) || T(v.callArgs[0]).h === "val" ? "word" : "wrong word"); }
          if (v.targetFn && ms(c).includes(v.targetFn) && (v.targetFn === f || reach(c, v.targetFn, f)) && v.callArgs.length >= 2) { const a = canon(T(v.callArgs[0]).key), b = canon(T(v.callArgs[1]).key); const inner = `call:getOptionalParamInnerType(${E}[1])`; const okT = x.it.opt === true ? a === inner : x.it.opt === false ? a === E + "[1]" || a === inner : a === inner; return act(okT && /^\$\d/.test(b) && b.endsWith(`[${E}[0]]`) ? "field" : !okT ? "type" : "value"); }
        }
        return undefined;
      },
      edge(s, t, truth, cx, T) {
        let u = t, tr = truth; while (u.h === "not") { u = u.a[0]; tr = !tr; } const x = s.x, k = canon(u.key);
        if (/^IterHas\(/.test(k) && list(k.slice(8, -1))) { judge(x, cx, f); if (tr) return { ...s, x: { ...x, it: null } }; return { ...s, x: { ...x, it: null, done: [...new Set([...x.done, u.id ?? u.key])].sort() } }; }
        if (/^call:[\w.]*\.#?\w+\(this,\$0,\$1/.test(k) && tr && !x.it) return { ...s, x: { ...x, prim: 1 } };
        if (enc && (k === "$3" || k === "($3===undefined)")) { const id = k === "$3" ? tr : tr ? true : undefined; if (id !== undefined) { if (x.id !== undefined && x.id !== id) return null; return { ...s, x: { ...x, id } }; } }
        if (!x.it) return undefined; const E = x.it.E, set = (n) => { for (const q of Object.keys(n)) if (x.it[q] !== undefined && x.it[q] !== n[q]) return null; return { ...s, x: { ...x, it: { ...x.it, ...n } } }; };
        if (tr && k.startsWith("isnull(") && k.endsWith(".flagField])")) { const m = /(call:analyzeOptionalParam\(.*\.flagField)\]\)$/.exec(k); if (m) return { ...s, x: { ...x, it: { ...x.it, nl: m[1] } } }; }
        if (k === `(${E}[1]==="#")` || k === `("#"===${E}[1])`) return set({ hash: tr });
        if (k === `call:isOptionalParam(${E}[1])`) return set({ opt: tr });
        if (/^\(\$\d(\w|\.)*\[/.test(k) && k.endsWith(`[${E}[0]]===undefined)`) || k.startsWith("isnull(") && k.endsWith(`[${E}[0]])`) && /^isnull\(\$\d/.test(k)) return k.startsWith("isnull") ? (tr ? undefined : set({ und: false })) : set({ und: tr });
        if (/^\$\d(\w|\.)*\[/.test(k) && k.endsWith(`[${E}[0]]`)) return tr ? set({ und: false }) : undefined;
        if (k.includes(`(1<<call:analyzeOptionalParam(${E}[1]`)) { const amp = u.h === "bin" && u.n === "&" ? u : (u.a ?? []).find((y) => y.h === "bin" && y.n === "&"); const one = amp?.a.find((y) => canon(y.key).endsWith(".bitIndex)")), word = amp?.a.find((y) => y !== one); if (!one || !word) return undefined; const A = canon(one.key).slice(4, -".bitIndex)".length); if (word.h === "const" && Number(word.n) === 0) { const z = u.h === "bin" && u.n === "===" ? u.a.find((y) => y.h === "const") : null; if (z ? Number(z.n) === 0 ? !tr : tr : tr) return null; } else if ( !canon(word.key).endsWith(`[${A}.flagField]`)) return set({ word: "no" }); }
        if (u.h === "bin" && u.n === "===" && k.includes(`(1<<call:analyzeOptionalParam(${E}[1]`) && k.includes(".bitIndex)&")) { const z = u.a.find((y) => y.h === "const"); if (z && Number(z.n) === 0) return set({ bit: !tr }); if (z) return undefined; return set({ bit: tr }); }
        if (u.h === "bin" && u.n === "&" && k.includes(`(1<<call:analyzeOptionalParam(${E}[1]`)) return set({ bit: tr });
        return undefined;
      },
      onRet(s, v, cx) { if (s.x.it) recs.push({ ...s.x.it, early: true, at: v.ast ?? f, path: describePath(p, cx.path()) }); fin.ret.push({ ...s.x, at: v.ast ?? f, path: describePath(p, cx.path()) }); },
    });
    const loopsOf = new Map(); for (const r of recs) { let e = loopsOf.get(r.loop); if (!e) loopsOf.set(r.loop, e = []); e.push(r); }
    const kinds = [...loopsOf.values()].map((l) => ({ l, flag: enc && l.some((r) => r.acts.includes("flag") || r.acts.includes("wrong flag")), body: l.some((r) => r.acts.some((a) => /field|word|type|value|other/.test(a))) }));
    const say = (ok, r, k, msg) => ctx.ob(R.field, ok, { key: `${L}|${k}`, at: p.loc(r?.at ?? f), message: `${L} ${msg}`, path: ok ? undefined : r?.path });
    const fl = kinds.filter((k) => k.flag), bd = kinds.filter((k) => k.body);
    if (enc) say(fl.length > 0, null, "flags", "never sets a flag for a field that is present");
    if (enc) say(!!fin.word, null, "word|0", "writes no collected flags where the flags stand");
    say(bd.length > 0, null, "body", "does not go through the fields of an object");
    for (const k of fl) for (const r of k.l) {
      const set = r.acts.includes("flag");
      say(!r.acts.includes("wrong flag"), r, "flag|wrong", "sets something else than the bit of the field");
      if (r.hash !== true && r.opt !== false && r.und !== true) say(set || r.acts.includes("wrong flag"), r, "flag|missing", "does not set the flag of a field that may be present");
      if (set) say(r.und === false, r, "flag|absent", "sets the flag of a field that may be absent");
      say(!r.early, r, "flag|early", "stops before it has looked at every field");
    }
    if (!enc) say(bd.some((k) => k.l.some((r) => r.opt === true && r.acts.includes("field"))), null, "optional", "never reads a field that may be absent");
    for (const k of bd) for (const r of k.l) {
      say(!r.early, r, "early", "stops before the last field"); if (r.early) continue;
      const word = r.acts.filter((a) => a === "word").length, field = r.acts.filter((a) => a === "field").length, other = r.acts.find((a) => !/^(word|field|flag)$/.test(a));
      if (other) { say(false, r, "with|" + other, other === "type" ? "does not write a field by its type without the condition" : other === "value" ? "does not write the value of the field" : other === "wrong word" ? "does not write the flags it has collected" : "does not put the field where it belongs"); continue; }
      if (r.hash === true) { say(word === 1 && field === 0, r, "word", `does not ${enc ? "write" : "read"} the flags where they stand`); continue; }
      say(word === 0, r, "word|extra", `${enc ? "writes" : "reads"} flags where there are none`);
      if (field > 1) { say(false, r, "twice", `${enc ? "writes" : "reads"} a field twice`); continue; }
      if (field === 0) say(r.opt === true && (enc ? r.und === true && r.bit !== true : r.bit === false), r, "skip", `skips a field ${enc ? "that may be present or whose flag may be set" : "whose flag may be set, or that is not optional"}`);
      else say(enc ? !(r.opt === true && r.und === true) : r.opt !== true || r.bit === true, r, "extra", enc ? "writes a field that is absent" : "reads a field although its flag may not be set");
    }
    if (enc) for (const r of fin.ret) { if (r.prim) continue; say(r.done.length >= 2 || kinds.length === 1 && r.done.length >= 1, r, "all", "ends without having gone through the fields"); say(r.id === false ? r.idw === 0 : r.idw === 1 && !r.late, r, "id", r.id === false ? "writes an identifier where a bare object stands" : "does not begin an object with its identifier"); }
  }
  shapes(ctx, p, W, Rd, wo, ro, ms, reach, callsOf, VECTOR);
}
const esc = (k) => k.replace(/[.*+?^${}()|[\]\\]/g, "\\$&");
/** vectors, and where an identifier stands before an object */
function shapes(ctx, p, W, Rd, wo, ro, ms, reach, callsOf, VECTOR) {
  const LW = label(p, W), LR = label(p, Rd);
  const vec = (c) => ms(c).filter((m) => /getVectorItemType/.test(m.body.getText()) && /(read|write)Int32/.test(m.body.getText()));
  const say = (ok, L, k, at, msg, cx) => ctx.ob(R.field, !!ok, { key: `${L}|${k}`, at: p.loc(at), message: `${L} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  for (const enc of [true, false]) {
    const c = enc ? W : Rd, L = enc ? LW : LR, o = enc ? wo : ro, f = vec(c).find((m) => m !== o && loopsIn(p, m)); ctx.need(f, `the method that ${enc ? "writes" : "reads"} a vector`); if (!f) continue;
    let rets = 0;
    track(ctx, f, { policy: { never: (nm, fn) => codec(nm) || fn === o, inline: (nm, fn) => ms(c).includes(fn) && !reach(c, fn, o) && fn !== o && !codec(nm) }, keep: () => false, maxStates: 3000, init: { out: [], bare: undefined, items: 0 },
      inst(s, v, cx, T) {
        const x = s.x;
        if (v.op === "Call" && enc && v.method === "writeInt32") { const a = bare(T(v.callArgs[0]).key), u = v.callArgs[1] ? T(v.callArgs[1]).n === false : false; return { ...s, x: { ...x, out: [...x.out, a === VECTOR ? "id" + (u ? "" : "?") : a === "$1.length" && !u ? "count" : "?" + a] } }; }
        if (v.op === "Call" && !enc && v.method === "readInt32") { const u = v.callArgs[0] ? T(v.callArgs[0]).n === false : false; return { ...s, x: { ...x, out: [...x.out, u ? "id" : "count"], ["k" + (u ? "i" : "c")]: T(v).key } }; }
        if (v.op === "Call" && v.targetFn && ms(c).includes(v.targetFn) && (v.targetFn === o || reach(c, v.targetFn, o))) { const a = bare(T(v.callArgs[0]).key); const okT = /^call:getVectorItemType\(\$0\)\.type$/.test(a); say(okT, L, "vector|type", v.ast, "does not treat the items of a vector by their type", cx); if (enc) say(/^IterElem\(\$1\)$/.test(bare(T(v.callArgs[1]).key)) || /^\$1\[/.test(bare(T(v.callArgs[1]).key)), L, "vector|item", v.ast, "does not write the items of a vector", cx); return { ...s, x: { ...x, items: 1, before: x.out.includes("count") } }; }
        if (!enc && v.op === "SetElem") { const i = T(v.args[1]); const iv = resolve(v.args[1]); const ph = iv.op === "Phi" ? iv : null; void i; if (ph) { const st = ph.args.map((q) => resolve(q)); const zero = st.some((q) => q.op === "Const" && q.value === 0); say(zero, L, "vector|first", v.ast, "does not begin with the first item of a vector", cx); } return { ...s, x: { ...x, stored: 1 } }; }
        if (!enc && v.op === "Call" && v.method === "push" && /Array\.push/.test(v.name ?? "") && !/#path/.test(T(v.recv).key)) return { ...s, x: { ...x, stored: 1 } };
        return undefined;
      },
      edge(s, t, truth) {
        let u = t, tr = truth; while (u.h === "not") { u = u.a[0]; tr = !tr; } const x = s.x, k = bare(u.key);
        if (/^call:getVectorItemType\(\$0\)\.isBare$/.test(k)) { if (x.bare !== undefined && x.bare !== tr) return null; return { ...s, x: { ...x, bare: tr } }; }
        if (/^call:getVectorItemType\(\$0\)$/.test(k)) return { ...s, x: { ...x, is: tr } };
        if (!enc && u.h === "bin" && u.n === "===" && k.includes(VECTOR) && x.ki && u.key.includes(x.ki)) return { ...s, x: { ...x, checked: tr } };
        if (!enc && u.h === "bin" && u.n === "<" && x.kc && u.a[1].key === x.kc) return { ...s, x: { ...x, more: tr } };
        return undefined;
      },
      onRet(s, v, cx, T) {
        const x = s.x; if (x.is === false) { say(!x.out.length, L, "vector|not", v.ast ?? f, "treats as a vector what is none", cx); return; } rets++;
        const want = x.bare ? "count" : "id,count"; say(x.out.join() === want, L, "vector|header" + (x.bare ? "|bare" : ""), v.ast ?? f, `does not ${enc ? "write" : "read"} the header of a ${x.bare ? "bare" : "boxed"} vector (${x.out.join(", ") || "nothing"})`, cx);
        say(x.bare !== undefined, L, "vector|bare", v.ast ?? f, "does not tell bare vectors from boxed ones", cx);
        if (!enc) { if (!x.bare) say(x.checked === true, L, "vector|id", v.ast ?? f, "takes anything for a vector", cx); say(x.more === false, L, "vector|count", v.ast ?? f, "does not read as many items as there are", cx); if (x.items) say(x.stored, L, "vector|stored", v.ast ?? f, "drops the items it has read", cx); }
        if (x.items) say(x.before, L, "vector|order", v.ast ?? f, "treats the items before the header", cx);
      } });
    say(rets > 0, L, "vector|rets", f, "has no way to a vector");
  }
  // the encoder leaves the identifier out exactly for fields whose type is a constructor
  for (const m of ms(W)) { if (m === wo) continue; p.walk(m.body, (x) => { if (!ts.isCallExpression(x) || p.resolveCallee(x)?.fn !== wo) return; const a = x.arguments; if (a.length < 4) return void say(!m.name.getText().match(/Field/i), LW, "bare|" + m.name.getText(), x, "writes an identifier before every object"); }); }
  let wrote = 0;
  for (const m of ms(W)) { if (m === wo || !callsOf(m).has(wo)) continue; track(ctx, m, { policy: { never: (nm, fn) => fn === wo || codec(nm) }, keep: () => false, edge: () => undefined, inst(s, v, cx, T) { if (v.op === "Call" && v.targetFn === wo && v.callArgs[3]) { wrote++; const k = bare(T(v.callArgs[3]).key), ty = bare(T(v.callArgs[0]).key); say(new RegExp(`^\\((\\$\\d\\.definitions\\[${esc(ty)}\\]===undefined)\\)$|^not\\(\\$\\d\\.definitions\\[${esc(ty)}\\]\\)$|^isnull\\(\\$\\d\\.definitions\\[${esc(ty)}\\]\\)$`).test(k), LW, "bare", v.ast, "does not leave out the identifier exactly where the type of a field is a constructor", cx); } return undefined; } }); }
  say(wrote > 0, LW, "bare|none", wo, "never writes a bare object");
  // the decoder: a constructor type is read bare, anything else by the identifier that comes, which has to belong to the type
  const deser = (fn) => fn && ms(Rd).includes(fn) && (fn === ro || /desc/.test(fn.parameters.map((q) => q.name.getText()).join()) && reach(Rd, fn, ro) && !reads(p, fn));
  let bares = 0, boxed = 0;
  const done = new Set();
  for (const m of ms(Rd)) {
    if (m === ro || mentions(p, m) || loopsIn(p, m) || !callsOf(m).size || !reach(Rd, m, ro) || done.has(m)) continue; done.add(m);
    if (ts.isPrivateIdentifier(m.name) && ![ro, ...vec(Rd).filter((q) => loopsIn(p, q))].some((q) => callsOf(q).has(m))) continue; // looked at where it is used
    track(ctx, m, { policy: { never: (nm, fn) => codec(nm) || fn === ro, inline: (nm, fn) => ms(Rd).includes(fn) && fn !== ro && !mentions(p, fn) && !loopsIn(p, fn) && !codec(nm) }, keep: () => false, maxStates: 3000, init: { eq: [], id: null },
      inst(s, v, cx, T) {
        const x = s.x; if (v.op !== "Call") return undefined;
        if (v.method === "readInt32") return { ...s, x: { ...x, id: bare(T(v).key), raw: T(v).key } };
        if (v.targetFn === ro) {
          const name = bare(T(v.callArgs[0]).key), desc = bare(T(v.callArgs[1]).key);
          say(new RegExp(`definitions\\[${esc(name)}\\]$`).test(desc) || desc === "$1" && name === "$0", LR, "definition", v.ast, "does not read an object by the definition of its name", cx);
          if (x.id === null) { if (!/^\$1$/.test(desc)) { bares++; say(x.eq.includes("+" + desc) || x.eq.includes("-(" + desc + "===undefined)") || x.eq.some((q) => /^\+\(/.test(q) && / ?in ?/.test(q) && q === `+(${name}in${desc.slice(0, -name.length - 2)})`), LR, "bare", v.ast, "reads an object without an identifier although its type need not be a constructor", cx); } }
          else { boxed++; const byId = `identifierToName[${x.id}]`; const enumOk = name.endsWith(byId) ? x.eq.some((q) => /^\+/.test(q) && q.includes(byId + "]") && q.includes("[2]") && q.includes("===")) || x.eq.some((q) => /^\+\((\$0|call:getOptionalParamInnerType\(\$0\))==="X"\)$/.test(q)) : false; const idOk = x.eq.some((q) => /^\+/.test(q) && q.includes("[0]") && q.includes(x.id) && q.includes("===")) || name.endsWith(byId); say(idOk, LR, "boxed|id", v.ast, "reads an object although the identifier that came is another one", cx); say(enumOk || !name.endsWith(byId), LR, "boxed|type", v.ast, "takes an object of any type where one of a certain type stands", cx); }
        }
        return undefined;
      },
      edge(s, t, truth) { let u = t, tr = truth; while (u.h === "not") { u = u.a[0]; tr = !tr; } const q = (tr ? "+" : "-") + bare(u.key), n = (tr ? "-" : "+") + bare(u.key); if (s.x.eq.includes(n) && !/call:/.test(n)) return null; if (!/definitions|\$0|identifierToName/.test(q) || s.x.eq.includes(q)) return undefined; return { ...s, x: { ...s.x, eq: [...s.x.eq, q].sort() } }; },
      onRet(s, v, cx, T) { const t = T(v); if (t.h === "const" && t.n === undefined && !ts.isPrivateIdentifier(m.name)) say(false, LR, "nothing", v.ast ?? m, "returns nothing for a type it does not know", cx); },
    });
  }
  say(bares > 0, LR, "bare|none", ro, "never reads a bare object"); say(boxed > 0, LR, "boxed|none", ro, "never reads an object by its identifier");
}
const loopsIn = (p, m) => { let n = 0; p.walk(m.body, (x) => { if (ts.isForOfStatement(x) || ts.isForStatement(x) || ts.isWhileStatement(x) || ts.isCallExpression(x) && /\.(map|forEach|reduce)$/.test(x.expression.getText())) n++; }); return n > 0; };
const reads = (p, m) => { let n = 0; p.walk(m.body, (x) => { if (ts.isCallExpression(x) && /\.readInt32$/.test(x.expression.getText())) n++; }); return n > 0; };
