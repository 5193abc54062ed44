"use strict";
// Recognisers for cryptographic data flow: key derivation, byte-string comparison, writer and reader contents.
const { resolve } = require("./ir.js");
const { Terms, mk, C, slice, cat } = require("./terms.js");

const sha = (t) => mk("sha256", [t]);
/** MTProto 2.0: message key and AES key/IV of a plaintext under an authorization key, for offset x */
function messageKey(A, P, x) { return slice(sha(cat([slice(A, C(88 + x), C(120 + x)), P])), C(8), C(24)); }
function aes(A, m, x) {
  const a = sha(cat([m, slice(A, C(x), C(36 + x))])), b = sha(cat([slice(A, C(40 + x), C(76 + x)), m]));
  return { key: cat([slice(a, C(0), C(8)), slice(b, C(8), C(24)), slice(a, C(24), C(32))]), iv: cat([slice(b, C(0), C(8)), slice(a, C(8), C(24)), slice(b, C(24), C(32))]) };
}
/** all sub-terms of t that satisfy f */
function subterms(t, f, out = [], seen = new Set()) {
  if (seen.has(t.key)) return out; seen.add(t.key);
  if (f(t)) out.push(t);
  for (const a of t.a) subterms(a, f, out, seen);
  return out;
}
/** the key material A such that `key` and `iv` follow the derivation from A and some message key m at offset x; null otherwise */
function matchKdf(key, iv, x) {
  const cands = subterms(key, (t) => t.h === "slice" && t.a.length === 3 && t.a[1].h === "const");
  for (const s of cands) {
    if (s.a[1].n !== x && s.a[1].n !== 40 + x) continue;
    const A = s.a[0];
    // candidates for m: the arguments of the hash next to the slice
    for (const c of subterms(key, (t) => t.h === "sha256" && t.a[0].h === "cat" && t.a[0].a.length === 2)) for (const m of c.a[0].a) {
      const e = aes(A, m, x);
      if (e.key.key === key.key && e.iv.key === iv.key) return { A, m };
    }
  }
  // x = 0: slice(A,0,36) may be normalised differently; try every sub-term as A
  for (const A of subterms(key, () => true)) for (const c of subterms(key, (t) => t.h === "sha256" && t.a[0].h === "cat" && t.a[0].a.length === 2)) for (const m of c.a[0].a) { const e = aes(A, m, x); if (e.key.key === key.key && e.iv.key === iv.key) return { A, m }; }
  return null;
}
/** if the truth of condition term/value `cond` decides the equality of two byte strings or numbers: { a, b, eq: truth value meaning equal } */
function equalityTest(terms, t, valueOfTerm) {
  let neg = false;
  while (t.h === "not") { neg = !neg; t = t.a[0]; }
  if (t.h === "eqbytes") return { a: t.a[0], b: t.a[1], eq: !neg };
  if (t.h === "call" && t.args && t.args.length >= 2 && /equal/i.test(t.name)) return { a: t.args[0], b: t.args[1], eq: !neg };
  if (t.h === "bin" && t.n === "===") {
    const [a, b] = t.a;
    if (b.h === "const" && (b.n === 0 || b.n === false) && a.h === "val") { const acc = accumulator(terms, valueOfTerm(a)); if (acc) return { ...acc, eq: !neg }; }
    if (a.h === "call" && b.h === "const" && b.n === 0 && a.args && /compare/i.test(a.name)) return { a: a.args[0], b: a.args[1], eq: !neg };
    return { a, b, eq: !neg };
  }
  if (t.h === "val") {
    const v = valueOfTerm(t); const acc = v && accumulator(terms, v); if (acc) return { ...acc, eq: neg };
    const q = v && flagLoop(terms, v); if (q) return { ...q, eq: neg ? !q.eqWhen : q.eqWhen };
  }
  return null;
}
/** d = 0; for (i = 0; i < n; i++) d |= a[i] ^ b[i]  — the value of d after the loop is zero iff the strings are equal */
function accumulator(terms, v) {
  if (!v) return null; v = resolve(v);
  if (v.op !== "Phi") return null;
  const xs = v.args.map(resolve); const z = xs.find((x) => x.op === "Const" && x.value === 0), u = xs.find((x) => x.op === "Bin" && (x.operator === "|" || x.operator === "+"));
  if (!z || !u) return null;
  const parts = u.args.map(resolve); const other = parts.find((x) => x !== v), self = parts.find((x) => x === v);
  if (!self || !other) return null;
  let el;
  if (other.op === "Bin" && other.operator === "^") el = other.args.map(resolve);
  else return null;
  return pairElems(terms, v, el);
}
function pairElems(terms, v, el) {
  if (!el.every((x) => x.op === "GetElem" || x.op === "IterElem")) return null;
  const seqs = el.map((x) => terms.of(x.args[0]));
  const ge = el.find((x) => x.op === "GetElem"); if (!ge) return null;
  const idx = resolve(ge.args[1]);
  // the whole length is compared: the loop that holds v runs while index < length of one of the strings or a constant of 16 or more
  const head = v.block; if (!head?.term) return null;
  if (el.some((x) => x.op === "IterElem")) return { a: seqs[0], b: seqs[1] };
  if (idx.op === "IterIndex") return { a: seqs[0], b: seqs[1] };
  if (idx.op !== "Phi" || head.term.kind !== "branch") return null;
  const from = idx.args.map(resolve).find((x) => x.op === "Const"); const step = idx.args.map(resolve).find((x) => x.op === "Bin" && x.operator === "+");
  if (!from || from.value !== 0 || !step || !step.args.map(resolve).some((x) => x.op === "Const" && x.value === 1)) return null;
  const c = resolve(head.term.cond); if (c.op !== "Bin") return null;
  const bound = c.operator === "<" || c.operator === "!==" ? c.args[1] : c.operator === ">" ? c.args[0] : null; if (!bound) return null;
  const bt = terms.of(bound);
  const ok = (bt.h === "const" && bt.n >= 16) || (bt.h === "prop" && bt.n === "length" && seqs.some((s) => s.key === bt.a[0].key)) || lenOf(seqs[0]) === bt.n || lenOf(seqs[1]) === bt.n;
  return ok ? { a: seqs[0], b: seqs[1] } : null;
}
function lenOf(t) { return t.h === "slice" && t.a.length === 3 && t.a[1].h === "const" && t.a[2].h === "const" ? t.a[2].n - t.a[1].n : undefined; }
/** x.every((b, i) => b === y[i]) lowered as a loop; the phi carries quant */
function flagLoop(terms, v) {
  v = resolve(v);
  if (v.op !== "Phi" || !v.quant) return null;
  const { method, src, fn } = v.quant; const { ts } = require("./project.js");
  let b = fn.body; if (ts.isBlock(b)) { const r = b.statements[0]; b = r && ts.isReturnStatement(r) ? r.expression : undefined; }
  while (b && ts.isParenthesizedExpression(b)) b = b.expression;
  if (!b || !ts.isBinaryExpression(b)) return null;
  const op = b.operatorToken.kind; const isEq = op === ts.SyntaxKind.EqualsEqualsEqualsToken, isNe = op === ts.SyntaxKind.ExclamationEqualsEqualsToken;
  if (!(method === "every" && isEq || method === "some" && isNe)) return null;
  const el = [b.left, b.right].find((x) => ts.isElementAccessExpression(x)); if (!el) return null;
  return { a: terms.of(src), b: mk("ast", [], el.expression.getText()), ast: el.expression, eqWhen: method === "every" };
}

const WRITER = /#TLWriter\.(write\w*)$/;
const READER = /#TLReader\.(read\w*|unread\w*)$/;
const WIDTH = { readInt24: 3, readInt32: 4, readInt64: 8, readInt128: 16, readInt256: 32, readDouble: 8 };
/** id of the allocation a term denotes */
function allocId(t) { const m = /^new(?::\w*)?\(.*\)%(\d+);$/s.exec(t.key); return m ? +m[1] : undefined; }

/** state component that records what was written to each writer: { w: { id: [[method, term key]] } } */
function trackWriter(s, v, cx, store) {
  if (v.op === "Call" && v.recv) {
    const m = WRITER.exec(v.name ?? "");
    if (m) {
      const id = allocId(cx.term(v.recv)); if (id === undefined) return s;
      const ts_ = v.callArgs.map((a) => cx.term(a));
      for (const t of ts_) store.set(t.key, t);
      return add(s, id, m[1] + "|" + ts_.map((t) => t.key).join("|"));
    }
  }
  if (v.op === "Call" && !v.recv && v.targetFn) {
    // a writer handed to a function that was not inlined
    for (const a of v.callArgs) { const t = cx.term(a); const id = allocId(t); if (id !== undefined && s.w?.[id]) return add(s, id, "call|" + v.name); }
  }
  return s;
}
function add(s, id, entry) {
  const l = [...(s.w?.[id] ?? []), entry];
  for (let k = 1; k <= 8 && 2 * k <= l.length; k++) { let same = true; for (let i = 0; i < k; i++) if (l[l.length - 1 - i] !== l[l.length - 1 - i - k]) same = false; if (same) { l.length -= k; break; } }
  if (l.length > 60) return s;
  return { ...s, w: { ...(s.w ?? {}), [id]: l } };
}
/** position of each reader: { r: { id: offset | "?" } }; records the byte range each read covers in `ranges` (value id -> {base, from, to}) */
function trackReader(s, v, cx, ranges) {
  if (v.op === "Call" && v.recv) {
    const m = READER.exec(v.name ?? ""); if (!m) return s;
    const t = cx.term(v.recv); const id = allocId(t); if (id === undefined) return s;
    const off = s.r?.[id] ?? 0;
    let w = WIDTH[m[1]];
    if (m[1] === "readView" || m[1] === "read") { const a = cx.term(v.callArgs[0]); w = a.h === "const" ? a.n : undefined; }
    if (m[1] === "unreadInt32") w = -4;
    if (m[1] === "unread") { const a = cx.term(v.callArgs[0]); w = a.h === "const" ? -a.n : undefined; }
    const next = off === "?" || w === undefined || off + w > 256 ? "?" : off + w;
    const rec = { base: t, id, from: off, to: next, method: m[1] };
    const old = ranges.get(v.id); if (!old) ranges.set(v.id, rec); else if (old.from !== off) ranges.set(v.id, { ...rec, from: "?", to: "?" });
    return { ...s, r: { ...(s.r ?? {}), [id]: next } };
  }
  return s;
}
/** values computed from the given ones (forward slice over the SSA graph); `stop(v)` cuts */
function forward(unit, seeds, stop) {
  const users = new Map();
  for (const b of unit.blocks) for (const v of [...b.phis, ...b.insts]) { const ops = [...v.args, ...(v.props?.map((q) => q.value) ?? [])]; for (const a of ops) { const x = resolve(a); let l = users.get(x); if (!l) users.set(x, l = []); l.push(v); } }
  const out = new Set(seeds); const work = [...seeds];
  while (work.length) { const x = work.pop(); for (const u of users.get(x) ?? []) { const r = resolve(u); if (out.has(r) || stop?.(u, x)) continue; out.add(r); if (r !== u) out.add(u); work.push(r); } }
  return out;
}
module.exports = { messageKey, aes, matchKdf, subterms, equalityTest, accumulator, trackWriter, trackReader, allocId, forward, lenOf };
