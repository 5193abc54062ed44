"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { track } = require("../lib/facts.js");
const { schemas } = require("../lib/schema.js");
const { allFunctions, enclosing, fnLabel } = require("../lib/util.js");
const R = {
  source: "a random field is filled from the secure source with its full width",
  fresh: "every message gets a random identifier of its own",
  fill: "secure random bytes fill the whole buffer they are meant for",
  helper: "the random helpers draw what they return in that very call",
  exponent: "an exponent is drawn with its full width",
  field: "a field that holds a random number is only ever renewed from the secure source",
};
const RANDOM = { random_id: 1, new_nonce: 1, nonce: 1, exchange_id: 1, ssrc: 0, client_nonce: 1, random_bytes: 1 };
const BITS = { long: 64, int: 32, int128: 128, int256: 256 };
module.exports = {
  technique: "interprocedural data-flow on the typed syntax tree (definition chains of every random field) and path-sensitive dataflow over the random helpers",
  explanation: "Every constructor of the wire schemas that has a random identifier, nonce or exchange identifier is looked up, and every object literal of the library that builds one is found by its discriminator. The value of that field is followed back through variables, parameters and callbacks to where it comes from: a draw from the secure source at least as wide as the schema type, or the same field of an object that is being repeated or answered; never a constant, a clock, arithmetic on a draw, a module variable or a memo. For messages the draw must lie in the same round of every loop and callback as the object that takes it, and no two objects that can both be built take the same draw. Exponents handed to the modular exponentiation and numbers kept in fields are followed in the same way, byte buffers handed to the secure source must be the buffers that are used, and 32-byte keys and IVs are 32 bytes long. The helpers on top of the platform's generator are followed path by path: what they return was filled in that call, whole.",
  rules: Object.values(R),
  assumptions: ["crypto.getRandomValues of the platform is secure", "identifiers of drafts are chosen by the application", "padding of packets is P04's and P18's, the exponents' group tests are P07's, P16's and P20's"],
  run(ctx) {
    const p = ctx.p; const draws = helpers(ctx, p);
    const types = new Map(); for (const s of schemas(p)) for (const e of s.entries) for (const [f, t] of e.fields) if (f in RANDOM) types.set(e.name + "." + f, t);
    const literals = []; const memo = new Map();
    for (const fn of allFunctions(p)) if (!/^tl\//.test(p.rel(fn.getSourceFile()))) p.walk(fn.body, (n) => {
      if (ts.isObjectLiteralExpression(n) && enclosing(n) === fn) {
        const d = n.properties.find((q) => ts.isPropertyAssignment(q) && q.name.getText() === "_"); const ds = d ? names(d.initializer) : [];
        for (const q of n.properties) { const nm = q.name?.getText(); if (!(nm in RANDOM) || !(ts.isPropertyAssignment(q) || ts.isShorthandPropertyAssignment(q))) continue; const t = ds.map((x) => types.get(x)).find(Boolean) ?? ds.map((x) => types.get(x + "." + nm)).find(Boolean); if (d ? t : /^(random_id)$/.test(nm)) literals.push({ n, q, nm, t: t ?? "long", fn, kind: ds[0] ?? "?" }); }
      }
    });
    function names(e) { if (ts.isConditionalExpression(e)) return [...names(e.whenTrue), ...names(e.whenFalse)]; const v = p.constOf(e); return typeof v === "string" ? [v] : []; }
    const uses = new Map();
    for (const { n, q, nm, t, fn, kind } of literals) {
      const key = fnLabel(p, fn) + "|" + kind + "." + nm; const base = t.replace(/^flags\d*\.\d+\?/, ""); const vec = /^[Vv]ector<(\w+)>$/.exec(base); const want = BITS[vec ? vec[1] : base] ?? 32;
      const e = ts.isShorthandPropertyAssignment(q) ? q.name : q.initializer; const ls = leaves(e, { q, nm, vec: !!vec });
      for (const l of ls) {
        const ok = l.kind === "draw" ? l.bits >= want : l.kind === "same" || l.kind === "caller";
        ctx.ob(R.source, ok, { key: key + "|" + l.kind, at: p.loc(l.at ?? q), message: l.kind === "draw" ? `${key}: the ${base} field is filled from a draw of only ${l.bits} bits` : `${key}: the field is filled from ${l.what}, not from the secure random source` });
        if (l.kind === "draw" && nm === "random_id") {
          const rs = rounds(n), rd = rounds(l.at); const ok = (vec ? l.inCallback : rs.every((r) => rd.includes(r))) && !l.shared; ctx.ob(R.fresh, ok, { key: key + "|round", at: p.loc(l.at), message: `${key}: several messages take the identifier drawn at ${p.loc(l.at)}` });
          if (!vec) { const us = uses.get(l.at) ?? []; us.push({ n, key }); uses.set(l.at, us); }
        }
      }
    }
    for (const [d, us] of uses) for (let i = 0; i < us.length; i++) for (let j = i + 1; j < us.length; j++) ctx.ob(R.fresh, exclusive(us[i].n, us[j].n) || nested(us[i].n, us[j].n), { key: us[i].key + "|" + us[j].key, at: p.loc(us[j].n), message: `${us[j].key}: takes the same identifier, drawn at ${p.loc(d)}, as the object at ${p.loc(us[i].n)}, which can be sent too` });
    // ---- exponents
    for (const fn of allFunctions(p)) p.walk(fn.body, (n) => {
      if (!ts.isCallExpression(n) || enclosing(n) !== fn || !/#modExp$/.test(p.resolveCallee(n).name ?? "")) return;
      for (const l of leaves(n.arguments[1], { nm: "exponent" })) if (l.kind === "draw") ctx.ob(R.exponent, l.bits >= 2048 && l.unsigned, { key: fnLabel(p, fn) + "|exponent", at: p.loc(l.at), message: `${fnLabel(p, fn)}: the exponent has ${l.bits} bits${l.unsigned ? "" : " and may be negative"}` });
    });
    // ---- fields
    for (const sf of p.sourceFiles) if (p.isRepo(sf)) p.walk(sf, (c) => {
      if (!ts.isPropertyDeclaration(c) || !c.initializer || !ts.isCallExpression(c.initializer)) return; const d = drawOf(c.initializer) ?? leaves(c.initializer, {}).find((l) => l.kind === "draw"); if (!d) return; const nm = c.name.getText();
      ctx.ob(R.field, d.bits >= 64, { key: p.declName(c) + "|init", at: p.loc(c), message: `${p.declName(c)} has only ${d.bits} bits` });
      p.walk(c.parent, (m) => { if (ts.isBinaryExpression(m) && m.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && m.operatorToken.kind <= ts.SyntaxKind.LastAssignment && m.left.getText() === "this." + nm) for (const l of leaves(m.right, { nm })) ctx.ob(R.field, l.kind === "draw" && l.bits >= d.bits || l.kind === "caller", { key: p.declName(c) + "|assign", at: p.loc(m), message: `${p.declName(c)} is renewed from ${l.what ?? "a narrower draw"}` }); });
    });
    // ---- buffers
    for (const fn of allFunctions(p)) p.walk(fn.body, (n) => {
      if (!ts.isCallExpression(n) || enclosing(n) !== fn) return; const nm = p.resolveCallee(n).name ?? ""; if (!/Crypto\.getRandomValues$/.test(nm)) return; const a = n.arguments[0], lab = fnLabel(p, fn);
      const used = !ts.isExpressionStatement(n.parent); let target = a; if (ts.isIdentifier(a)) { const d = p.symbolOf(a)?.valueDeclaration; if (d && ts.isVariableDeclaration(d) && d.initializer) target = d.initializer; }
      const arr = ts.isNewExpression(a) && /Array$/.test(a.expression.getText()), sub = ts.isCallExpression(target) && /\.subarray$/.test(target.expression.getText()), copy = ts.isCallExpression(target) && /\.slice$/.test(target.expression.getText());
      ctx.ob(R.fill, used || !arr && !copy, { key: lab + "|lost", at: p.loc(n), message: `${lab}: the random bytes are written to a buffer that nobody uses` });
      void sub; const decl = used && ts.isVariableDeclaration(n.parent) ? n.parent.name.getText() : ""; if (arr && /^(iv|key|\w*Key|\w*Iv)$/.test(decl)) { const len = p.constOf(a.arguments?.[0]); ctx.ob(R.fill, len === 32, { key: lab + "|" + decl, at: p.loc(n), message: `${lab}: ${decl} has ${len} random bytes instead of 32` }); ctx.ob(R.fill, !rewritten(n.parent), { key: lab + "|rw|" + decl, at: p.loc(n), message: `${lab}: ${decl} is overwritten after it was drawn` }); }
    });
    // keys and IVs of files are drawn
    for (const fn of allFunctions(p)) p.walk(fn.body, (n) => {
      if (!ts.isObjectLiteralExpression(n) || enclosing(n) !== fn) return; const k = prop(n, "key"), v = prop(n, "iv"); if (!k || !v || !bytes(k) || !bytes(v)) return;
      for (const [nm, e] of [["key", k], ["iv", v]]) for (const l of leaves(e, { nm })) ctx.ob(R.source, l.kind === "draw" ? l.bits === 256 : l.kind !== "other" || ts.isCallExpression(l.at), { key: fnLabel(p, fn) + "|file " + nm, at: p.loc(e), message: `${fnLabel(p, fn)}: the ${nm} of an encrypted file comes from ${l.what ?? l.bits + " random bits"}` });
    });
    for (const fn of allFunctions(p)) p.walk(fn.body, (n) => {
      if (!ts.isCallExpression(n) || enclosing(n) !== fn || !/#ige256Encrypt$/.test(p.resolveCallee(n).name ?? "")) return;
      for (const l of leaves(n.arguments[1], { nm: "key" })) ctx.ob(R.source, !(l.kind === "other" && l.at && (ts.isNewExpression(l.at) || ts.isArrayLiteralExpression(l.at))) && !(l.kind === "draw" && l.bits !== 256), { key: fnLabel(p, fn) + "|cipher key", at: p.loc(l.at ?? n), message: `${fnLabel(p, fn)} encrypts with a key that ${l.kind === "draw" ? "has " + l.bits + " random bits" : "is not random"}` });
    });
    for (const [k, m] of [[R.source, 30], [R.fresh, 20], [R.fill, 8], [R.helper, 3], [R.exponent, 5], [R.field, 1]]) ctx.floor(k, m);

    function prop(n, k) { const q = n.properties.find((x) => x.name?.getText() === k); return q && (ts.isShorthandPropertyAssignment(q) ? q.name : ts.isPropertyAssignment(q) ? q.initializer : null); }
    function bytes(e) { return /Uint8Array/.test(p.checker.typeToString(p.checker.getTypeAtLocation(e))); }
    function rewritten(d) { const s = p.symbolOf(d.name); let hit = false; p.walk(enclosing(d).body, (m) => { if (ts.isCallExpression(m) && ts.isPropertyAccessExpression(m.expression) && /^(fill|set|copyWithin)$/.test(m.expression.name.text) && p.symbolOf(m.expression.expression) === s) hit = true; if (ts.isBinaryExpression(m) && m.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isElementAccessExpression(m.left) && p.symbolOf(m.left.expression) === s) hit = true; }); return hit; }
    /** width of a draw, or null when e is none */
    function drawOf(e) {
      while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isSatisfiesExpression(e)) e = e.expression; if (!ts.isCallExpression(e)) return null;
      const r = p.resolveCallee(e), nm = r.name ?? ""; if (/Crypto\.getRandomValues$/.test(nm)) { const a = e.arguments[0]; const len = ts.isNewExpression(a) ? p.constOf(a.arguments?.[0]) : undefined; return { bits: typeof len === "number" ? 8 * len : 0, unsigned: true }; }
      const w = r.fn && draws.get(r.fn); if (!w) return null; const val = e.arguments.map((a) => p.constOf(a)); let best = null;
      for (const x of w) { if (x.cond !== null && (val[0] === true) !== x.cond) continue; const b = x.bits === "arg" ? 8 * (typeof val[0] === "number" ? val[0] : 0) : x.bits; if (best === null || b < best) best = b; } return best === null ? null : { bits: best, unsigned: w.some((x) => x.bits === "arg") ? val[1] === false : false };
    }
    function leaves(e, o, d = 0, seen = new Set(), at) {
      while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isSatisfiesExpression(e) || ts.isAwaitExpression(e)) e = e.expression;
      if (d > 12 || seen.has(e)) return []; seen = new Set([...seen, e]); const go = (x, more) => leaves(x, { ...o, ...more }, d + 1, seen);
      const dr = drawOf(e); if (dr) return [{ kind: "draw", ...dr, at: e, inCallback: o.cb, shared: o.shared }];
      if (ts.isConditionalExpression(e)) return [...go(e.whenTrue), ...go(e.whenFalse)];
      if (ts.isBinaryExpression(e) && /^(\?\?|\|\|)$/.test(e.operatorToken.getText())) return [...go(e.left), ...go(e.right)];
      if (ts.isBinaryExpression(e) && /^\?\?=$/.test(e.operatorToken.getText())) return go(e.right, { shared: true });
      if (ts.isPropertyAccessExpression(e)) {
        const d2 = p.symbolOf(e)?.valueDeclaration; if (d2 && ts.isPropertyDeclaration(d2) && e.expression.kind === ts.SyntaxKind.ThisKeyword && d2.initializer && drawOf(d2.initializer)) return [{ kind: "draw", ...drawOf(d2.initializer), at: d2.initializer, shared: true }];
        return [{ kind: "same", what: e.getText() }];
      }
      if (ts.isElementAccessExpression(e)) return [{ kind: "same", what: e.getText() }];
      if (ts.isIdentifier(e)) {
        if (e.text === "undefined") return []; let s = p.symbolOf(e); if (s && ts.isShorthandPropertyAssignment(e.parent)) s = p.checker.getShorthandAssignmentValueSymbol(e.parent) ?? s; const dd = s?.valueDeclaration; if (!dd) return [{ kind: "other", what: e.text, at: e }];
        if (ts.isVariableDeclaration(dd)) { const top = !enclosing(dd); const out = [];
          if (dd.initializer && enclosing(dd) && (ts.isNewExpression(dd.initializer) && /Array$/.test(dd.initializer.expression.getText()) || ts.isArrayLiteralExpression(dd.initializer) && !dd.initializer.elements.length)) {
            const filled = []; p.walk(enclosing(dd).body, (m) => { if (!ts.isCallExpression(m)) return; if (ts.isPropertyAccessExpression(m.expression) && m.expression.name.text === "push" && p.symbolOf(m.expression.expression) === s) filled.push(...m.arguments.flatMap((a) => go(a).map((l) => ({ ...l, inCallback: !!l.at && rounds(m).every((r) => rounds(l.at).includes(r)) })))); if (/Crypto\.getRandomValues$/.test(p.resolveCallee(m).name ?? "") && ts.isIdentifier(m.arguments[0]) && p.symbolOf(m.arguments[0]) === s) { const len = p.constOf(dd.initializer.arguments?.[0]); filled.push({ kind: "draw", bits: typeof len === "number" ? 8 * len : 0, unsigned: true, at: m }); } });
            if (filled.length) return filled;
          } if (dd.initializer) out.push(...go(dd.initializer, top ? { shared: true } : {})); const f = enclosing(dd); if (f) p.walk(f.body, (m) => { if (ts.isBinaryExpression(m) && m.operatorToken.getText() === "=" && ts.isIdentifier(m.left) && p.symbolOf(m.left) === s) out.push(...go(m.right)); }); return out.length ? out : [{ kind: "other", what: e.text, at: e }]; }
        if (ts.isBindingElement(dd)) {
          const pat = dd.parent, vd = pat.parent; let src = ts.isVariableDeclaration(vd) ? vd.initializer : null; while (src && (ts.isAwaitExpression(src) || ts.isParenthesizedExpression(src))) src = src.expression;
          const objs = src && ts.isCallExpression(src) ? (() => { const f = p.resolveCallee(src).fn; return f?.body && p.isRepo(f.getSourceFile()) ? results(f) : []; })() : src ? [src] : [];
          const picked = objs.map((y) => { while (ts.isAsExpression(y) || ts.isParenthesizedExpression(y)) y = y.expression; if (ts.isArrayBindingPattern(pat) && ts.isArrayLiteralExpression(y)) return y.elements[pat.elements.indexOf(dd)]; if (ts.isObjectBindingPattern(pat) && ts.isObjectLiteralExpression(y)) return prop(y, (dd.propertyName ?? dd.name).getText()); return null; });
          if (picked.length && picked.every(Boolean)) return picked.flatMap((y) => go(y));
          return [{ kind: "same", what: e.text }];
        }
        if (ts.isBindingElement(dd)) return [{ kind: "same", what: e.text }];
        if (ts.isParameter(dd)) { const f = dd.parent; const i = f.parameters.indexOf(dd); const sites = callers(f); if (!sites.length) return [{ kind: "caller", what: "its caller" }]; return sites.flatMap((c) => (c.arguments[i] ? go(c.arguments[i]) : dd.initializer ? go(dd.initializer) : [])); }
        return [{ kind: "other", what: e.text, at: e }];
      }
      if (ts.isCallExpression(e)) {
        const r = p.resolveCallee(e); if (/^(BigInt|Number)$/.test(e.expression.getText())) { const q = go(e.arguments[0]); return q.map((l) => (l.kind === "draw" || l.kind === "other" ? l : l)); }
        if (ts.isPropertyAccessExpression(e.expression) && e.expression.name.text === "map" && e.arguments.length) { const f = e.arguments[0]; const out = []; for (const x of results(f)) out.push(...go(x, { cb: true })); return out; }
        if (/(^|[.#])from$/.test(r.name ?? "") && e.arguments[1]) { const out = []; for (const x of results(e.arguments[1])) out.push(...go(x, { cb: true })); return out; }
        if (r.fn?.body && p.isRepo(r.fn.getSourceFile())) { const xs = results(r.fn); if (xs.length) return xs.flatMap((x) => go(x)); }
        return [{ kind: "other", what: e.getText().slice(0, 60), at: e }];
      }
      if (ts.isArrayLiteralExpression(e)) return e.elements.flatMap((x) => go(ts.isSpreadElement(x) ? x.expression : x, { cb: true }));
      return [{ kind: "other", what: e.getText().slice(0, 60), at: e }];
    }
    function results(f) { if (!f || !ts.isFunctionLike(f)) { const g = f && ts.isIdentifier(f) ? p.symbolOf(f)?.valueDeclaration : null; if (g && ts.isFunctionLike(g)) f = g; else return []; } if (!f.body) return []; if (!ts.isBlock(f.body)) return [f.body]; const out = []; p.walk(f.body, (m) => { if (ts.isReturnStatement(m) && m.expression && enclosing(m) === f) out.push(m.expression); }); return out; }
    function callers(f) { if (!memo.size) for (const g of allFunctions(p)) p.walk(g.body, (m) => { if (ts.isCallExpression(m) && enclosing(m) === g) { const t = p.resolveCallee(m).fn; if (t) memo.set(t, [...(memo.get(t) ?? []), m]); } }); const own = memo.get(f) ?? []; return own; }
    /** loops and callbacks around a node, up to the method */
    function rounds(n) { const out = []; for (let q = n.parent; q; q = q.parent) { if (ts.isIterationStatement(q, false) && !retry(q)) out.push(q); if (ts.isArrowFunction(q) || ts.isFunctionExpression(q)) out.push(q); if (ts.isMethodDeclaration(q) || ts.isFunctionDeclaration(q)) break; } return out; }
    function retry() { return false; }
    function nested(a, b) { const inside = (x, y) => { for (let q = x; q; q = q.parent) if (q === y) return true; return false; }; return inside(a, b) || inside(b, a); }
    function exclusive(a, b) {
      const up = (n) => { const o = []; for (let q = n; q; q = q.parent) o.push(q); return o; }; const A = up(a), B = up(b); const c = A.find((q) => B.includes(q)); if (!c) return true; const ca = A[A.indexOf(c) - 1], cb = B[B.indexOf(c) - 1];
      if (ts.isConditionalExpression(c) || ts.isIfStatement(c)) return ca !== c.expression && cb !== c.expression; if (ts.isCaseBlock(c)) return true;
      // one of them leaves the block
      if (ts.isBlock(c) || ts.isCaseClause(c)) { const first = c.statements.indexOf(ca) < c.statements.indexOf(cb) ? ca : cb; const leaf = first === ca ? a : b; for (let q = leaf; q && q !== c; q = q.parent) { if (ts.isReturnStatement(q) || ts.isThrowStatement(q)) return true; if (ts.isBlock(q.parent) && q.parent !== c) { const st = q.parent.statements, last = st[st.length - 1]; if (last && (ts.isReturnStatement(last) || ts.isThrowStatement(last) || ts.isContinueStatement(last))) return true; } } return false; }
      return false;
    }
  },
};
/** functions that return freshly drawn numbers: fn -> [{cond, bits}] */
function helpers(ctx, p) {
  const out = new Map();
  for (const fn of allFunctions(p)) {
    if (!ts.isFunctionDeclaration(fn)) continue; let direct = false; p.walk(fn.body, (n) => { if (ts.isCallExpression(n) && /Crypto\.getRandomValues$/.test(p.resolveCallee(n).name ?? "")) direct = true; }); if (!direct) continue;
    const t = p.checker.getReturnTypeOfSignature(p.checker.getSignatureFromDeclaration(fn)); if (!/^(number|bigint|number \| bigint|bigint \| number)$/.test(p.checker.typeToString(t))) continue;
    const lab = fnLabel(p, fn), ret = [];
    const sizeOf = (key) => { const m = /^@(\w+)$/.exec(key); if (!m) { const rd = /^rand\((.*)\)%\d+;$/.exec(key); if (rd) return rd[1] === "$0" ? "arg" : Number(rd[1]); const z = /^zeros\((.*)\)%\d+;$/.exec(key); return z ? (z[1] === "$0" ? "arg" : Number(z[1])) : null; } let r = null; for (const st of fn.getSourceFile().statements) if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) if (d.name.getText() === m[1] && d.initializer && ts.isNewExpression(d.initializer)) { const a = d.initializer.arguments?.[0]; const c = a && p.constOf(a); if (typeof c === "number") r = c; else if (a && ts.isPropertyAccessExpression(a) && a.name.text === "buffer") r = "@" + a.expression.getText(); } return r; };
    const ob = (ok, key, v, cx, msg) => ctx.ob(R.helper, !!ok, { key: lab + "|" + key, at: p.loc(v?.ast ?? fn), message: `${lab} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
    track(ctx, fn, { policy: { never: (n) => /intFromBytes$/.test(n) }, keep: () => true,
      inst(s, v, cx, T) {
        let x = s.x;
        if (v.op === "Call" && /Crypto\.getRandomValues$/.test(v.name ?? "")) { const k = T(v.callArgs[0]).key; x = { ...x, ["f:" + k]: 1, ["f:" + T(v).key]: 1, ["of:" + T(v).key]: k }; }
        if (v.op === "SetElem" || v.op === "Call" && /\.(fill|set)$/.test(v.name ?? "")) { const k = T(v.op === "SetElem" ? v.args[0] : v.recv).key; if (x["f:" + k]) x = { ...x, ["f:" + k]: 0 }; }
        if (v.op === "Return" && v.args[0]) {
          const t = T(v.args[0]); let buf = null, bits = null; const q = t.h === "number" ? t.a[0] : t;
          if (/intFromBytes$/.test(q.name ?? "") && q.args) { buf = q.args[0].key; const sz = sizeOf(x["of:" + buf] ?? buf); bits = sz === "arg" ? "arg" : sz === null ? null : 8 * sz; }
          const g = /get(Big)?(?:Uint|Int)(8|16|32|64)$/.exec(q.name ?? ""); if (g && q.recv) { bits = Number(g[2]); const z = sizeOf(q.recv.key); buf = typeof z === "string" && z[0] === "@" ? z : null; if (!buf) { const m = /^new:DataView\((.*)\.buffer\b/.exec(q.recv.key); if (m) buf = m[1]; } const sz = buf ? sizeOf(buf) : null; ob(q.args[0]?.h === "const" && typeof sz === "number" && q.args[0].n * 8 + bits <= sz * 8, "range", v, cx, "reads beyond what it filled"); }
          ob(buf !== null && bits !== null && x["f:" + buf] === 1, "filled", v, cx, "returns a number that was not drawn from the secure source in that call"); if (bits !== null) ret.push({ cond: x.c ?? null, bits });
        }
        return x === s.x ? undefined : { ...s, x };
      },
      edge(s, t, truth) { let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; } if (q.key === "$0") return { ...s, x: { ...s.x, c: tr } }; if (q.h === "bin" && q.n === "===" && q.a[0].key === "$0" && q.a[1].key === "true") return { ...s, x: { ...s.x, c: tr } }; },
    });
    void resolve; if (ret.length) out.set(fn, ret);
  }
  ctx.need(out.size, "the random helpers");
  // helpers on top of helpers are followed by the data-flow
  return out;
}
