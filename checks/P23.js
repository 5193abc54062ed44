"use strict";
// P23: what has been exported is read back as it was written.
const { ts } = require("../lib/project.js");
const { track, describePath, resolve } = require("../lib/facts.js");
const { enclosing } = require("../lib/util.js");

const R = {
  steps: "what is read are the parts that were written, in their order and form",
  value: "every part that is read goes where the written one came from",
  all: "everything that is written is made part of the result",
  wrap: "the outer encodings are undone in the opposite order",
  reject: "input of an unknown version or kind is refused",
  kind: "a file identifier is made with a type that is read back as that kind of location",
};
module.exports = {
  technique: "path-sensitive dataflow over SSA form with constant propagation, and type queries",
  explanation: "For file identifiers and for session strings, the paths of the function that writes one and of the function that reads one are collected with the parts each writes or reads, the conditions on them and where the values come from or go to. For every file type, kind of location, kind of photo source and presence of a file reference, constants are propagated through the writing path taken for it into the conditions of the reading function: exactly one reading path must fit, it must read parts of the forms that were written in that order, put each where its value came from, leave none out, and produce the constants it started from. The text and zero-run encodings must be undone in the opposite order. Reading paths that end well must have recognised the version mark that is written and a known kind of photo source. Everywhere a file identifier is put together, the types it may have (from its static type, the arguments of the helper, or later assignments on the path) must be read back as the kind of location it is given.",
  rules: Object.values(R),
  assumptions: ["the primitives read what they wrote (P03)", "file types are below the two flag bits", "an empty optional value is not distinguished from an absent one"],
  run(ctx) {
    const p = ctx.p; const byName = (n, test) => { for (const [k, f] of p.fns) if (k.endsWith(n) && f.body && test(f)) return f; return null; };
    const uses = (f, cls) => { let ok = false; const seen = new Set(); const go = (g) => { if (!g || seen.has(g) || seen.size > 20) return; seen.add(g); p.walk(g.body ?? g, (n) => { if (ts.isNewExpression(n) && n.expression.getText() === cls) ok = true; if (ts.isCallExpression(n)) { const r = p.resolveCallee(n)?.fn; if (r && r.getSourceFile() === f.getSourceFile() && r.body) go(r); } }); }; go(f); return ok; };
    const pairs = [["file identifier", "#serializeFileId", "#deserializeFileId"], ["session string", "#StorageOperations.exportAuthString", "#StorageOperations.importAuthString"]];
    for (const [what, e, d] of pairs) {
      const E = byName(e, (f) => uses(f, "TLWriter")), D = byName(d, (f) => uses(f, "TLReader")); ctx.need(E, "the function that writes a " + what); ctx.need(D, "the function that reads a " + what); if (!E || !D) continue;
      codec(ctx, what, E, D);
    }
    for (const [k, n] of [[R.steps, 120], [R.value, 500], [R.all, 120], [R.wrap, 2], [R.reject, 10], [R.kind, 30]]) ctx.floor(k, n);
  },
};
const READ = /#TLReader\.(read\w*)$/, WRITE = /#TLWriter\.(write\w*)$/;
const opaque = (nm, fn) => /TL(Reader|Writer)|#unreachable$|[Ee]ncode|[Dd]ecode/.test(nm ?? "") || !fn?.body;
/** the paths of a function: conditions, parts written or read, results */
function paths(ctx, f) {
  const p = ctx.p, out = [], tab = new Map(); const put = (t) => { tab.set(t.key, t); return t.key; }; const isD = new Set();
  track(ctx, f, { policy: { never: opaque, inline: (nm, fn) => fn.getSourceFile() === f.getSourceFile() && (!ts.isMethodDeclaration(fn) || fn.parent === f.parent) }, keep: () => true, maxStates: 60000, init: { c: [], ops: [], out: null },
    inst(s, v, cx, T) {
      const x = s.x; if (v.op === "Return" && v.args[0]) { const t = T(v.args[0]); return { ...s, x: { ...x, ret: put(t), ...(t.h === "obj" && /TLReader\.read/.test(t.key) ? { out: t.key, at: p.loc(v.ast ?? f) } : {}) } }; }
      if (v.op !== "Call") return; const w = WRITE.exec(v.name ?? ""), r = READ.exec(v.name ?? "");
      if (w && v.callArgs.length) return { ...s, x: { ...x, ops: [...x.ops, [w[1].slice(5), put(T(v.callArgs[0])), p.loc(v.ast)]] } };
      if (r) { const a = v.callArgs[0] ? T(v.callArgs[0]).key : ""; return { ...s, x: { ...x, ops: [...x.ops, [r[1].slice(4) + (a && r[1] === "read" ? "(" + a + ")" : ""), put(T(v)), p.loc(v.ast)]] } }; }
      for (const a of v.callArgs) { const t = T(a); if (t.h === "obj" && t.a.length > 2 && /TLReader\.read/.test(t.key)) return { ...s, x: { ...x, out: put(t), at: p.loc(v.ast) } }; }
      return undefined;
    },
    edge(s, t, truth) { while (t.h === "not") { t = t.a[0]; truth = !truth; } return { ...s, x: { ...s.x, c: [...s.x.c, [truth, put(t)]] } }; },
    exit(s, kind, cx) { if (kind === "return") out.push({ ...s.x, ops: s.x.ops, path: cx.path() }); } });
  void isD; return { out, tab };
}
const UNK = Symbol("unknown");
/** the number a member of an enumeration object stands for */
function members(p) {
  const memo = new Map();
  const decl = (n) => { for (const f of p.sourceFiles) if (p.isRepo(f)) for (const st of f.statements) if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) if (d.name.getText() === n) return d; return null; };
  const obj = (e, depth = 0) => { if (!e || depth > 6) return null; if (ts.isAsExpression(e) || ts.isParenthesizedExpression(e) || ts.isSatisfiesExpression?.(e)) return obj(e.expression, depth + 1); if (ts.isObjectLiteralExpression(e)) return e; if (ts.isCallExpression(e)) return obj(e.arguments[0], depth + 1); if (ts.isIdentifier(e)) return obj(decl(e.text)?.initializer, depth + 1); return null; };
  return (n) => { if (!memo.has(n)) { const o = obj(decl(n)?.initializer); let m = null; if (o) { m = new Map(); for (const q of o.properties) if (ts.isPropertyAssignment(q) && ts.isNumericLiteral(q.initializer)) m.set(q.name.getText(), Number(q.initializer.text)); } memo.set(n, m); } return memo.get(n); };
}
/** value of a term where the parts known are given: {path} for what comes from the argument unchanged */
function evaluate(t, env) {
  const ev = (x) => evaluate(x, env); const k = t.key;
  if (env.reads?.has(k)) return env.reads.get(k);
  switch (t.h) {
    case "const": return t.n;
    case "bytes": { const q = t.a.map(ev); return q.every((b) => typeof b === "number") ? { bytes: q } : UNK; }
    case "arr": { const q = t.a.map(ev); return { arr: q }; }
    case "global": return { global: k.slice(1) };
    case "prop": { const b = ev(t.a[0]); if (b?.global) { const m = env.members(b.global)?.get(t.n); if (m !== undefined) return m; } if (b?.path !== undefined) return env.leaf(b.path ? b.path + "." + t.n : t.n); if (env.base === t.a[0].key) return env.leaf(t.n); if (b?.bytes && t.n === "length") return b.bytes.length; return UNK; }
    case "elem": { if ((/\.buffer$/.test(t.a[0].key) || /^call:\w*[dD]ecode/.test(t.a[0].key)) && /length-1\)$/.test(t.a[1].key)) return env.last ?? UNK; const b = ev(t.a[0]), i = ev(t.a[1]); return b?.bytes && typeof i === "number" ? b.bytes[i] : UNK; }
    case "not": { const a = truthy(ev(t.a[0]), env); return a === UNK ? UNK : !a; }
    case "isnull": { const a = ev(t.a[0]); return a === null || a === undefined ? true : a === UNK || a?.path !== undefined && a.unsure ? UNK : false; }
    case "un": { const a = ev(t.a[0]); if (typeof a !== "number") return UNK; return t.n === "~" ? ~a : t.n === "-" ? -a : UNK; }
    case "bin": { const a = ev(t.a[0]), b = ev(t.a[1]); const prim = (x) => x === null || x === undefined || /^(number|string|boolean)$/.test(typeof x); if (t.n === "===") { if (prim(a) && prim(b)) return a === b; if (a?.path !== undefined && (b === undefined || b === null)) return false; if (b?.path !== undefined && (a === undefined || a === null)) return false; return UNK; } if (typeof a !== "number" || typeof b !== "number") return UNK; switch (t.n) { case "&": return a & b; case "|": return a | b; case "^": return a ^ b; case "*": return a * b; case "<": return a < b; case "<=": return a <= b; case ">>>": return a >>> b; case ">>": return a >> b; } return UNK; }
    case "bigint": case "number": return ev(t.a[0]);
    case "call": if (/^(call:)?(BigInt|Number)/.test(k.slice(0, 16)) || /^call:(BigIntConstructor|NumberConstructor)?\(?/.test(k) && /^(BigInt|Number)(Constructor)?$/.test(String(t.name ?? t.n).replace(/^.*#/, ""))) return ev((t.args ?? t.a)[(t.args ?? t.a).length - 1]); if (/isBoolean|^call:Boolean/.test(k)) return truthy(ev(t.a[t.a.length - 1]), env);
  }
  if (k === env.baseKey) return { path: "" };
  if (t.h === "param" && k === "$0") return { path: "" };
  return UNK;
}
function truthy(v, env) { if (v === UNK) return UNK; if (v?.path !== undefined) { const c = env.known?.(v.path); return c === undefined ? (env.present ? true : UNK) : c; } if (v?.bytes) return true; if (v && typeof v === "object") return true; return !!v; }
const fits = (path, tab, env) => path.c.every(([tr, k]) => { const v = truthy(evaluate(tab.get(k), env), env); return v === UNK || v === tr; });
const known = (path, tab, env) => path.c.every(([, k]) => truthy(evaluate(tab.get(k), env), env) !== UNK);
function codec(ctx, what, E, D) {
  const p = ctx.p; const e = paths(ctx, E), d = paths(ctx, D); const mem = members(p);
  const ob = (rule, ok, key, at, msg, path) => ctx.ob(rule, !!ok, { key: what + "|" + key, at, message: msg, path: ok || !path ? undefined : describePath(p, path) });
  ctx.count("paths of functions that write", e.out.length); ctx.count("paths of functions that read", d.out.length);
  ctx.need(e.out.length && d.out.length, "the paths of the functions for a " + what); if (!e.out.length || !d.out.length) return;
  // outer encodings
  const chain = (k, re) => { const m = []; for (const q of k.matchAll(re)) m.push(q[1]); return m; };
  for (const x of e.out) { const w = chain(x.ret, /call:(?:\w+\.)?(\w*[eE]ncode\w*)\(/g); for (const y of d.out.slice(0, 1)) { const r = chain((y.ops[0]?.[1] ?? "").split("new:TLReader(")[1] ?? "", /call:(?:\w+\.)?(\w*[dD]ecode\w*)\(/g); ob(R.wrap, w.length > 0 && /TLWriter\(\)%\d+;\.buffer/.test(x.ret) && r.map((n) => n.replace("Decode", "Encode").replace("decode", "encode")).reverse().join() === w.join(), "wrap", p.loc(E), `a ${what} is wrapped by ${w.join("(")} and unwrapped by ${r.join("(")}`, y.path); } }
  if (what === "session string") return session(ctx, what, E, D, e, d, mem, ob);
  const types = mem("FileType") ?? new Map(), sources = mem("PhotoSourceType") ?? new Map(); ctx.need(types.size && sources.size, "the kinds of files and photo sources");
  const refused = [], back = new Map(); // what a type is read back as
  for (const [tn, k] of types) for (const loc of ["web", "photo", "common"]) for (const ref of loc === "web" ? [false] : [false, true]) for (const [sn, sk] of loc === "photo" ? sources : [["", -1]]) {
    const tags = { type: k, "location.type": loc, "location.source.type": sk }; if (!ref) tags.fileReference = undefined;
    const env = { members: mem, present: true, base: null, leaf: (q) => q in tags ? tags[q] : { path: q }, known: (q) => q === "fileReference" ? ref : undefined };
    const label = [tn, loc, ref ? "with a reference" : "", sn].filter(Boolean).join(", ");
    const W = e.out.filter((x) => fits(x, e.tab, env)); if (W.length !== 1) { ob(R.steps, false, "write|" + loc + "|" + sn, p.loc(E), `${W.length || "no"} ways to write a ${what} (${label})`); continue; }
    const w = W[0]; const vals = w.ops.map((o) => evaluate(e.tab.get(o[1]), env)); const lastOp = vals[vals.length - 1]; const last = lastOp?.bytes?.[lastOp.bytes.length - 1];
    const fit = []; for (const y of d.out) { const reads = new Map(); y.ops.forEach((o, i) => { if (i < vals.length) reads.set(o[1], vals[i]); }); const den = { members: mem, reads, last, leaf: () => UNK }; if (fits(y, d.tab, den)) fit.push([y, den]); }
    if (!fit.length) { refused.push([k + "|" + loc, loc, sn, label]); continue; }
    const exact = fit.filter(([y, den]) => known(y, d.tab, den)); const use = exact.length ? exact : fit;
    const kindOf = ([q, den]) => { const m = new Map(), o = d.tab.get(q.out); if (o) flatten(o, "", m); const lt = m.get("location.type"); return lt ? evaluate(lt, den) : UNK; };
    if (use.length && use.every((q) => typeof kindOf(q) === "string" && kindOf(q) !== loc)) { back.set(k + "|" + loc, kindOf(use[0])); continue; } // never made: see the rule about kinds
    if (use.length !== 1) { ob(R.steps, false, "read|" + loc + "|" + sn, p.loc(D), `${use.length || "no"} ways to read a ${what} (${label}) back`); continue; }
    const [y, den] = use[0]; const o = d.tab.get(y.out); if (!o) { ob(R.value, false, "none", p.loc(D), `reading a ${what} gives nothing that was read`); continue; }
    const leaves = new Map(); flatten(o, "", leaves); const lt = leaves.get("location.type"); const gives = lt ? evaluate(lt, den) : UNK; back.set(k + "|" + loc, gives);
    ob(R.value, gives === loc, "location", y.at ?? p.loc(D), `the kind of location of a ${what} (${label}) is read back as something else`, y.path);
    const forms = (x) => x.ops.map((q) => q[0].replace(/\(.*/, "")); const a = forms(w).slice(0, y.ops.length), b = forms(y); const tail = w.ops.slice(y.ops.length);
    ob(R.steps, a.join() === b.join() && tail.every((q) => /^$/.test(q[0])), loc + "|" + sn, y.ops.find((q, i) => b[i] !== a[i])?.[2] ?? p.loc(D), `a ${what} (${label}) is written as ${forms(w).filter(Boolean).join(", ")} and read as ${b.join(", ")}`, y.path);
    const seen = new Set();
    for (const [path, t] of leaves) { const v = evaluate(t, den); const want = path in tags ? tags[path] : { path }; const ok = want && typeof want === "object" ? v?.path === want.path : v === want || want === undefined && v === undefined; ob(R.value, ok, path + "|" + (sn || loc), y.at ?? p.loc(D), `${path} of a ${what} (${label}) is read back as ${v?.path ?? (v === UNK ? "something else" : String(v))}`, y.path); seen.add(path); }
    const lost = vals.slice(0, y.ops.length).filter((v) => v?.path !== undefined && ![...leaves.values()].some((t) => evaluate(t, den)?.path === v.path)).map((v) => v.path); ob(R.all, !lost.length, "all|" + (sn || loc), y.at ?? p.loc(D), `${lost.join(", ")} of a ${what} (${label}) is written but not part of what is read`, y.path);
    if (ref) ob(R.all, seen.has("fileReference"), "reference", y.at ?? p.loc(D), `the file reference of a ${what} (${label}) is not part of what is read`, y.path);
    // the version mark and the kind must have been recognised
    if (sn && sk >= 0) { const other = y.ops.map((q, i) => [q[1], vals[i]]); const den2 = { ...den, reads: new Map(other.map(([q, v]) => [q, v === sk && q === y.ops.find((z, i) => vals[i] === sk && e.tab.get(w.ops[i][1]).key.endsWith("source.type"))?.[1] ? 9999 : v])) }; ob(R.reject, !fits(y, d.tab, den2), "kind|" + sn, y.at ?? p.loc(D), `a photo source of an unknown kind is read as ${sn}`, y.path); }
    ob(R.reject, last !== undefined && !fit.concat(d.out.map((z) => [z, den])).some(([z]) => z.out && fits(z, d.tab, { ...den, last: (last + 1) & 255 })), "version", p.loc(D), `a ${what} of an unknown version is read`, y.path);
  }
  for (const [k, loc, sn, label] of refused) ob(R.steps, loc !== "web" && back.get(k) !== loc, "refused|" + loc + "|" + sn, p.loc(D), `a ${what} (${label}) that can be written cannot be read`);
  // what is read is only known to be one of the kinds once it has been compared: falling out of all cases must not end well
  const seenF = new Set(); const go = (g) => { if (!g?.body || seenF.has(g) || g.getSourceFile() !== D.getSourceFile()) return; seenF.add(g); p.walk(g.body, (n) => {
    if (ts.isCallExpression(n)) go(p.resolveCallee(n)?.fn);
    if (ts.isSwitchStatement(n)) { const def = n.caseBlock.clauses.find(ts.isDefaultClause); const blk = n.parent, after = ts.isBlock(blk) ? blk.statements.slice(blk.statements.indexOf(n) + 1) : []; const leaves = (st) => st && (ts.isThrowStatement(st) || ts.isExpressionStatement(st) && (p.checker.getTypeAtLocation(st.expression).flags & ts.TypeFlags.Never) !== 0); const ok = def && def.statements.some(leaves) || after.some(leaves) || def && !def.statements.length && def === n.caseBlock.clauses.at(-1) && after.some(leaves); ob(R.reject, ok, "switch|" + (g.name?.getText() ?? ""), p.loc(n), `a ${what} with a part of an unknown kind is not refused`); }
  }); }; go(D);
  kinds(ctx, ob, back, types, [E, D]);
}
function flatten(o, pre, out) { if (o.h !== "obj") { out.set(pre, o); return; } const names = String(o.n ?? "").split(","); o.a.forEach((t, i) => flatten(t, pre ? pre + "." + names[i] : names[i], out)); }
function session(ctx, what, E, D, e, d, mem, ob) {
  const p = ctx.p;
  for (const w of e.out) {
    const first = e.tab.get(w.ops[0]?.[1]); const base = first?.h === "prop" ? first.a[0].key : null; ctx.need(base, "what a session string is made from"); if (!base) return;
    const facts = new Map(); for (const [tr, k] of w.c) if (k.startsWith(base + ".")) facts.set(k.slice(base.length + 1), tr);
    const env = { members: mem, base, leaf: (q) => ({ path: q }) }; const vals = w.ops.map((o) => evaluate(e.tab.get(o[1]), env));
    for (const y of d.out) {
      const o = d.tab.get(y.out); if (!o) { ob(R.value, false, "none", p.loc(D), `reading a ${what} gives nothing that was read`, y.path); continue; }
      const reads = new Map(); y.ops.forEach((q, i) => reads.set(q[1], vals[i] ?? UNK)); const den = { members: mem, reads, leaf: () => UNK };
      const size = (q, i) => q[0] === "" ? vals[i]?.bytes ? `(${vals[i].bytes.length})` : "(?)" : q[0]; const a = w.ops.map(size), b = y.ops.map((q) => q[0]);
      ob(R.steps, a.join() === b.join(), "steps", y.ops.find((q, i) => b[i] !== a[i])?.[2] ?? p.loc(D), `a ${what} is written as ${a.join(", ")} and read as ${b.join(", ")}`, y.path);
      const leaves = new Map(); flatten(o, "", leaves); const got = new Set();
      for (const [path, t] of leaves) { const v = evaluate(t, den); if (v?.path !== undefined) got.add(v.path); const ok = v?.path === path || (typeof v === "boolean" || v === 0 || v === 1) && facts.get(path) === !!v; if (ok) got.add(path); ob(R.value, ok, "value|" + path, y.at ?? p.loc(D), `${path} of a ${what} is read back as ${v?.path ?? (v === UNK ? "something else" : String(v))}`, y.path); }
      const lost = vals.filter((v) => v?.path !== undefined && !got.has(v.path)).map((v) => v.path); ob(R.all, !lost.length && leaves.size >= w.ops.length, "all", y.at ?? p.loc(D), `${lost.join(", ") || "a part"} of a ${what} is not part of what is read`, y.path);
    }
  }
}
/** where file identifiers are put together */
function kinds(ctx, ob, back, types, own) {
  const p = ctx.p; const names = new Map([...types].map(([n, k]) => [k, n]));
  const lits = (t) => { const q = t.isUnion() ? t.types : [t]; return q.every((z) => z.isNumberLiteral?.() || z.isStringLiteral?.()) ? q.map((z) => z.value) : null; };
  const isFileId = (t) => { const s = t && (t.aliasSymbol ?? t.symbol); return s?.name === "FileId"; };
  const all = types.size;
  for (const f of p.sourceFiles) if (p.isRepo(f)) p.walk(f, (n) => {
    if (!ts.isObjectLiteralExpression(n) || !isFileId(p.checker.getContextualType(n))) return; const fn = enclosing(n); if (own.includes(fn)) return;
    const get = (o, k) => { const q = o.properties.find((z) => z.name?.getText() === k); return q && (q.initializer ?? q.name); }; const ty = get(n, "type"), lo = get(n, "location"); if (!ty || !lo) { ctx.count("file identifiers put together in another way", 1); return; }
    let ks = lits(p.checker.getTypeAtLocation(ty)); const typeOf = (t) => (t.isUnion() ? t.types : [t]).flatMap((z) => { const q = z.getProperty("type"); return q ? lits(p.checker.getTypeOfSymbolAtLocation(q, n)) ?? [] : []; }); const ls = typeOf(p.checker.getTypeAtLocation(lo)); if (!ls.length || ls.length > 1) { ctx.count("file identifiers put together in another way", 1); return; }
    if (!ks || ks.length >= all) { // a parameter of a helper
      const d = (ts.isShorthandPropertyAssignment(ty.parent) ? p.checker.getShorthandAssignmentValueSymbol(ty.parent) : p.symbolOf(ty))?.valueDeclaration; ks = null; if (d && ts.isParameter(d)) { const h = d.parent, i = h.parameters.indexOf(d); const got = []; let odd = false; p.walk(h.getSourceFile(), (c) => { if (ts.isCallExpression(c) && p.resolveCallee(c)?.fn === h) { const q = c.arguments[i] && lits(p.checker.getTypeAtLocation(c.arguments[i])); if (q) got.push(...q); else odd = true; } }); if (!odd && got.length) ks = [...new Set(got)]; }
      if (!ks) { ctx.count("file identifiers put together in another way", 1); return; }
    }
    let later = null; const v = n.parent; if (ts.isVariableDeclaration(v) && fn) { const sym = p.symbolOf(v.name); const sets = []; p.walk(fn.body ?? fn, (q) => { if (ts.isBinaryExpression(q) && q.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(q.left) && q.left.name.text === "type" && p.symbolOf(q.left.expression) === sym) sets.push(q); }); if (sets.length) later = assigned(ctx, fn, n); }
    for (const k of later ?? ks) ob(R.kind, back.get(k + "|" + ls[0]) === ls[0], "kind|" + p.rel(f) + "|" + names.get(k) + "|" + ls[0], p.loc(n), `a file identifier is made with the type ${names.get(k) ?? k} and a location of the kind ${ls[0]}, which is not what it is read back as`);
  });
}
/** the types an object has where it is handed on, with what has been assigned to it on the way */
function assigned(ctx, fn, lit) {
  const got = new Set();
  track(ctx, fn, { policy: { never: () => true }, keep: () => false, init: { k: null }, maxStates: 20000,
    inst(s, v, cx, T) {
      if (v.op === "Object" && v.ast === lit) { const q = v.props.find((z) => (z.key ?? z.name) === "type"); const a = q && resolve(q.value ?? q.v); return { ...s, x: { k: val(ctx, a, T) } }; }
      if (v.op === "SetProp" && v.name === "type" && resolve(v.args[0]).ast === lit) return { ...s, x: { k: val(ctx, resolve(v.args[1]), T) } };
      if (v.op === "Call" && v.callArgs.some((a) => resolve(a).ast === lit) && s.x.k !== null) got.add(s.x.k);
      return undefined;
    } });
  return got.size ? [...got] : null;
}
function val(ctx, v, T) { if (!v) return null; if (v.op === "Const") return v.value; const t = v.ast && ts.isExpression(v.ast) ? ctx.p.checker.getTypeAtLocation(v.ast) : null; void T; return t?.isNumberLiteral?.() ? t.value : null; }
