"use strict";
// Records that wait for an outcome: which they are, which collections hold them, and a state machine
// that follows them through a method (used by P08, P09).
const { ts } = require("./project.js");
const { resolve } = require("./ir.js");
const { simulate, describePath } = require("./sim.js");
const { Terms, PhiTrack, C, subst } = require("./terms.js");
const { fnLabel, lower } = require("./util.js");

const settleableType = (p, t) => { t = p.checker.getNonNullableType(t); return !!t && !t.isUnion?.() && (t.getProperty?.("promiseWithResolvers") || isPWR(t)); };
const isPWR = (t) => !!(t.getProperty?.("promise") && t.getProperty("resolve") && t.getProperty("reject"));
function elemTypes(p, t) { t = p.checker.getNonNullableType(t); const a = p.checker.getTypeArguments?.(t) ?? t.typeArguments ?? []; return a.flatMap((x) => x.isUnion?.() ? x.types : [x]); }
function model(p, classes) {
  const M = { p, colls: new Map(), idSets: new Set(), registries: new Set(), takers: new Set(), senders: new Set(), classes };
  for (const cls of classes) for (const f of cls.members) {
    if (!ts.isPropertyDeclaration(f)) continue;
    const t = p.checker.getTypeAtLocation(f); const n = t.symbol?.name ?? t.aliasSymbol?.name; const name = f.name.text;
    if (/^(Map|Array|LruCache)$/.test(n ?? "") && elemTypes(p, t).some((x) => settleableType(p, x))) M.colls.set(name, n === "Array" ? "array" : "map");
    else if (n === "Set" && elemTypes(p, t).some((x) => x.flags & ts.TypeFlags.BigIntLike)) M.idSets.add(name);
    else if (/^(Map|LruCache)$/.test(n ?? "") && elemTypes(p, t)[0]?.flags & ts.TypeFlags.BigIntLike) M.registries.add(name);
  }
  for (const n of M.colls.keys()) if (M.colls.get(n) === "map") M.registries.add(n);
  // asynchronous helpers that take a record over, and functions that take a registration callback
  for (const cls of classes) for (const m of cls.members) {
    if (!ts.isMethodDeclaration(m) || !m.body) continue;
    for (const q of m.parameters) {
      const t = p.checker.getTypeAtLocation(q);
      if (settleableType(p, t) && isAsync(m)) M.takers.add(m);
      const sg = t.getCallSignatures()[0]; if (sg && sg.getReturnType().getCallSignatures().length) M.senders.add(m);
    }
  }
  for (const cls of classes) for (const m of cls.members) if (ts.isMethodDeclaration(m) && m.body && !M.fail) { let y = false; if (m.parameters.length === 2) p.walk(m, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "onMessageFailed" && handlersRecv(n.expression)) { const a = n.arguments[0]; if (a && p.symbolOf(a)?.valueDeclaration === m.parameters[0]) y = true; } }); if (y) M.fail = m; }
  return M;
}
const handlersRecv = (e) => ts.isPropertyAccessExpression(e.expression) && e.expression.name.text === "handlers";
const isAsync = (f) => !!(ts.canHaveModifiers(f) && ts.getModifiers(f)?.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword));
const fieldOf = (key, names) => { for (const n of names) { const i = key.indexOf("this." + n); if (i >= 0 && !/\w/.test(key[i + 5 + n.length] ?? "")) return n; } return null; };
const sameFile = (m, f) => f && f.getSourceFile() === m.getSourceFile();

/** common state machine: which records and identifiers are outstanding */
function follow(ctx, M, m, o = {}) {
  const p = M.p, label = fnLabel(p, m);
  const never = new Set([...M.takers, ...M.senders, ...(M.fail && m !== M.fail ? [M.fail] : []), ...(o.never ?? [])]); never.delete(m);
  const u = lower(p, m, { inline: (n, f) => f && never.has(f) ? false : sameFile(m, f) ? (f === m ? false : undefined) : false, never: (n, f) => never.has(f), nothrow: (n, v) => o.nothrow?.(v) ? true : v.targetFn && v.targetFn === M.fail || /#Handlers\.\w+$/.test(v.name ?? "") ? true : /#(getRandomId|repr|construct\w*Error)$|#SessionState\.\w+$/.test(v.name ?? "") && !/nextMessageId/.test(v.name) ? true : undefined });
  const collOf = (t, ns) => { if (t.h === "prop") return ns.find((n) => t.key === "this." + n) ?? null; if (t.h === "call" && t.recv && /^(values|keys|entries|splice|toSorted|toReversed)$/.test(t.method ?? "")) return collOf(t.recv, ns); if (t.h === "slice" && !t.a[2] && (t.a[1].h === "prop" || t.a[1].n === 0)) return collOf(t.a[0], ns); if (t.h === "arr" && t.a.length === 1 && t.a[0].h === "spread") return collOf(t.a[0].a[0], ns); return null; };
  const terms = new Terms(), pt = new PhiTrack(terms).track(u);
  const names = [...M.colls.keys()], sets = [...M.idSets];
  const exits = [];
  const isRec = (k) => k;
  const put = (s, f, k, v) => ({ ...s, [f]: { ...s[f], [k]: v } });
  const params = m.parameters.map((q, i) => settleableType(p, p.checker.getTypeAtLocation(q)) ? "$" + i : null).filter(Boolean);
  const init = { ph: {}, got: {}, rm: {}, st: {}, nil: {}, pend: {}, swept: {}, ids: {}, hand: {}, ev: [], flags: {} };
  const X = { p, m, u, terms, pt, label, put, M };
  const forget = (s, e) => { if (!e) return s; const q = { ...s }; for (const f of ["got", "st", "nil", "pres", "hand", "ids", "rm"]) if (q[f]) { let o; for (const k of Object.keys(q[f])) if (k.includes(e) || String(q[f][k]).includes(e)) { o ??= { ...q[f] }; delete o[k]; } if (o) q[f] = o; } return q; };
  const settle = (s, rec, how) => put(s, "st", rec, how);
  const recOfPwr = (t) => t.h === "prop" && t.n === "promiseWithResolvers" ? t.a[0].key : t.key;
  simulate(u, {
    init,
    phi: (s, f, a, t) => pt.phi(s, f, a, t),
    enter: (s, b) => { const q = pt.enter(s, b); return q; },
    cond(c, s) {
      c = pt.expand(c, s);
      return subst(c, (x) => x.h === "bin" && x.n === "instanceof" && x.a[0].h === "obj" && /Uint8Array$/.test(x.a[1].n ?? "") ? C(false) : null, terms);
    },
    edge(s, c, truth, t, cx) {
      let k = pt.expand(c, s), tr = truth; while (k.h === "not") { k = k.a[0]; tr = !tr; }
      if (k.h === "const") return !!k.n === tr ? s : null;
      if (o.edge) { const r = o.edge(s, k, tr, X, cx); if (r !== undefined) { if (r === null) return null; s = r; } }
      const absent = k.h === "isnull" ? (tr ? k.a[0].key : null) : k.h === "bin" && k.n === "===" && k.a[1].h === "const" && k.a[1].n == null ? (tr ? k.a[0].key : null) : tr ? null : k.key;
      if (absent && (s.got[absent] || fieldOf(absent, names) || Object.values(s.pend).includes(absent))) s = put(s, "nil", absent, 1);
      const present = k.h === "isnull" && !tr ? k.a[0].key : k.h === "bin" && k.n === "===" && k.a[1].h === "const" && k.a[1].n == null && !tr ? k.a[0].key : null;
      if (present && (s.got[present])) s = put(s, "pres", present, 1);
      if (k.h === "isnull" && tr && /^this\.handlers\.\w+$/.test(k.a[0].key)) s = { ...s, nohandler: true };
      // a registration that happened returns its undo function
      if (k.h === "isnull" && tr && s.flags.undo === k.a[0].key) return null;
      // end of an index loop over a collection
      if (k.h === "bin" && k.n === "<" && /\.length$/.test(k.a[1].key)) {
        const F = fieldOf(k.a[1].key, names);
        if (F) { s = check(s, F, cx); if (!tr) s = put(put(forget(s, s.pend[F]), "swept", F, 1), "pend", F, ""); }
      }
      if (t.cond && resolve(t.cond).op === "IterHas") {
        const src = pt.expand(terms.of(resolve(t.cond).args[0]), s); const F = collOf(src, [...names, ...sets]) ?? src.key;
        s = check(s, F, cx); if (!tr) s = put(put(forget(s, s.pend[F]), "swept", F, 1), "pend", F, "");
      }
      return s;
    },
    inst(s, v, cx) {
      const T = (a) => pt.expand(cx.term(a), s);
      if (o.inst) { const r = o.inst(s, v, cx, X, T); if (r !== undefined) { if (r === null) return null; s = r; } }
      if (v.op === "IterElem") { const src = T(v.args[0]); const F = collOf(src, [...names, ...sets]) ?? src.key; const e = T(v).key; s = put(forget(s, e), "pend", F, e); return s; }
      if (v.op === "GetElem") {
        const F = collOf(T(v.args[0]), names);
        if (F) { const e = T(v).key; if (resolve(v.args[1]).op === "Phi") { s = put(forget(s, e), "pend", F, e); firstIndex(X, F, resolve(v.args[1])); } s = put(s, "got", e, F + "|" + T(v.args[1]).key); }
        return s;
      }
      if (v.op === "SetElem") { const F = collOf(T(v.args[0]), names); if (F && T(v.args[2])?.h === "const" && T(v.args[2]).n === undefined) s = put(s, "rm", F + "|" + T(v.args[1]).key, 1); return s; }
      if (v.op === "SetProp") {
        const F = fieldOf("this." + v.name, names), G = v.name === "length" ? collOf(T(v.args[0]), names) : null;
        if (F && resolve(v.args[0]).op === "This" && !o.ctor) return emptied(s, F, v, cx);
        if (G && T(v.args[1]).h === "const" && T(v.args[1]).n === 0) return emptied(s, G, v, cx);
        return s;
      }
      if (v.op === "Call" && v.recv) {
        const r = T(v.recv), args = (v.callArgs ?? []).map(T);
        const F = names.find((n) => r.key === "this." + n), Z = sets.find((n) => r.key === "this." + n);
        if (F) {
          if (v.method === "get") return put(s, "got", T(v).key, F + "|" + args[0].key);
          if (v.method === "shift" || v.method === "pop") { const e = T(v).key; return put(put(s, "got", e, F + "|" + e), "rm", F + "|" + e, 1); }
          if (v.method === "delete") return put(s, "rm", F + "|" + args[0].key, 1);
          if (v.method === "clear") return emptied(s, F, v, cx);
        }
        if (Z) { if (v.method === "delete" && args[0]) return put(s, "ids", args[0].key, p.loc(v.ast)); if (v.method === "clear") return emptied(s, Z, v, cx); }
        if ((v.method === "resolve" || v.method === "reject")) { s = settle(s, recOfPwr(r), v.method); return s; }
        if (/^this\.handlers$/.test(r.key)) { for (const a of args) { s = put(s, "hand", a.key, v.method); s = put(s, "hand", a.key + ".msg_id", v.method); } return { ...s, handled: true, hm: v.method }; }
      }
      if (v.op === "Call") {
        const args = (v.callArgs ?? []).map(T);
        // PromiseWithResolvers functions used without their object
        if (v.fnValue) { const f = T(v.fnValue); if (f.h === "prop" && (f.n === "resolve" || f.n === "reject")) s = settle(s, recOfPwr(f.a[0]), f.n); }
        if (v.targetFn && M.takers.has(v.targetFn)) for (const a of args) s = settle(s, a.key, "passed");
        if (v.targetFn && v.targetFn === M.fail) { s = settle(s, args[0].key, "failed"); s = put(s, "hand", args[0].key, "fail"); return s; }
        if (v.method === "push" && args[0]) for (const a of args) s = settle(s, a.key, "returned to the queue");
      }
      return s;
    },
    afterInvoke(s, v, cx) {
      if (v.op === "Await") { const c = resolve(v.args[0]); if (c.op === "Call" && c.targetFn && M.senders.has(c.targetFn)) for (const a of c.callArgs ?? []) { const x = resolve(a); if (x.op === "Closure") for (const [k, who] of registered(p, x.fn)) { const param = m.parameters.findIndex((q) => who === q); if (param >= 0) s = settle(s, "$" + param, "registered"); } } if (c.op === "Call" && c.targetFn && M.senders.has(c.targetFn)) s = { ...s, flags: { ...s.flags, sent: 1 } }; }
      if (o.afterInvoke) s = o.afterInvoke(s, v, cx, X) ?? s;
      return s;
    },
    exit(s, kind, cx) { exits.push({ s, kind, path: describePath(p, cx.path()) }); if (o.exit) o.exit(s, kind, cx, X); },
  }, { terms, maxStates: 6000 });
  function check(s, F, cx) {
    const e = s.pend[F]; if (!e || !o.anyLoop && !names.includes(F) && !sets.includes(F)) return s;
    const ok = Object.keys(s.st).some((k) => k === e || k.includes(e) && s.st[k]) && (s.st[e] !== undefined || !(e in s.st)) || !!s.nil[e] || !!s.hand[e];
    if (o.judgeSweep) ctx.ob("collection emptied only after settling its elements", ok, { key: label + "|" + F + "|element", at: p.loc(m), message: `${label} goes on to the next element of ${F} without settling this one`, path: describePath(p, cx.path()) });
    return s;
  }
  function emptied(s, F, v, cx) {
    if (o.judgeSweep) {
      const idle = Object.keys(s.nil).some((k) => s.nil[k] && (s.got[k] ?? "").startsWith(F + "|"));
      ctx.ob("collection emptied only after settling its elements", !!s.swept[F] || idle, { key: label + "|" + F, at: v.ast ? p.loc(v.ast) : p.loc(m), message: `${label} empties ${F} without settling what is in it`, path: describePath(p, cx.path()) });
    }
    return put(s, "swept", F, s.swept[F] ? 2 : 0);
  }
  function firstIndex(X, F, ph) {
    if (X.first?.has(ph)) return; (X.first ??= new Set()).add(ph);
    const starts = ph.args.filter((a) => a && !terms.of(a).key.includes("%" + ph.id + ";")).map((a) => terms.of(a));
    if (o.judgeSweep) ctx.ob("collection emptied only after settling its elements", starts.every((t) => t.h === "const" && t.n === 0 || t.h === "prop"), { key: label + "|" + F + "|start", at: p.loc(m), message: `${label} leaves out elements at the head of ${F} (starts at ${starts.map((t) => t.key)})` });
  }
  return { exits, label, u, terms, params };
}
/** what a registration callback stores: [field, declaration stored] */
function registered(p, clo) {
  const out = [];
  p.walk(clo, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "set" && n.arguments.length === 2) { const d = ts.isIdentifier(n.arguments[1]) ? p.symbolOf(n.arguments[1])?.valueDeclaration : n.arguments[1]; out.push([n.expression.expression.name?.text, d, n]); } });
  return out;
}

module.exports = { settleableType, isPWR, model, isAsync, fieldOf, follow, registered };
