"use strict";
const { ts } = require("../lib/project.js");
const { resolve, succs } = require("../lib/ir.js");
const { simulate, describePath } = require("../lib/sim.js");
const { Terms } = require("../lib/terms.js");
const { allFunctions, fnLabel, callees, enclosing, lower, typeOfValue } = require("../lib/util.js");
const { track } = require("../lib/facts.js");
const R = {
  save: "every field is written",
  load: "every field is read back into its place",
  place: "written and read under the same key",
  commit: "changes are committed before an operation finishes",
  fail: "sending and receiving commit also when they fail",
};
const MUT = /^(push|pop|shift|unshift|splice|sort|reverse|fill|set|delete|clear|add|copyWithin)$/;
module.exports = {
  technique: "dataflow over SSA form and typestate",
  explanation: "The class that holds the state of a secret chat is found by its declaration. In the method that stores it, the value stored under each name is traced to the field of the state it comes from; in the method that loads it, the value put into each field is traced to the name it was stored under; every declared field, except one the loader gives a constant, has to be stored under one name and loaded from that name, every field of the stored record has to be present, and both use one storage and one key. Then every operation of the class that handles secret chats is followed with all its helpers: on every path, after a change of a state (an assignment to a field, a change of a collection or record kept in it) a commit of a state has to be called and waited for before the operation ends. For operations that send or receive a message the same holds on the paths that end in an exception.",
  rules: Object.values(R),
  assumptions: ["storages return what was stored (P21)", "an operation works on one chat, so that a commit covers its changes", "storing itself does not fail"],
  run(ctx) {
    const p = ctx.p;
    const cls = p.findClass("SecretChatState")[0]; ctx.need(cls, "the class SecretChatState");
    const fields = cls.members.filter((m) => ts.isPropertyDeclaration(m) && !m.modifiers?.some((q) => q.kind === ts.SyntaxKind.StaticKeyword)).map((m) => m.name.getText());
    const isState = (t) => t && (t.symbol?.valueDeclaration === cls || t.isIntersection?.() && t.types.some(isState));
    const method = (t) => cls.members.filter((m) => ts.isMethodDeclaration(m) && m.body && t(m));
    const isStatic = (m) => !!m.modifiers?.some((q) => q.kind === ts.SyntaxKind.StaticKeyword);
    const { commit, saved, keys } = save(ctx, cls, fields, method((m) => !isStatic(m)));
    const consts = load(ctx, cls, fields, method(isStatic), saved);
    const exempt = new Set(consts);
    // where the stored states are read
    const users = p.sourceFiles.filter((f) => p.isRepo(f) && f !== cls.getSourceFile() && /SecretChatState/.test(f.text) && /new SecretChatState|SecretChatState\.\w+\(/.test(f.text));
    ctx.need(users.length, "the code that uses SecretChatState");
    const all = allFunctions(p).filter((f) => users.includes(f.getSourceFile()));
    const named = (f) => { let g = f; while (g && (ts.isArrowFunction(g) || ts.isFunctionExpression(g))) g = enclosing(g); return g ?? f; };
    const fns = all.filter((f) => named(f) === f);
    place(ctx, fns, commit, keys);
    operations(ctx, { cls, isState, commit, exempt, users, fns, named });
    for (const [k, n] of [[R.save, 20], [R.load, 20], [R.place, 3], [R.commit, 15], [R.fail, 12]]) ctx.floor(k, n);
  },
};
/** fields of `base` (test on a value) a value is made from, through collections built in full loops */
function sources(unit, v, isBase) {
  const pushes = new Map();
  for (const b of unit.blocks) for (const i of b.insts) if (i.op === "Call" && /^(push|set|add)$/.test(i.method ?? "") && i.recv) { const r = resolve(i.recv); if (!pushes.has(r.id)) pushes.set(r.id, []); pushes.get(r.id).push(i); }
  const out = new Set(), seen = new Set(); let odd = false;
  const go = (x) => {
    x = resolve(x); if (!x || seen.has(x.id)) return; seen.add(x.id);
    if (x.op === "GetProp" && isBase(resolve(x.args[0]))) { out.add(x.name); return; }
    if (x.op === "Bin" || x.op === "Un" || x.op === "Call" && !/^(entries|values|toArray|from|fromEntries|map|set|push|add)$/.test(x.method ?? "") && !x.inlined) odd = true;
    for (const a of [...(x.args ?? []), ...(x.callArgs ?? []), x.recv].filter(Boolean)) go(a);
    for (const c of pushes.get(x.id) ?? []) { if (!fullLoop(unit, blockOf(c))) odd = true; for (const a of c.callArgs) go(a); }
  };
  function blockOf(i) { return unit.blocks.find((b) => b.insts.includes(i)); }
  go(v); return { fields: [...out], odd };
}
function save(ctx, cls, fields, methods) {
  const p = ctx.p; let commit = null, keys = new Set(); const saved = new Map();
  for (const m of methods) {
    if (!callees(p, m).some((c) => /Storage\.set$/.test(c.name ?? ""))) continue;
    commit = m; const lab = fnLabel(p, m), unit = lower(p, m, {}); let full = 0;
    track(ctx, m, {
      unit, keep: (k) => /encryptedChat/.test(k) || /_===/.test(k),
      inst(s, v, cx, T, H) {
        if (v.op !== "Call" || !/Storage\.set$/.test(v.name ?? "")) return;
        const k = T(v.callArgs[0]); keys.add(k.key.replace(/%\d+;/g, "%")); const t = T(v.callArgs[1]);
        const val = resolve(v.callArgs[1]);
        if (t.h === "const") {
          const gone = H.all.some((f) => f.startsWith("+") && /encryptedChat(Discarded|Empty)/.test(f));
          ctx.ob(R.save, t.n === null && gone, { key: lab + "|removed", at: p.loc(v.ast), message: `${lab} removes the stored state of a chat that did not end`, path: gone ? undefined : describePath(p, cx.path()) });
        } else {
          full++; const obj = val.op === "Object" ? val : null;
          ctx.ob(R.save, obj, { key: lab + "|record", at: p.loc(v.ast), message: `${lab} stores something other than a record of the fields` });
          for (const q of obj?.props ?? []) {
            const name = q.key ?? q.name; const src = sources(unit, q.value ?? q.v, (b) => b.op === "This" || b.op === "Param" && b.name === "this" || b === unit.thisVal);
            ctx.ob(R.save, src.fields.length === 1 && !src.odd, { key: lab + "|" + name, at: p.loc(v.ast), message: `${lab} stores under ${name} something that is not the value of one field` });
            if (src.fields.length === 1) saved.set(name, src.fields[0]);
          }
        }
        return { ...s, x: { ...s.x, set: 1 } };
      },
      exit(s, kind, cx) { if (kind === "return") ctx.ob(R.save, s.x.set, { key: lab + "|not stored", at: p.loc(m), message: `${lab} ends without storing anything`, path: s.x.set ? undefined : describePath(p, cx.path()) }); },
    });
    ctx.ob(R.save, full > 0, { key: lab + "|none", at: p.loc(m), message: `${lab} never stores the fields of the state` });
  }
  ctx.need(commit, "the method that stores the state");
  return { commit, saved, keys };
}
function load(ctx, cls, fields, methods, saved) {
  const p = ctx.p; const loaded = new Map(), consts = new Set(); let L = null;
  for (const m of methods) {
    const unit = lower(p, m, {});
    const isNew = (v) => v.op === "New" || v.op === "Call" && v.isNew;
    const states = new Set(); for (const b of unit.blocks) for (const v of b.insts) if (v.targetFn !== undefined && 0) states.add(v);
    const par = (b) => b.op === "Param" && b.name !== "this";
    const stateOf = (v) => objectType(p, v)?.symbol?.valueDeclaration === cls;
    let any = 0; const lab = fnLabel(p, m); const dom = alwaysRun(unit);
    for (const b of unit.blocks) for (const v of b.insts) {
      let f, val;
      if (v.op === "SetProp" && stateOf(v)) { f = v.name; val = [v.args[1]]; }
      else if (v.op === "Call" && /^(set|push|add|unshift)$/.test(v.method ?? "") && v.recv) { const r = resolve(v.recv); if (r.op === "GetProp" && stateOf(r)) { f = r.name; val = v.callArgs; } }
      if (!f) continue; any++;
      const src = new Set(); let odd = false; for (const a of val) { const q = sources(unit, a, par); q.fields.forEach((x) => src.add(x)); odd ||= q.odd; }
      if (!src.size && val.every((a) => resolve(a).op === "Const")) { consts.add(f); continue; }
      const name = [...src][0];
      ctx.ob(R.load, src.size === 1 && !odd && saved.get(name) === f, { key: lab + "|" + f, at: p.loc(v.ast), message: src.size === 1 ? `${lab} puts into ${f} what was stored under ${name}, which holds ${saved.get(name) ?? "nothing"}` : `${lab} puts into ${f} something that is not one stored value` });
      if (v.op === "SetProp") ctx.ob(R.load, dom(b), { key: lab + "|" + f + "|always", at: p.loc(v.ast), message: `${lab} loads ${f} on some paths only` });
      else ctx.ob(R.load, fullLoop(unit, b), { key: lab + "|" + f + "|all", at: p.loc(v.ast), message: `${lab} loads only some of the elements of ${f}` });
      if (src.size === 1) loaded.set(f, name);
    }
    if (any > 3) L = m;
  }
  ctx.need(L, "the method that loads the state");
  const names = new Set(saved.values());
  for (const f of fields) {
    if (consts.has(f) && !names.has(f)) continue;
    ctx.ob(R.save, names.has(f), { key: "field|" + f, at: p.loc(cls), message: `the field ${f} of a secret chat's state is not stored: it is lost by a restart` });
    ctx.ob(R.load, loaded.has(f), { key: "field|" + f, at: p.loc(L), message: `the field ${f} of a secret chat's state is not loaded from what was stored` });
  }
  return [...consts].filter((f) => !names.has(f));
}
/** static type of the object whose property an access reads or writes */
function objectType(p, v) {
  let q = v.ast; while (q && (ts.isPrefixUnaryExpression(q) || ts.isPostfixUnaryExpression(q))) q = q.operand; if (q && ts.isBinaryExpression(q)) q = q.left; while (q && (ts.isParenthesizedExpression(q) || ts.isNonNullExpression(q))) q = q.expression;
  if (q && ts.isPropertyAccessExpression(q) && q.name.text === v.name) try { return p.checker.getTypeAtLocation(q.expression); } catch { /* below */ }
  return typeOfValue(p, resolve(v.args[0]));
}
/** test: every path from the entry to a normal end goes through the block */
function alwaysRun(unit) {
  return (b) => { const seen = new Set(), q = [unit.entry]; while (q.length) { const x = q.pop(); if (x === b || seen.has(x)) continue; seen.add(x); if (x === unit.retBlock) return false; q.push(...succs(x)); } return true; };
}
/** every element of the collection walked by the loop around the block gets there: no round leaves the loop or goes on without it */
function fullLoop(unit, b, elem) {
  const ok = (s) => s !== unit.throwExit;
  const heads = unit.blocks.filter((h) => h.insts.some((v) => v.op === "IterHas") && reach(h, b));
  const h = elem ? heads.find((x) => x.insts.includes(elem)) ?? heads.at(-1) : heads.at(-1);
  if (!h) return true; // spread, Array.from: no loop of its own
  const [body] = succs(h).filter((s) => ok(s) && (s === b || reach(s, b, h)));
  // without passing the block, neither the head nor an end can be reached from the start of a round; nor after it anything but the head
  const run = (start, stop, bad) => { const seen = new Set(), q = [start]; while (q.length) { const x = q.pop(); if (x === stop || seen.has(x)) continue; seen.add(x); if (bad(x)) return false; q.push(...succs(x).filter(ok)); } return true; };
  const end = (x) => x === unit.retBlock;
  return run(body, b, (x) => x === h || end(x)) && succs(b).filter(ok).every((s) => run(s, h, end));
}
function reach(a, b, not) { const seen = new Set(), q = [a]; while (q.length) { const x = q.pop(); for (const s of succs(x)) { if (s === b) return true; if (s === not || seen.has(s)) continue; seen.add(s); q.push(s); } } return false; }
function place(ctx, fns, commit, keys) {
  const p = ctx.p; const stores = new Map();
  const chain = (e) => p.text(e).replace(/\s+/g, "");
  const originOf = (e) => { while (ts.isParenthesizedExpression(e) || ts.isNonNullExpression(e) || ts.isAsExpression(e)) e = e.expression; if (ts.isIdentifier(e)) { const d = p.symbolOf(e)?.valueDeclaration; if (d && ts.isVariableDeclaration(d) && d.initializer && ts.isIdentifier(d.name)) return originOf(d.initializer); if (d && ts.isBindingElement(d)) return "…." + (d.propertyName ?? d.name).getText(); } if (ts.isPropertyAccessExpression(e)) { const d = p.symbolOf(e)?.valueDeclaration; return p.declName(d) ?? chain(e); } return chain(e); };
  const declOf = (e) => originOf(e).replace(/^.*[.#]/, "");
  const prefixes = new Set(); let loads = 0;
  for (const f of fns) p.walk(f, (n) => {
    if (!ts.isCallExpression(n)) return; const r = p.resolveCallee(n);
    if (r.decl === commit || r.fn === commit) { const o = n.arguments[0] && fullPath(p, n.arguments[0]); stores.set(o, n); }
    if (/SecretChatState/.test(p.text(n)) && /Storage\.getMany$/.test(r.name ?? "") && ts.isPropertyAccessExpression(n.expression)) { loads++; stores.set(fullPath(p, n.expression.expression), n); const m = p.text(n.arguments[0] ?? n).match(/prefix:\s*\[([^\]]*)\]/); prefixes.add(m ? m[1] : "?"); }
  });
  // the stored records may also be recognised by what is loaded
  ctx.ob(R.place, loads > 0, { key: "load", at: p.loc(fns[0]), message: "nothing reads the stored secret chats" });
  ctx.ob(R.place, stores.size === 1, { key: "storage", at: p.loc([...stores.values()].pop() ?? fns[0]), message: `secret chats are written to and read from different storages: ${[...stores.keys()].join(", ")}` });
  for (const k of keys) for (const q of prefixes) ctx.ob(R.place, k.startsWith("arr(" + q.replace(/'/g, "\"").replace(/\s*,\s*/g, ",") + ","), { key: "key|" + k, at: p.loc(commit), message: `the state is stored under ${k}, and looked for under the prefix [${q}]` });
  ctx.ob(R.place, keys.size === 1, { key: "one key", at: p.loc(commit), message: `states are stored and removed under different keys: ${[...keys].join(", ")}` });
}
/** names of the properties along a path of property reads, through local constants */
function fullPath(p, e) {
  while (ts.isParenthesizedExpression(e) || ts.isNonNullExpression(e) || ts.isAsExpression(e)) e = e.expression;
  if (ts.isIdentifier(e)) { const d = p.symbolOf(e)?.valueDeclaration; if (d && ts.isVariableDeclaration(d) && d.initializer && ts.isIdentifier(d.name)) return fullPath(p, d.initializer); if (d && ts.isBindingElement(d) && ts.isVariableDeclaration(d.parent.parent) && d.parent.parent.initializer) return fullPath(p, d.parent.parent.initializer) + "." + (d.propertyName ?? d.name).getText(); return e.text; }
  if (ts.isPropertyAccessExpression(e)) return fullPath(p, e.expression) + "." + e.name.text;
  return p.text(e);
}
function operations(ctx, { cls, isState, commit, exempt, users, fns, named }) {
  const p = ctx.p;
  const called = new Set(); for (const f of fns) for (const c of callees(p, f)) if (c.fn && named(c.fn) !== f) called.add(named(c.fn));
  const touches = new Map(); const touch = (f) => { if (touches.has(f)) return touches.get(f); touches.set(f, false); let y = false; p.walk(f, (n) => { if (ts.isPropertyAccessExpression(n)) { let t; try { t = p.checker.getTypeAtLocation(n.expression); } catch { t = null; } if (isState(t)) y = true; } }); for (const c of callees(p, f)) if (c.fn && users.includes(c.fn.getSourceFile()) && named(c.fn) !== f && touch(named(c.fn))) y = true; touches.set(f, y); return y; };
  const moves = new Map(); const move = (f) => { if (moves.has(f)) return moves.get(f); moves.set(f, false); let y = false; p.walk(f, (n) => { const t = ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment ? n.left : ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n) ? n.operand : null; if (t && ts.isPropertyAccessExpression(t) && /^(in|out)SeqNo$/.test(t.name.text)) y = true; }); for (const c of callees(p, f)) if (c.fn && users.includes(c.fn.getSourceFile()) && named(c.fn) !== f && move(named(c.fn))) y = true; moves.set(f, y); return y; };
  // fields that sending and receiving change
  const traffic = new Set(), inTraffic = new Set(); { const q = fns.filter((f) => called.has(f) && move(f)); while (q.length) { const g = q.pop(); if (inTraffic.has(g)) continue; inTraffic.add(g); for (const c of callees(p, g)) if (c.fn && users.includes(c.fn.getSourceFile())) q.push(named(c.fn)); } }
  for (const g of inTraffic) p.walk(g, (n) => { if (ts.isPropertyAccessExpression(n)) { let t; try { t = p.checker.getTypeAtLocation(n.expression); } catch { t = null; } if (isState(t) && cls.members.some((m) => ts.isPropertyDeclaration(m) && m.name.getText() === n.name.text) && written(n)) traffic.add(n.name.text); } });
  function written(n) { const q = n.parent; if (ts.isBinaryExpression(q)) return q.left === n && q.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && q.operatorToken.kind <= ts.SyntaxKind.LastAssignment; if (ts.isPrefixUnaryExpression(q) || ts.isPostfixUnaryExpression(q)) return true; return ts.isPropertyAccessExpression(q) && q.expression === n || ts.isVariableDeclaration(q); }
  for (const f of fns) {
    if (called.has(f) || ts.isConstructorDeclaration(f) || !touch(f)) continue;
    operation(f, move(f));
  }
  function operation(f, both) {
    const lab = fnLabel(p, f);
    const unit = lower(p, f, { never: (n, g) => g === commit, nothrow: (n, v) => v.op === "New" || v.targetFn === commit || v.targetFn && /^utilities\//.test(p.rel(v.targetFn.getSourceFile())) || /#\w*Mutex\.lock$/.test(v.name ?? "") || /^(debug|info|warning|error)$/.test(v.method ?? "") ? true : undefined });
    const stateOf = (v) => isState(objectType(p, v));
    const kept = (v) => { v = resolve(v); for (let i = 0; i < 12 && v; i++) { if (v.op === "GetProp") { if (stateOf(v)) return v.name; v = resolve(v.args[0]); } else if (v.op === "GetElem" || v.op === "IterElem" || v.op === "FindResult" || v.op === "Await") v = resolve(v.args[0]); else if (v.op === "Call" && /^(get|at|find|pop|shift|values|entries)$/.test(v.method ?? "") && v.recv) v = resolve(v.recv); else return null; } return null; };
    const change = (v) => {
      if (v.op === "SetProp" || v.op === "DelProp") { const o = resolve(v.args[0]); if (stateOf(v)) return exempt.has(v.name) ? null : v.name; const k = kept(o); return k && MUTABLE.has(k) ? k : null; }
      if (v.op === "SetElem" || v.op === "DelElem") return kept(v.args[0]);
      if (v.op === "Call" && v.recv && MUT.test(v.method ?? "")) return kept(v.recv);
      return null;
    };
    const MUTABLE = { has: (k) => /^(pendingMessages|outgoingMessages)$/.test(k) || /Map|Cache|\[\]/.test(typeText(k)) };
    function typeText(k) { const m = cls.members.find((q) => q.name?.getText() === k); return m ? p.checker.typeToString(p.checker.getTypeAtLocation(m)) : ""; }
    if (process.env.VDBG) console.error(lab, unit.blocks.length);
    let changes = 0;
    simulate(unit, {
      init: { d: "", e: "", c: "" },
      inst(s, v) {
        const k = change(v);
        if (k) { changes++; return { d: s.d || k + " at " + p.loc(v.ast), e: s.e || (traffic.has(k) ? k + " at " + p.loc(v.ast) : ""), c: "" }; }
        if (v.op === "Call" && v.targetFn === commit) return { ...s, c: "" + v.id };
        if (v.op === "Await" && s.c) { const a = resolve(v.args[0]); if (a.op === "Call" && a.targetFn === commit || reachesCommit(a)) return { d: "", e: "", c: "" }; }
        if (v.op === "Return" && s.c && v.args[0] && reachesCommit(resolve(v.args[0]))) return { d: "", e: "", c: "" };
        return s;
      },
      exit(s, kind, cx) {
        if (kind === "return") ctx.ob(R.commit, !s.d, { key: lab + "|" + s.d.split(" ")[0], at: p.loc(f), message: `${lab} ends with a change of ${s.d} not committed`, path: s.d ? describePath(p, cx.path()) : undefined });
        else if (both) ctx.ob(R.fail, !s.e, { key: lab + "|" + s.e.split(" ")[0], at: p.loc(f), message: `${lab} fails with a change of ${s.e} not committed`, path: s.e ? describePath(p, cx.path()) : undefined });
      },
    }, { maxStates: 2000, maxSteps: 2000000 });
    ctx.count("operations", 1); if (changes) ctx.sample(`${lab}: ${changes} changes followed`);
    function reachesCommit(a, seen = new Set()) { a = resolve(a); if (!a || seen.has(a.id)) return false; seen.add(a.id); if (a.op === "Call" && a.targetFn === commit) return true; return (a.op === "Call" || a.op === "Array" || a.op === "Phi") && [...(a.args ?? []), ...(a.callArgs ?? [])].some((x) => reachesCommit(x, seen)); }
  }
}
