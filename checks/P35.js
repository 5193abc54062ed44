"use strict";
// P35: disconnecting stops everything; a lost connection comes back.
const { ts } = require("../lib/project.js");
const { track, describePath, resolve } = require("../lib/facts.js");
const { enclosing, typeOfValue } = require("../lib/util.js");

const R = {
  loops: "every loop a class starts is stopped when it disconnects, before anything is waited for",
  sleep: "a loop that is told to stop does not sleep on",
  base: "disconnecting does what disconnecting the base does",
  all: "disconnecting reaches every connection that is held",
  flag: "disconnecting is recorded and closes an open connection",
  late: "an attempt to connect that a disconnect overtook does not leave the connection open",
  again: "what reconnects by itself does so only while it was not told to disconnect",
  lost: "a lost connection is established again",
  flush: "what is cached is written before the storage is closed",
};
module.exports = {
  technique: "typestate over SSA form with path facts, interprocedural by inlining",
  explanation: "For every class with a disconnect method: the loops it starts (fields of the loop class with a call to start) are aborted on every path of disconnect before the first wait; the delays in their bodies take the loop's signal; an override calls the method it overrides on every path; every connection held in a field, collection or record is disconnected, for every element. In the session, disconnect records the fact and closes the connection unless it is found closed. In its connect method the disconnected flag is cleared only after a field that disconnect writes was compared since the last wait, and every failure after the connection was opened closes it. The handler of state changes ends without a connection only if it found that it was told to disconnect, that nothing changed or that it is reconnecting already; it marks the latter only while it runs, and every attempt is preceded, without a wait in between, by finding that it was not told to disconnect. In the client, each storage is committed with force before it is closed, and none is left open.",
  rules: Object.values(R),
  assumptions: ["a disconnect followed at once by a connect in the same function is a deliberate reconnection", "aborted loops end when what they wait for settles"],
  run(ctx) {
    const p = ctx.p; const classes = []; for (const f of p.sourceFiles) if (p.isRepo(f)) p.walk(f, (n) => { if (ts.isClassDeclaration(n) && n.name) classes.push(n); });
    const loopClass = classes.find((c) => c.name.text === "AbortableLoop"); ctx.need(loopClass, "the loop class"); if (!loopClass) return;
    const method = (c, n) => c.members.find((m) => ts.isMethodDeclaration(m) && m.body && m.name.getText() === n);
    const typeNames = (t, d = 0) => { if (!t || d > 4) return []; const out = []; const s = t.symbol?.name; if (s && t.symbol.declarations?.some(ts.isClassDeclaration)) out.push(t.symbol.declarations.find(ts.isClassDeclaration)); for (const x of t.types ?? []) out.push(...typeNames(x, d + 1)); for (const x of p.checker.getTypeArguments?.(t) ?? []) out.push(...typeNames(x, d + 1)); for (const x of t.aliasTypeArguments ?? []) out.push(...typeNames(x, d + 1)); const st = t.getStringIndexType?.(), nt = t.getNumberIndexType?.(); if (st) out.push(...typeNames(st, d + 1)); if (nt && nt !== st) out.push(...typeNames(nt, d + 1)); return out; };
    const baseOf = (c) => { const h = c.heritageClauses?.find((q) => q.token === ts.SyntaxKind.ExtendsKeyword)?.types[0]; const d = h && typeNames(p.checker.getTypeAtLocation(h))[0]; return d && d !== c ? d : null; };
    const has = (c) => { for (let k = c, i = 0; k && i < 6; k = baseOf(k), i++) if (method(k, "disconnect")) return true; return false; };
    const abort = method(loopClass, "abort"), start = method(loopClass, "start"); ctx.need(abort && start, "the loop's methods");
    const inlineOwn = (c) => ({ inline: (name, fn) => { let k = fn.parent; return ts.isClassDeclaration(k) && k === c; }, never: (name, fn) => fn.parent === loopClass || fn.name?.getText?.() === "disconnect" || fn.name?.getText?.() === "commit" || fn.name?.getText?.() === "close" });
    let loops = 0, conns = 0;
    for (const c of classes) {
      const d = method(c, "disconnect"); const lab = p.rel(c.getSourceFile()) + "#" + c.name.text; const ob = (rule, ok, key, at, cx, msg) => ctx.ob(rule, !!ok, { key: lab + "|" + key, at: p.loc(at), message: `${lab} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
      const fields = c.members.filter((m) => ts.isPropertyDeclaration(m)); const mine = fields.filter((m) => typeNames(p.checker.getTypeAtLocation(m)).includes(loopClass)).map((m) => m.name.getText());
      const started = new Set(); p.walk(c, (n) => { if (ts.isCallExpression(n) && p.resolveCallee(n)?.fn === start && ts.isPropertyAccessExpression(n.expression)) { const e = n.expression.expression; if (ts.isPropertyAccessExpression(e)) started.add(e.name.text); else if (mine.length) for (const f of mine) started.add(f); } }); const want = mine.filter((f) => started.has(f)); loops += want.length;
      for (const m of fields) if (m.initializer && ts.isNewExpression(m.initializer) && mine.includes(m.name.getText())) bodies(ctx, m.initializer, ob);
      if (want.length) ob(R.loops, d, "method", c, null, "starts a loop and cannot be disconnected"); if (!d) continue;
      // what it holds
      const held = fields.filter((m) => !want.includes(m.name.getText()) && typeNames(p.checker.getTypeAtLocation(m)).some((k) => k !== c && has(k) && /Client|Session|Pool/.test(k.name?.text ?? ""))).map((m) => m.name.getText()); const params = c.members.find(ts.isConstructorDeclaration)?.parameters.filter((q) => ts.isParameterPropertyDeclaration(q, q.parent) && typeNames(p.checker.getTypeAtLocation(q)).some((k) => k !== c && has(k))).map((q) => q.name.getText()) ?? []; held.push(...params); conns += held.length;
      const base = baseOf(c); const over = base && has(base) && (() => { for (let k = base, i = 0; k && i < 6; k = baseOf(k), i++) { const m = method(k, "disconnect"); if (m) return m; } })();
      const of = (k, f) => new RegExp("this\\." + f.replace("#", "#") + "(?![\\w$])").test(k) && !/slice|filter/.test(k);
      const inherited = (k, h) => { for (let i = 0; k && i < 6; k = baseOf(k), i++) if (k.members.some((m) => m.name?.getText() === h)) return true; return false; };
      let rets = 0;
      track(ctx, d, { policy: inlineOwn(c), keep: (k) => /isDisconnected|isConnected/.test(k), maxStates: 20000, init: { off: [], seen: [], pend: null, sup: 0 },
        inst(s, v, cx, T) {
          const x = s.x, put = (n) => ({ ...s, x: { ...x, ...n } });
          if (v.op === "IterElem") { const k = T(v).key; const fs = held.filter((h) => of(k, h)); if (!fs.length) return undefined; let ty = typeOfValue(p, v); ty = ty && p.checker.getNonNullableType(ty); const one = !ty || (ty.types ?? [ty]).some((q) => { const dd = q.symbol?.declarations?.find(ts.isClassDeclaration); return dd && has(dd); }); return put({ pend: one ? fs[0] : x.pend, seen: [...new Set([...x.seen, ...fs])].sort() }); }
          if (v.op === "Await" && !v.inlined && !x.waited) { ob(R.loops, want.every((w) => x.off.includes(w)), "first", v.ast, cx, "waits for something before it stops its loops"); return put({ waited: 1 }); }
          if (v.op !== "Call") return undefined;
          if (v.targetFn === abort) { const k = v.recv ? T(v.recv).key : ""; const off = want.filter((w) => of(k, w)); return put({ off: [...new Set([...x.off, ...off])].sort() }); }
          if (v.ast && ts.isCallExpression(v.ast) && ts.isPropertyAccessExpression(v.ast.expression) && v.ast.expression.expression.kind === ts.SyntaxKind.SuperKeyword && v.targetFn === over) return put({ sup: 1 });
          if (v.method === "disconnect" && v.recv) { const k = T(v.recv).key; const fs = held.filter((h) => of(k, h)); if (fs.length) return put({ pend: fs.includes(x.pend) ? null : x.pend, seen: [...new Set([...x.seen, ...fs])].sort() }); }
          return undefined;
        },
        edge(s, t, truth, cx, T, H) {
          while (t.h === "not") { t = t.a[0]; truth = !truth; } const x = s.x, k = t.key; const it = /^IterHas\(/.test(k);
          if (it && !truth && /^IterHas\(arr\(.+\)\)/.test(k.replace(/%[\d~]+;/g, "")) && [...want, ...held].some((w) => of(k, w)) && ![...want, ...held].some((w) => of(k, w) && (x.off.includes(w) || x.seen.includes(w)))) return null; // a list written out is not empty
          if (it || x.pend) { if (x.pend && (it && of(k, x.pend))) { ob(R.all, H.all.some((q) => /^\+.*isDisconnected$/.test(q)) , "skipped|" + x.pend, d, cx, `leaves out a connection of ${x.pend}`); return { ...s, x: { ...x, pend: null } }; } }
          if (it || /<.*\.length\)|\.length[<>]/.test(k)) { const f = held.find((h) => of(k, h)); if (f) return { ...s, x: { ...x, seen: [...new Set([...x.seen, f])].sort() } }; }
          if (/^isnull\(this\.#?\w+\)/.test(k) && truth) { const f = held.find((h) => of(k, h)); if (f) return { ...s, x: { ...x, seen: [...new Set([...x.seen, f])].sort() } }; }
          return undefined;
        },
        exit(s, kind, cx) { if (kind !== "return") return; rets++; const x = s.x; for (const w of want) ob(R.loops, x.off.includes(w), w, d, cx, `does not stop ${w}`); for (const h of held) ob(R.all, x.seen.includes(h) || x.sup && inherited(base, h), h, d, cx, `does not disconnect ${h}`); if (over) ob(R.base, x.sup, "super", d, cx, "does not do what disconnecting its base does"); } });
      ob(R.loops, rets > 0, "returns", d, null, "never finishes disconnecting");
      if (held.length === 0 && want.length === 0 && !over) void 0;
    }
    ctx.count("loops", loops); ctx.count("connections held", conns);
    session(ctx, classes, method); storages(ctx, classes, method);
    for (const [k, n] of [[R.loops, 8], [R.sleep, 4], [R.base, 2], [R.all, 4], [R.flag, 2], [R.late, 2], [R.again, 1], [R.lost, 3], [R.flush, 4]]) ctx.floor(k, n);
  },
};
function bodies(ctx, n, ob) {
  const p = ctx.p; let f = n.arguments[0]; if (!f) return; if (ts.isCallExpression(f) && ts.isPropertyAccessExpression(f.expression) && f.expression.name.text === "bind") f = p.resolveFunctionRef(f.expression.expression)?.fn; else if (!ts.isArrowFunction(f) && !ts.isFunctionExpression(f)) f = p.resolveFunctionRef(f)?.fn; if (!f?.body) { ctx.need(false, "the body of a loop"); return; }
  const sig = f.parameters[1] && p.symbolOf(f.parameters[1].name); const lp = f.parameters[0] && p.symbolOf(f.parameters[0].name);
  let waits = 0; p.walk(f.body, (q) => { if (!ts.isCallExpression(q)) return; const nm = p.resolveCallee(q)?.fn?.name?.getText?.() ?? q.expression.getText(); if (nm !== "delay") return; waits++; const o = q.arguments[1]; const uses = o && (() => { let y = false; const look = (e) => { if (ts.isIdentifier(e)) { const s = ts.isShorthandPropertyAssignment(e.parent) ? p.checker.getShorthandAssignmentValueSymbol(e.parent) : p.symbolOf(e); if (s === sig) y = true; const dd = s?.valueDeclaration; if (dd && ts.isVariableDeclaration(dd) && dd.initializer && !y) p.walk(dd.initializer, (z) => { if (ts.isIdentifier(z)) { const s2 = ts.isShorthandPropertyAssignment(z.parent) ? p.checker.getShorthandAssignmentValueSymbol(z.parent) : p.symbolOf(z); if (s2 === sig) y = true; } }); } }; if (ts.isIdentifier(o)) look(o); p.walk(o, look); return y; })(); ob(R.sleep, sig && uses, "delay", q, null, "sleeps in a loop without noticing that it is stopped"); });
  void lp; if (!waits) ob(R.sleep, true, "none", n, null, "");
}
function session(ctx, classes, method) {
  const p = ctx.p; const c = classes.find((k) => { let y = false; p.walk(k, (n) => { if (ts.isBinaryExpression(n) && ts.isPropertyAccessExpression(n.left) && n.left.name.text === "stateChangeHandler" && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && /#Session/.test("#" + k.name.text)) y = true; }); return y; }); ctx.need(c, "the session that watches its connection"); if (!c) return;
  const lab = p.rel(c.getSourceFile()) + "#" + c.name.text; const ob = (rule, ok, key, at, cx, msg) => ctx.ob(rule, !!ok, { key: lab + "|" + key, at: p.loc(at), message: `${lab} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  const getter = c.members.find((m) => ts.isGetAccessor(m) && m.name.getText() === "isDisconnected"); let D = null; if (getter) p.walk(getter.body, (n) => { if (ts.isReturnStatement(n) && n.expression && ts.isPropertyAccessExpression(n.expression)) D = n.expression.name.text; }); ctx.need(D, "whether the session was told to disconnect"); const dis = method(c, "disconnect"), con = method(c, "connect"); ctx.need(dis && con, "the session's methods"); if (!D || !dis || !con) return;
  const own = { inline: (n, fn) => fn.parent === c && fn !== con && fn !== dis, never: (n, fn) => fn === con || fn === dis };
  const up = (k) => /\.connection\.isConnected$/.test(k) || /isConnected$/.test(k); const written = new Set();
  track(ctx, dis, { policy: own, keep: (k) => /isConnected/.test(k), init: { flag: 0, closed: 0 }, inst(s, v, cx, T) { if (v.op === "SetProp") { written.add(v.name); if (v.name === D) { const t = T(v.args[1]); return { ...s, x: { ...s.x, flag: t.h === "const" && t.n === true ? 1 : 0 } }; } } if (v.op === "Call" && v.method === "abort") { const r = T(v.recv).key; const m = /this\.(#?\w+)/.exec(r); if (m) written.add(m[1]); } if (v.op === "Call" && v.method === "close" && /connection$/.test(T(v.recv).key)) return { ...s, x: { ...s.x, closed: 1 } }; return undefined; },
    exit(s, kind, cx, T, H) { if (kind !== "return") return; ob(R.flag, s.x.flag, "flag", dis, cx, "does not record that it was told to disconnect"); ob(R.flag, s.x.closed || H.all.some((k) => k[0] === "-" && up(k)), "closed", dis, cx, "leaves an open connection open"); } });
  written.delete(D); let cleared = 0;
  // connecting
  track(ctx, con, { policy: own, keep: () => false, init: { fresh: 1, open: 0, opening: 0 }, atThrow: true,
    inst(s, v, cx, T) {
      const x = s.x, put = (n) => ({ ...s, x: { ...x, ...n } });
      if (v.op === "Call" && v.method === "open") return put({ opening: v.id }); if (v.op === "Call" && v.method === "close") return put({ open: 0 });
      if (v.op === "Await" && !v.inlined) return put({ fresh: 0, open: resolve(v.args[0]).id === x.opening ? 1 : x.open });
      if (v.op === "SetProp" && v.name === D) { const t = T(v.args[1]); if (t.h === "const" && t.n === false) { cleared++; ob(R.late, x.fresh, "overtaken", v.ast, cx, "takes back a disconnect that came while it was connecting"); return put({ open: 0 }); } }
      return undefined;
    },
    edge(s, t, truth) { while (t.h === "not") { t = t.a[0]; truth = !truth; } const k = t.key; if ([...written].some((w) => k.includes("this." + w)) && (/===/.test(k) ? truth : !/[<>+*\/-]/.test(k) && !truth)) return { ...s, x: { ...s.x, fresh: 1 } }; if (/connection\.isConnected$/.test(k.replace(/%[\d~]+;/g, "")) && !truth) return { ...s, x: { ...s.x, open: 0 } }; return undefined; },
    onThrow(s, v) { return v.op === "Await" && resolve(v.args[0]).id === s.x.opening ? { ...s, x: { ...s.x, open: 0 } } : undefined; },
    exit(s, kind, cx) { if (kind === "return") return; ob(R.late, !s.x.open, "left open", con, cx, "fails and leaves the connection open"); } });
  ob(R.late, cleared > 0, "connects", con, null, "never records that it is connected");
  // the handler of state changes
  let handler = null; p.walk(c, (n) => { if (ts.isBinaryExpression(n) && ts.isPropertyAccessExpression(n.left) && n.left.name.text === "stateChangeHandler") p.walk(n.right, (q) => { if (ts.isCallExpression(q)) { const f = p.resolveCallee(q)?.fn; if (f?.parent === c) handler = f; } }); }); ob(R.lost, handler, "watched", c, null, "does not notice that its connection was lost"); if (!handler) return;
  const flags = new Set(); p.walk(c, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && n.right.kind === ts.SyntaxKind.TrueKeyword && ts.isPropertyAccessExpression(n.left)) flags.add(n.left.name.text); });
  let tries = 0; track(ctx, handler, { policy: { inline: own.inline, never: (n, fn) => fn === con || fn === dis || ts.isGetAccessor(fn) }, keep: (k) => /\$0|this\.#?\w+$|===/.test(k), maxStates: 20000, init: { fresh: 0, ok: 0, busy: null }, atThrow: true,
    inst(s, v, cx, T) {
      const x = s.x, put = (n) => ({ ...s, x: { ...x, ...n } });
      if (v.op === "Await" && !v.inlined) { const id = resolve(v.args[0]).id; return put({ fresh: 0, done: id === x.try ? 1 : x.done }); }
      if (v.op === "Call" && (v.targetFn === con || v.method === "connect")) { tries++; ob(R.again, x.fresh, "guard", v.ast, cx, "reconnects although it may have been told to disconnect"); return put({ try: v.id }); }
      if (v.op === "SetProp" && T(v.args[0]).key === "this") { const t = T(v.args[1]); if (t.h === "const" && t.n === true) return put({ busy: v.name }); if (t.h === "const" && t.n === false && x.busy === v.name) return put({ busy: null }); }
      return undefined;
    },
    edge(s, t, truth, cx) { while (t.h === "not") { t = t.a[0]; truth = !truth; } const k = t.key.replace(/%[\d~]+;/g, ""); const x = s.x; void cx; if (k === "this." + D || k === "this.isDisconnected") return { ...s, x: { ...x, fresh: truth ? 0 : 1, why: truth ? 1 : x.why && x.why !== 1 ? x.why : 0 } }; if (truth && (k === "$0" || k === "this.isConnected" || /^this\.#?is\w*onnected$/.test(k))) return { ...s, x: { ...x, why: 2 } }; if (truth && /^this\.#?\w+$/.test(k) && flags.has(k.slice(5))) return { ...s, x: { ...x, why: 3, by: k.slice(5) } }; if (truth && /===/.test(k) && /\$0/.test(k) && /this\./.test(k)) return { ...s, x: { ...x, why: 4 } }; return undefined; },
    onThrow(s, v) { return v.op === "Await" ? { ...s, x: { ...s.x, done: 0 } } : undefined; },
    exit(s, kind, cx) { const x = s.x; if (x.busy) ob(R.lost, false, "busy", handler, cx, "goes on saying that it is reconnecting when it is not"); if (kind !== "return") return; ob(R.lost, x.why || x.done, "given up", handler, cx, "does not establish a lost connection again"); } });
  ob(R.lost, tries > 0, "tries", handler, null, "never tries to establish a lost connection again");
}
function storages(ctx, classes, method) {
  const p = ctx.p; const c = classes.find((k) => k.name.text === "Client" && method(k, "disconnect")); ctx.need(c, "the client"); if (!c) return; const d = method(c, "disconnect"); const lab = p.rel(c.getSourceFile()) + "#" + c.name.text; const ob = (ok, key, at, cx, msg) => ctx.ob(R.flush, !!ok, { key: lab + "|" + key, at: p.loc(at), message: `${lab} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  const bare = (k) => k.replace(/%[\d~]+;/g, ""); const isSt = (v) => { try { const e = v.ast.expression.expression; return /StorageOperations/.test(p.checker.typeToString(p.checker.getTypeAtLocation(e))); } catch { return false; } }; const closes = [];
  track(ctx, d, { policy: { inline: (n, fn) => fn.parent === c && !ts.isGetAccessor(fn) && fn.name.getText() !== "disconnect", never: (n, fn) => ts.isGetAccessor(fn) || /^(commit|close|disconnect)$/.test(fn.name?.getText?.() ?? "") }, keep: (k) => /provider/.test(k), maxStates: 20000, init: { made: {}, done: [], closed: [] },
    inst(s, v, cx, T) {
      const x = s.x, put = (n) => ({ ...s, x: { ...x, ...n } }); if (v.op === "Call" && v.recv && isSt(v)) {
        const k = bare(T(v.recv).key); if (v.method === "commit") { const a = v.callArgs[0] && T(v.callArgs[0]); return a?.h === "const" && a.n === true ? put({ made: { ...x.made, [v.id]: k } }) : undefined; }
        if (v.method === "close") { ob(x.done.includes(k), "committed|" + k, v.ast, cx, "closes a storage before what is cached for it is written"); closes.push(k); return put({ closed: [...new Set([...x.closed, k])].sort() }); }
      }
      if (v.op === "Await" && !v.inlined) { const hit = (q, n = 0) => { q = resolve(q); const out = x.made[q.id] ? [x.made[q.id]] : []; if (n < 5 && q.op === "Call") for (const a of q.callArgs) out.push(...hit(a, n + 1)); if (n < 5 && (q.op === "Array" || q.op === "Spread")) for (const a of q.args) out.push(...hit(a, n + 1)); return out; }; const l = hit(v.args[0]); if (l.length) return put({ done: [...new Set([...x.done, ...l])].sort() }); }
      return undefined;
    },
    exit(s, kind, cx, T, H) { if (kind !== "return") return; ob(s.x.closed.includes("this.storage"), "storage", d, cx, "leaves the storage open"); ob(s.x.done.includes("this.storage") && s.x.done.includes("this.messageStorage"), "flushed", d, cx, "does not write what is cached"); const same = H.all.some((k) => /^\+\(.*provider===.*provider\)$/.test(bare(k))); ob(same || s.x.closed.includes("this.messageStorage"), "messages", d, cx, "leaves the storage of messages open"); } });
  // storages of other data centres
  const closures = []; p.walk(d.body, (n) => { if ((ts.isArrowFunction(n) || ts.isFunctionExpression(n)) && n.body) closures.push(n); }); let branch = closes.some((k) => /IterElem/.test(k));
  for (const g of closures) { let any = false; track(ctx, g, { policy: {}, keep: () => false, init: { made: {}, done: [], closed: 0 }, inst(s, v, cx, T) { const x = s.x, put = (n) => ({ ...s, x: { ...x, ...n } }); if (v.op === "Call" && v.recv && isSt(v)) { const k = bare(T(v.recv).key); if (v.method === "commit" && v.callArgs[0] && T(v.callArgs[0]).n === true) return put({ made: { ...x.made, [v.id]: k } }); if (v.method === "close") { any = true; ob(x.done.includes(k), "committed|branch", v.ast, cx, "closes a storage before what is cached for it is written"); return put({ closed: 1 }); } } if (v.op === "Await" && x.made[resolve(v.args[0]).id]) return put({ done: [...x.done, x.made[resolve(v.args[0]).id]] }); return undefined; }, exit(s, kind, cx) { if (kind === "return" && (any || /torage/.test(g.parameters[0]?.getText() ?? ""))) ob(s.x.closed, "branch", g, cx, "leaves a storage open"); } }); if (any) branch = true; }
  ob(branch, "branches", d, null, "leaves the storages of other data centres open");
}
