"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { simulate, describePath } = require("../lib/sim.js");
const { Terms } = require("../lib/terms.js");
const { allFunctions, enclosing, fnLabel, lower, callees, typeRefutes } = require("../lib/util.js");

const hasLock = (p) => {
  // mutex classes: every class with a method "lock" whose result is a promise of a function
  const out = [];
  for (const sf of p.sourceFiles) p.walk(sf, (n) => {
    if (!ts.isClassDeclaration(n) || !n.name) return;
    for (const m of n.members) if (ts.isMethodDeclaration(m) && m.body && /^(lock|acquire)$/.test(m.name.text ?? "")) out.push(m);
  });
  return out;
};

function mutexField(p, call) {
  // identity of the mutex: the declaration the receiver reads
  let r = call.expression; if (!ts.isPropertyAccessExpression(r)) return undefined;
  const s = p.symbolOf(r.expression); return s?.valueDeclaration && ts.isPropertyDeclaration(s.valueDeclaration) ? p.declName(s.valueDeclaration) : undefined;
}

module.exports = {
  technique: "typestate dataflow over SSA control-flow graphs with exception edges",
  explanation: "Every acquisition of a mutex in the tree is found by symbol; the function that contains it is lowered to a control-flow graph with exception edges for every call and await, helpers inlined, finally blocks duplicated, and a typestate analysis (free, requested, held) is run to a fixpoint. The same is done for stream readers and for boolean busy flags (tested on entry, then set). The mutex itself must chain: read the predecessor and install its own promise without a suspension in between, wait for the predecessor, and hand out the resolver of the installed promise.",
  rules: ["held lock is released on every normal and exceptional exit", "a lock request is awaited and its release kept", "lock handed to a detached closure is released in its finally", "busy flag is cleared on every exit or by a finally closure", "no acquisition of a mutex while the same mutex is held", "mutex chains holders"],
  assumptions: ["logging, Map/Set/array operations and clearing timers do not throw", "a promise that never settles is outside this property"],
  run(ctx) {
    const p = ctx.p;
    const locks = new Set(hasLock(p));
    ctx.need(locks.size, "a mutex class with a lock method");
    for (const m of locks) checkMutex(ctx, m);
    // functions that hand their caller a held lock count as acquisitions themselves
    const acq = new Set(locks); const done = new Map();
    let changed = true, rounds = 0;
    while (changed && rounds++ < 6) {
      changed = false;
      for (const fn of allFunctions(p)) {
        if (acq.has(fn) || done.get(fn) === acq.size) continue;
        const sites = [];
        const visit = (n) => { if (n !== fn && ts.isFunctionLike(n) && n.body) return; if (ts.isCallExpression(n)) { const r = p.resolveCallee(n); if (r.fn && acq.has(r.fn)) sites.push(n); } ts.forEachChild(n, visit); };
        ts.forEachChild(fn, visit);
        if (!sites.length) continue;
        done.set(fn, acq.size);
        const res = analyseLocks(ctx, fn, acq);
        if (res.transfers) { acq.add(fn); changed = true; continue; }
        for (const s of sites) ctx.ob("lock acquisition released on every exit", !res.bad.some((b) => b.call === s || !b.call), { key: fnLabel(p, fn), at: p.loc(s), message: "" });
        for (const b of res.bad) ctx.violate({ rule: "lock released on every exit", key: fnLabel(p, fn) + "|" + b.kind, at: p.loc(b.call ?? fn), message: `${fnLabel(p, fn)}: ${b.message}`, path: b.path });
      }
    }
    // drop the placeholder violations without text (the specific one above names the path)
    ctx.violations = ctx.violations.filter((v) => v.message !== "");
    busyFlags(ctx);
    readers(ctx);
    ctx.floor("lock acquisition released on every exit", 20);
    ctx.floor("busy flag", 4); ctx.floor("mutex chains holders", 1); ctx.floor("call made while a lock is held", 20); ctx.floor("stream reader released", 1);
  },
};

function analyseLocks(ctx, fn, acq) {
  const p = ctx.p;
  // helpers that neither reach a lock nor take a function cannot change the state of a lock: they stay single calls
  const u = lower(p, fn, { never: (name, f) => acq.has(f), inline: (name, f) => !f || !isAsync(f) || touchesLocks(p, f, acq) ? undefined : false });
  const sites = new Map(), fields = new Map(); let nested = 0; // call value id -> ast, mutex field
  for (const b of u.blocks) for (const v of b.insts) if (v.op === "Call" && v.targetFn && acq.has(v.targetFn)) { sites.set(v.id, v.ast); const f = mutexField(p, v.ast); if (f) fields.set(v.id, f); }
  const keyId = (t, s) => { const m = /%(\d+);$/.exec(t.key); if (m && sites.has(+m[1]) && (t.h === "call")) return +m[1]; if (t.h === "val" && s?.alias?.[t.n] !== undefined) return s.alias[t.n]; return undefined; };
  const bad = [], escaped = new Set(); let transfers = false, exitsHeld = 0, exitsNormal = 0;
  // once a lock is released its names do not matter any more
  const set = (s, id, st) => ({ ...s, h: { ...s.h, [id]: st }, alias: st === "F" || st === "T" ? Object.fromEntries(Object.entries(s.alias).filter(([, x]) => x !== +id)) : s.alias });
  const closureReleases = (clo, id) => {
    const site = sites.get(id); let yes = false;
    p.walk(clo, (n) => { if (ts.isCallExpression(n) && ts.isIdentifier(n.expression)) { const d = p.symbolOf(n.expression)?.valueDeclaration; if (d && ts.isVariableDeclaration(d) && d.initializer) p.walk(d.initializer, (x) => { if (x === site) yes = true; }); } });
    return yes;
  };
  const r = simulate(u, {
    init: { h: {}, alias: {} },
    phi(s, ph, a, t) { const id = keyId(t, s); if (id !== undefined && (s.h[id] === "H" || s.h[id] === "R")) return s.alias[ph.id] === id ? s : { ...s, alias: { ...s.alias, [ph.id]: id } }; if (s.alias[ph.id] !== undefined) { const al = { ...s.alias }; delete al[ph.id]; return { ...s, alias: al }; } return s; },
    inst(s, v, cx) {
      if (v.op === "Call" && !v.spawned && v.targetFn) {
        // locks taken by inlined callees are judged where those callees are the root
        const held = Object.entries(s.h).filter(([id, st]) => st === "H" && enclosing(sites.get(+id)) === fn).map(([id]) => fields.get(+id)).filter(Boolean);
        if (held.length) {
          nested++;
          const mine = sites.has(v.id) ? [fields.get(v.id)] : (isThisCall(v.ast) ? [...acquires(p, v.targetFn, acq)] : []);
          const again = mine.find((x) => held.includes(x));
          if (again) bad.push({ call: v.ast, kind: "reentry", message: `${again} is held and this waits for ${v.name}, which acquires it again: it would wait for itself`, path: describePath(p, cx.path()) });
        }
      }
      if (v.op === "Call" && sites.has(v.id)) return set(s, v.id, "R");
      if (v.op === "Await" || v.op === "Id") { const id = keyId(cx.term(v.args[0]), s); if (id !== undefined && s.h[id] === "R" && v.op === "Await") return set(s, id, "H"); return s; }
      if (v.op === "Store") { const id = keyId(cx.term(v.args[0]), s); if (id !== undefined) return { ...s, cell: { ...(s.cell ?? {}), [v.variable.name]: id } }; }
      if (v.op === "Call") {
        const rel = (fv) => { if (!fv) return; const x = resolve(fv); if (x.op === "Load" && s.cell?.[x.variable.name] !== undefined) return s.cell[x.variable.name]; return keyId(cx.term(x), s); };
        let id = rel(v.fnValue);
        if (id !== undefined) return set(s, id, "F");
        for (const a of v.callArgs ?? []) {
          const x = resolve(a); id = rel(a);
          if (id !== undefined) { if (v.method === "finally") return set(s, id, "F"); escaped.add(id); return set(s, id, "F"); }
          if (x.op === "Closure" && v.method === "finally") for (const i of sites.keys()) if ((s.h[i] === "H") && closureReleases(x.fn, i)) return set(s, i, "F");
        }
      }
      if (v.op === "SetProp" || v.op === "Object" || v.op === "Array") for (const a of v.args) { const id = keyId(cx.term(a), s); if (id !== undefined) { escaped.add(id); return set(s, id, "F"); } }
      if (v.op === "Return") { const id = keyId(cx.term(v.args[0]), s); if (id !== undefined && (s.h[id] === "H" || s.h[id] === "R")) return set(s, id, "T"); }
      return s;
    },
    edge(s, c, truth, term) { return typeRefutes(p, term.cond, truth) ? null : s; },
    onThrow(s, v, cx) { if (v.op === "Await") { const id = keyId(cx.term(v.args[0]), s); if (id !== undefined) return set(s, id, "F"); } return s; },
    exit(s, kind, cx) {
      for (const [id, st] of Object.entries(s.h)) {
        if (kind === "return") exitsNormal++;
        if (st === "T") { exitsHeld++; continue; }
        if (st === "F") continue;
        const call = sites.get(+id);
        bad.push({ call, kind, message: st === "H" ? `the lock acquired here is still held when the function ${kind === "throw" ? "fails" : "returns"}` : "the lock is requested but its release is lost (request not awaited)", path: describePath(p, cx.path()) });
      }
    },
  });
  void r;
  ctx.count("call made while a lock is held", nested);
  if (exitsHeld && !bad.some((b) => b.kind === "return")) transfers = true;
  for (const id of sites.keys()) { if (escaped.has(id)) ctx.count("lock handed on"); }
  return { bad, transfers };
}

function checkMutex(ctx, m) {
  const p = ctx.p;
  const u = lower(p, m, {});
  let returns = 0;
  const label = fnLabel(p, m);
  simulate(u, {
    init: { ph: "init" },
    inst(s, v, cx) {
      const t = v.op === "GetProp" || v.op === "SetProp" ? v.declName ?? v.name : undefined;
      if (v.op === "Await" && s.ph === "installed") { const a = cx.term(v.args[0]).key; return a === s.prev ? { ...s, ph: "waited" } : s; }
      if (v.op === "Await" && s.ph === "read" && !v.inlined) return { ...s, ph: "suspended" };
      if (v.op === "Await" && s.ph === "init") return { ...s, ph: "init" };
      if (v.op === "GetProp" && cx.term(v.args[0]).h === "this" && (s.ph === "init" || s.ph === "read")) return { ...s, ph: "read", prev: cx.term(v).key, field: t };
      if (v.op === "SetProp" && s.field === t && (s.ph === "read" || s.ph === "suspended")) { return { ...s, ph: s.ph === "read" ? "installed" : "torn", prom: resolve(v.args[1]).id, promKey: cx.term(v.args[1]).key }; }
      if (v.op === "Return") {
        returns++;
        const x = resolve(v.args[0]);
        let rk = "other";
        if (x.op === "Resolver" && x.which === "resolve" && s.prom === resolve(x.args[0]).id) rk = "ok";
        if (x.op === "GetProp" && x.name === "resolve" && s.promKey === cx.term(x.args[0]).key + ".promise") rk = "ok";
        if (x.op === "Closure") { p.walk(x.fn, (n) => { if (ts.isCallExpression(n) && /resolve/i.test(n.expression.getText())) rk = "ok"; if (ts.isCallExpression(n) && ts.isIdentifier(n.expression)) rk = "ok"; }); }
        if (x.op === "Load" || x.op === "Phi" || x.op === "Undef") rk = "ok";
        return { ...s, ret: rk };
      }
      return s;
    },
    exit(s, kind, cx) {
      if (kind !== "return") return;
      ctx.ob("mutex chains holders", s.ph === "waited" && s.ret === "ok", { key: label, at: p.loc(m), message: `${label} must read the predecessor and install its own promise without suspension in between, wait for the predecessor, and return the resolver of its own promise (found state "${s.ph}", result "${s.ret}")`, path: describePath(p, cx.path()) });
    },
  });
  if (!returns) ctx.violate({ rule: "mutex chains holders", key: label, at: p.loc(m), message: `${label} never returns a release` });
}

const isAsync = (f) => !!(ts.canHaveModifiers(f) && ts.getModifiers(f)?.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword));
function touchesLocks(p, f, acq, memo = new Map()) {
  if (!f) return false;
  if (memo.has(f)) return memo.get(f);
  memo.set(f, false);
  let r = f.parameters?.some((q) => p.checker.getTypeAtLocation(q).getCallSignatures().length || ts.isObjectBindingPattern(q.name)) || acq.has(f);
  if (!r) p.walk(f, (n) => { if (!r && ts.isCallExpression(n)) { const g = p.resolveCallee(n).fn; if (g && p.isRepo(g) && touchesLocks(p, g, acq, memo)) r = true; } });
  memo.set(f, r);
  return r;
}
const acqMemo = new Map();
/** mutex fields that a function acquires, directly or through methods of the same object it waits for */
function acquires(p, fn, acq, stack = new Set()) {
  if (acqMemo.has(fn)) return acqMemo.get(fn);
  if (stack.has(fn)) return new Set();
  stack.add(fn);
  const out = new Set();
  for (const c of callees(p, fn)) {
    if (c.within !== fn || !c.fn) continue;
    if (acq.has(c.fn)) { const f = mutexField(p, c.call); if (f) out.add(f); continue; }
    if (!isThisCall(c.call) || !awaitedOrSync(p, c)) continue;
    for (const x of acquires(p, c.fn, acq, stack)) out.add(x);
  }
  stack.delete(fn);
  acqMemo.set(fn, out);
  return out;
}
function isThisCall(call) { let e = call.expression; if (!e || !ts.isPropertyAccessExpression(e)) return false; e = e.expression; return e.kind === ts.SyntaxKind.ThisKeyword || e.kind === ts.SyntaxKind.SuperKeyword; }
function awaitedOrSync(p, c) {
  const async = c.fn && ts.canHaveModifiers(c.fn) && ts.getModifiers(c.fn)?.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword);
  if (!async) return true;
  let q = c.call.parent; while (ts.isParenthesizedExpression(q) || ts.isPropertyAccessExpression(q) || ts.isCallExpression(q) && q.expression !== c.call && false) q = q.parent;
  return ts.isAwaitExpression(q) || ts.isReturnStatement(q);
}

/** private boolean fields used as busy flags: tested, and set, by the same function */
function busyFlags(ctx) {
  const p = ctx.p;
  for (const sf of p.sourceFiles) p.walk(sf, (cls) => {
    if (!ts.isClassDeclaration(cls)) return;
    for (const f of cls.members) {
      if (!ts.isPropertyDeclaration(f) || !f.initializer || f.initializer.kind !== ts.SyntaxKind.FalseKeyword || !ts.isPrivateIdentifier(f.name)) continue;
      const name = f.name.text;
      const writes = []; let clears = 0;
      p.walk(cls, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.name.text === name) { if (n.right.kind === ts.SyntaxKind.TrueKeyword) writes.push(n); if (n.right.kind === ts.SyntaxKind.FalseKeyword) clears++; } });
      for (const fn of new Set(writes.map((w) => enclosing(w)))) {
        if (!fn || ts.isConstructorDeclaration(fn)) continue;
        if (!guards(p, fn, name) || !clearsFlag(p, fn, name)) continue;
        const label = fnLabel(p, fn);
        const u = lower(p, fn, {});
        const exits = [];
        simulate(u, {
          init: "idle",
          inst(s, v) {
            if (v.op === "SetProp" && v.name === name) { const c = resolve(v.args[1]); return c.op === "Const" ? (c.value ? "busy" : s === "idle" ? s : "free") : s; }
            if (v.op === "Call" && (v.method === "finally" || v.method === "then" && v.callArgs.length > 1)) {
              const cl = (v.callArgs ?? []).map(resolve).filter((a) => a.op === "Closure");
              if (cl.length && cl.every((a) => clearsFlag(p, a.fn, name))) return "handed";
            }
            return s;
          },
          exit(s, kind, cx) { if (s !== "idle") exits.push({ s, kind, path: describePath(p, cx.path()) }); },
        });
        // a flag that every successful run leaves set records that something was done once: only failures must take it back
        const once = exits.some((e) => e.kind === "return") && exits.every((e) => e.kind !== "return" || e.s === "busy");
        const bad = exits.find((e) => e.s === "busy" && (e.kind === "throw" || !once));
        ctx.ob("busy flag", !bad, { key: label + "." + name, at: p.loc(fn), message: `${label}: ${name} stays set when the function ${bad?.kind === "throw" ? "fails" : "returns"}: every later call is turned away`, path: bad?.path });
      }
    }
  });
}
function clearsFlag(p, fn, name) { let y = false; p.walk(fn, (n) => { if (ts.isBinaryExpression(n) && ts.isPropertyAccessExpression(n.left) && n.left.name.text === name && n.right.kind === ts.SyntaxKind.FalseKeyword) y = true; }); return y; }
/** the function leaves early when the flag is set */
function guards(p, fn, name) {
  let y = false;
  p.walk(fn, (n) => {
    if (ts.isIfStatement(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === name) {
      let leaves = false; p.walk(n.thenStatement, (x) => { if (ts.isReturnStatement(x) && !x.expression) leaves = true; });
      if (leaves) y = true;
    }
    if (ts.isIfStatement(n) && ts.isPrefixUnaryExpression(n.expression) && ts.isPropertyAccessExpression(n.expression.operand) && n.expression.operand.name.text === name) {
      let sets = false; p.walk(n.thenStatement, (x) => { if (ts.isBinaryExpression(x) && ts.isPropertyAccessExpression(x.left) && x.left.name.text === name) sets = true; });
      if (sets) y = true;
    }
  });
  return y;
}
function readers(ctx) {
  const p = ctx.p;
  for (const fn of allFunctions(p)) {
    let has = null;
    const visit = (n) => { if (n !== fn && ts.isFunctionLike(n) && n.body) return; if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^getReader$/.test(n.expression.name.text)) { const q = n.parent; if (ts.isVariableDeclaration(q)) has = n; } ts.forEachChild(n, visit); };
    ts.forEachChild(fn, visit);
    if (!has) continue;
    const u = lower(p, fn, {}); const terms = new Terms();
    let bad = null;
    simulate(u, {
      init: "free",
      inst(s, v, cx) {
        if (v.op === "Call" && v.ast === has) return "held";
        if (v.op === "Call" && v.method === "releaseLock" && resolve(v.recv).ast === has) return "free";
        if ((v.op === "Return" || v.op === "SetProp") && v.args.some((a) => resolve(a).ast === has && resolve(a).op === "Call")) return "free";
        return s;
      },
      onThrow(s, v) { return v.op === "Call" && v.ast === has ? "free" : s; },
      exit(s, kind, cx) { if (s === "held" && !bad) bad = { kind, path: describePath(p, cx.path()) }; },
    }, { terms });
    ctx.ob("stream reader released", !bad, { key: fnLabel(p, fn), at: p.loc(has), message: `${fnLabel(p, fn)}: the reader obtained here is not released when the function ${bad?.kind === "throw" ? "fails" : "returns"}`, path: bad?.path });
  }
}
