"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { allFunctions, fnLabel, callees, enclosing, lower } = require("../lib/util.js");
const { track } = require("../lib/facts.js");
const { mk } = require("../lib/terms.js");
const { roles, stepping } = require("./P13.js");
const R = {
  before: "an update is stored before its position moves",
  task: "what is stored is what gets processed",
  write: "storing writes through under an increasing number",
  read: "what was stored is read back",
  remove: "a stored update is removed only after its handlers completed",
  all: "stored updates are processed until none is left",
  guard: "the processing of a box can start again",
  replay: "leftover updates are replayed",
  keep: "stored updates are discarded nowhere else",
  fail: "a failing handler is noticed",
};
const G = /\.#?guaranteeUpdateDelivery$/;
module.exports = {
  technique: "path-sensitive dataflow and typestate over SSA form, key and shape tracing, call-graph rules",
  explanation: "In every function that records the position of an update and queues it, wherever guaranteed delivery is not known to be off, the update has been handed to the storage and the write has completed on every path to either; the queued task then processes the stored updates of the same box. The storing function completes only after writing the update through to the storage under the prefix of its box followed by a number that grows; the reading function takes the first entry under the same prefix and yields its key and, for each form in which the writer stores an update, the update itself. The loop over stored updates removes a key only after the handlers for the update read with it completed normally on that path, stops only when nothing is left or handling failed, and releases its guard on every way out. Leftovers of all boxes are replayed whenever the client connects. Nothing else deletes stored updates unless guaranteed delivery is off. Between the application's handlers and that loop no failure is swallowed.",
  rules: Object.values(R),
  assumptions: ["a completed write of the storage is durable, and the storage lists keys in ascending order (storage properties)", "the clock does not jump back between runs", "failures inside library code that turns an update into a context object are logged and not retried"],
  run(ctx) {
    const K = roles(ctx); const { p, fns } = K;
    const gapless = (f) => f;
    const inner = fns.filter((f) => !K.Q.includes(f) && callees(p, f).some((c) => K.Q.includes(c.fn)) && f.parameters[0] && carries(p, f)); ctx.need(inner.length, "the functions that record the position of an update and queue it"); void gapless;
    const S = storeFunctions(ctx, K, inner); ctx.need(S.length, "the function that stores an update");
    const drains = fns.filter((f) => K.reach(f, (g) => K.H.includes(g)) && removesOwn(p, f)); ctx.need(drains.length, "the loop over stored updates");
    for (const f of inner) before(ctx, K, f, S);
    for (const f of K.ask) differences(ctx, K, f, inner);
    for (const q of K.Q) tasks(ctx, K, q, inner, drains);
    const W = []; for (const f of S) W.push(...writes(ctx, p, f));
    ctx.need(W.length, "a write of an update to the storage");
    for (const f of drains) drain(ctx, K, f, W);
    replay(ctx, K, drains, W);
    discard(ctx, K, W);
    failing(ctx, K);
    for (const [k, n] of [[R.before, 3], [R.task, 3], [R.write, 2], [R.read, 3], [R.remove, 1], [R.all, 1], [R.guard, 1], [R.replay, 2], [R.keep, 1], [R.fail, 2]]) ctx.floor(k, n);
  },
};
const isSet = (n) => /^storage\/\d_storage\w*\.ts#\w+\.set$/.test(n ?? ""), isMany = (n) => /^storage\/\d_storage\w*\.ts#\w+\.getMany$/.test(n ?? "");
function carries(p, f) { let t; try { t = p.checker.getTypeAtLocation(f.parameters[0].name); } catch { return false; } const m = t.isUnion() ? t.types : [t]; return m.some((x) => x.getProperty("pts") || x.getProperty("qts")) && m.every((x) => x.getProperty("_")) && !m.some((x) => x.getProperty("seq")); }
const obFor = (ctx, p, f) => { const lab = fnLabel(p, f); return (kind, ok, key, v, cx, msg) => ctx.ob(kind, !!ok, { key: lab + "|" + key, at: p.loc(v?.ast ?? f), message: `${lab} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) }); };
/** storage operations that get the update itself from the functions that record positions */
function storeFunctions(ctx, K, inner) {
  const { p } = K; const out = new Set(); const memo = new Map();
  const writesThrough = (f) => { if (memo.has(f)) return memo.get(f); memo.set(f, false); const y = callees(p, f).some((c) => isSet(c.name) || c.fn && p.rel(c.fn.getSourceFile()) === p.rel(f.getSourceFile()) && writesThrough(c.fn)); memo.set(f, y); return y; };
  for (const f of [...inner, ...K.fns.filter((g) => inner.some((h) => callees(p, h).some((c) => c.fn === g)))]) for (const c of callees(p, f)) if (c.fn && !K.files.includes(c.fn.getSourceFile()) && writesThrough(c.fn) && c.fn.parameters.some((q) => { try { return p.checker.getTypeAtLocation(q.name).aliasSymbol?.name === "Update"; } catch { return false; } })) out.add(c.fn);
  return [...out];
}
function removesOwn(p, f) { return callees(p, f).some((c) => ts.isCallExpression(c.call) && c.call.arguments.length >= 2 && c.call.arguments[1].kind === ts.SyntaxKind.NullKeyword && /\.set$/.test(c.name ?? "")); }
const off = (H) => H.all.some((k) => k[0] === "-" && G.test(k));
function before(ctx, K, f, S) {
  const p = K.p, ob = obFor(ctx, p, f);
  const isState = (v) => { let q = v.ast; if (q && ts.isBinaryExpression(q)) q = q.left; try { return ts.isPropertyAccessExpression(q) && K.isState(p.checker.getTypeAtLocation(q.expression)); } catch { return false; } };
  const rel = (g) => K.reach(g, (h) => K.Q.includes(h) || S.includes(h) || callees(p, h).some((c) => S.includes(c.fn)) || writesPosition(K, h));
  track(ctx, f, {
    policy: { never: (n, g) => g && g !== f && (K.Q.includes(g) || S.includes(g) || K.ask.includes(g) || K.fetch.includes(g) || K.files.includes(g.getSourceFile()) && (!rel(g) || asks(K, g))) }, maxStates: 6000,
    keep: (k) => G.test(k) || /^.\(\$0\.\w+===0\)$/.test(k), stable: (k) => G.test(k) || /^\(\$0\.\w+===0\)$/.test(k),
    after(s, v, cx, T) {
      if (v.op !== "Await") return; const c = resolve(v.args[0]);
      if (c.op === "Call" && S.includes(c.targetFn) && c.callArgs.some((a) => T(a).key === "$0")) return { ...s, x: { ...s.x, stored: c.callArgs.map((a) => T(a).key).filter((k) => k !== "$0").join() } };
    },
    inst(s, v, cx, T, H) {
      let what = null;
      if (v.op === "SetProp" && /^(pts|qts)$/.test(v.name) && isState(v)) what = "position";
      if (v.op === "Call" && v.method === "set" && v.recv && /\.channelPts$/.test(T(v.recv).key) && /^\$0\./.test(T(v.callArgs[1]).key) && s.x.locked) what = "position";
      if (v.op === "Await" && /Mutex\.lock$/.test(resolve(v.args[0]).name ?? "")) return { ...s, x: { ...s.x, locked: 1 } };
      if (what) ob(R.before, off(H) || s.x.stored !== undefined, "position", v, cx, "moves the recorded position although the update was not stored (or the write not waited for)");
      if (v.op === "Call" && K.Q.includes(v.targetFn)) {
        ob(R.before, off(H) || s.x.stored !== undefined, "queued", v, cx, "hands an update over that was not stored");
        const box = v.callArgs.map((a) => T(a).key);
        ob(R.task, off(H) || s.x.stored === undefined || box.includes(s.x.stored) || box.some((b) => same(p, b, s.x.stored, v, T)), "box", v, cx, "stores an update in one box and has another box processed");
      }
    },
  });
}
/** what a difference contains is stored, not only queued, by the time its state is recorded */
function differences(ctx, K, f, inner) {
  const name = (k) => k.slice(1).replace(/%\d+;/g, "");
  const p = K.p, ob = obFor(ctx, p, f); const stored = new Map(), passed = [], given = new Set();
  const rel = (g) => K.reach(g, (h) => inner.includes(h) || K.Q.includes(h));
  const takes = (g) => g && g !== f && g.parameters.length && K.files.includes(g.getSourceFile()) && rel(g) && !K.ask.includes(g) && /Update|\b_\b/.test(g.parameters[0].getText());
  track(ctx, f, {
    policy: { never: (n, g) => g && g !== f && (K.ask.includes(g) || K.fetch.includes(g) || takes(g) || K.files.includes(g.getSourceFile()) && !rel(g)) }, maxStates: 8000,
    terms: { hook: (v) => (v.op === "Call" && v.method === "invoke" ? mk("invoke", [], "%" + v.id + ";") : null) },
    keep: (k) => /call:[\w.]+\(/.test(k) && /IterElem|\[/.test(k),
    inst(s, v, cx, T, H) {
      if (v.op !== "Call" || !takes(v.targetFn) || off(H)) return;
      const t = T(v.callArgs[0]); if (!/invoke/.test(t.key)) return;
      const bare = t.h !== "obj" && /IterElem|\[/.test(t.key); const e = t.key;
      const yes = H.all.filter((k) => k[0] === "+" && /^.call:/.test(k) && (k.includes(`(${e})`) || k.includes(`,${e})`))).map(name), no = H.all.filter((k) => k[0] === "-").map(name);
      const list = bare ? e.replace(/%\d+;/g, "").replace(/\[[^\]]*\]/g, "[]") : "";
      if (inner.includes(v.targetFn)) { if (bare) given.add(v.targetFn); if (bare) for (const y of yes) { if (!stored.has(list)) stored.set(list, new Set()); stored.get(list).add(y); } ob(R.before, true, "difference", v, cx, ""); } else passed.push({ v, cx: cx.path(), bare, list, no, e, tooLong: H.all.some((k) => k[0] === "+" && k.includes('"updateChannelTooLong"') && k.includes(e)) });
    },
  });
  const perChannel = (g) => { let y = false; p.walk(g, (n) => { if (ts.isPropertyAccessExpression(n) && n.name.text === "channelPts" && ts.isPropertyAccessExpression(n.parent) && n.parent.name.text === "set") y = true; }); return y; };
  for (const g of inner) if (perChannel(g) === perChannel(f)) ctx.ob(R.before, given.has(g), { key: fnLabel(p, f) + "|" + g.name.getText(), at: p.loc(f), message: `${fnLabel(p, f)} never has the updates that ${g.name.getText()} stores stored before it records the state of a difference` });
  for (const q of passed) {
    const need = q.bare ? [...(stored.get(q.list) ?? [])] : [];
    const ok = q.bare && need.length > 0 && (q.tooLong || need.every((y) => q.no.includes(y)));
    ctx.ob(R.before, ok, { key: fnLabel(p, f) + "|difference", at: p.loc(q.v.ast ?? f), message: `${fnLabel(p, f)} only queues an update of a difference whose state it records, so that it is lost when the process ends in between`, path: ok ? undefined : describePath(p, q.cx) });
  }
}
function asks(K, g) { return K.ask.some((a) => callees(K.p, g).some((c) => c.fn === a)) && !callees(K.p, g).some((c) => K.Q.includes(c.fn)); }
function same(p, a, b, v, T) { void v; void T; const n = (k) => { const m = /^@?(?:.*\.)?(\w+)$/.exec(k); return /n$/.test(k) ? k : m ? m[1] : k; }; const val = (k) => { if (/^-?\d+n?$/.test(k)) return k.replace(/n$/, ""); const id = n(k); for (const sf of p.sourceFiles) { if (!p.isRepo(sf) || !/^client\//.test(p.rel(sf))) continue; let hit; p.walk(sf, (m) => { if ((ts.isPropertyDeclaration(m) || ts.isVariableDeclaration(m)) && m.name.getText() === id && m.initializer) { const c = p.constOf(m.initializer); if (c !== undefined) hit = String(c).replace(/n$/, ""); } }); if (hit !== undefined) return hit; } return k; }; return val(a) === val(b); }
function writesPosition(K, h) { let y = false; K.p.walk(h, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && /^(pts|qts)$/.test(n.left.name.text)) y = true; }); return y; }
/** the queued task */
function tasks(ctx, K, q, inner, drains) {
  const p = K.p;
  p.walk(q, (n) => {
    if (!K.isAdd(n)) return;
    const g = n.arguments[0]; if (!ts.isArrowFunction(g) && !ts.isFunctionExpression(g)) return;
    const ob = obFor(ctx, p, q); const flags = q.parameters.map((x, i) => [x.name.getText(), i]).filter(([, i]) => p.checker.getTypeAtLocation(q.parameters[i].name).flags & ts.TypeFlags.BooleanLike);
    const optional = new Set();
    track(ctx, g, {
      policy: { never: (nm, h) => h && (drains.includes(h) || K.H.includes(h)) }, keep: () => true,
      after(s, v, cx, T) { const c = v.op === "Await" && resolve(v.args[0]); if (c && c.op === "Call" && drains.includes(c.targetFn)) return { ...s, x: { ...s.x, drained: c.callArgs.map((a) => T(a).key).join() } }; },
      inst(s, v, cx, T) { // what the task returns is waited for by the queue
        if (v.op === "Call" && drains.includes(v.targetFn)) return { ...s, x: { ...s.x, begun: T(v).key, of: v.callArgs.map((a) => T(a).key).join() } };
        if (v.op === "Return" && v.args[0] && s.x.begun && T(v.args[0]).key === s.x.begun) return { ...s, x: { ...s.x, drained: s.x.of } };
      },
      exit(s, kind, cx, T, H) {
        if (kind !== "return" || off(H)) return;
        const mixed = captured(g).find(([nm, fl]) => s.x.drained === undefined && fl && H.all.some((k) => k[0] === "-" && new RegExp(`(^|[.#@])${nm}$`).test(k.slice(1)))); if (mixed) { for (const i of mixed[1]) optional.add(i); return; }
        const no = flags.find(([nm]) => H.all.some((k) => k[0] === "-" && new RegExp(`(^|[.#@])${nm}$`).test(k.slice(1)))); if (no && s.x.drained === undefined) { optional.add(no[1]); return; }
        ob(R.task, s.x.drained !== undefined, "task", { ast: g }, cx, "queues a task that does not process the stored updates with guaranteed delivery on");
      },
    });
    for (const f of inner) for (const c of callees(p, f)) if (c.fn === q) for (const i of optional) { const a = c.call.arguments[i]; ctx.ob(R.task, a && (a.kind === ts.SyntaxKind.TrueKeyword || p.constOf(a) === true), { key: fnLabel(p, f) + "|flag", at: p.loc(c.call), message: `${fnLabel(p, f)} does not have the stored updates processed` }); }
    /** conditions computed before the task was queued: [name, flags] when the condition holds whenever delivery is guaranteed and the flags are set */
    function captured(fn) {
      const out = [];
      p.walk(fn, (m) => { if (!ts.isIdentifier(m)) return; const d = p.symbolOf(m)?.valueDeclaration; if (!d || !ts.isVariableDeclaration(d) || !d.initializer || !(ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const) || enclosing(d) !== q) return;
        const parts = []; const split = (e) => { if (ts.isParenthesizedExpression(e)) split(e.expression); else if (ts.isBinaryExpression(e) && e.operatorToken.kind === ts.SyntaxKind.AmpersandAmpersandToken) { split(e.left); split(e.right); } else parts.push(e); }; split(d.initializer);
        const fl = []; const ok = parts.every((e) => { if (ts.isPropertyAccessExpression(e) && G.test("." + e.name.text)) return true; const i = ts.isIdentifier(e) ? q.parameters.findIndex((x) => x.name.getText() === e.text) : -1; if (i >= 0) { fl.push(i); return true; } return false; });
        if (ok) out.push([m.text, fl]); });
      return out;
    }
    // the box whose stored updates are processed is the box of the queue
  });
}
/** flattened parts of a key */
function flat(t) { const out = []; for (const a of t.a ?? []) if (a.h === "spread") out.push(...(a.a[0].h === "arr" ? flat(a.a[0]) : [a])); else out.push(a); return out; }
function writes(ctx, p, f) {
  const ob = obFor(ctx, p, f); const out = [], shapes = new Map();
  track(ctx, f, {
    policy: {}, keep: (k) => /</.test(k) || /#\w+/.test(k), maxStates: 4000,
    inst(s, v, cx, T, H) {
      let x = s.x;
      if (v.op === "SetProp" && T(v.args[0]).h === "this") { const t = T(v.args[1]); x = { ...x, ["F" + v.name]: t.key, ["G" + v.name]: larger(x, t, `this.${v.name}`, H) ? 1 : 0 }; }
      return x === s.x ? undefined : { ...s, x };
    },
    after(s, v, cx, T, H) {
      if (v.op !== "Await") return; const c = resolve(v.args[0]); if (c.op !== "Call" || !isSet(c.name)) return;
      const key = T(c.callArgs[0]), val = T(c.callArgs[1]); const parts = key.h === "arr" ? flat(key) : [];
      const at = parts.findIndex((y) => y.key === "$0"); const holds = /\$1(?![\d])/.test(val.key);
      if (val.h === "const" && val.n === null) return;
      ob(R.write, parts.length && at > 0 && at === parts.length - 2 && parts.slice(0, at).every((y) => y.h === "const") && holds, "key", c, cx, "stores an update under something other than its box and a number, or stores something else");
      const id = parts[parts.length - 1]; const field = Object.entries(s.x).find(([k, y]) => k[0] === "F" && (y === id?.key || `this.${k.slice(1)}` === id?.key));
      const grows = field && s.x["G" + field[0].slice(1)];
      ob(R.write, grows, "number", c, cx, "stores an update under a number that was not shown to be greater than the last one");
      out.push({ prefix: parts.slice(0, at).map((y) => y.key), box: at, n: parts.length }); if (holds) shapes.set(val.key, val);
      return { ...s, x: { ...s.x, w: 1 } };
    },
    edge(s, t, truth, cx, T) { // remembered at once, since recording the number replaces the field it was compared with
      let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; }
      if (tr && (q.h === "isnull" && q.a[0].key === "$1" || q.h === "bin" && q.n === "===" && q.a[0].key === "$1" && q.a[1].h === "const")) return null; // there is an update
      if (q.h === "bin" && q.n === "<" && !tr && q.a[1].h === "lin" && Number(q.a[1].lin.c) >= 0 && [...q.a[1].lin.m].every(([k, y]) => /^this\./.test(k) && y.k === 1)) return { ...s, x: { ...s.x, grows: q.a[0].key } };
      if (q.h === "bin" && q.n === "<" && tr && /^this\./.test(q.a[0].key)) return { ...s, x: { ...s.x, grows: q.a[1].key } };
      return undefined;
    },
    exit(s, kind, cx) { if (kind === "return") ob(R.write, s.x.w, "through", null, cx, "returns without having waited for the write"); },
  });
  function larger(x, t, last, H) { return H.all.some((k) => k === `+(${last}<${t.key})` || k === `-(${t.key}<=${last})`) || x.grows === t.key || t.h === "lin" && t.lin.m.has(last) && t.lin.m.size === 1 && t.lin.m.get(last).k === 1 && Number(t.lin.c) > 0; }
  const seen = new Map(); for (const w of out) seen.set(JSON.stringify(w), w);
  const r = [...seen.values()]; for (const w of r) w.shapes = [...shapes.values()];
  return r;
}
const within = (pre, w) => pre.length <= w.prefix.length + 1 && pre.every((k, i) => (i < w.prefix.length ? k === w.prefix[i] : true));
function drain(ctx, K, f, W) {
  const p = K.p, ob = obFor(ctx, p, f);
  const readers = [...new Set(callees(p, f).map((c) => c.fn).filter((g) => g && !K.files.includes(g.getSourceFile()) && callees(p, g).some((c) => isMany(c.name))))]; ctx.need(readers.length, "the function that reads the first stored update");
  for (const r of readers) reading(ctx, p, r, W);
  const isRead = (t) => t.h === "call" && readers.some((r) => t.fn === r || t.key.startsWith("call:") && (t.name ?? "").endsWith("." + r.name?.getText()));
  track(ctx, f, {
    policy: { never: (n, g) => g && (readers.includes(g) || !K.files.includes(g.getSourceFile()) || K.ask.includes(g)) }, maxStates: 6000, keep: () => true,
    init: {},
    inst(s, v, cx, T) {
      let x = s.x;
      if (v.op === "Call" && v.method === "add" && /Set\.add$/.test(v.name ?? "")) x = { ...x, guard: T(v.recv).key + "|" + T(v.callArgs[0]).key };
      if (v.op === "Call" && v.method === "delete" && /Set\.delete$/.test(v.name ?? "") && x.guard === T(v.recv).key + "|" + T(v.callArgs[0]).key) x = { ...x, guard: "" };
      if (v.op === "Await" && isRead(T(v.args[0]))) x = { ...x, done: "", failed: 0, last: T(v).key, none: 0, removed: 0 };
      if (v.op === "Call" && /\.set$/.test(v.name ?? "") && v.callArgs.length >= 2 && T(v.callArgs[1]).h === "const" && T(v.callArgs[1]).n === null) {
        const k = T(v.callArgs[0]).key;
        ob(R.remove, x.last && k === x.last + "[0]", "key", v, cx, "removes a key other than the one of the update being processed");
        ob(R.remove, x.done && (x.done === x.last || x.done === "nobody"), "handled", v, cx, "removes a stored update although its handlers have not completed without failing");
        x = { ...x, removed: 1 };
      }
      return x === s.x ? undefined : { ...s, x };
    },
    after(s, v, cx, T) {
      if (v.op !== "Await") return; const c = resolve(v.args[0]); if (c.op !== "Call") return;
      const h = handled(T, c); if (h === null) return;
      return { ...s, x: { ...s.x, done: h } };
    },
    onThrow(s, v, cx, T) { if (v.op === "Await") { const c = resolve(v.args[0]); if (c.op === "Call" && (handled(T, c) !== null || prepares(T, c))) return { ...s, x: { ...s.x, failed: 1 } }; } },
    edge(s, t, truth, cx, T) {
      let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; }
      const isLast = (y) => s.x.last && y.key === s.x.last;
      if (tr && (q.h === "bin" && q.n === "===" && q.a.some(isLast) && q.a.some((y) => y.h === "const" && y.n == null) || q.h === "isnull" && isLast(q.a[0]))) return { ...s, x: { ...s.x, none: 1 } };
      if (!tr && isLast(q)) return { ...s, x: { ...s.x, none: 1 } };
      if (tr && q.h === "call" && /Set\.has$/.test(q.name ?? "")) return { ...s, x: { ...s.x, busy: 1 } };
    },
    exit(s, kind, cx) {
      const x = s.x;
      if (kind === "return") ob(R.all, x.busy || x.none || x.last && !x.done, "stops", null, cx, "stops although stored updates may be left");
      if (!x.busy) ob(R.guard, !x.guard, "guard", null, cx, "leaves the box marked as being processed, so that its updates are never processed again");
    },
  });
  /** the call of what the update handler gave for an update: that update's reading, "" for the case without a handler, null otherwise */
  function handled(T, c) {
    if (c.targetFn && !c.fnValue) return null;
    let v = c.fnValue ? resolve(c.fnValue) : null; if (!v && c.ast && ts.isIdentifier(c.ast.expression)) v = null;
    if (!v) return null;
    const t = T(v);
    if (t.h === "closure" || t.h === "call" && /Promise/.test(t.name ?? "")) return "nobody";
    if (t.h === "call" && t.a.length) { const u = t.a[t.a.length - 1].key; return u.endsWith("[1]") ? u.slice(0, -3) : null; }
    return null;
  }
  function prepares(T, c) { return c.callArgs?.some((a) => /\[1\]$/.test(T(a).key)); }
}
/** the first entry under the prefix, decoded from each stored form */
function reading(ctx, p, r, W) {
  const ob = obFor(ctx, p, r);
  for (const w of W) for (const [i, shape] of (w.shapes.length ? w.shapes : [null]).entries()) {
    if (!shape) continue;
    const pair = shape.h === "arr"; let n = 0;
    track(ctx, r, {
      policy: {}, keep: () => true, maxStates: 4000,
      edge(s, t, truth, cx, T) {
        const y = about(t, pair); if (y !== null && y !== truth) return null;
        let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; }
        if (q.h === "IterHas" && tr) return { ...s, x: { ...s.x, any: 1 } };
        if (q.h === "bin" && q.n === "===" && /^IterElem/.test(q.a[0].key) && q.a[1].h === "const" && q.a[1].n === null && tr) return null; void T;
      },
      inst(s, v, cx, T) {
        if (v.op === "Call" && isMany(v.name)) {
          const o = resolve(v.callArgs[0]), pre = o.op === "Object" && o.props.find((q) => q.key === "prefix"); const k = pre && flat(T(pre.value)).map((y) => y.key);
          ob(R.read, k && k.length === w.prefix.length + 1 && k.slice(0, w.prefix.length).join() === w.prefix.join() && k[w.box] === "$0", "prefix", v, cx, "looks for stored updates elsewhere than where they are stored");
          const o2 = v.callArgs[1] && resolve(v.callArgs[1]); const rev = o2?.op === "Object" && o2.props.find((q) => q.key === "reverse");
          ob(R.read, !rev || T(rev.value).key === "false", "order", v, cx, "starts with the newest stored update");
        }
        if (v.op === "Return" && v.args[0]) {
          const t = T(v.args[0]);
          if (t.h === "const" && t.n === null) { ob(R.read, !s.x.any, "missed", v, cx, "finds a stored update and reports none"); return; }
          if (t.h !== "arr") return; n++;
          const [key, val] = t.a; const e = key?.key.endsWith("[0]") ? key.key.slice(0, -3) : null;
          const want = pair ? (k) => /^call:(\w+\.)?deserializeType\(/.test(k) && k.includes(`${e}[1][0]`) && k.includes(`${e}[1][1]`) && !/storage\.get\(|Storage\.get\(/.test(k) : (k) => k === `${e}[1]`;
          ob(R.read, e && /^IterElem/.test(e) && want(val.key), "form" + (pair ? "serialised" : "object"), v, cx, `does not yield the update that was stored ${pair ? "in serialised form" : "as an object"}`);
        }
      },
    });
    ctx.ob(R.read, n > 0, { key: fnLabel(p, r) + "|none" + i, at: p.loc(r), message: `${fnLabel(p, r)} yields no stored update` });
  }
  /** outcome of a test about the stored value: an array of a name and bytes, or an object */
  function about(t, pair) {
    let q = t, neg = false; while (q.h === "not") { q = q.a[0]; neg = !neg; }
    const is = (y) => (neg ? !y : y); const EL = /^IterElem\(.*\)%\d+;\[1\]$/;
    if (q.h === "bin" && q.n === "instanceof" && /Uint8Array/.test(q.a[1].key)) { if (EL.test(q.a[0].key)) return is(false); if (/^IterElem\(.*\)%\d+;\[1\]\[1\]$/.test(q.a[0].key)) return is(pair); }
    if (q.h === "call" && /isValidObject$/.test(q.name ?? "") && EL.test(q.a[q.a.length - 1].key)) return is(!pair);
    if (q.h === "call" && /isArray$/.test(q.name ?? "") && EL.test(q.a[q.a.length - 1].key)) return is(pair);
    if (q.h === "bin" && q.n === "===" && q.a[0].h === "un" && q.a[0].n === "typeof" && /^IterElem\(.*\)%\d+;\[1\]\[0\]$/.test(q.a[0].a[0].key) && q.a[1].h === "const") return is(pair && q.a[1].n === "string");
    if (q.h === "bin" && q.n === "===" && /^IterElem\(.*\)%\d+;\[1\]\.length$/.test(q.a[0].key) && q.a[1].h === "const") return is(pair && q.a[1].n === 2);
    return null;
  }
}
function replay(ctx, K, drains, W) {
  const p = K.p;
  const reps = K.fns.filter((f) => !K.Q.includes(f) && !drains.includes(f) && callees(p, f).some((c) => drains.includes(c.fn)) && callees(p, f).some((c) => c.fn && !K.files.includes(c.fn.getSourceFile()) && callees(p, c.fn).some((d) => isMany(d.name)))); ctx.need(reps.length, "the replay of leftover updates");
  for (const f of reps) {
    const ob = obFor(ctx, p, f);
    const boxes = callees(p, f).map((c) => c.fn).find((g) => g && !K.files.includes(g.getSourceFile()) && callees(p, g).some((d) => isMany(d.name)));
    // every box
    track(ctx, boxes, {
      policy: {}, keep: () => false,
      inst(s, v, cx, T) {
        const o2 = obFor(ctx, p, boxes);
        if (v.op === "Call" && isMany(v.name)) { const o = resolve(v.callArgs[0]), pre = o.op === "Object" && o.props.find((q) => q.key === "prefix"); const k = pre && flat(T(pre.value)).map((y) => y.key); o2(R.replay, k && W.every((w) => k.length <= w.prefix.length && k.every((y, i) => y === w.prefix[i])) && !v.callArgs[1], "prefix", v, cx, "does not look through all stored updates"); return { ...s, x: { ...s.x, many: 1 } }; }
        if (v.op === "IterElem") return { ...s, x: { ...s.x, cur: T(v).key, got: 0 } };
        if (v.op === "Call" && /^(add|push|set)$/.test(v.method ?? "") && s.x.cur && W.every((w) => T(v.callArgs[0]).key === `${s.x.cur}[0][${w.box}]`)) return { ...s, x: { ...s.x, got: 1 } };
      },
      edge(s, t, truth, cx, T, H, term0) { let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; } if (q.h === "call" && tr && /(\.|#)(includes|has)$/.test(q.name ?? "") && s.x.cur && W.every((w) => q.a[q.a.length - 1].key === `${s.x.cur}[0][${w.box}]`)) return { ...s, x: { ...s.x, got: 1 } }; const c = resolve(term0.cond); if (c.op !== "IterHas") return; if (s.x.cur) obFor(ctx, p, boxes)(R.replay, s.x.got, "box", c, cx, "leaves out the box of a stored update"); return { ...s, x: { ...s.x, cur: "", got: 0, end: truth ? 0 : 1 } }; },
      exit(s, kind, cx) { if (kind === "return") obFor(ctx, p, boxes)(R.replay, s.x.end, "all", null, cx, "returns before having seen all stored updates"); },
    });
    track(ctx, f, {
      policy: { never: (n, g) => g && g !== f }, keep: () => false,
      inst(s, v, cx, T) {
        if (v.op === "IterElem" && s.x.cur === "?") return { ...s, x: { ...s.x, cur: T(v).key } };
        if (v.op === "GetElem" && s.x.cur === "?" && T(v.args[0]).key === s.x.F) return { ...s, x: { ...s.x, cur: T(v).key } };
        if (v.op === "Await") { const c = resolve(v.args[0]); if (c.op === "Call" && drains.includes(c.targetFn) && T(c.callArgs[0]).key === s.x.cur) return { ...s, x: { ...s.x, got: 1 } }; }
      },
      edge(s, t, truth, cx, T, H, term0) { const st = stepping(t, term0); if (!st) return; if (s.x.cur) ob(R.replay, s.x.got, "each", term0, cx, "leaves out a box"); return { ...s, x: { ...s.x, cur: truth ? "?" : "", F: st, got: 0, end: truth ? 0 : 1 } }; },
      exit(s, kind, cx) { if (kind === "return") ob(R.replay, s.x.end, "whole", null, cx, "returns before all boxes were processed"); },
    });
    // connecting ends with it
    const ups = (g) => callees(p, g).some((c) => /ClientEncrypted\.connect$/.test(c.name ?? ""));
    const users = []; for (let level = [f], d = 0; level.length && d < 4; d++) { const next = allFunctions(p).filter((g) => callees(p, g).some((c) => level.includes(c.fn) && enclosing(c.call) === g)); const leaf = next.filter(ups); users.push(...leaf, ...next.filter((g) => !leaf.includes(g) && !allFunctions(p).some((h) => callees(p, h).some((c) => c.fn === g)))); level = next.filter((g) => !users.includes(g)); }
    const toReplay = new Map(); const leads = (h, d = 0) => { if (h === f) return true; if (d > 3) return false; if (!toReplay.has(h)) { toReplay.set(h, false); toReplay.set(h, callees(p, h).some((c) => c.fn && leads(c.fn, d + 1))); } return toReplay.get(h); };
    ctx.ob(R.replay, users.length > 0, { key: fnLabel(p, f) + "|used", at: p.loc(f), message: `${fnLabel(p, f)} is called nowhere: updates left over from an earlier run are not delivered` });
    for (const g of users) {
      const ob2 = obFor(ctx, p, g); const inits = (h) => h && callees(p, h).some((c) => /\.initialize$/.test(c.name ?? ""));
      track(ctx, g, {
        policy: { never: (n, h) => h && h !== g && (h === f || !leads(h)) }, keep: (k) => G.test(k), stable: (k) => G.test(k), maxStates: 4000,
        after(s, v, cx, T) { void T; if (v.op !== "Await") return; const c = resolve(v.args[0]); if (c.op !== "Call") return; if (/ClientEncrypted\.connect$/.test(c.name ?? "")) return { ...s, x: { ...s.x, up: 1 } }; if (c.targetFn === f) return { ...s, x: { ...s.x, did: 1 } }; void inits; },
        exit(s, kind, cx, T, H) { if (kind === "return" && s.x.up) ob2(R.replay, s.x.did || off(H), "connect", null, cx, "connects without delivering what an earlier run left over"); },
      });
      ctx.ob(R.replay, callees(p, g).some((c) => /ClientEncrypted\.connect$/.test(c.name ?? "")), { key: fnLabel(p, g) + "|place", at: p.loc(g), message: `${fnLabel(p, g)} replays leftover updates without connecting` });
    }
  }
}
/** nothing else deletes what is stored */
function discard(ctx, K, W) {
  const p = K.p;
  const files = new Set(allFunctions(p).filter((f) => callees(p, f).some((c) => isMany(c.name))).map((f) => f.getSourceFile()).filter((sf) => /^client\//.test(p.rel(sf))));
  const fns = allFunctions(p).filter((f) => files.has(f.getSourceFile()) && !(ts.isArrowFunction(f) || ts.isFunctionExpression(f)) && callees(p, f).some((c) => c.fn && files.has(c.fn.getSourceFile()) || isMany(c.name)));
  const deleters = new Set();
  const bulk = new Set(fns.filter((f) => callees(p, f).some((c) => isMany(c.name)) && callees(p, f).some((c) => isSet(c.name) && ts.isCallExpression(c.call) && c.call.arguments[1]?.kind === ts.SyntaxKind.NullKeyword)));
  ctx.need(bulk.size, "the deletion of everything under a prefix");
  for (const f of fns) {
    if (bulk.has(f) && !f.parameters.length) { /* its own prefix */ } else if (!callees(p, f).some((c) => bulk.has(c.fn))) continue;
    track(ctx, f, { policy: { never: (n, g) => g && bulk.has(g) }, keep: () => false, inst(s, v, cx, T) {
      let pre = null; if (v.op === "Call" && bulk.has(v.targetFn) && v.callArgs[0]) pre = T(v.callArgs[0]); else if (v.op === "Call" && isMany(v.name) && bulk.has(f)) { const o = resolve(v.callArgs[0]); const q = o.op === "Object" && o.props.find((y) => y.key === "prefix"); pre = q ? T(q.value) : null; }
      if (pre && pre.h === "arr") { const k = flat(pre).map((y) => y.key); if (k.length && W.some((w) => within(k, w))) deleters.add(f); }
    } });
  }
  ctx.need(deleters.size, "the deletion of stored updates");
  for (const d of deleters) for (const g of allFunctions(p)) for (const c of callees(p, g)) {
    if (c.fn !== d || enclosing(c.call) !== g) continue;
    if (files.has(g.getSourceFile()) && !callers(g).length) { ctx.count?.(R.keep); continue; } // offered, used by nobody in the library
    const ob = obFor(ctx, p, g);
    track(ctx, g, { policy: { never: (n, h) => h && h !== g }, keep: (k) => G.test(k), stable: (k) => G.test(k), inst(s, v, cx, T, H) { if (v.op === "Call" && v.targetFn === d) ob(R.keep, off(H), "discard", v, cx, "deletes stored updates although guaranteed delivery may be on"); } });
  }
  function callers(g) { return allFunctions(p).filter((h) => h !== g && callees(p, h).some((c) => c.fn === g)); }
}
/** from the loop to the application's handlers */
function failing(ctx, K) {
  const p = K.p;
  const setters = K.fns.filter((f) => f.parameters.some((q) => p.checker.getTypeAtLocation(q.name).aliasSymbol?.name === "UpdateHandler")); ctx.need(setters.length, "where the update handler is set");
  const handlers = new Set();
  for (const g of allFunctions(p)) for (const c of callees(p, g)) if (setters.includes(c.fn) && enclosing(c.call) === g) { let a = c.call.arguments[0]; while (ts.isCallExpression(a) && ts.isPropertyAccessExpression(a.expression) && a.expression.name.text === "bind") a = a.expression.expression; const d = ts.isArrowFunction(a) || ts.isFunctionExpression(a) ? a : p.symbolOf(a)?.valueDeclaration; if (d?.body) handlers.add(d); }
  ctx.need(handlers.size, "the update handler of the client");
  const isRun = (n) => /5_composer\.ts#Composer\.handleUpdate$/.test(n ?? "") || /\.handleUpdate$/.test(n ?? "") && /6_client\.ts#Client\.handleUpdate$/.test(n ?? "");
  const runs = new Map(); const toRun = (f) => { if (runs.has(f)) return runs.get(f); runs.set(f, false); const y = callees(p, f).some((c) => isRun(c.name) || c.fn && /^client\/6_client\.ts$/.test(p.rel(c.fn.getSourceFile())) && !ts.isConstructorDeclaration(c.fn) && toRun(c.fn)); runs.set(f, y); return y; };
  let n = 0;
  for (const h of handlers) {
    ctx.ob(R.fail, toRun(h), { key: fnLabel(p, h) + "|runs", at: p.loc(h), message: `${fnLabel(p, h)} does not reach the application's handlers` });
    // the functions on the way, innermost closures first
    const way = new Set(); const go = (f) => { if (way.has(f)) return; way.add(f); for (const c of callees(p, f)) if (c.fn && toRun(c.fn) && /^client\/6_client\.ts$/.test(p.rel(c.fn.getSourceFile()))) go(c.fn); p.walk(f, (m) => { if ((ts.isArrowFunction(m) || ts.isFunctionExpression(m)) && m.body && callees(p, m).some((c) => isRun(c.name) || c.fn && toRun(c.fn) && /^client\/6_client\.ts$/.test(p.rel(c.fn.getSourceFile())))) way.add(m); }); }; go(h);
    for (const f of way) {
      const direct = callees(p, f).filter((c) => enclosing(c.call) === f && (isRun(c.name) || c.fn && way.has(c.fn))); if (!direct.length && !(ts.isArrowFunction(f) || ts.isFunctionExpression(f))) { continue; }
      const lab = fnLabel(p, f);
      for (const c of direct) { n++; ctx.ob(R.fail, waited(c.call), { key: lab + "|waits", at: p.loc(c.call), message: `${lab} does not wait for the handlers of an update` }); }
      for (const m of closuresOf(f, way)) ctx.ob(R.fail, returnedChain(m), { key: lab + "|closure", at: p.loc(m), message: `${lab} starts the handlers of an update without handing their completion on` });
      if (!direct.length) continue;
      const nodes = new Set(direct.map((c) => c.call)); const ob = obFor(ctx, p, f);
      track(ctx, f, {
        policy: { never: (nm, g) => g && way.has(g) && g !== f }, keep: () => false, maxStates: 4000, atThrow: true,
        onThrow(s, v) { const c = v.op === "Await" ? resolve(v.args[0]) : v; if (c?.op === "Call" && nodes.has(c.ast)) return { ...s, x: { ...s.x, failed: 1 } }; },
        exit(s, kind, cx) { if (kind === "return") ob(R.fail, !s.x.failed, "swallowed", null, cx, "swallows the failure of an application's handler, so that the update counts as delivered"); },
      });
    }
  }
  ctx.ob(R.fail, n > 0, { key: "none", at: "", message: "no call of the application's handlers was found" });
  function closuresOf(f, way) { const out = []; for (const m of way) if (m !== f && (ts.isArrowFunction(m) || ts.isFunctionExpression(m)) && enclosing(m) === f) out.push(m); return out; }
  function waited(call) { let q = call; for (;;) { const u = q.parent; if (ts.isParenthesizedExpression(u)) { q = u; continue; } if (ts.isPropertyAccessExpression(u) && u.expression === q && ts.isCallExpression(u.parent) && u.name.text === "finally") { q = u.parent; continue; } return ts.isAwaitExpression(u) || ts.isReturnStatement(u) || ts.isArrowFunction(u) && u.body === q; } }
  function returnedChain(m) { let q = m; for (;;) { const u = q.parent; if (ts.isParenthesizedExpression(u)) { q = u; continue; } if (ts.isCallExpression(u) && u.arguments.includes(q) && ts.isPropertyAccessExpression(u.expression) && /^(then|finally)$/.test(u.expression.name.text) && u.arguments[0] === q) { q = u; continue; } if (ts.isPropertyAccessExpression(u) && u.expression === q && ts.isCallExpression(u.parent) && /^(then|finally)$/.test(u.name.text)) { q = u.parent; continue; } if (ts.isVariableDeclaration(u)) return true; return ts.isReturnStatement(u) || ts.isAwaitExpression(u) || ts.isArrowFunction(u) && u.body === q; } }
}
void lower;
