"use strict";
const { ts } = require("../lib/project.js");
const { resolve, Lowerer } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { fnLabel } = require("../lib/util.js");
const { mk, linear, addLin } = require("../lib/terms.js");
const { track } = require("../lib/facts.js");
const R = {
  alone: "the socket is used only by the holder of the lock",
  open: "a connection that is not open is refused",
  order: "one operation covers its bytes once and in order",
  all: "an operation ends only when all of its bytes were covered",
  enough: "bytes are taken only when they have arrived",
  arrive: "what arrives is kept once and in order",
  wake: "a waiting read is woken or refused",
  fresh: "a new connection starts with nothing left of the old one",
  state: "a failed direction closes the connection for use",
  queue: "queued bytes are handed out once and in order",
};
const SOCKET = /(^|\.)(\w*Conn|Socket|WebSocket)$/;
module.exports = {
  technique: "path-sensitive typestate and dataflow over SSA form, loop-progress analysis of value webs",
  explanation: "For every class that implements the connection interface: in read() and write() every use of the socket happens while the lock of that operation is held, after the connection was seen to be open without waiting in between, and the offsets of the slices given to the socket start at zero and grow by exactly what the socket reported (or by the slice, where the socket takes it whole), until the whole array is covered, on every path to a normal return; an end of stream never counts as progress. Where bytes are buffered, they are taken only on paths where enough have arrived or the waiter for that number was awaited; every path of a data handler of the current socket pushes what arrived exactly once, without waiting before it holds its lock, and wakes the waiter if enough is there; the close handler refuses the waiter. Whenever a new socket is put in place, the buffers are emptied and the waiter is refused in the same step. Every flag that a failure clears is part of what makes a connection open. The byte queue moves its position and its length by exactly what it copies.",
  rules: Object.values(R),
  assumptions: ["the runtime's sockets report how many bytes they read or wrote, keep the order of writes handed to them, and deliver events in order", "mutexes hand over in order and are released on every way out (P10)", "callers await one read before they start the next if they depend on its bytes"],
  run(ctx) {
    const p = ctx.p; const classes = [];
    for (const sf of p.sourceFiles) { if (!p.isRepo(sf) || !/^connection\//.test(p.rel(sf))) continue; p.walk(sf, (n) => { if (ts.isClassDeclaration(n) && n.heritageClauses?.some((h) => h.types.some((t) => t.expression.getText() === "Connection"))) classes.push(n); }); }
    ctx.need(classes.length, "the connections");
    for (const c of classes) connection(ctx, p, c);
    for (const sf of p.sourceFiles) if (p.isRepo(sf) && /^connection\//.test(p.rel(sf))) p.walk(sf, (n) => { if (ts.isClassDeclaration(n) && n.name?.text === "ByteQueue") queue(ctx, p, n); });
    for (const [k, n] of [[R.alone, 14], [R.open, 14], [R.order, 14], [R.all, 14], [R.enough, 5], [R.arrive, 4], [R.wake, 8], [R.fresh, 5], [R.state, 3], [R.queue, 3]]) ctx.floor(k, n);
  },
};
const method = (c, n) => c.members.find((m) => ts.isMethodDeclaration(m) && m.name.getText() === n && m.body);
function connection(ctx, p, c) {
  const label = p.rel(c.getSourceFile()) + "#" + c.name.text; const K = { c, label, sockets: new Set(), queues: [], waiter: null };
  for (const m of c.members) {
    if (!ts.isPropertyDeclaration(m)) continue; const name = m.name.getText();
    if (m.type && SOCKET.test(m.type.getText().replace(/<.*>/, "").replace(/\s*\|\s*(null|undefined)/g, ""))) K.sockets.add("this." + name);
    if (m.initializer && ts.isNewExpression(m.initializer) && m.initializer.expression.getText() === "ByteQueue") K.queues.push("this." + name);
    if (m.type && /resolve/.test(m.type.getText()) && /reject/.test(m.type.getText())) K.waiter = "this." + name;
  }
  const read = method(c, "read"), write = method(c, "write"); ctx.need(read && write && K.sockets.size, `read and write of ${label}`);
  K.ob = (kind, ok, key, v, cx, msg, f) => ctx.ob(kind, !!ok, { key: label + "|" + key, at: p.loc(v?.ast ?? f ?? c), message: `${label} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  openness(ctx, p, K);
  operation(ctx, p, K, write, "write"); operation(ctx, p, K, read, "read");
  events(ctx, p, K);
  fresh(ctx, p, K);
  flags(ctx, p, K);
}
/** what a call does to the socket: {partial, data, dir} */
function socketOp(K, v, T) {
  if (v.op !== "Call") return null;
  if (v.recv && K.sockets.has(T(v.recv).key)) { if (v.method === "write" || v.method === "read" || v.method === "send") return { dir: v.method === "read" ? "read" : "write", data: v.callArgs[0], partial: /Conn$/.test(K.typeOf?.[T(v.recv).key] ?? ""), conn: /Conn$/.test(K.typeOf?.[T(v.recv).key] ?? "") }; return null; }
  if (/(^|[#.])(writeAll|readAll|readFull)$/.test(v.name ?? "") && v.callArgs.some((a) => K.sockets.has(T(a).key))) return { dir: /write/.test(v.name) ? "write" : "read", data: v.callArgs[1], partial: false, conn: true };
  return null;
}
const nosuff = (x) => { const y = {}; for (const k of Object.keys(x)) if (!k.startsWith("suff|")) y[k] = x[k]; return y; };
const opening = (K, key) => [...K.sockets, ...K.openness].some((s) => key.includes(s) && !/\w/.test(key[key.indexOf(s) + s.length] ?? ""));
function operation(ctx, p, K, f, dir) {
  K.typeOf = {}; for (const m of K.c.members) if (ts.isPropertyDeclaration(m) && m.type) K.typeOf["this." + m.name.getText()] = m.type.getText().replace(/\s*\|.*/, "");
  let n = 0; const ob0 = (kind, ok, key, v, cx, msg) => K.ob(kind, ok, dir + "|" + key, v, cx, msg, f);
  const spans = new Map(); // values whose bytes are covered piecewise
  let quiet = true; const ob = (...a) => { if (!quiet) ob0(...a); };
  let unit; for (quiet of [true, false]) ({ u: unit } = track(ctx, f, {
    unit, policy: {}, maxStates: 6000, terms: { hook: (v) => (v.op === "Bin" && v.args.some((a) => resolve(a).op === "Phi") && /^[-+*]$/.test(v.operator ?? "") ? mk("step", [], "%" + v.id + ";") : null) }, keep: (k) => K.queues.some((q) => k.includes(q + ".length")),
    inst(s, v, cx, T, H) {
      let x = s.x;
      if (v.op === "New" || v.op === "Call" && /\.(slice|subarray)$/.test(v.name ?? "")) { const k = T(v).key; if (x["full:" + k] || x["push:" + k]) { ob(R.all, x["used:" + k], "dropped", v, cx, "reads bytes and drops them"); x = { ...x, ["full:" + k]: 0, ["used:" + k]: 0, ["push:" + k]: 0 }; } }
      if (v.op === "GetProp" && /^(byteLength|length)$/.test(v.name ?? "")) { const k = "len:" + T(v.args[0]).key; if (x[k] !== T(v).key) x = { ...x, [k]: T(v).key }; }
      if (v.op === "Await" && !v.inlined) { const q = resolve(v.args[0]); if (q.op === "Call" && /Mutex\.lock$/.test(q.name ?? "")) x = { ...x, lock: T(q.recv).key, open: 0, of: T(v).key }; else x = { ...x, open: 0 }; x = nosuff(x); if (!(q.op === "Call" && /Mutex\.lock$/.test(q.name ?? ""))) if (!(q.op === "Call" && socketOp(K, q, T)) && (q.op === "New" || q.op === "GetProp" && q.name === "promise")) x = { ...x, waited: x.wait === T(q).key ? x.waitLen : "" }; if (q.op === "Call" && x.pending === T(q).key) x = { ...x, pending: "" }; }
      if (v.op === "Call" && v.fnValue && T(v.fnValue).key === x.of) { ob(R.alone, !x.pending, "unlock", v, cx, "lets the next operation start before the socket is done with this one"); x = { ...x, lock: "", of: "" }; }
      if (v.op === "SetProp" && K.waiter === "this." + v.name) { const a = resolve(v.args[1]); if (a.op === "Array" && a.args.length) { ob(R.alone, x.lock, "waiter", v, cx, "waits for bytes without holding the lock"); ob(R.open, x.open, "open", v, cx, `waits for bytes without having seen that the connection is (still) open since it last waited, so that nothing may ever wake it`); x = { ...x, wait: promiseOf(a) ? T(promiseOf(a)).key + (promiseOf(a).op === "Call" ? ".promise" : "") : "", waitLen: T(a.args[0]).key }; } }
      const op = socketOp(K, v, T);
      if (op) {
        n++;
        ob(R.alone, x.lock && (op.dir === dir), "held", v, cx, `uses the socket in ${dir}() without holding the lock, so that bytes of two operations can mix`);
        if (!op.conn) ob(R.open, x.open || x.begun, "open", v, cx, `uses the socket in ${dir}() without having seen that the connection is (still) open after it waited for its turn`);
        const bit = piece(op, v, T, cx);
        ob(R.order, bit, "piece", v, cx, `gives the socket a part of the bytes that does not start where the last one ended`);
        if (bit?.whole) x = { ...x, all: 1 };
        if (bit?.span) spans.set(v, bit);
        x = { ...x, begun: 1 };
        if (op.partial || /writeAll|readAll/.test(v.name ?? "")) x = { ...x, pending: T(v).key };
        if (x.eof) ob(R.all, false, "eof", v, cx, "goes on after the end of the stream");
      }
      if (v.op === "Call" && /ByteQueue\.read$/.test(v.name ?? "")) {
        n++; const d = T(v.callArgs[0]).key, q = T(v.recv).key, len = x["len:" + d] ?? d + ".byteLength";
        ob(R.alone, x.lock, "taken", v, cx, "takes buffered bytes without holding the lock");
        ob(R.enough, x.waited === len || x["suff|" + q + "|" + len] || H.all.some((k) => k === `-(${q}.length<${len})` || k === `+(${len}<=${q}.length)`) || enough(H, q, len), "enough", v, cx, "takes bytes from the buffer before enough of them have arrived");
        if (d === "$0") { ob(R.order, !x.all, "twice", v, cx, "fills the array more than once"); x = { ...x, all: 1 }; } else x = { ...x, ["full:" + d]: 1 };
        x = { ...nosuff(x), waited: "" };
      }
      if (v.op === "Call" && /ByteQueue\.push$/.test(v.name ?? "")) {
        const d = T(v.callArgs[0]).key; ob(R.all, x["full:" + d] && !x["push:" + d], "pushed", v, cx, "buffers bytes that were not read completely, or buffers them twice");
        x = { ...x, ["push:" + d]: 1, ["used:" + d]: 1 };
      }
      if ((v.op === "Call" || v.op === "New") && !op && !/ByteQueue\.read$/.test(v.name ?? "")) for (const a of [...(v.callArgs ?? []), ...(v.op === "New" ? v.args : [])]) { let d; try { d = T(a).key; } catch { continue; } const k = d.replace(/\.buffer$/, ""); if (x["full:" + k] && !x["used:" + k]) x = { ...x, ["used:" + k]: 1 }; }
      return x === s.x ? undefined : { ...s, x };
    },
    edge(s, t, truth, cx, T, H, term0) {
      let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; } let x = s.x;
      if (opening(K, t.key)) x = { ...x, open: q.h === "isnull" ? (tr ? 0 : 1) : tr ? 1 : 0 };
      for (const l of notNegative(t, truth)) if (l.m.size === 2 && l.c <= 0) for (const b of K.queues) { if (l.m.get(b + ".length")?.k !== 1) continue; for (const [k, { k: n }] of l.m) if (n === -1) x = { ...x, ["suff|" + b + "|" + k]: 1 }; }
      const b = resolve(term0.cond); const cond = unneg(b);
      for (const [, sp] of spans) { const done = finished(cond, sp, truth); if (done) x = sp.base === "$0" ? { ...x, all: 1 } : { ...x, ["full:" + sp.base]: 1 }; }
      if (tr && (q.h === "isnull" || q.h === "bin" && q.n === "===" && q.a[1]?.h === "const" && q.a[1].n === null) && /^call:.*\.read\(|^call:\??[\w.#!]*read\(/.test(q.a[0].key)) x = { ...x, eof: 1 };
      return x === s.x ? undefined : { ...s, x };
      function unneg(c) { let neg = false; while (c.op === "Un" && c.operator === "!") { c = resolve(c.args[0]); neg = !neg; } return { c, neg }; }
    },
    onThrow(s, v) { if ((v.op === "Await" || v.op === "Call") && s.x.pending) return { ...s, x: { ...s.x, pending: "" } }; },
    exit(s, kind, cx) { if (kind !== "return") return; ob(R.all, s.x.all && !s.x.eof, "covered", null, cx, `returns from ${dir}() although not all bytes were covered`); ob(R.alone, !s.x.pending, "awaited", null, cx, `returns from ${dir}() before the socket is done`); },
  }));
  ob(R.order, n > 0, "none", null, null, `never uses the socket in ${dir}()`);
  /** the part of the caller's array (or of an array made here) the socket is given */
  function piece(op, v, T) {
    let d = resolve(op.data); let framed = false;
    if (d.op === "Phi" || d.op === "Call" && /concat$/.test(d.name ?? "")) { const e = last(d, 0); if (e) { framed = true; d = e; } }
    if (d.op === "Phi" && !framed || d.op === "Phi" && d.args.some((y) => resolve(y).op === "Call")) { const rest = leftover(d, (y) => resolve(y).op === "Await" && resolve(resolve(y).args[0]) === v); if (rest) return { span: true, base: rest.base, rest: rest.web, whole: false }; }
    if (d.op === "Param") return op.partial ? null : inLoop(v) ? null : { whole: true };
    if (d.op === "Call" && d.method === "subarray") {
      const base = resolve(d.recv), P = resolve(d.callArgs[0]); const Bk = T(base).key;
      const E = d.callArgs[1] ? resolve(d.callArgs[1]) : null, stride = !op.partial && E?.op === "Bin" && E.operator === "+" && resolve(E.args[0]) === P ? T(E.args[1]).key : !op.partial && E?.op === "Bin" && E.operator === "+" && resolve(E.args[1]) === P ? T(E.args[0]).key : null;
      const own = (y) => { y = resolve(y); if (stride && T(y).key === stride) return true; if (E) { const off = (e) => { e = resolve(e); if (e === P) return 0; if (e.op !== "Bin" || !/^[+-]$/.test(e.operator)) return NaN; const k = T(e.args[1]); if (k.h === "const") return off(e.args[0]) + (e.operator === "+" ? 1 : -1) * Number(k.n); const k0 = T(e.args[0]); return e.operator === "+" && k0.h === "const" ? off(e.args[1]) + Number(k0.n) : NaN; }; const m = T(y); if (!op.partial && m.h === "const" && off(E) === Number(m.n)) return true; } if (op.partial) return y.op === "Await" && resolve(y.args[0]) === v; return y.op === "GetProp" && /^(byteLength|length)$/.test(y.name) && resolve(y.args[0]) === d; };
      const web = progress(P, own); if (!web) return null; if (framed && op.partial) return null;
      return { span: true, base: Bk, web, slice: d, whole: false };
    }
    if (op.partial) return null;
    return dir === "read" ? null : framed ? null : null;
  }
  /** the last part of a concatenation */
  function last(d, depth) {
    if (depth > 4) return null;
    if (d.op === "Phi") { const es = d.args.map((a) => last(resolve(a), depth + 1)).filter(Boolean); return es.length && es.every((e) => e === es[0]) ? es[0] : null; }
    if (d.op === "Call" && /concat$/.test(d.name ?? "")) { const a = resolve(d.callArgs[0]); if (a.op !== "Array" || !a.args.length) return null; const e = resolve(a.args[a.args.length - 1]); return last(e, depth + 1) ?? e; }
    return null;
  }
  function inLoop() { return false; }
}
/** a chain of offsets that starts at 0 and only ever grows by what `own` accepts */
function progress(P, own) {
  const web = new Set(), work = [P]; let zero = false, step = false;
  while (work.length) {
    const v = resolve(work.pop()); if (web.has(v)) continue;
    if (isZero(v)) { zero = true; continue; }
    if (v.op === "Phi") { web.add(v); work.push(...v.args); continue; }
    if (v.op === "Bin" && v.operator === "+") { const [a, b] = v.args.map(resolve); const grow = own(b) ? a : own(a) ? b : null; if (!grow) return null; web.add(v); step = true; work.push(grow); continue; }
    return null;
  }
  return zero && step ? web : null;
}
/** an array that starts as all of it and is only ever cut by what `own` accepts */
function leftover(d, own) {
  const web = new Set(), work = [d]; let base = null, step = false;
  while (work.length) {
    const v = resolve(work.pop()); if (web.has(v)) continue;
    if (v.op === "Phi") { web.add(v); work.push(...v.args); continue; }
    if (v.op === "Call" && v.method === "subarray" && v.callArgs.length === 1 && own(v.callArgs[0])) { web.add(v); step = true; work.push(v.recv); continue; }
    if (v.op === "Param" && !base) { base = "$0"; continue; }
    return null;
  }
  return base && step ? { base, web } : null;
}
const isZero = (v) => v.op === "Const" && v.value === 0;
/** a condition that, with this outcome, means the whole array was covered */
function finished({ c, neg }, sp, truth) {
  const tr = neg ? !truth : truth; if (c.op !== "Bin") return false; const [a, b] = c.args.map(resolve);
  const isLen = (y) => y.op === "GetProp" && /^(byteLength|length)$/.test(y.name); const inWeb = (y) => sp.web?.has(y);
  const gone = (y) => isLen(y) && (sp.slice && resolve(y.args[0]) === sp.slice || sp.rest?.has(resolve(y.args[0])));
  if (isZero(a) && gone(b)) return c.operator === "<" ? !tr : c.operator === "===" || c.operator === "==" || c.operator === ">=" ? tr : c.operator === "!==" || c.operator === "!=" ? !tr : false;
  const of = (y) => isLen(y) && (sp.slice ? resolve(y.args[0]) === resolve(sp.slice.recv) : false);
  if (inWeb(a) && of(b)) return c.operator === "<" ? !tr : c.operator === ">=" ? tr : c.operator === "===" || c.operator === "==" ? tr : c.operator === "!==" || c.operator === "!=" ? !tr : false;
  if (inWeb(b) && of(a)) return c.operator === ">" ? !tr : c.operator === "<=" ? tr : c.operator === "===" || c.operator === "==" ? tr : c.operator === "!==" || c.operator === "!=" ? !tr : false;
  if (gone(a) && isZero(b)) return c.operator === "===" || c.operator === "==" || c.operator === "<=" ? tr : c.operator === "!==" || c.operator === "!=" || c.operator === ">" ? !tr : false;
  return false;
}
/** what a condition says about sizes: sums that are not negative */
function notNegative(t, truth) {
  while (t.h === "not") { t = t.a[0]; truth = !truth; } if (t.h !== "bin") return []; const [a, b] = t.a.map(linear); const d = (x, y, k) => { const l = addLin(x, y, -1); return l ? [{ m: l.m, c: Number(l.c ?? 0) - k }] : []; };
  if (t.n === "<") return truth ? d(b, a, 1) : d(a, b, 0); if (t.n === "<=") return truth ? d(b, a, 0) : d(a, b, 1); if (t.n === "===" && truth) return [...d(a, b, 0), ...d(b, a, 0)]; return [];
}
function enough(H, q, len) { return H.all.some((k) => { const m = /^([+-])\((.*)<(=?)(.*)\)$/.exec(k); return m && (m[1] === "-" && !m[3] && m[2] === `${q}.length` && m[4] === len || m[1] === "+" && m[3] && m[2] === len && m[4] === `${q}.length`); }); }
/** the promise whose resolver is kept in a waiter */
function promiseOf(a) { let hit = null; const go = (v, d) => { v = resolve(v); if (d > 4 || hit) return; if (v.op === "Resolver") { hit = resolve(v.args[0]); return; } if (v.op === "GetProp" && v.name === "resolve" && /withResolvers$/.test(resolve(v.args[0]).name ?? "")) { hit = resolve(v.args[0]); return; } if (v.op === "Call" && /withResolvers$/.test(v.name ?? "")) { hit = v; return; } for (const y of v.op === "Object" ? v.props.map((q) => q.value).filter(Boolean) : v.op === "Array" ? v.args : []) go(y, d + 1); }; go(a, 0); return hit; }
/** what the socket's events do */
function events(ctx, p, K) {
  if (!K.queues.length || !K.waiter) return;
  const isWaiter = (t) => t.key === K.waiter || t.key.startsWith(K.waiter + "[");
  const noWaiter = (t, truth) => { let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; } if (q.h === "isnull" && q.a[0].key === K.waiter) return tr; if (q.h === "bin" && q.n === "===" && q.a[0].key === K.waiter && q.a[1].h === "const" && q.a[1].n == null) return tr; if (q.key === K.waiter) return !tr; return null; };
  const current = (t, truth) => { let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; } if (q.h === "bin" && q.n === "===" && q.a.some((y) => K.sockets.has(y.key))) return q.a[1].h === "const" ? null : tr; return null; };
  const found = { data: 0, close: 0 };
  p.walk(K.c, (n) => {
    if (!ts.isCallExpression(n) || !ts.isPropertyAccessExpression(n.expression) || !/^(on|once|addEventListener)$/.test(n.expression.name.text)) return;
    const ev = n.arguments[0]; if (!ev || !ts.isStringLiteral(ev)) return; let g = n.arguments[1]; if (!g) return;
    if (!ts.isArrowFunction(g) && !ts.isFunctionExpression(g)) { const r = p.resolveFunctionRef?.(g); g = r?.fn ?? r?.decl ?? null; } if (!g?.body) return;
    if (/^(data|message)$/.test(ev.text)) { const pushes = (h) => { let y = false; p.walk(h, (m) => { if (ts.isCallExpression(m) && /ByteQueue\.push$/.test(p.resolveCallee(m).name ?? "")) y = true; }); return y; }; if (!pushes(g)) { let h = null; p.walk(g, (m) => { if (ts.isCallExpression(m)) { const r = p.resolveCallee(m).fn; if (r && pushes(r) && r.modifiers?.some((q) => q.kind === ts.SyntaxKind.AsyncKeyword)) h = h ?? r; } }); if (h) g = h; } found.data++; data(g); } else if (ev.text === "close") { found.close++; closed(g); }
  });
  K.ob(R.arrive, found.data > 0, "handler", null, null, "does not take in what arrives"); K.ob(R.wake, found.close > 0, "closing", null, null, "does not notice that the connection was closed");
  function data(g) {
    const ob = (kind, ok, key, v, cx, msg) => K.ob(kind, ok, "data|" + key, v, cx, msg, g);
    track(ctx, g, {
      policy: {}, keep: () => false, maxStates: 4000,
      inst(s, v, cx, T) {
        let x = s.x;
        if (v.op === "Await" && !v.inlined) { const q = resolve(v.args[0]); if (q.op === "Call" && /Mutex\.lock$/.test(q.name ?? "")) x = { ...x, lock: T(v).key, cur: x.pushed ? x.cur : 0 }; else { ob(R.arrive, x.lock || x.pushed, "wait", v, cx, "waits before it keeps what arrived, so that later bytes can overtake it"); x = { ...x, cur: x.pushed ? x.cur : 0 }; } }
        if (v.op === "Call" && v.fnValue && x.lock && T(v.fnValue).key === x.lock) { ob(R.arrive, x.pushed || x.old || x.text || x.failed, "unlock", v, cx, "lets later bytes in before it kept these"); x = { ...x, lock: "" }; }
        if (v.op === "Call" && /ByteQueue\.push$/.test(v.name ?? "")) { ob(R.arrive, !x.pushed && /\$0/.test(T(v.callArgs[0]).key), "push", v, cx, "keeps something other than what arrived, or keeps it twice"); ob(R.fresh, x.cur, "current", v, cx, "keeps bytes without knowing that they came from the current socket"); x = { ...x, pushed: 1, tested: 0, ready: 0 }; }
        if (v.op === "Call" && wakes(v, T, "resolve")) { ob(R.wake, x.ready, "early", v, cx, "wakes a waiting read before enough bytes have arrived"); x = { ...x, ready: 0, woken: 1 }; }
        return x === s.x ? undefined : { ...s, x };
      },
      edge(s, t, truth, cx, T, H) {
        void cx; void T; void H; let x = s.x; const c = current(t, truth); if (c !== null) x = { ...x, cur: c ? 1 : 0, old: c ? 0 : 1 };
        let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; }
        if (q.h === "bin" && q.n === "===" && /typeof/.test(q.key) && /"string"/.test(q.key) && tr) x = { ...x, text: 1 };
        const w = noWaiter(t, truth); if (w !== null) x = { ...x, tested: w ? 1 : x.tested };
        if (q.h === "bin" && /^<=?$/.test(q.n) && q.a.some((y) => K.queues.some((k) => y.key.startsWith(k))) && q.a.some((y) => y.key === K.waiter + "[0]")) { const small = q.a[0].key !== K.waiter + "[0]"; const suff = small ? !tr && q.n === "<" : tr && q.n === "<="; x = { ...x, tested: 1, ready: suff ? 1 : 0 }; }
        return x === s.x ? undefined : { ...s, x };
      },
      onThrow(s) { return { ...s, x: { ...s.x, failed: 1 } }; },
      exit(s, kind, cx) { const x = s.x; if (kind !== "return" || x.text || x.old && !x.pushed) return; ob(R.arrive, x.pushed, "lost", null, cx, "loses bytes that arrived on the current socket"); ob(R.wake, x.woken || x.tested && !x.ready, "asleep", null, cx, "does not wake a waiting read although enough bytes may have arrived"); },
    });
  }
  function closed(g) {
    const ob = (kind, ok, key, v, cx, msg) => K.ob(kind, ok, "close|" + key, v, cx, msg, g);
    track(ctx, g, {
      policy: {}, keep: () => false, maxStates: 3000,
      inst(s, v, cx, T) { if (v.op === "Call" && wakes(v, T, "reject")) return { ...s, x: { ...s.x, rej: 1 } }; },
      edge(s, t, truth) { let x = s.x; const c = current(t, truth); if (c !== null) x = { ...x, old: c ? 0 : 1 }; if (noWaiter(t, truth)) x = { ...x, rej: 1 }; return x === s.x ? undefined : { ...s, x }; },
      exit(s, kind, cx) { if (kind === "return" && !s.x.old) ob(R.wake, s.x.rej, "hangs", null, cx, "leaves a read waiting that will never get its bytes, since its connection was closed"); },
    });
  }
  function wakes(v, T, name) { if (v.method === name && v.recv) return isWaiter(T(v.recv)); if (v.fnValue) { const k = T(v.fnValue).key; return k.startsWith(K.waiter) && k.endsWith("." + name); } return false; }
  K.wakes = wakes; K.noWaiter = noWaiter;
}
/** a new socket */
function fresh(ctx, p, K) {
  const fns = K.c.members.filter((m) => ts.isMethodDeclaration(m) && m.body); let n = 0;
  for (const f of fns) {
    let sets = false; p.walk(f, (m) => { if (ts.isBinaryExpression(m) && m.operatorToken.kind === ts.SyntaxKind.EqualsToken && K.sockets.has(m.left.getText().replace(/!$/, "")) && m.right.getText() !== "undefined" && m.right.getText() !== "null") sets = true; }); if (!sets) continue;
    if (!K.queues.length) { n++; continue; }
    const ob = (kind, ok, key, v, cx, msg) => K.ob(kind, ok, "open|" + key, v, cx, msg, f);
    const verdict = (x, v, cx) => { for (const q of K.queues) ob(R.fresh, x["c" + q], "left|" + q, v, cx, `starts a new connection with bytes of the old one still in ${q.slice(5)}`); if (K.waiter) ob(R.fresh, x.rej, "waiter", v, cx, "starts a new connection while a read of the old one is still waiting, which then takes the new one's bytes"); };
    track(ctx, f, {
      policy: {}, keep: () => false, maxStates: 4000,
      inst(s, v, cx, T) {
        let x = s.x;
        if (v.op === "Call" && /ByteQueue\.clear$/.test(v.name ?? "")) x = { ...x, ["c" + T(v.recv).key]: 1 };
        if (v.op === "Call" && K.wakes?.(v, T, "reject")) x = { ...x, rej: 1 };
        if (v.op === "SetProp" && K.sockets.has("this." + v.name) && T(v.args[0]).h === "this") { const t = T(v.args[1]); if (t.h !== "const" && t.key !== "undefined") { n++; x = { ...x, fresh: 1 }; } }
        if (v.op === "Await" && !v.inlined) { if (x.fresh) { verdict(x, v, cx); x = {}; } else if (Object.keys(x).length) x = {}; }
        return x === s.x ? undefined : { ...s, x };
      },
      edge(s, t, truth) { if (K.noWaiter?.(t, truth)) return { ...s, x: { ...s.x, rej: 1 } }; },
      exit(s, kind, cx) { if (kind === "return" && s.x.fresh) verdict(s.x, null, cx); },
    });
  }
  K.ob(R.fresh, n > 0, "none", null, null, "never puts a socket in place");
}
/** what failures clear is part of being open */
function flags(ctx, p, K) {
  const cleared = new Set(), set = new Set();
  p.walk(K.c, (m) => { if (!ts.isBinaryExpression(m) || m.operatorToken.kind !== ts.SyntaxKind.EqualsToken || !ts.isPropertyAccessExpression(m.left)) return; let r = m.right; while (ts.isBinaryExpression(r)) r = r.right; const k = m.left.getText(); if (r.kind === ts.SyntaxKind.FalseKeyword) { let q = m; while (q && !ts.isCatchClause(q) && q !== K.c) q = q.parent; if (q && ts.isCatchClause(q)) cleared.add(k); } else if (r.kind === ts.SyntaxKind.TrueKeyword) set.add(k); });
  const { g, mentioned } = K;
  for (const k of cleared) if (set.has(k)) K.ob(R.state, mentioned.has(k), "flag|" + k, { ast: g }, null, `counts as open although ${k.slice(5)} was cleared by a failure`);
  K.ob(R.state, [...K.sockets].some((k) => mentioned.has(k)), "socket", { ast: g }, null, "counts as open without a socket");
}
/** what makes a connection open */
function openness(ctx, p, K) {
  const g = K.c.members.find((m) => ts.isGetAccessorDeclaration(m) && m.name.getText() === "isConnected"); ctx.need(g, `isConnected of ${K.label}`);
  const mentioned = new Set(); const go = (f, d) => p.walk(f, (m) => { if (ts.isPropertyAccessExpression(m) && m.expression.kind === ts.SyntaxKind.ThisKeyword) { mentioned.add(m.getText()); const dd = p.symbolOf(m)?.valueDeclaration; if (d < 3 && dd && (ts.isGetAccessorDeclaration(dd) || ts.isMethodDeclaration(dd)) && dd !== f) go(dd, d + 1); } }); go(g, 0);
  K.g = g; K.mentioned = mentioned; K.openness = [...mentioned].filter((k) => !K.sockets.has(k) && k !== "this.isConnected");
}
/** the byte queue */
function queue(ctx, p, c) {
  const label = p.rel(c.getSourceFile()) + "#ByteQueue"; const ob = (ok, key, v, cx, msg, f) => ctx.ob(R.queue, !!ok, { key: label + "|" + key, at: p.loc(v?.ast ?? f ?? c), message: `${label} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  const push = method(c, "push"), read = method(c, "read"), getter = c.members.find((m) => ts.isGetAccessorDeclaration(m) && m.name.getText() === "length"); if (!push || !read || !getter) return;
  const L = /this\.(#?\w+)/.exec(getter.body.getText())?.[1]; if (!L) return;
  const size = (t) => (t.h === "lin" ? t.lin : null);
  track(ctx, push, { policy: {}, keep: () => false, inst(s, v, cx, T) {
    if (v.op === "Call" && v.method === "push" && T(v.callArgs[0]).key === "$0") return { ...s, x: { ...s.x, kept: (s.x.kept ?? 0) + 1 } };
    if (v.op === "SetProp" && v.name === L) { const l = size(T(v.args[1]));  ob(l && Number(l.c) === 0 && l.m.size === 2 && l.m.get("this." + L)?.k === 1 && l.m.get("$0.length")?.k === 1, "grows", v, cx, "does not count the bytes it keeps"); return { ...s, x: { ...s.x, counted: 1 } }; }
  }, edge(s, t, truth) { let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; } if (tr && /\$0\.(byteLength|length)/.test(q.key)) return { ...s, x: { ...s.x, empty: 1 } }; },
  exit(s, kind, cx) { if (kind === "return" && !s.x.empty) ob(s.x.kept === 1 && s.x.counted, "kept", null, cx, "does not keep (and count) what is pushed exactly once", push); } });
  track(ctx, read, { policy: {}, keep: (k) => /length/i.test(k), maxStates: 3000, inst(s, v, cx, T, H) {
    if (v.op === "Call" && v.method === "set" && T(v.recv).key === "$0") {
      ob(H.all.some((k) => k.includes("$0.length") && k.includes("this." + L) && !/[(+-]\d+[+)<]|[+-]\d/.test(k)), "bounds", v, cx, "copies without having checked that there are enough bytes");
      const src = resolve(v.callArgs[0]); if (src.op !== "Call" || src.method !== "subarray") return;
      const [a, b] = src.callArgs, ta = T(a), tb = b ? T(b) : null; const O = resolve(v.callArgs[1]), B = b ? resolve(b) : null; if (!tb) return;
      if (B.op === "Bin" && B.operator === "+") { const bc = B.args.map(resolve).filter((y) => T(y).key !== ta.key); if (bc.length === 1) ob(progress(O, (y) => resolve(y) === bc[0]), "placed", v, cx, "does not put the next bytes where the last ones ended");
        if (bc.length === 1 && /Math\.min$/.test(bc[0].name ?? "")) { const ls = bc[0].callArgs.map((y) => size(T(y))); const to = T(v.callArgs[1]), ch = T(src.recv).key + ".length";
          ob(ls.some((l) => l?.m.get("$0.length")?.k === 1 && (to.h === "const" && to.n === 0 || l.m.get(to.key)?.k === -1) && Number(l.c) <= 0) || bc[0].callArgs.some((y) => to.key === "0" && T(y).key === "$0.length"), "fits", v, cx, "copies more than there is room for");
          ob(ls.some((l) => l?.m.get(ch)?.k === 1 && l.m.get(ta.key)?.k === -1 && Number(l.c) <= 0), "inside", v, cx, "copies more than the chunk has left"); } }
      return { ...s, x: { ...s.x, from: ta.key, to: tb.key } };
    }
    if (v.op === "SetProp" && s.x.from && `this.${v.name}` === s.x.from) { const t = T(v.args[1]); ob(t.key === s.x.to || t.h === "const" && t.n === 0, "advances", v, cx, "does not move its position by what it copied"); return { ...s, x: { ...s.x, from: "", to: "", adv: v.name, done: 0 } }; }
    if (v.op === "SetProp" && s.x.adv === v.name && !s.x.down) { const t = T(v.args[1]); ob(!(t.h === "const" && t.n === 0) || s.x.done, "chunk", v, cx, "goes on to the next chunk before this one was handed out completely"); return { ...s, x: { ...s.x, adv: "", done: 0 } }; }
    if (v.op === "SetProp" && v.name === L) { const t = T(v.args[1]), l = size(t); ob(t.h === "const" && t.n === 0 || l && l.m.get("$0.length")?.k === -1 && l.m.get("this." + L)?.k === 1 && Number(l.c) === 0, "shrinks", v, cx, "does not count down by what was read"); return { ...s, x: { ...s.x, down: 1 } }; }
    if (v.op === "Call" && v.method === "slice" && v.callArgs.length === 1) return { ...s, x: { ...s.x, cut: T(v).key, by: T(v.callArgs[0]).key } };
    if (v.op === "SetProp" && s.x.by && T(v.args[1]).key !== s.x.cut && `this.${v.name}` === s.x.by) { const t = T(v.args[1]); ob(t.h === "const" && t.n === 0, "compact", v, cx, "drops chunks and does not go back to the first one left"); return { ...s, x: { ...s.x, by: "" } }; }
  }, edge(s, t, truth) { if (!s.x.adv) return; let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; } if (q.h !== "bin") return; const a = q.a[0].key, b = q.a[1].key, h = "this." + s.x.adv; if ((a === h || b === h) && /\.length$/.test(a === h ? b : a) && (q.n === "===" && tr || q.n === "<" && a === h && !tr || q.n === "<=" && b === h && tr)) return { ...s, x: { ...s.x, done: 1 } }; },
  exit(s, kind, cx) { if (kind !== "return") return; ob(s.x.down, "counts", null, cx, "does not count down by what was read", read); ob(!s.x.by, "compacted", null, cx, "drops chunks and does not go back to the first one left", read); ob(!s.x.from, "moved", null, cx, "copies bytes without moving on, so that they are handed out again", read); } });
  const clear = method(c, "clear"); if (!clear) return; const used = new Set();
  p.walk(c, (m) => { const t = ts.isBinaryExpression(m) && m.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && m.operatorToken.kind <= ts.SyntaxKind.LastAssignment ? m.left : ts.isPrefixUnaryExpression(m) || ts.isPostfixUnaryExpression(m) ? m.operand : null; if (t && ts.isPropertyAccessExpression(t) && t.expression.kind === ts.SyntaxKind.ThisKeyword) used.add(t.name.text); });
  track(ctx, clear, { policy: {}, keep: () => false, inst(s, v, cx, T) { if (v.op === "SetProp") { const o = T(v.args[0]); const n = o.h === "this" ? v.name : v.name === "length" && o.key.startsWith("this.") ? o.key.slice(5) : null; if (n) return { ...s, x: { ...s.x, [n]: 1 } }; } },
    exit(s, kind, cx) { if (kind === "return") for (const n of used) ob(s.x[n], "cleared|" + n, null, cx, `keeps ${n} when it is emptied`, clear); } });
}
void fnLabel; void Lowerer;
