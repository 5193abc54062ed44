"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { allFunctions, fnLabel, callees, enclosing, owner } = require("../lib/util.js");
const { track } = require("../lib/facts.js");
const { linear, mk } = require("../lib/terms.js");
const R = {
  next: "only the next update of a sequence takes effect",
  gap: "an update that skips ahead is applied only after recovery",
  both: "the position moves together with the update",
  alone: "check and record are not interleaved",
  seq: "a batch is applied only in its place",
  diff: "a difference is applied whole before its state",
  from: "the recorded state comes from the server",
  mode: "checks are left out only while a difference is applied",
  queue: "updates of a sequence are processed one at a time",
};
const POS = { pts: "pts_count", qts: null, seq: null };
const STABLE = (k) => /^\(?\$\d+(\.\w+)*(===[\w.-]+\))?$/.test(k) || /^call:(is|isOfEnum)\("[\w.]+",\$\d+\)$/.test(k);
module.exports = {
  roles, stepping,
  technique: "path-sensitive dataflow and typestate over SSA form, call-graph rules",
  explanation: "The parts of the update pipeline are found by what they do (who runs the update handler, who queues that, who asks for differences, who yields the recorded state). In every function that records the position of an update and queues it, on every path to either: unless the update carries no position or nothing is recorded yet, a comparison has shown that the recorded position plus the update's count does not exceed its position, made on a reading of the position taken after any recovery, and either showing no gap or following a recovery unless the caller asked for no gap check; position and queueing come together; and between that reading and the recording nothing can intervene (a lock is held, or there is no suspension). A batch with sequence numbers has its updates passed on only in its place. A difference is applied whole, element by element, before the state it carries is recorded. Recorded states and positions come only from updates under these conditions or from the server's answers. Skipping gap checks is reserved to the application of differences, and updates are processed by tasks of queues or by recoveries only, each waited for.",
  rules: Object.values(R),
  assumptions: ["update objects are not changed while they are processed", "a recovery that ends without an exception fetched what was missing", "the state at the end of a difference is recorded although updates may have been applied since it was computed (the server then sends them again)"],
  run(ctx) {
    const K = roles(ctx); const { p, fns } = K;
    const ret = (f) => { let t = p.checker.getReturnTypeOfSignature(p.checker.getSignatureFromDeclaration(f)); return p.checker.getAwaitedType(t) ?? t; };
    const some = (t) => (t.isUnion() ? t.types.filter((x) => !(x.flags & (ts.TypeFlags.Null | ts.TypeFlags.Undefined | ts.TypeFlags.Void))) : [t]);
    K.readers = fns.filter((f) => !ts.isConstructorDeclaration(f) && some(ret(f)).length && some(ret(f)).every(K.isState)); ctx.need(K.readers.length, "the function that gives the recorded state");
    K.stop = new Set([...K.readers, ...K.ask, ...K.fetch, ...K.Q]);
    K.relevant = (f) => K.reach(f, (g) => K.stop.has(g) || moves(K, g));
    K.recovers = (f) => K.ask.includes(f);
    const inner = fns.filter((f) => !K.Q.includes(f) && positioned(K, f) && callees(p, f).some((c) => K.Q.includes(c.fn))); ctx.need(inner.length, "the functions that record the position of an update and queue it");
    K.inner = inner;
    K.setters = fns.filter((f) => f.parameters.some((q) => K.isState(p.checker.getTypeAtLocation(q.name)))); ctx.need(K.setters.length, "the function that records a whole state");
    const isBatch = (t) => t && (t.isUnion() ? t.types : [t]).some((m) => kindOf(p, m) === "updatesCombined");
    K.batch = fns.filter((f) => f.parameters.length && isBatch(p.checker.getTypeAtLocation(f.parameters[0].name)) && moves(K, f)); ctx.need(K.batch.length, "the function that goes through a batch of updates");
    K.routers = fns.filter((f) => !K.inner.includes(f) && !K.batch.includes(f) && positioned(K, f) && callees(p, f).some((c) => K.inner.includes(c.fn)));
    const gapMemo = new Map(); K.gapOf = (f) => { if (!gapMemo.has(f)) { const i = f.parameters.findIndex((q) => p.checker.getTypeAtLocation(q.name).flags & ts.TypeFlags.BooleanLike); gapMemo.set(f, i < 0 ? null : i); } return gapMemo.get(f); };
    for (const f of inner) apply(ctx, K, f);
    for (const f of K.ask) difference(ctx, K, f);
    batches(ctx, K);
    states(ctx, K);
    mode(ctx, K);
    queues(ctx, K);
    for (const [k, n] of [[R.next, 3], [R.gap, 3], [R.both, 6], [R.alone, 3], [R.seq, 2], [R.diff, 5], [R.from, 5], [R.mode, 5], [R.queue, 3]]) ctx.floor(k, n);
  },
};
/** the function writes recorded positions itself or uses the positions kept per channel */
function moves(K, f) { const p = K.p; let y = false; p.walk(f, (n) => { if (ts.isPropertyAccessExpression(n) && n.name.text === "channelPts") y = true; if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && /^(pts|qts|seq)$/.test(n.left.name.text)) { let t; try { t = p.checker.getTypeAtLocation(n.left.expression); } catch { t = null; } if (K.isState(t)) y = true; } }); return y; }
/** takes an update that carries a position */
function positioned(K, f) { const q = f.parameters[0]; if (!q) return false; let t; try { t = K.p.checker.getTypeAtLocation(q.name); } catch { return false; } const ts_ = t.isUnion() ? t.types : [t]; return ts_.length > 0 && ts_.some((x) => x.getProperty("pts") || x.getProperty("qts")) && ts_.every((x) => x.getProperty("pts") || x.getProperty("qts") || x.getProperty("_")) && ts_.every((x) => x.getProperty("_")) && ts_.filter((x) => x.getProperty("pts") || x.getProperty("qts")).length >= ts_.length - 1 && !ts_.some((x) => x.getProperty("seq")); }
const policy = (K, root) => ({ never: (n, g) => g && g !== root && (K.stop.has(g) || K.inner?.includes(g) || K.files.includes(g.getSourceFile()) && !K.relevant(g)) });
const isLock = (v) => v && v.op === "Call" && /Mutex\.lock$/.test(v.name ?? "");
const isChannelGet = (t) => t.h === "call" && /StorageMap\.get$/.test(t.name ?? "") && /channelPts/.test(t.key);
const isChannelSet = (v, T) => v.op === "Call" && v.recv && v.method === "set" && /\.channelPts$/.test(T(v.recv).key);
/** recorded position read in a term: {id, f} */
function recorded(K, t) {
  if (isChannelGet(t)) return { id: t.key, f: "pts" };
  if (t.h === "prop" && /^(pts|qts|seq)$/.test(t.n) && t.a[0].h === "call" && K.readers.some((r) => t.a[0].fn === r || t.a[0].key.includes(r.name?.getText() ?? "?"))) return { id: t.a[0].key, f: t.n };
  return null;
}
/** what a comparison says about an update's position and the recorded one: {low: X-L-c>=0} / {high: L+c-X>=0} */
function compared(K, t, truth) {
  let tr = truth; while (t.h === "not") { t = t.a[0]; tr = !tr; }
  if (t.h !== "bin" || t.n !== "<" && t.n !== "===") return null;
  const [a, b] = t.a.map((x) => linear(x)); const m = new Map(); for (const [l, s] of [[b, 1], [a, -1]]) for (const { t: x, k } of l.m.values()) m.set(x.key, { t: x, k: (m.get(x.key)?.k ?? 0) + s * Number(k) });
  let c = Number(b.c ?? 0) - Number(a.c ?? 0); let L, X, n = 0, kn = 0;
  for (const { t: x, k } of m.values()) { if (!k) continue; const r = recorded(K, x); if (r && !L) { L = { ...r, k }; continue; } if (x.h === "prop" && x.a[0].h === "param" && /^(pts|qts|seq|seq_start)$/.test(x.n) && !X) { X = { t: x, f: x.n, k, of: x.a[0].key }; continue; } if (x.h === "prop" && x.n === "pts_count") { kn = k; n++; continue; } return null; }
  if (!L || !X || L.k !== -X.k || Math.abs(L.k) !== 1) return null;
  const out = { L, X, low: false, high: false };
  // E = b - a; true: E >= 1, false: -E >= 0
  const know = (sign, off) => { // form: sign*(L.k*L + X.k*X + kn*cnt + c) + off >= 0
    const l = sign * L.k, q = sign * kn, d = sign * c + off; const one = X.f === "pts" ? 0 : 1;
    if (l < 0 && (X.f === "pts" ? q === -1 && d === 0 : !kn && d === -one)) out.low = true;
    if (l > 0 && (X.f === "pts" ? q === 1 && d === 0 || !kn && d <= 0 : !kn && d <= one)) out.high = true;
    if (X.f === "seq_start" || X.f === "seq") { if (l < 0 && d <= -1) out.low = true; if (l > 0 && d <= 1) out.high = true; if (l < 0 && d <= -2) out.far = true; if (l > 0 && d <= 0) out.old = true; }
  };
  if (t.n === "===") { if (!tr) return { ...out, ne: true }; know(1, 0); know(-1, 0); } else if (tr) know(1, -1); else know(-1, 0);
  return out;
}
/** the lock, the readings of recorded positions and recoveries along a path (kept in s.x: lock, r, rec) */
function common(K, s, v, T) {
  let x = s.x;
  if (v.op === "Await" && !v.inlined) {
    const c = resolve(v.args[0]);
    if (isLock(c)) return { ...x, lock: "" + c.id };
    const r = {}; for (const [k, st] of Object.entries(x.r ?? {})) r[k] = st === "F" ? "S" : st;
    const t = T(v.args[0]); const id = isChannelGet(t) ? t.key : K.readers.includes(c.targetFn) ? t.key : null;
    if (id) r[id] = x.lock ? "L" : "F";
    x = { ...x, r };
    if (c.op === "Call" && K.recovers(c.targetFn)) x = { ...x, rec: 1, ok: "", gap: 1 };
  }
  if (v.op === "Call" && x.lock && isUnlock(v, x.lock)) { const r = {}; for (const [k, st] of Object.entries(x.r ?? {})) r[k] = "S"; x = { ...x, lock: "", r }; }
  return x;
}
function isUnlock(v, id) { const c = v.callee ?? v.fnValue ?? v.args?.[0]; let q = c && resolve(c); while (q && (q.op === "Await" || q.op === "Id")) q = resolve(q.args[0]); return !!q && "" + q.id === id; }
function apply(ctx, K, f) {
  const p = K.p, lab = fnLabel(p, f);
  const ob = (kind, ok, key, v, cx, msg) => ctx.ob(kind, !!ok, { key: lab + "|" + key, at: p.loc(v?.ast ?? f), message: `${lab} ${msg}`, path: ok ? undefined : describePath(p, cx.path()) });
  const zero = (H) => H.all.some((k) => /^\+\(\$0\.(pts|qts)===0\)$/.test(k));
  const gp = K.gapOf(f), lax = (H) => gp != null && H.all.includes("-$" + gp);
  let n = 0;
  track(ctx, f, {
    policy: policy(K, f), maxStates: 6000, keep: (k) => STABLE(k.slice(1)) && !/guarantee/.test(k), stable: STABLE,
    edge(s, t, truth, cx, T, H, term0) {
      let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; }
      const c = compared(K, t, truth);
      if (c && c.X.of === "$0" && c.L.f === c.X.f) { let x = s.x; if (c.low) x = { ...x, ok: c.L.id }; if (c.high) x = { ...x, gap: 1 }; return { ...s, x }; }
      let nothing = nullTest(q, tr);
      if (!nothing && q.h === "const") { let b = resolve(term0.cond), y = truth; while (b.op === "Un" && b.operator === "!") { b = resolve(b.args[0]); y = !y; } if (b.op === "Bin" && /^[!=]==?$/.test(b.operator)) { const two = b.args.map((a) => T(a)); if (b.operator[0] === "!") y = !y; if (y && two.every((z) => z.h === "const" && z.n == null)) nothing = "null"; } }
      if (nothing) return { ...s, x: { ...s.x, ok: nothing === "null" ? "none" : nothing, gap: 1, none: 1 } };
    },
    inst(s, v, cx, T, H) {
      let x = common(K, s, v, T);
      const put = (val, what) => {
        const isX = val.h === "prop" && /^(pts|qts)$/.test(val.n) && val.a[0].key === "$0";
        const init = x.none && !x.wrote && H.all.some((k) => /^\+.*TooLong/.test(k)) ;
        ob(R.from, isX && (what === "channel" ? val.n === "pts" : val.n === what), "value|" + what, v, cx, "records something other than the position of the update");
        if (init) return;
        ob(R.next, zero(H) || x.ok, "record|" + what, v, cx, "records the position of an update that was not shown to be unapplied");
        ob(R.alone, zero(H) || !x.ok || x.ok === "none" || x.r?.[x.ok] === "L" || x.r?.[x.ok] === "F", "alone|" + what, v, cx, "records a position although another update may have been applied since the comparison (no lock is held)");
        x = { ...x, wrote: 1 };
      };
      if (v.op === "SetProp" && /^(pts|qts)$/.test(v.name) && v.ast && K.isState(objType(p, v))) put(T(v.args[1]), v.name);
      if (isChannelSet(v, T)) put(T(v.callArgs[1]), "channel");
      if (v.op === "Call" && K.Q.includes(v.targetFn)) {
        n++;
        ob(R.next, zero(H) || x.ok, "apply", v, cx, "hands over an update that was not shown to be unapplied");
        ob(R.gap, zero(H) || x.gap || lax(H), "gap", v, cx, "hands over an update although a gap before it was not excluded or recovered");
        ob(R.both, T(v.callArgs[0]).key === "$0", "update", v, cx, "hands over something other than the update whose position was compared");
        ob(R.both, !x.q, "once", v, cx, "hands over an update twice");
        x = { ...x, q: 1, z: zero(H) ? 1 : 0 };
      }
      return x === s.x ? undefined : { ...s, x };
    },
    exit(s, kind, cx) {
      if (kind !== "return") return;
      const x = s.x;
      ob(R.both, !x.wrote || x.q, "lost", null, cx, "records the position of an update and drops the update");
      ob(R.both, !x.q || x.wrote || x.z, "again", null, cx, "hands over an update without recording its position");
    },
  });
  ctx.ob(R.next, n > 0, { key: lab + "|none", at: p.loc(f), message: `${lab} hands nothing over` });
  /** key of a channel position found absent */
  function nullTest(q, tr) {
    if (q.h === "isnull" || q.h === "call" && q.name === "isnull") { const a = q.a?.[0] ?? q.args?.[0]; if (!a) return null; if (tr && isChannelGet(a)) return a.key; if (tr && a.h === "const" && a.n == null) return "null"; return null; }
    if (q.h === "bin" && q.n === "===" && tr) { const g = q.a.find(isChannelGet), c = q.a.find((y) => y.h === "const" && y.n == null); if (g && c) return g.key; }
    if (!tr && isChannelGet(q)) return q.key;
    if (!tr && q.h === "const" && q.n === null) return "null";
    return null;
  }
}
function objType(p, v) { let q = v.ast; while (q && (ts.isPrefixUnaryExpression(q) || ts.isPostfixUnaryExpression(q))) q = q.operand; if (q && ts.isBinaryExpression(q)) q = q.left; try { if (q && ts.isPropertyAccessExpression(q)) return p.checker.getTypeAtLocation(q.expression); } catch { /* unknown */ } return null; }
/** following the elements of lists: x.cur = {F, e, ok} while one is being dealt with, x.done = lists dealt with to the end */
const walkLists = {
  has(x, F) { return { ...x, cur: { F, e: "", ok: 0 } }; },
  end(x, F) { const done = [...new Set([...(x.done ?? []), F])].sort(); return { ...x, done, cur: null }; },
};
/** the list whose elements a branch condition steps through: {F} */
function stepping(t, term0) {
  const c = resolve(term0.cond);
  if (c.op === "IterHas" && !c.callback) return "iter";
  if (t.h === "bin" && t.n === "<" && t.a[1].h === "prop" && t.a[1].n === "length") return t.a[1].a[0].key;
  if (t.h === "bin" && t.n === "<" && t.a[1].h === "lin") { const m = /^([^+*]+)\.length$/.exec(t.a[1].n); if (m) return m[1]; }
  return null;
}
function mentions(T, v, key, depth = 0) {
  v = resolve(v); if (!v || depth > 6) return false;
  let k; try { k = T(v).key; } catch { k = null; } if (k === key) return true;
  if (v.op === "Object") return (v.props ?? []).some((q) => q.value && mentions(T, q.value, key, depth + 1));
  if (v.op === "Array" || v.op === "Spread" || v.op === "Await" || v.op === "Id") return v.args.some((a) => mentions(T, a, key, depth + 1));
  return false;
}
const isInvoke = (t) => t.h === "invoke";
const opaque = { hook(v) { if (v.op !== "Call" || v.method !== "invoke") return null; return mk("invoke", [], "%" + v.id + ";"); } };
const LISTS = /^(Message|EncryptedMessage|Update)$/;
function elementName(p, t) {
  const el = p.checker.getIndexTypeOfType(t, ts.IndexKind.Number); if (!el) return null;
  const n = el.aliasSymbol?.name ?? el.symbol?.name ?? ""; if (LISTS.test(n)) return n;
  const ms = el.isUnion() ? el.types : [el]; const names = ms.map((m) => m.aliasSymbol?.name ?? m.symbol?.name ?? "");
  if (names.length && names.every((x) => /^message(Empty|Service)?$/.test(x))) return "Message"; if (names.length && names.every((x) => /^encryptedMessage/.test(x))) return "EncryptedMessage"; if (names.length && names.every((x) => /^update[A-Z]\w*$/.test(x) && !/^updates/.test(x))) return "Update";
  return null;
}
/** "_" literal of an object type */
const kindOf = (p, t) => { const q = t.getProperty("_"); if (!q) return null; const u = p.checker.getTypeOfSymbol(q); return u.isStringLiteral() ? u.value : null; };
function kindsWith(p, t, prop) { const ms = t.isUnion() ? t.types : [t]; return ms.filter((m) => m.getProperty(prop)).map((m) => ({ kind: kindOf(p, m), type: m })); }
/** what the path knows about the kind of an object */
function possible(H, k, kind) {
  let yes = false;
  for (const f of H.all) {
    const m = /^([+-])call:(is|isOneOf)\((.*),([^,]*(?:\(.*\))?[^,]*)\)$/.exec(f);
    if (!m || !f.endsWith("," + k + ")")) continue;
    const names = [...f.slice(0, f.length - k.length).matchAll(/"([\w.]+)"/g)].map((y) => y[1]).slice(0, 40);
    const head = f.slice(0, f.length - k.length - 1); const own = [...head.slice(head.indexOf("(")).matchAll(/"([\w.]+)"/g)].map((y) => y[1]); void names;
    if (f[0] === "-" && own.includes(kind)) return false;
    if (f[0] === "+" && !own.includes(kind)) return false;
    if (f[0] === "+") yes = true;
  }
  for (const f of H.all) if (f[0] === "+" && (f === `+(${k}._===${JSON.stringify(kind)})`)) yes = true; else if (f[0] === "+" && f.startsWith(`+(${k}._==="`)) return false; else if (f === `-(${k}._===${JSON.stringify(kind)})`) return false;
  return yes ? true : true;
}
function difference(ctx, K, f) {
  const p = K.p, lab = fnLabel(p, f);
  const ob = (kind, ok, key, v, cx, msg) => ctx.ob(kind, !!ok, { key: lab + "|" + key, at: p.loc(v?.ast ?? f), message: `${lab} ${msg}`, path: ok ? undefined : describePath(p, cx.path()) });
  const types = new Map(); // term key of a received object -> type
  p.walk(f, (n) => { void n; });
  const process = (g) => g && (K.inner.includes(g) || K.batch.includes(g));
  let n = 0;
  const one = (root, label) => track(ctx, root, {
    policy: { never: (nm, g) => g && g !== root && (K.stop.has(g) || process(g) || K.files.includes(g.getSourceFile()) && !K.relevant(g)) }, maxStates: 8000, terms: opaque,
    keep: (k) => /call:is(OneOf)?\(/.test(k) || /\._===/.test(k), stable: (k) => /call:is(OneOf)?\(/.test(k) && /invoke/.test(k),
    edge(s, t, truth, cx, T, H, term0) {
      const st = stepping(t, term0); if (!st) return;
      let x = s.x; const F = st === "iter" ? T(resolve(term0.cond).args[0]).key : st;
      if (!/\.(\w+)$/.test(F) || !/invoke/.test(F)) return;
      if (x.cur && x.cur.F === F) { ob(R.diff, x.cur.ok, "element|" + F.split(".").pop(), { ast: term0.ast ?? resolve(term0.cond).ast }, cx, `passes over an element of ${F.split(".").pop()} of a difference (or does not wait for it to be processed)`); n++; }
      x = { ...(truth ? walkLists.has(x, F) : walkLists.end(x, F)), open: "1" };
      return { ...s, x };
    },
    exit(s, kind, cx) { if (kind === "return") ob(R.both, !s.x.open, "unrecorded", null, cx, "applies a difference without recording the state it leads to"); },
    inst(s, v, cx, T, H) {
      let x = s.x;
      if (v.op === "IterElem" && !v.callback && x.cur) { const F = T(v.args[0]).key; if (x.cur.F === F) x = { ...x, cur: { ...x.cur, e: T(v).key } }; }
      if (v.op === "GetElem" && x.cur && T(v.args[0]).key === x.cur.F && !x.cur.e) x = { ...x, cur: { ...x.cur, e: T(v).key } };
      if (v.op === "Await" && x.cur?.e && !v.inlined) { const c = resolve(v.args[0]); if (c.op === "Call" && process(c.targetFn) && c.callArgs.some((a) => mentions(T, a, x.cur.e))) x = { ...x, cur: { ...x.cur, ok: 1 } }; }
      if (v.op === "Await") { const c = resolve(v.args[0]); if (isInvoke(T(v.args[0])) && c.op === "Call") { types.set(T(v).key, v.ast ? p.checker.getTypeAtLocation(v.ast) : null); ob(R.both, !x.open, "unrecorded", v, cx, "applies a difference without recording the state it leads to"); x = { ...x, done: [], cur: null, open: "" }; } }
      const vals = []; if (isChannelSet(v, T)) vals.push(v.callArgs[1]); if (v.op === "Call" && K.setters.includes(v.targetFn)) vals.push(...v.callArgs);
      if (v.op === "SetProp" && /^(pts|qts)$/.test(v.name) && v.ast && K.isState(objType(p, v))) vals.push(v.args[1]);
      for (const a of vals) {
        let t = T(a), path = []; while (t.h === "prop" && !isInvoke(t)) { path.unshift(t.n); t = t.a[0]; }
        while (t.h === "call" && /#as$/.test(t.name ?? "")) { t = t.a[t.a.length - 1]; while (t.h === "prop") { path.unshift(t.n); t = t.a[0]; } }
        if (!isInvoke(t) || !path.length) continue;
        x = { ...x, open: "" };
        const ty = types.get(t.key); if (!ty) continue;
        const cands = kindsWith(p, ty, path[0]).filter((c) => c.kind && possible(H, t.key, c.kind));
        for (const c of cands) for (const q of c.type.getProperties()) {
          if (!elementName(p, p.checker.getTypeOfSymbol(q))) continue; n++;
          ob(R.diff, (x.done ?? []).includes(t.key + "." + q.name), `state|${c.kind}.${q.name}`, v, cx, `records the state of ${c.kind} before ${q.name} was processed to its end`);
        }
      }
      return x === s.x ? undefined : { ...s, x };
    },
  });
  one(f, lab);
  ctx.ob(R.diff, n > 0, { key: lab + "|none", at: p.loc(f), message: `${lab} records no state of a difference` });
}
/** a batch: applied only in its place, all its updates passed on */
function batches(ctx, K) {
  const p = K.p;
  for (const f of K.batch) {
    const lab = fnLabel(p, f);
    const ob = (kind, ok, key, v, cx, msg) => ctx.ob(kind, !!ok, { key: lab + "|" + key, at: p.loc(v?.ast ?? f), message: `${lab} ${msg}`, path: ok ? undefined : describePath(p, cx.path()) });
    const gapParam = K.gapOf(f);
    const takes = (g) => g && (K.Q.includes(g) || K.inner.includes(g) || K.routers.includes(g));
    let n = 0, m = 0;
    const SEQ = /^\(?\$0(\.\w+)*(===[\w."-]+\))?$/;
    const stable = (k) => SEQ.test(k) || /^call:(is|isOneOf|isOfEnum)\(.*,\$0\)$/.test(k) || k === "$" + gapParam || /^\("seq_start"in\$0\)$/.test(k);
    const member = (H, e, kind) => H.all.some((k) => k === `+call:is("${kind}",${e})`) || H.all.includes(`+(${e}._==="${kind}")`);
    const sequenced = (H) => H.all.some((k) => /^\+call:is\("updates(Combined)?",\$0\)$/.test(k)) || H.all.some((k) => /^\+call:isOneOf\(.*"updates".*,\$0\)$/.test(k));
    const X = new Set(["seq", "seq_start"]);
    track(ctx, f, {
      policy: { never: (nm, g) => g && g !== f && (K.stop.has(g) || K.inner.includes(g) || K.routers.includes(g) || K.files.includes(g.getSourceFile()) && !K.relevant(g)) }, maxStates: 9000,
      keep: (k) => stable(k.slice(1)) || /IterElem|\[/.test(k) && /updatePtsChanged/.test(k), stable,
      edge(s, t, truth, cx, T, H, term0) {
        const c = compared(K, t, truth);
        if (c && c.X.of === "$0" && X.has(c.X.f) && c.L.f === "seq") {
          let x = s.x;
          // the first number of the batch: seq_start where there is one
          const first = c.X.f === "seq_start" || H.all.some((k) => /^-\("seq_start"in\$0\)$/.test(k)) || H.all.includes('+call:is("updates",$0)');
          if (first && x.r?.[c.L.id] === "F") { if (c.low) x = { ...x, low: c.L.id }; if (c.high) x = { ...x, high: c.L.id }; if (c.far) x = { ...x, far: 1 }; if (c.old) x = { ...x, old: 1 }; }
          if (first && x.r?.[c.L.id] === "F") {
            const id = c.L.id; if (c.ne) x = { ...x, ne: id };
            if (x.ne === id && x.low === id && x.high === id) return null; // the outcomes exclude each other
            if (x.ne === id && x.high === id) x = { ...x, old: 1 }; if (x.ne === id && x.low === id) x = { ...x, far: 1 };
          }
          return { ...s, x };
        }
        const st = stepping(t, term0); if (!st) return;
        const c0 = resolve(term0.cond); let el = null; if (st === "iter") el = typeName(p, c0.ast?.expression); else el = "Update";
        const F = st === "iter" ? T(c0.args[0]).key : st; if (el !== "Update") return;
        let x = s.x;
        if (x.cur && x.cur.F === F) { m++; ob(R.seq, x.cur.ok, "element", { ast: c0.ast }, cx, "passes over an update of a batch"); }
        if (!x.begun) {
          n++;
          const lax = gapParam != null && H.all.includes("-$" + gapParam), zero = H.all.some((k) => /^\+\(\$0\.seq(_start)?===0\)$/.test(k));
          ob(R.seq, !sequenced(H) || lax || zero || x.low && x.low === x.high, "place", { ast: c0.ast }, cx, "passes on the updates of a batch that was not shown to be the next one");
        }
        x = truth ? walkLists.has({ ...x, begun: 1 }, F) : walkLists.end({ ...x, begun: 1 }, F);
        return { ...s, x };
      },
      inst(s, v, cx, T, H) {
        let x = common(K, s, v, T);
        if (v.op === "IterElem" && !v.callback && x.cur && x.cur.F === T(v.args[0]).key) x = { ...x, cur: { ...x.cur, e: T(v).key } };
        if (v.op === "GetElem" && x.cur && !x.cur.e && T(v.args[0]).key === x.cur.F) x = { ...x, cur: { ...x.cur, e: T(v).key } };
        if (v.op === "Call" && x.cur?.e && takes(v.targetFn) && v.callArgs.some((a) => mentions(T, a, x.cur.e))) { ob(R.seq, !x.cur.ok, "twice", v, cx, "passes an update of a batch on twice"); x = { ...x, cur: { ...x.cur, ok: 1 } }; }
        if (x.cur?.e && !x.cur.ok && member(H, x.cur.e, "updatePtsChanged")) x = { ...x, cur: { ...x.cur, ok: 1 } };
        if (v.op === "SetProp" && v.name === "seq" && K.isState(objType(p, v))) {
          const t = T(v.args[1]);
          ob(R.seq, x.low && x.low === x.high && t.key === "$0.seq", "record", v, cx, t.key === "$0.seq" ? "records the number of a batch that was not shown to be the next one" : "records something other than the number of the batch");
        }
        if (v.op === "Object" && v.props?.some((q) => q.key === "pts")) for (const k of ["pts", "pts_count"]) { const q = v.props.find((y) => y.key === k); if (q) { const t = T(q.value); ob(R.next, t.key === "$0." + k, "short|" + k, v, cx, `gives an update a ${k} other than the one received`); } }
        return x === s.x ? undefined : { ...s, x };
      },
      exit(s, kind, cx, T, H) {
        if (kind !== "return") return;
        const x = s.x;
        ob(R.gap, !x.far || x.rec, "far", null, cx, "drops a batch that skips ahead without recovering what is missing");
        ob(R.seq, x.begun || x.rec || x.old, "dropped", null, cx, "drops updates that were neither passed on nor shown to be applied already");
        ob(R.seq, !x.cur, "broken", null, cx, "stops before the end of a batch");
      },
    });
    ctx.ob(R.seq, n > 0 && m > 0, { key: lab + "|none", at: p.loc(f), message: `${lab} does not go through the updates of a batch` });
  }
}
function typeName(p, e) { if (!e) return null; try { return elementName(p, p.checker.getTypeAtLocation(e)); } catch { return null; } }
/** recorded states come from the server, or from what is recorded */
function states(ctx, K) {
  const p = K.p;
  const okState = (t, f) => {
    if (t.h === "call" && K.readers.some((r) => t.fn === r || t.key.includes(r.name?.getText() ?? "?"))) return true;
    if (isInvoke(t)) return true;
    if (t.h === "prop" && (isInvoke(t.a[0]) || t.a[0].h === "this")) return /^(state|intermediate_state)$/.test(t.n) || t.a[0].h === "this";
    if (t.h === "call" && /\.getState$/.test(t.name ?? "")) return true;
    if (t.h === "const" && t.n == null) return true;
    return t.h === "param" && K.setters.includes(f);
  };
  for (const f of K.fns) {
    if (!callees(p, f).some((c) => K.setters.includes(c.fn)) && !moves(K, f) && !K.readers.includes(f) && !K.setters.includes(f) && !K.fetch.includes(f)) continue;
    const lab = fnLabel(p, f);
    const ob = (ok, key, v, cx, msg) => ctx.ob(R.from, !!ok, { key: lab + "|" + key, at: p.loc(v?.ast ?? f), message: `${lab} ${msg}`, path: ok ? undefined : describePath(p, cx.path()) });
    track(ctx, f, {
      policy: { never: () => true }, maxStates: 8000, keep: () => false, terms: opaque,
      inst(s, v, cx, T) {
        if (v.op === "Call" && K.setters.includes(v.targetFn)) for (const a of v.callArgs) ob(okState(T(a), f), "state", v, cx, "records a state that is neither the recorded one nor one the server sent");
        if (v.op === "SetProp" && v.ast && ts.isBinaryExpression(v.ast)) {
          let t0; try { t0 = p.checker.getTypeAtLocation(v.ast.left); } catch { t0 = null; }
          const u = t0 && (t0.isUnion() ? t0.types.filter((y) => !(y.flags & (ts.TypeFlags.Null | ts.TypeFlags.Undefined))) : [t0]);
          if (T(v.args[0]).h === "this" && u?.length && u.every(K.isState)) ob(okState(T(v.args[1]), f), "kept", v, cx, "keeps a state that is neither the recorded one nor one the server sent");
        }
        if (v.op === "SetProp" && /^(pts|qts|seq)$/.test(v.name) && K.isState(objType(p, v))) { const t = T(v.args[1]); ob(t.h === "param" || t.h === "prop" && t.n === v.name && (isInvoke(t.a[0]) || t.a[0].h === "param"), v.name, v, cx, `records a ${v.name} the server did not send`); }
      },
    });
  }
}
/** only the application of a difference skips gap checks */
function mode(ctx, K) {
  const p = K.p;
  const seen = new Set(); const todo = [];
  const add = (f, i) => { const k = f.pos + ":" + i + f.getSourceFile().fileName; if (i != null && !seen.has(k)) { seen.add(k); todo.push([f, i]); } };
  for (const f of K.inner) add(f, K.gapOf(f));
  const all = allFunctions(p).filter((f) => K.named(f) === f);
  while (todo.length) {
    const [f, i] = todo.pop();
    for (const g of all) for (const c of callees(p, g)) {
      if (c.fn !== f || !ts.isCallExpression(c.call)) continue;
      const a = c.call.arguments[i] ?? f.parameters[i].initializer; const lab = fnLabel(p, g);
      const own = a && ts.isIdentifier(a) ? paramIndex(p, K, a, c.call) : null;
      if (own) { add(own.fn, own.i); ctx.ob(R.mode, true, { key: lab, at: p.loc(c.call), message: "" }); continue; }
      const val = a ? p.constOf(a) ?? (a.kind === ts.SyntaxKind.TrueKeyword ? true : a.kind === ts.SyntaxKind.FalseKeyword ? false : undefined) : undefined;
      const inDiff = K.files.includes(g.getSourceFile()) && onlyUnder(K, g);
      ctx.ob(R.mode, val === true || val === false && inDiff, { key: lab + "|" + fnLabel(p, f), at: p.loc(c.call), message: val === false ? `${lab} has updates applied without checks for gaps though no difference is being applied` : `${lab} has updates applied with gap checks that depend on something else` });
    }
  }
}
/** a function that only the functions that ask for differences call */
function onlyUnder(K, g, seen = new Set()) {
  if (K.ask.includes(g)) return true; if (seen.has(g)) return true; seen.add(g);
  const users = K.fns.filter((h) => h !== g && callees(K.p, h).some((c) => c.fn === g)); return users.length > 0 && users.every((h) => onlyUnder(K, h, seen));
}
function paramIndex(p, K, id, at) {
  const d = p.symbolOf(id)?.valueDeclaration; if (!d || !ts.isParameter(d)) return null;
  const fn = d.parent; return fn.parameters ? { fn, i: fn.parameters.indexOf(d) } : null; void at;
}
/** updates of one sequence are processed by the tasks of one queue, or by a recovery */
function queues(ctx, K) {
  const p = K.p;
  const waited = (call) => { // awaited or returned, possibly through .finally()/.then()
    let q = call; for (;;) { const u = q.parent; if (ts.isPropertyAccessExpression(u) && u.expression === q && ts.isCallExpression(u.parent) && u.parent.expression === u && /^(then|finally)$/.test(u.name.text)) { q = u.parent; continue; } if (ts.isParenthesizedExpression(u) || ts.isConditionalExpression(u) && u.condition !== q) { q = u; continue; } return ts.isAwaitExpression(u) || ts.isReturnStatement(u) || ts.isArrowFunction(u) && u.body === q; }
  };
  const taskOf = (n) => { let q = n; while (q) { if ((ts.isArrowFunction(q) || ts.isFunctionExpression(q)) && ts.isCallExpression(q.parent) && K.isAdd(q.parent) && q.parent.arguments[0] === q) return q; if ((ts.isArrowFunction(q) || ts.isFunctionExpression(q)) && ts.isVariableDeclaration(q.parent) && q.parent.initializer === q) { const y = q.parent, users = []; p.walk(enclosing(y) ?? y.getSourceFile(), (m) => { if (ts.isIdentifier(m) && m !== y.name && p.symbolOf(m)?.valueDeclaration === y) users.push(m); }); return users.length && users.every((m) => ts.isCallExpression(m.parent) && K.isAdd(m.parent) && m.parent.arguments[0] === m) ? users[0] : null; } if (ts.isFunctionLike(q)) return null; q = q.parent; } return null; };
  const targets = [...K.inner, ...K.batch];
  const judge = (f, depth, seen) => {
    for (const g of K.fns) for (const c of callees(p, g)) {
      if (c.fn !== f || !ts.isCallExpression(c.call)) continue;
      const lab = fnLabel(p, g), w = waited(c.call), task = taskOf(c.call);
      if (task || onlyUnder(K, g) || g === f || targets.includes(g) && !K.inner.includes(f)) { ctx.ob(R.queue, w, { key: lab + "|" + fnLabel(p, f), at: p.loc(c.call), message: `${lab} does not wait for ${fnLabel(p, f)}, so the next update of the sequence may overtake it` }); if (task) keeps(task.parent, g, lab); continue; }
      if (enclosing(c.call) === g && w && depth < 3 && !seen.has(g)) { seen.add(g); ctx.ob(R.queue, true, { key: lab + "|" + fnLabel(p, f), at: p.loc(c.call), message: "" }); judge(g, depth + 1, seen); continue; }
      ctx.ob(R.queue, false, { key: lab + "|" + fnLabel(p, f), at: p.loc(c.call), message: `${lab} runs ${fnLabel(p, f)} outside the queue of its sequence` });
    }
  };
  for (const f of targets) judge(f, 0, new Set());
  // what is handed to the application goes through a queue as well
  for (const f of K.fns) { if (!K.Q.includes(f)) continue; p.walk(f, (n) => { if (K.isAdd(n)) keeps(n, f, fnLabel(p, f)); }); }
  function keeps(add, g, lab) { const how = kept(add.expression.expression, g, 0); ctx.ob(R.queue, how, { key: lab + "|kept", at: p.loc(add), message: `${lab} adds to a queue that is not kept for the next update of the same sequence` }); }
  /** the queue an expression stands for is one object for as long as the manager lives */
  function kept(e, g, depth) {
    while (ts.isParenthesizedExpression(e) || ts.isNonNullExpression(e) || ts.isAsExpression(e)) e = e.expression;
    if (depth > 4) return false;
    if (ts.isCallExpression(e)) { const r = p.resolveCallee(e); return !!r.fn && returnsKept(r.fn, depth + 1); }
    const d = p.symbolOf(e)?.valueDeclaration; if (!d) return false;
    if (ts.isPropertyDeclaration(d)) return !!d.initializer && ts.isNewExpression(d.initializer) && !reassigned(d);
    if (ts.isVariableDeclaration(d) || ts.isParameter(d)) { if (ts.isVariableDeclaration(d) && d.initializer && ts.isCallExpression(d.initializer) && p.resolveCallee(d.initializer).fn && /Queue/.test(p.checker.typeToString(p.checker.getTypeAtLocation(d.initializer))) && K.files.includes(p.resolveCallee(d.initializer).fn.getSourceFile())) return returnsKept(p.resolveCallee(d.initializer).fn, depth + 1); return mapped(K.named(enclosing(e) ?? g)); }
    return false;
  }
  function returnsKept(f, depth) { let y = true, any = false; p.walk(f, (n) => { if (ts.isNewExpression(n) && /Queue$/.test(n.expression.getText())) any = true; }); if (any) return mapped(f); p.walk(f, (n) => { if (ts.isReturnStatement(n) && n.expression && enclosing(n) === f) y &&= kept(n.expression, f, depth); }); return y; }
  function reassigned(d) { let y = false; p.walk(d.parent, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && p.symbolOf(n.left)?.valueDeclaration === d) y = true; }); return y; }
  /** every queue made in the function is put into a map under the key it was looked up with, and only when nothing was there */
  function mapped(f) {
    let fine = true, made = 0;
    track(ctx, f, {
      policy: { never: () => true }, keep: () => true,
      inst(s, v, cx, T, H) {
        let x = s.x;
        if (v.op === "Call" && v.method === "get" && /Map\.get$/.test(v.name ?? "")) x = { ...x, m: T(v.recv).key, k: T(v.callArgs[0]).key, g: T(v).key };
        if (v.op === "New" && /Queue$/.test(v.name ?? v.ast?.expression?.getText() ?? "")) { made++; if (!x.g || !H.all.some((k) => k === `+(${x.g}===undefined)` || k === "-" + x.g || k.startsWith("+") && k.includes("isnull") && k.includes(x.g))) fine = false; x = { ...x, q: "" + v.id }; }
        if (v.op === "Call" && v.method === "set" && x.q && "" + resolve(v.callArgs[1]).id === x.q) { if (T(v.recv).key === x.m && T(v.callArgs[0]).key === x.k) x = { ...x, q: "" }; }
        return x === s.x ? undefined : { ...s, x };
      },
      exit(s, kind) { if (kind === "return" && s.x.q) fine = false; },
    });
    return fine && made > 0;
  }
}
/** the parts of the update pipeline, found by what they do */
function roles(ctx) {
  const p = ctx.p;
  const files = p.sourceFiles.filter((f) => p.isRepo(f) && /^client\//.test(p.rel(f)) && /"updates\.getDifference"/.test(f.text) && /channelPts/.test(f.text)); ctx.need(files.length, "the update pipeline");
  const named = (f) => { let g = f; while (g && (ts.isArrowFunction(g) || ts.isFunctionExpression(g))) g = enclosing(g); return g ?? f; };
  const fns = allFunctions(p).filter((f) => files.includes(f.getSourceFile()) && named(f) === f);
  const lit = (f, t) => { let y = false; p.walk(f, (n) => { if (ts.isStringLiteral(n) && n.text === t && ts.isPropertyAssignment(n.parent) && n.parent.name.getText() === "_") y = true; }); return y; };
  const fetch = fns.filter((f) => lit(f, "updates.getState"));
  const ask = fns.filter((f) => !fetch.includes(f) && (lit(f, "updates.getDifference") || lit(f, "updates.getChannelDifference")));
  // what runs the application's handlers, and what puts that into a queue
  const typeName = (e) => { try { return p.checker.getTypeAtLocation(e).symbol?.name; } catch { return undefined; } };
  const isAdd = (n) => ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "add" && typeName(n.expression.expression) === "Queue";
  const handles = (f) => callees(p, f).some((c) => ts.isCallExpression(c.call) && isHandlerCall(c.call));
  const isHandlerCall = (n) => { let t; try { t = p.checker.getTypeAtLocation(n.expression); } catch { return false; } return t?.aliasSymbol?.name === "UpdateHandler"; };
  const H = fns.filter(handles); ctx.need(H.length, "the call of the update handler");
  const reach = (from, test, memo = new Map()) => { const go = (f) => { if (memo.has(f)) return memo.get(f); memo.set(f, false); let y = test(f); if (!y) for (const c of callees(p, f)) if (c.fn && files.includes(c.fn.getSourceFile()) && go(named(c.fn))) { y = true; break; } memo.set(f, y); return y; }; return go(from); };
  const toHandler = (f) => reach(f, (g) => H.includes(g));
  // functions that queue the handling of one update: a Queue.add whose task runs the handler
  const addsHandling = (f) => { let y = false; p.walk(f, (n) => { if (isAdd(n) && n.arguments[0]) p.walk(n.arguments[0], (m) => { if (ts.isCallExpression(m)) { const r = p.resolveCallee(m); if (r.fn && files.includes(r.fn.getSourceFile()) && toHandlerDirect(r.fn)) y = true; } }); }); return y; };
  const direct = new Map(); const toHandlerDirect = (f) => { if (direct.has(f)) return direct.get(f); direct.set(f, false); let y = H.includes(f); p.walk(f, (n) => { if (isAdd(n)) return false; if (!y && ts.isCallExpression(n)) { const r = p.resolveCallee(n); if (r.fn && r.fn !== f && files.includes(r.fn.getSourceFile()) && toHandlerDirect(named(r.fn))) y = true; } }); direct.set(f, y); return y; };
  const Q = fns.filter(addsHandling); ctx.need(Q.length, "the function that queues the handling of an update");
  const isState = (t) => t && (t.aliasSymbol?.name === "updates_State" || t.symbol?.name === "updates_State" || t.symbol?.name === "updates.state" || /updates_[sS]tate$/.test(p.checker.typeToString(t)));
  return { p, files, named, fns, fetch, ask, H, Q, isAdd, reach, isState, toHandler };
}
