"use strict";
// P22: what is kept in front of a storage is neither lost nor hidden.
const { ts } = require("../lib/project.js");
const { track, describePath, resolve } = require("../lib/facts.js");
const { enclosing, owner } = require("../lib/util.js");

const R = {
  put: "a value that is set is kept for reads and for the next flush",
  read: "the storage is read only where nothing newer is kept",
  fill: "what has been read from the storage does not replace what was set meanwhile",
  flush: "a flush writes every kept value under its own key",
  seen: "what is being written can still be read",
  fail: "what could not be written is kept, unless something newer is",
  clean: "a value counts as written only if it is the one that was written",
  all: "a flush reaches everything that is kept",
  close: "a storage is flushed before it is closed",
};
module.exports = {
  technique: "typestate and path-sensitive dataflow over SSA form",
  explanation: "The classes in front of a storage are found by their shape (a storage, a set, a get and a commit method). For the one that keeps entries: every path through set leaves the value in the cache and in the map of unwritten entries, or in the storage itself; the storage is read only where the cache, the unwritten entries and the entries being written are known to lack the key, and what it returned is cached only if that is still known after waiting; a flush hands every entry of the map it took to the storage under its own key, keeps it where reads look until that has ended, and on every failing path returns to the unwritten entries what is not there with a newer value. For the one that keeps a single value: the mark that it is unwritten is taken away only where the value is known to be the written one. Every such object made is registered, a forced flush reaches all of them and reports a failure, and a storage is closed only after a forced flush.",
  rules: Object.values(R),
  assumptions: ["storages return what was stored (P21)", "flushes do not overlap (P10: the flush lock)", "in front of a storage that is itself in memory only, the bounded cache is the store: what it drops is gone (taken as intended, so nothing is required of set there beyond the cache)", "getSync looks at the cache alone"],
  run(ctx) {
    const p = ctx.p; const all = [];
    for (const f of p.sourceFiles) if (p.isRepo(f)) p.walk(f, (n) => { if (ts.isClassDeclaration(n) && n.name) all.push(n); });
    const meth = (c, n) => c.members.find((m) => ts.isMethodDeclaration(m) && m.body && m.name.getText() === n);
    const type = (m) => p.checker.typeToString(p.checker.getTypeAtLocation(m.name));
    const fields = (c) => c.members.filter((m) => ts.isPropertyDeclaration(m));
    const shaped = all.filter((c) => meth(c, "set") && meth(c, "get") && meth(c, "commit") && fields(c).some((m) => type(m) === "Storage"));
    const Ms = shaped.filter((c) => fields(c).some((m) => /^LruCache</.test(type(m)))), Vs = shaped.filter((c) => !Ms.includes(c));
    const M = Ms[0], V = Vs.find((c) => !c.heritageClauses && meth(c, "get").parameters.length === 0);
    ctx.need(M, "the class that keeps entries in front of a storage"); ctx.need(V, "the class that keeps a value in front of a storage"); if (!M || !V) return;
    const u = { p, ctx, meth, type, fields };
    entries(u, M); single(u, V); operations(u, M, V, all); closing(u, M);
    for (const [k, n] of [[R.put, 4], [R.read, 2], [R.fill, 2], [R.flush, 3], [R.seen, 1], [R.fail, 2], [R.clean, 2], [R.all, 8], [R.close, 2]]) ctx.floor(k, n);
  },
};
const bare = (k) => k.replace(/%[\d~]+;/g, "");
const flat = (t, tr) => { while (t.h === "not") { t = t.a[0]; tr = !tr; } return [t, tr]; };
const maker = (u, c) => (rule, ok, key, at, cx, msg) => u.ctx.ob(rule, !!ok, { key: c.name.text + "|" + key, at: u.p.loc(at), message: `${u.p.rel(c.getSourceFile())}#${c.name.text} ${msg}`, path: ok || !cx ? undefined : describePath(u.p, cx.path()) });
const isStorageSet = (v) => v.op === "Call" && /#Storage\.set$/.test(v.name ?? ""), isStorageGet = (v) => v.op === "Call" && /#Storage\.get$/.test(v.name ?? "");
const fieldOf = (t) => { const m = /^this\.(#?\w+)$/.exec(t?.key ?? ""); return m ? m[1] : null; };
const memory = (k, st) => k === `this.${st}.isMemory`;
/** what an edge says about a field not having the key: [field, key] */
function lacking(t, tr) {
  const k = bare(t.key); let m;
  if (tr && (m = /^\(call:(?:Lru[cC]ache|Map)\.get\(this\.(#?\w+),(.*)\)===undefined\)$/.exec(k))) return [m[1], m[2]];
  if (tr && (m = /^isnull\(call:(?:LruCache|Map)\.get\(this\.(#?\w+),(.*)\)\)$/.exec(k))) return [m[1], m[2]];
  if (!tr && (m = /^call:(?:LruCache|Map)\.has\(this\.(#?\w+),(.*)\)$/.exec(k))) return [m[1], m[2]];
  return null;
}
function entries(u, c) {
  const { p, ctx } = u, ob = maker(u, c); const st = u.fields(c).find((m) => u.type(m) === "Storage").name.getText(), cache = u.fields(c).find((m) => /^LruCache</.test(u.type(m))).name.getText();
  const maps = u.fields(c).filter((m) => /^(Readonly)?Map</.test(u.type(m))).map((m) => m.name.getText());
  // the map that set puts unwritten entries into
  let pending = null, form = null; const f = u.meth(c, "set"); let ends = 0;
  track(ctx, f, { policy: {}, keep: (k) => /isMemory$/.test(k), init: {}, maxStates: 2000,
    inst(s, v, cx, T) {
      const x = s.x; const put = (n) => ({ ...s, x: { ...x, ...n } });
      if (v.op === "Await") return put({ waited: 1 });
      if (v.op !== "Call") return;
      const r = v.recv ? fieldOf(T(v.recv)) : null;
      if (v.method === "set" && (r === cache || maps.includes(r))) { const k = bare(T(v.callArgs[0]).key), val = T(v.callArgs[1]).key; ob(R.put, !x.waited, "late", v.ast, cx, "keeps a value only after waiting"); if (r !== cache) pending = pending ?? r; form = form ?? k; const ok = val === "$1" && k === form; ob(R.put, ok, "as|" + (r === cache ? "cache" : "map"), v.ast, cx, "keeps something else than what was set, or under another key"); return put({ [r]: ok ? 1 : 0 }); }
      if (isStorageSet(v)) { const k = bare(T(v.callArgs[0]).key); const ok = /^arr\(this\.#?\w+,spread\(\$0\)\)$/.test(k) && T(v.callArgs[1]).key === "$1"; ob(R.put, ok, "as|storage", v.ast, cx, "stores something else than what was set, or under another key"); return put({ stored: ok ? 1 : 0 }); }
    },
    exit(s, kind, cx, T, H) { if (kind !== "return") return; ends++; const mem = H.all.some((k) => k[0] === "+" && memory(k.slice(1), st)); ob(R.put, s.x[cache] === 1, "cache", f, cx, "does not keep a value that is set for reads"); ob(R.put, mem || s.x.stored || maps.some((m) => s.x[m] === 1), "pending", f, cx, "does not keep a value that is set for the next flush"); } });
  ob(R.put, ends > 0, "set|ends", f, null, "never sets anything");
  ctx.need(pending, "the map of unwritten entries"); if (!pending) return;
  const held = flush(u, c, ob, { st, cache, pending, maps });
  // reading
  const must = [cache, pending, ...held]; const g = u.meth(c, "get"); let reads = 0;
  track(ctx, g, { policy: {}, keep: () => false, init: { abs: [] }, maxStates: 4000,
    inst(s, v, cx, T) {
      const x = s.x;
      if (isStorageGet(v)) { reads++; const miss = must.filter((m) => !x.abs.includes(m)); const k = bare(T(v.callArgs[0]).key); ob(R.read, !miss.length, "read", v.ast, cx, `reads the storage although ${miss.join(", ")} may have the value`); ob(R.read, /^arr\(this\.#?\w+,spread\(\$0\)\)$/.test(k), "key", v.ast, cx, "reads the storage under another key"); return; }
      if (v.op === "Await" && !v.inlined) return { ...s, x: { ...x, abs: [], old: must.filter((m) => x.abs.includes(m)) } };
      if (v.op === "Call" && v.recv && v.method === "set" && [cache, ...maps].includes(fieldOf(T(v.recv)))) { const t = T(v.callArgs[1]); if (/Storage\.get\(/.test(t.key)) { const miss = must.filter((m) => !x.abs.includes(m)); ob(R.fill, !miss.length, "fill", v.ast, cx, "keeps what it has read from the storage although a newer value may have been set meanwhile"); const k = bare(T(v.callArgs[0]).key); ob(R.fill, k === form, "fill|key", v.ast, cx, "keeps what it has read under another key"); } }
    },
    edge(s, t, truth, cx) { const [q, tr] = flat(t, truth); const has = lacking(q, !tr); if (has && has[1] === form && held.includes(has[0])) ob(R.read, s.x.abs.includes(pending), "order", g, cx, "prefers a value that is being written to a newer one"); const l = lacking(q, tr); if (l && l[1] === form && !s.x.abs.includes(l[0])) return { ...s, x: { ...s.x, abs: [...s.x.abs, l[0]].sort() } }; return undefined; },
    onRet(s, v, cx, T) { const t = T(v); const k = bare(t.key); ob(R.read, /Storage\.get\(/.test(k) || [cache, ...maps].some((m) => k.includes(`(this.${m},${form})`)), "answer", v.ast ?? g, cx, "answers a read with something else than what is kept or stored"); } });
  ob(R.read, reads > 0, "reads", g, null, "never reads the storage");
  // no other method may replace a kept value by something older or drop unwritten entries, except where all is forgotten
  const drops = new Set(["reset"]);
  for (const m of c.members) {
    if (!ts.isMethodDeclaration(m) || !m.body || drops.has(m.name.getText()) || m === g || m === f || m.name.getText() === "commit") continue;
    p.walk(m.body, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(clear|delete|set)$/.test(n.expression.name.text) && ts.isPropertyAccessExpression(n.expression.expression) && n.expression.expression.expression.kind === ts.SyntaxKind.ThisKeyword && n.expression.expression.name.getText() === pending) ob(R.put, used(p, m) === 0, "drop|" + m.name.getText(), n, null, "drops unwritten entries"); });
  }
  const size = c.members.find((m) => ts.isGetAccessorDeclaration(m) && m.body && new RegExp(`this\\.${pending}\\.size`).test(m.body.getText())); ob(R.all, size, "size", c, null, "does not tell how many entries are unwritten"); u.size = size?.name.getText();
}
function used(p, m) { let n = 0; for (const f of p.sourceFiles) if (p.isRepo(f)) p.walk(f, (x) => { if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && x.expression.name.text === m.name.getText() && p.resolveCallee(x)?.fn === m) n++; }); return n; }
function flush(u, c, ob, { st, pending, maps, cache }) {
  const { p, ctx } = u, f = u.meth(c, "commit"); const old = "this." + pending; const heldBy = new Set(); let detaches = false, flushes = 0, ends = 0, restores = 0, fails = 0;
  const closures = new Set();
  const fresh = (t) => /^new:Map\(\)/.test(t.key);
  const each = (k) => new RegExp("^(IterElem|elem)?\\(?" ).test(k);
  void each; void cache;
  const keyed = (k, elem) => { const q = bare(k); return new RegExp(`^arr\\(this\\.#?\\w+,spread\\(call:fromString\\(${elem}\\)\\)\\)$`).test(q); };
  track(ctx, f, { policy: {}, fields: maps, keep: (k) => /isMemory$/.test(k) || /Map\.has\(/.test(k), init: {}, atThrow: true, maxStates: 4000,
    inst(s, v, cx, T) {
      const x = s.x, put = (n) => ({ ...s, x: { ...x, ...n } });
      const visible = () => !x.detached || maps.some((m) => m !== pending && T.field(m).key === old);
      if (v.op === "SetProp" && maps.includes(v.name)) {
        const t = T(v.args[1]);
        if (v.name === pending) {
          if (fresh(t)) { detaches = true; ob(R.flush, !x.flushed, "late", v.ast, cx, "drops what was set during the flush"); return put({ detached: 1 }); }
          if (t.key.includes(old) && /new:Map/.test(t.key) && t.key.indexOf(old) < t.key.lastIndexOf("new:Map()")) { restores++; return put({ restored: 1 }); }
          if (t.key === old) { ob(R.fail, false, "back", v.ast, cx, "puts the old entries in the place of what was set during the flush"); return; }
        } else if (t.key === old) heldBy.add(v.name);
        return;
      }
      if (v.op === "Call" && /^(clear)$/.test(v.method ?? "") && v.recv && [old, T.field(pending).key].includes(T(v.recv).key)) { ob(R.flush, !x.flushed && false, "clear", v.ast, cx, "drops entries without regard to what was set during the flush"); return; }
      if (v.op === "Call" && v.method === "set" && v.recv && T(v.recv).key === T.field(pending).key) { const k = bare(T(v.callArgs[0]).key), val = bare(T(v.callArgs[1]).key); const e = `IterElem(${old})`; ob(R.fail, k === e + "[0]" && val === e + "[1]", "same", v.ast, cx, "returns an entry under another key or with another value"); const newer = s.f.some((q) => q[0] === "-" && /Map\.has\(/.test(q) && bare(q).includes(e + "[0]")); ob(R.fail, newer, "newer", v.ast, cx, "replaces a value that was set during the flush by the older one"); restores++; return; }
      if (v.op === "Call" && v.callArgs.some((a) => bare(T(a).key) === old) && v.callArgs.some((a) => /^closure/.test(T(a).key))) { const cl = v.callArgs.map((a) => resolve(a)).find((a) => /closure/i.test(a.op)); const ast = cl?.ast ?? cl?.fn; if (ast) closures.add(ast); flushes++; return put({ id: v.id }); }
      if (isStorageSet(v)) { flushes++; const e = `IterElem\\(${esc(old)}\\)`; const k = T(v.callArgs[0]).key; ob(R.flush, keyed(k, e + "\\[0\\]") && bare(T(v.callArgs[1]).key) === `IterElem(${old})[1]`, "entry", v.ast, cx, "writes an entry under another key or with another value"); return; }
      if (v.op === "Await") { if (x.awaited === undefined) ob(R.seen, visible(), "seen", v.ast, cx, "hides from reads what is being written"); return put({ flushed: 1 }); }
    },
    onThrow(s, v) { if (v.op === "Await" || v.op === "Call") return { ...s, x: { ...s.x, failed: 1 } }; return undefined; },
    edge(s, t, truth) { const [q, tr] = flat(t, truth); if (bare(q.key) === `IterHas(${old})` && !tr) return { ...s, x: { ...s.x, looped: 1 } }; return undefined; },
    exit(s, kind, cx, T, H) {
      const x = s.x; const mem = H.all.some((k) => k[0] === "+" && memory(k.slice(1), st));
      if (kind === "return") { ends++; if (mem) return; ob(R.flush, x.flushed || x.looped || H.all.some((k) => /\.size/.test(k)), "none", f, cx, "ends a flush without having written anything"); ob(R.fail, !x.failed, "swallow", f, cx, "ends a flush that failed as if it had not"); return; }
      if (!x.failed) return; fails++; if (!x.detached) return; const inNew = T.field(pending).key;
      ob(R.fail, x.restored || x.looped && restores > 0 || inNew === old, "kept", f, cx, "forgets what it could not write");
    } });
  ob(R.flush, flushes > 0 && ends > 0, "writes", f, null, "never writes anything"); if (detaches) ob(R.fail, fails > 0, "fails", f, null, "has no way to fail");
  for (const a of closures) {
    let n = 0; const P = "$0";
    track(ctx, a, { policy: {}, keep: () => false, inst(s, v, cx, T) { if (isStorageSet(v)) { n++; const k = T(v.callArgs[0]).key; ob(R.flush, keyed(k, esc(P) + "\\[0\\]") && bare(T(v.callArgs[1]).key) === P + "[1]", "entry", v.ast, cx, "writes an entry under another key or with another value"); return { ...s, x: { ...s.x, w: 1 } }; } return undefined; },
      exit(s, kind, cx) { if (kind === "return") ob(R.flush, s.x.w === 1, "skip", a, cx, "leaves out entries"); } });
    ob(R.flush, n > 0, "closure", a, null, "does not write the entries it goes through");
    const aw = awaitedStores(p, a); ob(R.flush, aw, "await", a, null, "does not wait for the entries to be written");
  }
  return [...heldBy];
}
const esc = (s) => s.replace(/[.*+?^${}()|[\]\\]/g, "\\$&");
/** whether the stores made in a function are waited for by what it returns */
function awaitedStores(p, a) {
  let ok = true; p.walk(a.body, (n) => { if (!ts.isCallExpression(n) || !/#Storage\.set$/.test(p.resolveCallee(n)?.name ?? "")) return; let q = n; while (ts.isParenthesizedExpression(q.parent)) q = q.parent; if (!(ts.isAwaitExpression(q.parent) || ts.isReturnStatement(q.parent) || q.parent === a)) ok = false; }); return ok;
}
function single(u, c) {
  const { ctx } = u, ob = maker(u, c); const st = u.fields(c).find((m) => u.type(m) === "Storage").name.getText(); const bools = u.fields(c).filter((m) => u.type(m) === "boolean").map((m) => m.name.getText()); const nums = u.fields(c).filter((m) => /^(number|bigint)$/.test(u.type(m))).map((m) => m.name.getText());
  const f = u.meth(c, "set"); let value = null, dirty = null, ends = 0; const revs = new Set();
  track(ctx, f, { policy: {}, keep: (k) => /isMemory$/.test(k), init: {},
    inst(s, v, cx, T) { if (v.op !== "SetProp") return v.op === "Await" ? { ...s, x: { ...s.x, waited: 1 } } : undefined; const t = T(v.args[1]); const put = (n) => ({ ...s, x: { ...s.x, ...n } }); if (t.key === "$0") { value = value ?? v.name; ob(R.put, !s.x.waited, "late", v.ast, cx, "keeps a value only after waiting"); return put({ value: 1 }); } if (bools.includes(v.name) && t.h === "const" && t.n === true) { dirty = v.name; return put({ dirty: 1 }); } if (nums.includes(v.name)) { revs.add(v.name); return put({ rev: 1 }); } return undefined; },
    exit(s, kind, cx, T, H) { if (kind !== "return") return; ends++; ob(R.put, s.x.value, "value", f, cx, "does not keep a value that is set"); const mem = H.all.some((k) => k[0] === "+" && memory(k.slice(1), st)); ob(R.put, mem || s.x.dirty, "dirty", f, cx, "does not keep a value that is set for the next flush"); if (!mem) ends += s.x.rev ? 0 : 1000; } });
  const versioned = revs.size > 0 && ends < 1000; ctx.need(value, "the field of the kept value"); ctx.need(dirty, "the mark of an unwritten value"); if (!value || !dirty) return; u.dirty = c.members.find((m) => ts.isGetAccessorDeclaration(m) && m.body && new RegExp(`this\\.${dirty}\\b`).test(m.body.getText()))?.name.getText() ?? dirty;
  const g = u.meth(c, "get"); let reads = 0; const undef = `(this.${value}===undefined)`;
  track(ctx, g, { policy: {}, keep: () => false, init: { abs: 0 },
    inst(s, v, cx, T) {
      if (isStorageGet(v)) { reads++; ob(R.read, s.x.abs, "read", v.ast, cx, "reads the storage although a value is kept"); return; }
      if (v.op === "Await" && !v.inlined) return { ...s, x: { ...s.x, abs: 0 } };
      if (v.op === "SetProp" && v.name === value) { ob(R.fill, s.x.abs || !/Storage\.get\(/.test(T(v.args[1]).key), "fill", v.ast, cx, "keeps what it has read from the storage although a newer value may have been set meanwhile"); return { ...s, x: { ...s.x, abs: 0 } }; }
      return undefined;
    },
    edge(s, t, truth) { const [q, tr] = flat(t, truth); if (bare(q.key) === undef && tr || bare(q.key) === `isnull(this.${value})` && tr) return { ...s, x: { ...s.x, abs: 1 } }; return undefined; } });
  ob(R.read, reads > 0, "reads", g, null, "never reads the storage");
  const cm = u.meth(c, "commit"); let writes = 0, cleans = 0, done = 0;
  track(ctx, cm, { policy: {}, keep: (k) => /isMemory$/.test(k) || k.includes(dirty), init: { ep: 0, gets: {} }, atThrow: true,
    inst(s, v, cx, T) {
      const x = s.x, put = (n) => ({ ...s, x: { ...x, ...n } });
      if (v.op === "GetProp" && (v.name === value || nums.includes(v.name))) return put({ gets: { ...x.gets, [v.id]: x.ep } });
      if (isStorageSet(v)) { writes++; const a = resolve(v.callArgs[1]); ob(R.flush, T(v.callArgs[1]).key === "this." + value && x.gets[a.id] === x.ep, "write", v.ast, cx, "writes something else than the value it keeps"); return put({ wrote: 1, src: x.ep }); }
      if (v.op === "Await" && !v.inlined) return put({ ep: Math.min(x.ep + 1, 3), waited: x.wrote ? 1 : 0, same: 0 });
      if (v.op === "SetProp" && v.name === dirty) { const t = T(v.args[1]); if (t.h === "const" && t.n === true) return put({ back: 1 }); cleans++; if (!x.wrote) return put({ early: 1 }); ob(R.clean, x.waited, "early", v.ast, cx, "counts a value as written before it is"); ob(R.clean, x.same, "same", v.ast, cx, "counts a value as written although a newer one may have been set meanwhile"); return put({ clean: 1 }); }
      return undefined;
    },
    onThrow(s, v) { return v.op === "Await" && s.x.wrote ? { ...s, x: { ...s.x, failed: 1 } } : undefined; },
    edge(s, t, truth, cx, T, H, term) { const [q, tr] = flat(t, truth); if (bare(q.key) === undef && tr) return { ...s, x: { ...s.x, nov: 1 } }; if (q.h === "bin" && q.n === "===" && tr) { let cv = resolve(term.cond); while (cv.op === "Un") cv = resolve(cv.args[0]); const es = (cv.args ?? []).map((a) => resolve(a)).map((a) => [a.name, s.x.gets[a.id]]); if (es.length === 2 && es[0][0] === es[1][0] && es.every((e) => e[1] !== undefined) && new Set(es.map((e) => e[1])).size === 2 && es.some((e) => e[1] === s.x.ep) && es.some((e) => e[1] === s.x.src) && (es[0][0] === value || versioned && revs.has(es[0][0]))) return { ...s, x: { ...s.x, same: 1 } }; } return undefined; },
    exit(s, kind, cx, T, H) { const x = s.x; if (kind === "return") { done++; const mem = H.all.some((k) => k[0] === "+" && memory(k.slice(1), st)); ob(R.flush, mem || x.wrote || x.nov || s.f.some((k) => k === "-this." + dirty), "none", cm, cx, "ends a flush without having written the value"); ob(R.fail, !x.failed, "swallow", cm, cx, "ends a flush that failed as if it had not"); ob(R.flush, !x.wrote || x.waited, "await", cm, cx, "does not wait for the value to be written"); } else if (x.failed) ob(R.fail, !(x.early || x.clean) || x.back, "kept", cm, cx, "forgets that it could not write the value"); } });
  ob(R.flush, writes > 0 && done > 0, "writes", cm, null, "never writes anything"); ob(R.clean, cleans > 0, "cleans", cm, null, "never counts a value as written");
}
function operations(u, M, V, all) {
  const { p, ctx } = u; const base = new Set([M, V]); const kin = (c) => { let q = c; for (let i = 0; q && i < 5; i++) { if (base.has(q)) return true; const e = q.heritageClauses?.find((h) => h.token === ts.SyntaxKind.ExtendsKeyword)?.types[0]; q = e ? all.find((z) => z.name.text === e.expression.getText() && z.getSourceFile() === q.getSourceFile()) : null; } return false; };
  const news = []; for (const f of p.sourceFiles) if (p.isRepo(f)) p.walk(f, (n) => { if (ts.isNewExpression(n)) { const s = p.symbolOf(n.expression); const d = s?.valueDeclaration; if (d && ts.isClassDeclaration(d) && kin(d)) news.push(n); } });
  const Os = new Set(news.map((n) => { let q = n; while (q && !ts.isClassDeclaration(q)) q = q.parent; return q; })); const O = [...Os][0]; ctx.need(O, "the class that makes them"); if (!O) return; const ob = maker(u, O);
  const arrays = u.fields(O).filter((m) => /\[\]$/.test(u.type(m)) && /Storage(Map|Value)|unknown/.test(u.type(m))).map((m) => m.name.getText());
  // every one that is made is registered, under a name of its own
  const made = new Map();
  const fns = new Set(news.map((n) => { let q = n.parent; while (q && !ts.isConstructorDeclaration(q) && !ts.isMethodDeclaration(q) && !ts.isPropertyDeclaration(q)) q = q.parent; return q; }));
  for (const f of fns) {
    if (!f || ts.isPropertyDeclaration(f)) { for (const n of news) if (f && n.getStart() >= f.pos && n.end <= f.end) { let q = n.parent; while (q !== f && !ts.isCallExpression(q)) q = q.parent; const m = ts.isCallExpression(q) ? p.resolveCallee(q)?.fn : null; ob(R.all, m && registers(p, m, arrays), "registered|" + n.getText().slice(0, 60), n, null, "makes something to flush that no flush reaches"); } continue; }
    track(ctx, f, { policy: {}, keep: () => false, init: { made: [], reg: [] },
      inst(s, v, cx, T) {
        const x = s.x; const kinNew = v.op === "New" && news.includes(v.ast); if (kinNew) { made.set(v.ast, (made.get(v.ast) ?? 0)); return { ...s, x: { ...x, made: [...new Set([...x.made, p.loc(v.ast)])] } }; }
        if (v.op === "Call" && v.method === "push" && v.recv && arrays.includes(fieldOf(T(v.recv)))) { const done = []; for (const a of v.callArgs) { const q = resolve(a); const src = q.op === "New" ? q : null; if (src && news.includes(src.ast)) done.push(p.loc(src.ast)); } return { ...s, x: { ...x, reg: [...new Set([...x.reg, ...done])] } }; }
        return undefined;
      },
      exit(s, kind, cx) { if (kind !== "return") return; for (const n of news) { const k = p.loc(n); if (s.x.made.includes(k)) ob(R.all, s.x.reg.includes(k), "registered|" + n.getText().slice(0, 60), n, cx, "makes something to flush that no flush reaches"); } } });
  }
  const names = new Map(); for (const n of news) { const d = p.symbolOf(n.expression).valueDeclaration; const a = (n.arguments ?? []).find((q) => ts.isStringLiteralLike(q)); const k = a ? a.text : d.name.text; ob(R.flush, !names.has(k), "name|" + k, n, null, `stores two things under ${JSON.stringify(k)}`); names.set(k, n); }
  // a forced flush
  const cm = u.meth(O, "commit"); ctx.need(cm, "the flush of everything"); if (!cm) return; let ok = 0, fails = 0;
  const own = (fn) => fn && fn.parent === O;
  track(ctx, cm, { policy: { inline: (nm, fn) => own(fn) && !/Mutex|lock/.test(nm), never: (nm, fn) => !own(fn) }, keep: () => false, init: {}, maxStates: 6000,
    inst(s, v, cx, T) {
      const x = s.x, put = (n) => ({ ...s, x: { ...x, ...n } });
      if (v.op === "Await" && !v.inlined) { const k = T(v).key + " " + (v.args[0] ? T(v.args[0]).key : ""); const m = k.includes(`${M.name.text}.commit(`), w = k.includes(`${V.name.text}.commit(`); if (m || w) return put({ m: m || x.m ? 1 : 0, v: w || x.v ? 1 : 0, settled: /allSettled/.test(k) ? 1 : x.settled, checked: 0 }); return undefined; }
      if (v.op === "SetProp" && v.name === "#lastCommit" || v.op === "SetProp" && /last/i.test(v.name)) ob(R.all, x.m && x.v, "last", v.ast, cx, "counts a flush as done before it is");
      return undefined;
    },
    edge(s, t, truth, cx, T, H, term) {
      const [q, tr] = flat(t, truth); const k = bare(q.key), x = s.x; const free = (cv) => { const miss = cv.ast ? arrays.filter((a) => !dependsOn(p, cv.ast).has(a)) : []; ob(R.all, !miss.length, "count", cv.ast ?? cm, cx, `ends a flush without regard to ${miss.join(", ")}`); return put({ free: 1 }); };
      const cv = resolve(term.cond), zero = (cv.args ?? []).findIndex((a) => resolve(a).op === "Const" && resolve(a).value === 0); const put = (n) => ({ ...s, x: { ...x, ...n } });
      if (k === "$0") { if (x.force !== undefined && x.force !== tr) return null; return put({ force: tr }); }
      if (/isMemory$/.test(k) && tr) return put({ free: 1 });
      if (q.h === "const" && truth && cv.op === "Bin" && (zero === 1 && /^(<=|===)$/.test(cv.operator) || zero === 0 && /^(>=|===)$/.test(cv.operator))) return free(cv);
      if (/^\(0<\)$/.test(k) && !tr) return free(cv);
      if (/^\(0</.test(k) && !tr || /===0\)$/.test(k) && tr || /<=0\)$/.test(k) && tr) return /length|size|Count/.test(k) ? free(cv) : undefined;
      if (/\.status===/.test(k) || /===\S*\.status/.test(k)) { if (/"rejected"/.test(k) === tr) return put({ bad: 1 }); return undefined; }
      if (/^IterHas\(/.test(k) && /allSettled/.test(k) && !tr) return put({ checked: 1 });
      return undefined;
    },
    exit(s, kind, cx) { const x = s.x; if (kind !== "return") { if (x.bad) fails++; return; } ok++; if (x.free) return; if (x.force !== false) ob(R.all, x.m && x.v, "force", cm, cx, "ends a forced flush without having flushed everything"); if (x.m || x.v) { ob(R.all, x.m && x.v, "both", cm, cx, "flushes only a part"); ob(R.fail, !x.bad && (!x.settled || x.checked), "report", cm, cx, "does not report that a flush failed"); } } });
  ob(R.all, ok > 0, "commit|ends", cm, null, "never ends a flush");
  // which of them a flush takes
  const reach = new Set(); const go = (m) => { if (!m || reach.has(m) || !m.body) return; reach.add(m); p.walk(m.body, (n) => { if (ts.isCallExpression(n)) { const r = p.resolveCallee(n)?.fn; if (own(r)) go(r); } }); }; go(cm);
  let filters = 0;
  for (const m of reach) p.walk(m.body, (n) => {
    if (!ts.isCallExpression(n) || !ts.isPropertyAccessExpression(n.expression)) return; const rc = n.expression.expression; const f = ts.isPropertyAccessExpression(rc) && rc.expression.kind === ts.SyntaxKind.ThisKeyword ? rc.name.getText() : null; if (!arrays.includes(f)) return; const nm = n.expression.name.text;
    if (nm === "slice" || nm === "splice" || nm === "find" || nm === "pop" || nm === "shift") { ob(R.all, false, "part|" + nm, n, null, "flushes only some of what is kept"); return; }
    if (nm !== "filter") return; filters++; const a = n.arguments[0]; if (!a || !ts.isArrowFunction(a) && !ts.isFunctionExpression(a)) return;
    track(ctx, a, { policy: { never: () => true }, keep: () => false, onRet(s, v, cx, T) { const k = bare(T(v).key); const good = [`$0.${u.dirty}`, `($0.${u.dirty}===true)`, `(0<$0.${u.size})`, `not(($0.${u.size}===0))`, `not((0===$0.${u.size}))`, `$0.${u.size}`].includes(k) || new RegExp(`^\\(?(0<)?\\$0\\.#?\\w+\\.size\\)?$`).test(k) || /^\$0\.#is\w+$/.test(k) || k === "true"; ob(R.all, good, "filter", v.ast ?? a, cx, `leaves out of a flush what is kept (it takes ${k})`); } });
  });
  ctx.count("selections of what is flushed", filters);
}
/** whether a function puts its parameter into one of the arrays */
function registers(p, m, arrays) { let ok = false; const prm = m.parameters?.[0]?.name.getText(); if (m.body) p.walk(m.body, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "push" && ts.isPropertyAccessExpression(n.expression.expression) && arrays.includes(n.expression.expression.name.getText()) && n.arguments.some((a) => a.getText() === prm)) ok = true; }); return ok; }
/** the fields an expression's value comes from, by way of local variables, what is assigned to them and the loops these assignments are in */
function dependsOn(p, e) {
  const out = new Set(), seen = new Set();
  const go = (n) => p.walk(n, (x) => {
    if (ts.isPropertyAccessExpression(x) && x.expression.kind === ts.SyntaxKind.ThisKeyword) out.add(x.name.getText());
    if (!ts.isIdentifier(x)) return; const d = p.symbolOf(x)?.valueDeclaration; if (!d || seen.has(d) || !ts.isVariableDeclaration(d)) return; seen.add(d); if (d.initializer) go(d.initializer);
    if (d.parent?.parent && ts.isForOfStatement(d.parent.parent)) go(d.parent.parent.expression);
    let f = d; while (f && !ts.isFunctionLike(f)) f = f.parent; if (!f?.body) return;
    p.walk(f.body, (y) => {
      const l = ts.isBinaryExpression(y) && y.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && y.operatorToken.kind <= ts.SyntaxKind.LastAssignment ? y.left : (ts.isPrefixUnaryExpression(y) || ts.isPostfixUnaryExpression(y)) ? y.operand : null;
      if (!l || !ts.isIdentifier(l) || p.symbolOf(l)?.valueDeclaration !== d) return; if (ts.isBinaryExpression(y)) go(y.right);
      for (let q = y.parent; q && q !== f; q = q.parent) if (ts.isForOfStatement(q) || ts.isIfStatement(q)) go(q.expression); else if (ts.isCallExpression(q)) go(q);
    });
  });
  go(e); return out;
}
/** a storage in use is flushed before it is closed */
function closing(u, M) {
  const { p, ctx } = u; const O = (() => { let r = null; p.walk(M.getSourceFile(), (n) => { if (ts.isClassDeclaration(n) && n.name && u.meth(n, "commit") && u.meth(n, "close")) r = n; }); return r; })(); ctx.need(O, "the class that closes a storage"); if (!O) return;
  const fns = new Set(); for (const f of p.sourceFiles) if (p.isRepo(f)) p.walk(f, (n) => { if (ts.isCallExpression(n) && p.resolveCallee(n)?.fn === u.meth(O, "close")) { const g = enclosing(n); if (g) fns.add(g); } });
  for (const f of fns) {
    const ob = (ok, k, at, cx, msg) => ctx.ob(R.close, !!ok, { key: (owner?.(f) ?? "") + "|" + k, at: p.loc(at), message: msg, path: ok || !cx ? undefined : describePath(p, cx.path()) });
    track(ctx, f, { policy: { never: (nm, fn) => fn?.parent === O }, keep: () => false, init: { ok: [] }, maxStates: 4000,
      inst(s, v, cx, T) {
        if (v.op !== "Call" || v.targetFn?.parent !== O) return undefined; const k = bare(T(v.recv).key), m = v.method; const x = s.x;
        if (m === "commit" && v.callArgs[0] && T(v.callArgs[0]).key === "true" || m === "reset") return { ...s, x: { ...x, ok: [...new Set([...x.ok, k])].sort() } };
        if (m === "close" && !/^new:/.test(k)) ob(x.ok.includes(k), "close|" + k, v.ast, cx, `${p.rel(f.getSourceFile())} closes a storage without having flushed it`);
        return undefined;
      } });
  }
}
