"use strict";
const { ts } = require("../lib/project.js");
const { resolve, DEEP } = require("../lib/ir.js");
const { simulate, describePath, evalCond, assume } = require("../lib/sim.js");
const { Terms, PhiTrack, C, mk } = require("../lib/terms.js");
const { allFunctions, fnLabel, lower, enclosing, owner, callees } = require("../lib/util.js");

module.exports = {
  technique: "inductive-invariant checking on the counters' transfer functions (linear terms, congruence modulo 4, branch facts) and typestate dataflow over the send loop",
  explanation: "The identifier counter and the sequence counter are found as the methods of the session state that the message writers use. For each path of the identifier counter the stored and returned value must be provably greater than the stored one (old plus a positive multiple of four, or a fresh value on the branch where it compared greater) and divisible by four. Every message object built by a session takes its identifier from a fresh call of that counter made in the same run of the same function, its sequence number from the sequence counter with the flag that fits its body, and a container takes its identifier after the messages inside. Counter resets must go along with a new session identifier before anything can be sent.",
  rules: ["identifier strictly increases", "identifier divisible by four", "identifier follows the corrected clock", "sequence number 2n or 2n+1, advanced exactly when content-related", "message object takes fresh numbers", "container numbered last", "acknowledgements and containers are not content-related, everything else is", "reset only together with a new session identifier", "clock correction has the right sign and a lowered clock starts a new session"],
  assumptions: ["the clock value is an integer number of seconds below 2^31 and the nanosecond part is non-negative"],
  run(ctx) {
    const p = ctx.p;
    const st = findState(ctx);
    counter(ctx, st); seqno(ctx, st); messages(ctx, st); resets(ctx, st); clock(ctx, st);
    ctx.floor("identifier step", 2); ctx.floor("sequence step", 2); ctx.floor("message object", 3); ctx.floor("reset", 2); ctx.floor("clock correction", 2); ctx.floor("container", 1);
  },
};
function findState(ctx) {
  const p = ctx.p;
  // the class whose instances sessions keep as protected state: has a bigint-returning and a number-returning counter
  for (const l of [p.findClass("SessionState"), ...[...allClasses(p)].map((c) => [c])]) for (const c of l) {
    const ms = c.members.filter((m) => ts.isMethodDeclaration(m) && m.body);
    const writes = (m) => { const u = lower(p, m, DEEP); return u.blocks.some((b) => b.insts.some((v) => v.op === "SetProp" && resolve(v.args[0]).op === "This")); };
    const id = ms.find((m) => m.parameters.length === 0 && isKind(p, m, ts.TypeFlags.BigIntLike) && writes(m));
    const sq = ms.find((m) => m.parameters.length === 1 && isKind(p, m, ts.TypeFlags.NumberLike) && writes(m));
    const rs = ms.find((m) => m.parameters.length === 0 && /reset/i.test(m.name.text));
    if (id && sq) return { cls: c, id, sq, rs };
  }
  ctx.need(null, "the session state with its counters");
}
function allClasses(p) { const out = []; for (const sf of p.sourceFiles) if (/^session\//.test(p.rel(sf))) p.walk(sf, (n) => { if (ts.isClassDeclaration(n)) out.push(n); }); return out; }
function isKind(p, m, f) { const s = p.checker.getSignatureFromDeclaration(m); return !!(p.checker.getReturnTypeOfSignature(s).flags & f); }

function counter(ctx, st) {
  const p = ctx.p, label = fnLabel(p, st.id);
  const u = lower(p, st.id, DEEP); const terms = new Terms(); const ph = new PhiTrack(terms);
  let stores = 0;
  simulate(u, {
    init: { ph: {}, lt: [] },
    phi: (s, f, a, t) => ph.phi(s, f, a, t),
    edge(s, c, truth) {
      let neg = !truth; let t = c; while (t.h === "not") { t = t.a[0]; neg = !neg; }
      if (t.h === "bin" && t.n === "<") { const a = ph.expand(t.a[0], s).key, b = ph.expand(t.a[1], s).key; return { ...s, lt: [...s.lt, neg ? `${b}<=${a}` : `${a}<${b}`].sort() }; }
      return s;
    },
    inst(s, v, cx) {
      if (v.op === "SetProp" && resolve(v.args[0]).op === "This") {
        const F = "this." + v.name; const x = ph.expand(cx.term(v.args[1]), s);
        let inc = false, why = x.key.slice(0, 120);
        if (x.h === "lin" && x.lin.m.size === 1 && [...x.lin.m.values()][0].t.key === F && [...x.lin.m.values()][0].k === 1) { inc = x.lin.c > 0; ctx.ob("identifier step", inc && x.lin.c % 4n === 0n, { key: label + "|step", at: p.loc(v.ast ?? st.id), message: `${label}: the next identifier is the previous one plus ${x.lin.c}, which is not a positive multiple of four`, path: describePath(p, cx.path()) }); }
        else {
          inc = s.lt.includes(`${F}<${x.key}`) || maxOf(x, F);
          ctx.ob("identifier step", inc, { key: label + "|greater", at: p.loc(v.ast ?? st.id), message: `${label}: the identifier stored here is not shown to be greater than the previous one (value ${why}; known: ${s.lt.join(", ") || "nothing"})`, path: describePath(p, cx.path()) });
          ctx.ob("identifier divisible by four", mod4(x), { key: label + "|mod4", at: p.loc(v.ast ?? st.id), message: `${label}: the clock-based identifier is not divisible by four (${why})` });
          ctx.ob("identifier follows the corrected clock", clockBased(x), { key: label + "|clock", at: p.loc(v.ast ?? st.id), message: `${label}: the upper half of the identifier must be the local time corrected by the known difference (${why})` });
        }
        stores++;
        return { ...s, F, stored: x.key };
      }
      if (v.op === "Return" && s.F) { const r = ph.expand(cx.term(v.args[0]), s).key; ctx.ob("identifier step", r === s.stored || r === s.F, { key: label + "|returned", at: p.loc(v.ast ?? st.id), message: `${label}: the identifier handed out (${r.slice(0, 60)}) is not the one remembered`, path: describePath(p, cx.path()) }); return { ...s, ret: 1 }; }
      return s;
    },
    exit(s, kind, cx) { if (kind === "return") ctx.ob("identifier step", !!s.stored, { key: label + "|kept", at: p.loc(st.id), message: `${label}: an identifier is handed out without being remembered`, path: describePath(p, cx.path()) }); },
  }, { terms });
  // the field never decreases elsewhere, except in reset
  for (const m of st.cls.members) if (m.body && m !== st.id && m !== st.rs) p.walk(m, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment && ts.isPropertyAccessExpression(n.left)) { const idField = fieldSet(p, st.id); if (idField && n.left.name.text === idField && !reachable(p, st.id, m)) ctx.violate({ rule: "identifier strictly increases", key: fnLabel(p, m), at: p.loc(n), message: `${fnLabel(p, m)} changes the last identifier outside the counter` }); } });
}
function reachable(p, from, to, seen = new Set()) { if (from === to) return true; if (seen.has(from)) return false; seen.add(from); return callees(p, from).some((c) => c.fn && reachable(p, c.fn, to, seen)); }
function fieldSet(p, fn) { let f; const u = lower(p, fn, DEEP); for (const b of u.blocks) for (const v of b.insts) if (v.op === "SetProp" && resolve(v.args[0]).op === "This") f = v.name; return f; }
function maxOf(x, F) { return x.h === "call" && /max/i.test(x.n) && false && F; }
/** congruence modulo 4: true when provably 0 */
function mod4(t) {
  if (t.h === "const") return typeof t.n === "bigint" && t.n % 4n === 0n;
  if (t.h === "bin" && t.n === "<<" && t.a[1].h === "const") return Number(t.a[1].n) >= 2;
  if (t.h === "bin" && (t.n === "|" || t.n === "^")) return t.a.every(mod4);
  if (t.h === "bin" && t.n === "&") return t.a.some(mod4) || t.a.some((x) => x.h === "const" && typeof x.n === "bigint" && (x.n & 3n) === 0n);
  if (t.h === "bin" && t.n === "*") return t.a.some(mod4);
  if (t.h === "bin" && t.n === "-" ) return t.a.every(mod4);
  if (t.h === "lin") { if (typeof t.lin.c === "bigint" && t.lin.c % 4n !== 0n) return false; return [...t.lin.m.values()].every(({ t: q, k }) => k % 4 === 0 || mod4(q) || mod4rem(t, q, k)); }
  return false;
}
function mod4rem(t, q, k) { // x - x % 4n
  for (const { t: r, k: kr } of t.lin.m.values()) if (r.h === "bin" && r.n === "%" && r.a[0].key === q.key && r.a[1].h === "const" && r.a[1].n === 4n && kr === -k) return true;
  if (q.h === "bin" && q.n === "%" && q.a[1].h === "const" && q.a[1].n === 4n) for (const { t: r, k: kr } of t.lin.m.values()) if (r.key === q.a[0].key && kr === -k) return true;
  return false;
}
function has(t, f) { return f(t) || t.a.some((x) => has(x, f)); }
function clockBased(t) {
  const sh = []; has(t, (x) => { if (x.h === "bin" && ((x.n === "<<" && x.a[1].h === "const" && Number(x.a[1].n) === 32) || (x.n === "*" && x.a.some((y) => y.h === "const" && BigInt(y.n) === 4294967296n)))) sh.push(x); return false; });
  return sh.some((x) => has(x, (y) => y.key === "this.timeDifference" || /^this\.\w*[dD]ifference\w*$|^this\.\w*[oO]ffset\w*$/.test(y.key)) && has(x, (y) => y.h === "new" && /Date/.test(y.n ?? "") || y.h === "call" && /Date/.test(y.n ?? "")));
}
function seqno(ctx, st) {
  const p = ctx.p, label = fnLabel(p, st.sq);
  const u = lower(p, st.sq, DEEP); const terms = new Terms(); const ph = new PhiTrack(terms);
  const K = u.blocks[0].insts.find((v) => v.op === "Param");
  simulate(u, {
    init: { ph: {}, cr: null, add: 0, old: null },
    phi: (s, f, a, t) => ph.phi(s, f, a, t),
    edge(s, c, truth) { const t = c.h === "not" ? c.a[0] : c, tr = c.h === "not" ? !truth : truth; if (t.key === terms.of(K).key) { if (s.cr !== null && s.cr !== tr) return null; return { ...s, cr: tr }; } return s; },
    inst(s, v, cx) {
      if (v.op === "GetProp" && resolve(v.args[0]).op === "This") { if (s.add) return { ...s, ph: { ...s.ph }, after: [...(s.after ?? []), v.id] }; return s; }
      if (v.op === "SetProp" && resolve(v.args[0]).op === "This") {
        const F = "this." + v.name; const x = ph.expand(cx.term(v.args[1]), s);
        const one = x.h === "lin" && x.lin.m.size === 1 && [...x.lin.m.values()][0].t.key === F && [...x.lin.m.values()][0].k === 1 ? x.lin.c : x.key === F ? 0 : undefined;
        const cond = condAdd(x, F, terms.of(K).key);
        if (cond) return { ...s, add: s.cr === null ? "cr" : s.cr ? 1 : 0, F };
        return { ...s, add: one === undefined ? "?" : s.add + one, F };
      }
      if (v.op === "Return") {
        const x = ph.expand(cx.term(v.args[0]), s);
        // value as 2*field + c; reads after the increment see field + add
        const f = affine(x); const F = s.F ?? f?.field;
        const crs = s.cr === null ? [true, false] : [s.cr];
        for (const cr of crs) {
          const add = s.add === "cr" ? (cr ? 1 : 0) : s.add;
          let c = f && f.k === 2 ? f.c + (f.cond ? (cr ? f.cond : 0) : 0) : undefined;
          if (c !== undefined && s.after?.length && f.late) c += 2 * add;
          ctx.ob("sequence step", c === (cr ? 1 : 0) && add === (cr ? 1 : 0) && /^this\./.test(F ?? ""), { key: label + "|" + cr, at: p.loc(v.ast ?? st.sq), message: `${label}: for a ${cr ? "" : "not "}content-related message the number must be twice the count of content-related messages so far${cr ? " plus one" : ""}, and the count must ${cr ? "advance by one" : "stay"} (number ${x.key}, count advanced by ${add})`, path: describePath(p, cx.path()) });
        }
      }
      return s;
    },
  }, { terms });
}
function condAdd(x, F, k) { return x.h === "lin" && x.lin.m.size === 2 && x.lin.m.get(F)?.k === 1 && [...x.lin.m.keys()].some((y) => y !== F && y.includes(k) && /^number|^call:Number|\(/.test(y)); }
function affine(x) {
  if (x.h === "bin" && x.n === "*") { const c = x.a.find((y) => y.h === "const"), f = x.a.find((y) => y.h !== "const"); if (c && f && /^this\./.test(f.key)) return { k: c.n, c: 0, field: f.key }; }
  if (x.h === "bin" && x.n === "<<" && x.a[1].n === 1 && /^this\./.test(x.a[0].key)) return { k: 2, c: 0, field: x.a[0].key };
  if (x.h === "bin" && x.n === "|" && x.a.some((y) => y.h === "const" && y.n === 1)) { const r = affine(x.a.find((y) => y.h !== "const")); return r ? { ...r, c: r.c + 1 } : null; }
  if (x.h === "lin") {
    let r = { k: 0, c: x.lin.c ?? 0 };
    for (const { t, k } of x.lin.m.values()) {
      if (/^this\./.test(t.key) && t.h === "prop") { r.k += k; r.field = t.key; }
      else { const q = affine(t); if (q && k === 1) { r.k += q.k; r.c += q.c; r.field = q.field; } else if (t.h === "number" || t.h === "val") r.cond = k; else return null; }
    }
    return r;
  }
  if (x.h === "prop") return { k: 1, c: 0, field: x.key };
  return null;
}

/** objects that are messages: {_: "message", msg_id, seqno, body} */
function messages(ctx, st) {
  const p = ctx.p;
  const isMsg = (n) => ts.isObjectLiteralExpression(n) && ["msg_id", "seqno", "body"].every((k) => n.properties.some((q) => q.name?.text === k));
  for (const fn of allFunctions(p)) {
    if (!/^session\//.test(p.rel(fn.getSourceFile()))) continue;
    if (ts.isArrowFunction(fn) || ts.isFunctionExpression(fn)) continue;
    let idCalls = 0; p.walk(fn, (n) => { if (isMsg(n)) idCalls++; });
    if (!idCalls) continue;
    // judge in the function that takes the identifiers, with helpers inlined
    const u = lower(p, fn, { ...DEEP, never: (n, f) => f === st.id || f === st.sq }); const terms = new Terms(); const ph = new PhiTrack(terms);
    const label = fnLabel(p, fn); const done = new Set();
    simulate(u, {
      init: { ph: {}, ids: [], used: [] },
      phi: (s, f, a, t) => ph.phi(s, f, a, t),
      inst(s, v, cx) {
        if (v.op === "Enter" && v.fn === st.id) return s;
        if (v.op === "Call" && v.targetFn === st.id) { const k = "%" + v.id + ";"; const ids = s.ids.filter((x) => x !== k); return { ...s, ids: [...ids, k] }; }
        if (v.op === "Object" && v.ast && isMsg(v.ast)) {
          const at = p.loc(v.ast); const q = Object.fromEntries(v.props.map((x) => [x.key, ph.expand(cx.term(x.value), s)]));
          const idm = /%\d+;$/.exec(q.msg_id?.key ?? "")?.[0]; const fresh = q.msg_id?.h === "call" && s.ids.includes(idm);
          const say = (ok, k, m) => { const id = at + k + ok; if (done.has(id)) return; done.add(id); ctx.ob("message object", ok, { key: label + "|" + k, at, message: `${label}: ${m}`, path: ok ? undefined : describePath(p, cx.path()) }); };
          say(fresh, "msg_id", `the identifier of this message must be drawn from the counter for it (found ${q.msg_id?.key.slice(0, 80)})`);
          if (fresh) say(!s.used.includes(idm), "reused", "this message reuses the identifier of another message");
          const sq = q.seqno; const isSeq = sq?.h === "call" && (sq.name ?? "").endsWith("." + st.sq.name.text);
          say(isSeq, "seqno", `the sequence number of this message must be drawn from the counter (found ${sq?.key.slice(0, 80)})`);
          const kind = bodyKind(v, q.body);
          if (isSeq) {
            const a = sq.args?.[0];
            if (a?.h === "const") say(!!a.n === (kind === "content"), "flag", `a message ${kind === "content" ? "with content needs" : `that is ${kind === "ack" ? "an acknowledgement" : "a container"} must not take`} a content-related sequence number`);
          }
          if (kind === "container") {
            const inner = []; innerIds(q.body, inner, s, ph);
            const pos = s.ids.indexOf(idm); const ok = inner.length > 0 && inner.every((x) => s.ids.indexOf(x) >= 0 && s.ids.indexOf(x) < pos);
            const id2 = at + "cont" + ok; if (!done.has(id2)) { done.add(id2); ctx.ob("container", ok, { key: label + "|container", at, message: `${label}: the container must take its identifier after all messages it carries`, path: describePath(p, cx.path()) }); }
          }
          return { ...s, used: fresh && !s.used.includes(idm) ? [...s.used, idm] : s.used };
        }
        return s;
      },
    }, { terms, maxStates: 4000 });
  }
  function bodyKind(v, t) {
    if (!t) return "content";
    if (t.h === "obj" && t.props?.some((q) => q.key === "_" && q.t.n === "msg_container")) return "container";
    const s = t.key;
    if (/\"msgs_ack\"/.test(s)) return "ack"; if (/\"msg_container\"/.test(s)) return "container";
    return "content";
  }
  function innerIds(t, out, s, ph) { const f = (x) => { const y = ph.expand(x, s); if (y.h === "obj" && y.props?.some((q) => q.key === "msg_id")) { const q = y.props.find((z) => z.key === "msg_id").t; const m = /%\d+;$/.exec(ph.expand(q, s).key); out.push(m ? m[0] : "?"); } else { for (const z of y.a) f(z); } }; for (const z of t.a) f(z); }
}
/** resets of the counters go along with a new session identifier, without suspension in between */
function resets(ctx, st) {
  const p = ctx.p;
  if (!st.rs) return;
  for (const fn of allFunctions(p)) {
    let site; const visit = (n) => { if (n !== fn && ts.isFunctionLike(n) && n.body) return; if (ts.isCallExpression(n) && p.resolveCallee(n).fn === st.rs) site = n; ts.forEachChild(n, visit); };
    ts.forEachChild(fn, visit);
    if (!site) continue;
    const label = fnLabel(p, fn);
    const u = lower(p, fn, { ...DEEP, never: (n, f) => f === st.rs });
    let bad = null;
    simulate(u, {
      init: "plain",
      inst(s, v, cx) {
        const isReset = v.op === "Call" && v.targetFn === st.rs;
        const isNew = v.op === "SetProp" && /getRandomId/.test(cx.term(v.args[1]).key);
        if (isReset) return s === "renewed" || s === "done" ? "done" : "reset";
        if (isNew) return s === "reset" || s === "done" ? "done" : "renewed";
        if (v.op === "Await" && !v.inlined) { if (s === "reset") { bad ??= { why: "suspends", path: describePath(p, cx.path()) }; } return s === "renewed" ? "plain" : s; }
        return s;
      },
      exit(s, kind, cx) { if (s === "reset" && kind === "return") bad ??= { why: "ends", path: describePath(p, cx.path()) }; },
    });
    ctx.ob("reset", !bad, { key: label, at: p.loc(site), message: `${label} starts the counters anew but ${bad?.why} without giving the session a new identifier: identifiers of the same session would repeat`, path: bad?.path });
  }
}
/** handling of "identifier too low / too high" */
function clock(ctx, st) {
  const p = ctx.p;
  const fields = st.cls.members.filter((m) => ts.isPropertyDeclaration(m) && /difference|offset/i.test(m.name.text)).map((m) => m.name.text);
  for (const fn of allFunctions(p)) {
    let site; const visit = (n) => { if (n !== fn && ts.isFunctionLike(n) && n.body) return; if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && fields.includes(n.left.name.text)) site = n; ts.forEachChild(n, visit); };
    ts.forEachChild(fn, visit);
    if (!site || fn.parent === st.cls) continue;
    const label = fnLabel(p, fn);
    const u = lower(p, fn, { inline: (n, f) => callsOf(p, f, st) ? false : DEEP.inline(n) });
    const terms = new Terms(); const ph = new PhiTrack(terms);
    simulate(u, {
      init: { ph: {}, code: [16, 17, 48, 0], v: null, inval: 0 },
      phi: (s, f, a, t) => ph.phi(s, f, a, t),
      edge(s, c, truth) {
        let t = c, tr = truth; while (t.h === "not") { t = t.a[0]; tr = !tr; }
        if (t.h === "bin" && t.n === "===" && /error_code$/.test(t.a[0].key) && t.a[1].h === "const") { const code = s.code.filter((x) => (x === t.a[1].n) === tr); return code.length ? { ...s, code } : null; }
        return s;
      },
      inst(s, v, cx) {
        if (v.op === "SetProp" && fields.includes(v.name)) { const x = ph.expand(cx.term(v.args[1]), s); return { ...s, v: sign(x, s.v) }; }
        if (v.op === "Call" && v.targetFn && s.v && callsOf(p, v.targetFn, st)) return { ...s, inval: 1 };
        return s;
      },
      exit(s, kind, cx) {
        if (kind !== "return") return;
        for (const c of s.code) {
          if (c !== 16 && c !== 17) continue;
          if (s.code.length > 1 && s.v === null) continue;
          const want = c === 16 ? "+" : "-";
          ctx.ob("clock correction", s.v === want || s.v === "exact", { key: label + "|" + c, at: p.loc(site), message: `${label}: when the server finds an identifier too ${c === 16 ? "low the clock must be moved forward" : "high the clock must be moved back"} to the server's time (found ${s.v ?? "no change"})`, path: describePath(p, cx.path()) });
          if (c === 17) ctx.ob("clock correction", !!s.inval, { key: label + "|" + c + "|session", at: p.loc(site), message: `${label}: identifiers must not go backwards within a session, so moving the clock back must start a new session`, path: describePath(p, cx.path()) });
        }
      },
    }, { terms });
  }
}
function callsOf(p, fn, st, seen = new Set()) { if (!fn || seen.has(fn)) return false; seen.add(fn); if (fn === st.rs) return true; return callees(p, fn).some((c) => c.fn && /^session\//.test(c.name ?? "") && callsOf(p, c.fn, st, seen)); }
/** sign of a correction: |server - local| kept or negated, or the exact difference */
function sign(x, prev) {
  if (x.h === "call" && /Math\.abs$/.test(x.n)) return "+";
  if (x.h === "lin" && x.lin.m.size === 1) { const [m] = x.lin.m.values(); if (m.t.h === "call" && /Math\.abs$/.test(m.t.n)) return m.k > 0 ? "+" : "-"; if (/[dD]ifference|[oO]ffset/.test(m.t.key) && m.k === -1) return prev === "+" ? "-" : prev === "-" ? "+" : "?"; }
  if (x.h === "lin" && x.lin.m.size === 2) { const ms = [...x.lin.m.values()]; const srv = ms.find((m) => />>32n/.test(m.t.key)), loc = ms.find((m) => /Date/.test(m.t.key)); if (srv && loc) return srv.k > 0 && loc.k < 0 ? "exact" : "reversed"; }
  return "?";
}
