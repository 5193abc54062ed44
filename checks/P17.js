"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { allFunctions, fnLabel, callees, enclosing, reaches } = require("../lib/util.js");
const { track, mk } = require("../lib/facts.js");
const { C, slice, linear } = require("../lib/terms.js");
const X = require("../lib/crypto.js");
const R = {
  kdf: "decryption key and direction",
  auth: "decrypted data is used only after every test",
  order: "delivered only in the expected position",
  tests: "numbers are tested before a message is delivered or kept",
  close: "inconsistent numbers close the chat",
  gap: "a gap is asked for and drained",
  only: "delivery only through the tested path",
};
module.exports = {
  technique: "path-sensitive must-have-been-tested dataflow over SSA form, with a forward taint closure and a call-graph rule",
  explanation: "The method that decrypts secret chat messages is lowered with its helpers inlined; every use of anything computed from the cipher's output (other than the tests themselves) must lie on paths where the key identifier in front of the message was compared with the identifier stored beside the very key used, the AES key and IV follow the end-to-end derivation for the peer's direction (decided by whether this user created the chat), the message key was compared with the one computed from the decrypted text, and the comparisons made bound the padding to 12..1024 bytes. In the method that orders messages, every advance of the expected position and every delivery must lie on paths where the message's position was found equal to the expected one (or it was taken from the waiting messages by that comparison), its parity, its acknowledged position and the order of acknowledged positions were tested; failing these tests discards the chat before the method ends; a message beyond a gap is kept once and the missing range asked for; waiting messages are drained. Delivery has no other callers.",
  rules: Object.values(R),
  assumptions: ["sha256 and IGE decryption compute what their names say", "the message decoder rejects what is malformed (P03)"],
  run(ctx) {
    const p = ctx.p;
    const files = p.sourceFiles.filter((f) => /^client\//.test(p.rel(f)) && /SecretChatState/.test(f.text) && !p.findClass("SecretChatState").some((c) => c.getSourceFile() === f));
    const inFiles = (f) => files.includes(f.getSourceFile());
    const named = (f) => { let g = f; while (g && (ts.isArrowFunction(g) || ts.isFunctionExpression(g))) g = enclosing(g); return g; };
    const decs = new Set(allFunctions(p).filter(inFiles).filter((f) => callees(p, f).some((c) => /#ige256Decrypt$/.test(c.name ?? ""))).map(named));
    ctx.need(decs.size, "code that decrypts secret chat messages");
    let layer = [...decs];
    const roots = new Set(); const seen = new Set();
    while (layer.length) {
      const f = layer.pop(); if (seen.has(f)) continue; seen.add(f);
      const r = decrypt(ctx, f, true);
      const users = allFunctions(p).filter((g) => inFiles(g) && named(g) === g && g !== f && callees(p, g).some((c) => c.fn === f));
      if (r.needsCaller && users.length) layer.push(...users); else roots.add(f);
    }
    for (const f of roots) decrypt(ctx, f, false);
    ordering(ctx, files, roots, named);
    for (const [k, n] of [[R.kdf, 2], [R.auth, 4], [R.order, 2], [R.tests, 4], [R.close, 2], [R.gap, 2], [R.only, 2]]) ctx.floor(k, n);
  },
};
const IDS = { authKey: "authKeyId_", previousAuthKey: "previousAuthKeyId_", toCommitAuthKey: "toCommitAuthKeyId_" };
/** hashes, and does nothing else that takes long: computes part of a key */
const derives = (p, g) => { const c = callees(p, g); return c.some((x) => /#sha256$/.test(x.name ?? "")) && !c.some((x) => /#ige256Encrypt$|\.invoke$/.test(x.name ?? "")); };
const isAsync = (g) => g.modifiers?.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword);
const isClosure = (g) => ts.isArrowFunction(g) || ts.isFunctionExpression(g);
function decrypt(ctx, f, probe) {
  const p = ctx.p, lab = fnLabel(p, f);
  const reach = new Map();
  const never = (n, g) => g && g !== f && !isClosure(g) && isAsync(g) && !reaches(p, g, (x) => /#ige256Decrypt$/.test(x), reach) && !derives(p, g);
  const res = { needsCaller: false };
  const ob = (kind, ok, key, v, cx, msg) => { if (!probe) ctx.ob(kind, !!ok, { key: lab + "|" + key, at: p.loc(v.ast ?? f), message: `${lab} ${msg}`, path: ok ? undefined : describePath(p, cx.path()) }); };
  const ranges = new Map(); let tainted = null, uses = 0;
  const { lower } = require("../lib/util.js");
  const u = lower(p, f, { never });
  const dec = []; for (const b of u.blocks) for (const v of b.insts) if (v.op === "Call" && /#ige256Decrypt$/.test(v.name ?? "")) dec.push(v);
  tainted = X.forward(u, dec, (w) => w.op === "Bin" && /^[=!]==?$|^[<>]/.test(w.operator) || w.op === "Call" && (/#sha256$|#concat$|_logger\.ts#|#assertEquals$/.test(w.name ?? "") || /ogger/.test(w.name ?? "")));
  const store = new Map();
  track(ctx, f, {
    unit: u, maxStates: 6000,
    keep: (k) => /eqbytes|===|encryptedChat|admin_id|sCreator/.test(k) && !/pendingMess/.test(k) || /%16|^[+-]\$/.test(k),
    edge(s, t, truth, cx, T) {
      let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; }
      if (q.h !== "bin" || q.n !== "<") return;
      const l = sub(q.a[0], q.a[1]); if (!l) return; // l < 0 when tr, l >= 0 otherwise
      const x = { ...s.x };
      const names = [...l.m.values()];
      const pl = names.find((n) => n.t.h === "prop" && n.t.n === "length" && n.t.a[0].key === x.plain), L = names.find((n) => n.t.key === x.len);
      if (pl && L && names.length === 2 && pl.k === -L.k && Math.abs(pl.k) === 1) { // pad = plain.length - 4 - len
        // l = k*(pad + 4) + c
        const k = pl.k, c = Number(l.c ?? 0) + 4 * k;
        if (tr) { if (k > 0) x.max = Math.min(x.max ?? Infinity, -c - 1); else x.min = Math.max(x.min ?? -Infinity, c + 1); }
        else if (k > 0) x.min = Math.max(x.min ?? -Infinity, -c); else x.max = Math.min(x.max ?? Infinity, c);
      } else return;
      return { ...s, x };
    },
    inst(s, v, cx, T, H) {
      const x0 = X.trackReader(s.x, v, cx, ranges); let x = x0 === s.x ? s.x : x0;
      if (v.op === "Call" && v.recv && /#TLReader\.readInt32$/.test(v.name ?? "")) { const r = ranges.get(v.id); if (r && x.plain && r.from === 0 && T(v.recv).key.includes(x.plain)) { store.set(T(v).key, T(v)); x = { ...x, len: T(v).key, unsigned: T(v.callArgs[0] ?? C(1)).n === false ? 1 : 0, after: 0 }; } }
      if (v.op === "Call" && v.recv && /#TLReader\.read$/.test(v.name ?? "") && x.len && T(v.callArgs[0]).key === x.len && ranges.get(v.id)?.from === 4) x = { ...x, body: T(v).key };
      if (dec.includes(v)) {
        const [buf, key, iv] = v.callArgs.map(T); const plain = T(v);
        const k8 = X.matchKdf(key, iv, 8), k0 = k8 ? null : X.matchKdf(key, iv, 0), k = k8 ?? k0;
        if (k?.A.h === "param") res.needsCaller = true;
        ob(R.kdf, k, "kdf", v, cx, "derives an AES key and IV that are not those of the end-to-end scheme");
        if (k) {
          store.set(k.A.key, k.A); store.set(k.m.key, k.m); store.set(plain.key, plain); store.set(buf.key, buf);
          const creator = H.all.some((q) => /^\+/.test(q) && isCreatorFact(q)), other = H.all.some((q) => /^-/.test(q) && isCreatorFact(q));
          if (!creator && !other) res.needsCaller = true;
          ob(R.kdf, k8 ? creator : other, "direction", v, cx, `derives the key for the direction of its own messages (offset ${k8 ? 8 : 0}) or without asking who created the chat`);
          x = { ...x, idOk: identified(H, k.A, T) ? 1 : 0, A: k.A.key, m: k.m.key, plain: plain.key, off: k8 ? 8 : 0, buf: buf.key, len: undefined, min: undefined, max: undefined };
        } else x = { ...x, plain: plain.key };
      }
      const use = x.plain && !dec.includes(v) && (v.op === "SetProp" && !/reader/i.test(v.name) || (v.op === "Call" && v.targetFn && !/_logger|ogger|#repr$|TLReader|^deps:/.test(v.name ?? "") && [...v.callArgs].some((a) => tainted.has(resolve(a)))) || v.op === "Call" && !v.targetFn && isOut(v) && v.callArgs.some((a) => tainted.has(resolve(a))));
      if (use && !probe && !x.ok && judgeUse(v, x, H, T, cx)) x = { ...x, ok: 1 };
      return x === s.x ? undefined : { ...s, x };
    },
  });
  if (!probe) ctx.ob(R.auth, uses > 0, { key: lab + "|none", at: p.loc(f), message: `${lab} decrypts messages and does nothing with them` });
  return res;
  function isOut(v) { return !/^deps:|^lib#|^utilities\/|^0_deps|^tl\//.test(v.name ?? "lib#") && !/ogger|repr/.test(v.name ?? ""); }
  function isCreatorFact(q) { return /admin_id/.test(q) && /getSelfId/.test(q) && /===/.test(q); }
  function sub(a, b) { const tt = linear(a), q = linear(b); const m = new Map(); for (const [k, v] of tt.m) m.set(k, { ...v }); for (const [k, v] of q.m) { const o = m.get(k); const nk = (o?.k ?? 0) - v.k; if (nk) m.set(k, { t: v.t, k: nk }); else m.delete(k); } try { return { c: Number(tt.c ?? 0) - Number(q.c ?? 0), m }; } catch { return null; } }
  function readRange(key) { const m = /%(\d+);$/.exec(key); return m ? ranges.get(+m[1]) : undefined; }
  function judgeUse(v, x, H, T, cx) {
    uses++;
    let all = true;
    const at = (ok, key, msg) => { if (!ok) all = false; ob(R.auth, ok, key, v, cx, `uses decrypted data (${v.name ?? v.op}) ${msg}`); };
    if (!x.A) { at(false, "kdf", "of an unknown key"); return false; }
    const A = store.get(x.A), m = store.get(x.m), plain = store.get(x.plain);
    const byteEq = H.all.filter((q) => q.startsWith("+")).map((q) => /^\+\((.*)\)$/s.exec(q)?.[1]).filter(Boolean);
    at(!H.all.some((q) => q.startsWith("+(") && q.includes("===") && Object.values(IDS).some((n) => n !== IDS[A.n] && q.includes(T.terms.prop(A.a[0] ?? A, n).key) && firstEight(q, T.terms.prop(A.a[0] ?? A, n).key))), "other", "although the identifier in front of the message was compared with that of another key");
    at(x.idOk || identified(H, A, T), "identifier", "although the identifier in front of the message was not found to be that of the key used");
    const mk8 = X.messageKey(A, plain, x.off);
    at(byteEq.some((q) => q === m.key + "===" + mk8.key || q === mk8.key + "===" + m.key), "message key", "although the message key was not found to equal the one computed from the decrypted text");
    const mr = readRange(m.key);
    at(mr && mr.from === 8 && mr.to === 24 || m.h === "slice" && m.a[1].n === 8 && m.a[2]?.n === 24, "message key place", "although the message key compared is not the one that follows the identifier");
    at(x.len && x.min >= 12 && x.max <= 1024, "padding", "although the padding was not found to be 12 to 1024 bytes long");
    at(H.all.some((q) => /%16/.test(q) && /length/.test(q)), "length", "although the length of the message was not found to be that of whole blocks");
    at(H.all.some((q) => q.startsWith("+") && /is\("encryptedChat",/.test(q) || /^\+.*encryptedChat\._==="encryptedChat"\)/.test(q)), "chat", "although the chat was not found to be established");
    return all;
  }
  function identified(H, A, T) {
    const idName = IDS[A.h === "prop" ? A.n : ""];
    const want = idName && T.terms.prop(A.a[0], idName).key;
    return want && H.all.some((q) => q.startsWith("+(") && q.includes("===") && q.includes(want) && firstEight(q, want));
  }
  function firstEight(q, want) {
    const other = q.slice(2, -1).split("===").filter((y) => y !== want);
    return other.some((y) => { const r = readRange(y); return r && r.from === 0 && r.to === 8 || /^slice\(.*,0,8\)$/.test(y); });
  }
}
/** the method that orders messages */
function ordering(ctx, files, roots, named) {
  const p = ctx.p;
  const fns = allFunctions(p).filter((f) => files.includes(f.getSourceFile()) && named(f) === f);
  // delivering: makes the message known to the application or acts on a service message
  const direct = (f) => { let y = false; p.walk(f, (n) => { if (ts.isCallExpression(n) && /#constructSecretMessage$/.test(p.resolveCallee(n).name ?? "")) y = true; }); return y; };
  const service = (f) => { let k = 0; p.walk(f, (n) => { if (ts.isStringLiteral(n) && /^decryptedMessageAction(Accept|Request|Commit|Abort)Key$/.test(n.text) && (ts.isCaseClause(n.parent) || ts.isBinaryExpression(n.parent) || ts.isCallExpression(n.parent))) k++; }); return k >= 3; };
  const deliver = new Set(fns.filter((f) => direct(f) || service(f))); ctx.need(deliver.size, "code that delivers secret messages");
  // the ordering method advances the expected position
  const advances = (f) => { let y = false; p.walk(f, (n) => { const t = ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n) ? n.operand : ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment ? n.left : null; if (t && ts.isPropertyAccessExpression(t) && t.name.text === "inSeqNo") y = true; }); return y; };
  let order = fns.filter(advances); ctx.need(order.length, "code that advances the position expected from the peer");
  // helpers that only advance are judged where they are called
  const calls = (f, g) => callees(p, f).some((c) => c.fn === g);
  let tops = new Set();
  for (const f of order) { let cur = [f]; const seen = new Set(); while (cur.length) { const g = cur.pop(); if (seen.has(g)) continue; seen.add(g); const tests = reads(p, g, "out_seq_no") && reads(p, g, "pendingMessages"); if (tests) { tops.add(g); continue; } const us = fns.filter((h) => h !== g && calls(h, g)); if (!us.length) tops.add(g); cur.push(...us); } }
  for (const f of tops) one(ctx, f, deliver);
  // who delivers
  for (const d of deliver) for (const f of fns) {
    if (f === d || !calls(f, d)) continue;
    const ok = deliver.has(f) || tops.has(f) || order.includes(f) || [...tops].some((t) => calls(t, f) && !roots.has(f));
    ctx.ob(R.only, ok, { key: fnLabel(p, f) + "->" + fnLabel(p, d), at: p.loc(f), message: `${fnLabel(p, f)} delivers a secret chat message without the tests of its position` });
  }
  for (const t of tops) for (const f of fns) if (f !== t && calls(f, t)) ctx.ob(R.only, roots.has(f) || [...roots].some((r) => calls(r, f)), { key: fnLabel(p, f) + "->" + fnLabel(p, t), at: p.loc(f), message: `${fnLabel(p, f)} hands a message on for delivery that was not decrypted there` });
}
function reads(p, f, name) { let y = false; p.walk(f, (n) => { if (ts.isPropertyAccessExpression(n) && n.name.text === name) y = true; }); return y; }
function one(ctx, f, deliver) {
  const p = ctx.p, lab = fnLabel(p, f);
  const rel = new Map(), lit = new Map();
  const relevant = (g) => { if (rel.has(g)) return rel.get(g); rel.set(g, false); let y = reads(p, g, "inSeqNo") || reads(p, g, "pendingMessages") || callees(p, g).some((c) => deliver.has(c.fn)); if (/resend/i.test("")) y = true; rel.set(g, y); return y; };
  const hasLit = (g, s, d = 0) => { let y = false; p.walk(g, (n) => { if (ts.isStringLiteral(n) && n.text === s) y = true; }); return y || d < 3 && callees(p, g).some((c) => c.fn && c.fn !== g && c.fn.getSourceFile() === g.getSourceFile() && hasLit(c.fn, s, d + 1)); };
  const discards = (g) => { if (!lit.has(g)) lit.set(g, hasLit(g, "messages.discardEncryption", 2)); return lit.get(g); };
  const refuses = (g) => { let y = false; p.walk(g, (n) => { if (ts.isThrowStatement(n) && enclosing(n) === g) y = true; }); return y && discards(g) && !callees(p, g).some((c) => c.fn === f || deliver.has(c.fn)) && !usesSend(g); };
  const never = (n, g) => g && !isClosure(g) && !refuses(g) && (deliver.has(g) || g === f || isAsync(g) && (!relevant(g) || reaches(p, g, (x) => /sendEncrypt/.test(x)) || usesSend(g)));
  const usesSend = (g) => { let y = false; p.walk(g, (n) => { if (ts.isStringLiteral(n) && /^messages\.sendEncrypted/.test(n.text)) y = true; }); return y; };
  const ob = (kind, ok, key, v, cx, msg) => ctx.ob(kind, !!ok, { key: lab + "|" + key, at: p.loc(v?.ast ?? f), message: `${lab} ${msg}`, path: ok ? undefined : describePath(p, cx.path()) });
  /** "(M.out_seq_no - x) / 2" → { M, field, x } */
  const pos = (t) => {
    if (t.h !== "bin" || !(t.n === "/" && t.a[1].n === 2 || t.n === ">>" && t.a[1].n === 1)) return null;
    const l = linear(t.a[0]); if (l.m.size !== 1) return null; const [v] = l.m.values(); if (v.k !== 1 || v.t.h !== "prop" || !/^(in|out)_seq_no$/.test(v.t.n)) return null;
    return { M: v.t.a[0].key, field: v.t.n, x: -Number(l.c ?? 0), t: v.t };
  };
  const isIn = (t) => t.h === "prop" && t.n === "inSeqNo";
  const isPending = (M) => /pendingMessages/.test(M);
  const put = (x, M, k, val) => { const m = { ...(x.m ?? {}) }; m[M] = { ...(m[M] ?? {}), [k]: val }; return { ...x, m }; };
  const get = (x, M) => x.m?.[M] ?? {};
  const cmp = (x, q, tr) => { // q: comparison with positions, outcome tr
    const [a, b] = q.a, pa = pos(a), pb = pos(b);
    if (q.n === "===") {
      if (pa?.field === "out_seq_no" && isIn(b) || pb?.field === "out_seq_no" && isIn(a)) { const P = pa ?? pb; if (tr) { x = put(x, P.M, "eq", P.x); if (isPending(P.M)) x = { ...x, found: P.x }; } return x; }
      if (a.h === "bin" && a.n === "%" && a.a[1].n === 2 && a.a[0].h === "prop" && a.a[0].n === "out_seq_no" && b.h === "const") { x = put(x, a.a[0].a[0].key, "parity", tr ? b.n : "bad"); return tr ? x : { ...x, need: 1 }; }
      if (a.h === "bin" && a.n === "%" && a.a[1].n === 1 && pos(a.a[0])?.field === "in_seq_no") { const P = pos(a.a[0]); return tr ? put(x, P.M, "whole", P.x) : { ...x, need: 1 }; }
      if (a.h === "bin" && a.n === "%" && a.a[1].n === 2 && a.a[0].h === "prop" && a.a[0].n === "in_seq_no" && b.h === "const") return tr ? put(x, a.a[0].a[0].key, "whole", b.n) : { ...x, need: 1 };
      return x;
    }
    if (q.n !== "<") return x;
    if (pa?.field === "out_seq_no" && isIn(b)) { x = put(x, pa.M, "old", tr ? 1 : 0); return put(x, pa.M, "x", pa.x); }
    if (pb?.field === "out_seq_no" && isIn(a)) { x = put(x, pb.M, "ahead", tr ? 1 : 0); return put(x, pb.M, "x", pb.x); }
    if (pb?.field === "in_seq_no" && a.h === "prop" && a.n === "outSeqNo") return tr ? { ...x, need: 1 } : put(x, pb.M, "notAhead", pb.x);
    if (pa?.field === "in_seq_no" && b.h === "const" && b.n === 0) return tr ? { ...x, need: 1 } : put(x, pa.M, "notNeg", pa.x);
    if (pa?.field === "in_seq_no" && b.h === "prop" && b.n === "remoteInSeqNo") return tr ? put(x, pa.M, "dec", 1) : put(x, pa.M, "nd", 1);
    return x;
  };
  let delivered = 0, resets = 0;
  track(ctx, f, {
    policy: { never }, maxStates: 12000, atThrow: true,
    keep: (k) => /admin_id/.test(k),
    edge(s, t, truth, cx, T, H, term) {
      let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; }
      let x = s.x;
      let cv = resolve(term.cond); while (cv.op === "Un" && cv.operator === "!") cv = resolve(cv.args[0]);
      if (cv.quant && /pendingMessages$/.test(T(cv.quant.src).key)) x = { ...x, nodup: tr === (cv.quant.method === "every") ? 1 : 0 };
      if (q.h === "bin" && q.n === "===" && q.a.some((y) => /pendingMessages\.length$/.test(y.key)) && q.a[1].n === 0 && tr || q.h === "bin" && q.n === "<" && q.a[0].n === 0 && /pendingMessages\.length$/.test(q.a[1].key) && !tr) x = { ...x, empty: 1 };
      if (q.h === "bin" && q.n === "<" && /gapEndSeqNo$/.test(q.a[0].key) && isIn(q.a[1]) && tr) x = { ...x, beyond: 1 };
      if (q.h === "bin") x = cmp(x, q, tr);
      if (q.h === "prop" && q.n === "isJustLoaded") { x = { ...x, jl: tr ? 1 : 0 }; if (!tr && Object.values(x.m ?? {}).some((m) => m.dec && !m.nd)) x = { ...x, need: 1 }; }
      if (q.h === "prop" && q.n === "isGapRequested" && tr) x = { ...x, asked: 1 };
      if (x.fr && q.key.includes("%" + x.fr.id + ";")) {
        const none = q.h === "bin" && q.n === "===" ? tr === (q.a[1].n === -1 || q.a[1].n === undefined) : q.h === "bin" && q.n === "<" ? tr : q.h === "isnull" ? tr : !tr;
        if (none) x = { ...x, drained: 1, nodup: 1 }; else x = { ...x, found: x.fr.x };
      }
      if (q.h === "IterHas" && !tr && /pendingMessages/.test(q.key)) { x = { ...x, nodup: 1 }; if (x.drained === 0) x = { ...x, scan: 1 }; }
      return x === s.x ? undefined : { ...s, x };
    },
    inst(s, v, cx, T, H) {
      let x = s.x;
      if (v.op === "Call" && v.targetFn && discards(v.targetFn) && !deliver.has(v.targetFn)) x = { ...x, need: 0 };
      if (v.op === "Object") {
        const t = T(v), fld = (n) => t.props?.find((q) => q.key === n)?.t, kind = fld("_")?.n;
        if (kind === "messages.discardEncryption") x = { ...x, need: 0 };
        if (kind === "decryptedMessageActionResend") {
          const st = linear(fld("start_seq_no") ?? C(0)), en = linear(fld("end_seq_no") ?? C(0));
          const a = [...st.m.values()], b = [...en.m.values()];
          const M = b.length === 1 && b[0].t.h === "prop" && b[0].t.n === "out_seq_no" ? b[0].t.a[0].key : null;
          const twice = a.length === 1 && (a[0].k === 2 && isIn(a[0].t) || a[0].k === 1 && a[0].t.h === "bin" && a[0].t.n === "*" && a[0].t.a.some(isIn) && a[0].t.a.some((y) => y.n === 2));
          ob(R.gap, M && Number(en.c ?? 0) === -2 && twice && Number(st.c ?? 0) === get(x, M).x, "range", v, cx, "asks for a range that is not exactly the messages missing in front of the one received");
          x = { ...x, asked: 1 };
        }
      }
      if (v.op === "FindResult" && /pendingMessages$/.test(T(v.args[0]).key)) { const pr = T(v.args[1]); const pp = pr.h === "bin" && pr.n === "===" ? pos(pr.a[0]) ?? pos(pr.a[1]) : null; x = { ...x, fr: pp && pr.a.some(isIn) && pp.field === "out_seq_no" ? { id: v.id, x: pp.x } : { id: v.id } }; }
      if (v.op === "SetProp" && v.name === "remoteInSeqNo") x = { ...x, rem: 1, owe: undefined };
      if (v.op === "SetProp" && v.name === "isGapRequested" && T(v.args[1]).n === false) { resets++; x = { ...x, off: 1 }; }
      if (v.op === "SetProp" && v.name === "isGapRequested" && T(v.args[1]).n !== false) x = { ...x, off: undefined };
      if (v.op === "Call" && v.method === "splice" && v.recv && /pendingMessages$/.test(T(v.recv).key) || v.op === "SetProp" && v.name === "pendingMessages") x = { ...x, removed: 1, keeps: undefined };
      if (v.op === "Call" && v.targetFn === f && x.beyond) { ob(R.gap, x.off, "again|off", v, cx, "looks at a further gap while the last one is still marked as asked for"); x = { ...x, beyond: undefined }; }
      if (v.op === "SetProp" && v.name === "inSeqNo") {
        const val = T(v.args[1]), l = linear(val), one1 = [...l.m.values()];
        ob(R.order, Number(l.c) === 1 && one1.length === 1 && one1[0].k === 1 && isIn(one1[0].t), "advance", v, cx, "changes the position expected from the peer by something other than one");
        // which message is this for: the one just tested
        const c = Object.entries(x.m ?? {}).filter(([, m]) => m.eq !== undefined || m.old === 0 && m.ahead === 0).map(([M]) => M);
        x = { ...x, next: c.filter((M) => !isPending(M)), found2: x.found, m: strip(x.m) };
        x = { ...x, found: undefined };
      }
      if (v.op === "Call" && v.targetFn && deliver.has(v.targetFn)) {
        delivered++;
        const args = v.callArgs.map((a) => T(a)); const msg = args.find((a) => isLayer(p, v, args.indexOf(a))) ?? args[1];
        const M = msg.key, pend = isPending(M), g = get(x, M);
        ob(R.order, x.next && (x.next.includes(M) || pend && x.found2 !== undefined), "position", v, cx, "delivers a message whose position was not found to be the one expected");
        const creator = H.all.some((k) => k.startsWith("+") && /admin_id/.test(k) && /===/.test(k)), other = H.all.some((k) => k.startsWith("-") && /admin_id/.test(k) && /===/.test(k));
        const xOut = pend ? x.found2 : g.x ?? g.eqx;
        ob(R.tests, xOut !== undefined && (creator ? xOut === 0 : other && xOut === 1), "direction", v, cx, "delivers a message counted among those of this user (reflected) instead of the peer's");
        if (!pend) tests(v, x, M, creator, cx, "delivers");
        ob(R.tests, g.nd || x.jl, "decreasing", v, cx, "delivers a message although what it acknowledges was not found to be at least what was acknowledged before");
        if (!x.rem) x = { ...x, owe: 1 };
        if (pend && !x.removed) x = { ...x, keeps: 1 };
        x = { ...x, next: undefined, found2: undefined, drained: 0, jl: undefined, rem: undefined, removed: undefined, empty: undefined, beyond: undefined, off: undefined };
      }
      if (v.op === "Call" && v.method === "push" && v.recv && /pendingMessages$/.test(T(v.recv).key)) {
        const a = T(v.callArgs[0]); const M = (a.h === "arr" ? a.a[0] : a).key, g = get(x, M);
        const creator = H.all.some((k) => k.startsWith("+") && /admin_id/.test(k));
        tests(v, x, M, creator, cx, "keeps for later");
        ob(R.order, x.nodup, "twice", v, cx, "keeps for later a message without having found that it is not kept already");
        ob(R.order, g.ahead === 1, "push", v, cx, "keeps for later a message that does not lie beyond a gap");
        x = { ...x, kept: 1 };
      }
      return x === s.x ? undefined : { ...s, x };
    },
    exit(s, kind, cx) {
      const x = s.x;
      if (x.need !== undefined) ob(R.close, !x.need, kind, null, cx, "ends after inconsistent numbers without discarding the chat");
      if (kind !== "return") return;
      if (x.kept) ob(R.gap, x.asked, "asked", null, cx, "keeps a message beyond a gap without asking for the missing ones");
      if (x.drained !== undefined) {
        ob(R.tests, !x.owe, "acknowledged", null, cx, "delivers a message and does not remember what it acknowledges");
        ob(R.order, !x.keeps, "removed", null, cx, "delivers a waiting message and leaves it among those waiting");
        ob(R.gap, !x.empty || x.off, "over", null, cx, "leaves a gap marked as asked for although nothing is waiting any more");
        ob(R.gap, !x.beyond, "again", null, cx, "leaves messages waiting beyond a further gap that is never asked for");
      }
      if (x.drained !== undefined) ob(R.gap, x.drained || x.scan, "drain", null, cx, "ends after a delivery without looking for waiting messages that are next");
    },
  });
  ctx.ob(R.order, delivered > 0, { key: lab + "|none", at: p.loc(f), message: `${lab} advances the expected position and delivers nothing` });
  ctx.ob(R.gap, resets > 0, { key: lab + "|reset", at: p.loc(f), message: `${lab} never marks a gap as closed` });
  function tests(v, x, M, creator, cx, what) {
    const g = get(x, M), xo = creator ? 0 : 1, xi = creator ? 1 : 0;
    ob(R.tests, g.parity === xo, what + "|parity", v, cx, `${what} a message whose number was not found to be of the peer's parity`);
    ob(R.tests, g.whole === xi && g.notAhead === xi, what + "|in", v, cx, `${what} a message whose acknowledged position was not found to be one this user has reached`);
  }
  function strip(m) { const o = {}; for (const [k, g] of Object.entries(m ?? {})) o[k] = { ...g, eq: undefined, old: undefined, ahead: undefined }; return o; }
}
function isLayer(p, v, i) { try { const a = v.ast.arguments[i]; const t = p.checker.getTypeAtLocation(a); return /decryptedMessageLayer/.test(t.symbol?.name ?? ""); } catch { return false; } }
