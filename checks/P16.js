"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { fnLabel, callees, enclosing } = require("../lib/util.js");
const { track, mk, nameOfType } = require("../lib/facts.js");
const { C, slice } = require("../lib/terms.js");
const X = require("../lib/crypto.js");
const dh = require("../lib/dh.js");
const KEYS = ["authKey", "toCommitAuthKey"], EXPO = ["pendingExponent", "rekeyA", "a"], GROUP = ["prime", "g"];
const R = {
  key: "an installed key is the result of a tested exchange",
  id: "key identifier belongs to the key",
  group: "group of a chat comes from a tested configuration",
  own: "own public value is fresh and in range",
  commit: "a prepared key is used only once it is confirmed",
  fail: "a failed exchange is answered",
  open: "a chat is opened only with a key",
  one: "one exchange at a time",
};
module.exports = {
  technique: "path-sensitive must-have-been-tested dataflow over SSA form",
  explanation: "Every place that stores a key, a prepared key, an exponent or the group of a secret chat is found by the static type of the object written, and every path to it is followed back with helpers inlined. On each path the outcomes of the tests made must include: the prime and generator passed the safety test (analysed itself, as is the range test), the peer's public value passed the range test, the exponent is a fresh 2048-bit random number or the one of the exchange in progress (whose identifier was compared and is not the idle value), and, on the side that receives a fingerprint, the fingerprint equals the one of the very key stored. A prepared key becomes the current one only on a confirmation whose exchange and fingerprint were compared, or after a message was decrypted with it. Identifiers written beside a key are those of that key. When a test fails, the exchange is aborted or the chat discarded before the method ends.",
  rules: Object.values(R).concat("prime test", "range test"),
  assumptions: ["sha1, modExp, intToBytes, intFromBytes compute what their names say", "the fields of SecretChatState keep their meaning (they are the stored format)"],
  run(ctx) {
    const p = ctx.p, D = dh.find(ctx); dh.judgeTests(ctx, D);
    const state = ctx.need(p.findClass("SecretChatState")[0], "class SecretChatState");
    const fields = [...KEYS, ...EXPO, ...GROUP, "toCommitId", "rekeyId"];
    const sinkFns = new Set();
    for (const sf of p.sourceFiles) {
      if (!/^client\//.test(p.rel(sf)) || sf === state.getSourceFile()) continue;
      p.walk(sf, (n) => {
        let l = ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment ? n.left : null;
        if (!l || !ts.isPropertyAccessExpression(l) || !fields.includes(l.name.text)) return;
        if (!isState(p, l.expression) || ts.isBigIntLiteral(n.right) || ts.isNumericLiteral(n.right) || ts.isNewExpression(n.right) && !n.right.arguments?.length) return;
        let f = enclosing(n); while (f && (ts.isArrowFunction(f) || ts.isFunctionExpression(f))) f = enclosing(f); if (f) sinkFns.add(f);
      });
    }
    ctx.need(sinkFns.size >= 4, "code that stores keys of secret chats");
    // A function that only forwards what it is given is judged where it is called; so is one whose tests are made by its callers.
    const roots = new Set(sinkFns), deferred = new Set(), done = new Set();
    for (let again = true; again;) {
      again = false;
      for (const f of [...roots]) {
        if (done.has(f)) continue;
        const res = judge(ctx, f, D, roots, deferred); done.add(f); f._p16 = res;
        if (res.some((r) => r.param)) { deferred.add(f); roots.delete(f); for (const g of callersOf(p, f)) { roots.add(g); done.delete(g); } again = true; }
      }
    }
    for (const f of [...roots]) {
      const users = callersOf(p, f), bad = f._p16.filter((r) => !r.ok);
      if (!bad.length || !isPrivate(f) || !users.length || !bad.every((r) => r.contextual)) continue;
      const D2 = new Set([...deferred, f]), R2 = new Set([...roots].filter((g) => g !== f));
      let all; try { all = users.map((g) => judge(ctx, g, D, R2, D2)); } catch { continue; }
      if (all.every((l) => l.every((r) => r.ok))) f._p16 = all.flat().concat(f._p16.filter((r) => r.ok));
    }
    for (const f of roots) for (const r of f._p16 ?? []) if (r.kind) ctx.ob(r.kind, r.ok, r);
    ctx.sample("functions", [...roots].map((f) => fnLabel(p, f)).sort());
    const D2 = { [R.key]: 4, [R.id]: 4, [R.group]: 4, [R.own]: 4, [R.commit]: 2, [R.fail]: 4, [R.open]: 1, [R.one]: 2 };
    for (const [k, n] of Object.entries(D2)) ctx.floor(k, n);
    ctx.floor("prime test", 3); ctx.floor("range test", 2);
  },
};
const isPrivate = (f) => f.name && (ts.isPrivateIdentifier(f.name) || (ts.getCombinedModifierFlags(f) & ts.ModifierFlags.Private)) || ts.isFunctionDeclaration(f);
function isState(p, e) { try { return has(p.checker.getTypeAtLocation(e)); } catch { return false; } function has(t) { return (t.types ?? [t]).some((x) => x.symbol?.name === "SecretChatState"); } }
function callersOf(p, f) {
  const out = new Set();
  p.walk(f.getSourceFile(), (n) => { if (ts.isCallExpression(n) && p.resolveCallee(n).fn === f) { let g = enclosing(n); while (g && (ts.isArrowFunction(g) || ts.isFunctionExpression(g))) g = enclosing(g); if (g && g !== f) out.add(g); } });
  return [...out];
}
function literalReach(p, f, names, memo, depth = 0) {
  if (memo.has(f)) return memo.get(f); memo.set(f, false);
  let y = false; p.walk(f, (n) => { if (ts.isStringLiteral(n) && names.includes(n.text)) y = true; });
  if (!y && depth < 6) for (const c of callees(p, f)) if (c.fn && c.fn.getSourceFile() === f.getSourceFile() && c.fn !== f && literalReach(p, c.fn, names, memo, depth + 1)) { y = true; break; }
  memo.set(f, y); return y;
}
const ANSWER = ["messages.discardEncryption", "decryptedMessageActionAbortKey"];
const CRYPTO = /#(modExp|sha1|isSafePrime)$/;
function judge(ctx, f, D, roots, deferred) {
  const p = ctx.p, lab = fnLabel(p, f), out = [], memo = new Map(), lit = new Map();
  const ob = (kind, ok, key, v, cx, message, more) => out.push({ kind, ok: !!ok, key: lab + "|" + key, at: p.loc(v?.ast ?? f), message: `${lab} ${message}`, path: ok ? undefined : describePath(p, cx.path()), ...more });
  const relevant = (g) => { // contains a deferred sink or cryptography, not through another root
    if (memo.has(g)) return memo.get(g); memo.set(g, false);
    let y = deferred.has(g); if (!y) for (const c of callees(p, g)) { if (CRYPTO.test(c.name ?? "") || c.fn === D.range || c.fn === D.prime) { y = true; break; } if (c.fn && c.fn !== g && c.fn.getSourceFile() === f.getSourceFile() && !roots.has(c.fn) && relevant(c.fn)) { y = true; break; } }
    memo.set(g, y); return y;
  };
  const isAsync = (g) => !!(ts.getCombinedModifierFlags(g) & ts.ModifierFlags.Async) || g.modifiers?.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword);
  const never = (n, g) => g && (g === D.prime || g === D.range || roots.has(g) && g !== f || isAsync(g) && !relevant(g) && !(ts.isArrowFunction(g) || ts.isFunctionExpression(g)));
  const shortN = (g) => g.name?.text ?? g.parent.name?.text;
  const big = (o) => { const q = (n) => o?.props?.find((x) => x.key === n)?.t?.n; return q("byteOrder") === "big" && q("isSigned") === false; };
  const isInt = (t) => t?.h === "call" && /#intFromBytes$/.test(t.name ?? "");
  const isPow = (t) => t?.h === "call" && /#modExp$/.test(t.name ?? "") && t.args?.length === 3;
  const bytesOf = (t) => { if (t.h === "cat" && t.a.slice(0, -1).every((x) => x.h === "zeros" || x.h === "bytes" && x.a.every((y) => y.n === 0))) t = t.a[t.a.length - 1]; return t.h === "call" && /#intToBytes$/.test(t.name ?? "") && t.args[1]?.n === 256 && big(t.args[2]) ? t.args[0] : null; };
  const isEmpty = (t) => t.h === "new" && !t.a.length && /Uint8Array/.test(t.n) || t.h === "zeros" && (t.a.length === 0 || t.a[0].h === "const" && t.a[0].n === 0) || t.h === "bytes" && !t.a.length;
  const fresh = (t) => t?.h === "call" && /#getRandomInt$/.test(t.name ?? "") && t.args[0]?.h === "const" && t.args[0].n >= 256 && t.args[1]?.n === false;
  const hashes = (k) => { const h = mk("sha1", [k]); return [slice(h, C(-8)).key, slice(h, C(12)).key, slice(h, C(12), C(20)).key]; };
  const isIdOf = (t, k) => hashes(k).includes(t.key);
  const isNumOf = (t, k) => isInt(t) && isIdOf(t.args[0], k) && (!t.args[1] || !t.args[1].props?.length);
  const place = (t) => (t?.h === "prop" ? t.n : null);
  const rangeFact = (H, x, pr) => H.all.some((k) => k.startsWith("+") && k.includes(shortN(D.range) + "(" + x.key + "," + pr.key + ")"));
  const primeFact = (H, b, g) => H.all.some((k) => k.startsWith("+") && k.includes(shortN(D.prime) + "(" + b + "," + g + ")"));
  const testedPrime = (T, H, pr, g) => { // a group that was tested, or the one stored with the chat
    if (place(pr) === "prime") return place(g) === "g" || g === null ? "stored" : null;
    if (!isInt(pr) || !big(pr.args[1]) || pr.args[0].h !== "prop") return null;
    const cfg = pr.args[0].a[0], gk = T.terms.prop(cfg, "g").key;
    if (g && g.key !== gk) return null;
    return primeFact(H, pr.args[0].key, gk) ? "tested" : null;
  };
  const gen = (t) => (t.h === "bigint" ? t.a[0] : t);
  const idleNe = (T, H, st, name) => H.ne(T.terms.prop(st, name), C(0n));
  const sentEq = (T, H, st, name, field) => { // state.<name> === <received>.<field>
    const k = T.terms.prop(st, name).key; return H.all.some((x) => x.startsWith("+(") && x.includes("===") && x.includes(k) && new RegExp("\\." + field + "(?![\\w$])").test(x));
  };
  const eqTo = (H, t, field) => H.all.some((x) => x.startsWith("+(") && x.includes("===") && x.includes(t) && new RegExp("\\." + field + "(?![\\w$])").test(x.replace(t, "")));
  const st0 = { };
  const onState = (T, v) => { const t = nameOfType ? v.args[0] : null; let a = v.ast; if (a && ts.isBinaryExpression(a)) a = a.left; return a && ts.isPropertyAccessExpression(a) && isState(p, a.expression); };
  const store = new Map();
  const ownOk = (v, t, T, H, cx, what) => { // t: the power sent or the exponent stored
    const e = isPow(t) ? t.args[1] : t;
    ob(R.own, fresh(e), what + "|fresh", v, cx, `uses an exponent for ${what} that is not a fresh random number of 2048 bits`);
    const tested = H.all.some((k) => k.startsWith("+") && k.includes(shortN(D.range) + "(call:modExp(") && k.includes("," + e.key + ","));
    ob(R.own, tested, what + "|range", v, cx, `uses for ${what} a public value of its own that was not found to be in range`);
  };
  let sinks = 0;
  track(ctx, f, {
    policy: { never }, atThrow: true, maxStates: 6000,
    keep: (k) => /fingerprint|xchange|xponent|toCommit|rekey|authKey|encryptedChat/.test(k) || k.includes(shortN(D.prime) + "(") || k.includes(shortN(D.range) + "("),
    edge(s, t, truth, cx, T) {
      let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; }
      if (tr) return;
      const peer = q.key.includes(shortN(D.range) + "(call:intFromBytes(") || q.h === "bin" && q.n === "===" && /key_fingerprint/.test(q.key);
      if (peer) return { ...s, x: { ...s.x, need: 1 } };
    },
    inst(s, v, cx, T, H) {
      let x = s.x;
      if (v.op === "Call") {
        if (v.targetFn && ANSWER.length && literalReach(p, v.targetFn, ANSWER, lit) && !/ecryptMessage/.test(v.name ?? "")) x = { ...x, need: 0 };
        if (v.targetFn && isAsync(v.targetFn) && reachesDecrypt(p, v.targetFn)) { const ks = v.callArgs.map((a) => T(a)); if (ks.some((k) => place(k) === "toCommitAuthKey") && ks.some((k) => place(k) === "toCommitAuthKeyId_")) x = { ...x, dec: 1 }; }
      }
      if (v.op === "Object") {
        const t = T(v); const fld = (n) => t.props?.find((q) => q.key === n)?.t; const kind = fld("_")?.n;
        if (ANSWER.includes(kind)) x = { ...x, need: 0 };
        const pub = { "messages.requestEncryption": "g_a", "messages.acceptEncryption": "g_b", "decryptedMessageActionRequestKey": "g_a", "decryptedMessageActionAcceptKey": "g_b" }[kind];
        if (pub) {
          const b = fld(pub) && bytesOf(fld(pub));
          const ok = isPow(b); ob(R.own, ok, kind + "|form", v, cx, `sends in ${kind} something other than the 256-byte form of a power of the generator`);
          if (ok) {
            ownOk(v, b, T, H, cx, kind);
            const g = gen(b.args[0]); const pl = testedPrime(T, H, b.args[2], g) ?? (isInt(b.args[2]) && b.args[2].args[0].h === "prop" && g.key === T.terms.prop(b.args[2].args[0].a[0], "g").key && primeFact(H, b.args[2].args[0].key, g.key));
            ob(R.own, !!pl, kind + "|group", v, cx, `sends in ${kind} a public value that is not a power of the chat's generator in its tested group`);
          }
          const fp = fld("key_fingerprint");
          if (/cceptEncryption|AcceptKey/.test(kind)) { const e = ok && b.args[1].key; ob(R.id, isInt(fp ?? C(0)) && e && fp.key.includes("," + e + ",") && isNumOf(fp, keyIn(fp)), kind + "|fingerprint", v, cx, `announces in ${kind} a fingerprint that is not the one of the key of this exchange`); }
        }
      }
      if (v.op === "SetProp" && onState(T, v)) {
        const st = T(v.args[0]), val = T(v.args[1]);
        if (KEYS.includes(v.name)) {
          sinks++;
          if (isEmpty(val)) x = { ...x, [v.name]: "" };
          else if (isParam(val)) out.push({ param: true, ok: true });
          else if (v.name === "authKey" && place(val) === "toCommitAuthKey") {
            const byCommit = idleNe(T, H, st, "toCommitId") && sentEq(T, H, st, "toCommitId", "exchange_id") && sentEq(T, H, st, "toCommitAuthKeyId", "key_fingerprint");
            ob(R.commit, byCommit || x.dec, "commit", v, cx, "makes the prepared key the current one although neither a confirmation naming this exchange and this key nor a message encrypted with it was received", { contextual: true });
            store.set("toCommit", val); x = { ...x, authKey: val.key, kind: "commit" };
            store.set(val.key, val);
          } else {
            const k = bytesOf(val), pw = k && isPow(k) ? k : null;
            ob(R.key, pw, v.name + "|form", v, cx, `stores as ${v.name} something other than the 256-byte form of a power of the peer's public value`);
            if (pw) {
              const [base, e, pr] = pw.args;
              ob(R.key, isInt(base) && big(base.args[1]) && base.args[0].h === "prop" && /^g_(a|b|a_or_b)$/.test(base.args[0].n), v.name + "|base", v, cx, `stores as ${v.name} a key whose base is not the public value received`);
              ob(R.key, rangeFact(H, base, pr), v.name + "|range", v, cx, `stores as ${v.name} a key although the peer's public value was not found to be in range`, { contextual: true });
              ob(R.key, testedPrime(T, H, pr, null), v.name + "|group", v, cx, `stores as ${v.name} a key computed in a group that was not tested`, { contextual: true });
              const ex = fresh(e) ? "fresh" : place(e);
              const eOk = ex === "fresh" || ex === "pendingExponent" && H.ne(e, C(0n)) || ex === "rekeyA" && idleNe(T, H, st, "rekeyId") && sentEq(T, H, st, "rekeyId", "exchange_id");
              ob(R.key, eOk, v.name + "|exponent", v, cx, `stores as ${v.name} a key whose exponent is not that of an exchange in progress`, { contextual: true });
              if (ex !== "fresh") ob(R.key, hashes(val).some((h) => eqTo(H, "call:intFromBytes(" + h, "key_fingerprint")), v.name + "|fingerprint", v, cx, `stores as ${v.name} a key although its fingerprint was not found to equal the one announced`, { contextual: true });
              store.set(val.key, val); x = { ...x, [v.name]: val.key, used: ex };
            }
          }
        } else if (v.name === "previousAuthKey") ob(R.key, isEmpty(val) || place(val) === "authKey", "previous", v, cx, "stores as the previous key something other than the current one");
        else if (/^(authKeyId_?|toCommitAuthKeyId_?)$/.test(v.name)) { if (!(v.name.startsWith("toCommit") && (isEmpty(val) || val.n === 0n))) { store.set(val.key, val); x = { ...x, ["id:" + v.name]: val.key }; } }
        else if (v.name === "prime" || v.name === "g") {
          const pr = v.name === "prime" ? val : null, cfg = pr ? (isInt(pr) && pr.args[0].h === "prop" ? pr.args[0].a[0] : null) : val.h === "prop" && val.n === "g" ? val.a[0] : null;
          const ok = cfg && (!pr || big(pr.args[1])) && primeFact(H, T.terms.prop(cfg, "p").key, T.terms.prop(cfg, "g").key);
          if (isParam(val)) out.push({ param: true, ok: true }); else ob(R.group, ok, v.name, v, cx, `stores as ${v.name} of the chat something that was not part of a tested configuration`, { contextual: true });
          if (cfg) x = { ...x, ["cfg:" + v.name]: cfg.key };
        } else if (EXPO.includes(v.name)) {
          if (val.h === "const") x = { ...x, ["z:" + v.name]: 1 };
          else if (isParam(val)) out.push({ param: true, ok: true });
          else if (v.name !== "a") ownOk(v, val, T, H, cx, v.name);
        } else if (v.name === "rekeyId" || v.name === "toCommitId") {
          if (val.h === "const") { const lt = H.all.some((k) => k.startsWith("+(") && /rekeyId<.*exchange_id\)$/.test(k)); x = { ...x, ["z:" + v.name]: v.name === "rekeyId" && !lt ? 1 : "lt" }; }
          else if (isParam(val)) out.push({ param: true, ok: true });
          else {
            const free = (n) => H.eq(T.terms.prop(st, n), C(0n));
            ob(R.one, free("toCommitId"), v.name + "|toCommit", v, cx, `starts an exchange (${v.name}) although it was not established that none is waiting for its confirmation`, { contextual: true });
            ob(R.one, free("rekeyId") || v.name === "toCommitId" && x["z:rekeyId"] === "lt", v.name + "|rekey", v, cx, `starts an exchange (${v.name}) although an exchange of its own may be in progress and was not given up for one with a greater identifier`, { contextual: true });
            if (v.name === "rekeyId") ob(R.one, val.h === "call" && /#getRandomId$/.test(val.name ?? ""), "rekeyId|fresh", v, cx, "starts an exchange whose identifier is not a fresh random number");
            else ob(R.one, val.h === "prop" && val.n === "exchange_id", "toCommitId|same", v, cx, "remembers an exchange under an identifier that is not the one received");
          }
        } else if (v.name === "encryptedChat") {
          const opened = H.all.some((k) => k.startsWith("+") && (k.includes('is("encryptedChat",' + val.key + ")") || k.includes(val.key + ".__") || k === '+(' + val.key + '._==="encryptedChat")'));
          if (opened) ob(R.open, x.authKey || H.all.some((k) => k.startsWith("-") && /authKey\.length===0\)$/.test(k)) || H.all.some((k) => /^[+]\(0<.*authKey\.length\)$/.test(k)), "open", v, cx, "opens a secret chat that has no key");
        }
      }
      return x === s.x ? undefined : { ...s, x };
    },
    exit(s, kind, cx, T) {
      const x = s.x, v = { ast: f };
      if (x.need !== undefined) ob(R.fail, !x.need, kind, v, cx, "ends after a failed test of the exchange without aborting it or discarding the chat");
      if (kind !== "return") return;
      for (const n of KEYS) {
        if (!x[n]) continue;
        const k = store.get(x[n]), a = store.get(x["id:" + n + "Id"]), b = store.get(x["id:" + n + "Id_"]);
        const ok = x.kind === "commit" && n === "authKey" ? place(a) === "toCommitAuthKeyId" && place(b) === "toCommitAuthKeyId_" : a && b && isNumOf(a, k) && isIdOf(b, k);
        ob(R.id, ok, n, v, cx, `leaves beside ${n} identifiers that are not those of the key it stored`);
      }
      if (x.kind === "commit" && x.authKey) ob(R.commit, x["z:toCommitId"] && x.toCommitAuthKey === "", "once", v, cx, "makes the prepared key the current one and leaves it prepared");
      if (x.used === "pendingExponent") ob(R.key, x["z:pendingExponent"], "once", v, cx, "leaves the exponent of a finished exchange in place");
      if (x.used === "rekeyA") ob(R.key, x["z:rekeyA"] && x["z:rekeyId"], "once", v, cx, "leaves a finished exchange in progress");
      if (x["cfg:prime"] || x["cfg:g"]) ob(R.group, x["cfg:prime"] && x["cfg:prime"] === x["cfg:g"], "both", v, cx, "stores the prime or the generator of a configuration without the other");
    },
  });
  return out;
  function isParam(t) { return t.h === "param"; }
  function keyIn(fp) { const s = fp.args[0]; const h = s.h === "slice" ? s.a[0] : s; return h.h === "sha1" ? h.a[0] : C(0); }
}
function reachesDecrypt(p, g) { return callees(p, g).some((c) => /#ige256Decrypt$/.test(c.name ?? "")); }
