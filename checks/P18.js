"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { allFunctions, fnLabel, callees, enclosing } = require("../lib/util.js");
const { track } = require("../lib/facts.js");
const { C, linear } = require("../lib/terms.js");
const X = require("../lib/crypto.js");
const { evaluate } = require("./P04.js");
const R = {
  kdf: "encryption key and direction",
  current: "the key is the chat's current one",
  layout: "packet and plaintext layout",
  pad: "padding",
  seq: "sequence numbers of the position",
  persist: "numbered and persisted before it is sent",
  serial: "sends of one chat are serialised",
  only: "nothing is sent another way",
};
const SEND = /^messages\.sendEncrypted(File|Service)?$/;
module.exports = {
  technique: "path-sensitive dataflow and typestate over SSA form",
  explanation: "The method that numbers, encrypts and sends a secret chat message is lowered with its helpers inlined. On every path to the cipher the AES key and IV follow the end-to-end derivation for this user's direction (decided by who created the chat) from the key the chat holds at that moment, not one handed in before waiting; the message key is that of the padded plaintext; the plaintext is the length and bytes of the message layer followed by random padding whose length, evaluated for every residue under the conditions of the path, is 12..1024 and aligns to 16; the layer carries twice the position plus the parity of the direction. On every path to a request that sends it, the position was advanced by one, the packet was recorded under its position and the state committed and waited for since. The method is only called between joining the chat's queue (without a suspension between reading and replacing its tail), waiting for its predecessor, and leaving the queue on every exit. Other requests that send take their data from the recorded packets.",
  rules: Object.values(R),
  assumptions: ["sha256, IGE encryption and the random source compute what their names say", "SecretChatState.commit stores the state (P19)"],
  run(ctx) {
    const p = ctx.p;
    const files = p.sourceFiles.filter((f) => /^client\//.test(p.rel(f)) && /SecretChatState/.test(f.text));
    const named = (f) => { let g = f; while (g && (ts.isArrowFunction(g) || ts.isFunctionExpression(g))) g = enclosing(g); return g; };
    const fns = allFunctions(p).filter((f) => files.includes(f.getSourceFile()) && named(f) === f);
    const memo = new Map();
    const reach = (f, what, test) => { const k = what; let m = memo.get(k); if (!m) memo.set(k, m = new Map()); if (m.has(f)) return m.get(f); m.set(f, false); let y = test(f); if (!y) for (const c of callees(p, f)) if (c.fn && c.fn !== f && files.includes(c.fn.getSourceFile()) && reach(named(c.fn), what, test)) { y = true; break; } m.set(f, y); return y; };
    const own = (f, t) => { let y = false; p.walk(f, (n) => { if (t(n)) y = true; }); return y; };
    const enc = (f) => reach(f, "enc", (g) => callees(p, g).some((c) => /#ige256Encrypt$/.test(c.name ?? "")));
    const send = (f) => reach(f, "send", (g) => own(g, (n) => ts.isStringLiteral(n) && SEND.test(n.text)));
    const num = (f) => reach(f, "num", (g) => own(g, (n) => { const t = ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment ? n.left : ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n) ? n.operand : null; return t && ts.isPropertyAccessExpression(t) && t.name.text === "outSeqNo"; }));
    // innermost methods that do all three
    const all = fns.filter((f) => enc(f) && send(f) && num(f));
    const S = all.filter((f) => !callees(p, f).some((c) => c.fn && c.fn !== f && all.includes(named(c.fn)))); ctx.need(S.length, "the method that encrypts and sends secret messages");
    for (const f of S) { sender(ctx, f, files); serialised(ctx, f, fns, all); }
    // everything else that sends
    const inS = new Set(); for (const f of S) { const q = [f]; while (q.length) { const g = q.pop(); if (inS.has(g)) continue; inS.add(g); for (const c of callees(p, g)) if (c.fn && files.includes(c.fn.getSourceFile())) q.push(named(c.fn)); } }
    for (const f of fns) { if (inS.has(f) || !own(f, (n) => ts.isStringLiteral(n) && SEND.test(n.text))) continue; other(ctx, f); }
    for (const [k, n] of [[R.kdf, 2], [R.current, 2], [R.layout, 4], [R.pad, 2], [R.seq, 4], [R.persist, 3], [R.serial, 3], [R.only, 1]]) ctx.floor(k, n);
  },
};
const isCreatorFact = (q) => /admin_id/.test(q) && /getSelfId/.test(q) && /===/.test(q);
const never0 = (f) => (n, g) => g && (/#commit$|\.commit$/.test(n ?? ""));
function sender(ctx, f) {
  const p = ctx.p, lab = fnLabel(p, f);
  const ob = (kind, ok, key, v, cx, msg) => ctx.ob(kind, !!ok, { key: lab + "|" + key, at: p.loc(v?.ast ?? f), message: `${lab} ${msg}`, path: ok ? undefined : describePath(p, cx.path()) });
  const store = new Map(), conds = new Map();
  const twice = (t) => { // 2*x → x
    if (t.h === "bin" && t.n === "*" && t.a.some((y) => y.n === 2)) return t.a.find((y) => y.n !== 2);
    const l = linear(t); if (l.m.size === 1 && !Number(l.c ?? 0)) { const [v] = l.m.values(); if (v.k === 2) return v.t; }
    return null;
  };
  const position = (t) => { const l = linear(t); const c = Number(l.c ?? 0); if (l.m.size !== 1) return null; const [v] = l.m.values(); const x = v.k === 2 ? v.t : v.k === 1 ? twice(v.t) : null; return x && x.h === "prop" ? { field: x.n, c, t: x } : null; };
  let ciphers = 0, sends = 0;
  track(ctx, f, {
    policy: { never: never0(f) }, maxStates: 8000,
    keep: (k) => isCreatorFact(k),
    edge(s, t, truth, cx, T) {
      let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; }
      if (q.h === "bin" && /^[<]$|^===$/.test(q.n) && /Layer|length/.test(q.key)) { conds.set(q.key, q); return { ...s, x: { ...s.x, c: [...(s.x.c ?? []).filter((y) => y[0] !== q.key), [q.key, tr ? 1 : 0]] } }; }
    },
    inst(s, v, cx, T, H) {
      let x = X.trackWriter(s.x, v, { term: (q) => T(q) }, store);
      const creator = H.all.some((q) => q.startsWith("+") && isCreatorFact(q)), other = H.all.some((q) => q.startsWith("-") && isCreatorFact(q));
      if (v.op === "SetProp" && v.name === "outSeqNo") {
        const l = linear(T(v.args[1])), m = [...l.m.values()];
        ob(R.seq, Number(l.c) === 1 && m.length === 1 && m[0].k === 1 && m[0].t.h === "prop" && m[0].t.n === "outSeqNo", "advance", v, cx, "changes the position of its own messages by something other than one");
        ob(R.seq, !x.adv, "once", v, cx, "advances the position of its own messages twice for one message");
        x = { ...x, adv: 1, clean: 0 };
      }
      if (v.op === "Object") {
        const t = T(v), fld = (n) => t.props?.find((q) => q.key === n)?.t, kind = fld("_")?.n;
        if (kind === "decryptedMessageLayer") {
          const o = position(fld("out_seq_no") ?? C(0)), i = position(fld("in_seq_no") ?? C(0));
          ob(R.seq, o && o.field === "outSeqNo" && (creator ? o.c === 1 : other && o.c === 0), "out_seq_no", v, cx, "numbers a message with something other than twice its position plus the parity of its direction");
          ob(R.seq, i && i.field === "inSeqNo" && (creator ? i.c === 0 : other && i.c === 1), "in_seq_no", v, cx, "acknowledges something other than twice the position expected from the peer plus the parity of the peer's direction");
          const rb = fld("random_bytes"); ob(R.seq, rb?.h === "rand" && rb.a[0]?.n >= 15, "random_bytes", v, cx, "does not give the message at least 15 random bytes");
          store.set(t.key, t); x = { ...x, layer: t.key, out: o?.t.key };
        }
        if (typeof kind === "string" && SEND.test(kind)) {
          sends++;
          const d = fld("data"); const id = d?.h === "prop" && d.n === "buffer" ? X.allocId(d.a[0]) : undefined;
          const w = id !== undefined ? (x.w?.[id] ?? []).map((y) => y.split("|")) : d?.h === "cat" ? d.a.map((y) => ["write", y.key]) : [];
          const c = w[2] && x.ciph?.[w[2][1]];
          ob(R.layout, w.length === 3 && c && w[1][1] === c.m && w[0][0] === "write", kind + "|layout", v, cx, "sends something other than the key identifier, the message key and the ciphertext, in this order");
          if (c) ob(R.current, w[0][1] === c.A.replace(/\.authKey$/, ".authKeyId_") , kind + "|identifier", v, cx, "sends the identifier of another key than the one used");
          ob(R.persist, x.adv, kind + "|numbered", v, cx, "sends a message without having advanced the position");
          ob(R.persist, x.rec === d?.key, kind + "|recorded", v, cx, "sends a packet that was not recorded under its position");
          ob(R.persist, x.clean, kind + "|committed", v, cx, "sends a message before the state that counts it was committed");
        }
      }
      if (v.op === "Call" && /\.set$/.test(v.name ?? "") && v.recv && /outgoingMessages$/.test(T(v.recv).key)) {
        const [k, o] = v.callArgs.map(T); const d = o?.props?.find((q) => q.key === "data")?.t;
        const raw = k.h === "bin" && k.n === "/" && k.a[1].n === 2 ? twice(k.a[0]) : k;
        ob(R.persist, raw && raw.key === x.out, "place", v, cx, "records a packet under something other than its position");
        if (d) store.set(d.key, d); x = { ...x, rec: d?.key, clean: 0 };
      }
      if (v.op === "Await") { const c = resolve(v.args[0]); if (c.op === "Call" && /SecretChatState\.commit$/.test(c.name ?? "")) x = { ...x, clean: x.rec && x.adv ? 1 : 0 }; }
      if (v.op === "Call" && /#ige256Encrypt$/.test(v.name ?? "")) {
        ciphers++;
        const [P, key, iv] = v.callArgs.map(T);
        const k0 = X.matchKdf(key, iv, 0), k8 = k0 ? null : X.matchKdf(key, iv, 8), k = k0 ?? k8;
        ob(R.kdf, k, "kdf", v, cx, "derives an AES key and IV that are not those of the end-to-end scheme");
        if (k) {
          ob(R.kdf, k0 ? creator : other, "direction", v, cx, `derives the key for the direction of the peer's messages (offset ${k0 ? 0 : 8}) or without asking who created the chat`);
          ob(R.kdf, X.messageKey(k.A, P, k0 ? 0 : 8).key === k.m.key, "message key", v, cx, "uses a message key that is not that of the padded plaintext");
          ob(R.current, k.A.h === "prop" && k.A.n === "authKey" && k.A.a[0].h !== "param", "current", v, cx, "encrypts with a key other than the one the chat holds at that moment (one handed in before waiting may have been replaced and erased)");
          plain(P, x, v, cx, T);
          x = { ...x, ciph: { ...(x.ciph ?? {}), [T(v).key]: { A: k.A.key, m: k.m.key } } };
        }
      }
      return x === s.x ? undefined : { ...s, x };
    },
  });
  ctx.ob(R.kdf, ciphers > 0, { key: lab + "|none", at: p.loc(f), message: `${lab} encrypts nothing` });
  ctx.ob(R.persist, sends > 0, { key: lab + "|none", at: p.loc(f), message: `${lab} sends nothing` });
  function plain(P, x, v, cx) {
    const id = P.h === "prop" && P.n === "buffer" ? X.allocId(P.a[0]) : undefined;
    const e = (x.w?.[id] ?? []).map((y) => y.split("|"));
    const ser = e[1] && store.get(e[1][1]);
    const okSer = ser && ser.h === "call" && /serializeObject$/.test(ser.name ?? "") && ser.args[0].key === x.layer;
    const okLen = e[0] && e[0][0] === "writeInt32" && ser && e[0][1] === ser.key + ".length";
    ob(R.layout, e.length === 3 && okSer && okLen && e[1][0] === "write", "plaintext", v, cx, "encrypts something other than the length of the message layer, the layer and padding");
    const pt = e[2] && store.get(e[2][1]);
    ob(R.pad, pt && pt.h === "rand" && e[2][0] === "write", "random", v, cx, "pads with something other than bytes from the secure random source");
    if (!pt || !ser) return;
    const L = ser.key + ".length", len = pt.a[0]; let bad, some = 0;
    for (let n = 0; n < 256 && bad === undefined; n++) {
      let on = true; for (const [k, tr] of x.c ?? []) { const y = evaluateCond(conds.get(k), L, n); if (y !== undefined && !!y !== !!tr) on = false; }
      if (!on) continue; some++;
      const a = evaluate(len, L, n); if (a === undefined) { bad = "?"; break; }
      if (a < 12 || a > 1024 || (4 + n + a) % 16) bad = n;
    }
    ob(R.pad, bad === undefined, "length", v, cx, bad === "?" ? "pads with a length that is not a function of the length of the message" : `pads a message of ${bad} bytes with a number of bytes outside 12..1024 or not aligned to 16`);
  }
}
function evaluateCond(t, L, n) { const a = evaluate(t.a[0], L, n), b = evaluate(t.a[1], L, n); if (a === undefined || b === undefined) return undefined; return t.n === "<" ? a < b : a === b; }
/** calls of f lie between joining the queue of the chat and leaving it */
function serialised(ctx, f, fns, all) {
  const p = ctx.p;
  const isQueue = (g) => { let y = false; p.walk(g, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) { const t = tails(p, n); if (t && n.expression.name.text === "set") y = true; if (/Mutex\.lock$|\.lock$/.test(p.resolveCallee(n).name ?? "")) y = true; } }); return y; };
  const tops = new Set(), seen = new Set(); let cur = [f];
  while (cur.length) {
    const g = cur.pop(); if (seen.has(g)) continue; seen.add(g);
    if (isQueue(g)) { tops.add(g); continue; }
    const us = fns.filter((h) => h !== g && callees(p, h).some((c) => c.fn === g));
    if (!us.length) ctx.ob(R.serial, false, { key: fnLabel(p, g), at: p.loc(g), message: `${fnLabel(p, g)} reaches the numbering of secret chat messages without joining the queue of the chat` });
    cur.push(...us);
  }
  for (const g of tops) queue(ctx, g, f, all);
}
/** the map of promises of a call this.<map>.get/set/delete(…) */
function tails(p, n) {
  const e = n.expression.expression; let t; try { t = p.checker.getTypeAtLocation(e); } catch { return null; }
  if (t?.symbol?.name !== "Map") return null; const a = p.checker.getTypeArguments(t); return a?.[1] && /^Promise/.test(a[1].symbol?.name ?? "") ? e : null;
}
function queue(ctx, g, f, all) {
  const p = ctx.p, lab = fnLabel(p, g);
  const ob = (ok, key, v, cx, msg) => ctx.ob(R.serial, !!ok, { key: lab + "|" + key, at: p.loc(v?.ast ?? g), message: `${lab} ${msg}`, path: ok ? undefined : describePath(p, cx.path()) });
  let calls = 0; const store = new Map();
  const mapOf = (v) => v.recv && v.ast && ts.isCallExpression(v.ast) && ts.isPropertyAccessExpression(v.ast.expression) && tails(p, v.ast);
  track(ctx, g, {
    policy: { never: (n, h) => h === f || h && h !== g && all.includes(h) && !reachThrough(h) }, atThrow: true, maxStates: 4000,
    keep: (k) => /===/.test(k),
    inst(s, v, cx, T, H) {
      let x = s.x;
      if (v.op === "Call" && mapOf(v)) {
        if (v.method === "get" && !x.set) x = { ...x, prev: T(v).key, key: T(v.callArgs[0]).key, atomic: 1, waited: 0 };
        if (v.method === "set") {
          const val = T(v.callArgs[1]); store.set(val.key, val);
          ob(x.prev && x.atomic && x.key === T(v.callArgs[0]).key, "join", v, cx, "replaces the tail of a chat's queue that was read before a suspension, or under another key");
          const chain = val.h === "call" && /\.(then|finally)$/.test(val.name ?? "") || val.h === "prop" && val.n === "promise" || val.h === "val";
          ob(chain, "tail", v, cx, "puts into the queue something that is not a promise for its own end");
          x = { ...x, set: 1, tail: val.key };
        }
        if (v.method === "delete") ob(H.all.some((k) => k.startsWith("+(") && k.includes(x.tail) && /\.get\(/.test(k)), "leave", v, cx, "removes the tail of the queue although it may belong to a later message");
      }
      if (v.op === "Call" && /Mutex\.lock$|#\w*\.lock$/.test(v.name ?? "")) x = { ...x, set: 1, waited: 1, mutex: 1 };
      if (v.op === "Await" && !v.inlined) {
        const t = T(v.args[0]);
        if (x.prev && (t.key === x.prev || t.h === "call" && t.key.includes(x.prev) || isNone(t) && t.h === "call")) x = { ...x, waited: 1 };
        if (!x.set) x = { ...x, atomic: 0 };
      }
      if (v.op === "Call" && v.targetFn === f) { calls++; ob(x.set && x.waited && !x.rel, "before", v, cx, "numbers and sends a message without having waited for the ones before it in the queue"); x = { ...x, ran: 1 }; }
      if (v.op === "Call" && !v.targetFn && isResolve(v)) { ob(x.ran || x.fail, "early", v, cx, "lets the next message go ahead before this one was sent"); x = { ...x, rel: 1 }; }
      return x === s.x ? undefined : { ...s, x };
    },
    onThrow(s, v) { if (v.op === "Await" && !s.x.ran) return { ...s, x: { ...s.x, fail: 1 } }; },
    exit(s, kind, cx) { if (s.x.set && !s.x.mutex && (s.x.ran || kind === "return")) ob(s.x.rel, kind, null, cx, `${kind === "throw" ? "fails" : "ends"} without letting the next message of the chat go ahead`); },
  });
  ctx.ob(R.serial, calls > 0, { key: lab + "|none", at: p.loc(g), message: `${lab} joins the queue and sends nothing` });
  function isNone(t) { return /Promise\.resolve|PromiseConstructor\.resolve/.test(t.name ?? ""); }
  function reachThrough() { return true; }
  function isResolve(v) { const n = v.ast && ts.isCallExpression(v.ast) ? v.ast.expression : null; if (!n) return false; if (ts.isIdentifier(n)) { const d = p.symbolOf(n)?.valueDeclaration; return !!d && ts.isBindingElement(d) && (d.propertyName ?? d.name).getText() === "resolve"; } return ts.isPropertyAccessExpression(n) && n.name.text === "resolve" && /WithResolvers/.test(p.checker.typeToString(p.checker.getTypeAtLocation(n.expression))); }
}
/** requests that send outside: only packets recorded before */
function other(ctx, f) {
  const p = ctx.p, lab = fnLabel(p, f);
  track(ctx, f, {
    policy: { never: (n, g) => g && !(ts.isArrowFunction(g) || ts.isFunctionExpression(g)) }, keep: () => false,
    inst(s, v, cx, T) {
      if (v.op !== "Object") return;
      const t = T(v), fld = (n) => t.props?.find((q) => q.key === n)?.t;
      if (!SEND.test(String(fld("_")?.n ?? ""))) return;
      const d = fld("data");
      ctx.ob(R.only, d && /outgoingMessages/.test(d.key) && d.h === "prop" && d.n === "data", { key: lab + "|" + fld("_").n, at: p.loc(v.ast), message: `${lab} sends data to a secret chat that was not recorded by the method that numbers and encrypts messages` });
    },
  });
}
