"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { fnLabel } = require("../lib/util.js");
const { settleableType, model, follow, registered } = require("../lib/pending.js");

module.exports = {
  technique: "typestate dataflow on pending records and collections over SSA control-flow graphs with exception edges",
  explanation: "Records that carry a promise to be settled are found by type, and so are the collections that hold them. Every method of the session and of the encrypted client that takes such a record out of its collection, receives one, or empties a collection is followed along every normal and exceptional path: a record that leaves its collection must be resolved, rejected or handed on before the function ends, a settled record must leave its collection, and a collection may be emptied only after each of its elements was settled. An identifier removed from the set of sent messages must be handed to the handler that knows its request. On top of that, the send entry points finish only with the promise of the record they queued, rejections by the server lead to a resend or a new session, disconnecting and invalidating sweep everything that is pending, and every handler of the session is wired to a method that settles.",
  rules: ["record taken out is settled", "settled record is forgotten", "collection emptied only after settling its elements", "removed identifier is handed on", "queued request is awaited", "connected when queued", "send loop woken", "registration can be undone", "failed send undoes its registration", "sent message is recorded", "container remembers its messages", "every registry consulted before a failure is handed on", "rejection leads to resend or new session", "new session resends, other failures reject", "sweep on disconnect", "handler settles", "protocol message dispatched", "request counts as sent only when sent"],
  assumptions: ["an answer is processed only after the write that carried its request completed", "logging, drawing an identifier and constructing an error do not throw, and the client's handlers fail only through their promise", "collections are not modified by other parties while one of these functions runs without suspending"],
  run(ctx) {
    const p = ctx.p;
    const S = ctx.need(p.findClass("SessionEncrypted")[0], "class SessionEncrypted"), K = ctx.need(p.findClass("ClientEncrypted")[0], "class ClientEncrypted");
    const M = model(p, [S, K]);
    ctx.need(M.colls.size >= 3 && M, "collections of pending records");
    for (const cls of [S, K]) for (const m of cls.members) if ((ts.isMethodDeclaration(m) || ts.isConstructorDeclaration(m)) && m.body) ownership(ctx, M, m);
    failMethod(ctx, M, S);
    senders(ctx, M, [S, K]);
    sweeps(ctx, M, S, K);
    rejections(ctx, M, S);
    wiring(ctx, M, S, K);
    ctx.floor("record taken out is settled", 6); ctx.floor("settled record is forgotten", 2); ctx.floor("collection emptied only after settling its elements", 4); ctx.floor("removed identifier is handed on", 3);
    ctx.floor("queued request is awaited", 3); ctx.floor("registration can be undone", 3); ctx.floor("rejection leads to resend or new session", 2); ctx.floor("sweep on disconnect", 6); ctx.floor("handler settles", 4); ctx.floor("protocol message dispatched", 4); ctx.floor("request counts as sent only when sent", 1); ctx.floor("sent message is recorded", 1); ctx.floor("container remembers its messages", 1);
  },
};

function ownership(ctx, M, m) {
  const p = M.p, label = fnLabel(p, m);
  if (m === M.fail) return;
  let relevant = false; const names = new Set([...M.colls.keys(), ...M.idSets]);
  p.walk(m, (n) => { if (ts.isPropertyAccessExpression(n) && names.has(n.name.text)) relevant = true; });
  if (m.parameters.some((q) => settleableType(p, p.checker.getTypeAtLocation(q)))) relevant = true;
  if (!relevant || ts.isConstructorDeclaration(m)) return;
  const own = M.takers.has(m), inner = !own && onlyCalled(p, m);
  const r = follow(ctx, M, m, {
    judgeSweep: true,
    inst(s, v, cx, X, T) {
      if (v.op === "Return" && v.args[0]) { const k = T(v.args[0]).key; if (s.got[k]) return { ...s, flags: { ...s.flags, ret: k } }; }
      // registration callback of a queued record
      if (v.op === "Call" && v.recv && s.got[T(v.recv).key] && v.fnValue === undefined && v.method && settleableType(p, p.checker.getTypeAtLocation(v.ast.expression.expression ?? v.ast)) && v.callArgs?.length === 1 && v.method !== "resolve" && v.method !== "reject") return { ...s, flags: { ...s.flags, reg: [T(v).key, T(v.callArgs[0]).key, v.id] } };
      if (v.op === "Call" && v.fnValue && s.flags.undo && T(v.fnValue).key === s.flags.undo) return { ...s, flags: { ...s.flags, undone: 1 } };
      if (v.op === "Call" && v.method === "add" && v.recv && M.idSets.has(T(v.recv).key.replace("this.", ""))) return { ...s, flags: { ...s.flags, added: T(v.callArgs[0]).key } };
      if (v.op === "Object") { const q = v.props?.find((x) => x.key === "body"), b = q && T(q.value); if (b?.h === "obj" && b.props?.some((x) => x.key === "messages")) { const id = v.props.find((x) => x.key === "msg_id"); return { ...s, flags: { ...s.flags, cont: id ? T(id.value).key : "?" } }; } }
      if (v.op === "Call" && v.method === "set" && v.recv && v.callArgs?.length === 2) { const F = T(v.recv).key.replace("this.", ""); if (M.registries.has(F)) return { ...s, flags: { ...s.flags, sets: [...(s.flags.sets ?? []).filter((x) => x[0] !== F), [F, T(v.callArgs[0]).key]] } }; }
    },
    afterInvoke(s, v) { if (s.flags.reg && v.id === s.flags.reg[2]) { const { reg, ...fl } = s.flags; return { ...s, flags: { ...fl, undo: reg[0], id: reg[1] } }; } },
  });
  for (let { s, kind, path } of r.exits) {
    const how = kind === "throw" ? "fails" : "returns";
    // a private helper may hand the record it took to its callers, which are judged with it inlined
    if (kind === "return" && s.flags.ret && ts.isPrivateIdentifier(m.name)) { s = { ...s, st: { ...s.st } }; for (const rec of Object.keys(s.got)) if (rec === s.flags.ret) s.st[rec] ??= "returned"; }
    // records that were taken out of a collection
    for (const [rec, where] of Object.entries(s.got)) {
      if (s.nil[rec]) continue;
      const removed = s.rm[where], st = s.st[rec];
      if (removed) ctx.ob("record taken out is settled", !!st, { key: label + "|" + where.split("|")[0], at: p.loc(m), message: `${label} takes a record out of ${where.split("|")[0]} and ${how} without settling it or handing it on`, path });
      if (st && !s.swept[where.split("|")[0]] && M.colls.get(where.split("|")[0]) === "map") ctx.ob("settled record is forgotten", !!removed, { key: label + "|" + where.split("|")[0], at: p.loc(m), message: `${label} settles a record and leaves it in ${where.split("|")[0]}`, path });
    }
    // deletions of records nobody looked at
    for (const w of Object.keys(s.rm)) if (!Object.values(s.got).includes(w) && !(inner && /\|\$\d+$/.test(w))) ctx.ob("record taken out is settled", false, { key: label + "|" + w.split("|")[0] + "|unseen", at: p.loc(m), message: `${label} removes a record from ${w.split("|")[0]} without settling it`, path });
    if (own) for (const q of r.params) ctx.ob("record taken out is settled", !!s.st[q], { key: label + "|" + q, at: p.loc(m), message: `${label} ${how} without settling the record it was given, or registering it again`, path });
    // identifiers taken out of the set of sent messages
    for (const [id, at] of Object.entries(s.ids)) {
      const base = id.replace(/\.msg_id$/, "");
      const viaRec = Object.entries(s.got).some(([rec, w]) => w.endsWith("|" + id) && s.st[rec]);
      ctx.ob("removed identifier is handed on", !!s.hand[id] || !!s.hand[base] || viaRec || noHandler(s), { key: label, at, message: `${label} forgets a sent message and ${how} without handing the outcome to the handler that knows its request`, path });
    }
    // a queued message that was taken by the send loop
    if (s.flags.undo) {
      const st = Object.entries(s.got).map(([rec]) => s.st[rec]).find(Boolean);
      if (st === "reject") ctx.ob("failed send undoes its registration", !!s.flags.undone, { key: label, at: p.loc(m), message: `${label} rejects a message and leaves its registration in place`, path });
      if (st === "resolve") {
        ctx.ob("sent message is recorded", s.flags.added === s.flags.id && !s.flags.undone, { key: label, at: p.loc(m), message: `${label} reports a message as sent without recording the identifier it was registered under`, path });
        if (s.flags.cont) ctx.ob("container remembers its messages", !!s.flags.sets?.some(([F, k]) => k === s.flags.cont && M.colls.get(F) === undefined), { key: label, at: p.loc(m), message: `${label} sends a container without remembering which messages it carries`, path });
      }
    }
  }
}
/** a private helper that is only ever called, never handed out: what it does to its arguments is judged at its callers, with it inlined */
function onlyCalled(p, m) {
  if (!ts.isPrivateIdentifier(m.name)) return false;
  let calls = 0, other = 0;
  p.walk(m.parent, (n) => { if (ts.isPrivateIdentifier(n) && n !== m.name && n.text === m.name.text) ts.isPropertyAccessExpression(n.parent) && ts.isCallExpression(n.parent.parent) && n.parent.parent.expression === n.parent ? calls++ : other++; });
  return calls > 0 && !other;
}
const noHandler = (s) => s.nohandler === true;

/** the function a failed message is reported to: every registry is consulted, and the failure reaches whoever waits */
function failMethod(ctx, M, S) {
  const p = M.p, m = ctx.need(M.fail, "the method that reports a failed message");
  // everything messages are registered in when they are sent
  const regs = new Set();
  for (const f of S.members) if (f.body || f.initializer) p.walk(f, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "set" && ts.isPropertyAccessExpression(n.expression.expression) && M.registries.has(n.expression.expression.name.text)) regs.add(n.expression.expression.name.text); });
  const label = fnLabel(p, m);
  const r = follow(ctx, M, m, {
    judgeSweep: true, anyLoop: true,
    inst(s, v, cx, X, T) {
      if (v.op === "Call" && v.method === "get" && v.recv) { const F = T(v.recv).key.replace("this.", ""); if (regs.has(F) && T(v.callArgs[0]).key === "$0") return { ...s, look: { ...(s.look ?? {}), [T(v).key]: F } }; }
      if (v.op === "Call" && v.targetFn === m) { const q = T(v.callArgs[0]).key; return { ...s, st: { ...s.st, [q]: T(v.callArgs[1])?.key === "$1" ? "failed" : undefined } }; }
      if (v.op === "Call" && v.recv && T(v.recv).key === "this.handlers") {
        const absent = Object.values(s.gone ?? {}); const missing = [...regs].filter((F) => !absent.includes(F));
        ctx.ob("every registry consulted before a failure is handed on", !missing.length, { key: label + "|" + missing, at: p.loc(v.ast), message: `${label} treats the message as a request without having looked for it in ${missing.join(", ")}`, path: describePath(p, cx.path()) });
        ctx.ob("every registry consulted before a failure is handed on", (v.callArgs ?? []).length === 2 && T(v.callArgs[0]).key === "$0" && T(v.callArgs[1]).key === "$1", { key: label + "|arguments", at: p.loc(v.ast), message: `${label} does not hand on the identifier and the reason` });
        return { ...s, done: 1 };
      }
    },
    edge(s, k, tr, X) {
      const nil = k.h === "isnull" ? [k.a[0].key, tr] : k.h === "bin" && k.n === "===" && k.a[1].h === "const" && k.a[1].n == null ? [k.a[0].key, tr] : [k.key, !tr];
      if (s.look?.[nil[0]]) return nil[1] ? { ...s, gone: { ...(s.gone ?? {}), [nil[0]]: s.look[nil[0]] } } : { ...s, found: s.look[nil[0]] };
      if (k.h === "isnull" && tr && /^this\.handlers\.onMessageFailed$/.test(k.a[0].key)) return { ...s, done: 1, nohandler: true };
    },
  });
  for (const { s, kind, path } of r.exits) {
    if (kind === "throw") continue;
    const settled = Object.keys(s.look ?? {}).some((k) => s.st[k]) || Object.keys(s.look ?? {}).some((k) => s.swept[k]);
    ctx.ob("record taken out is settled", !!s.done || settled, { key: label, at: p.loc(m), message: `${label} ends without reporting the failure of the message (found in ${s.found ?? "no registry"})`, path });
    for (const Z of M.idSets) ctx.ob("settled record is forgotten", Object.keys(s.ids).includes("$0"), { key: label + "|" + Z, at: p.loc(m), message: `${label} leaves the failed message among the sent ones`, path });
    for (const [rec, where] of Object.entries(s.got)) if (!s.nil[rec] && s.st[rec]) ctx.ob("settled record is forgotten", !!s.rm[where], { key: label + "|" + where.split("|")[0], at: p.loc(m), message: `${label} settles a record and leaves it in ${where.split("|")[0]}`, path });
    for (const [rec, where] of Object.entries(s.got)) if (!s.nil[rec] && s.rm[where]) ctx.ob("record taken out is settled", !!s.st[rec], { key: label + "|" + where.split("|")[0], at: p.loc(m), message: `${label} takes a record out of ${where.split("|")[0]} without settling it`, path });
  }
}

/** functions that create a record, queue it and wait for it */
function senders(ctx, M, classes) {
  const p = M.p;
  for (const cls of classes) for (const m of cls.members) {
    if (!ts.isMethodDeclaration(m) || !m.body) continue;
    let creates = false; p.walk(m, (n) => { if (ts.isCallExpression(n) && /withResolvers$/.test(n.expression.getText())) creates = true; });
    const label = fnLabel(p, m);
    // registration callbacks
    p.walk(m, (n) => {
      if (!ts.isCallExpression(n)) return; const t = p.resolveCallee(n).fn; if (!t || !M.senders.has(t)) return;
      for (const a of n.arguments) if (ts.isArrowFunction(a) || ts.isFunctionExpression(a)) {
        const regs = registered(p, a).filter(([F]) => M.colls.has(F)); const key = a.parameters[0];
        const okSet = regs.length === 1 && p.symbolOf(regs[0][2].arguments[0])?.valueDeclaration === key;
        let okUndo = false;
        p.walk(a, (x) => { if (x !== a && ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && x.expression.name.text === "delete" && regs[0] && x.expression.expression.name?.text === regs[0][0] && p.symbolOf(x.arguments[0])?.valueDeclaration === key) { let q = x; while (q && q !== a && !ts.isFunctionLike(q)) q = q.parent; if (q !== a) okUndo = true; } });
        ctx.ob("registration can be undone", okSet && okUndo, { key: label, at: p.loc(a), message: !okSet ? `${label} does not register its record under the identifier of the message` : `${label}: undoing the registration does not remove what was registered` });
      }
    });
    if (!creates) { if (M.senders.has(m)) passThrough(ctx, M, m, classes); continue; }
    let queued = 0;
    follow(ctx, M, m, {
      inst(s, v, cx, X, T) {
        if (v.op === "Call" && v.method === "push" && v.recv && M.colls.has(T(v.recv).key.replace("this.", ""))) {
          queued++;
          const rec = T(v.callArgs[0]); const c = rec.props?.find((q) => q.key === "promiseWithResolvers")?.t;
          ctx.ob("connected when queued", s.flags.conn === true, { key: label, at: p.loc(v.ast), message: `${label} queues a message without knowing, since it last waited, that the connection is open`, path: describePath(p, cx.path()) });
          return { ...s, flags: { ...s.flags, rec: c?.key ?? rec.key + ".promiseWithResolvers", push: 1 } };
        }
        if (v.op === "Call" && v.fnValue && /wake|awake/i.test(T(v.fnValue).key) || v.op === "Call" && /wake/i.test(v.method ?? "")) return { ...s, flags: { ...s.flags, woke: s.flags.push ? 1 : 0 } };
        if (v.op === "Call" && v.targetFn && M.senders.has(v.targetFn)) { queued++; const c = (v.callArgs ?? []).map(resolve).find((x) => x.op === "Closure"); const r = c && registered(p, c.fn)[0]; return { ...s, flags: { ...s.flags, via: 1, reg: r ? 1 : 0, decl: 1 } }; }
        if (v.op === "Await" && s.flags.push) { const t = T(v.args[0]).key; if (t.endsWith(".promise")) { ctx.ob("send loop woken", !!s.flags.woke, { key: label, at: p.loc(v.ast), message: `${label} waits for a message it queued without waking the send loop` }); } }
      },
      edge(s, k, tr) { if (k.key === "this.isConnected") s = { ...s, flags: { ...s.flags, conn: tr } }; if (k.h === "isnull" && tr && /wake/i.test(k.a[0].key)) return { ...s, flags: { ...s.flags, woke: 1 } }; if (!tr && /^this\.#?\w*wake/i.test(k.key)) return { ...s, flags: { ...s.flags, woke: 1 } }; return s; },
      afterInvoke(s, v, cx, X) { if (v.op === "Await" && !v.inlined && s.flags.conn) s = { ...s, flags: { ...s.flags, conn: undefined } }; if (v.op === "Await" || v.op === "Call") { const t = v.op === "Await" ? X.pt.expand(cx.term(v.args[0]), s) : null; if (t && t.key.endsWith(".promise") && /withResolvers/.test(t.key)) return { ...s, flags: { ...s.flags, waited: t.key.slice(0, -8) } }; } return s; },
      exit(s, kind, cx, X) {
        if (kind !== "return") return;
        const ok = !!s.flags.waited && (!s.flags.rec || s.flags.rec === s.flags.waited) && (s.flags.push || s.flags.via);
        ctx.ob("queued request is awaited", !!ok, { key: label, at: p.loc(m), message: `${label} completes without waiting for the outcome of the message it queued`, path: describePath(p, cx.path()) });
        if (s.flags.via) ctx.ob("request counts as sent only when sent", !!s.flags.sent, { key: label, at: p.loc(m), message: `${label} waits for an answer to a message that was not sent`, path: describePath(p, cx.path()) });
      },
    });
    if (!queued) ctx.violate({ rule: "queued request is awaited", key: label, at: p.loc(m), message: `${label} creates a record and never queues it` });
  }
}
/** a function that passes its registration callback on ends normally only when the message was sent */
function passThrough(ctx, M, m, classes) {
  const p = M.p, label = fnLabel(p, m);
  follow(ctx, M, m, {
    exit(s, kind, cx) { if (kind === "return") ctx.ob("request counts as sent only when sent", !!s.flags.sent, { key: label, at: p.loc(m), message: `${label} can end without an error although nothing was sent: its caller waits for an answer for ever`, path: describePath(p, cx.path()) }); },
  });
  let passes = false; const cb = m.parameters.find((q) => p.checker.getTypeAtLocation(q).getCallSignatures().length);
  p.walk(m, (n) => { if (ts.isCallExpression(n) && M.senders.has(p.resolveCallee(n).fn) && n.arguments.some((a) => p.symbolOf(a)?.valueDeclaration === cb)) passes = true; });
  ctx.ob("request counts as sent only when sent", passes, { key: label + "|callback", at: p.loc(m), message: `${label} does not pass its registration callback on` });
}

/** disconnecting, reconnecting and starting a new session sweep everything that is pending */
function sweeps(ctx, M, S, K) {
  const p = M.p;
  const need = (cls) => cls.members.filter((f) => ts.isPropertyDeclaration(f) && (M.colls.has(f.name.text) || M.idSets.has(f.name.text))).map((f) => f.name.text);
  const judge = (cls, name, when) => {
    const m = cls.members.find((x) => ts.isMethodDeclaration(x) && x.name.text === name && x.body); if (!m) return ctx.need(null, `${cls.name.text}.${name}`);
    const label = fnLabel(p, m);
    follow(ctx, M, m, {
      edge(s, k, tr) { if (/^this\.#?is[A-Z]\w*$/.test(k.key)) return { ...s, flags: { ...s.flags, [k.key]: tr } }; },
      inst(s, v, cx, X, T) { if (v.op === "SetProp" && resolve(v.args[0]).op === "This" && T(v.args[1]).h === "const" && typeof T(v.args[1]).n === "boolean") return { ...s, flags: { ...s.flags, ["this." + v.name]: T(v.args[1]).n } }; if (when.at && v.op === "Call" && when.at(v) && !s.flags.judged) { judgeAt(s, cx, label, m, cls, "before connecting"); return { ...s, flags: { ...s.flags, judged: 1 } }; } },
      exit(s, kind, cx) { if (!when.at && when.kinds.includes(kind)) judgeAt(s, cx, label, m, cls, kind === "throw" ? "when it fails" : "when it is done"); },
    });
    function judgeAt(s, cx, label, m, cls, what) {
      if (when.skip?.(s.flags)) return;
      for (const F of need(cls)) ctx.ob("sweep on disconnect", !!s.swept[F], { key: label + "|" + F, at: p.loc(m), message: `${label}: what is in ${F} is not settled ${what}`, path: describePath(p, cx.path()) });
    }
  };
  const inv = S.members.find((m) => ts.isPropertyDeclaration(m) && /invalidat/i.test(m.name.text))?.name.text;
  judge(K, "disconnect", { kinds: ["return"] });
  judge(S, "disconnect", { kinds: ["return"], skip: (f) => f["this." + inv] === true });
  judge(S, "connect", { at: (v) => /#Session\.connect$/.test(v.name ?? "") || v.method === "connect", skip: (f) => f["this." + inv] === true || f["this.isConnected"] === true });
  const im = S.members.find((m) => ts.isMethodDeclaration(m) && m.body && sets(p, m, inv, true));
  if (!im) ctx.need(null, "the method that starts a new session");
  else {
    judge(S, im.name.text, { kinds: ["return", "throw"] });
    follow(ctx, M, im, {
      inst(s, v, cx, X, T) { if (v.op === "SetProp" && v.name === inv) return { ...s, flags: { ...s.flags, inv: T(v.args[1]).n } }; },
      exit(s, kind, cx) { ctx.ob("sweep on disconnect", s.flags.inv === false, { key: fnLabel(p, im) + "|flag", at: p.loc(im), message: `${fnLabel(p, im)} stays marked as in progress: later disconnects would leave everything pending`, path: describePath(p, cx.path()) }); },
    });
  }
}
function sets(p, m, f, val) { let y = false; p.walk(m, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.name.text === f && n.right.kind === (val ? ts.SyntaxKind.TrueKeyword : ts.SyntaxKind.FalseKeyword)) y = true; }); return y; }

/** server notices that reject a message */
function rejections(ctx, M, S) {
  const p = M.p;
  const paramKind = (m) => m.parameters.findIndex((q) => /bad_msg_notification|bad_server_salt/.test(q.type?.getText() ?? ""));
  const inv = S.members.find((m) => ts.isMethodDeclaration(m) && m.body && /invalidat/i.test(m.name.text));
  for (const m of S.members) {
    if (!ts.isMethodDeclaration(m) || !m.body) continue; const i = paramKind(m); if (i < 0) continue;
    const label = fnLabel(p, m), salt = /bad_server_salt/.test(m.parameters[i].type.getText());
    follow(ctx, M, m, {
      never: inv ? [inv] : [],
      inst(s, v, cx, X, T) {
        if (v.op === "Call" && v.targetFn && v.targetFn === M.fail) {
          const a = (v.callArgs ?? []).map(T); const ok = a[0]?.key === "$" + i + ".bad_msg_id" && a[1]?.h === "new" && /SessionError$/.test(a[1].n ?? "");
          ctx.ob("rejection leads to resend or new session", ok, { key: label + "|arguments", at: p.loc(v.ast), message: `${label} must fail the rejected message itself, for a reason that makes it be sent again (found ${a.map((x) => x.key).join(", ").slice(0, 120)})` });
          if (salt) ctx.ob("rejection leads to resend or new session", !!s.flags.salt, { key: label + "|salt", at: p.loc(v.ast), message: `${label} sends the message again before adopting the new salt`, path: describePath(p, cx.path()) });
          return { ...s, flags: { ...s.flags, done: 1 } };
        }
        if (v.op === "Call" && v.targetFn && v.targetFn === inv) return { ...s, flags: { ...s.flags, done: 1 } };
        if (v.op === "SetProp" && /salt/i.test(v.name) && T(v.args[1]).key === "$" + i + ".new_server_salt") return { ...s, flags: { ...s.flags, salt: 1 } };
      },
      exit(s, kind, cx) { if (kind === "return") ctx.ob("rejection leads to resend or new session", !!s.flags.done, { key: label, at: p.loc(m), message: `${label} ends without sending the rejected message again or starting a new session`, path: describePath(p, cx.path()) }); },
    });
  }
  // dispatch of protocol messages
  const want = { pong: 1, bad_server_salt: 1, bad_msg_notification: 1, new_session_created: 1 }; const seen = new Set();
  for (const m of S.members) {
    if (!ts.isMethodDeclaration(m) || !m.body) continue;
    let y = false; p.walk(m, (n) => { if (ts.isStringLiteral(n) && n.text === "bad_server_salt" && !ts.isLiteralTypeNode(n.parent)) y = true; });
    if (!y) continue;
    const label = fnLabel(p, m); const handlers = new Map();
    for (const x of S.members) if (ts.isMethodDeclaration(x) && x.body) for (const q of x.parameters) { const t = /\.(\w+)$/.exec(q.type?.getText() ?? "")?.[1]; if (want[t]) handlers.set(x, t); }
    follow(ctx, M, m, {
      never: [...handlers.keys()],
      edge(s, k, tr) { const n = k.h === "call" && /#is$/.test(k.name ?? "") && k.args?.[0]?.h === "const" ? k.args[0].n : k.h === "bin" && k.n === "===" && /\._$/.test(k.a[0].key) && k.a[1].h === "const" ? k.a[1].n : null; if (want[n] && tr) { seen.add(n); return { ...s, flags: { ...s.flags, kind: n } }; } },
      inst(s, v) { if (v.op === "Call" && v.targetFn && handlers.has(v.targetFn)) return { ...s, flags: { ...s.flags, ok: handlers.get(v.targetFn) } }; },
      exit(s, kind, cx) { if (kind === "return" && s.flags.kind) ctx.ob("protocol message dispatched", s.flags.ok === s.flags.kind, { key: label + "|" + s.flags.kind, at: p.loc(m), message: `${label} drops a ${s.flags.kind}`, path: describePath(p, cx.path()) }); },
    });
    for (const k of Object.keys(want)) ctx.ob("protocol message dispatched", seen.has(k), { key: label + "|" + k + "|case", at: p.loc(m), message: `${label} has no case for ${k}` });
  }
}

/** each handler of the session that ends a request is wired to a method that settles */
function wiring(ctx, M, S, K) {
  const p = M.p;
  const roles = { onMessageFailed: /^(reject|passed)$/, onRpcError: /^(reject|passed)$/, onRpcResult: /^(resolve|reject)$/, onPong: /^resolve$/ };
  const assigned = new Map();
  p.walk(K, (n) => {
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && roles[n.left.name.text] && /handlers$/.test(n.left.expression.getText())) assigned.set(n.left.name.text, n.right);
    if (ts.isPropertyAssignment(n) && roles[n.name.getText()] && ts.isObjectLiteralExpression(n.parent) && ts.isBinaryExpression(n.parent.parent) && /handlers$/.test(n.parent.parent.left.getText())) assigned.set(n.name.getText(), n.initializer);
  });
  const pos = ts.isConstructorDeclaration;
  void pos;
  for (const [h, re] of Object.entries(roles)) {
    const e = assigned.get(h); let fn;
    if (e) { let x = e; if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && x.expression.name.text === "bind") x = x.expression.expression; if (ts.isArrowFunction(x) || ts.isFunctionExpression(x)) { p.walk(x, (n) => { if (!fn && ts.isCallExpression(n)) { const f = p.resolveCallee(n).fn; if (f && f.parent === K) fn = f; } }); fn ??= x; } else { const d = p.symbolOf(x)?.valueDeclaration; if (d && ts.isMethodDeclaration(d)) fn = d; } }
    if (!fn) { ctx.ob("handler settles", false, { key: h, at: p.loc(K), message: `the session's ${h} is not handled by the client: requests it reports stay pending` }); continue; }
    const label = fnLabel(p, fn); let found = 0;
    const r = follow(ctx, M, fn, {
      edge(s, k, tr) { if (k.h === "bin" && k.n === "instanceof") return { ...s, flags: { ...s.flags, inst: (tr ? "" : "!") + k.a[1].n, of: k.a[0].key } }; },
    });
    for (const { s, kind, path } of r.exits) for (const [rec, where] of Object.entries(s.got)) {
      if (s.nil[rec] || !s.pres && !s.st[rec] && kind === "throw") continue;
      if (kind === "throw" && !s.st[rec] && !s.rm[where]) continue;
      found++;
      ctx.ob("handler settles", !!s.st[rec] && re.test(s.st[rec]) && where.endsWith("|" + (h === "onPong" ? "$0.msg_id" : "$0")), { key: label, at: p.loc(fn), message: `${label} finds the request ${h} is about and ${s.st[rec] ? `marks it "${s.st[rec]}"` : "leaves it pending"}`, path });
      if (h === "onMessageFailed" && s.st[rec]) {
        const inst = s.flags.inst ?? "";
        ctx.ob("new session resends, other failures reject", s.flags.of === "$1" && (/SessionError$/.test(inst) && !inst.startsWith("!") ? s.st[rec] === "passed" : s.st[rec] === "reject"), { key: label, at: p.loc(fn), message: `${label}: a message lost with its session must be sent again, and one that failed otherwise rejected (reason ${inst || "not looked at"}, request ${s.st[rec]})`, path });
      }
    }
    if (!found) ctx.ob("handler settles", false, { key: label + "|none", at: p.loc(fn), message: `${label} never finds the request ${h} is about` });
  }
}
