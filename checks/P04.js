"use strict";
const { ts } = require("../lib/project.js");
const { resolve, DEEP } = require("../lib/ir.js");
const { simulate, describePath } = require("../lib/sim.js");
const { Terms, C } = require("../lib/terms.js");
const { allFunctions, fnLabel, lower, enclosing, owner } = require("../lib/util.js");
const X = require("../lib/crypto.js");

/** functions that hand bytes to a transport */
function senders(p) {
  const out = new Map();
  for (const fn of allFunctions(p)) {
    const visit = (n) => { if (n !== fn && ts.isFunctionLike(n) && n.body) return; if (ts.isCallExpression(n)) { const r = p.resolveCallee(n); if (/^transport\/0_transport\.ts#Transport\.send$/.test(r.name ?? "")) { let l = out.get(fn); if (!l) out.set(fn, l = []); l.push(n); } } ts.forEachChild(n, visit); };
    ts.forEachChild(fn, visit);
  }
  return out;
}
const INL = (name) => /^tl\/2_message\.ts#writeMessage$|#writeMsgContainer$/.test(name ?? "") ? true : DEEP.inline(name);

module.exports = {
  technique: "data-flow analysis: canonical value terms compared with the prescribed derivation; congruence-domain evaluation of the padding length",
  explanation: "Every call that hands bytes to a transport from a class that encrypts is found by symbol. Its function is lowered with the repository helpers inlined; a forward analysis records what is written to each buffer on every path; the buffer handed over must consist of the key identifier, the message key and the ciphertext, the key, IV and message key must be, as value terms, those MTProto 2.0 derives for the client-to-server direction from the authorization key and the very plaintext that is encrypted, and the plaintext must consist of salt, session identifier and message followed by random padding. The padding length is evaluated for all residues of the plaintext length.",
  rules: ["packet layout", "AES key and IV are derived for direction 0", "message key is derived for direction 0 from the padded plaintext", "plaintext layout", "padding is random", "padding length is 12..1024 and aligns to 16", "key identifier is the low 64 bits of SHA1 of the key", "container length announced is the length written"],
  assumptions: ["sha256, IGE encryption and the random source compute what their names say"],
  run(ctx) {
    const p = ctx.p;
    let n = 0;
    for (const [fn, calls] of senders(p)) {
      const cls = classOf(fn); if (!cls) continue;
      // the plain session sends unencrypted by design: it is the one that never touches a cipher
      if (!classEncrypts(p, cls)) { ctx.count("plain transport send", calls.length); continue; }
      n += calls.length;
      checkSender(ctx, fn, cls);
    }
    ctx.need(n, "an encrypting sender");
    for (const cls of new Set([...senders(p).keys()].map(classOf))) if (cls && classEncrypts(p, cls)) keyId(ctx, cls);
    containerLength(ctx);
    ctx.floor("packet layout", 1); ctx.floor("plaintext layout", 2); ctx.floor("AES key and IV", 1); ctx.floor("message key", 1); ctx.floor("padding", 1); ctx.floor("key identifier", 1); ctx.floor("container length", 1);
  },
  senders, classOf, classEncrypts, evaluate,
};
function classOf(fn) { let q = fn; while (q && !ts.isClassDeclaration(q)) q = q.parent; return q; }
function classEncrypts(p, cls) {
  let y = false; const seen = new Set();
  const look = (node, d) => p.walk(node, (n) => { if (ts.isCallExpression(n)) { const r = p.resolveCallee(n); if (/ige256Encrypt$/.test(r.name ?? "")) y = true; else if (r.fn && d < 3 && !seen.has(r.fn) && !/^tl\//.test(r.name ?? "")) { seen.add(r.fn); look(r.fn, d + 1); } } });
  look(cls, 0); return y;
}
function checkSender(ctx, fn, cls) {
  const p = ctx.p, label = fnLabel(p, fn);
  const u = lower(p, fn, { inline: INL });
  const terms = new Terms(), store = new Map();
  const done = new Set();
  const say = (kind, ok, at, key, message, cx) => { const id = kind + key + ok; if (done.has(id)) return ok; done.add(id); return ctx.ob(kind, ok, { key: label + "|" + key, at, message: label + ": " + message, path: ok ? undefined : describePath(p, cx.path()) }); };
  simulate(u, {
    init: { w: {}, c: {} },
    inst(s, v, cx) {
      s = X.trackWriter(s, v, cx, store);
      if (v.op === "Call" && /ige256Encrypt$/.test(v.name ?? "")) {
        const [P, key, iv] = v.callArgs.map((a) => cx.term(a)); const at = p.loc(v.ast);
        const k = X.matchKdf(key, iv, 0);
        if (!say("AES key and IV", !!k, at, "kdf", "the AES key and IV are not those MTProto 2.0 derives from the authorization key and the message key for packets sent by the client", cx)) return s;
        const selfField = k.A.h === "prop" && k.A.a[0].h === "this";
        say("AES key and IV", selfField, at, "key source", "the key material is not the authorization key held by the session", cx);
        say("message key", X.messageKey(k.A, P, 0).key === k.m.key, at, "msgkey", "the message key is not the middle of the hash over 32 bytes of the authorization key at offset 88 and the plaintext that is encrypted", cx);
        const id = P.h === "prop" && P.n === "buffer" ? X.allocId(P.a[0]) : undefined;
        const w = id !== undefined ? s.w[id] : undefined;
        plaintext(ctx, s, w, P, store, at, say, cx);
        return { ...s, c: { ...s.c, [cx.term(v).key]: { A: k.A.key, m: k.m.key } } };
      }
      if (v.op === "Call" && /^transport\/0_transport\.ts#Transport\.send$/.test(v.name ?? "")) {
        const t = cx.term(v.callArgs[0]); const at = p.loc(v.ast);
        let parts;
        if (t.h === "prop" && t.n === "buffer") { const id = X.allocId(t.a[0]); parts = (s.w[id] ?? []).map((x) => x.split("|")); }
        else if (t.h === "cat") parts = t.a.map((x) => ["write", x.key]);
        const c = parts?.length === 3 ? s.c[parts[2][1]] : undefined;
        say("packet layout", !!c && parts[1][0] === "write" && parts[1][1] === c.m, at, "layout", `what is sent must be the key identifier, the message key and the ciphertext, in this order (found ${parts ? parts.map((x) => x.join(" ")).join(", ") : t.key.slice(0, 80)})`, cx);
        if (c) say("packet layout", parts[0][0] === "writeInt64" && /^this\.#?\w+$/.test(parts[0][1]) && ctx.keyIds.has(parts[0][1].slice(5)) || parts[0][0] === "write", at, "keyid", `the packet must begin with the 64-bit identifier of the authorization key (found ${parts[0].join(" ")})`, cx);
      }
      return s;
    },
  }, { terms, maxStates: 4000 });
}
function plaintext(ctx, s, w, P, store, at, say, cx) {
  if (!say("plaintext layout", !!w, at, "plain", "the plaintext is not the content of a buffer that was written on this path", cx)) return;
  const e = w.map((x) => x.split("|"));
  const f = (i, m) => e[i] && e[i][0] === m;
  const okSalt = f(0, "writeInt64") && /serverSalt$/.test(e[0][1]) && /^this\b/.test(e[0][1]);
  const okSid = f(1, "writeInt64") && /^this\.#?\w+$/.test(e[1][1]) && ctx.sessionIds.has(e[1][1].slice(5));
  say("plaintext layout", okSalt, at, "salt", `the plaintext must begin with the current server salt (found ${e[0]?.join(" ")})`, cx);
  say("plaintext layout", okSid, at, "sid", `the salt must be followed by the session identifier (found ${e[1]?.join(" ")})`, cx);
  const base = e[2]?.[1]?.replace(/\.msg_id$/, "");
  const okMsg = f(2, "writeInt64") && /\.msg_id$/.test(e[2][1]) && f(3, "writeInt32") && e[3][1] === base + ".seqno" && f(4, "writeInt32");
  say("plaintext layout", okMsg, at, "message", `message identifier, sequence number and length must follow (found ${e.slice(2, 5).map((x) => x.join(" ")).join(", ")})`, cx);
  if (!okMsg) return;
  const single = e[4][1] === base + ".body.length";
  if (single) say("plaintext layout", f(5, "write") && e[5][1] === base + ".body" && e.length === 7, at, "body", `the body must follow its own length, and nothing but padding the body (found ${e.slice(5).map((x) => x.join(" ")).join(", ")})`, cx);
  else say("plaintext layout", /^call:\w*Length\(/.test(e[4][1]) || /body/.test(e[4][1]) || e[4][1].startsWith("%"), at, "container", `a container must be preceded by its length (found ${e[4].join(" ")})`, cx);
  const last = e[e.length - 1], pt = store.get(last[1]);
  const isRand = !!pt && pt.h === "rand" && last[0] === "write";
  say("padding", isRand, at, "random", `the plaintext must end in bytes drawn from the secure random source (found ${last.join(" ").slice(0, 90)})`, cx);
  const len = pt && (pt.h === "rand" || pt.h === "zeros") ? pt.a[0] : undefined;
  if (!len) return;
  // congruence domain: the length before padding in all residues modulo 16
  let bad;
  const wid = P.a[0].key + ".length";
  for (let base = 0; base < 64 && bad === undefined; base++) { const v = evaluate(len, wid, base); if (v === undefined) { bad = "?"; break; } if (v < 12 || v > 1024 || (base + v) % 16) bad = base; }
  say("padding", bad === undefined, at, "length", bad === "?" ? `the padding length ${len.key} is not a function of the plaintext length` : `for a plaintext of ${bad} bytes (mod 64) the padding is ${evaluate(len, wid, bad)} bytes, which is outside 12..1024 or does not align to 16`, cx);
}
/** value of an integer term in which one quantity is known */
function evaluate(t, known, val) {
  const ev = (x) => evaluate(x, known, val);
  if (t.key === known) return val;
  if (t.h === "const" && typeof t.n === "number") return t.n;
  if (t.h === "lin") { let r = t.lin.c ?? 0; for (const { t: q, k } of t.lin.m.values()) { const y = ev(q); if (y === undefined) return undefined; r += k * y; } return r; }
  if (t.h === "un" && t.n === "-") { const a = ev(t.a[0]); return a === undefined ? undefined : -a; }
  if (t.h === "un" && t.n === "~") { const a = ev(t.a[0]); return a === undefined ? undefined : ~a; }
  if (t.h === "call" && /#mod$/.test(t.n)) { const a = ev(t.a[0]), b = ev(t.a[1]); return a === undefined || b === undefined ? undefined : ((a % b) + b) % b; }
  if (t.h === "call" && /Math\.(ceil|floor|max|min|trunc)$/.test(t.n)) { const a = t.args.map(ev); return a.some((x) => x === undefined) ? undefined : Math[/(\w+)$/.exec(t.n)[1]](...a); }
  if (t.h === "bin") { const a = ev(t.a[0]), b = ev(t.a[1]); if (a === undefined || b === undefined) return undefined; return { "*": a * b, "/": a / b, "%": a % b, "&": a & b, "|": a | b, "^": a ^ b, "<<": a << b, ">>": a >> b }[t.n]; }
  return undefined;
}
/** fields of the class that hold the identifier of the authorization key / of the session */
function keyId(ctx, cls) {
  const p = ctx.p; let n = 0;
  for (const m of cls.members) {
    if (!m.body) continue;
    let key; p.walk(m, (x) => { if (ts.isCallExpression(x) && /#sha1$/.test(p.resolveCallee(x).name ?? "")) key = x; });
    if (!key) continue;
    const terms = new Terms(); const u = lower(p, m, DEEP);
    const sets = [];
    for (const b of u.blocks) for (const v of b.insts) if (v.op === "SetProp" && resolve(v.args[0]).op === "This") sets.push([v, terms.of(v.args[1])]);
    const idSet = sets.find(([, t]) => X.subterms(t, (z) => z.h === "sha1").length);
    if (!idSet) continue;
    n++;
    const [v, t] = idSet; const sh = X.subterms(t, (z) => z.h === "sha1")[0];
    const want = [`call:intFromBytes(slice(${sh.key},-8))`, `call:intFromBytes(slice(${sh.key},12,20))`, `call:intFromBytes(slice(${sh.key},12))`];
    ctx.ob("key identifier", want.includes(t.key), { key: fnLabel(p, m), at: p.loc(v.ast ?? m), message: `the key identifier must be the last 8 bytes of the SHA-1 of the authorization key, little endian (found ${t.key})` });
    const A = sets.find(([, q]) => q.key === sh.a[0].key);
    ctx.ob("key identifier", !!A, { key: fnLabel(p, m) + "|same", at: p.loc(m), message: "the key that is hashed is not the key that is kept for encryption" });
  }
  if (!n) ctx.violate({ rule: "key identifier", key: cls.name.text, at: p.loc(cls), message: "no function derives the key identifier from the SHA-1 of the authorization key" });
}
Object.defineProperty(module.exports, "prepare", { value: (ctx) => {
  // names of fields: identifiers of the key (computed with sha1) and of the session (initialised and replaced with getRandomId())
  const p = ctx.p; ctx.keyIds = new Set(); ctx.sessionIds = new Set();
  for (const [fn] of senders(p)) {
    const cls = classOf(fn); if (!cls) continue;
    for (const m of cls.members) {
      if (ts.isPropertyDeclaration(m) && m.initializer && ts.isCallExpression(m.initializer) && /getRandomId$/.test(p.resolveCallee(m.initializer).name ?? "")) ctx.sessionIds.add(m.name.text);
      if (m.body) p.walk(m, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.expression.kind === ts.SyntaxKind.ThisKeyword) { const t = p.checker.getTypeAtLocation(n.left); let sh = false; p.walk(m, (y) => { if (ts.isCallExpression(y) && /#sha1$/.test(p.resolveCallee(y).name ?? "")) sh = true; }); if (sh && t.flags & ts.TypeFlags.BigIntLike) ctx.keyIds.add(n.left.name.text); } });
    }
  }
} });
const run0 = module.exports.run;
module.exports.run = (ctx) => { module.exports.prepare(ctx); run0(ctx); };

/** the recursive length of a container is 8 + sum (16 + length of each body) */
function containerLength(ctx) {
  const p = ctx.p;
  const writer = [...p.fns].find(([k]) => /^tl\/.*#writeMessage$/.test(k)); ctx.need(writer, "the message writer");
  // length function: called by the message writer with the container
  let lf; p.walk(writer[1], (n) => { if (ts.isCallExpression(n)) { const r = p.resolveCallee(n); if (r.fn && /Length|Size/i.test(r.name)) lf = r.fn; } });
  ctx.need(lf, "the container length function");
  const terms = new Terms(); const u = lower(p, lf, {});
  let ok = false, why = "";
  for (const b of u.blocks) for (const v of b.insts) {
    if (v.op !== "Return") continue;
    const r = resolve(v.args[0]);
    let init, step;
    if (r.op === "Phi") { for (const a of r.args.map(resolve)) { if (a.op === "Const") init = a.value; else if (a !== r) { const l = terms.of(a); if (l.h === "lin") { const m = [...l.lin.m.values()].map((x) => x.t.key); step = l.lin.c; if (!m.includes(terms.of(r).key)) why = "the sum is not accumulated"; } } } }
    ok = init === 8 && step === 16 && !why; why = why || `base ${init}, ${step} per message`;
  }
  ctx.ob("container length", ok, { key: fnLabel(p, lf), at: p.loc(lf), message: `a container is 8 bytes plus 16 bytes and the body of each message (found ${why})` });
}
