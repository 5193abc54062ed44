"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { fnLabel, callees, enclosing } = require("../lib/util.js");
const { track, mk } = require("../lib/facts.js");
const { C, slice } = require("../lib/terms.js");
const X = require("../lib/crypto.js");
const dh = require("../lib/dh.js");

module.exports = {
  technique: "path-sensitive must-have-been-tested dataflow over SSA form",
  explanation: "The method that runs the key exchange is lowered with its helpers inlined, and every path on which it hands out a key is followed back. On each of them the outcomes of the tests made so far must include: the nonce and the server nonce of each of the server's three answers and of the decrypted answer equal those of this exchange, the hash in front of the decrypted answer equals the hash of what was decoded from it, the prime and generator and both public values passed the safety tests (which are themselves analysed: every accepting path of them has compared all bytes and the length with the known safe prime and restricted the generator, and bounded the value on both sides), the confirmation is the positive one and its hash equals the one computed from the new nonce and the very key handed out, and the key is the server's public value of that answer raised to a fresh 2048-bit exponent modulo that prime. The public key used was taken from the client's own list by its fingerprint. The one caller keeps a key only as the result of a completed exchange.",
  rules: ["key is handed out only after every test", "prime test", "range test", "public key from the client's list", "only a completed exchange yields a key"],
  assumptions: ["sha1, modExp, intToBytes, intFromBytes, the TL codec (P03) and IGE compute what their names say", "equal re-encoding stands for the bytes that were decoded"],
  run(ctx) {
    const p = ctx.p;
    const K = ctx.need(p.findClass("ClientPlain")[0], "class ClientPlain");
    const has = (m, name) => { let y = false; p.walk(m, (n) => { if (ts.isStringLiteral(n) && n.text === name) y = true; }); return y; };
    const methods = K.members.filter((m) => ts.isMethodDeclaration(m) && m.body);
    const reach = (m, name, seen = new Set()) => { if (seen.has(m)) return false; seen.add(m); return has(m, name) || callees(p, m).some((c) => c.fn && c.fn.parent === K && reach(c.fn, name, seen)); };
    const cands = methods.filter((m) => ["req_pq_multi", "req_DH_params", "set_client_DH_params"].every((n) => reach(m, n)) && m.name.text !== "invoke");
    const inner = new Set(cands.filter((m) => cands.some((o) => o !== m && callees(p, o).some((c) => c.fn === m))));
    const roots = cands.filter((m) => !inner.has(m)); ctx.need(roots.length, "the key exchange");
    const D = dh.find(ctx); dh.judgeTests(ctx, D);
    const invoke = methods.find((m) => m.name.text === "invoke");
    for (const f of roots) exchange(ctx, f, invoke, D);
    callers(ctx, roots);
    ctx.floor("key is handed out only after every test", 12); ctx.floor("prime test", 3); ctx.floor("range test", 2); ctx.floor("public key from the client's list", 1); ctx.floor("only a completed exchange yields a key", 1);
  },
};
function exchange(ctx, f, invoke, D) {
  const p = ctx.p, lab = fnLabel(p, f);
  const SENT = ["req_pq_multi", "req_DH_params", "set_client_DH_params"];
  let keys = 0; const store = new Map();
  track(ctx, f, {
    policy: { never: (n, g) => g === invoke || g === D.prime || g === D.range },
    keep: (k) => /nonce|resPQ|DH|dh_|sha1|isSafe|[Gg]ood|Prime|g_a/.test(k) || k.includes(short(D.prime)) || k.includes(short(D.range)),
    inst(s, v, cx, T, hasF) {
      if (v.op === "Call") {
        if (v.targetFn === invoke) {
          const a = T(v.callArgs[0]); const n = a.props?.find((q) => q.key === "_")?.t; const fld = (x) => a.props?.find((q) => q.key === x)?.t;
          if (n?.h === "const" && SENT.includes(n.n)) {
            const x = { ...s.x, [n.n]: T(v).key }; store.set(T(v).key, T(v));
            if (n.n === "req_pq_multi") { x.nonce = fld("nonce")?.key; store.set(x.nonce, fld("nonce")); }
            if (n.n === "req_DH_params") { x.enc = fld("encrypted_data")?.key; store.set(x.enc, fld("encrypted_data")); }
            return { ...s, x };
          }
        }
        if (/#rsaPad$/.test(v.name ?? "")) { pub(v, T, s); const o = [...X.subterms(T(v.callArgs[0]), (t) => t.h === "obj")][0]; const nn = o?.props?.find((q) => q.key === "new_nonce")?.t; if (nn) { store.set(nn.key, nn); return { ...s, x: { ...s.x, newNonce: nn.key } }; } }
        if (/#ige256Decrypt$/.test(v.name ?? "")) { store.set(T(v).key, T(v)); return { ...s, x: { ...s.x, plain: T(v).key } }; }
        if (/#deserializeType$/.test(v.name ?? "") && T(v.callArgs[0]).n === "server_DH_inner_data") { store.set(T(v).key, T(v)); return { ...s, x: { ...s.x, inner: T(v).key } }; }
      }
      if (v.op === "Return" && v.args.length) {
        const t = T(v.args[0]); const k = t.h === "arr" ? t.a[0] : t.h === "obj" ? t.props.map((q) => q.t).find((x) => /modExp/.test(x.key)) ?? t : t;
        if (t.h === "const" && (t.n === undefined || t.n === null || t.n === false)) return;
        keys++; adopt(v, k, s, T, hasF, cx);
      }
    },
  });
  ctx.ob("key is handed out only after every test", keys > 0, { key: lab + "|never", at: p.loc(f), message: `${lab} hands out no key` });
  function short(g) { return g.name?.text ?? g.parent.name?.text ?? "?"; }
  function pub(v, T) {
    // where the public key comes from
    const seen = new Set(), src = new Set(); const field = [];
    const back = (x) => {
      x = resolve(x); if (seen.has(x)) return; seen.add(x);
      if (x.op === "GetProp" && resolve(x.args[0]).op === "This") { field.push(x.name); return; }
      if (x.op === "Const" && (x.value === null || x.value === undefined)) return;
      if (["GetElem", "FindResult", "IterElem", "Phi", "Await", "Id", "FilterResult"].includes(x.op)) { if (x.op === "Phi") x.args.forEach(back); else back(x.args[0]); return; }
      if (x.op === "Call" && /\.(get|at|find|filter)$/.test(x.name ?? "") && x.recv) { back(x.recv); return; }
      src.add(x.op + " " + (x.name ?? ""));
    };
    back(v.callArgs[1]);
    const own = field.filter((n) => trusted(n));
    ctx.ob("public key from the client's list", src.size === 0 && own.length > 0 && own.length === field.length, { key: lab, at: p.loc(v.ast), message: `${lab} encrypts its contribution with a public key that does not come from the client's list of trusted keys${src.size ? " (" + [...src][0].trim() + ")" : ""}` });
    // chosen by a fingerprint the server named
    let cmp = false;
    const lookAt = (x) => { for (const y of X.subterms(T(x), () => true)) if (/server_public_key_fingerprints/.test(y.key)) cmp = true; };
    for (const y of seen) { if (y.op === "FindResult" && y.args[1]) lookAt(y.args[1]); if (y.op === "Call") (y.callArgs ?? []).forEach(lookAt); }
    if (!cmp) cmp = seenFp(v);
    ctx.ob("public key from the client's list", cmp, { key: lab + "|fingerprint", at: p.loc(v.ast), message: `${lab} does not choose the public key by a fingerprint the server named` });
  }
  function seenFp() { let y = false; p.walk(f, (n) => { if (ts.isIdentifier(n) && n.text === "server_public_key_fingerprints") y = true; }); return y; }
  function trusted(name) {
    const m = f.parent.members.find((q) => q.name?.text === name); if (!m) return false;
    let y = false; p.walk(f.parent, (n) => { if (ts.isIdentifier(n) && n.text === "PUBLIC_KEYS") y = true; });
    return y && !!(ts.isPropertyDeclaration(m));
  }
  function adopt(v, key, s, T, hasF, cx) {
    const at = p.loc(v.ast ?? f), path = describePath(p, cx.path()), x = s.x;
    const g = (n) => x[n] && store.get(x[n]);
    const ob = (ok, what, k) => ctx.ob("key is handed out only after every test", !!ok, { key: lab + "|" + k, at, message: `${lab} hands out a key ${what}`, path: ok ? undefined : path });
    const R1 = g("req_pq_multi"), R2 = g("req_DH_params"), R3 = g("set_client_DH_params"), I = g("inner"), P = g("plain"), NN = g("newNonce"), N = g("nonce");
    const tt = T.terms, prop = (o, n) => tt.prop(o, n);
    if (!(R1 && R2 && R3 && I && P && NN && N)) { ob(false, "without the complete exchange", "complete"); return; }
    // the answer whose server nonce is used: any answer to req_pq_multi on this path
    const eq = (a, b) => hasF.eq(a, b);
    ob(eq(prop(R1, "nonce"), N), "although the first answer's nonce was not compared with the one sent", "resPQ nonce");
    const SN = prop(R1, "server_nonce");
    for (const [R, n] of [[R2, "second answer"], [I, "decrypted answer"], [R3, "confirmation"]]) {
      ob(eq(prop(R, "nonce"), N), `although the nonce of the ${n} was not compared with the one sent`, n + " nonce");
      ob(eq(prop(R, "server_nonce"), SN), `although the server nonce of the ${n} was not compared with the one announced`, n + " server nonce");
    }
    ob(P.a?.[0]?.key === prop(R2, "encrypted_answer").key, "although what was decrypted is not the second answer", "answer");
    ob(I.args?.[1]?.key === slice(P, C(20)).key || I.args?.[1]?.key.startsWith("slice(" + P.key + ",20") || /^new:/.test(I.args?.[1]?.key ?? "") && I.args[1].key.includes(slice(P, C(20)).key), "although the decoded answer is not what follows the hash in the decrypted answer", "inner");
    const sha1 = (t) => mk("sha1", [t]);
    const hash = slice(P, C(0), C(20));
    ob(hasF.all.some((k) => k.startsWith("+(") && k.includes("===") && k.includes(hash.key) && k.includes("sha1(") && (k.includes("serializeObject(" + I.key) || k.replace(hash.key, "").includes(slice(P, C(20)).key.slice(0, -1)))), "although the hash in front of the decrypted answer was not compared with the hash of the answer", "hash");
    ob(hasF.all.some((k) => k.startsWith("+") && k.includes(short(D.prime) + "(" + prop(I, "dh_prime").key + "," + prop(I, "g").key + ")")), "although the prime and generator were not tested", "prime");
    // the key
    const B = X.subterms(key, (t) => t.h === "call" && /#modExp$/.test(t.name ?? "") && t.args?.length === 3)[0];
    ob(B, "that is no modular power", "key"); if (!B) return;
    const gA = B.args[0], b = B.args[1], pr = B.args[2];
    const num = (f2) => (t) => t.h === "call" && /#intFromBytes$/.test(t.name ?? "") && t.args[0].key === prop(I, f2).key && bigEndian(t.args[1]);
    ob(num("g_a")(gA) && num("dh_prime")(pr), "that is not the server's public value of the tested answer raised modulo its prime", "key base");
    ob(b.h === "call" && /#getRandomInt$/.test(b.name ?? "") && b.args[0].n >= 256 && b.args[1]?.n === false, "whose exponent is not a fresh random number of 2048 bits", "exponent");
    ob(/#intToBytes$/.test(key.name ?? "") && key.args[0].key === B.key && key.args[1]?.n === 256 && bigEndian(key.args[2]), "that is not the 256-byte big-endian form of the power", "key bytes");
    const range = (t) => hasF.all.some((k) => k.startsWith("+") && k.includes(short(D.range) + "(" + t + "," + pr.key + ")"));
    ob(range(gA.key), "although the server's public value was not tested to be in range", "g_a range");
    const own = hasF.all.some((k) => k.startsWith("+") && k.includes(short(D.range) + "(call:modExp(") && k.includes("," + b.key + "," + pr.key + ")," + pr.key + ")"));
    ob(own, "although the client's own public value was not tested to be in range", "g_b range");
    // the confirmation
    ob(hasF.all.some((k) => k.startsWith("+") && (new RegExp("is\\(\"dh_gen_ok\",").test(k) && k.includes(R3.key) || k.includes(prop(R3, "_").key) && k.includes('"dh_gen_ok"'))), "although the confirmation was not found to be the positive one", "confirmation");
    const nnb = (t) => t.h === "call" && /#intToBytes$/.test(t.name ?? "") && t.args[0].key === NN.key && t.args[1]?.n === 32;
    const wanted = (t) => { // SHA1(new_nonce | 1 | first 8 bytes of SHA1(key)), last 16 bytes
      const q = t.h === "call" && /#intFromBytes$/.test(t.name ?? "") ? t.args[0] : t;
      if (q.h !== "slice" || q.a[1].n !== 4 || (q.a[2] && q.a[2].n !== 20)) return false;
      const c = q.a[0]; if (c.h !== "sha1" || c.a[0].h !== "cat" || c.a[0].a.length !== 3) return false;
      const [n1, one, aux] = c.a[0].a;
      return nnb(n1) && one.h === "bytes" && one.a.length === 1 && one.a[0].n === 1 && aux.key === slice(sha1(key), C(0), C(8)).key;
    };
    const h1 = prop(R3, "new_nonce_hash1");
    const confirmed = allTerms(T, cx).some((t) => hasF.eq(t, h1) && wanted(t));
    ob(confirmed, "although the hash of the confirmation was not compared with the one computed from the new nonce and this key", "new_nonce_hash1");
    ob(N.h === "call" && /#getRandomInt$/.test(N.name ?? "") && N.args[0].n >= 16 && NN.h === "call" && /#getRandomInt$/.test(NN.name ?? "") && NN.args[0].n >= 32, "although the nonces of the exchange are not fresh random numbers of 128 and 256 bits", "nonces");
  }
  function allTerms(T, cx) { const out = []; for (const b of cx.path()) for (const v of b.insts) { const t = T(v); if (/sha1/.test(t.key)) out.push(t); } return out; }
  function bigEndian(o) { const q = (n) => o?.props?.find((x) => x.key === n)?.t?.n; return q("byteOrder") === "big" && q("isSigned") === false; }
}
/** the code that keeps keys: it ends normally only with the key of a completed exchange in place */
function callers(ctx, roots) {
  const p = ctx.p; const users = new Set();
  for (const sf of p.sourceFiles) {
    if (!/^(client|session)\//.test(p.rel(sf))) continue;
    p.walk(sf, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && roots.includes(p.resolveCallee(n).fn)) { const f = enclosing(n); if (f) users.add(f); } });
  }
  for (const f of users) {
    const lab = fnLabel(p, f);
    track(ctx, f, {
      policy: { never: (n, g) => roots.includes(g) || /AuthKey$/.test(n ?? "") },
      keep: () => false,
      inst(s, v, cx, T) {
        if (v.op === "Call" && roots.includes(v.targetFn)) return { ...s, x: { call: T(v).key, kept: 0 } };
        const c = s.x.call; if (!c) return;
        if (v.op === "Call" && /[aA]uthKey$/.test(v.name ?? "") && (v.callArgs ?? []).some((a) => T(a).key.startsWith(c) || T(a).key === "this." + s.x.field)) return { ...s, x: { ...s.x, kept: 1 } };
        if (v.op === "SetProp" && T(v.args[1]).key.startsWith(c)) return { ...s, x: { ...s.x, field: v.name } };
      },
      exit(s, kind, cx) { if (kind === "return") ctx.ob("only a completed exchange yields a key", !!s.x.kept, { key: lab, at: p.loc(f), message: `${lab} ends normally although no completed exchange gave it a key to keep`, path: describePath(p, cx.path()) }); },
    });
  }
}
