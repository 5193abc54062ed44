"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { fnLabel, enclosing, allFunctions } = require("../lib/util.js");
const { track } = require("../lib/facts.js");
const X = require("../lib/crypto.js");
const dh = require("../lib/dh.js");
const ALGO = "passwordKdfAlgoSHA256SHA256PBKDF2HMACSHA512iter100000SHA256ModPow";

module.exports = {
  technique: "path-sensitive must-have-been-tested dataflow with value-graph matching, and reference-flow analysis of the password",
  explanation: "The function that makes inputCheckPasswordSRP is lowered with its helpers inlined. On every path on which it returns, the outcomes of the tests made so far must include: the algorithm is the supported one, the prime and generator passed the safety test, the server's value and the client's own value passed the range test, and the scrambling value is not zero; and the value graph of what it returns must be that of the SRP scheme, with every hash, salt, padding, order of concatenation and exponent compared. The safety tests and the padding helper are analysed themselves. From the password parameter of that function the flow of the password is followed backwards through every caller to the public methods and options, and every use of it there and inside must be one that keeps it in the client.",
  rules: ["proof only for tested parameters", "proof follows the scheme", "prime test", "range test", "padding", "password stays in the client"],
  assumptions: ["sha256, modExp, mod, intToBytes, intFromBytes and WebCrypto's PBKDF2 compute what their names say"],
  run(ctx) {
    const p = ctx.p;
    const D = dh.find(ctx); dh.judgeTests(ctx, D);
    const makers = allFunctions(p).filter((f) => { let y = false; p.walk(f, (n) => { if (n !== f && ts.isFunctionLike(n)) return false; if (ts.isPropertyAssignment(n) && n.name.text === "_" && ts.isStringLiteral(n.initializer) && n.initializer.text === "inputCheckPasswordSRP") y = true; }); return y && !/^tl\//.test(p.rel(f.getSourceFile())); });
    ctx.need(makers.length, "the function that makes the password proof");
    for (let f of makers) {
      // a helper that only assembles the object: judge the function that calls it
      while (!f.parameters.some((q) => q.type && /account_Password|account\.Password/.test(q.type.getText()))) {
        const up = callersOf(p, f); if (up.length !== 1) break; f = up[0].fn;
      }
      proof(ctx, f, D); flow(ctx, f);
    }
    ctx.floor("proof only for tested parameters", 5); ctx.floor("proof follows the scheme", 6); ctx.floor("password stays in the client", 8);
  },
};
const big = (o) => { const q = (n) => o?.props?.find((x) => x.key === n)?.t?.n; return q("byteOrder") === "big" && q("isSigned") === false; };
const callTo = (t, re) => t && t.h === "call" && re.test(t.name ?? "");
const toInt = (t) => (callTo(t, /#intFromBytes$/) && big(t.args[1]) ? t.args[0] : null);
const hash = (t) => (t && t.h === "sha256" ? t.a[0] : null);
function proof(ctx, f, D) {
  const p = ctx.p, lab = fnLabel(p, f), file = f.getSourceFile();
  // helpers that turn one number into bytes
  const pads = allFunctions(p).filter((g) => g !== f && g.getSourceFile() === file && g.parameters.length === 1 && /bigint/.test(p.checker.typeToString(p.checker.getTypeAtLocation(g.parameters[0]))) && /^Uint8Array/.test(p.checker.typeToString(p.checker.getReturnTypeOfSignature(p.checker.getSignatureFromDeclaration(g)))));
  for (const g of pads) judgePad(ctx, g);
  const padName = new Set(pads.map((g) => fnLabel(p, g)));
  const unpad = (t) => {
    if (!t) return null;
    if (t.h === "call" && padName.has(t.name)) return t.args[0];
    if (callTo(t, /#intToBytes$/) && t.args[1]?.n === 256 && big(t.args[2])) return t.args[0];
    return null;
  };
  const nm = (g) => g.name?.text ?? g.parent.name?.text;
  const posU = (has, u) => has.all.includes("+(0n<" + u.key + ")") || has.all.includes("+" + u.key) || has.all.some((k) => k.startsWith("-(") && k.includes("===0n") && k.includes(u.key));
  let n = 0;
  track(ctx, f, {
    policy: { never: (name, g) => g === D.prime || g === D.range || pads.includes(g) },
    keep: (k) => k.includes(nm(D.prime) + "(") || k.includes(nm(D.range) + "(") || k.includes(ALGO) || /intFromBytes\(sha256/.test(k),
    edge(s, t, truth) {
      let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; }
      // an unsigned number found not to be above zero is zero
      const u = q.h === "bin" && q.n === "<" && q.a[0].h === "const" && q.a[0].n === 0n ? q.a[1] : q.h === "bin" && q.n === "===" && q.a.some((x) => x.h === "const" && x.n === 0n) ? null : q;
      if (q.h === "bin" && q.n === "===" && q.a.some((x) => x.n === 0n && x.h === "const")) { const w = q.a.find((x) => x.h !== "const"); if (w && toInt(w)) return { ...s, x: { ...s.x, zero: tr ? w.key : "" } }; }
      if (q.h === "bin" && u && (toInt(u) || u.h === "old")) return tr ? (isZero(s, u) ? null : { ...s, x: { ...s.x, zero: "" } }) : { ...s, x: { ...s.x, zero: u.key } };
      if (q === u && u && (toInt(u) || u.h === "old") && tr && isZero(s, u)) return null;
    },
    inst(s, v, cx, T, has) {
      { const z = s.x.zero, id = "%" + v.id + ";"; if (z && z.includes(id) && !z.startsWith("old(")) s = { ...s, x: { ...s.x, zero: "old(" + z.split(id).join("%~;") + ")" } }; }
      if (v.op !== "Return" || !v.args.length) return s;
      const o = T(v.args[0]); if (o.h !== "obj") return s;
      const fld = (k) => o.props.find((q) => q.key === k)?.t;
      if (fld("_")?.n !== "inputCheckPasswordSRP") return;
      n++;
      const at = p.loc(v.ast ?? f), path = describePath(p, cx.path());
      const ob = (kind, ok, what, k) => ctx.ob(kind, !!ok, { key: lab + "|" + k, at, message: `${lab} returns a proof ${what}`, path: ok ? undefined : path });
      const S = "proof follows the scheme", Q = "proof only for tested parameters";
      const A = unpad(fld("A"));
      ob(S, o.props.every((q) => ["_", "A", "M1", "srp_id"].includes(q.key) && !q.spread), "with further contents", "fields");
      ob(S, fld("srp_id")?.h === "prop" && fld("srp_id").n === "srp_id", "for another request (srp_id)", "srp_id");
      const pub = callTo(A, /#modExp$/) ? A : null;
      ob(S, pub, "whose A is not the padded modular power of the generator", "A"); if (!pub) return;
      const [g_, a, P] = pub.args; const algoP = toInt(P), algo = algoP?.h === "prop" && algoP.n === "p" ? algoP.a[0] : null;
      ob(S, algo && g_.h === "bigint" && g_.a[0].key === algo.key + ".g", "whose A is not a power of the announced generator modulo the announced prime", "A base"); if (!algo) return;
      const g = g_.a[0];
      ob(S, callTo(a, /#getRandomInt$/) && a.args[0].n >= 256 && a.args[1]?.n === false, "whose exponent is not a fresh random number of 2048 bits", "a");
      // M1
      const m = hash(fld("M1")), parts = m?.h === "cat" ? m.a : [];
      ob(S, parts.length === 6, "whose M1 is not the hash of six parts", "M1"); if (parts.length !== 6) return;
      const x0 = parts[0].h === "xor" ? parts[0].a.map((y) => unpad(hash(y))?.key) : [];
      ob(S, x0.length === 2 && x0.includes(P.key) && x0.includes(g.key), "whose M1 does not start with H(p) xor H(g)", "M1 1");
      const s1 = algo.key + ".salt1", s2 = algo.key + ".salt2";
      ob(S, hash(parts[1])?.key === s1 && hash(parts[2])?.key === s2, "whose M1 does not continue with H(salt1) and H(salt2)", "M1 2");
      ob(S, unpad(parts[3])?.key === pub.key, "whose M1 does not continue with the padded A", "M1 4");
      const B = unpad(parts[4]), rawB = B && toInt(B);
      ob(S, rawB?.h === "prop" && rawB.n === "srp_B", "whose M1 does not continue with the padded server value", "M1 5"); if (!rawB) return;
      const sA = unpad(hash(parts[5]));
      ob(S, callTo(sA, /#modExp$/) && sA.args[2].key === P.key, "whose M1 does not end with the hash of the padded session secret", "M1 6"); if (!callTo(sA, /#modExp$/)) return;
      // x = PH2
      const exp = sA.args[1]; let u = null, x = null, okExp = false;
      if (exp.h === "lin" && exp.lin.m.size === 2 && !exp.lin.c) {
        const rest = [...exp.lin.m.values()]; const me = rest.find((q) => q.t.key === a.key), pr = rest.find((q) => q !== me);
        if (me?.k === 1 && pr?.k === 1 && pr.t.h === "bin" && pr.t.n === "*") {
          for (const [i, j] of [[0, 1], [1, 0]]) { const uh = hash(toInt(pr.t.a[i])); if (uh?.h === "cat" && uh.a.length === 2 && unpad(uh.a[0])?.key === pub.key && unpad(uh.a[1])?.key === B.key) { u = pr.t.a[i]; x = pr.t.a[j]; okExp = true; } }
        }
      }
      ob(S, okExp, "whose session secret is not raised to a + H(A | B) · x", "exponent"); if (!okExp) return;
      const sh = (t, salt) => { const c = hash(t); return c?.h === "cat" && c.a.length === 3 && c.a[0].key === salt && c.a[2].key === salt ? c.a[1] : null; };
      let kdf = sh(toInt(x), s2); if (kdf?.h === "zeros" || kdf?.h === "new") kdf = kdf.a[0];
      const dp = callTo(kdf, /SubtleCrypto\.deriveBits$/) ? kdf : null; const alg = dp?.args[0], key = dp?.args[1];
      const prm = (k) => alg?.props?.find((q) => q.key === k)?.t;
      ob(S, dp && prm("name")?.n === "PBKDF2" && prm("hash")?.n === "SHA-512" && prm("iterations")?.n === 100000 && prm("salt")?.key === s1 && dp.args[2]?.n === 512, "whose password hash is not SH(PBKDF2-SHA-512(…, salt1, 100000), salt2)", "kdf");
      const pw = callTo(key, /SubtleCrypto\.importKey$/) && key.args[0]?.n === "raw" ? sh(sh(key.args[1], s2), s1) : null;
      ob(S, pw && (callTo(pw, /#encodeText$/) || /TextEncoder/.test(pw.name ?? "")) && pw.args.at(-1).h === "param", "whose password hash does not start from SH(SH(password, salt1), salt2)", "PH1");
      // t = (B - k * g^x) mod p
      const t0 = sA.args[0]; const unmod = (q) => (callTo(q, /#mod$/) && q.args[1].key === P.key ? q.args[0] : null);
      const d = unmod(t0); let okT = false;
      if (d?.h === "lin" && d.lin.m.size === 2 && !d.lin.c) {
        const q = [...d.lin.m.values()], b1 = q.find((y) => y.t.key === B.key), kv = q.find((y) => y !== b1);
        if (b1?.k === 1 && kv?.k === -1) {
          const pr = unmod(kv.t) ?? kv.t;
          if (pr.h === "bin" && pr.n === "*") for (const [i, j] of [[0, 1], [1, 0]]) {
            const kh = hash(toInt(pr.a[i])), w = pr.a[j];
            if (kh?.h === "cat" && kh.a.length === 2 && unpad(kh.a[0])?.key === P.key && unpad(kh.a[1])?.key === g.key && callTo(w, /#modExp$/) && w.args[0].key === g_.key && w.args[1].key === x.key && w.args[2].key === P.key) okT = true;
          }
        }
      }
      ob(S, okT, "whose session secret is not based on B − H(p | g) · g^x", "t");
      // the tests
      const has1 = (re) => has.all.some((k) => re(k));
      ob(Q, has1((k) => k.startsWith("+") && k.includes(JSON.stringify(ALGO)) && k.includes(algo.key)), "although the algorithm was not found to be the supported one", "algorithm");
      ob(Q, has1((k) => k.startsWith("+") && k.includes(nm(D.prime) + "(" + algo.key + ".p," + g.key + ")")), "although the prime and generator were not tested", "prime");
      const range = (q) => has1((k) => k.startsWith("+") && k.includes(nm(D.range) + "(" + q.key + "," + P.key + ")"));
      ob(Q, range(B), "although the server's value was not tested to be in range", "B");
      ob(Q, range(pub), "although the client's own value was not tested to be in range", "A");
      ob(Q, posU(has, u), "although the scrambling value may be zero", "u");
    },
  });
  ctx.ob("proof only for tested parameters", n > 0, { key: lab + "|never", at: p.loc(f), message: `${lab} never returns a proof` });
}
function isZero(s, u) { const z = s.x.zero; return !!z && z === u.key; }
function judgePad(ctx, g) {
  const p = ctx.p, lab = fnLabel(p, g);
  track(ctx, g, {
    policy: {},
    inst(s, v, cx, T, has) {
      if (v.op !== "Return") return;
      const t = T(v.args[0]); const src = (x) => x?.key === "$0" || x?.key === "bigint($0)";
      const ok = callTo(t, /#intToBytes$/) && src(t.args[0]) && t.args[1]?.n === 256 && big(t.args[2])
        || t.h === "cat" && t.a.length === 2 && t.a[0].h === "zeros" && t.a[0].a[0].key === "(-$0.length+256)" && t.a[1].key === "$0";
      ctx.ob("padding", !!ok, { key: lab, at: p.loc(v.ast ?? g), message: `${lab} does not give the 256-byte big-endian form of its argument`, path: ok ? undefined : describePath(p, cx.path()) });
    },
  });
}
function callersOf(p, f) {
  const out = [];
  for (const sf of p.sourceFiles) { if (/^tl\//.test(p.rel(sf))) continue; p.walk(sf, (n) => { if (ts.isCallExpression(n) && p.resolveCallee(n).fn === f) out.push({ call: n, fn: enclosing(n) }); }); }
  return out;
}
/** follows the password from the proof's parameter back to where it enters, and forward from there */
function flow(ctx, f0) {
  const p = ctx.p, ck = p.checker;
  const tainted = new Map(); const work = []; // symbol -> description
  const add = (sym, why) => { if (sym && !tainted.has(sym)) { tainted.set(sym, why); work.push(sym); } };
  const strip = (e) => { while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isAwaitExpression(e)) e = e.expression; return e; };
  const pw = f0.parameters.find((q) => /^string$/.test(ck.typeToString(ck.getTypeAtLocation(q)))) ?? f0.parameters[0];
  add(ck.getSymbolAtLocation(pw.name), "the password");
  // references by name, resolved by symbol
  const refs = new Map();
  for (const sf of p.sourceFiles) { if (/^tl\//.test(p.rel(sf))) continue; p.walk(sf, (n) => { if (ts.isIdentifier(n)) { const l = refs.get(n.text); if (l) l.push(n); else refs.set(n.text, [n]); } }); }
  const origin = (e) => { // symbols an argument expression takes its value from
    e = strip(e);
    if (ts.isConditionalExpression(e)) return [...origin(e.whenTrue), ...origin(e.whenFalse)];
    if (ts.isBinaryExpression(e) && /^(\?\?|\|\||&&)$/.test(e.operatorToken.getText())) return [...origin(e.left), ...origin(e.right)];
    if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) { const s = p.symbolOf(e); return s && s.name !== "undefined" ? [s] : []; }
    if (ts.isCallExpression(e)) return origin(e.expression);
    return [];
  };
  const params = (fn, i) => { const q = fn.parameters[Math.min(i, fn.parameters.length - 1)]; return q && ts.isIdentifier(q.name) ? ck.getSymbolAtLocation(q.name) : undefined; };
  const done = new Set();
  while (work.length) {
    const sym = work.pop(); const d = sym.valueDeclaration ?? sym.declarations?.[0]; if (!d) continue;
    // backwards
    if (ts.isParameter(d) && ts.isFunctionLike(d.parent) && d.parent.body) {
      const i = d.parent.parameters.indexOf(d);
      for (const c of callersOf(p, d.parent)) if (c.call.arguments[i]) for (const s of origin(c.call.arguments[i])) add(s, "");
    }
    if (ts.isVariableDeclaration(d) && d.initializer) for (const s of origin(d.initializer)) add(s, "");
    // forwards
    for (const id of refs.get(sym.name) ?? []) {
      if (done.has(id) || id === d.name || p.symbolOf(id) !== sym) continue;
      done.add(id);
      let e = id; while (ts.isPropertyAccessExpression(e.parent) && e.parent.name === e) e = e.parent;
      if (ts.isParameter(e.parent) || ts.isPropertySignature(e.parent) || ts.isPropertyDeclaration(e.parent) || ts.isTypeQueryNode?.(e.parent)) continue;
      use(e, id, sym);
    }
  }
  function use(e, id, sym) {
    const fn = enclosing(e), lab = fnLabel(p, fn), at = p.loc(id);
    const ob = (ok, what) => ctx.ob("password stays in the client", ok, { key: lab + "|" + what, at, message: `${lab} ${what}` });
    let q = e; while (ts.isParenthesizedExpression(q.parent) || ts.isAsExpression(q.parent) || ts.isNonNullExpression(q.parent) || ts.isAwaitExpression(q.parent)) q = q.parent;
    const P = q.parent;
    // tests and moves that keep it here
    if (ts.isTypeOfExpression(P) || ts.isPrefixUnaryExpression(P) || ts.isIfStatement(P) || ts.isConditionalExpression(P) && P.condition === q) return ob(true, "");
    if (ts.isBinaryExpression(P) && /^([!=]==?|\|\||&&|\?\?)$/.test(P.operatorToken.getText()) && (/=/.test(P.operatorToken.getText()))) return ob(true, "");
    if (ts.isConditionalExpression(P) || ts.isBinaryExpression(P) && /^(\|\||&&|\?\?)$/.test(P.operatorToken.getText())) return use(P, id, sym);
    if (ts.isVariableDeclaration(P) && ts.isIdentifier(P.name)) { add(ck.getSymbolAtLocation(P.name), ""); return ob(true, ""); }
    if (ts.isExpressionStatement(P) || ts.isJSDoc?.(P)) return ob(true, "");
    if (ts.isPropertyAccessExpression(P) && P.expression === q) { const n = P.name.text; return ob(n === "length", `takes ${n} of the password`); }
    if (ts.isPropertyAssignment(P) && P.initializer === q || ts.isShorthandPropertyAssignment(P)) {
      // a property of options passed on to another method of the client
      const o = P.parent; const c = o.parent;
      const isApi = o.properties.some((x) => x.name?.text === "_");
      if (!isApi && (ts.isCallExpression(c) && !/invoke$/.test(c.expression.getText()) || ts.isVariableDeclaration(c))) { const t = ck.getContextualType(o)?.getProperty(P.name.text); if (t) add(t, ""); return ob(true, ""); }
      return ob(false, `puts the password into an object${isApi ? " that is sent" : ""}`);
    }
    if (ts.isReturnStatement(P) || ts.isArrowFunction(P)) { return ob(!!fn && (ts.isArrowFunction(fn) || ts.isFunctionExpression(fn)), "returns the password"); }
    if (ts.isCallExpression(P)) {
      if (P.expression === q) { return resultOf(P, id, sym, ob); } // asks for the password
      const i = P.arguments.indexOf(q), r = p.resolveCallee(P), nm = r.name ?? "";
      if (fn === f0 || within(fn, f0) || inFile(fn, f0)) return ob(/#(encodeText|concat|sha256|sha1|hmac|pbkdf2|sh|ph1|ph2|h)$/.test(nm) || !!r.fn && r.fn.getSourceFile() === f0.getSourceFile() || /TextEncoder|SubtleCrypto/.test(nm), `gives the password to ${nm || P.expression.getText()}`);
      if (/^client\//.test(nm) && /#\w*\.?#dispatch$|\.#dispatch$/.test(nm)) return ob(true, ""); // to the client's own worker
      if (r.fn && !/^lib#|^deps:/.test(nm) && !/invoke|log|drop|debug|info|warn|error|Storage|\.set\w*$/i.test(nm)) { const s = params(r.fn, i); add(s, ""); return ob(!!s, `gives the password to ${nm}`); }
      if (!r.fn && r.decl && p.isRepo(r.decl) && r.decl.parameters?.[i] && /^client\//.test(nm)) { return ob(true, ""); } // the abstract form of a method judged itself
      return ob(false, `gives the password to ${nm || P.expression.getText()}`);
    }
    if (ts.isSpreadAssignment(P)) return ob(false, "spreads the password");
    ob(false, `uses the password in \`${P.getText().slice(0, 60).replace(/\s+/g, " ")}\``);
  }
  function resultOf(P, id, sym, ob) { let q = P; while (ts.isAwaitExpression(q.parent) || ts.isParenthesizedExpression(q.parent)) q = q.parent; if (q.parent && (ts.isConditionalExpression(q.parent) || ts.isVariableDeclaration(q.parent))) return use(q, id, sym); ob(true, ""); if (ts.isCallExpression(q.parent)) use(q, id, sym); }
  function within(a, b) { while (a && a !== b) a = enclosing(a); return a === b; }
  function inFile(a, b) { return a && a.getSourceFile() === b.getSourceFile(); }
}
