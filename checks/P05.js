"use strict";
const { ts } = require("../lib/project.js");
const { resolve, DEEP } = require("../lib/ir.js");
const { simulate, describePath } = require("../lib/sim.js");
const { Terms, C, slice } = require("../lib/terms.js");
const { allFunctions, fnLabel, lower, callees, reaches, changesThis } = require("../lib/util.js");
const X = require("../lib/crypto.js");
const P04 = require("./P04.js");

const RECEIVE = /^transport\/0_transport\.ts#Transport\.receive$/;
module.exports = {
  technique: "typestate dataflow with a forward data-dependence (taint) closure over the SSA form",
  explanation: "The function that reads packets from the transport of an encrypting session is lowered with its helpers inlined. Everything computed from the output of the block cipher is the tainted set. On every path, each use of a tainted value other than computing the message key, reading the header and logging must be preceded by three successful tests: the packet's key identifier equals the session's, the message key of the packet equals the middle of the hash over the server-to-client part of the key and the decrypted text, over its whole length, and the 64 bits at offset 8 of the plaintext equal the session identifier. The decryption key and IV must be the ones derived for the server-to-client direction from the very message key that is compared.",
  rules: ["key and IV derived for direction 8", "key identifier tested before use", "message key tested before use", "session identifier tested before use", "every delivery path is behind the authenticated receive"],
  assumptions: ["sha256 and IGE decryption compute what their names say"],
  run(ctx) {
    const p = ctx.p; P04.prepare(ctx);
    let n = 0;
    for (const fn of allFunctions(p)) {
      const cls = P04.classOf(fn); if (!cls || !P04.classEncrypts(p, cls)) continue;
      let has = false;
      const visit = (x) => { if (x !== fn && ts.isFunctionLike(x) && x.body) return; if (ts.isCallExpression(x) && RECEIVE.test(p.resolveCallee(x).name ?? "")) has = true; ts.forEachChild(x, visit); };
      ts.forEachChild(fn, visit);
      if (!has) continue;
      n++;
      // judge from the outermost function of the class that waits for this one, so that tests made by the caller count
      const roots = topCallers(p, cls, fn);
      for (const r of roots) judge(ctx, r, fn);
    }
    ctx.need(n, "a function that reads packets");
    ctx.floor("tainted use after authentication", 3); ctx.floor("decryption key", 1); ctx.floor("cipher input", 1);
  },
};
function topCallers(p, cls, fn, seen = new Set()) {
  if (seen.has(fn)) return []; seen.add(fn);
  const callers = [];
  for (const m of cls.members) { if (!m.body || m === fn) continue; for (const c of callees(p, m)) if (c.fn === fn && (ts.isAwaitExpression(c.call.parent) || ts.isReturnStatement(c.call.parent))) callers.push(m); }
  if (!callers.length) return [fn];
  return callers.flatMap((c) => topCallers(p, cls, c, seen));
}
function judge(ctx, fn, reader) {
  const p = ctx.p, label = fnLabel(p, fn);
  const onPath = (f) => reaches(p, f, (n) => RECEIVE.test(n) || /ige256Decrypt$/.test(n)) || !changesThis(p, f);
  const u = lower(p, fn, { inline: (n, f) => DEEP.inline(n) && onPath(f) });
  const vals = new Map(); for (const b of u.blocks) for (const v of [...b.phis, ...b.insts]) vals.set(v.id, v);
  const terms = new Terms(); const ofTerm = (t) => (t.h === "val" ? vals.get(t.n) : undefined);
  // ciphers
  const dec = []; for (const b of u.blocks) for (const v of b.insts) if (v.op === "Call" && /ige256Decrypt$/.test(v.name ?? "")) dec.push(v);
  if (!dec.length) { ctx.violate({ rule: "decryption key", key: label, at: p.loc(fn), message: `${label} reads packets but never decrypts them` }); return; }
  const info = new Map(); const packets = new Set();
  for (const b of u.blocks) for (const v of b.insts) if (v.op === "Call" && RECEIVE.test(v.name ?? "")) packets.add(terms.of(v).key);
  for (const v of dec) {
    const [buf, key, iv] = v.callArgs.map((a) => terms.of(a));
    const k = X.matchKdf(key, iv, 8);
    ctx.ob("decryption key", !!k && /^this\.#?\w+$/.test(k.A.key), { key: label + "|kdf", at: p.loc(v.ast), message: `${label}: the AES key and IV are not those MTProto 2.0 derives from the session's authorization key and the message key for packets sent by the server` });
    info.set(v, k); void buf;
  }
  const tainted = X.forward(u, dec, (w) => w.op === "Bin" && /^[=!]==?$|^[<>]/.test(w.operator) || (w.op === "Call" && (/#sha256$|#concat$|_logger\.ts#|#assertEquals$/.test(w.name ?? ""))) || w.op === "Call" && w.targetFn && /logger/i.test(w.name ?? ""));
  const ranges = new Map();
  const done = new Map();
  const harmless = (v) => v.op === "Phi" || v.op === "Await" || v.op === "Id" || v.op === "GetProp" || v.op === "GetElem" || v.op === "Bin" || v.op === "Un" || v.op === "Array" || v.op === "IterElem" || v.op === "IterHas" || v.op === "IterIndex" || v.op === "Store" || v.op === "Load" || v.op === "Enter" || v.op === "Leave" || v.op === "Object" || v.op === "Template" || v.op === "Closure" || v.op === "Return" && v.ast !== undefined && false ||
    (v.op === "New" && /TLReader|Uint8Array|DataView/.test(v.name ?? v.cls ?? "")) ||
    (v.op === "Call" && /#(sha256|concat|assertEquals|intFromBytes|timingSafeEqual|equals|bufferEquals)$|_logger\.ts#|#TLReader\.(read|unread)(Int|View)?\w*$|\.(subarray|slice|every|some|getBigInt64|getBigUint64|compare)$|#ige256Decrypt$/.test(v.name ?? ""));
  simulate(u, {
    init: { r: {}, k: 0, m: 0, s: 0 },
    inst(s, v, cx) {
      s = X.trackReader(s, v, cx, ranges);
      if (v.op === "Call" && RECEIVE.test(v.name ?? "")) return { r: {}, k: 0, m: 0, s: 0 };
      if (v.op === "Call" && /ige256Decrypt$/.test(v.name ?? "")) { ctx.count("cipher input"); return s; }
      const uses = [...v.args, ...(v.props?.map((q) => q.value) ?? [])].map(resolve).some((a) => tainted.has(a));
      if (uses && !harmless(v)) note(v, s, cx);
      return s;
    },
    afterInvoke(s, v, cx) { // an assertion that returned
      if (v.op === "Call" && /#assertEquals$|#assertStrictEquals$/.test(v.name ?? "")) { const [a, b] = v.callArgs.map((x) => cx.term(x)); return learn(s, a, b, cx); }
      return s;
    },
    edge(s, t, truth, term, cx) {
      const e = X.equalityTest(terms, t, ofTerm);
      if (e && e.eq === truth) return learn(s, e.a, e.b, cx);
      return s;
    },
  }, { terms, maxStates: 4000 });
  function note(v, s, cx) {
    const at = p.loc(v.ast ?? fn), what = v.name ?? v.op;
    for (const [f, rule, msg] of [["k", "key identifier", "the packet was shown to name this session's authorization key"], ["m", "message key", "its message key was compared with the one computed from the decrypted text"], ["s", "session identifier", "its session identifier was compared with the session's"]]) {
      const id = at + what + f + !!s[f]; if (done.has(id)) continue; done.set(id, 1);
      ctx.ob("tainted use after authentication", !!s[f], { key: `${label}|${rule}|${what}`, at, message: `${label}: decrypted data reaches ${what} before ${msg}`, path: s[f] ? undefined : describePath(p, cx.path()) });
    }
  }
  function rangeOf(t) { const m = /%(\d+);$/.exec(t.key); if (!m) return; const r = ranges.get(+m[1]); return r && t.h === "call" ? r : undefined; }
  function learn(s, a, b, cx) {
    for (const [x, y] of [[a, b], [b, a]]) {
      const r = rangeOf(x);
      if (/^this\.#?\w+$/.test(y.key)) {
        const f = y.key.slice(5);
        if (r && r.from === 0 && r.method === "readInt64" && ctx.keyIds.has(f) && [...packets].some((q) => r.base.key.includes(q))) s = { ...s, k: 1 };
        if (r && r.from === 8 && r.method === "readInt64" && ctx.sessionIds.has(f) && dec.some((d) => r.base.key.includes(terms.of(d).key))) s = { ...s, s: 1 };
      }
      // message key
      for (const d of dec) {
        const k = info.get(d); if (!k) continue;
        const want = X.messageKey(k.A, terms.of(d), 8);
        if (x.key === k.m.key && y.key === want.key) s = { ...s, m: 1 };
        if (y.h === "ast" && x.key === want.key || y.h === "ast" && x.key === k.m.key) s = { ...s, m: 1 };
      }
    }
    return s;
  }
}
