"use strict";
const { ts } = require("../lib/project.js");
const { resolve, DEEP } = require("../lib/ir.js");
const { simulate, describePath } = require("../lib/sim.js");
const { Terms, PhiTrack, mk } = require("../lib/terms.js");
const { allFunctions, fnLabel, lower, enclosing, callees } = require("../lib/util.js");
const mods = (m, k) => !!(ts.canHaveModifiers(m) && ts.getModifiers(m)?.some((x) => x.kind === k));
const isInternal = (m) => ts.getJSDocTags(m).some((t) => t.tagName.text === "internal");

module.exports = {
  technique: "type-checker comparison of the two client classes, dataflow over every forwarding method, typestate over both message loops, and symmetric-table analysis of error serialisation",
  explanation: "Public methods of the client and of its worker counterpart are compared by name, parameters and types. Every method of the counterpart is lowered; on each normal path it must forward exactly once, under its own name, all its parameters in order, and return what comes back; compositions of other operations are checked on their own terms. The request tables of both sides are checked: a request is registered under a fresh identifier before it is posted, carries client, method and arguments, and the answer settles exactly the entry of that identifier. The loop in the worker must answer each request once, under its own identifier, with the result or the serialised failure. For every exported error class the pair of serialisation and deserialisation is followed through both functions and must give the same class with the constructor arguments it was made from.",
  rules: ["operation available in both", "same parameters", "forwards its own name", "forwards all arguments in order", "returns the answer", "request registered and posted", "answer settles the request with the same identifier", "worker answers every request", "error kind survives", "error details survive", "updates and invoke errors cross the boundary", "client options cross the boundary"],
  assumptions: ["structured cloning preserves plain data", "messages are delivered in order"],
  run(ctx) {
    const p = ctx.p;
    const client = ctx.need(p.findClass("Client").find((c) => /client/.test(p.rel(c.getSourceFile()))), "class Client");
    const disp = ctx.need(p.findClass("ClientDispatcher")[0], "class ClientDispatcher");
    const generic = ctx.need(p.findClass("ClientGeneric")[0], "class ClientGeneric");
    const pub = (c) => c.members.filter((m) => ts.isMethodDeclaration(m) && ts.isIdentifier(m.name) && !mods(m, ts.SyntaxKind.PrivateKeyword) && !isInternal(m));
    const g = new Map(); for (const m of generic.members) if (ts.isMethodDeclaration(m)) g.set(m.name.text, m);
    const cm = new Map(pub(client).map((m) => [m.name.text, m])), dm = new Map(pub(disp).map((m) => [m.name.text, m]));
    for (const [n, m] of cm) {
      const d = dm.get(n);
      if (!ctx.ob("operation available in both", !!d, { key: n, at: p.loc(m), message: `Client.${n} has no counterpart on ClientDispatcher` })) continue;
      const sig = (x) => x.parameters.map((q) => (q.dotDotDotToken ? "..." : "") + (q.questionToken || q.initializer ? "?" : "") + p.checker.typeToString(p.checker.getTypeAtLocation(q), undefined, ts.TypeFlags.NoTruncation | ts.TypeFormatFlags.NoTruncation));
      const a = sig(m), b = sig(d); const names = (x) => x.parameters.map((q) => q.name.getText().replace(/^_/, ""));
      ctx.ob("same parameters", a.length === b.length && a.every((x, i) => x === b[i] || strip(x) === strip(b[i])) && names(m).every((x, i) => x === names(d)[i]), { key: n, at: p.loc(d), message: `ClientDispatcher.${n}(${names(d).join(", ")}) does not take the parameters of Client.${n}(${names(m).join(", ")})` });
    }
    for (const [n, m] of dm) if (g.has(n)) ctx.ob("operation available in both", cm.has(n), { key: n, at: p.loc(m), message: `ClientDispatcher.${n} has no counterpart on Client` });
    // the posting method: the one that registers and posts
    const tables = tableClasses(p);
    const dispatch = ctx.need(tables.find((t) => t.cls === disp)?.post, "the method of ClientDispatcher that posts requests");
    for (const [n, m] of dm) forward(ctx, n, m, dispatch, cm, g);
    for (const t of tables) requestTable(ctx, t);
    workerLoop(ctx, client);
    errors(ctx);
    boundary(ctx, disp, dispatch);
    ctx.floor("operation available in both", 800); ctx.floor("same parameters", 400); ctx.floor("forwards its own name", 400); ctx.floor("request registered and posted", 2);
    ctx.floor("answer settles the request with the same identifier", 4); ctx.floor("worker answers every request", 3); ctx.floor("error kind survives", 8); ctx.floor("error details survive", 8); ctx.floor("crosses the boundary", 6);
  },
};
function strip(s) { return s.replace(/\| undefined/g, "").replace(/\s/g, ""); }

/** parameters of a function in order, as terms */
function forward(ctx, n, m, dispatch, cm, g) {
  const p = ctx.p, label = fnLabel(p, m);
  const u = lower(p, m, { inline: DEEP.inline ? (nm, f, fr) => f !== dispatch && DEEP.inline(nm, f, fr) : undefined, never: (nm, f) => f === dispatch || !samePrivate(p, f, m) });
  const terms = new Terms();
  if (!g.has(n) && !cm.has(n)) return; // housekeeping of the counterpart itself
  const sends = new Set();
  for (const b of u.blocks) for (const v of b.insts) if (v.op === "Call" && v.targetFn === dispatch) sends.add(v);
  const params = m.parameters.map((q, i) => i);
  const retVoid = /^Promise<void>$/.test(p.checker.typeToString(p.checker.getReturnTypeOfSignature(p.checker.getSignatureFromDeclaration(m))));
  if (!sends.size) {
    // composition: every parameter goes into an operation, and nothing is left out
    const used = new Set(); const ops = new Set();
    for (const b of u.blocks) for (const v of b.insts) if (v.op === "Call") {
      const nm = (v.name ?? "").split(/[#.]/).pop(); if (!/logger|Logger/.test(v.name ?? "")) ops.add(nm);
      for (const a of v.callArgs ?? []) for (const t of sub(terms.of(a))) if (t.h === "param") used.add(parseInt(t.n));
    }
    for (const b of u.blocks) for (const v of b.insts) if (v.op === "GetProp") { const t = terms.of(v.args[0]); if (t.h === "param") used.add(parseInt(t.n)); }
    for (const q of params) ctx.ob("composition uses every parameter", used.has(q), { key: label + "|" + m.parameters[q].name.getText(), at: p.loc(m), message: `${label} is not forwarded and does not pass its parameter ${m.parameters[q].name.getText()} to any operation` });
    ctx.ob("composition of operations", ops.size > 0, { key: label, at: p.loc(m), message: `${label} neither reaches the worker nor another operation` });
    if (m.asteriskToken) stream(ctx, m, u, label);
    return;
  }
  let returned = 0;
  simulate(u, {
    init: { sent: 0, k: "" },
    inst(s, v, cx) {
      if (v.op === "Call" && v.targetFn === dispatch) {
        const a = v.callArgs ?? []; const nm = resolve(a[0]);
        const isConst = nm.op === "Const";
        ctx.ob("forwards its own name", isConst && nm.value === n, { key: label, at: p.loc(v.ast), message: `${label} reaches the operation ${isConst ? JSON.stringify(nm.value) : "named at run time"} instead of "${n}"` });
        const got = a.slice(1).flatMap((x) => { const t = cx.term(x); return t.h === "spread" && t.a[0].h === "arr" ? t.a[0].a : [t]; }).map((t) => { return t.h === "param" ? parseInt(t.n) : t.key.slice(0, 60); });
        const ok = got.length === params.length && got.every((x, i) => x === i);
        ctx.ob("forwards all arguments in order", ok, { key: label, at: p.loc(v.ast), message: `${label} forwards (${got.map((x) => typeof x === "number" ? m.parameters[x]?.name.getText() : x).join(", ")}) instead of its parameters (${m.parameters.map((q) => q.name.getText()).join(", ")})` });
        return { ...s, sent: s.sent + 1, k: cx.term(v).key };
      }
      if (v.op === "Await" && s.k && cx.term(v.args[0]).key === s.k) return { ...s, awaited: true };
      if (v.op === "Return") { const t = v.args.length ? cx.term(v.args[0]).key : ""; return { ...s, ret: t === s.k ? "answer" : t && t !== "undefined" ? "other" : "nothing" }; }
      return s;
    },
    exit(s, kind, cx) {
      if (kind !== "return") return;
      returned++;
      const okRet = s.sent === 1 && (retVoid ? s.ret !== "other" && (s.awaited || s.ret === "answer") : s.ret === "answer");
      ctx.ob("returns the answer", okRet, { key: label, at: p.loc(m), message: `${label}: ${s.sent !== 1 ? `sends ${s.sent} requests on a path` : retVoid ? "does not wait for the answer" : "does not return what came back"}`, path: describePath(p, cx.path()) });
    },
  }, { terms });
  if (!returned) ctx.violate({ rule: "returns the answer", key: label, at: p.loc(m), message: `${label} never completes` });
}
/** helpers of the same class are looked through */
function samePrivate(p, f, m) { return f && f.parent === m.parent && f.name && ts.isPrivateIdentifier(f.name); }
function sub(t, out = []) { out.push(t); for (const a of t.a ?? []) sub(a, out); for (const q of t.props ?? []) if (q.t) sub(q.t, out); return out; }

/** a stream composed of chunks: offset advances by what was delivered, chunks are yielded, the end is where a chunk is short or empty, every option goes through */
function stream(ctx, m, u, label) {
  const p = ctx.p, terms = new Terms();
  let chunk = null;
  for (const b of u.blocks) for (const v of b.insts) if (v.op === "Call" && (v.callArgs ?? []).some((a) => (terms.of(a).props ?? []).some((q) => q.key === "offset"))) chunk = v;
  if (!ctx.ob("stream forwards offset", !!chunk, { key: label, at: p.loc(m), message: `${label} does not request chunks by offset` })) return;
  const objV = chunk.callArgs.map(resolve).find((a) => a.op === "Object" && a.props.some((q) => q.key === "offset"));
  const off = resolve(objV.props.find((q) => q.key === "offset").value);
  // options of the parameter object
  const i = m.parameters.findIndex((q) => /Params/.test(q.type?.getText() ?? "")); const prm = m.parameters[i];
  const opts = prm ? p.checker.getNonNullableType(p.checker.getTypeAtLocation(prm)).getProperties().map((s) => s.name) : [];
  const reads = new Set(); for (const b of u.blocks) for (const v of b.insts) if (v.op === "GetProp") { const t = terms.of(v.args[0]); if (t.h === "param" && parseInt(t.n) === i) reads.add(v.name); }
  const spread = objV.props.some((q) => q.spread);
  for (const o of opts) ctx.ob("stream uses option", spread || (o === "signal" ? reads.has(o) : objV.props.some((q) => q.key === o)), { key: label + "|" + o, at: p.loc(m), message: `${label} ignores the option ${o}` });
  // offset: the loop-carried value is the initial option, or itself plus the length of the chunk
  const chunkKey = terms.of(chunk).key;
  const vals = new Set(), seen = new Set(); const go = (v) => { v = resolve(v); if (seen.has(v)) return; seen.add(v); if (v.op === "Phi") v.args.forEach(go); else vals.add(v); }; go(off);
  let adv = 0;
  for (const v of vals) { const t = terms.of(v); const l = t.lin; if (l && [...l.m.values()].some((x) => x.k === 1 && x.t.key === chunkKey + ".byteLength" || x.t.key === chunkKey + ".length") && (l.c ?? 0) === 0 && l.m.size === 2) adv++; else if (/offset$/.test(t.key) || t.h === "const") continue; else adv = -99; }
  ctx.ob("stream advances by the chunk", adv >= 1, { key: label, at: p.loc(chunk.ast), message: `${label}: the offset of the next chunk must be the previous offset plus the length of the chunk delivered` });
  let y = 0; for (const b of u.blocks) for (const v of b.insts) if (v.op === "Yield" && v.args.length && terms.of(v.args[0]).key === chunkKey) y++;
  ctx.ob("stream yields the chunk", y >= 1, { key: label, at: p.loc(m), message: `${label} does not yield the chunks it receives` });
}

/** classes with a map field of promise resolvers: request tables */
function tableClasses(p) {
  const out = [];
  for (const n of ["ClientDispatcher", "ClientReceiver"]) for (const cls of p.findClass(n)) {
    const f = cls.members.find((m) => ts.isPropertyDeclaration(m) && /PromiseWithResolvers/.test(m.initializer?.getText() ?? m.type?.getText() ?? "") && /Map/.test(m.initializer?.getText() ?? ""));
    if (!f) continue;
    const touches = (m, meth) => { let y = false; if (m.body) p.walk(m, (x) => { if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && x.expression.name.text === meth && p.symbolOf(x.expression.expression)?.valueDeclaration === f) y = true; }); return y; };
    const ms = cls.members.filter((m) => ts.isMethodDeclaration(m) && m.body);
    const post = ms.find((m) => touches(m, "set")) ;
    const settle = ms.find((m) => touches(m, "get") && m !== post);
    out.push({ cls, field: f, post, settle, name: n });
  }
  return out;
}
function requestTable(ctx, t) {
  const p = ctx.p, F = "this." + t.field.name.text;
  ctx.need(t.post, t.name + ": method that registers requests"); ctx.need(t.settle, t.name + ": method that settles requests");
  {
    const label = fnLabel(p, t.post), u = lower(p, t.post, DEEP), terms = new Terms();
    simulate(u, {
      init: { st: "", posted: 0 },
      inst(s, v, cx) {
        if (v.op === "Call" && v.method === "set" && v.recv && cx.term(v.recv).key === F) return { ...s, st: "registered", id: cx.term(v.callArgs[0]).key, pr: cx.term(v.callArgs[1]).key };
        if (v.op === "Call" && v.method === "delete" && v.recv && cx.term(v.recv).key === F && cx.term(v.callArgs[0]).key === s.id) return { ...s, st: "removed" };
        if (v.op === "Call" && v.method === "reject" && v.recv && cx.term(v.recv).key === s.pr) return { ...s, rejected: true };
        if (v.op === "Call" && /postMessage$/.test(v.method ?? v.name ?? "")) {
          const o = cx.term(v.callArgs[0]); const get = (k) => o.props?.find((q) => q.key === k)?.t;
          const args = get("args");
          const rest = t.post.parameters.findIndex((q) => q.dotDotDotToken);
          const ok = s.st === "registered" && get("type")?.n === "request" && get("id")?.key === s.id && /^this\./.test(get("clientId")?.key ?? "") && get("method")?.h === "param" && parseInt(get("method").n) === 0 && (args?.h === "param" && parseInt(args.n) === rest || args?.h === "arr" && args.a.length === 1 && args.a[0].h === "spread" && args.a[0].a[0].h === "param");
          ctx.ob("request registered and posted", ok, { key: label, at: p.loc(v.ast), message: `${label}: a request must be registered under its identifier before it is posted, with this client's identifier, the method and the arguments as given (${s.st || "not registered"}; ${o.key.slice(0, 140)})` });
          return { ...s, posted: s.posted + 1 };
        }
        if (v.op === "Return") { const k = v.args.length ? cx.term(v.args[0]).key : ""; return { ...s, ret: k }; }
        return s;
      },
      exit(s, kind, cx) {
        if (kind !== "return") return;
        const ok = s.ret === s.pr + ".promise" && (s.st === "registered" && s.posted === 1 || s.st === "removed" && s.rejected);
        ctx.ob("request registered and posted", ok, { key: label + "|exit", at: p.loc(t.post), message: `${label}: must return the promise registered for the request, and leave an entry exactly when the request was posted`, path: describePath(p, cx.path()) });
      },
    }, { terms });
    // identifiers are fresh
    const ids = u.blocks.flatMap((b) => b.insts).filter((v) => v.op === "Call" && v.method === "set" && terms.of(v.recv).key === F).map((v) => terms.of(v.callArgs[0]).key);
    ctx.ob("request registered and posted", ids.every((k) => /randomUUID|getRandomId|\+\+|\+/.test(k)), { key: label + "|fresh", at: p.loc(t.post), message: `${label}: the identifier of a request is not fresh (${ids.join()})` });
  }
  {
    const label = fnLabel(p, t.settle), u = lower(p, t.settle, { never: (n, f) => !samePrivate(p, f, t.settle) }), terms = new Terms();
    const paths = { ok: 0 };
    simulate(u, {
      init: { err: "", got: "", settled: "", del: false, other: false },
      edge(s, c, truth, term, cx) {
        let k = c, tr = truth; while (k.h === "not") { k = k.a[0]; tr = !tr; }
        if (/^\$0[^.]*\.isError$/.test(k.key)) return { ...s, err: tr ? "error" : "data" };
        if (k.h === "bin" && k.n === "===" && /\.clientId/.test(k.key)) return { ...s, other: !tr };
        if (k.h === "bin" && k.n === "===" && /\.id$/.test(k.a[0].key) && k.a[1].n === "") return { ...s, update: tr };
        if (s.got && k.h === "isnull" && k.a[0].key === s.got && tr) return { ...s, settled: "absent" };
        return s;
      },
      inst(s, v, cx) {
        if (v.op === "Call" && v.method === "get" && v.recv && cx.term(v.recv).key === F) return { ...s, got: cx.term(v).key, idOk: /^\$0[^.]*\.id$/.test(cx.term(v.callArgs[0]).key) };
        if (v.op === "Call" && (v.method === "resolve" || v.method === "reject") && v.recv && s.got && cx.term(v.recv).key === s.got) {
          const a = cx.term(v.callArgs[0]).key;
          const good = v.method === "resolve" ? s.err === "data" && /^\$0[^.]*\.data$/.test(a) : s.err === "error" && /deserializeWorkerError\(\$0[^.]*\.data/.test(a);
          ctx.ob("answer settles the request with the same identifier", good && s.idOk && !s.other, { key: label + "|" + v.method, at: p.loc(v.ast), message: `${label}: an answer must ${v.method === "resolve" ? "resolve the request with its data when it is not an error" : "reject the request with the deserialised error when it is an error"} (${a.slice(0, 80)})` });
          return { ...s, settled: v.method };
        }
        if (v.op === "Call" && v.method === "delete" && v.recv && cx.term(v.recv).key === F) return { ...s, del: /^\$0[^.]*\.id$/.test(cx.term(v.callArgs[0]).key) };
        if (v.op === "Call" && s.update && v.callArgs?.some((a) => /^\$0[^.]*\.data$/.test(cx.term(a).key))) return { ...s, handled: true };
        return s;
      },
      exit(s, kind, cx) {
        if (kind !== "return") return;
        if (s.other) { ctx.ob("answer settles the request with the same identifier", !s.settled, { key: label + "|foreign", at: p.loc(t.settle), message: `${label}: an answer of another client settles a request here` }); return; }
        if (s.update) { ctx.ob("crosses the boundary", !!s.handled, { key: label + "|update", at: p.loc(t.settle), message: `${label}: an update received from the worker is not handled`, path: describePath(p, cx.path()) }); return; }
        const ok = s.settled && s.del; if (ok) paths.ok++;
        ctx.ob("answer settles the request with the same identifier", ok, { key: label + "|exit", at: p.loc(t.settle), message: `${label}: on this path an answer is not delivered to its request, or the request is not forgotten`, path: describePath(p, cx.path()) });
      },
    }, { terms });
  }
}

function workerLoop(ctx, client) {
  const p = ctx.p;
  // functions that call a method chosen by the message: f[message.method](...message.args), and those that answer requests of the other side
  const loops = allFunctions(p).filter((f) => { let y = false; p.walk(f, (n) => { if (n !== f && ts.isFunctionLike(n) && n.body) return false; if (ts.isPropertyAssignment(n) && n.name.getText() === "isError") y = true; }); return y && /client\/7_|worker\.ts$/.test(p.rel(f.getSourceFile())); });
  ctx.need(loops.length, "the loops that answer requests");
  for (const f of loops) {
    const label = fnLabel(p, f); const top = !ts.isFunctionDeclaration(f) || f.name.text !== "initClient";
    const u = lower(p, f, { inline: (n) => /initClient/.test(n) || undefined, never: (n, g) => /Receiver|serializeWorkerError|handleResponse|handleInvokeError|sendMessage/.test(n) }), terms = new Terms();
    const objs = new Map(); // response objects
    for (const b of u.blocks) for (const v of b.insts) if (v.op === "Object" && v.props.some((q) => q.key === "isError")) objs.set(v.id, v);
    const req = (k) => new RegExp(`^(\\$\\d+|[^()]*)[^()]*\\.${k}$`);
    let called = null;
    for (const b of u.blocks) for (const v of b.insts) if (v.op === "Call" && (v.dynamic || ts.isCallExpression(v.ast) && ts.isElementAccessExpression(stripE(v.ast.expression)))) called = v;
    for (const v of objs.values()) {
      const t = terms.of(v); const get = (k) => t.props.find((q) => q.key === k)?.t; const err = get("isError");
      const idK = get("id")?.key ?? "", cl = get("clientId")?.key ?? "";
      if (get("id")?.n === "" && get("id")?.h === "const") { ctx.ob("crosses the boundary", err?.n === false && /\.update$/.test(get("data")?.key ?? ""), { key: label + "|update", at: p.loc(v.ast), message: `${label}: an update must be sent as data, not as an error, with the update of the context` }); continue; }
      const sameMsg = idK.replace(/\.id$/, "") === cl.replace(/\.clientId$/, "");
      const dk = get("data")?.key ?? "";
      const dataOk = err?.h === "const" && (err.n === true ? /serializeWorkerError\(/.test(dk) : !/serializeWorkerError/.test(dk));
      const inCatch = enclosingCatch(v.ast);
      const errOk = !inCatch || err?.n === true;
      ctx.ob("worker answers every request", req("id").test(idK) && req("clientId").test(cl) && sameMsg && dataOk && errOk && get("type")?.n === "response", { key: label + "|response " + dk.slice(0, 50), at: p.loc(v.ast), message: `${label}: a response must name the client and the request it answers and carry either the result or the serialised error (id ${idK.slice(0, 40)}, client ${cl.slice(0, 40)}, isError ${err?.key}, data ${dk.slice(0, 60)})` });
      if (called && err?.n === false && !inCatch && f === enclosing(v.ast)) {
        const ck = terms.of(called).key;
        ctx.ob("worker answers every request", dk === ck || !/message\.|method/.test("") && (dk === "null" || dk === ck), { key: label + "|result", at: p.loc(v.ast), message: `${label}: the response does not carry the result of the operation` });
      }
      if (inCatch && err?.n === true) {
        const cv = /serializeWorkerError\((.*)\)/.exec(dk)?.[1] ?? "";
        ctx.ob("worker answers every request", /CatchVal|%|new:/.test(cv), { key: label + "|failure " + dk.slice(0, 40), at: p.loc(v.ast), message: `${label}: the response to a failed request does not carry the failure` });
      }
    }
    if (called) {
      const a = (called.callArgs ?? []).map((x) => terms.of(x));
      ctx.ob("worker answers every request", a.length === 1 && a[0].h === "spread" && /\.args$/.test(a[0].a[0].key), { key: label + "|args", at: p.loc(called.ast), message: `${label}: the operation must be called with exactly the arguments of the request` });
      const e = stripE(called.ast.expression); ctx.ob("worker answers every request", /\.method$/.test(terms.of(called.elemKey ?? called).key) || /method/.test(e.argumentExpression?.getText() ?? ""), { key: label + "|method", at: p.loc(called.ast), message: `${label}: the operation called is not the one the request names` });
    }
    // every path of a request ends in exactly one response
    if ((ts.isFunctionDeclaration(f) || ts.isArrowFunction(f)) && callsPost(p, f)) {
      simulate(u, {
        init: { sent: 0, kind: "", resp: "" },
        phi(s, ph, a, t) { const id = objId(t, objs, s); return id !== undefined ? { ...s, al: { ...(s.al ?? {}), [ph.id]: id } } : s; },
        edge(s, c, truth) {
          let k = c, tr = truth; while (k.h === "not") { k = k.a[0]; tr = !tr; }
          if (k.h === "bin" && k.n === "===" && /\.type$/.test(k.a[0].key) && k.a[1].n === "response") return { ...s, kind: tr ? "response" : s.kind || "request" };
          if (k.h === "bin" && k.n === "===" && /\.type$/.test(k.a[0].key) && k.a[1].n === "request") return { ...s, kind: tr ? "request" : "none" };
          if (k.h === "bin" && k.n === "===" && /\.method$/.test(k.a[0].key) && k.a[1].n === "handleInvokeError") return { ...s, kind: tr ? s.kind : "none" };
          return s;
        },
        inst(s, v, cx) {
          if (v.op === "Call" && v.method === "get" && /Map/.test(v.name ?? "") && /\.clientId$/.test(cx.term(v.callArgs[0]).key)) return { ...s, cl: cx.term(v).key };
          if (v.op === "Call" && /(postMessage|sendMessage)$/.test(v.method ?? v.name ?? "") && !v.inlined) { const id = objId(cx.term(v.callArgs[0]), objs, s); return { ...s, sent: Math.min(2, s.sent + 1), resp: id !== undefined }; }
          return s;
        },
        exit(s, kind, cx) {
          if (kind !== "return") return;
          if (s.kind !== "request") return;
          const unknown = s.cl && cx.eval({ h: "isnull", a: [{ key: s.cl, h: "call" }], key: "" }) === true;
          if (s.sent === 0 && (unknown || cx.facts.get(s.cl ?? "")?.truth === false) && ts.isArrowFunction(f)) return;
          ctx.ob("worker answers every request", s.sent === 1, { key: label + "|paths", at: p.loc(f), message: `${label}: a request is answered ${s.sent === 0 ? "never" : "more than once"} on this path`, path: describePath(p, cx.path()) });
        },
      }, { terms });
    }
  }
}
function objId(t, objs, s) { const m = /%(\d+);$/.exec(t.key); if (t.h === "obj") return 1; if (t.h === "val" && s.al?.[t.n] !== undefined) return s.al[t.n]; void m; return undefined; }
function callsPost(p, f) { let y = false; p.walk(f, (n) => { if (ts.isCallExpression(n) && /(postMessage|sendMessage)$/.test(n.expression.getText())) y = true; }); return y; }
function stripE(e) { while (ts.isParenthesizedExpression(e) || ts.isNonNullExpression(e) || ts.isAsExpression(e)) e = e.expression; return e; }
function enclosingCatch(n) { let q = n; while (q && !ts.isFunctionLike(q)) { if (ts.isCatchClause(q)) return true; q = q.parent; } return false; }

function errors(ctx) {
  const p = ctx.p;
  const ser = ctx.need(allFunctions(p).find((f) => f.name?.text === "serializeWorkerError"), "serializeWorkerError"), des = ctx.need(allFunctions(p).find((f) => f.name?.text === "deserializeWorkerError"), "deserializeWorkerError");
  // exported concrete error classes of the library: subclasses of MtkrutoError; server errors as one family
  const root = ctx.need(p.findClass("MtkrutoError")[0], "class MtkrutoError");
  const superDecl = (d) => { const h = d.heritageClauses?.find((x) => x.token === ts.SyntaxKind.ExtendsKeyword); const s = h && p.symbolOf(h.types[0].expression); return s?.valueDeclaration && ts.isClassDeclaration(s.valueDeclaration) ? s.valueDeclaration : undefined; };
  const chain = (d) => { const o = []; let c = d; while (c) { o.push(c.name.text); c = superDecl(c); } o.push("Error"); return o; };
  const list = [];
  for (const sf of p.sourceFiles) ts.forEachChild(sf, (n) => { if (ts.isClassDeclaration(n) && n.name && /^[0-4]_errors\.ts$/.test(p.rel(sf)) && mods(n, ts.SyntaxKind.ExportKeyword) && !mods(n, ts.SyntaxKind.AbstractKeyword) && superDecl(n) === root) list.push(n); });
  ctx.need(list.length, "exported error classes");
  for (const d of list) {
    const name = d.name.text, ch = chain(d);
    const info = ctorInfo(p, d);
    // follow serialisation
    const u = lower(p, ser, {}), terms = new Terms(); const outs = [];
    simulate(u, {
      init: { r: "" },
      edge(s, c, truth, term) {
        const v = resolve(term.cond);
        if (v.op === "Bin" && v.operator === "instanceof") { const k = (resolve(v.args[1]).name ?? "").split("#").pop(); return truth === ch.includes(k) ? s : null; }
        let k = c, tr = truth; while (k.h === "not") { k = k.a[0]; tr = !tr; }
        const m = /instanceof/.test(k.key) ? /([A-Za-z]+)\)?$/.exec(k.key) : null;
        if (m) return tr === ch.includes(m[1]) ? s : null;
        if (k.h === "bin" && k.n === "===" && /\.name$/.test(k.a[0].key) && k.a[1].h === "const") return tr === (k.a[1].n === info.name) ? s : null;
        return s;
      },
      inst(s, v, cx) { if (v.op === "Return") { const t = cx.term(v.args[0]); outs.push({ t, at: v.ast }); } return s; },
    }, { terms });
    const bad = (m, at) => ctx.ob("error kind survives", false, { key: name, at: p.loc(at ?? ser), message: m });
    if (!outs.length) { bad(`${name} is not serialised on any path`); continue; }
    for (const o of outs) {
      const nm = o.t.props?.find((q) => q.key === "name")?.t, args = o.t.props?.find((q) => q.key === "args")?.t;
      const sname = nm?.h === "const" ? nm.n : /\.name$/.test(nm?.key ?? "") ? info.name : undefined;
      if (sname === undefined || args?.h !== "arr") { bad(`${name}: cannot determine what it is serialised to`, o.at); continue; }
      // follow deserialisation
      const u2 = lower(p, des, { never: (n) => /constructTelegramError/.test(n) }), t2 = new Terms(); const made = [];
      simulate(u2, {
        init: {},
        edge(s, c, truth) { let k = c, tr = truth; while (k.h === "not") { k = k.a[0]; tr = !tr; } if (k.h === "bin" && k.n === "===" && /\.name$/.test(k.a[0].key) && k.a[1].h === "const") return tr === (k.a[1].n === sname) ? s : null; if (k.h === "bin" && k.n === "===" && /\.name$/.test(k.a[1].key) && k.a[0].h === "const") return tr === (k.a[0].n === sname) ? s : null; return s; },
        inst(s, v, cx) { if (v.op === "Return") made.push({ v: resolve(v.args[0]), t: cx.term(v.args[0]), at: v.ast }); return s; },
      }, { terms: t2 });
      for (const out of made.length ? made : [{ v: {}, t: { key: "nothing" } }]) {
        const made2 = out.v.op === "New" ? out.v.name.split("#").pop() : out.v.op === "Call" && /constructTelegramError/.test(out.v.name ?? "") ? "TelegramError" : null;
        if (!ctx.ob("error kind survives", made2 === name, { key: name, at: p.loc(out.at ?? des), message: `${name} arrives on the other side of the worker boundary as ${made2 ?? out.t.key.slice(0, 60)}` })) continue;
        // details: constructor argument i of the copy <- args[j] <- field of the original that the constructor fills from argument i
        const argTerms = out.v.op === "New" ? out.v.args.map((a) => t2.of(a)) : out.v.callArgs.map((a) => t2.of(a));
        const src = (t) => { const m = /\.args\[(\d+)\](?:\.(\w+))?$/.exec(t.key); if (!m) return null; let x = args.a[+m[1]]; if (x && m[2]) x = x.props?.find((q) => q.key === m[2])?.t; const f = x && /^\$0[^.]*\.(\w+)$/.exec(x.key); return f ? f[1] : null; };
        if (made2 === "TelegramError") {
          const e = argTerms[0], call = argTerms[1];
          const f = (k) => src(e?.props?.find((q) => q.key === k)?.t ?? { key: "" });
          const ok = f("error_code") === "errorCode" && f("error_message") === "errorMessage" && call && src(call) === "cause";
          ctx.ob("error details survive", ok, { key: name, at: p.loc(out.at), message: `${name}: code, message or call do not survive the worker boundary (code <- ${f("error_code")}, message <- ${f("error_message")}, call <- ${call ? src(call) : "nothing"})` });
          continue;
        }
        for (let i = 0; i < info.fields.length; i++) {
          const want = info.fields[i]; const got = argTerms[i] ? src(argTerms[i]) : null;
          ctx.ob("error details survive", want === null || want.includes(got), { key: name + "|" + i, at: p.loc(out.at), message: `${name}: constructor argument ${i + 1} is rebuilt from ${got ?? "nothing"} instead of ${want?.join(" or ")}` });
        }
      }
    }
  }
}
/** name given to instances, and for each constructor parameter the fields (or accessors) that hold it */
function ctorInfo(p, d) {
  let name = "Error"; const fields = [];
  const c = d.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
  for (const m of d.members) if (ts.isPropertyDeclaration(m) && m.name.text === "name" && m.initializer) name = p.constOf(m.initializer);
  if (c) {
    const u = lower(p, c, {}), terms = new Terms(); const byParam = new Map();
    for (const b of u.blocks) for (const v of b.insts) {
      if (v.op === "SetProp" && terms.of(v.args[0]).h === "this") {
        const x = resolve(v.args[1]); if (v.name === "name" && x.op === "Const") name = x.value;
        const t = terms.of(v.args[1]); if (t.h === "param") { const i = parseInt(t.n); (byParam.get(i) ?? byParam.set(i, []).get(i)).push(v.name); }
      }
      if (v.op === "Call" && v.ast?.expression?.kind === ts.SyntaxKind.SuperKeyword) (v.callArgs ?? v.args ?? []).forEach((a, j) => { const t = terms.of(a); if (t.h === "param" && j === 0) { const i = parseInt(t.n); (byParam.get(i) ?? byParam.set(i, []).get(i)).push("message"); } if (t.h === "spread" && j === 0) { (byParam.get(0) ?? byParam.set(0, []).get(0)).push("message"); } });
    }
    // accessors of private fields
    for (const m of d.members) if (ts.isGetAccessor(m) && m.body) { const r = m.body.statements.find(ts.isReturnStatement)?.expression; if (r && ts.isPropertyAccessExpression(r)) for (const l of byParam.values()) if (l.includes(r.name.text)) l.push(m.name.text); }
    const n = c.parameters.some((q) => q.dotDotDotToken) ? 1 : c.parameters.length;
    for (let i = 0; i < n; i++) fields.push(byParam.get(i) ?? null);
  }
  return { name, fields };
}

/** options, updates and invoke errors between the two sides */
function boundary(ctx, disp, dispatch) {
  const p = ctx.p;
  const rec = ctx.need(p.findClass("ClientReceiver")[0], "class ClientReceiver");
  const ctor = ctx.need(rec.members.find((m) => ts.isConstructorDeclaration(m)), "constructor of ClientReceiver");
  const u = lower(p, ctor, {}), terms = new Terms();
  let pi = ctor.parameters.findIndex((q) => /ClientDispatcherParams/.test(q.type?.getText() ?? ""));
  const news = u.blocks.flatMap((b) => b.insts).filter((v) => v.op === "New" && /#Client$/.test(v.name ?? ""));
  for (const v of news) {
    const t = terms.of(v.args[0]);
    const sp = t.props?.findIndex((q) => q.spread && q.t.h === "param" && parseInt(q.t.n) === pi) ?? -1, st = t.props?.findIndex((q) => q.key === "storage") ?? -1;
    ctx.ob("crosses the boundary", sp >= 0 && st > sp && t.props.length === 2, { key: "client options", at: p.loc(v.ast), message: `the client in the worker must be created with all options given to its counterpart and the storage chosen there` });
  }
  ctx.need(news.length, "creation of the client in the worker");
  // storage kinds
  const kinds = new Map();
  const ph = new PhiTrack(terms);
  simulate(u, { init: { k: "", ph: {} }, phi: (s, f, a, t) => ph.phi(s, f, a, t),
    edge(s, c, truth) { let k = c, tr = truth; while (k.h === "not") { k = k.a[0]; tr = !tr; } if (k.h === "bin") k = mk("bin", k.a.map((x) => ph.expand(x, s)), k.n); if (k.h === "bin" && k.n === "===" && /\.storage$/.test(k.a[0].key) && k.a[1].h === "const" && tr) return { ...s, k: k.a[1].n }; return s; },
    inst(s, v) { if (v.op === "New" && /Storage/.test(v.cls ?? "") && s.k) return { ...s, made: v.cls }; return s; },
    exit(s, kind) { if (s.k) kinds.set(s.k, (kinds.get(s.k) ?? new Set()).add(s.made ?? "")); } }, { terms });
  const decl = p.checker.getTypeAtLocation(ctor.parameters[pi]); const so = p.checker.getNonNullableType(decl).getProperty("storage");
  const want = so ? p.checker.getTypeOfSymbol(so) : null;
  for (const t of want?.isUnion() ? want.types : []) if (t.isStringLiteral()) {
    const got = [...(kinds.get(t.value) ?? [])];
    const cls = got[0]?.toLowerCase() ?? "";
    ctx.ob("crosses the boundary", t.value === "memory" ? got.length <= 1 && (!got[0] || /memory/.test(cls)) : got.length === 1 && cls.includes(t.value), { key: "storage " + t.value, at: p.loc(ctor), message: `the storage option "${t.value}" leads to ${got.join(", ") || "the default storage"}` });
  }
  // invoke errors: what the worker sends is what the counterpart hands to the handlers
  const h = disp.members.find((m) => ts.isMethodDeclaration(m) && m.name.text === "handleInvokeError");
  const sent = []; for (const fn of allFunctions(p)) if (p.rel(fn.getSourceFile()) === p.rel(rec.getSourceFile())) for (const c of callees(p, fn)) if (c.within === fn && c.call.arguments?.[0] && p.constOf(c.call.arguments[0]) === "handleInvokeError") sent.push({ fn, call: c.call });
  ctx.ob("crosses the boundary", sent.length === 1 && !!h, { key: "invoke errors", at: p.loc(rec), message: "errors of invoked functions are not offered to the handlers on the other side" });
  if (sent.length === 1 && h) {
    const fn = sent[0].fn, us = lower(p, fn, { never: () => true }), ts1 = new Terms(); const call = us.blocks.flatMap((b) => b.insts).find((v) => v.op === "Call" && v.ast === sent[0].call);
    const o = ts1.of(call.callArgs[1]); const uh = lower(p, h, { never: () => true }), th = new Terms();
    const hc = uh.blocks.flatMap((b) => b.insts).find((v) => v.op === "Call" && (v.callArgs ?? []).some((a) => th.of(a).props?.some((q) => q.key === "error")));
    const ho = hc && hc.callArgs.map((a) => th.of(a)).find((t) => t.props);
    for (const k of ["error", "function", "n"]) {
      const a = o.props?.find((q) => q.key === k)?.t.key ?? "", b = ho?.props?.find((q) => q.key === k)?.t.key ?? "";
      const ok = k === "error" ? /serializeWorkerError\(\$0[^.]*\.error\)/.test(a) && /deserializeWorkerError\(.*\.args\[0\]\.error\)/.test(b) : new RegExp(`^\\$0[^.]*\\.${k}$`).test(a) && new RegExp(`\\.args\\[0\\]\\.${k}$`).test(b);
      ctx.ob("crosses the boundary", ok, { key: "invoke errors|" + k, at: p.loc(call.ast), message: `invoke errors: ${k} is sent as ${a.slice(0, 60)} and handed over as ${b.slice(0, 80)}` });
    }
    // the verdict comes back
    const back = us.blocks.flatMap((b) => b.insts).some((v) => v.op === "Return" && v.args.length && ts1.of(v.args[0]).key === ts1.of(call).key);
    const back2 = uh.blocks.flatMap((b) => b.insts).some((v) => v.op === "Return" && v.args.length && th.of(v.args[0]).key === th.of(hc).key);
    ctx.ob("crosses the boundary", back && back2, { key: "invoke errors|verdict", at: p.loc(call.ast), message: "the handlers' verdict does not come back to the worker" });
  }
}
