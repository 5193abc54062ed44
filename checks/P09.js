"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { fnLabel } = require("../lib/util.js");
const { model, follow } = require("../lib/pending.js");

const RPC_RESULT = 0xf35c6d01;
module.exports = {
  technique: "typestate dataflow of acknowledgement identifiers over SSA control-flow graphs with exception edges",
  explanation: "The queue of identifiers to acknowledge is found as the array of identifiers that flows into msgs_ack. The method that dispatches received messages is followed, with its helpers, along every normal and exceptional path: from the moment a message is recognised as an answer, an update, a pong, a new-session notice or a notice about an answer, its identifier (or that of the answer named) must be in the queue exactly once before anything else can happen to it. The send loop may send a packet only with the queue empty or with what it took from the queue inside, registered under the acknowledgement's own identifier; what it took must be back in the queue when the packet was not sent. The method told about failed messages must put them back. Nothing else may take identifiers from the queue.",
  rules: ["recognised message is queued", "only what was received is queued", "every message of a container is dispatched", "packet takes the queue along", "unsent acknowledgements return", "reported acknowledgements return", "queue is only emptied into a packet", "periodic packet"],
  assumptions: ["logging, undoing a registration, drawing an identifier, stepping back over bytes just read and serialising a msgs_ack do not fail, and the client's handlers fail only through their promise", "a received message is trusted once decryption has accepted it (P05)"],
  run(ctx) {
    const p = ctx.p, S = ctx.need(p.findClass("SessionEncrypted")[0], "class SessionEncrypted");
    const K = ctx.need(p.findClass("ClientEncrypted")[0], "class ClientEncrypted");
    const M = model(p, [S, K]);
    const methods = S.members.filter((m) => (ts.isMethodDeclaration(m)) && m.body);
    // the queue: arrays of identifiers
    const isBig = (t) => !!(t.flags & ts.TypeFlags.BigIntLike);
    const A = S.members.filter((f) => ts.isPropertyDeclaration(f)).filter((f) => { const t = p.checker.getTypeAtLocation(f); return p.checker.isArrayType(t) && isBig(p.checker.getTypeArguments(t)[0]); }).map((f) => f.name.text);
    ctx.need(A.length === 1, "the queue of identifiers to acknowledge"); const Q = A[0];
    const isQ = (k) => k === "this." + Q;
    const qIn = (v, T) => v.op === "Call" && v.recv && isQ(T(v.recv).key);
    const elemsOf = (t) => t.h === "arr" ? t.a : t.h === "spread" ? [t] : [t];
    void elemsOf;

    // ---- dispatch
    const D = methods.filter((m) => { let y = false; p.walk(m, (n) => { if (ts.isStringLiteral(n) && n.text === "bad_server_salt" && !ts.isLiteralTypeNode(n.parent)) y = true; }); return y; });
    const WANT = { rpc_result: "id", update: "id", pong: "id", new_session_created: "id", msg_detailed_info: "answer", msg_new_detailed_info: "answer" };
    const bodyOf = (m) => m.parameters.findIndex((q) => /Uint8Array/.test(p.checker.typeToString(p.checker.getTypeAtLocation(q))));
    const idOf = (m) => m.parameters.findIndex((q) => isBig(p.checker.getTypeAtLocation(q)));
    // the dispatching function proper: takes an identifier and a body, and decides between kinds
    const roots = methods.filter((m) => idOf(m) >= 0 && bodyOf(m) >= 0 && (D.includes(m) || D.some((d) => callsIt(m, d))) && !methods.some((x) => x !== m && idOf(x) >= 0 && bodyOf(x) >= 0 && callsIt(x, m) && !p.text));
    const root = ctx.need(roots[0] ?? D[0], "the method that dispatches received messages");
    function callsIt(a, b, seen = new Set()) { if (seen.has(a)) return false; seen.add(a); let y = false; p.walk(a, (n) => { if (!y && ts.isCallExpression(n)) { const f = p.resolveCallee(n).fn; if (f === b || f && f.parent === S && f !== a && callsIt(f, b, seen)) y = true; } }); return y; }
    const label = fnLabel(p, root), ID = "$" + idOf(root);
    const inv = methods.filter((m) => /invalidat/i.test(m.name.text));
    const seen = new Set();
    const r = follow(ctx, M, root, {
      never: inv, ctor: true, nothrow: (v) => /#TLReader\.unread\w*$/.test(v.name ?? ""),
      inst(s, v, cx, X, T) {
        if (qIn(v, T) && (v.method === "push" || v.method === "unshift")) {
          const ids = (v.callArgs ?? []).map((a) => T(a).key);
          return { ...s, flags: { ...s.flags, acks: [...(s.flags.acks ?? []), ...ids] } };
        }
      },
      edge(s, k, tr, X) {
        let kind = null;
        const eq = k.h === "bin" && k.n === "===" && k.a[1].h === "const" ? k.a[1].n : undefined;
        if (typeof eq === "number" && (eq >>> 0) === RPC_RESULT && tr) kind = "rpc_result";
        if (typeof eq === "string" && WANT[eq] && tr) kind = eq;
        if (k.h === "call" && /#is$/.test(k.name ?? "") && k.args?.[0]?.h === "const" && WANT[k.args[0].n] && tr) kind = k.args[0].n;
        // no MTProto constructor of that identifier
        const lookup = (t) => /identifierToName/.test(t.key) && !/^\(/.test(t.key);
        if (k.h === "isnull" && lookup(k.a[0]) && tr || lookup(k) && k.h !== "isnull" && k.h !== "bin" && !tr || eq === undefined && k.h === "bin" && k.n === "===" && lookup(k.a[0]) && tr || k.h === "bin" && k.n === "in" && /identifierToName/.test(k.a[1].key) && !tr) kind = "update";
        if (!kind || s.flags.kind === kind) return;
        seen.add(kind);
        const subj = k.h === "call" ? k.args?.[1]?.key : k.h === "bin" && /\._$/.test(k.a[0].key) ? k.a[0].key.slice(0, -2) : "";
        return { ...s, flags: { ...s.flags, kind, subj } };
      },
    });
    for (const { s, kind: how, path } of r.exits) {
      const k = s.flags.kind, acks = s.flags.acks ?? [];
      if (!k) { ctx.ob("only what was received is queued", !acks.length, { key: label + "|unrecognised", at: p.loc(root), message: `${label} queues ${acks[0]} for acknowledgement before it knows what was received`, path }); continue; }
      const want = WANT[k] === "id" ? ID : s.flags.subj + ".answer_msg_id";
      ctx.ob("recognised message is queued", acks.filter((a) => a === want).length === 1, { key: label + "|" + k, at: p.loc(root), message: `${label} ${how === "throw" ? "fails" : "ends"} after recognising ${k === "update" ? "an update" : "a " + k} without ${acks.includes(want) ? "queueing it exactly once" : `having queued ${WANT[k] === "id" ? "its identifier" : "the identifier of the answer it names"}`} for acknowledgement`, path });
      ctx.ob("only what was received is queued", acks.every((a) => a === want), { key: label + "|" + k, at: p.loc(root), message: `${label} queues ${acks.find((a) => a !== want)} for acknowledgement on receiving ${k}`, path });
    }
    for (const k of Object.keys(WANT)) ctx.ob("recognised message is queued", seen.has(k), { key: label + "|" + k + "|case", at: p.loc(root), message: `${label} has no case for ${k}` });

    // ---- whoever hands messages to the dispatcher: containers and the receive loop
    const containers = methods.filter((m) => m !== root && directCalls(m, root).length);
    function directCalls(m, f) { const out = []; p.walk(m, (n) => { if (ts.isCallExpression(n) && p.resolveCallee(n).fn === f) out.push(n); }); return out; }
    for (const m of containers) {
      const lab = fnLabel(p, m); let n = 0;
      follow(ctx, M, m, {
        never: [root, ...inv, ...containers.filter((x) => x !== m)], anyLoop: true,
        inst(s, v, cx, X, T) {
          if (v.op === "IterElem" && /\.messages$/.test(T(v.args[0]).key)) { const e = T(v).key; if (s.flags.elem) ctx.ob("every message of a container is dispatched", !!s.flags.gone, { key: lab, at: p.loc(v.ast), message: `${lab} goes on to the next message without having dispatched this one`, path: describePath(p, cx.path()) }); return { ...s, flags: { ...s.flags, elem: e, gone: 0 } }; }
          if (v.op === "Call" && v.targetFn && (v.targetFn === root || containers.includes(v.targetFn) || v.targetFn === m)) {
            const args = (v.callArgs ?? []).map((a) => T(a).key); n++;
            const idk = args[idOf(v.targetFn)], bk = args[v.targetFn === root ? bodyOf(root) : v.targetFn.parameters.findIndex((q, i) => i !== idOf(v.targetFn))];
            const base = bk?.replace(/\.body$/, "");
            const ok = bk?.endsWith(".body") && (v.targetFn !== root || idk === base + ".msg_id") && (!s.flags.elem || base === s.flags.elem);
            ctx.ob("every message of a container is dispatched", !!ok, { key: lab + "|identifier", at: p.loc(v.ast), message: `${lab} dispatches a message with a body (${bk}) and an identifier (${idk}) that do not belong together` });
            return { ...s, flags: { ...s.flags, gone: 1 } };
          }
        },
        edge(s, k, tr, X, cx) { return undefined; },
        exit(s, kind, cx) { if (kind === "return" && s.flags.elem) ctx.ob("every message of a container is dispatched", !!s.flags.gone, { key: lab + "|last", at: p.loc(m), message: `${lab} ends without having dispatched a message of the container`, path: describePath(p, cx.path()) }); },
      });
      ctx.ob("every message of a container is dispatched", n > 0, { key: lab + "|none", at: p.loc(m), message: `${lab} dispatches nothing` });
    }

    // ---- sending: functions that write to the transport after taking from the queue
    const takesFrom = (m) => { let y = false; p.walk(m, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(splice|shift|pop)$/.test(n.expression.name.text) && ts.isPropertyAccessExpression(n.expression.expression) && n.expression.expression.name.text === Q) y = true; }); return y; };
    const sends = (m) => { let y = false; p.walk(m, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "send" && /transport/.test(n.expression.expression.getText())) y = true; }); return y; };
    const packers = methods.filter((m) => sends(m) || false);
    ctx.need(packers.length, "the function that writes packets");
    let packed = 0; const regIns = new Set();
    for (const m of packers) {
      const lab = fnLabel(p, m);
      const isSend = (v, T) => v.op === "Call" && v.method === "send" && v.recv && /transport/.test(T(v.recv).key);
      follow(ctx, M, m, {
        ctor: true, nothrow: (v) => v.op === "Call" && !v.targetFn && v.ast?.arguments?.length === 0 && ts.isIdentifier(v.ast.expression) || /#SessionState\.\w+$/.test(v.name ?? "") || /#serializeObject$/.test(v.name ?? "") && v.args.some((a) => { const o = resolve(a); return o.op === "Object" && o.props?.some((q) => q.key === "_" && /msgs_ack/.test(q.value?.value ?? resolve(q.value).value ?? "")); }),
        inst(s, v, cx, X, T) {
          if (qIn(v, T) && v.method === "splice" && !s.flags.took) { const all = T(v.callArgs[0]); return { ...s, flags: { ...s.flags, took: T(v).key, fromStart: all.h === "const" && all.n === 0 } }; }
          if (v.op === "Object" && s.flags.took) {
            const f = (n) => { const q = v.props?.find((x) => x.key === n); return q ? T(q.value) : null; };
            const id = f("msg_id"), body = f("body");
            if (id && body && body.h !== "obj" && !s.flags.ack && body.key.includes("msgs_ack") && body.key.includes(s.flags.took)) return { ...s, flags: { ...s.flags, ack: T(v).key, ackId: id.key } };
          }
          if (v.op === "Call" && v.method === "set" && v.recv && v.callArgs?.length === 2 && s.flags.took && T(v.callArgs[1]).key === s.flags.took) { regIns.add(T(v.recv).key.replace("this.", "")); return { ...s, flags: { ...s.flags, reg: T(v.callArgs[0]).key, regIn: T(v.recv).key } }; }
          if (isSend(v, T)) {
            packed++;
            const f = s.flags, at = { at: p.loc(v.ast), path: describePath(p, cx.path()) };
            const empty = f.qlen === 0;
            ctx.ob("packet takes the queue along", empty || !!f.took, { key: lab + "|taken", ...at, message: `${lab} sends a packet and leaves the queued acknowledgements behind` });
            if (f.took) {
              const pkt = T(v.callArgs[0]).key;
              const carried = !!f.ack && (pkt.includes(f.took) || f.carry);
              ctx.ob("packet takes the queue along", !!carried, { key: lab + "|carried", ...at, message: `${lab} takes identifiers from the queue and sends a packet that does not carry their acknowledgement` });
              ctx.ob("packet takes the queue along", f.fromStart === true, { key: lab + "|order", ...at, message: `${lab} does not take the oldest queued identifiers` });
              ctx.ob("unsent acknowledgements return", !!f.reg && f.reg === f.ackId, { key: lab + "|registered", ...at, message: `${lab} sends an acknowledgement without remembering, under its own identifier, what it acknowledges` });
            }
          }
          if (v.op === "Call" && s.flags.ack && (v.callArgs ?? []).some((a) => T(a).key.includes(s.flags.ack))) s = { ...s, flags: { ...s.flags, carry: 1 } };
          if (v.op === "Call" && v.targetFn && v.targetFn === M.fail && s.flags.reg && T(v.callArgs[0]).key === s.flags.reg) return { ...s, flags: { ...s.flags, back: 1 } };
          if (qIn(v, T) && (v.method === "push" || v.method === "unshift") && s.flags.took && (v.callArgs ?? []).some((a) => T(a).key.includes(s.flags.took))) return { ...s, flags: { ...s.flags, back: 1 } };
          return s;
        },
        afterInvoke(s, v, cx, X) { const c = v.op === "Await" ? resolve(v.args[0]) : v; const T = (a) => X.pt.expand(cx.term(a), s); if (v.op === "Await" && c.op === "Call" && isSend(c, T)) return { ...s, flags: { ...s.flags, sent: 1 } }; return s; },
        edge(s, k, tr) {
          const nil = k.h === "isnull" || k.h === "bin" && k.n === "===" && k.a[1].h === "const" && k.a[1].n == null;
          if (nil && s.flags.reg && k.a[0].key === s.flags.reg && tr) return null;
          // length of the queue, or of what was taken from it
          for (const len of ["this." + Q + ".length", s.flags.took ? s.flags.took + ".length" : null]) {
            if (!len) continue; let empty;
            if (k.key === len) empty = !tr;
            else if (k.h === "bin" && k.a.some((x) => x.key === len)) {
              const c = k.a.find((x) => x.h === "const")?.n, left = k.a[0].key === len;
              const truths = [0, 1, 2, 8192].map((n) => { const [a, b] = left ? [n, c] : [c, n]; return k.n === "<" ? a < b : k.n === "<=" ? a <= b : k.n === "===" ? a === b : undefined; });
              if (truths[0] !== undefined) { const possible = truths.map((x) => x === tr); empty = possible[0] && !possible[1] && !possible[2] && !possible[3]; }
            }
            if (empty === undefined) continue;
            if (s.flags.took && len.startsWith(s.flags.took)) { if (empty) return { ...s, flags: { ...s.flags, took: undefined, qlen: 0 } }; continue; }
            return { ...s, flags: { ...s.flags, qlen: empty ? 0 : 1 } };
          }
        },
        exit(s, kind, cx) {
          if (!s.flags.took) return;
          ctx.ob("unsent acknowledgements return", !!s.flags.sent !== !!s.flags.back, { key: lab + "|exit", at: p.loc(m), message: s.flags.sent ? `${lab} queues acknowledgements again that it has sent` : `${lab} ${kind === "throw" ? "fails" : "ends"} with a packet unsent and its acknowledgements lost`, path: describePath(p, cx.path()) });
        },
      });
    }
    ctx.need(packed, "a packet being sent");

    // ---- failure reports
    const fm = ctx.need(M.fail, "the method told about failed messages");
    const regs = [...M.registries].filter((F) => { let y = false; for (const m of packers) p.walk(m, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "set" && n.expression.expression.name?.text === F) y = true; }); return y; });
    const ackRegs = [...regIns]; // filled by the packer with what it took
    const fl = fnLabel(p, fm); let returns = 0;
    const fr = follow(ctx, M, fm, {
      anyLoop: true, ctor: true,
      inst(s, v, cx, X, T) {
        if (v.op === "Call" && v.method === "get" && v.recv) { const F = T(v.recv).key.replace("this.", ""); if (regs.includes(F)) return { ...s, flags: { ...s.flags, look: { ...(s.flags.look ?? {}), [T(v).key]: F } } }; }
        if (qIn(v, T) && (v.method === "push" || v.method === "unshift")) {
          const a = (v.callArgs ?? []).map((x) => T(x)); let q = { ...s, flags: { ...s.flags } };
          for (const x of a) { for (const L of Object.keys(s.flags.look ?? {})) if (x.h === "spread" && x.a[0].key === L || x.key === L) q.flags.whole = L; if (Object.values(s.pend).includes(x.key)) q = { ...q, st: { ...q.st, [x.key]: "queued" }, flags: { ...q.flags, from: x.key } }; else if (!q.flags.whole) ctx.ob("only what was received is queued", false, { key: fl + "|" + x.key, at: p.loc(v.ast), message: `${fl} queues ${x.key.slice(0, 80)} for acknowledgement, which was not an acknowledged identifier` }); }
          return q;
        }
        if (v.op === "Call" && v.method === "delete" && v.recv && regs.includes(T(v.recv).key.replace("this.", "")) && T(v.callArgs[0]).key === "$0") return { ...s, flags: { ...s.flags, del: [...(s.flags.del ?? []), T(v.recv).key.replace("this.", "")] } };
      },
      edge(s, k, tr, X, cx) {
        const nil = k.h === "isnull" ? [k.a[0].key, tr] : k.h === "bin" && k.n === "===" && k.a[1].h === "const" && k.a[1].n == null ? [k.a[0].key, tr] : [k.key, !tr];
        if (s.flags.look?.[nil[0]] && !nil[1]) return { ...s, flags: { ...s.flags, found: { key: nil[0], reg: s.flags.look[nil[0]] } } };
      },
    });
    ctx.need(ackRegs.length === 1, "the registry of acknowledgements under way");
    for (const { s, kind, path } of fr.exits) {
      if (!s.flags.found || s.flags.found.reg !== ackRegs[0]) continue;
      if (kind === "throw") continue;
      returns++;
      const L = s.flags.found.key;
      const all = s.flags.whole === L || s.swept[L] >= 1;
      const loopOk = s.swept[L] >= 1 ? !s.bad : true;
      ctx.ob("reported acknowledgements return", !!all && loopOk, { key: fl, at: p.loc(fm), message: `${fl} finds the acknowledgements a failed packet carried and does not queue all of them again`, path });
      ctx.ob("reported acknowledgements return", (s.flags.del ?? []).includes(ackRegs[0]), { key: fl + "|forgotten", at: p.loc(fm), message: `${fl} queues acknowledgements again and keeps them registered: they would be queued twice`, path });
    }
    ctx.ob("reported acknowledgements return", returns > 0, { key: fl + "|case", at: p.loc(fm), message: `${fl} does not look for the acknowledgements a failed packet carried` });
    // every element is queued: no path through the loop skips one
    follow(ctx, M, fm, {
      anyLoop: true, ctor: true,
      inst(s, v, cx, X, T) {
        if (v.op === "IterElem") {
          const src = T(v.args[0]); const F = src.h === "call" && src.method === "get" ? src.recv?.key.replace("this.", "") : null;
          if (s.flags.el) ctx.ob("reported acknowledgements return", s.flags.elq === 1, { key: fl + "|element", at: p.loc(fm), message: `${fl} leaves out ${s.flags.elF === ackRegs[0] ? "an acknowledgement that a failed packet carried" : "a message of a failed container, which may be an acknowledgement"}, or handles it twice`, path: describePath(p, cx.path()) });
          return { ...s, flags: { ...s.flags, el: regs.includes(F) ? T(v).key : null, elF: F, elq: 0 } };
        }
        if (v.op === "Call" && v.targetFn === fm && s.flags.elF !== ackRegs[0] && T(v.callArgs[0]).key === s.flags.el) return { ...s, flags: { ...s.flags, elq: (s.flags.elq ?? 0) + 1 } };
        if (qIn(v, T) && v.callArgs?.some((a) => T(a).key === s.flags.el)) return { ...s, flags: { ...s.flags, elq: (s.flags.elq ?? 0) + 1 } };
      },
      edge(s, k, tr, X, cx) { return undefined; },
      exit(s, kind, cx) { if (kind === "return" && s.flags.el) ctx.ob("reported acknowledgements return", s.flags.elq === 1, { key: fl + "|element", at: p.loc(fm), message: `${fl} leaves out ${s.flags.elF === ackRegs[0] ? "an acknowledgement that a failed packet carried" : "a message of a failed container, which may be an acknowledgement"}, or handles it twice`, path: describePath(p, cx.path()) }); },
    });

    // ---- nothing else takes from the queue
    for (const m of S.members) {
      if (m.name && m.name.text === Q) continue;
      p.walk(m, (n) => {
        if (!ts.isPropertyAccessExpression(n) || n.name.text !== Q) return;
        const q = n.parent;
        const lab = fnLabel(p, m);
        if (ts.isPropertyAccessExpression(q) && q.expression === n && ts.isCallExpression(q.parent) && q.parent.expression === q) {
          const name = q.name.text;
          if (/^(push|unshift)$/.test(name)) return;
          if (/^(splice|shift|pop|fill|reverse|sort|copyWithin)$/.test(name)) ctx.ob("queue is only emptied into a packet", name === "splice" && packers.some((x) => x === m || callsIt(x, m)), { key: lab + "|" + name, at: p.loc(n), message: `${lab} removes identifiers from the queue of acknowledgements outside the packet that carries them` });
          return;
        }
        if (ts.isPropertyAccessExpression(q) && q.name.text === "length" && !(ts.isBinaryExpression(q.parent) && q.parent.left === q && q.parent.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && q.parent.operatorToken.kind <= ts.SyntaxKind.LastAssignment)) return;
        if (ts.isBinaryExpression(q) && q.left === n && q.operatorToken.kind === ts.SyntaxKind.EqualsToken || ts.isPropertyAccessExpression(q) && q.name.text === "length") ctx.ob("queue is only emptied into a packet", false, { key: lab + "|reset", at: p.loc(n), message: `${lab} discards queued acknowledgements` });
      });
    }
    ctx.ob("queue is only emptied into a packet", true, { key: "scan" });
    for (const m of S.members) if (m.body) p.walk(m, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "clear" && n.expression.expression.name?.text === ackRegs[0]) ctx.ob("queue is only emptied into a packet", false, { key: fnLabel(p, m) + "|registry", at: p.loc(n), message: `${fnLabel(p, m)} forgets the acknowledgements under way` }); });

    // ---- the ping loop sends a packet every round
    const pingers = methods.filter((m) => { let y = false; p.walk(m, (n) => { if (ts.isStringLiteral(n) && /^ping(_delay_disconnect)?$/.test(n.text)) y = true; }); return y; });
    const loops = methods.filter((m) => pingers.some((x) => x === m || directCalls(m, x).length) && S.members.some((f) => ts.isPropertyDeclaration(f) && f.initializer && p.rel && /AbortableLoop/.test(f.initializer.getText()) && f.initializer.getText().includes(m.name.text)));
    for (const m of loops) {
      const lab = fnLabel(p, m);
      follow(ctx, M, m, {
        inst(s, v) { if (v.op === "Call" && v.targetFn && M.senders.has(v.targetFn)) return { ...s, flags: { ...s.flags, pinged: 1 } }; },
        exit(s, kind, cx) { if (kind === "return") ctx.ob("periodic packet", !!s.flags.pinged, { key: lab, at: p.loc(m), message: `${lab} ends a round without sending anything: queued acknowledgements would wait for the application`, path: describePath(p, cx.path()) }); },
      });
    }
    ctx.ob("periodic packet", loops.length > 0, { key: "loop", at: p.loc(S), message: "no loop of the session sends a periodic packet" });
    ctx.floor("recognised message is queued", 12); ctx.floor("packet takes the queue along", 3); ctx.floor("unsent acknowledgements return", 3); ctx.floor("reported acknowledgements return", 3); ctx.floor("every message of a container is dispatched", 3); ctx.floor("periodic packet", 2);
  },
};
