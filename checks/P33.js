"use strict";
const { ts } = require("../lib/project.js");
const { resolve, DEEP } = require("../lib/ir.js");
const { simulate, describePath } = require("../lib/sim.js");
const { Terms, PhiTrack, subst } = require("../lib/terms.js");
const { fnLabel, lower } = require("../lib/util.js");
const mods = (m, k) => !!(ts.canHaveModifiers(m) && ts.getModifiers(m)?.some((x) => x.kind === k));
const U = "this.#update.";

/** what a value taken from the update denotes, by the last steps of its access path */
function kindOf(key) {
  if (!key.startsWith(U) || /[^\w.#]/.test(key)) return null;
  const p = key.slice(U.length).split("."); const last = p.at(-1), prev = p.at(-2);
  if (last === "chatId") return /^secret/.test(p[0]) ? { k: "secretChat", root: p.slice(0, -1).join(".") } : { k: "chat", root: p.slice(0, -1).join(".") };
  if (last === "messageId") return { k: "message", root: p.slice(0, -1).join(".") };
  if (last === "inlineMessageId") return { k: "inlineMessage", root: p.slice(0, -1).join(".") };
  if (last === "businessConnectionId") return { k: "businessConnection", root: p.slice(0, -1).join(".") };
  if (last === "threadId") return { k: "thread", root: p.slice(0, -1).join(".") };
  if (last === "directMessagesTopicId") return { k: "directMessagesTopic", root: p.slice(0, -1).join(".") };
  if (last === "id") {
    const root = p.slice(0, -2).join(".");
    if (prev === "chat") return { k: "chat", root };
    if (prev === "from" || prev === "user") return { k: "user", root };
    if (prev === "receiver") return { k: "receiver", root };
    if (/^secretMessage$/.test(prev)) return { k: "secretMessage", root: p.slice(0, -1).join(".") };
    if (/^secretChat$/.test(prev)) return { k: "secretChat", root: p.slice(0, -1).join(".") };
    if (/^(message|editedMessage|scheduledMessage)$/.test(prev)) return { k: "message", root: p.slice(0, -1).join(".") };
    return { k: prev, root: p.slice(0, -1).join(".") };
  }
  return { k: last, root: p.slice(0, -1).join(".") };
}
/** kinds of subject a parameter of a client operation accepts */
function accepts(name, op) {
  if (/^(callbackQuery|inlineQuery|guestQuery|preCheckoutQuery)Id$/i.test(name) || name === "id" && /Query/.test(op)) return [name === "id" ? op.replace(/^answer/, "").replace(/^./, (c) => c.toLowerCase()) : name.replace(/Id$/, "")];
  if (/secret/i.test(op)) { if (/^(id|chatId|secretChatId)$/.test(name)) return /request/i.test(op) ? ["chat"] : ["secretChat"]; if (/message/i.test(name)) return ["secretMessage"]; }
  if (/inlineMessageId/.test(name)) return ["inlineMessage"];
  if (/^(chatId|from|fromChatId)$/.test(name)) return ["chat"];
  if (/messageId/i.test(name)) return ["message"];
  if (/BusinessConnection/.test(op) && name === "id") return ["businessConnection"];
  if (/^businessConnectionId$|^connectionId$/.test(name)) return ["businessConnection"];
  if (/(user|member|receiver|actor|bot)\w*Id$/i.test(name)) return /^(getCommonChats)$/.test(op) ? ["user", "chat"] : ["user", "receiver"];
  return [];
}
const OPTION_KINDS = { businessConnectionId: ["businessConnection"], messageThreadId: ["thread"], directMessagesTopicId: ["directMessagesTopic"], receiverId: ["user", "receiver"], callbackQueryId: ["callbackQuery"], replyToMessageId: ["secretMessage", "message"], chatId: ["chat"] };

module.exports = {
  technique: "per-shortcut dataflow: path-sensitive value flow from the update through the context's getters to the client call, compared with the operation's declared parameters",
  explanation: "Every shortcut of Context is lowered with the context's own getters and helpers inlined and followed along every path, remembering which alternative of the update each subject was taken from. On every path that completes, exactly one client operation is called, it is the one the shortcut's documentation names, and its result is returned. Every argument must be either the shortcut's own parameter in its place or a subject of the kind the operation's parameter asks for (chat, message, user, query, secret chat, inline message), read from the update of this context and, for message and chat together, from the same message. Options must be passed on whole; what overrides them must come from the update. For replies, the quoted message, thread, direct-messages topic, business connection and receiver are checked, and quoting must follow the isQuoted option. A subject that is missing must end in an error.",
  rules: ["one operation", "operation named by the shortcut", "result returned", "own arguments passed in place", "subject of the right kind", "subject present", "chat and message from the same message", "options passed whole", "option overridden only from the update", "business connection kept", "quoting follows the option", "getter follows the update kind", "getter covers every update that carries the subject", "other side of an ephemeral message", "reply stays in the topic"],
  assumptions: ["the documentation link of a shortcut names the operation it stands for"],
  run(ctx) {
    const p = ctx.p;
    const cls = ctx.need(p.findClass("Context").find((c) => /client/.test(p.rel(c.getSourceFile()))), "class Context");
    const generic = ctx.need(p.findClass("ClientGeneric")[0], "class ClientGeneric");
    const ops = new Map(); for (const m of generic.members) if (ts.isMethodDeclaration(m)) ops.set(m.name.getText(), m);
    for (const m of cls.members) {
      if (ts.isGetAccessor(m) && m.body) { getter(ctx, m); continue; }
      if (!ts.isMethodDeclaration(m) || !m.body || !ts.isIdentifier(m.name) || mods(m, ts.SyntaxKind.PrivateKeyword)) continue;
      const doc = ts.getJSDocCommentsAndTags(m).map((d) => d.getText()).join(" ");
      const link = doc.match(/@link\s+Client\.(\w+)/);
      if (link || ops.has(m.name.text)) shortcut(ctx, m, link ? link[1] : m.name.text, ops);
    }
    ctx.floor("one operation", 200); ctx.floor("operation named by the shortcut", 200); ctx.floor("own arguments passed in place", 200); ctx.floor("subject of the right kind", 200);
    ctx.floor("options passed whole", 60); ctx.floor("chat and message from the same message", 5); ctx.floor("business connection kept", 20); ctx.floor("quoting follows the option", 20); ctx.floor("getter follows the update kind", 8);
  },
};

function isOp(v, ops) { const n = (v.name ?? "").split(/[#.]/).pop(); return v.op === "Call" && /#Client(Generic)?\./.test(v.name ?? "") && ops.has(n) ? n : null; }

function shortcut(ctx, m, wanted, ops) {
  const p = ctx.p, label = fnLabel(p, m);
  const u = lower(p, m, { inline: (n, f) => f && f.getSourceFile() === m.getSourceFile() ? true : false, never: (n, f) => !f || f.getSourceFile() !== m.getSourceFile() });
  const terms = new Terms(), pt = new PhiTrack(terms);
  const params = m.parameters.map((q) => q.name.getText());
  const optI = m.parameters.findIndex((q) => /params$/i.test(q.name.getText()));
  let calls = 0; pt.track(u);
  const own = (t) => t.h === "param" ? parseInt(t.n) : undefined;
  const assume = neverAbsent(p, u, terms);
  simulate(u, {
    init: { n: 0, ph: {}, q: "", sets: {} },
    phi: (s, f, a, t) => pt.phi(s, f, a, t), cond: (c, s) => pt.expand(c, s), enter: (s, b) => b === u.throwExit ? { n: 0 } : pt.enter(s, b),
    edge(s, c, truth) {
      let k = c, tr = truth; while (k.h === "not") { k = k.a[0]; tr = !tr; }
      k = subst(k, (x) => x.h === "val" && s.ph?.[x.n] !== undefined ? pt.store.get(s.ph[x.n]) : null, terms);
      while (k.h === "not") { k = k.a[0]; tr = !tr; }
      if (k.h === "const") return !!k.n === tr ? s : null;
      const opt = optI >= 0 ? "$" + optI : "$none";
      if (k.key.startsWith(opt) && /\.isQuoted$/.test(k.key)) return { ...s, q: tr ? "yes" : "no" };
      if (k.h === "bin" && k.n === "===" && /\.isQuoted$/.test(k.a[0].key) && k.a[1].h === "const" && k.a[1].n === undefined) return { ...s, q: tr ? "unset" : s.q };
      const nil = k.h === "isnull" ? k.a[0].key : k.h === "bin" && k.n === "===" && k.a[1].h === "const" && k.a[1].n == null ? k.a[0].key : null;
      if (nil && nil.startsWith(U) && tr && (/\.businessConnectionId$/.test(nil) || nil === U + rootOfMessage(s.type))) return { ...s, absent: true };
      if (!nil && !tr && k.key.startsWith(U) && /\.businessConnectionId$/.test(k.key)) return { ...s, absent: true };
      if (k.key.startsWith(U) && /\.isOutgoing$/.test(k.key)) return { ...s, out: tr ? "yes" : "no" };
      if (k.h === "bin" && k.n === "<" && k.a[0].h === "const" && kindOf(k.a[1].key)?.k === "chat") return { ...s, priv: tr === (k.a[0].n === 0) ? "yes" : "no" };
      if (k.h === "bin" && k.n === "===" && k.a[1].h === "const" && k.a[0].key === "this.#update.type" && tr) return { ...s, type: k.a[1].n };
      return s;
    },
    inst(s, v, cx) {
      if (v.op === "SetProp") { const b = pt.expand(cx.term(v.args[0]), s); return { ...s, sets: { ...s.sets, [v.name]: [b.key, pt.expand(cx.term(v.args[1]), s).key] } }; }
      const n = isOp(v, ops);
      if (n) {
        calls++;
        const at = p.loc(v.ast);
        ctx.ob("one operation", s.n === 0, { key: label, at, message: `${label} performs more than one client operation on a path`, path: describePath(p, cx.path()) });
        const variant = n !== wanted && n.replace("Ephemeral", "") === wanted;
        ctx.ob("operation named by the shortcut", n === wanted || variant, { key: label, at, message: `${label} stands for Client.${wanted} but calls Client.${n}` });
        const r = cx.term(v.recv); ctx.ob("own client", /^this\.#client$/.test(r.key), { key: label, at, message: `${label} performs the operation on ${r.key}` });
        arguments_(ctx, { u, p, label, m, s, v, cx, pt, n, op: ops.get(n), own, params, optI, at });
        return { ...s, n: s.n + 1, k: cx.term(v).id ?? cx.term(v).key };
      }
      if (v.op === "Return") { const t = v.args.length ? pt.expand(cx.term(v.args[0]), s) : null; return { ...s, ret: t?.id ?? t?.key ?? "" }; }
      return s;
    },
    exit(s, kind, cx) {
      if (kind !== "return") return;
      ctx.ob("one operation", s.n >= 1, { key: label + "|none", at: p.loc(m), message: `${label} completes without performing ${wanted}`, path: describePath(p, cx.path()) });
      if (s.n) ctx.ob("result returned", s.ret === s.k, { key: label, at: p.loc(m), message: `${label} does not return the result of ${wanted}`, path: describePath(p, cx.path()) });
    },
  }, { terms, maxStates: 4000, assume });
  if (!calls) ctx.violate({ rule: "one operation", key: label + "|none", at: p.loc(m), message: `${label} never performs ${wanted}` });
}

/** properties whose declared type, as narrowed where they are read, excludes null and undefined */
function neverAbsent(p, u, terms) {
  const out = new Map();
  for (const b of u.blocks) for (const v of b.insts) if (v.op === "GetProp" && v.ast && ts.isPropertyAccessExpression(v.ast)) {
    const t = p.checker.getTypeAtLocation(v.ast); const k = terms.of(v).key; if (!k.startsWith(U)) continue;
    const parts = t.isUnion() ? t.types : [t];
    if (parts.every((x) => !(x.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null | ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.Never)))) out.set(k, { nullish: false, ...(parts.every((x) => x.flags & ts.TypeFlags.Object) ? { truth: true } : {}) });
  }
  return out;
}

function arguments_(ctx, o) {
  const { p, label, m, s, v, cx, pt, n, op, own, params, optI, at } = o;
  const formal = op.parameters.map((q) => q.name.getText().replace(/^_/, ""));
  const args = (v.callArgs ?? []).map((a) => pt.expand(cx.term(a), s));
  const path = () => describePath(p, cx.path());
  // 1. own parameters, in order, each once, a name shared with the operation in its own place
  const seq = [];
  args.forEach((t, i) => { const q = owns(t, own); if (q !== undefined) seq.push([q, i]); });
  const want = m.parameters.map((_, i) => i).filter((i) => seq.some(([q]) => q === i) || true);
  const ordered = seq.map(([q]) => q);
  const inPlace = seq.every(([q, i]) => { const j = formal.indexOf(params[q]); return j < 0 || j === i; });
  const order = [...ordered].every((q, i) => i === 0 || ordered[i - 1] < q) || seq.every(([q, i]) => formal[i] === params[q]);
  const optUndef = (q) => m.parameters[q].questionToken && s.sets !== undefined && args.some((t) => t.h === "obj");
  const missing = want.filter((q) => !ordered.includes(q) && !(q === optI && passesOptions(args, optI, cx, s, o)));
  ctx.ob("own arguments passed in place", !missing.length && inPlace && order && new Set(ordered).size === ordered.length, { key: label, at, message: missing.length ? `${label} does not pass its parameter ${params[missing[0]]} on to Client.${n}` : `${label} passes its parameters to Client.${n} in the wrong places (${seq.map(([q, i]) => params[q] + " as " + formal[i]).join(", ")})`, path: path() });
  // 2. subjects
  const subj = {};
  args.forEach((t, i) => {
    if (i >= formal.length || owns(t, own) !== undefined || t.h === "obj" || /^params$/i.test(formal[i])) return;
    const k = kindOf(t.key), acc = accepts(formal[i], n);
    if (t.h === "const" && t.n === undefined) { ctx.ob("subject present", false, { key: label + "|" + formal[i], at, message: `${label} can reach Client.${n} without a ${formal[i]}`, path: path() }); return; }
    ctx.ob("subject of the right kind", !!k && acc.includes(k.k), { key: label + "|" + formal[i], at, message: `${label} passes ${t.key.replace("this.#update", "update").slice(0, 80)} as ${formal[i]} of Client.${n}, which asks for ${acc.join(" or ") || "something else"}`, path: path() });
    if (k && /ephemeral/i.test(n)) receiver(ctx, o, k, formal[i], path);
    if (k) subj[formal[i]] = { ...k, key: t.key };
  });
  const objs = args.filter((t) => t.h === "obj");
  const opts = {};
  for (const t of objs) collect(t, opts, optI, own);
  for (const [k, [b, x]] of Object.entries(s.sets)) if (args.some((t) => t.key === b)) { opts[k] = { key: x, t: null, after: true }; if (k === "chatId") subj.chatId = { ...(kindOf(x) ?? {}), key: x }; if (k === "chatId") ctx.ob("subject of the right kind", kindOf(x)?.k === "chat", { key: label + "|chatId", at, message: `${label} sets chatId to ${x}` }); }
  const chat = subj.chatId, msg = subj.messageId ?? subj.messageIds;
  if (chat && msg) ctx.ob("chat and message from the same message", chat.root === msg.root, { key: label, at, message: `${label} combines the chat of ${chat.root} with the message of ${msg.root}`, path: path() });
  // 3. options
  const opOpt = formal.findIndex((q) => /^params$/i.test(q));
  if (optI >= 0) {
    const whole = passesOptions(args, optI, cx, s, o);
    ctx.ob("options passed whole", whole, { key: label, at, message: `${label} does not pass all its options on to Client.${n}`, path: path() });
  }
  for (const [k, q] of Object.entries(opts)) {
    if (q.inner) continue;
    const t = q.t;
    if (k === "replyTo") { replyTo(ctx, o, t, chat, path); continue; }
    const kk = kindOf(q.key), undef = q.key === "undefined";
    const acc = OPTION_KINDS[k];
    if (k === "receiverId" && kk) receiver(ctx, o, kk, k, path);
    ctx.ob("option overridden only from the update", !!acc && (undef || !!kk && acc.includes(kk.k)), { key: label + "|" + k, at, message: `${label} replaces the option ${k} of Client.${n} by ${q.key.slice(0, 80)}`, path: path() });
  }
  // 4. replies and edits keep the business connection of the message
  const optT = opOpt >= 0 ? p.checker.getNonNullableType(p.checker.getTypeAtLocation(op.parameters[opOpt])) : null;
  const ownT = optI >= 0 ? p.checker.getNonNullableType(p.checker.getTypeAtLocation(m.parameters[optI])) : null;
  if (optT?.getProperty("businessConnectionId") && (/^reply/.test(label.split(".").pop()) || /^edit(Ephemeral)?Message/.test(label.split(".").pop()))) {
    const msgRoot = rootOfMessage(s.type);
    const b = opts.businessConnectionId;
    // the connection is that of the message of this update; it may be left out only where that is known to be absent
    const ok = !msgRoot || (b && b.key !== "undefined" ? kindOf(b.key)?.k === "businessConnection" && kindOf(b.key).root === msgRoot : !!s.absent);

    ctx.ob("business connection kept", ok, { key: label, at, message: `${label} does not act on the business connection of the message it belongs to`, path: path() });
  }
  // 5. quoting
  if (/^reply/.test(label.split(".").pop()) && (optT?.getProperty("replyTo") || optT?.getProperty("replyToMessageId"))) {
    const key = optT.getProperty("replyToMessageId") ? "replyToMessageId" : "replyTo"; const r = opts[key];
    const present = !!r && r.key !== "undefined";
    const special = s.type === "story" || present && r.t?.h === "obj" && r.t.props.some((q) => q.key === "type" && q.t.n !== "message") || opts.receiverId;
    if (!special) {
      const should = s.q === "yes" ? true : s.q === "no" ? false : key === "replyToMessageId" ? false : s.priv ? s.priv === "no" : undefined;
      ctx.ob("quoting follows the option", should === undefined ? false : present === should, { key: label, at, message: `${label}: with isQuoted ${s.q || "unset"}${s.priv ? ` in a ${s.priv === "yes" ? "private chat" : "group or channel"}` : ""} the reply ${present ? "quotes" : "does not quote"} the message`, path: path() });
    }
    if (key === "replyTo" && !special) {
      const root = rootOfMessage(s.type);
      for (const [o1, suf] of [["messageThreadId", "threadId"], ["directMessagesTopicId", "directMessagesTopicId"]]) if (root && root === s.type && optT.getProperty(o1)) ctx.ob("reply stays in the topic", opts[o1]?.key === U + root + "." + suf, { key: label + "|" + o1, at, message: `${label}: the ${o1} of the reply must be the ${suf} of the message (${opts[o1]?.key ?? "missing"})`, path: path() });
    }
  }
}
/** the other side of an ephemeral message: its receiver when it is outgoing, its sender otherwise */
function receiver(ctx, o, k, what, path) {
  if (k.k !== "user" && k.k !== "receiver") return;
  // where the test was short-circuited for want of a message, the sender stands
  const want = o.s.out === "yes" ? "receiver" : o.s.out === "no" || o.u.blocks.some((b) => b.insts.some((v) => v.op === "GetProp" && v.name === "isOutgoing")) ? "user" : "decided by the direction";
  ctx.ob("other side of an ephemeral message", k.k === want, { key: o.label + "|" + what, at: o.at, message: `${o.label} takes the ${k.k === "user" ? "sender" : "receiver"} of the message as ${what}${o.s.out ? ` for an ${o.s.out === "yes" ? "outgoing" : "incoming"} message` : " without looking at the direction"}`, path: path() });
}
function rootOfMessage(type) { return { message: "message", editedMessage: "editedMessage", scheduledMessage: "scheduledMessage", callbackQuery: "callbackQuery.message", guestQuery: "guestQuery.message" }[type]; }
/** the own parameter a term stands for (also through the defaults `params ?? {}`) */
function owns(t, own) { const q = own(t); return q; }
/** options collected into an object after (or before) the spread of the options parameter */
function collect(t, out, optI, own) {
  for (const q of t.props ?? []) {
    if (q.spread) { if (q.t.h === "obj") collect(q.t, out, optI, own); else if (own(q.t) === optI) for (const k of Object.keys(out)) out[k].before = true; else if (q.t.h !== "const") out["..." + q.t.key.slice(0, 40)] = { key: q.t.key, t: q.t }; continue; }
    out[q.key] = { key: q.t.key, t: q.t };
  }
}
/** the options parameter goes into the call whole: itself, or spread into an object */
function passesOptions(args, optI, cx, s, o) {
  if (optI < 0) return true;
  const has = (t) => t.h === "param" && parseInt(t.n) === optI || t.h === "obj" && (t.props ?? []).some((q) => q.spread && has(q.t));
  if (args.some(has)) return true;
  // the parameter is known to be absent on this path: defaults stand in for it
  const f = cx.facts.get("$" + optI); return !!f && (f.nullish === true || f.eq === undefined && "eq" in f || f.truth === false);
}
function replyTo(ctx, o, t, chat, path) {
  const { p, label, at, s } = o;
  if (!t || t.h === "const" && t.n === undefined) return;
  const get = (k) => t.props?.find((q) => q.key === k)?.t;
  const ty = get("type")?.n;
  if (ty === "story") {
    const c = get("chatId")?.key, st = get("storyId")?.key;
    ctx.ob("option overridden only from the update", c === U + "story.chat.id" && st === U + "story.id", { key: label + "|replyTo story", at, message: `${label}: a reply to a story names ${c} and ${st}`, path: path() });
  } else {
    const k = kindOf(get("messageId")?.key ?? "");
    ctx.ob("subject of the right kind", k?.k === "message", { key: label + "|replyTo", at, message: `${label}: the quoted message is ${get("messageId")?.key}`, path: path() });
    if (k && chat) ctx.ob("chat and message from the same message", k.root === chat.root, { key: label + "|replyTo", at, message: `${label} quotes the message of ${k.root} in the chat of ${chat.root}`, path: path() });
  }
}

/** getters named after an update kind, and the subject getters, follow the kind of the update */
function getter(ctx, m) {
  const p = ctx.p, label = fnLabel(p, m), n = m.name.text;
  if (!/^(msg|message|editedMessage|scheduledMessage|secretMessage|secretChat|guestQuery|callbackQuery|inlineQuery|chosenInlineResult|chat|chatId|from)$/.test(n)) return;
  const u = lower(p, m, { inline: (x, f) => f && f.getSourceFile() === m.getSourceFile(), never: (x, f) => !f || f.getSourceFile() !== m.getSourceFile() });
  const terms = new Terms(), pt = new PhiTrack(terms).track(u), seen = {};
  simulate(u, {
    init: { ph: {} }, phi: (s, f, a, t) => pt.phi(s, f, a, t), cond: (c, s) => pt.expand(c, s), enter: (s, b) => b === u.throwExit ? {} : pt.enter(s, b),
    edge(s, c, truth) { let k = c, tr = truth; while (k.h === "not") { k = k.a[0]; tr = !tr; } k = pt.expand(k, s); while (k.h === "not") { k = k.a[0]; tr = !tr; } if (k.h === "const") return !!k.n === tr ? s : null; if (k.h === "bin" && k.n === "===" && k.a[1].h === "const" && k.a[0].key === "this.#update.type" && tr) return { ...s, type: k.a[1].n }; return s; },
    inst(s, v, cx) {
      if (v.op !== "Return") return s;
      const t = v.args.length ? pt.expand(cx.term(v.args[0]), s) : null;
      if (!t || t.h === "const") return s;
      const path = t.key.startsWith(U) ? t.key.slice(U.length) : "";
      let ok = !!path && (!s.type || path.split(".")[0] === s.type);
      const last = path.split(".").at(-1);
      if (n === "chat") ok &&= last === "chat"; else if (n === "from") { const segs = path.split("."); ok &&= (last === "from" || last === "user") && (segs.length === 2 || segs.slice(0, -1).join(".") === rootOfMessage(segs[0])); } else if (n === "chatId") ok &&= kindOf(t.key)?.k === "chat"; else if (n === "msg") ok &&= /^(message|editedMessage|scheduledMessage)$/.test(last); else ok &&= path === n;
      (seen[s.type ?? path.split(".")[0]] ??= []).push(path);
      ctx.ob("getter follows the update kind", ok, { key: label + "|" + (s.type ?? ""), at: v.ast ? p.loc(v.ast) : p.loc(m), message: `${label} gives ${t.key.replace("this.#update", "update")}${s.type ? ` for an update of kind ${s.type}` : ""}` });
      return s;
    },
  }, { terms, maxStates: 4000 });
  // every update kind that carries the subject is covered
  const upd = p.checker.getTypeAtLocation(m.parent).getProperty("update"); const ut = upd && p.checker.getTypeOfSymbol(upd);
  for (const t of ut?.isUnion() ? ut.types : []) {
    const lit = t.getProperty("type") && p.checker.getTypeOfSymbol(t.getProperty("type")); if (!lit?.isStringLiteral()) continue;
    const kind = lit.value, pay = t.getProperty(kind); if (!pay) continue; const pt_ = p.checker.getTypeOfSymbol(pay);
    const has = (x) => p.checker.getNonNullableType(pt_).getProperty?.(x);
    const carries = { msg: /^(message|editedMessage|scheduledMessage)$/.test(kind) || has("message"), chat: has("chat") || has("message"), chatId: has("chat") || has("chatId") || has("message"), from: has("from") || has("user") }[n];
    if (carries && !(n === "chatId" && /^secret/.test(kind))) ctx.ob("getter covers every update that carries the subject", !!seen[kind], { key: label + "|" + kind, at: p.loc(m), message: `${label} finds nothing for an update of kind ${kind}, which carries one` });
  }
}
