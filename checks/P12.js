"use strict";
const { ts } = require("../lib/project.js");
const { resolve } = require("../lib/ir.js");
const { describePath } = require("../lib/sim.js");
const { track } = require("../lib/facts.js");
const { mk, C, slice, cat, linear, addLin, linTerm } = require("../lib/terms.js");
const R = {
  frame: "the frame that is sent is laid out as prescribed",
  mirror: "the frame that is received is taken apart as prescribed",
  cipher: "every byte passes the cipher of its direction once and in order",
  start: "a connection starts with the announced encoding",
  reserved: "the handshake starts with nothing another protocol reserves",
  keys: "the two directions have their own prescribed cipher states",
  stream: "the cipher state continues where it stopped",
  error: "a transport error is not taken for data",
  before: "nothing is sent before the connection has been initialized",
};
const KINDS = { abridged: { plain: [0xEF], tag: 0xEFEFEFEF }, intermediate: { plain: [0xEE, 0xEE, 0xEE, 0xEE], tag: 0xEEEEEEEE }, padded: { plain: [0xDD, 0xDD, 0xDD, 0xDD], tag: 0xDDDDDDDD } };
const inl = { inline: (n) => (/^transport\//.test(n) && !/getObfuscationParameters$/.test(n) ? true : undefined) };
module.exports = {
  technique: "path-sensitive dataflow over SSA form: symbolic byte layouts of buffers, event typestate, branch facts",
  explanation: "For every transport, on every path of send() the byte layout of the buffer handed to the connection is reconstructed from the writes into it and compared with the encoding (length header in its short or long form with the exact boundary between the two, then the payload, then padding of at most 15 bytes only where the encoding is padded), and the buffer passes the outgoing cipher exactly once if there is one. On every path of receive() the sequence of reads, their sizes as expressions over the decrypted header and the boundary between the forms are compared with the same encoding, each read buffer passes the incoming cipher once and in order, and the last one is what is returned. initialize() announces the encoding that send() uses, or hands its tag to the obfuscation handshake and keeps its result. In the handshake the keys, IVs, their use of the secret, the order of the change of the data center bytes and the encryption, the 64 bytes written and the exclusion of every reserved prefix are matched against the protocol. The counter mode cipher advances its state by what it processed, under its lock. Sessions raise an error for a frame of four bytes before they look at it, and count as connected only between the end of initialize() and the next open().",
  rules: Object.values(R),
  assumptions: ["payloads are a multiple of four bytes long and shorter than the encodings' limits", "the runtime's AES-CTR is correct", "the callers of a transport send from one place at a time, or the connection keeps the order of writes (P11)"],
  run(ctx) {
    const p = ctx.p; let n = 0;
    for (const sf of p.sourceFiles) {
      if (!p.isRepo(sf)) continue;
      if (/^transport\//.test(p.rel(sf))) p.walk(sf, (c) => { if (ts.isClassDeclaration(c) && c.heritageClauses?.some((h) => h.types.some((t) => t.expression.getText() === "Transport")) && method(c, "send") && method(c, "receive")) { n++; transport(ctx, p, c); } });
      if (/^session\//.test(p.rel(sf))) p.walk(sf, (c) => { if (ts.isClassDeclaration(c)) session(ctx, p, c); });
      if (/^utilities\//.test(p.rel(sf))) p.walk(sf, (c) => { if (ts.isClassDeclaration(c) && c.name?.text === "CTR" && method(c, "call")) counter(ctx, p, c); });
      if (/^transport\//.test(p.rel(sf))) for (const st of sf.statements) if (ts.isFunctionDeclaration(st) && st.name?.text === "getObfuscationParameters" && st.body) handshake(ctx, p, st);
    }
    ctx.need(n, "the transports");
    for (const [k, m] of [[R.frame, 4], [R.mirror, 4], [R.cipher, 6], [R.start, 3], [R.reserved, 1], [R.keys, 4], [R.stream, 3], [R.error, 2], [R.before, 3]]) ctx.floor(k, m);
  },
};
const method = (c, n) => c.members.find((m) => ts.isMethodDeclaration(m) && m.name.getText() === n && m.body);
const named = (k) => { const t = mk("x"); t._k = k; return t; };
const fields = (t, truth) => { while (t.h === "not") { t = t.a[0]; truth = !truth; } return /^this\.#?\w+$/.test(t.key) ? [t.key, truth] : t.h === "isnull" && /^this\.#?\w+$/.test(t.a[0].key) ? [t.a[0].key, !truth] : null; };
function notNegative(t, truth) {
  while (t.h === "not") { t = t.a[0]; truth = !truth; } if (t.h !== "bin") return []; const [a, b] = t.a.map(linear); const d = (x, y, k) => { const l = addLin(x, y, -1); return l ? [{ m: l.m, c: Number(l.c ?? 0) - k }] : []; };
  if (t.n === "<") return truth ? d(b, a, 1) : d(a, b, 0); if (t.n === "<=") return truth ? d(b, a, 0) : d(a, b, 1); return [];
}
/** what is known about the contents of arrays: values of bytes and of numbers read from bytes */
function Bytes(x, TM) {
  const arr = (k) => x["c:" + k] ?? k; // through the cipher
  const lenKey = (k) => (k.endsWith(".length") ? k.slice(0, -7) : null);
  const size = (t, d = 0) => { let l = linear(t), out = { c: l.c, m: new Map() }; if (t.h === "const" && typeof t.n !== "number") return t; for (const [k, { t: q, k: f }] of l.m) { const z = lenKey(k) && x["z:" + lenKey(k)]; const y = z && d < 4 ? linear(size(TM.get(z), d + 1)) : { c: null, m: new Map([[k, { t: q, k: 1 }]]) }; for (let i = 0; i < Math.abs(f); i++) out = addLin(out, y, f > 0 ? 1 : -1) ?? out; } return linTerm(out); };
  const words = (k) => k.replace(/\(\$0\.length(\/4|>>>?2)\)/g, "N");
  const byte = (t) => { let sh = 0; for (;;) { if (t.h === "bin" && t.n === "&" && t.a.some((y) => y.h === "const" && y.n === 255)) { t = t.a.find((y) => !(y.h === "const" && y.n === 255)); continue; } if (t.h === "bin" && /^>>>?$/.test(t.n) && t.a[1].h === "const" && t.key !== "N" && t.a[1].n % 8 === 0) { sh += t.a[1].n; t = t.a[0]; continue; } break; } return t.h === "const" && typeof t.n === "number" ? "#" + ((t.n >> sh) & 255) : words(size(t).key) + "@" + sh; };
  const le = (t, n, big) => { const out = []; for (let i = 0; i < n; i++) out.push(t.h === "const" ? "#" + (Number(BigInt(t.n) >> BigInt(8 * i)) & 255) : words(size(t).key) + "@" + 8 * i); return big ? out.reverse() : out; };
  /** the bytes of an array as a list of segments */
  const layout = (key, d = 0) => {
    if (d > 5) return null; if (key === "$0") return ["BUF"];
    const ints = x["i:" + key]; if (ints) return JSON.parse(ints);
    if (x["cat:" + key]) { const out = []; for (const k of JSON.parse(x["cat:" + key])) { const l = layout(k, d + 1); if (!l) return null; out.push(...l); } return out; }
    if (x["r:" + key]) return x["r:" + key] === "0" ? [] : ["PAD:" + x["r:" + key]];
    const z = x["z:" + key]; if (z === undefined) return null; const ws = JSON.parse(x["w:" + key] ?? "[]");
    const total = size(TM.get(z)); const at = new Map(); let buf = null;
    for (const [off, segs] of ws) { const o = size(TM.get(off)); if (o.h === "const") { if (segs.length === 1 && segs[0] === "BUF") { if (buf !== null) return ["twice"]; buf = o.n; } else segs.forEach((g, i) => at.set(o.n + i, g)); } else return null; }
    const out = []; const end = buf !== null ? buf : total.h === "const" ? total.n : null; if (end === null) return null;
    for (let i = 0; i < end; i++) out.push(at.get(i) ?? "#0"); for (const k of at.keys()) if (k >= end) return ["over"];
    if (buf !== null) { out.push("BUF"); const rest = addLin(addLin(linear(total), linear(C(buf)), -1), { c: null, m: new Map([["$0.length", { t: TM.get("$0.length") ?? named("$0.length"), k: 1 }]]) }, -1); const t = linTerm(rest); if (!(t.h === "const" && t.n === 0)) out.push("PAD:" + t.key); }
    return out;
  };
  /** a number read from bytes: "le:<array>:<offset>:<count>" */
  const number = (t) => {
    if (!t) return null; if (t.h === "number" || /^number\(/.test(t.key) && t.a?.length === 1) return number(t.a[0]);
    const m = /^call:intFromBytes\((.*?)(?:,obj:(.*))?\)$/.exec(t.key); if (t.args && /intFromBytes$/.test(t.name ?? "")) { const a = arr(t.args[0].key); const sz = x["z:" + a] ? TM.get(x["z:" + a]) : null; const opt = t.args[1]?.key ?? ""; return `${/"big"/.test(opt) ? "be" : "le"}${/isSigned/.test(opt) && /false/.test(opt) ? "" : "s"}:${a}:0:${sz?.key ?? "?"}`; } void m;
    const g = /get(Uint|Int)(8|16|32)$/.exec(t.name ?? ""); if (g && t.args) { const dv = t.recv && x["dv:" + t.recv.key]; if (!dv) return null; const off = t.args[0]; if (off?.h !== "const") return null; const n = g[2] / 8; return `${n === 1 || t.args[1]?.h === "const" && t.args[1].n === true ? "le" : "be"}${g[1] === "Int" ? "s" : ""}:${arr(dv)}:${off.n}:${n}`; }
    const e = elem(t); if (e) return `le:${e[0]}:${e[1]}:1`;
    const parts = []; const go = (q, sh) => { if (q.h === "bin" && q.n === "<<" && q.a[1].h === "const") return go(q.a[0], sh + q.a[1].n); if (q.h === "bin" && (q.n === "|")) return q.a.every((y) => go(y, sh)); if (q.h === "lin") { for (const { t: y, k } of q.lin.m.values()) { const s2 = Math.log2(k); if (!Number.isInteger(s2) || !go(y, sh + s2)) return false; } return !q.lin.c; } if (q.h === "bin" && q.n === "*" && q.a.some((y) => y.h === "const")) { const k = Math.log2(q.a.find((y) => y.h === "const").n); return Number.isInteger(k) && go(q.a.find((y) => y.h !== "const"), sh + k); } const f = elem(q); if (!f) return false; parts.push([f[0], f[1], sh]); return true; };
    if (go(t, 0) && parts.length > 1 && parts.every((y) => y[0] === parts[0][0])) { parts.sort((a, b) => a[1] - b[1]); if (parts.every((y, i) => y[1] === parts[0][1] + i && y[2] === 8 * i)) return `le:${parts[0][0]}:${parts[0][1]}:${parts.length}`; }
    return null;
  };
  const elem = (t) => { const m = /^(.*)\[(\d+)\]$/s.exec(t.key); return m ? [arr(m[1]), Number(m[2])] : null; };
  /** number × constant factor */
  const scaled = (t) => { if (t.h === "bin" && t.n === "*" && t.a.some((y) => y.h === "const")) { const c = t.a.find((y) => y.h === "const"), o = t.a.find((y) => y !== c); return [number(o), c.n]; } if (t.h === "bin" && t.n === "<<" && t.a[1].h === "const") { const n0 = number(t); return n0 ? [n0, 1] : [number(t.a[0]), 2 ** t.a[1].n]; } if (t.h === "lin" && t.lin.m.size === 1 && !t.lin.c) { const [{ t: o, k }] = t.lin.m.values(); return [number(o), k]; } return [number(t), 1]; };
  return { arr, size, byte, le, layout, number, scaled, words };
}
/** keeps track of what is written into arrays */
function record(x, v, T, TM) {
  const K = (t) => { TM.set(t.key, t); return t.key; };
  if (v.op === "GetProp" && /^(length|byteLength)$/.test(v.name ?? "")) K(T(v));
  if (v.op === "New" && /Uint8Array$/.test(v.name ?? "")) {
    const a = v.args[0] ? resolve(v.args[0]) : null, k = T(v).key; if (!a) return x;
    const ta = T(a); if (ta.h === "arr") { const B = Bytes(x, TM); return { ...x, ["i:" + k]: JSON.stringify(ta.a.map((y) => B.byte(y))) }; }
    return { ...x, ["z:" + k]: K(T(a)) };
  }
  if (v.op === "SetElem") { const k = T(v.args[0]).key; if (x["z:" + k] === undefined) return x; const B = Bytes(x, TM); return push(x, k, K(T(v.args[1])), [B.byte(T(v.args[2]))]); }
  if (v.op === "New" && /DataView$/.test(v.name ?? "")) { const b = T(v.args[0]).key; if (b.endsWith(".buffer")) return { ...x, ["dv:" + T(v).key]: b.slice(0, -7) }; }
  if (v.op !== "Call") return x;
  const n = v.name ?? "";
  if (v.method === "set" && v.recv && /Uint8Array\.set$/.test(n)) { const k = T(v.recv).key; const src = T(v.callArgs[0]).key, B = Bytes(x, TM); const off = v.callArgs[1] ? K(T(v.callArgs[1])) : K(C(0)); return push(x, k, off, B.layout(src) ?? ["?" + src]); }
  const g = /DataView\.set(?:Uint|Int)(8|16|32)$/.exec(n); if (g) { const k = x["dv:" + T(v.recv).key]; if (!k) return x; const B = Bytes(x, TM); const l = v.callArgs[2] ? T(v.callArgs[2]) : null; return push(x, k, K(T(v.callArgs[0])), B.le(T(v.callArgs[1]), g[1] / 8, !(l?.h === "const" && l.n === true))); }
  if (/(^|#)concat$/.test(n)) { const a = resolve(v.callArgs[0]); if (a.op === "Array") return { ...x, ["cat:" + T(v).key]: JSON.stringify(a.args.map((y) => T(y).key)) }; }
  if (/(^|#)intToBytes$/.test(n)) { const c = T(v.callArgs[1]); if (c.h === "const") { const B = Bytes(x, TM); return { ...x, ["i:" + T(v).key]: JSON.stringify(B.le(T(v.callArgs[0]), c.n, /"big"/.test(v.callArgs[2] ? T(v.callArgs[2]).key : ""))) }; } }
  if (/getRandomValues$/.test(n)) { const a = resolve(v.callArgs[0]); if (a.op === "New") { const z = T(a.args[0]); return { ...x, ["r:" + T(v).key]: K(z) }; } }
  return x;
  function push(x, k, off, segs) { const w = JSON.parse(x["w:" + k] ?? "[]"); return { ...x, ["w:" + k]: JSON.stringify([...w, [off, segs]]) }; }
}
const isWrite = (v) => v.op === "Call" && v.method === "write" && /Connection\w*\.write$/.test(v.name ?? ""), isRead = (v) => v.op === "Call" && v.method === "read" && /Connection\w*\.read$/.test(v.name ?? "");
const isCipher = (v) => v.op === "Call" && /CTR\.call$/.test(v.name ?? "");
function transport(ctx, p, c) {
  const label = p.rel(c.getSourceFile()) + "#" + c.name.text;
  const mkob = (f, pre) => (kind, ok, key, v, cx, msg) => ctx.ob(kind, !!ok, { key: label + "|" + pre + "|" + key, at: p.loc(v?.ast ?? f), message: `${label} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  const send = method(c, "send"), receive = method(c, "receive"), init = method(c, "initialize"); ctx.need(init, `initialize of ${label}`);
  // ---- announcement
  const kinds = [], TMi = new Map();
  { const ob = mkob(init, "initialize");
    track(ctx, init, { policy: inl, keep: () => true,
      inst(s, v, cx, T) {
        let x = record(s.x, v, T, TMi);
        if (v.op === "Call" && /getObfuscationParameters$/.test(v.name ?? "")) { const t = T(v.callArgs[0]); const k = Object.keys(KINDS).find((y) => t.h === "const" && Number(t.n) === KINDS[y].tag); ob(R.start, k, "tag", v, cx, "hands an unknown tag to the handshake"); ob(R.start, !x.said, "twice", v, cx, "starts the connection twice"); x = { ...x, said: k ?? "?", hs: T(v).key, obf: 1 }; }
        if (isWrite(v)) { const B = Bytes(x, TMi); const l = B.layout(T(v.callArgs[0]).key); const k = l && Object.keys(KINDS).find((y) => KINDS[y].plain.map((b) => "#" + b).join() === l.join()); ob(R.start, k, "bytes", v, cx, "starts the connection with bytes that announce no known encoding"); ob(R.start, !x.said, "twice", v, cx, "starts the connection twice"); x = { ...x, said: k ?? "?" }; }
        if (v.op === "SetProp" && v.name === "obfuscationParameters") x = { ...x, kept: T(v.args[1]).key === x.hs ? 1 : 0 };
        return x === s.x ? undefined : { ...s, x };
      },
      edge(s, t, truth) { const f = fields(t, truth); if (f) return { ...s, x: { ...s.x, ["f:" + f[0]]: f[1] ? 1 : 0 } }; },
      exit(s, kind, cx) { if (kind !== "return") return; ob(R.start, s.x.said, "none", null, cx, "does not announce the encoding"); if (s.x.obf) ob(R.start, s.x.kept, "kept", null, cx, "does not keep the cipher states of the handshake"); if (s.x.said) kinds.push({ kind: s.x.said, f: Object.fromEntries(Object.entries(s.x).filter(([k]) => k.startsWith("f:"))), obf: !!s.x.obf }); },
    }); }

  const kindFor = (x) => { const ok = kinds.filter((k) => Object.entries(k.f).every(([f, b]) => x[f] === undefined || x[f] === b)); return [...new Set(ok.map((k) => k.kind))]; };
  const obfOf = (t, truth) => { const f = fields(t, truth); return f && /obfuscationParameters/.test(f[0]) ? (f[1] ? 1 : 0) : null; };
  // ---- send
  { const ob = mkob(send, "send"), TM = new Map(); let seen = 0;
    track(ctx, send, { policy: inl, keep: () => true, stable: (k) => /^this\.#?\w+$/.test(k), maxStates: 6000,
      inst(s, v, cx, T) {
        let x = record(s.x, v, T, TM);
        if (isCipher(v)) { const d = T(v.callArgs[0]).key; ob(R.cipher, /encryptionCTR$/.test(T(v.recv).key), "direction", v, cx, "encrypts with the wrong direction's cipher"); ob(R.cipher, !x.enc, "once", v, cx, "passes a frame through the cipher twice"); x = { ...x, enc: 1, ["c:" + T(v).key]: d }; }
        if (isWrite(v)) {
          const a = T(v.callArgs[0]).key, B = Bytes(x, TM), plain = x["c:" + a] === undefined; const d = B.arr(a);
          ob(R.cipher, plain ? x.obf === 0 : true, "plain", v, cx, "sends a frame that did not pass the cipher although there may be one"); ob(R.cipher, !x.wrote, "again", v, cx, "writes a frame in more than one piece, or twice");
          const l = B.layout(d); const ks = kindFor(x);
          if (!l || l.some((g) => g.startsWith("?"))) { ctx.count("layouts not recognised", 1); ob(R.frame, true, "skipped", v, cx, ""); }
          else for (const k of ks) { const why = frame(k, l, x, TM, B); seen++; ob(R.frame, !why, k + "|" + why, v, cx, `sends a frame that is not laid out as the ${k} encoding has it: ${why}`); }
          x = { ...x, wrote: 1, pending: T(v).key };
        }
        if (v.op === "Await" && x.pending && T(v.args[0]).key === x.pending) x = { ...x, pending: "" };
        return x === s.x ? undefined : { ...s, x };
      },
      edge(s, t, truth, cx, T) {
        void cx; void T; if (truth && t.h === "isnull" && /CTR\.call$/.test(t.a[0].name ?? "")) return null; let x = s.x; const f = fields(t, truth); if (f) x = { ...x, ["f:" + f[0]]: f[1] ? 1 : 0 }; const o = obfOf(t, truth); if (o !== null) x = { ...x, obf: o };
        const B = Bytes(x, TM); for (const l of notNegative(t, truth)) { if (l.m.size !== 1) continue; const [[k, { k: n }]] = l.m; const w = B.words(k); const unit = w === "N" ? 1 : k === "$0.length" ? 4 : 0; if (!unit) continue; if (n === 1) x = { ...x, atLeast: Math.ceil(-l.c / unit) }; if (n === -1) x = { ...x, atMost: Math.floor(l.c / unit) }; }
        return x === s.x ? undefined : { ...s, x };
      },
      exit(s, kind, cx) { if (kind === "return") { ob(R.cipher, s.x.wrote, "lost", null, cx, "returns without having sent the frame"); ob(R.cipher, !s.x.pending, "awaited", null, cx, "returns before the frame is written"); } },
    }); void seen; }
  /** null when the layout is right */
  function frame(k, l, x, TM, B) {
    void TM; void B; const s = l.join(" ");
    if (k === "abridged") {
      if (s === "N@0 BUF") return x.atMost !== undefined && x.atMost <= 126 ? null : "the short header is used although the length may be 127 words or more";
      if (s === "#127 N@0 N@8 N@16 BUF") return x.atLeast !== undefined && x.atLeast >= 127 ? null : "the long header is used for a length below 127 words";
      return s.slice(0, 120);
    }
    const i = l.indexOf("BUF"); if (i !== 4) return "the payload does not follow a header of four bytes: " + s.slice(0, 100);
    const tail = l.slice(5); const pad = tail.length === 0 ? null : tail.length === 1 && tail[0].startsWith("PAD:") ? tail[0].slice(4) : undefined; if (pad === undefined) return "unknown bytes after the payload";
    const L = linTerm(addLin(pad === null ? linear(C(0)) : linear(TM.get(pad) ?? named(pad)), { c: null, m: new Map([["$0.length", { t: named("$0.length"), k: 1 }]]) }, 1)).key;
    for (let j = 0; j < 4; j++) if (l[j] !== `${L}@${8 * j}`) return `the length header is ${l.slice(0, 4).join(" ").slice(0, 100)}`;
    if (pad !== null) { if (k !== "padded") return "padding is sent although the encoding has none"; if (!/%1[0-6]\)|%[1-9]\)|&1[0-5]\)|&[1-9]\)|\(1[0-5]&|\([1-9]&|\*1[0-6]\)|\(1[0-6]\*/.test(pad)) return "the padding may be longer than 15 bytes"; }
    return null;
  }
  // ---- receive
  { const ob = mkob(receive, "receive"), TM = new Map();
    track(ctx, receive, { policy: inl, keep: () => true, stable: (k) => /^this\.#?\w+$/.test(k), maxStates: 6000,
      inst(s, v, cx, T) {
        let x = record(s.x, v, T, TM);
        if (isRead(v)) { const a = T(v.callArgs[0]).key; const rs = JSON.parse(x.reads ?? "[]"); x = { ...x, reads: JSON.stringify([...rs, [a, x["z:" + a] ?? "?"]]), reading: T(v).key }; }
        if (v.op === "Await" && x.reading && T(v.args[0]).key === x.reading) x = { ...x, reading: "" };
        if (isCipher(v)) {
          const d = T(v.callArgs[0]).key, rs = JSON.parse(x.reads ?? "[]"), done = x.done ?? 0; ob(R.cipher, /decryptionCTR$/.test(T(v.recv).key), "direction", v, cx, "decrypts with the wrong direction's cipher"); ob(R.cipher, !x.reading, "early", v, cx, "decrypts before the bytes were read");
          ob(R.cipher, rs[done]?.[0] === d, "order", v, cx, "does not decrypt what it read exactly once and in order"); x = { ...x, done: done + 1, ["c:" + T(v).key]: d };
        }
        if (v.op === "Return") x = { ...x, ret: T(v.args[0]).key };
        return x === s.x ? undefined : { ...s, x };
      },
      edge(s, t, truth) {
        let x = s.x; const f = fields(t, truth); if (f) x = { ...x, ["f:" + f[0]]: f[1] ? 1 : 0 }; const o = obfOf(t, truth); if (o !== null) x = { ...x, obf: o };
        const B = Bytes(x, TM); for (const l of notNegative(t, truth)) { if (l.m.size !== 1) continue; const [{ t: q, k: n }] = l.m.values(); const nm = B.number(q); if (!nm) continue; if (n === 1) x = { ...x, ["ge:" + nm]: -l.c }; if (n === -1) x = { ...x, ["le:" + nm]: l.c }; }
        let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; } if (q.h === "bin" && q.n === "===" && q.a.some((y) => y.h === "const" && y.n === 127)) { const nm = B.number(q.a.find((y) => y.h !== "const")); if (nm) x = tr ? { ...x, ["ge:" + nm]: 127 } : { ...x, ["le:" + nm]: 126 }; }
        return x === s.x ? undefined : { ...s, x };
      },
      exit(s, kind, cx) {
        if (kind !== "return") return; const x = s.x, B = Bytes(x, TM), rs = JSON.parse(x.reads ?? "[]");
        const last = rs[rs.length - 1]?.[0]; const plain = x.ret !== undefined && x["c:" + x.ret] === undefined;
        ob(R.mirror, last && B.arr(x.ret ?? "") === last, "result", null, cx, "does not return what followed the header"); ob(R.cipher, plain ? x.obf === 0 && !x.done : x.done === rs.length, "all", null, cx, "does not pass everything it received through the cipher");
        for (const k of kindFor(x)) {
          const sizes = rs.map((r) => (r[1] === "?" ? null : B.size(TM.get(r[1])))); let why = null;
          if (sizes.some((z) => !z)) { ctx.count("reads not recognised", 1); ob(R.mirror, true, "skipped", null, cx, ""); continue; }
          const num = (i) => sizes[i].h === "const" ? sizes[i].n : null, [n, m] = B.scaled(sizes[sizes.length - 1]);
          if (k === "abridged") {
            const h = `le:${rs[0]?.[0]}:0:1`;
            if (num(0) !== 1) why = "the header does not start with one byte"; else if (rs.length === 2) why = n !== h || m !== 4 ? "the length of a short frame is not four times its first byte" : !(x["le:" + h] <= 126) ? "a first byte of 127 or more is taken for a length" : null;
            else if (rs.length === 3) why = num(1) !== 3 ? "the long header does not have three more bytes" : n !== `le:${rs[1][0]}:0:3` || m !== 4 ? "the length of a long frame is not four times its three length bytes" : !(x["ge:" + h] >= 127) ? "a first byte below 127 is taken for the long form" : null; else why = `it consists of ${rs.length} parts`;
          } else why = rs.length !== 2 ? `it consists of ${rs.length} parts` : num(0) !== 4 ? "the header does not have four bytes" : n !== `le:${rs[0][0]}:0:4` || m !== 1 ? "the length is not the header's number" : null;
          ob(R.mirror, !why, k + "|" + why, null, cx, `does not take a frame apart as the ${k} encoding has it: ${why}`);
        }
      },
    }); }
}
/** ---- the obfuscation handshake */
function handshake(ctx, p, f) {
  const label = p.rel(f.getSourceFile()) + "#" + f.name.text, TM = new Map();
  const ob = (kind, ok, key, v, cx, msg) => ctx.ob(kind, !!ok, { key: label + "|" + key, at: p.loc(v?.ast ?? f), message: `${label} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  const RES = [0x44414548, 0x54534F50, 0x20544547, 0x4954504F, 0x02010316, 0xDDDDDDDD, 0xEEEEEEEE];
  const swap = (n) => ((n & 255) << 24 | (n >>> 8 & 255) << 16 | (n >>> 16 & 255) << 8 | n >>> 24 & 255) >>> 0;
  const inv = []; // names of parameters: secret and dcId
  void inv; let wrote = 0;
  track(ctx, f, { policy: inl, keep: () => true, maxStates: 8000,
    inst(s, v, cx, T) {
      let x = record(s.x, v, T, TM); const K = (t) => { TM.set(t.key, t); return t.key; };
      if (v.op === "Call" && /CTR\.importKey$/.test(v.name ?? "")) x = { ...x, ["ik:" + T(v).key]: K(T(v.callArgs[0])) };
      if (v.op === "New" && /CTR$/.test(v.name ?? "")) x = { ...x, ["key:" + T(v).key]: x["ik:" + T(v.args[0]).key] ?? "?", ["iv:" + T(v).key]: K(T(v.args[1])) };
      if (v.op === "Call" || v.op === "New") { const id = `%${v.id};`; if (Object.keys(x).some((k) => k.startsWith("ex:") && k.includes(id))) { const y = {}; for (const k of Object.keys(x)) if (!k.startsWith("ex:") || !k.includes(id)) y[k] = x[k]; x = y; } }
      if (v.op === "Call" && v.method === "set" && T(v.callArgs[1] ?? v.callArgs[0]).key === "60" && /dcId/.test(T(v.callArgs[0]).key)) { const l = Bytes(x, TM).layout(T(v.callArgs[0]).key); x = { ...x, dc: l && l.length === 2 && l[0].endsWith("@0") && l[1].endsWith("@8") ? T(v.recv).key : "?" }; }
      if (v.op === "Call" && /DataView\.set(Uint|Int)16$/.test(v.name ?? "") && /dcId/.test(T(v.callArgs[1]).key)) { const l = v.callArgs[2] ? T(v.callArgs[2]) : null; x = { ...x, dc: T(v.callArgs[0]).key === "60" && l?.h === "const" && l.n === true ? x["dv:" + T(v.recv).key] : "?" }; }
      if (v.op === "Call" && v.method === "reverse") { const r = resolve(v.recv); x = { ...x, ["fresh:" + T(v).key]: r.op === "Call" && r.method === "slice" || r.op === "New" ? 1 : 0 }; }
      if (isCipher(v)) { ob(R.cipher, !x.enc, "once", v, cx, "passes the handshake through the cipher twice"); ob(R.keys, x.dc === T(v.callArgs[0]).key || x.nodc, "dc", v, cx, "encrypts the handshake without (or before) having put the data center into it"); x = { ...x, enc: T(v).key, ctr: K(T(v.recv)), init: K(T(v.callArgs[0])) }; }
      if (isWrite(v)) {
        wrote++; const I = x.init ? TM.get(x.init) : null; const want = I ? cat([slice(I, C(0), C(56)), slice(T.terms ? TM.get(x.enc) ?? named(x.enc) : named(x.enc), C(56), C(64))]).key : null; void want;
        const parts = x["cat:" + T(v.callArgs[0]).key]; const got = parts ? JSON.parse(parts) : null;
        const ok = I && got && got.length === 2 && got[0] === slice(I, C(0), C(56)).key && [`slice(${x.enc},56,64)`, `slice(${x.enc},56)`].includes(got[1]);
        ob(R.keys, ok, "bytes", v, cx, "does not write the first 56 bytes of the handshake as they are and its last eight encrypted"); x = { ...x, wrote: 1 };
        for (const n of [0xEF]) ob(R.reserved, x["ex:b:" + n + ":" + x.init], "first", v, cx, "may start a connection with the byte that announces the abridged encoding");
        for (const n of RES) ob(R.reserved, x["ex:0:" + n + ":" + x.init], "int|" + n.toString(16), v, cx, `may start a connection with 0x${n.toString(16).padStart(8, "0")}, which other protocols start with`);
        ob(R.reserved, x["ex:4:0:" + x.init], "second", v, cx, "may start a connection whose second number is 0, as in the full encoding");
      }
      if (v.op === "Return" && v.args[0]) { const o = resolve(v.args[0]); if (o.op === "Object") { const g = (n) => o.props.find((q) => q.key === n)?.value; const e = g("encryptionCTR"), d = g("decryptionCTR"); if (e && d) judge(x, T(e).key, T(d).key, v, cx); } x = { ...x, ret: 1 }; }
      return x === s.x ? undefined : { ...s, x };
    },
    edge(s, t, truth) {
      let x = s.x, q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; } const B = Bytes(x, TM); const put = (n, c) => { const m = /^(le|be)s?:(.*):(\d+):(\d+)$/.exec(n ?? ""); if (!m) return; let val = Number(c) >>> 0; if (m[4] === "1" && m[3] === "0") x = { ...x, ["ex:b:" + val + ":" + m[2]]: 1 }; if (m[4] === "4") { if (m[1] === "be") val = swap(val); x = { ...x, ["ex:" + m[3] + ":" + val + ":" + m[2]]: 1 }; } };
      if (!tr && q.h === "bin" && q.n === "===" && q.a.some((y) => y.h === "const" && typeof y.n === "number")) put(B.number(q.a.find((y) => y.h !== "const") ?? q.a[0]), q.a.find((y) => y.h === "const").n);
      if (!tr && q.args && /(includes|has)$/.test(q.name ?? "")) { const list = q.recv?.h === "global" ? literal(q.recv.n) : q.recv?.a ?? []; const els = list.length === 1 && list[0].h === "arr" ? list[0].a : list; for (const c of els) if (c.h === "const") put(B.number(q.args[0]), c.n); }
      if (tr && /dcId/.test(q.key) && (q.h === "isnull" || q.h === "bin" && q.n === "===" && /undefined/.test(q.key))) x = { ...x, nodc: 1 };
      if (q.h === "isnull" && tr && /^\$\d+$/.test(q.a[0].key)) x = { ...x, nodc: 1, nosecret: 1 };
      if (/secret/.test(q.key)) { if ((q.h === "isnull" || q.h === "bin" && q.n === "===" && /undefined/.test(q.key)) && tr) x = { ...x, nosecret: 1 }; else if (q.h !== "bin" && q.h !== "isnull" && !tr) x = { ...x, nosecret: 1 };
        for (const l of notNegative(t, truth)) { if (l.m.size !== 1) continue; const [[k, { k: n }]] = l.m; if (!/secret\.length$/.test(k)) continue; if (n === 1 && -l.c >= 17) x = { ...x, long: 1 }; if (n === -1 && l.c <= 16) x = { ...x, long: 0 }; } }
      return x === s.x ? undefined : { ...s, x };
    },
    exit(s, kind, cx) { if (kind === "return") ob(R.keys, s.x.wrote && s.x.enc, "written", null, cx, "returns without having written the handshake"); },
  });
  function literal(n) { const nm = n.replace(/^.*#/, ""); for (const sf of p.sourceFiles) if (p.isRepo(sf) && n.startsWith(p.rel(sf) + "#")) for (const st of sf.statements) if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) if (d.name.getText() === nm && d.initializer) { const out = []; p.walk(d.initializer, (y) => { if (ts.isNumericLiteral(y)) out.push(C(Number(y.text.replace(/_/g, "")))); }); return out; } return []; }
  ob(R.reserved, wrote > 0, "none", null, null, "never writes a handshake");
  function judge(x, e, d, v, cx) {
    const I = TM.get(x.init); ob(R.keys, e === x.ctr, "same", v, cx, "does not go on with the cipher that the handshake went through"); if (!I) return; ob(R.keys, e !== d, "separate", v, cx, "uses one cipher state for both directions");
    ob(R.keys, x["iv:" + e] === slice(I, C(40), C(56)).key, "iv", v, cx, "does not take bytes 40 to 56 of the handshake as the outgoing IV");
    const iv = TM.get(x["iv:" + d] ?? ""); const base = iv?.h === "slice" ? iv.a[0] : null; const rk = base?.key ?? "";
    const rev = /(reverse|toReversed)\(/.test(rk) && rk.includes(I.key) && (/toReversed\(/.test(rk) || x["fresh:" + rk] === 1); ob(R.keys, rev && iv.key === slice(base, C(40), C(56)).key, "riv", v, cx, "does not take bytes 40 to 56 of the reversed handshake as the incoming IV"); if (!rev) return;
    for (const [dir, c, src] of [["outgoing", e, I], ["incoming", d, base]]) {
      const key = x["key:" + c], plain = slice(src, C(8), C(40)); if (!key || key === "?") { ob(R.keys, false, dir, v, cx, `has an unknown ${dir} key`); continue; }
      if (key === plain.key) { ob(R.keys, x.nosecret, dir + "|secret", v, cx, `does not mix the secret into the ${dir} key`); continue; }
      const m = /^sha256\(cat\((.*)\)\)$/s.exec(key); const rest = m && m[1].startsWith(plain.key + ",") ? m[1].slice(plain.key.length + 1) : null;
      const ok = rest !== null && (/^[\w$.]*secret$/.test(rest) ? x.long === 0 : /^slice\([\w$.]*secret,1,17\)$/.test(rest) ? x.long === 1 : false); ob(R.keys, ok, dir, v, cx, `does not derive the ${dir} key from bytes 8 to 40 and the 16 bytes of the secret`);
    }
  }
}
/** ---- the counter mode cipher */
function counter(ctx, p, c) {
  const label = p.rel(c.getSourceFile()) + "#CTR"; const f = method(c, "call"); const TM = new Map();
  const ob = (ok, key, v, cx, msg) => ctx.ob(R.stream, !!ok, { key: label + "|" + key, at: p.loc(v?.ast ?? f), message: `${label} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  // the field that holds the position in the block: it is set to a remainder
  let S = null; const rem = (m) => { let hit = false; p.walk(m, (y) => { if (ts.isBinaryExpression(y) && /%|&/.test(y.operatorToken.getText())) hit = true; if (ts.isIdentifier(y)) { const d = p.symbolOf(y)?.valueDeclaration; if (d && ts.isVariableDeclaration(d) && d.initializer && /%|&/.test(d.initializer.getText())) hit = true; } }); return hit; };
  p.walk(c, (m) => { if (ts.isBinaryExpression(m) && m.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(m.left) && m.left.expression.kind === ts.SyntaxKind.ThisKeyword && rem(m.right)) S = S ?? m.left.name.text; });
  ctx.ob(R.stream, !!S, { key: label + "|position", at: p.loc(f), message: `${label} does not keep how far into a block it is` }); if (!S) return;
  const s0 = "this." + S;
  track(ctx, f, { policy: {}, keep: () => true, maxStates: 4000,
    inst(s, v, cx, T) {
      let x = record(s.x, v, T, TM);
      if (v.op === "GetProp" && v.name === S && T(v.args[0]).h === "this") x = { ...x, ["rd" + v.id]: x.moved ? 0 : 1 };
      if (v.op === "Call" && /^(subarray|slice)$/.test(v.method ?? "") && v.callArgs?.length === 1) { const a = resolve(v.callArgs[0]); x = { ...x, ["cut" + T(v).key]: a.op === "GetProp" && x["rd" + a.id] === 1 ? 1 : 0 }; }
      if (v.op === "Await" && !v.inlined) { const q = resolve(v.args[0]); if (q.op === "Call" && /Mutex\.lock$/.test(q.name ?? "")) x = { ...x, lock: T(v).key }; if (q.op === "Call" && /SubtleCrypto\.encrypt$/.test(q.name ?? "")) x = { ...x, done: T(v).key }; }
      if (v.op === "Call" && v.fnValue && x.lock && T(v.fnValue).key === x.lock) x = { ...x, lock: "" };
      if (v.op === "Call" && /SubtleCrypto\.encrypt$/.test(v.name ?? "")) {
        ob(x.lock, "lock", v, cx, "encrypts without holding its lock, so that two calls use the same key stream"); ob(!x.e, "once", v, cx, "encrypts the same bytes twice"); const d = T(v.callArgs[2]).key, cnt = T(v.callArgs[0]).key; ob(/counter/.test(cnt) && cnt.includes("this."), "counter", v, cx, "does not encrypt with its own counter");
        const len = TM.get("$0.length") ?? named("$0.length"); const z = x["z:" + d] ? linear(TM.get(x["z:" + d])) : null;
        const w = JSON.parse(x["w:" + d] ?? "[]"); const padded = z && z.m.size === 2 && z.m.get(s0)?.k === 1 && z.m.get("$0.length")?.k === 1 && !Number(z.c ?? 0) && w.length === 1 && w[0][0] === s0 && w[0][1].join() === "BUF"; void len;
        const parts = x["cat:" + d] ? JSON.parse(x["cat:" + d]) : []; const joined = parts.length === 2 && parts[1] === "$0" && x["z:" + parts[0]] === s0; ob(padded || joined || d === "$0" && x.zero, "input", v, cx, "does not skip the part of the key stream that was used before"); x = { ...x, e: T(v).key, d, padded: padded || joined ? 1 : 0 };
      }
      if (v.op === "SetProp" && v.name === S && T(v.args[0]).h === "this") {
        const t = T(v.args[1]); const m = t.h === "bin" && t.n === "%" ? t.a : null; const Eln = m?.[0]; ob(x.lock && x.done, "late", v, cx, "moves its position before it has encrypted, or without its lock");
        const total = Eln && (ofResult(Eln.key, x) || Eln.key === x.d + ".length" || x.padded && sum(Eln) || !x.padded && Eln.key === "$0.length"); ob(total && (/\.length$/.test(m[1].key) || m[1].key === "16"), "position", v, cx, "does not go on from where it stopped within a block"); x = { ...x, moved: 1 };
      }
      if (v.op === "SetElem" && T(v.args[0]).key.startsWith("this.") && !x.stepped) {
        const at = T(v.args[1]), val = T(v.args[2]); ob(x.done, "counted early", v, cx, "changes its counter before it has encrypted"); const iv = T(v.args[0]).key; if (at.h === "lin" || at.h === "const") { const l = linear(at); ob(l.m.get(iv + ".length")?.k === 1 && Number(l.c) === -1 || at.h === "const" && at.n === 15, "last", v, cx, "does not count from the last byte of its counter"); }
        const inner = val.h === "bin" && (val.n === "&" && val.a.some((y) => y.key === "255") || val.n === "%" && val.a[1].key === "256") ? val.a.find((y) => y.key !== "255" && y.key !== "256") : null; const l = inner ? linear(inner) : null;
        if (l) { const other = [...l.m].filter(([k]) => !k.startsWith(iv + "[")); ob(l.m.size === 2 && other.length === 1 && other[0][1].k === 1 && !Number(l.c ?? 0) && blocks(other[0][1].t, x), "amount", v, cx, "does not move its counter by the number of whole blocks it used"); }
        const wraps = val.h === "lin" || val.h === "bin" && (val.n === "&" && val.a.some((y) => y.key === "255") || val.n === "%" && val.a[1].key === "256"); ob(wraps, "wrap", v, cx, "does not keep the low eight bits when it counts");
        const ph = phi(resolve(v.args[2])); if (ph) for (const a of ph.args) { const t = T(a); if (t.key.includes(iv + "[")) { const z = /floor|trunc/.test(t.name ?? "") ? t.args[0] : t; ob(z.h === "bin" && (z.n === "/" && z !== t && z.a[1].key === "256" || /^>>>?$/.test(z.n) && z.a[1].key === "8"), "carry", v, cx, "does not carry what exceeds eight bits over to the next byte"); } }
        x = { ...x, stepped: 1 };
      }
      if (v.op === "Return" && x.e) { const t = T(v.args[0]).key; if (t !== "undefined" && !/^%/.test(t)) x = { ...x, ret: t }; }
      return x === s.x ? undefined : { ...s, x };
    },
    edge(s, t, truth, cx, T, has, term) {
      let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; } let x = s.x; void cx; void T; void has;
      const isZero = q.key === s0 ? !tr : q.h === "bin" && q.n === "===" && q.a.some((y) => y.key === s0) && q.a.some((y) => y.key === "0") ? tr : q.h === "bin" && q.n === "<" && q.a[0].key === "0" && q.a[1].key === s0 ? !tr : null;
      if (isZero !== null && before(resolve(term.cond), x)) { if (x.zero !== undefined && x.zero !== isZero) return null; x = { ...x, zero: isZero }; }
      if (q.h === "bin" && q.n === "<" && tr && q.a[1].key === "0" && q.a[0].h === "lin" && /^\(\+this\.[#\w]+\.length-1\)$/.test(q.a[0].key)) return null; // the counter is not empty
      if (q.h === "bin" && q.n === "<" && q.a[0].key === "0" && !tr || q.h === "bin" && q.n === "===" && /\/|>>/.test(q.key) && tr) x = { ...x, still: 1 };
      return x === s.x ? undefined : { ...s, x };
    },
    exit(s, kind, cx) {
      const x = s.x; if (kind !== "return") return; if (!x.e) { ob(x.lock === undefined, "held", null, cx, "gives its lock away before the bytes have been encrypted"); if (x.lock === undefined) ctx.count("cipher paths not followed", 1); return; } ob(x.moved && (x.stepped || x.still), "advanced", null, cx, "returns without having moved on, so that the next bytes reuse its key stream");
      const r = x.ret ?? ""; ob(x.zero && (ofArr(r, x) || cut(r, x)) || cut(r, x), "result", null, cx, "does not return exactly the bytes that belong to its input");
    },
  });
  function phi(c, d = 0) { if (!c || d > 4) return null; if (c.op === "Phi") return c; if (c.op !== "Bin") return null; for (const y of c.args) { const r = phi(resolve(y), d + 1); if (r) return r; } return null; }
  function before(c, x, d = 0) { if (!c || d > 4) return false; if (c.op === "GetProp") return x["rd" + c.id] === 1; return (c.args ?? []).some((y) => before(resolve(y), x, d + 1)); }
  function ofArr(k, x) { return x["z:" + k] !== undefined && (x["z:" + k] === x.e || x["z:" + k] === x.done); }
  function cut(k, x) { const m = /^slice\((.*),([^,]*)\)$/s.exec(k); return !!m && ofArr(m[1], x) && m[2] === s0 && x["cut" + k] === 1; }
  function ofResult(k, x) { return k.endsWith(".length") && ofArr(k.slice(0, -7), x); }
  function sum(t) { const l = linear(t); return l.m.size === 2 && l.m.get(s0)?.k === 1 && l.m.get("$0.length")?.k === 1; }
  function blocks(t, x) { let q = t; if (q.args && /floor|trunc/.test(q.name ?? "")) q = q.args[q.args.length - 1]; if (q.h !== "bin" || !/^(\/|>>>?)$/.test(q.n)) return false; const l = linear(q.a[0]); const pos = [...l.m].filter(([, y]) => y.k === 1).map(([k]) => k), neg = [...l.m].filter(([, y]) => y.k === -1).map(([k]) => k); const whole = pos.length === 1 && (ofResult(pos[0], x) || pos[0] === x.d + ".length"); return whole && (neg.length === 1 && (neg[0] === s0 || /%/.test(neg[0])) || neg.length === 0 && q !== t) && (/\.length$/.test(q.a[1].key) || q.a[1].key === "16" || q.n !== "/" && q.a[1].key === "4"); }
}
/** ---- sessions */
function session(ctx, p, c) {
  const label = p.rel(c.getSourceFile()) + "#" + c.name.text;
  const mkob = (f) => (kind, ok, key, v, cx, msg) => ctx.ob(kind, !!ok, { key: label + "|" + key, at: p.loc(v?.ast ?? f), message: `${label} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
  for (const f of c.members) {
    if (!ts.isMethodDeclaration(f) || !f.body) continue; let rec = false, opens = false;
    p.walk(f, (m) => { if (ts.isCallExpression(m)) { const n = p.resolveCallee(m).name ?? ""; if (/Transport\.receive$/.test(n)) rec = true; if (/Connection\.open$/.test(n)) opens = true; } });
    if (rec) {
      const ob = mkob(f);
      track(ctx, f, { policy: { never: (n) => /decrypt|invalidate/i.test(n) }, keep: () => true,
        inst(s, v, cx, T) {
          let x = s.x; if (v.op === "Call" && /Transport\.receive$/.test(v.name ?? "")) x = { buf: T(v).key };
          if (v.op === "New" && /TransportError$/.test(v.name ?? "") && x.buf) { const q = T(v.args[0]), k = q.key; ob(R.error, x.four && q.h !== "lin" && q.h !== "un" && k.includes(x.buf) && !/"big"/.test(k) && !(/isSigned/.test(k) && /false/.test(k)), "code", v, cx, "does not raise the error code that was received"); x = { ...x, made: T(v).key }; }
          if (x.buf && (v.op === "Call" || v.op === "New") && !/TransportError|intFromBytes|getUint|getInt|Number$|DataView/.test(v.name ?? "") && [...(v.callArgs ?? []), ...(v.op === "New" ? v.args : [])].some((a) => { try { return T(a).key === x.buf; } catch { return false; } })) ob(R.error, x.four === 0, "data", v, cx, "takes a frame for data that may be an error code");
          return x === s.x ? undefined : { ...s, x };
        },
        edge(s, t, truth) { let q = t, tr = truth; while (q.h === "not") { q = q.a[0]; tr = !tr; } const x = s.x; if (!x.buf || !q.key.includes(x.buf + ".length")) return; if (q.h === "bin" && q.n === "===" && q.a.some((y) => y.key === "4")) return { ...s, x: { ...x, four: tr ? 1 : 0 } }; for (const l of notNegative(t, truth)) { if (l.m.size !== 1) continue; const [[, { k: n }]] = l.m; if (n === 1 && -l.c > 4) return { ...s, x: { ...x, four: 0 } }; if (n === -1 && l.c <= 7) return { ...s, x: { ...x, four: 1 } }; } },
        exit(s, kind, cx) { if (kind === "return" && s.x.four === 1) ob(R.error, false, "swallowed", null, cx, "returns normally although an error code was received"); },
      });
    }
    if (opens) ready(ctx, p, c, f, mkob(f));
  }
}
/** connected means initialized */
function ready(ctx, p, c, f, ob) {
  const g = c.members.find((m) => ts.isGetAccessorDeclaration(m) && m.name.getText() === "isConnected"); if (!ctx.need(g, "isConnected of sessions")) { if (!g) return; }
  const flags = new Set(); p.walk(g, (m) => { if (ts.isPropertyAccessExpression(m) && m.expression.kind === ts.SyntaxKind.ThisKeyword && ts.isPrivateIdentifier(m.name)) flags.add(m.name.text); });
  // a flag that is false makes the session count as not connected
  const must = new Set([...flags].filter((fl) => { let ok = true, seen = false; track(ctx, g, { policy: {}, keep: () => true, edge(s, t, truth) { const q = fields(t, truth); if (q && q[0] === "this." + fl) return { ...s, x: { ...s.x, v: q[1] ? 1 : 0 } }; }, inst(s, v, cx, T) { if (v.op === "Return") { seen = true; const t = T(v.args[0]); const own = t.key === "this." + fl || t.h === "const" && t.n === false || t.key === "false" || t.h === "bool" && t.a?.[0]?.key === "this." + fl; if (!own && s.x.v !== 1) ok = false; } } }); return ok && seen; }));
  ob(R.before, must.size > 0, "flag", null, null, "counts as connected as soon as the socket is open, so that data can be sent before the encoding was announced, or with the previous connection's cipher state");
  if (!must.size) return;
  track(ctx, f, { policy: { never: (n) => /^transport\/|^connection\//.test(n) }, keep: () => false,
    inst(s, v, cx, T) {
      let x = s.x;
      if (v.op === "SetProp" && must.has(v.name) && T(v.args[0]).h === "this") { const t = T(v.args[1]); const on = !(t.h === "const" && t.n === false); if (on) ob(R.before, x.ready, "early", v, cx, "counts as connected before the connection has been initialized"); x = { ...x, ["v" + v.name]: on ? 1 : 0 }; }
      if (v.op === "Call" && /Connection\.open$/.test(v.name ?? "")) { ob(R.before, [...must].some((m) => x["v" + m] === 0), "reset", v, cx, "opens a connection while it may still count as initialized, so that data can be sent with the previous connection's cipher state"); x = { ...x, ready: 0 }; }
      if (v.op === "Call" && /Transport\.initialize$/.test(v.name ?? "")) x = { ...x, init: T(v).key };
      if (v.op === "Await" && x.init && T(v.args[0]).key === x.init) x = { ...x, aw: 1 };
      return x === s.x ? undefined : { ...s, x };
    },
    after(s, v, cx, T) { if (v.op === "Await" && s.x.init && T(v.args[0]).key === s.x.init) return { ...s, x: { ...s.x, ready: 1 } }; },
  });
  p.walk(c, (m) => { if (ts.isBinaryExpression(m) && m.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(m.left) && must.has(m.left.name.text) && m.right.kind === ts.SyntaxKind.TrueKeyword) { let q = m; while (q && !ts.isMethodDeclaration(q)) q = q.parent; ob(R.before, !q || q === f || [...calls(p, f)].includes(q), "elsewhere|" + (q?.name.getText() ?? ""), { ast: m }, null, "counts as connected before the connection has been initialized"); } });
}
function calls(p, f) { const out = new Set(); p.walk(f, (m) => { if (ts.isCallExpression(m)) { const r = p.resolveCallee(m).fn; if (r) out.add(r); } }); return out; }
