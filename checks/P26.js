"use strict";
const { ts } = require("../lib/project.js");
const { resolve, DEEP } = require("../lib/ir.js");
const { simulate, describePath } = require("../lib/sim.js");
const { Terms } = require("../lib/terms.js");
const { fnLabel, lower, callees } = require("../lib/util.js");
const mods = (m, k) => !!(ts.canHaveModifiers(m) && ts.getModifiers(m)?.some((x) => x.kind === k));
const isInternal = (m) => ts.getJSDocTags(m).some((t) => t.tagName.text === "internal");
const docText = (n) => ts.getJSDocCommentsAndTags(n).filter(ts.isJSDoc).map((d) => typeof d.comment === "string" ? d.comment : ts.getTextOfJSDocComment(d.comment) ?? "").join("\n");
const restriction = (n) => { const t = docText(n); return /\bUser-only\b/.test(t) ? "user" : /\bBot-only\b/.test(t) ? "bot" : null; };

module.exports = {
  technique: "interprocedural typestate with function summaries, once per account kind",
  explanation: "Every public method of Client is analysed twice, once under the assumption that the signed-in account is a bot and once that it is a user: branches on the account kind are resolved by that assumption and everything else is left open. Method summaries (always refuses, may send a request, may complete) are composed along the calls into the managers. A method documented User-only must, for a bot, neither complete nor reach a request on any path, and what ends the path after the account kind was tested must be an InputError; Bot-only likewise for a user. A method without such a note must not be refused on all its paths for either kind.",
  rules: ["restricted method refuses the other account kind", "refusal is an input error", "unrestricted method is not refused"],
  assumptions: ["the account kind recorded at sign-in is the kind of the account"],
  run(ctx) {
    const p = ctx.p, an = new Analysis(ctx);
    const generic = ctx.need(p.findClass("ClientGeneric")[0], "class ClientGeneric");
    const contract = new Map(generic.members.filter((m) => m.name).map((m) => [m.name.getText(), m]));
    const client = ctx.need(p.findClass("Client").find((c) => /client/.test(p.rel(c.getSourceFile()))), "class Client");
    for (const m of client.members) {
      if (!ts.isMethodDeclaration(m) || !m.body || !ts.isIdentifier(m.name) || mods(m, ts.SyntaxKind.PrivateKeyword) || isInternal(m)) continue;
      const n = m.name.text, r = restriction(m) ?? (contract.has(n) ? restriction(contract.get(n)) : null);
      if (r) {
        const other = r === "user" ? "bot" : "user", s = an.summary(m, other);
        const bad = s.request ?? s.completes;
        ctx.ob("restricted method refuses the other account kind", s.refuses, { key: n, at: bad?.at ?? p.loc(m), message: `${n} is documented ${r}-only, but for a ${other} account ${s.request ? `a request is reached without refusal (${s.request.what})` : "it can complete without refusal"}`, path: bad?.path });
        if (s.refuses) ctx.ob("refusal is an input error", !s.wrongError, { key: n, at: s.wrongError?.at ?? p.loc(m), message: `${n} refuses a ${other} account with something other than an input error` });
      } else for (const k of ["bot", "user"]) {
        const s = an.summary(m, k);
        ctx.ob("unrestricted method is not refused", !s.refuses, { key: n + "|" + k, at: s.refusedAt ?? p.loc(m), message: `${n} is not documented as restricted, but it is always refused for a ${k} account` });
      }
    }
    ctx.floor("restricted method refuses the other account kind", 250); ctx.floor("unrestricted method is not refused", 150); ctx.floor("refusal is an input error", 250);
  },
};

class Analysis {
  constructor(ctx) {
    this.ctx = ctx; this.p = ctx.p; this.memo = new Map(); this.reqMemo = new Map(); this.testMemo = new Map();
    const st = ctx.need(this.p.findClass("StorageOperations")[0], "class StorageOperations");
    this.kindFile = st.getSourceFile();
  }
  /** is this property access the account kind of the signed-in account? */
  isKind(node) {
    if (node && ts.isIdentifier(node) && ts.isBindingElement(node.parent)) node = node.parent;
    if (node && ts.isBindingElement(node)) {
      const name = node.propertyName ?? node.name; if (!name.text || name.text !== "isBot") return false;
      const d = this.p.checker.getTypeAtLocation(node.parent).getProperty("isBot")?.declarations?.[0];
      return !!d && d.getSourceFile() === this.kindFile;
    }
    if (!node || !ts.isPropertyAccessExpression(node) || node.name.text !== "isBot") return false;
    const d = this.p.symbolOf(node)?.declarations?.[0];
    return !!d && d.getSourceFile() === this.kindFile;
  }
  isRequest(name) { return /^client\/[^#]*#(\w+\.)?(invoke|invokeInner|send|sendRequest)$/.test(name ?? "") && !/Context\.|Composer/.test(name); }
  mayRequest(fn, depth = 0) {
    if (this.reqMemo.has(fn)) return this.reqMemo.get(fn);
    this.reqMemo.set(fn, false);
    let r = false;
    for (const c of callees(this.p, fn)) { if (this.isRequest(c.name)) { r = true; break; } if (c.fn && !/^tl\//.test(c.name ?? "") && this.mayRequest(c.fn, depth + 1)) { r = true; break; } }
    this.reqMemo.set(fn, r); return r;
  }
  /** does fn, or something it calls, test the account kind? */
  mayTest(fn) {
    if (this.testMemo.has(fn)) return this.testMemo.get(fn);
    this.testMemo.set(fn, false);
    let r = false;
    this.p.walk(fn, (n) => { if (!r && this.isKind(n)) r = true; if (r) return false; });
    if (!r) for (const c of callees(this.p, fn)) if (c.fn && !/^(tl|types|utilities)\//.test(c.name ?? "") && !this.isRequest(c.name) && this.mayTest(c.fn)) { r = true; break; }
    this.testMemo.set(fn, r); return r;
  }
  /** {refuses, request?, completes?, wrongError?} of a function for an account kind; refuses: no path completes or reaches a request */
  summary(fn, kind) {
    const key = kind; let m = this.memo.get(fn); if (!m) this.memo.set(fn, m = new Map());
    if (m.has(key)) return m.get(key);
    const p = this.p, label = fnLabel(p, fn);
    const req = this.mayRequest(fn);
    if (!this.mayTest(fn)) { const s = { refuses: false, request: req ? { at: p.loc(fn), what: label } : undefined, completes: { at: p.loc(fn) } }; m.set(key, s); return s; }
    m.set(key, { refuses: false, completes: { at: p.loc(fn) }, request: req ? { at: p.loc(fn), what: label } : undefined, partial: true });
    const u = lower(p, fn, { inline: (n, f, fr) => n && f !== fn && !this.isRequest(n) && (/#StorageOperations\./.test(n) || undefined), never: (n, f) => !n || f === fn || this.isRequest(n) || /^(tl|types|utilities|deps|0_deps)/.test(n) || (f && f.getSourceFile() !== this.kindFile && f.getSourceFile() !== fn.getSourceFile()) });
    const terms = new Terms(); const kinds = new Set();
    for (const b of u.blocks) for (const v of b.insts) if (v.op === "GetProp" && v.ast && this.isKind(v.ast)) kinds.add(terms.of(v).key);
    for (const b of u.blocks) for (const v of b.insts) if (v.op === "Call" && v.ast && this.isKind(v.ast)) kinds.add(terms.of(v).key);
    const res = { refuses: true };
    const truthOf = (t) => { let tr = true; while (t.h === "not") { t = t.a[0]; tr = !tr; } if (t.h === "bin" && t.n === "===" && kinds.has(t.a[0].key) && t.a[1].h === "const" && typeof t.a[1].n === "boolean") return ((kind === "bot") === t.a[1].n) === tr; return kinds.has(t.key) ? (kind === "bot") === tr : undefined; };
    const note = (what, v, cx, extra) => { if (!res[what]) res[what] = { at: v?.ast ? p.loc(v.ast) : p.loc(fn), path: describePath(p, cx.path()), ...extra }; res.refuses = false; };
    simulate(u, {
      init: { k: 0 },
      edge: (s, c, truth) => { const w = truthOf(c); if (w === undefined) return s; if (w !== truth) return null; return { k: 1 }; },
      inst: (s, v, cx) => {
        if (v.op !== "Call" || v.inlined) return s;
        if (this.isRequest(v.name)) { note("request", v, cx, { what: v.name }); return s; }
        const f = v.targetFn; if (!f || /^(tl|types|utilities|deps)/.test(v.name ?? "")) return s;
        if (!this.mayTest(f) && !this.mayRequest(f)) return s;
        const q = this.summary(f, kind);
        if (q.refuses) { res.wrongError ??= q.wrongError; res.refusedAt ??= q.refusedAt ?? (v.ast && p.loc(v.ast)); return null; }
        if (q.request) note("request", v, cx, { what: q.request.what ?? v.name });
        return s;
      },
      onRaise: (s, t, cx) => {
        if (s.k) { res.refusedAt ??= t.ast && p.loc(t.ast); const v = resolve(t.value); if (v.op === "New" && /(^|#)InputError$/.test(v.cls ?? v.name ?? "")) res.rightError = true; else res.wrongError ??= { at: t.ast ? p.loc(t.ast) : p.loc(fn), what: cx.term(t.value).key }; }
        return s;
      },
      exit: (s, k, cx) => { if (k === "return") note("completes", null, cx); },
    }, { terms });
    if (process.env.V26) console.log(label, kind, JSON.stringify(res).slice(0, 300));
    if (res.rightError) delete res.wrongError;
    m.set(key, res); return res;
  }
}
