"use strict";
const { ts } = require("../lib/project.js");
const { resolve, DEEP } = require("../lib/ir.js");
const { simulate, describePath } = require("../lib/sim.js");
const { Terms } = require("../lib/terms.js");
const { allFunctions, fnLabel, lower, enclosing, callees } = require("../lib/util.js");
const strip = (e) => { while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isSatisfiesExpression(e) || ts.isNonNullExpression(e))) e = e.expression; return e; };
/** the message a class name spells: FloodWait -> FLOOD_WAIT, FilePart_0Missing -> FILE_PART_0_MISSING */
const pascal = (k) => k.toLowerCase().replace(/(^|_)([a-z0-9])/g, (_, u, c) => c.toUpperCase());
const norm = (n) => n.replace(/_/g, "").toLowerCase();

module.exports = {
  technique: "table query over the syntax tree plus typestate dataflow over the error construction",
  explanation: "The error table and the prefix table are read from the source and compared with the exported error classes: every key spells the name of its class, every leaf class appears exactly once, prefixes do not shadow each other or exact messages. The function that constructs errors is lowered to a control-flow graph; on every path the class must be the one the matched table entry holds, the base class only after both tables failed, and the parameters must be the server's error together with the failed call. The constructors must store code, message and call and take the parameter from the last segment of the message; callers must pass the request the error answers.",
  rules: ["key spells class name", "class is reachable", "prefixes disjoint", "class chosen by the matching entry", "base class only as a fallback", "parameters complete", "constructor stores the details", "caller passes the failed call", "the failed request itself receives the error"],
  assumptions: ["server messages are not names of Object.prototype members"],
  run(ctx) {
    const p = ctx.p;
    const base = ctx.need(p.findClass("TelegramError")[0], "class TelegramError");
    const params = new Set();
    // class hierarchy
    const classes = new Map(); // symbol -> decl
    for (const sf of p.sourceFiles) ts.forEachChild(sf, (n) => { if (ts.isClassDeclaration(n) && n.name && derives(p, n, base)) classes.set(p.symbolOf(n.name), n); });
    const parents = new Set(); for (const d of classes.values()) { const s = superOf(p, d); if (s) parents.add(s); }
    // tables: const objects (or arrays of pairs) from strings to these classes
    const tables = [];
    for (const sf of p.sourceFiles) for (const st of sf.statements) if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) { const t = table(p, d, classes, base); if (t.length >= 3) tables.push({ decl: d, entries: t, prefix: t.every((e) => /_$/.test(e.key)) }); }
    const exact = tables.filter((t) => !t.prefix), pre = tables.filter((t) => t.prefix);
    ctx.need(exact.length && pre.length, "the error table and the prefix table");
    const where = new Map();
    for (const t of tables) for (const e of t.entries) {
      const name = e.cls.name;
      const want = e.key.replace(/_$/, "");
      ctx.ob("key spells class name", norm(pascal(want)) === norm(name), { key: e.key, at: p.loc(e.node), message: `${e.key} is mapped to ${name}, not to the class whose name it spells` });
      (where.get(e.cls) ?? where.set(e.cls, []).get(e.cls)).push(e);
    }
    for (const t of exact) { const seen = new Set(); for (const e of t.entries) { ctx.ob("key unique", !seen.has(e.key), { key: e.key, at: p.loc(e.node), message: `duplicate key ${e.key}` }); seen.add(e.key); } }
    for (const [sym, d] of classes) {
      if (d === base || parents.has(sym)) continue;
      const n = (where.get(sym) ?? []).length;
      ctx.ob("class is reachable", n >= 1, { key: sym.name, at: p.loc(d), message: `${sym.name} is exported but no server message leads to it` });
    }
    const prefixes = pre.flatMap((t) => t.entries), exacts = exact.flatMap((t) => t.entries);
    for (const e of prefixes) {
      const o = [...prefixes.filter((x) => x !== e), ...exacts].find((x) => x.key.startsWith(e.key));
      ctx.ob("prefixes disjoint", !o, { key: e.key, at: p.loc(e.node), message: `prefix ${e.key} shadows ${o?.key}` });
      params.add(classes.get(e.cls));
    }
    // parametrised classes take the last segment of the message
    const withCtor = new Set([base]);
    for (const d of params) { let c = d; while (c && c !== base && !ctorDecl(c)) c = classes.get(superOf(p, c)); if (c && c !== base) withCtor.add(c); else ctx.violate({ rule: "constructor stores the details", key: d.name.text, at: p.loc(d), message: `${d.name.text} is chosen by a parametrised prefix but stores no parameter` }); }
    for (const d of classes.values()) if (ctorDecl(d)) withCtor.add(d);
    for (const d of withCtor) constructorCheck(ctx, d, base, params);
    // construction
    const tabSyms = new Map(tables.map((t) => [p.symbolOf(t.decl.name), t]));
    const makers = allFunctions(p).filter((f) => { let hit = new Set(); p.walk(f, (n) => { if (ts.isIdentifier(n)) { const s = p.symbolOf(n); if (tabSyms.has(s)) hit.add(tabSyms.get(s).prefix); } }); return hit.size && !ts.isArrowFunction(f); });
    const outer = makers.filter((f) => lower0(p, f).some((v) => v.op === "New" && (v.ctorValue || p.symbolOf(v.ast.expression) === p.symbolOf(base.name))) && f.parameters.length >= 2);
    ctx.need(outer.length, "the function that constructs server errors");
    for (const f of outer) construct(ctx, f, tabSyms, base);
    callers(ctx, new Set(outer), base);
    ctx.floor("key spells class name", 500); ctx.floor("class is reachable", 500); ctx.floor("prefixes disjoint", 5); ctx.floor("constructor stores the details", 5);
    ctx.floor("class chosen by the matching entry", 2); ctx.floor("base class only as a fallback", 1); ctx.floor("caller passes the failed call", 2); ctx.floor("failed request receives the error", 1);
  },
};
function superOf(p, d) { const h = d.heritageClauses?.find((x) => x.token === ts.SyntaxKind.ExtendsKeyword); return h && p.symbolOf(h.types[0].expression); }
function derives(p, d, base) { let c = d, n = 0; while (c && n++ < 8) { if (c === base) return true; const s = superOf(p, c); c = s?.valueDeclaration && ts.isClassDeclaration(s.valueDeclaration) ? s.valueDeclaration : undefined; } return false; }
function ctorDecl(d) { return d.members.find((m) => ts.isConstructorDeclaration(m) && m.body); }
function table(p, d, classes, base) {
  let e = strip(d.initializer); const out = [];
  if (e && ts.isNewExpression(e) && /^(Map)$/.test(e.expression.getText())) e = strip(e.arguments?.[0]);
  if (e && ts.isCallExpression(e) && /^Object\.(freeze|entries|fromEntries)$/.test(e.expression.getText())) e = strip(e.arguments[0]);
  const add = (key, x, node) => { const s = x && p.symbolOf(x); if (typeof key === "string" && s && classes.has(s)) out.push({ key, cls: s, node }); };
  if (e && ts.isObjectLiteralExpression(e)) for (const q of e.properties) { if (ts.isPropertyAssignment(q)) add(q.name.text ?? (ts.isComputedPropertyName(q.name) ? p.constOf(q.name.expression) : undefined), strip(q.initializer), q); }
  if (e && ts.isArrayLiteralExpression(e)) for (const q of e.elements) if (ts.isArrayLiteralExpression(q) && q.elements.length === 2) add(p.constOf(q.elements[0]), strip(q.elements[1]), q);
  return out;
}
function lower0(p, f) { return lower(p, f, DEEP).blocks.flatMap((b) => b.insts); }
function ancestors(v, out = new Set()) { v = resolve(v); if (out.has(v)) return out; out.add(v); for (const a of [...(v.args ?? []), v.recv, ...(v.callArgs ?? []), v.ctorValue].filter(Boolean)) ancestors(a, out); return out; }

function construct(ctx, f, tabSyms, base) {
  const p = ctx.p, label = fnLabel(p, f);
  const u = lower(p, f, DEEP), terms = new Terms();
  const tabOf = (v) => { for (const a of ancestors(v)) if (a.op === "Global") { for (const [s, t] of tabSyms) if (p.declName(t.decl) === a.name) return t; } return null; };
  const msg = (t) => /^\$0\.error_message$/.test(t.key.replace(/\$0[^.]*/, "$0"));
  const kinds = new Set();
  // the collection searched is the whole table
  const whole = (v) => [...ancestors(v)].every((a) => a.op === "Global" || a.op === "Call" && /^(entries|keys|from|\[Symbol.iterator\])$/.test(a.method ?? ""));
  simulate(u, {
    init: { pre: "", ex: "", done: false },
    edge(s, c, truth, term, cx) {
      let t = c, tr = truth; while (t.h === "not") { t = t.a[0]; tr = !tr; }
      const v = resolve(term.cond); const base0 = v.op === "Un" && v.operator === "!" ? resolve(v.args[0]) : v;
      if (base0.op === "IterHas") { const tb = tabOf(base0.args[0]); if (tb?.prefix && whole(base0.args[0])) return { ...s, done: !truth, pre: truth ? s.pre : s.pre === "yes" ? s.pre : "no" }; }
      const anc = [...ancestors(base0)];
      const sw = anc.find((a) => a.op === "Call" && a.method === "startsWith");
      const fnd = anc.find((a) => a.op === "Call" && a.method === "find" || a.op === "Phi" && false);
      const tb = tabOf(base0);
      if (sw && sw.recv && msg(cx.term(sw.recv)) && tabOf(sw.callArgs[0])?.prefix) return { ...s, pre: tr ? "yes" : s.pre };
      // indexOf(k) === 0, slice(0, k.length) === k
      if (t.h === "bin" && t.n === "===" && tb?.prefix && t.a[1].h === "const" && t.a[1].n === 0 && anc.some((a) => a.op === "Call" && a.method === "indexOf" && msg(cx.term(a.recv)))) return { ...s, pre: tr ? "yes" : s.pre };
      if (t.h === "bin" && t.n === "===" && tb?.prefix) { const [a, b] = t.a; for (const [x, y] of [[a, b], [b, a]]) if (new RegExp("(slice|substring)\\(\\$0[^,]*error_message,0," + esc(y.key + ".length")).test(x.key)) return { ...s, pre: tr ? "yes" : s.pre }; }
      if (fnd && tb?.prefix && searches(p, fnd) && whole(fnd.recv)) return { ...s, pre: tr ? "yes" : "no", done: !tr };
      if (tb && !tb.prefix && anc.some((a) => msg(cx.term(a)))) { const pos = !(t.h === "bin" && t.n === "===" && t.a[1].h === "const" && t.a[1].n === undefined) && t.h !== "isnull"; return { ...s, ex: (tr === pos) ? "yes" : "no" }; }
      // the element itself tested after a search loop
      if (tb?.prefix && base0.op !== "IterHas" && !sw && !fnd && (base0.op === "Phi" || t.h === "isnull" || t.h === "bin" && t.n === "===" && t.a[1].h === "const" && t.a[1].n == null)) return { ...s, pre: tr ? "yes" : "no", done: !tr };
      return s;
    },
    inst(s, v, cx) {
      if (v.op !== "New") return s;
      const path = describePath(p, cx.path());
      const tb = v.ctorValue && tabOf(v.ctorValue);
      const isBase = !v.ctorValue && p.symbolOf(v.ast.expression) === p.symbolOf(base.name);
      if (!tb && !isBase) return s;
      const a = cx.term(v.args[0]);
      const get = (k) => { for (const q of [...(a.props ?? [])].reverse()) { if (q.key === k) return q.t?.key; if (q.spread) { if (/^\$0/.test(q.t.key) && k !== "call") return q.t.key + "." + k; } } };
      const okArgs = /^\$0[^.]*\.error_code$/.test(get("error_code") ?? "") && /^\$0[^.]*\.error_message$/.test(get("error_message") ?? "") && /^\$1[^.]*$/.test(get("call") ?? "");
      ctx.ob("parameters complete", okArgs, { key: label + "|" + (tb ? tb.prefix ? "prefix" : "exact" : "base"), at: p.loc(v.ast), message: `${label}: the error constructed here must carry the server's code and message and the failed call (found code=${get("error_code")}, message=${get("error_message")}, call=${get("call")})`, path });
      if (tb?.prefix) {
        kinds.add("prefix");
        const ct = cx.term(v.ctorValue).key;
        ctx.ob("class chosen by the matching entry", s.pre === "yes", { key: label + "|prefix", at: p.loc(v.ast), message: `${label}: a parametrised class is used although its prefix was not found at the start of the message`, path });
        void ct;
      } else if (tb) {
        kinds.add("exact");
        const idx = [...ancestors(v.ctorValue)].some((x) => msg(cx.term(x)));
        ctx.ob("class chosen by the matching entry", s.ex === "yes" && idx, { key: label + "|exact", at: p.loc(v.ast), message: `${label}: the class is looked up although the message was not found in the table, or under another key`, path });
      } else {
        kinds.add("base");
        ctx.ob("base class only as a fallback", s.ex === "no" && s.done && s.pre !== "yes", { key: label, at: p.loc(v.ast), message: `${label}: the base class is used on a path where ${s.pre === "yes" || !s.done ? "not every prefix was ruled out" : "the table was not found to lack the message"}`, path });
      }
      return s;
    },
  }, { terms });
  for (const k of ["prefix", "exact", "base"]) if (!kinds.has(k)) ctx.violate({ rule: "class chosen by the matching entry", key: label + "|missing " + k, at: p.loc(f), message: `${label}: no path constructs an error ${k === "prefix" ? "by prefix" : k === "exact" ? "by exact message" : "of the base class"}` });
}
function constructorCheck(ctx, d, base, params) {
  const p = ctx.p, c = ctorDecl(d), name = d.name.text;
  if (!c) { ctx.violate({ rule: "constructor stores the details", key: name, at: p.loc(d), message: `${name} has no constructor` }); return; }
  const u = lower(p, c, DEEP), terms = new Terms();
  const stores = new Map();
  simulate(u, { init: {}, inst(s, v, cx) {
    if (v.op === "SetProp" && cx.term(v.args[0]).h === "this") return { ...s, [v.name]: cx.term(v.args[1]).key };
    if (v.op === "Call" && v.ast && v.ast.expression?.kind === ts.SyntaxKind.SuperKeyword) return { ...s, super: v.callArgs?.length || v.args?.length ? cx.term((v.callArgs ?? v.args)[0]).key : "" };
    return s;
  }, exit(s, kind) { if (kind === "return") for (const k of ["errorCode", "errorMessage", "cause", "super", ...Object.keys(s)]) (stores.get(k) ?? stores.set(k, new Set()).get(k)).add(s[k]); } }, { terms });
  const all = (k, f) => { const s = stores.get(k); return !!s && [...s].every((x) => x !== undefined && f(x)); };
  if (d === base) {
    for (const [field, param] of [["errorCode", "error_code"], ["errorMessage", "error_message"], ["cause", "call"]]) ctx.ob("constructor stores the details", all(field, (x) => new RegExp(`^\\$0[^.]*\\.${param}$`).test(x)), { key: name + "." + field, at: p.loc(c), message: `${name}: ${field} must be the given ${param} (found ${[...(stores.get(field) ?? [])].join(" / ")})` });
    return;
  }
  ctx.ob("constructor stores the details", all("super", (x) => /^\$0[^.]*$/.test(x)), { key: name + ".super", at: p.loc(c), message: `${name} must pass its parameters on to its base class` });
  const own = d.members.filter((m) => ts.isPropertyDeclaration(m) && !m.initializer).map((m) => m.name.text);
  for (const fld of own) ctx.ob("constructor stores the details", all(fld, (x) => paramTerm(x)), { key: name + "." + fld, at: p.loc(c), message: `${name}: ${fld} must be the number in the last segment of the message (found ${[...(stores.get(fld) ?? [])].join(" / ").slice(0, 160)})` });
}
/** number of the last "_" segment: parseInt/Number of s.split("_") at the end, by index, at(-1) or pop(), or of what follows the last "_" */
function paramTerm(x) {
  const M = "\\$0[^.,()]*\\.error_message";
  const num = /^(?:call:)?(?:lib#)?(?:parseInt|Number|NumberConstructor\.parseInt|Number\.parseInt)/;
  const k = x.replace(/%\d+;/g, "").replace(/\s/g, "");
  const inner = k;
  if (!/parseInt|[Nn]umber\b|NumberConstructor/.test(inner)) { if (!/^\(?\+/.test(inner) && !/^un:\+/.test(inner)) return false; }
  if (!new RegExp(M).test(inner)) return false;
  void num;
  if (/split\(/.test(inner)) {
    if (!/"_"/.test(inner)) return false;
    return /\.length-1\)?\]|length-1|-1\+[^,]*length|\.at\([^)]*,-1\)|,-1\)|pop\(/.test(inner) || /\+[^,\]]*\.length-1/.test(inner);
  }
  if (/lastIndexOf\(/.test(inner)) return /slice|substring/.test(inner) && /\+1|1\+/.test(inner);
  return false;
}
function callers(ctx, makers, base) {
  const p = ctx.p;
  for (const fn of allFunctions(p)) {
    for (const c of callees(p, fn)) {
      if (c.within !== fn || !makers.has(c.fn) || makers.has(fn)) continue;
      const label = fnLabel(p, fn);
      const args = c.call.arguments;
      const t0 = args[0], t1 = args[1];
      // the call argument: property "call" of something (a request, serialised arguments)
      const u = lower(p, fn, {}), terms = new Terms(); let done = false;
      let passed = false, settled = 0;
      simulate(u, { init: 0, inst(s, v, cx) {
        if (v.op === "Call" && v.ast === c.call) { done = true; const k = v.callArgs[1] ? cx.term(v.callArgs[1]).key : ""; if (/\.call$/.test(k)) passed = true; else passed = passed && false;
          const e = cx.term(v.callArgs[0]);
          const same = e.h === "param" || e.h === "obj" && ["error_code", "error_message"].every((n) => e.props.some((q) => q.key === n && q.t.key.endsWith("." + n)));
          ctx.ob("caller passes the failed call", passed && same, { key: label, at: p.loc(c.call), message: `${label}: the error must be constructed from the answer and the call it answers (found ${e.key.slice(0, 60)}, ${k.slice(0, 60)})` });
        }
        return s;
      } }, { terms });
      if (!done) ctx.ob("caller passes the failed call", !!t0 && !!t1, { key: label, at: p.loc(c.call), message: `${label}: the failed call is missing` });
      void settled;
    }
  }
  // the handler of an error answer: the error goes to the request of that identifier, or the request is sent again
  for (const fn of allFunctions(p)) {
    if (!callees(p, fn).some((c) => c.within === fn && makers.has(c.fn))) continue;
    if (!fn.parameters.length || !/2_client|client_encrypted/.test(p.rel(fn.getSourceFile()))) continue;
    const label = fnLabel(p, fn);
    const u = lower(p, fn, { inline: (n, f) => makesOrRejects(p, f), never: (n, f) => makers.has(f) }), terms = new Terms();
    simulate(u, {
      init: { req: "", done: "", made: "" },
      inst(s, v, cx) {
        if (v.op === "Call" && v.method === "get" && v.callArgs.length === 1 && /^\$0/.test(cx.term(v.callArgs[0]).key)) return { ...s, req: cx.term(v).key };
        if (v.op === "Call" && makers.has(v.targetFn)) return { ...s, made: cx.term(v).key, call: cx.term(v.callArgs[1]).key };
        if (v.op === "Call" && v.method === "reject" && s.req && cx.term(v.recv).key.startsWith(s.req + ".")) return { ...s, done: cx.term(v.callArgs[0]).key === s.made && s.call === s.req + ".call" ? "rejected" : "wrong" };
        if (v.op === "Call" && !v.inlined && s.req && v.callArgs?.some((a) => cx.term(a).key === s.req)) return { ...s, done: "resent" };
        return s;
      },
      exit(s, kind, cx) {
        if (kind !== "return" || !s.made) return;
        ctx.ob("failed request receives the error", s.done === "rejected" || s.done === "resent", { key: label, at: p.loc(fn), message: `${label}: ${s.done === "wrong" ? "the request is rejected with something else than the error made for it" : "the error is made but the request neither receives it nor is sent again"}`, path: describePath(p, cx.path()) });
      },
    }, { terms });
  }
}

/** small helpers without suspension are looked through, other methods are not */
function makesOrRejects(p, f) { let y = true; p.walk(f, (n) => { if (ts.isAwaitExpression(n)) y = false; }); return y && f.getText().length < 600; }

const esc = (x) => x.replace(/[.*+?^${}()|[\]\\]/g, "\\$&");
function searches(p, fnd) {
  const c = fnd.callArgs.map(resolve).find((a) => a.op === "Closure"); if (!c) return false;
  let y = false; p.walk(c.fn, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "startsWith" && !/^[a-z]$/.test(n.expression.expression.getText()) && n.arguments.length === 1) y = true; });
  return y;
}
