"use strict";
// P29: handlers run in registration order, at most once, and are awaited.
const { ts } = require("../lib/project.js");
const { track, describePath, resolve } = require("../lib/facts.js");
const { enclosing } = require("../lib/util.js");

const R = {
  one: "every step of a chain runs exactly one handler, and a step that was taken is not taken again",
  order: "handlers registered earlier run first, and the rest runs only when called on",
  args: "a handler gets the context and the continuation of its own update",
  awaited: "what a step runs is waited for, and its failure is passed on",
  filter: "a filtered handler runs exactly when its filter accepts, and the chain goes on behind it otherwise",
  pure: "a filter decides by the update alone",
  late: "handlers of an added composer are looked up when an update arrives",
  register: "what is registered is added behind what is there, once",
  deliver: "the context of an update is made of that update, and its handlers are waited for before the next",
};
module.exports = {
  technique: "typestate over SSA form, interprocedural by inlining of helpers, with value-flow terms",
  explanation: "Handlers and continuations are recognised by their declared function types. In the functions that compose them every closure that takes a context and a continuation, and every closure handed to a handler as its continuation, is one step: on every path it calls exactly one handler, with the context and the continuation of its own activation, and completes only after waiting for it, without catching its failure. A continuation may be called again: there a call must be guarded by a variable of the activation that is found unset and is set before anything is waited for. The first operand of a composition runs in the step and the second only in its continuation; every registration composes what is there with what is new, in this order. A conditional step waits for the predicate, runs the second operand exactly when it held and the third otherwise; a filter passes its predicate, what is registered with it and the step that only calls on. Predicates keep no state. Delivery builds the context from the update and the client it was given, and every delivery is waited for.",
  rules: Object.values(R),
  assumptions: ["a handler that calls on without waiting is not waited for by those before it"],
  run(ctx) {
    const p = ctx.p; const cls = [...p.findClass("Composer")].find((c) => p.isRepo(c.getSourceFile())); ctx.need(cls, "the class that registers handlers"); if (!cls) return; const file = cls.getSourceFile();
    const alias = (n) => { let t; try { t = p.checker.getTypeAtLocation(n); } catch { return ""; } return t.aliasSymbol?.name ?? ""; };
    const isHandler = (n) => /^(MiddlewareFn|NextFunction)$/.test(alias(n)), isStep = (n) => alias(n) === "MiddlewareFn", isNext = (n) => alias(n) === "NextFunction";
    const lab = (n) => { let g = n; while (g && !g.name) g = enclosing(g) ?? g.parent; return p.rel(file) + "#" + (g?.name?.getText?.() ?? ""); };
    const mk = (n) => (rule, ok, key, at, cx, msg) => ctx.ob(rule, !!ok, { key: lab(n) + "|" + key, at: p.loc(at), message: `${lab(n)} ${msg}`, path: ok || !cx ? undefined : describePath(p, cx.path()) });
    // roles
    let chain = null, flat = null, skip = null; const ret = (f) => { const s = p.checker.getSignatureFromDeclaration(f); return s ? p.checker.getReturnTypeOfSignature(s).aliasSymbol?.name : ""; };
    for (const s of file.statements) if (ts.isFunctionDeclaration(s) && s.body) { const st = s.parameters.filter(isStep); if (st.length === 2 && ret(s) === "MiddlewareFn") chain = s; else if (s.parameters.length === 1 && ret(s) === "MiddlewareFn") flat = s; else if (s.parameters.length === 2 && isNext(s.parameters[1])) { let own = 0; p.walk(s.body, (n) => { if (ts.isCallExpression(n) && isHandler(n.expression) && !(ts.isIdentifier(n.expression) && p.symbolOf(n.expression) === p.symbolOf(s.parameters[1].name))) own++; }); if (!own) skip = s; } }
    ctx.need(chain && flat && skip, "the functions that compose handlers"); if (!chain || !flat || !skip) return;
    const methods = new Map(); for (const m of cls.members) if (m.body && m.name) methods.set(m.name.getText(), m);
    // the steps
    const closures = []; p.walk(file, (n) => { if ((ts.isArrowFunction(n) || ts.isFunctionExpression(n) || ts.isFunctionDeclaration(n)) && n.body) closures.push(n); });
    const aliasOfCtx = (n) => { const t = p.checker.getContextualType(n); return t?.aliasSymbol?.name ?? ""; };
    const isActivation = (n) => n === skip || (ts.isArrowFunction(n) || ts.isFunctionExpression(n)) && n.parameters.length === 2 && (isNext(n.parameters[1]) || aliasOfCtx(n) === "MiddlewareFn");
    const nextOf = (n) => (ts.isArrowFunction(n) || ts.isFunctionExpression(n)) && ts.isCallExpression(n.parent) && n.parent.arguments[1] === n && isHandler(n.parent.expression) || declaredNext(n);
    const declaredNext = (n) => (ts.isArrowFunction(n) || ts.isFunctionExpression(n)) && ts.isVariableDeclaration(n.parent) && (() => { let used = false; const sym = p.symbolOf(n.parent.name); p.walk(enclosing(n.parent)?.body ?? file, (q) => { if (ts.isCallExpression(q) && isHandler(q.expression) && q.arguments[1] && ts.isIdentifier(q.arguments[1]) && p.symbolOf(q.arguments[1]) === sym) used = true; }); return used; })();
    const pub = [...methods.values()].filter((m) => !ts.isPrivateIdentifier(m.name) && !(ts.getCombinedModifierFlags(m) & ts.ModifierFlags.Private)); const isPub = (fn) => pub.includes(fn);
    const policy = { inline: (name, fn) => fn.getSourceFile?.() === file && fn !== chain && fn !== flat && fn !== skip && !isPub(fn) && !isActivation(fn), never: (name, fn) => fn === chain || fn === flat || fn === skip || isPub(fn) };
    /** the parameter of the composing function an operand comes from */
    const operand = (e, owner) => { e = ts.isIdentifier(e) ? e : null; for (let i = 0; e && i < 4; i++) { const d = p.symbolOf(e)?.valueDeclaration; if (!d) return -1; if (ts.isParameter(d)) { const at = owner.parameters.indexOf(d); return at; } if (!ts.isVariableDeclaration(d) || !d.initializer) return -1; let q = d.initializer; if (ts.isCallExpression(q) && p.resolveCallee(q)?.fn === flat) q = q.arguments[0]; e = ts.isIdentifier(q) ? q : null; } return -1; };
    let steps = 0;
    const step = (g, kind, owner, act) => {
      const ob = mk(g); steps++; const inNext = kind === "next"; const names = act.parameters.map((q) => q.name.getText());
      const branchy = owner && owner.parameters.length >= 3 ? owner : null; const opnd = (v, T, o) => { const k = v.fnValue ? T(v.fnValue).key : ""; const m = /^@(\w+)$/.exec(k); if (!m) return operand(v.ast.expression, o); const i = o.parameters.findIndex((q) => q.name.getText() === m[1]); if (i >= 0) return i; let at = -1; p.walk(o.body, (n) => { if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name) && n.name.text === m[1] && enclosing(n) === o) at = operand(n.name, o); }); return at; };
      const calls = (v) => v.op === "Call" && v.ast && ts.isCallExpression(v.ast) && isHandler(v.ast.expression);
      const argIs = (t, i) => act === g ? t.key === "$" + i : t.key === "@" + names[i];
      track(ctx, g, { policy, keep: (k) => !/%\d+;.*%\d+;/.test(k), init: { n: 0, open: [], dead: 0, pend: [] }, atThrow: true,
        inst(s, v, cx, T, H) {
          const x = s.x, put = (n) => ({ ...s, x: { ...x, ...n } });
          if (calls(v)) {
            const callee = v.ast.expression; const a = v.callArgs;
            const next = isNext(callee); ob(R.one, x.n === 0, "twice", v.ast, cx, "runs more than one handler in one step");
            if (!next) {
              const c = T(a[0] ?? v), n = a[1] && T(a[1]); ob(R.args, argIs(c, 0) || kind === "deliver" && /^new:Context\(/.test(c.key), "context", v.ast, cx, "gives a handler another context than that of its update");
              const cl = a[1] && resolve(a[1]); const clos = n && n.h === "closure" && (kind === "deliver" || cl.op === "Closure" && cl.ast && reachesHandler(cl.ast)); ob(R.args, clos || n && argIs(n, 1) || n && declaredClosure(v.ast.arguments[1]), "continuation", v.ast, cx, "gives a handler another continuation than its own");
            } else ob(R.args, kind === "deliver" || ts.isIdentifier(callee) && p.symbolOf(callee)?.valueDeclaration === act.parameters[1], "own next", v.ast, cx, "calls on in another chain than its own");
            if (owner === chain) { const i = opnd(v, T, chain); ob(R.order, i === (inNext ? 1 : 0), "operand", v.ast, cx, inNext ? "does not go on with the handlers registered later" : "does not begin with the handlers registered earlier"); }
            if (owner && branchy && kind === "step" && branchy !== chain) {
              const i = opnd(v, T, branchy); const yes = H.all.some((k) => /^\+call:/.test(k) && k.includes("$0")), no = H.all.some((k) => /^-call:/.test(k) && k.includes("$0")); ob(R.filter, i === 1 && yes || i === 2 && no, "side", v.ast, cx, "runs a filtered handler although its filter did not accept, or the other way round");
            }
            let guard = null;
            if (inNext) {
              const free = H.all.map((k) => /^-@(\w+)$/.exec(k) ?? /^\+isnull\(@(\w+)\)$/.exec(k) ?? /^\+\(@(\w+)===(?:false|0|"?\w*"?)\)$/.exec(k)).filter(Boolean).map((m) => m[1]); const d = free.map((nm) => declIn(act, nm)).filter(Boolean); const set = x.set && d.includes(x.set); ob(R.one, d.length > 0, "again", v.ast, cx, "runs the rest of the chain again when it is called on again"); guard = set || !d.length ? null : "wait";
            }
            return put({ n: Math.min(x.n + 1, 2), open: [...x.open, v.id], unset: guard });
          }
          if (v.op === "Call" && branchy && kind === "step" && v.ast && ts.isCallExpression(v.ast) && operand(v.ast.expression, branchy) === 0) { ob(R.args, T(v.callArgs[0] ?? v).key === "$0", "filter", v.ast, cx, "asks a filter about another context"); return put({ pend: [...x.pend, T(v).key] }); }
          if (v.op === "SetGlobal" || v.op === "Store") { const nm = String(v.name ?? "").split("#").pop(); const val = T(v.args[0]); const t = val.h === "const" ? !!val.n : true; if (inNext && v.op === "SetGlobal") return put({ held: { ...(x.held ?? {}), [nm]: holds(v.args[0]).filter((q) => x.open.includes(q)) }, set: t ? nm : null, unset: t ? null : x.unset }); return; }
          if (v.op === "Await" && !v.inlined) {
            if (inNext) ob(R.one, x.unset !== "wait", "late guard", v.ast, cx, "notes that it was called on only after waiting"); const key = T(v.args[0]).key; const ids = holds(v.args[0]); const gl = resolve(v.args[0]); if (gl.op === "Global" && x.held?.[String(gl.name).split("#").pop()]) ids.push(...x.held[String(gl.name).split("#").pop()]);
            return put({ open: x.open.filter((q) => !ids.includes(q)), pend: x.pend.filter((q) => q !== key) });
          }
          if (v.op === "Return" && v.args[0]) { const ids = holds(v.args[0]); if (x.open.some((q) => ids.includes(q))) return put({ open: x.open.filter((q) => !ids.includes(q)), ret: 1 }); }
          return undefined;
        },
        edge(s, t, truth, cx) { let k = t; while (k.h === "not") k = k.a[0]; if (s.x.pend.includes(k.key)) ob(R.filter, false, "unresolved", g, cx, "decides before its filter has"); return undefined; },
        onThrow(s, v) { return s.x.n && !s.x.dead && (calls(v) || v.op === "Await") ? { ...s, x: { ...s.x, dead: 1, open: [] } } : undefined; },
        exit(s, how, cx, T, H) {
          if (how !== "return") return; const x = s.x; ob(R.awaited, !x.open.length, "dropped", g, cx, "completes before the handler it runs"); ob(R.awaited, !x.dead, "swallowed", g, cx, "keeps the failure of a handler to itself");
          if (x.dead) return; const again = inNext && H.all.some((k) => { const m = /^\+@(\w+)$/.exec(k) ?? /^-isnull\(@(\w+)\)$/.exec(k) ?? /^-\(@(\w+)===/.exec(k); return m && declIn(act, m[1]); }); ob(R.one, x.n === 1 || again && x.n === 0, "none", g, cx, "runs no handler"); if (inNext) ob(R.one, x.unset !== "wait", "unguarded", g, cx, "does not note that it was called on");
        } });
    };
    const declIn = (act, nm) => { let d = null; p.walk(act.body, (n) => { if (ts.isVariableDeclaration(n) && n.name.getText() === nm && enclosing(n) === act) d = nm; }); return d; };
    const declaredClosure = (e) => e && ts.isIdentifier(e) && (() => { const d = p.symbolOf(e)?.valueDeclaration; return d && ts.isVariableDeclaration(d) && d.initializer && (ts.isArrowFunction(d.initializer) || ts.isFunctionExpression(d.initializer)) && reachesHandler(d.initializer); })();
    const ownerOf = (n) => { let g = enclosing(n); while (g && (ts.isArrowFunction(g) || ts.isFunctionExpression(g)) && !g.name) g = enclosing(g); return g; };
    const reachesHandler = (n) => { let y = false; p.walk(n.body, (q) => { if (ts.isCallExpression(q) && isHandler(q.expression)) y = true; }); return y; };
    for (const n of closures) { if (isActivation(n)) step(n, "step", n === skip ? skip : ownerOf(n), n); else if (nextOf(n) && reachesHandler(n)) { let act = enclosing(n); while (act && !isActivation(act)) act = enclosing(act); ctx.need(act, "the step a continuation belongs to"); if (act) step(n, "next", ownerOf(n), act); } }
    const deliver = methods.get("handleUpdate"); ctx.need(deliver, "the delivery of an update"); if (deliver) step(deliver, "deliver", null, deliver);
    // registration
    const handle = cls.members.find((m) => ts.isPropertyDeclaration(m) && m.name && isStep(m.name)); ctx.need(handle, "the handlers registered"); if (!handle) return; const H0 = handle.name.getText();
    const chains = []; p.walk(file, (n) => { if (ts.isCallExpression(n) && p.resolveCallee(n)?.fn === chain) chains.push(n); });
    const isOld = (e) => ts.isPropertyAccessExpression(e) && e.name.text === H0 || ts.isIdentifier(e) && (() => { const d = p.symbolOf(e)?.valueDeclaration; return d && ts.isVariableDeclaration(d) && d.initializer && isOld(d.initializer) || d && ts.isParameter(d) && d.parent.parameters.indexOf(d) === 0 && ts.isCallExpression(d.parent.parent) && /\.reduce$/.test(d.parent.parent.expression.getText()) || chains.some((c) => ts.isBinaryExpression(c.parent) && c.parent.left.getText() === e.getText()); })();
    for (const c of chains) { const ob = mk(c); ob(R.register, c.arguments.length === 2 && isOld(c.arguments[0]) && !isOld(c.arguments[1]), "behind", c, null, "adds handlers before those that are there"); }
    let writes = 0; for (const m of [...pub, cls.members.find(ts.isConstructorDeclaration)]) if (m?.body) { const ctor = ts.isConstructorDeclaration(m); if (ctor) { let w = false; p.walk(m.body, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.name.text === H0) w = true; }); if (w) { writes++; fold(ctx, m, mk(m), { chain, flat, skip }); } continue; }
      const ob = mk(m); const outs = []; let seen = false; track(ctx, m, { policy, keep: () => false, init: { n: 0 }, inst(s, v, cx, T) { if (v.op !== "SetProp" || v.name !== H0) return undefined; seen = true; const t = T(v.args[1]); const ok = t.h === "call" && t.args.length === 2 && t.args[0].key === "this." + H0 && /^call:.*\(/.test(t.args[1].key) && !t.args[1].key.includes("this." + H0); const made = /new:Composer\((?:spread\()?\$0/.exec(t.args?.[1]?.key ?? ""); ob(R.register, ok && made, "added", v.ast, cx, "does not add what is registered to what is there"); return { ...s, x: { ...s.x, n: Math.min(s.x.n + 1, 2), what: (t.args?.[1]?.key ?? "").slice(0, 200) } }; },
        onRet(s, v, cx, T) { outs.push([s.x.n, v && (s.x.what ?? "").includes(T(v).key), v?.ast ?? m, cx.path()]); } });
      if (!seen && m !== methods.get("use")) continue; writes++; for (const [n, r, at, path] of outs) { const c2 = { path: () => path }; ob(R.register, n === 1, "once", at, c2, "does not add what is registered exactly once"); ob(R.register, r, "returned", at, c2, "returns something else than what was registered"); } }
    ctx.need(writes >= 2, "where handlers are registered");
    const mw = methods.get("middleware"); ctx.need(mw, "the handlers of a composer"); if (mw) { const ob = mk(mw); track(ctx, mw, { policy, onRet(s, v, cx, T) { ob(R.register, T(v).key === "this." + H0 || T(v).h === "closure", "handlers", v?.ast ?? mw, cx, "does not tell the handlers that are registered"); } }); }
    p.walk(file, (n) => { if (!ts.isCallExpression(n) || !ts.isPropertyAccessExpression(n.expression) || n.expression.name.text !== "middleware") return; const g = enclosing(n); const ob = mk(n); ob(R.late, g && (isActivation(g) || nextOf(g)), "early", n, null, "looks up the handlers of an added composer before an update arrives"); });
    // filters
    const use = methods.get("use"), branch = methods.get("branch"), filter = methods.get("filter"); ctx.need(use && branch && filter, "how handlers are registered"); if (!use || !branch || !filter) return;
    { const ob = mk(branch); let n = 0; track(ctx, branch, { policy, inst(s, v, cx) { if (v.op === "Call" && v.targetFn === use) { n++; const a = v.callArgs[0]; ob(R.filter, v.callArgs.length === 1 && resolve(a).op === "Closure", "step", v.ast, cx, "registers something else than one conditional step"); } } }); ob(R.filter, n > 0, "registers", branch, null, "registers nothing"); }
    { const ob = mk(filter); let n = 0; track(ctx, filter, { policy, init: {}, inst(s, v, cx, T) { if (v.op !== "Call" || v.targetFn !== branch) return undefined; n++; const a = v.callArgs.map(T); const name = a[2]?.key ?? ""; ob(R.filter, a[0]?.key === "$0", "predicate", v.ast, cx, "filters by something else than its predicate"); ob(R.filter, /^new:Composer\(spread\(\$1\)\)/.test(a[1]?.key ?? ""), "accepted", v.ast, cx, "runs something else than what is registered with it when it accepts"); ob(R.filter, name === "@" + skip.name.text || resolve(v.callArgs[2])?.op === "Closure" && resolve(v.callArgs[2]).ast && onlyNext(resolve(v.callArgs[2]).ast), "refused", v.ast, cx, "does not go on with the chain when it does not accept"); return { ...s, x: { what: a[1]?.key } }; },
      onRet(s, v, cx, T) { ob(R.filter, v && s.x.what === T(v).key, "returned", v?.ast ?? filter, cx, "returns something else than what runs when it accepts"); } }); ob(R.filter, n > 0, "registers", filter, null, "registers nothing"); }
    function onlyNext(f) { return isActivation(f); }
    let shortcuts = 0;
    for (const [name, m] of methods) { if (m === filter || m === use || m === branch || !m.parameters.some((q) => q.dotDotDotToken)) continue; const ob = mk(m); const rest = m.parameters.findIndex((q) => q.dotDotDotToken); let n = 0; shortcuts++;
      track(ctx, m, { policy, init: {}, inst(s, v, cx, T) {
        if (v.op !== "Call" || v.targetFn !== filter) return undefined; n++; const a = v.callArgs.map(T); const t = a[0]; const q = t?.h === "call" ? String(t.n ?? "").split(/[.#]/).pop().replace(/%.*/, "") : ""; const want = name === "on" ? "filterQuery" : name; ob(R.filter, q === want, "query", v.ast, cx, `filters by ${q || "something else"} instead of ${want}`);
        for (let i = 0; i < rest; i++) ob(R.filter, t?.h === "call" && t.args.some((z) => z.key === "$" + i), "option|" + i, v.ast, cx, "does not filter by what it was given"); ob(R.filter, a.length === 2 && a[1].key === `spread($${rest})`, "handlers", v.ast, cx, "does not register the handlers it was given"); return { ...s, x: { id: v.id } };
      }, onRet(s, v, cx) { ob(R.filter, v && resolve(v).id === s.x.id, "returned", v?.ast ?? m, cx, "does not return what it registered"); } }); ob(R.filter, n > 0, "filters", m, null, "registers nothing"); }
    const ctxCls = [...p.findClass("Context")].find((c) => p.isRepo(c.getSourceFile())); const hasFile = ctxCls?.getSourceFile(); ctx.need(hasFile, "the filters");
    if (hasFile) for (const s of hasFile.statements) if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) if (d.initializer && ts.isObjectLiteralExpression(d.initializer) && d.initializer.properties.some((q) => q.name?.getText() === "filterQuery")) for (const q of d.initializer.properties) {
      const body = q.body ?? q.initializer?.body; if (!body) continue; const inner = []; p.walk(body, (n) => { if ((ts.isArrowFunction(n) || ts.isFunctionExpression(n)) && n.parameters.length === 1 && enclosing(n) && (enclosing(n) === q || enclosing(n) === q.initializer)) { const t = p.checker.typeToString(p.checker.getTypeAtLocation(n)); if (/ ctx is |=> boolean/.test(t) && n.parameters[0].name.getText() && /Context|^C$/.test(p.checker.typeToString(p.checker.getTypeAtLocation(n.parameters[0])))) inner.push(n); } });
      const nm = q.name.getText(); const key = p.rel(hasFile) + "#" + nm; ctx.ob(R.pure, inner.length > 0, { key: key + "|predicate", at: p.loc(q), message: `${key} makes no predicate` });
      for (const g of inner) { let bad = null; p.walk(g.body, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(test|exec)$/.test(n.expression.name.text) && /RegExp/.test(p.checker.typeToString(p.checker.getTypeAtLocation(n.expression.expression))) && !ts.isRegularExpressionLiteral(n.expression.expression)) bad = n; if (ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment) { let e = n.left; while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) e = e.expression; const dd = p.symbolOf(e)?.valueDeclaration; if (!dd || !(dd.getStart() >= g.body.getStart() && dd.getEnd() <= g.body.getEnd())) bad = n; } if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(push|pop|shift|unshift|splice|sort|reverse|delete|clear|set|add)$/.test(n.expression.name.text)) { const dd = ts.isIdentifier(n.expression.expression) && p.symbolOf(n.expression.expression)?.valueDeclaration; if (dd && !(dd.getStart() >= g.body.getStart() && dd.getEnd() <= g.body.getEnd())) bad = n; } }); ctx.ob(R.pure, !bad, { key: key + "|state", at: p.loc(bad ?? g), message: `${key} makes a filter whose decision depends on earlier updates` }); }
    }
    // delivery
    if (deliver) { const ob = mk(deliver); let n = 0; track(ctx, deliver, { policy, inst(s, v, cx, T) {
      if (v.op === "New" && /#Context$/.test(v.name ?? "")) { const a = v.callArgs ?? v.args; const k = a.map((z) => T(z).key); n++; ob(R.deliver, k[0] === "$0" && k[2] === "$1", "context", v.ast, cx, "makes the context of something else than the update and client it was given"); ob(R.deliver, /\(@\w+,\$0\)|getMe\(\$0\)/.test(k[1]), "self", v.ast, cx, "tells the handlers of another account"); } return undefined;
    } }); ob(R.deliver, n > 0, "made", deliver, null, "makes no context"); }
    let sites = 0; for (const f of p.sourceFiles) if (p.isRepo(f)) p.walk(f, (n) => { if (!ts.isCallExpression(n) || p.resolveCallee(n)?.fn !== deliver) return; sites++; let e = n; while (ts.isParenthesizedExpression(e.parent)) e = e.parent; const g = enclosing(n); const ok = ts.isAwaitExpression(e.parent) || ts.isReturnStatement(e.parent) || ts.isArrowFunction(e.parent) && e.parent.body === e; const who = p.rel(f) + "#" + (g?.name?.getText?.() ?? ""); ctx.ob(R.deliver, ok, { key: who + "|awaited", at: p.loc(n), message: `${who} does not wait for the handlers of an update` }); ctx.ob(R.deliver, n.arguments[0]?.kind === ts.SyntaxKind.ThisKeyword, { key: who + "|client", at: p.loc(n), message: `${who} delivers an update in the name of another client` });
      // who delivers: the functions that call this one wait for it too, one update after the other
      if (!g || !ts.isMethodDeclaration(g)) return; for (const h of p.sourceFiles) if (p.isRepo(h)) p.walk(h, (q) => { if (!ts.isCallExpression(q) || p.resolveCallee(q)?.fn !== g) return; let z = q; while (ts.isParenthesizedExpression(z.parent)) z = z.parent; const gg = enclosing(q); const w = p.rel(h) + "#" + (ownerOf(q)?.name?.getText?.() ?? ""); const fine = ts.isAwaitExpression(z.parent) || ts.isReturnStatement(z.parent) || ts.isArrowFunction(z.parent) && z.parent.body === z; if (!/client\/6_client\.ts$/.test(p.rel(h))) return; ctx.ob(R.deliver, fine, { key: w + "|next", at: p.loc(q), message: `${w} goes on before the handlers of an update are done` }); void gg; });
    });
    ctx.need(sites, "where updates are delivered"); ctx.count("steps", steps); ctx.count("filter shortcuts", shortcuts);
    for (const [k, n] of [[R.one, 10], [R.order, 2], [R.args, 8], [R.awaited, 10], [R.filter, 20], [R.pure, 8], [R.late, 1], [R.register, 5], [R.deliver, 6]]) ctx.floor(k, n);
  },
};
/** a value and those whose completion it stands for */
function holds(v, n = 0) { v = resolve(v); const out = [v.id]; if (n > 4) return out; if (v.op === "Call" && /PromiseConstructor\.(resolve|all)$/.test(v.name ?? "")) for (const a of v.callArgs) out.push(...holds(a, n + 1)); if (v.op === "Call" && v.recv && /^(then|finally)$/.test(v.method ?? "") && v.callArgs.length < 2) out.push(...holds(v.recv, n + 1)); if (v.op === "Array") for (const a of v.args ?? []) out.push(...holds(a, n + 1)); return out; }
/** a composer made of several handlers runs them in the order given */
function fold(ctx, m, ob, { chain, flat, skip }) {
  const p = ctx.p; let ok = false, empty = false, at = m; const param = m.parameters[0]; const ps = p.symbolOf(param?.name);
  p.walk(m.body, (n) => {
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^reduce/.test(n.expression.name.text)) {
      at = n; const cb = n.arguments[0]; const direct = cb && ts.isIdentifier(cb) && p.resolveFunctionRef(cb)?.fn === chain; const arrow = cb && ts.isArrowFunction(cb) && ts.isCallExpression(cb.body) && p.resolveCallee(cb.body)?.fn === chain && cb.body.arguments[0]?.getText() === cb.parameters[0]?.name.getText();
      let e = n.expression.expression, fine = n.expression.name.text === "reduce"; while (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression)) { if (e.expression.name.text !== "map") fine = false; e = e.expression.expression; } if (ts.isIdentifier(e) && p.symbolOf(e) !== ps) { const d = p.symbolOf(e)?.valueDeclaration; let q = d && ts.isVariableDeclaration(d) ? d.initializer : null; while (q && ts.isCallExpression(q) && ts.isPropertyAccessExpression(q.expression)) { if (q.expression.name.text !== "map") fine = false; q = q.expression.expression; } if (!q || p.symbolOf(q) !== ps) fine = false; }
      if ((direct || arrow) && fine) ok = true;
    }
    if (ts.isForOfStatement(n)) { let e = n.expression; if (ts.isIdentifier(e) && p.symbolOf(e) === ps) { let c = false; p.walk(n.statement, (q) => { if (ts.isCallExpression(q) && p.resolveCallee(q)?.fn === chain) c = true; }); if (c) { ok = true; at = n; } } }
    if (ts.isIdentifier(n) && p.resolveFunctionRef(n)?.fn === skip) empty = true;
  });
  void flat; ob(R.register, ok, "several", at, null, "does not run several handlers in the order given"); ob(R.register, empty, "none", m, null, "does not go on when it has no handlers");
}
