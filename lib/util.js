"use strict";
const { ts } = require("./project.js");
const { Lowerer } = require("./ir.js");
/** every function-like node with a body in the repo (closures included) */
function allFunctions(p) {
  if (p._allFns) return p._allFns;
  const out = [];
  for (const sf of p.sourceFiles) { if (/^tl\/1_.*_api\.ts$/.test(p.rel(sf))) continue; p.walk(sf, (n) => { if (ts.isFunctionLike(n) && n.body) out.push(n); }); }
  return p._allFns = out;
}
/** innermost function containing a node */
function enclosing(n) { let q = n.parent; while (q && !(ts.isFunctionLike(q) && q.body) && !ts.isSourceFile(q)) q = q.parent; return q && !ts.isSourceFile(q) ? q : undefined; }
function fnLabel(p, fn) {
  if (!fn) return "(module)";
  if (ts.isArrowFunction(fn) || ts.isFunctionExpression(fn)) {
    let q = fn.parent; while (q && (ts.isParenthesizedExpression(q) || ts.isAsExpression(q))) q = q.parent;
    if (q && ts.isPropertyAccessExpression(q) && ts.isCallExpression(q.parent)) q = q.parent.parent;
    if (q && (ts.isVariableDeclaration(q) || ts.isPropertyDeclaration(q))) return p.declName(q);
    return fnLabel(p, enclosing(fn)) + "/closure";
  }
  return p.declName(fn);
}
/** the named member a closure belongs to */
function owner(p, fn) { let f = fn; while (f && (ts.isArrowFunction(f) || ts.isFunctionExpression(f))) { const l = fnLabel(p, f); if (!l.endsWith("/closure")) return l; f = enclosing(f); } return f ? p.declName(f) : fnLabel(p, fn); }
/** call graph: function node -> [{call, targets, awaited}] */
function callees(p, fn) {
  p._callees ??= new Map();
  if (p._callees.has(fn)) return p._callees.get(fn);
  const out = []; p._callees.set(fn, out);
  p.walk(fn, (n) => {
    if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
      const r = ts.isCallExpression(n) ? p.resolveCallee(n) : { fn: ctorOf(p, n), name: undefined };
      out.push({ call: n, fn: r.fn, name: r.name, sym: r.sym, within: enclosing(n) });
    }
  });
  return out;
}
function ctorOf(p, n) { const d = p.symbolOf(n.expression)?.valueDeclaration; if (d && ts.isClassDeclaration(d)) return d.members.find((m) => ts.isConstructorDeclaration(m) && m.body); return undefined; }
function lower(p, fn, policy, name) { return new Lowerer(p, policy).lower(fn, { name: name ?? fnLabel(p, fn) }); }
module.exports = { allFunctions, enclosing, fnLabel, owner, callees, lower, ctorOf };
/** static type of the place a value comes from */
function typeOfValue(p, v) {
  const { resolve } = require("./ir.js");
  v = resolve(v);
  if (v._tsType !== undefined) return v._tsType;
  let t = null;
  try {
    if (v.op === "Await" || v.op === "Id") { const q = typeOfValue(p, v.args[0]); t = q && p.checker.getAwaitedType ? p.checker.getAwaitedType(q) ?? q : q; if (v.op === "Await" && v.ast) t = p.checker.getTypeAtLocation(v.ast); }
    else if (v.op === "IterElem" && v.ast && ts.isForOfStatement(v.ast)) { const d = v.ast.initializer; t = ts.isVariableDeclarationList(d) ? p.checker.getTypeAtLocation(d.declarations[0].name) : null; }
    else if (v.op === "Param" && v.ast) t = p.checker.getTypeAtLocation(v.ast);
    else if ((v.op === "GetProp" || v.op === "Call" || v.op === "Object" || v.op === "New") && v.ast && (ts.isExpression(v.ast))) t = p.checker.getTypeAtLocation(v.ast);
  } catch { t = null; }
  v._tsType = t ?? null;
  return v._tsType;
}
/** set of discriminators ("_") a static type admits, or null when unknown */
function discriminators(p, t) {
  if (!t) return null;
  p._discr ??= new Map();
  if (p._discr.has(t)) return p._discr.get(t);
  let out = new Set();
  const parts = t.isUnion() ? t.types : [t];
  for (const x of parts) {
    if (x.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null)) continue;
    const u = x.getProperty?.("_"); const n = u?.valueDeclaration && ts.isPropertySignature(u.valueDeclaration) ? u.valueDeclaration.type : undefined;
    if (n && ts.isLiteralTypeNode(n) && n.literal.text !== undefined) out.add(n.literal.text); else { out = null; break; }
  }
  p._discr.set(t, out);
  return out;
}
/** for a discriminator test is(name, x) / isOneOf(names, x): { names, x } */
function discriminatorTest(v) {
  const { resolve } = require("./ir.js");
  v = resolve(v);
  if (v.op !== "Call" || !/^tl\/\S*#(is|isOneOf)$/.test(v.name ?? "") || !v.callArgs || v.callArgs.length < 2) return null;
  const a = resolve(v.callArgs[0]); let names;
  if (a.op === "Const" && typeof a.value === "string") names = [a.value];
  else if (a.op === "Array" && a.args.every((x) => resolve(x).op === "Const")) names = a.args.map((x) => resolve(x).value);
  return names ? { names, x: resolve(v.callArgs[1]) } : null;
}
/** the static type of the tested value rules the outcome out */
function typeRefutes(p, cond, truth) {
  const d = discriminatorTest(cond); if (!d) return false;
  const s = discriminators(p, typeOfValue(p, d.x)); if (!s) return false;
  const hit = [...s].filter((x) => d.names.includes(x)).length;
  return truth ? hit === 0 : hit === s.size && false;
}
Object.assign(module.exports, { typeOfValue, discriminators, discriminatorTest, typeRefutes });
/** does fn, or a function it calls, reach a call for which f(name) holds? */
function reaches(p, fn, f, memo = new Map(), depth = 0) {
  if (memo.has(fn)) return memo.get(fn);
  memo.set(fn, false);
  let r = false;
  for (const c of callees(p, fn)) { if (f(c.name ?? "")) { r = true; break; } if (c.fn && depth < 20 && !/^tl\//.test(c.name ?? "") && reaches(p, c.fn, f, memo, depth + 1)) { r = true; break; } }
  memo.set(fn, r);
  return r;
}
/** does fn, or a function it calls, change state of `this`? */
function changesThis(p, fn, memo = new Map()) {
  if (memo.has(fn)) return memo.get(fn);
  memo.set(fn, false);
  let r = false;
  const onThis = (e) => { while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e) || ts.isNonNullExpression(e)) e = e.expression; return e.kind === ts.SyntaxKind.ThisKeyword; };
  p.walk(fn, (n) => {
    if (r) return false;
    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= ts.SyntaxKind.FirstAssignment && n.operatorToken.kind <= ts.SyntaxKind.LastAssignment && !ts.isIdentifier(n.left) && onThis(n.left)) r = true;
    if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && /^(\+\+|--)$/.test(ts.tokenToString(n.operator)) && ts.isPropertyAccessExpression(n.operand) && onThis(n.operand)) r = true;
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) {
      const m = n.expression.name.text;
      if (/^(push|pop|shift|unshift|splice|set|add|delete|clear|resolve|reject)$/.test(m) && onThis(n.expression.expression)) r = true;
      if (/handlers/.test(n.expression.expression.getText())) r = true;
      const c = p.resolveCallee(n); if (c.fn && onThis(n.expression.expression) && changesThis(p, c.fn, memo)) r = true;
    }
  });
  memo.set(fn, r);
  return r;
}
Object.assign(module.exports, { reaches, changesThis });
