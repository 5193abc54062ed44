"use strict";
// Lowers one function, with the repository functions it calls inlined according to a policy, to a CFG in SSA form.
const { ts, foldBin } = require("./project.js");
const K = ts.SyntaxKind;

const LIB_NOTHROW = new Set(["Map", "Set", "WeakMap", "WeakSet", "ReadonlyMap", "ReadonlySet", "Array", "ReadonlyArray", "ArrayConstructor", "String", "StringConstructor", "Number", "NumberConstructor", "Math", "Date", "DateConstructor",
  "PromiseConstructor", "PromiseWithResolvers", "AbortController", "AbortSignal", "AbortSignalConstructor", "Console", "Performance", "ObjectConstructor", "EventTarget", "RegExp", "Boolean", "BigInt", "Symbol", "MapIterator", "IteratorObject", "Iterator", "ArrayIterator", "Object", "Function"]);
const LIB_NOTHROW_FN = new Set(["setTimeout", "clearTimeout", "setInterval", "clearInterval", "queueMicrotask", "String", "Number", "Boolean", "parseInt", "parseFloat", "isNaN", "isFinite", "resolve", "reject"]);
const LIB_THROWING = new Set(["lib#AbortSignal.throwIfAborted", "lib#String.repeat", "lib#String.normalize", "lib#ObjectConstructor.defineProperty"]);
const ARRAY_CB = new Set(["map", "forEach", "filter", "some", "every", "find", "findIndex", "findLast", "findLastIndex", "flatMap", "reduce", "reduceRight", "sort", "toSorted"]);

let nextId = 0;
class Value {
  constructor(op, args, extra) { this.id = nextId++; this.op = op; this.args = args; this.block = null; this.ast = null; this.frame = null; if (extra) Object.assign(this, extra); }
}
class Block { constructor(unit) { this.id = unit.blocks.length; this.phis = []; this.insts = []; this.term = null; this.preds = []; this.sealed = false; this.defs = new Map(); this.incomplete = new Map(); unit.blocks.push(this); } }
class Var { constructor(name, sym, frame) { this.name = name; this.sym = sym; this.frame = frame; this.cell = false; } }

function resolve(v) { let r = v; while (r.fwd) r = r.fwd; if (v.fwd && v.fwd !== r) v.fwd = r; return r; }

function stripParens(e) {
  while (ts.isParenthesizedExpression(e) || ts.isNonNullExpression(e) || ts.isAsExpression(e) || ts.isTypeAssertionExpression?.(e) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e))) e = e.expression;
  return e;
}
function isAsyncFn(fn) { return !!(fn && ts.canHaveModifiers(fn) && ts.getModifiers(fn)?.some((m) => m.kind === K.AsyncKeyword)); }
function isGenerator(fn) { return !!fn.asteriskToken; }

class Unit {
  constructor(project) { this.p = project; this.blocks = []; this.root = null; this.throwExit = null; this.retBlock = null; this.inlined = new Set(); this.values = 0; }
}

function leavesTry(n) {
  for (let q = n, o = n?.parent; o && !ts.isFunctionLike(o); q = o, o = o.parent) if (ts.isTryStatement(o) && (q === o.tryBlock || q === o.catchClause && o.finallyBlock)) return true;
  return false;
}
class Lowerer {
  constructor(project, policy = {}) {
    this.p = project; this.policy = policy;
    this.maxDepth = policy.maxDepth ?? 8; this.maxValues = policy.maxValues ?? 60000;
  }

  lower(fn, opts = {}) {
    const u = this.u = new Unit(this.p);
    u.root = fn; u.name = opts.name;
    this.frames = []; this.ctl = [];
    const entry = this.newBlock(); entry.sealed = true; u.entry = entry;
    u.throwExit = this.newBlock(); u.throwExit.isThrowExit = true;
    u.retBlock = this.newBlock(); u.retBlock.isReturn = true;
    this.cur = entry; this.exc = u.throwExit;
    const thisVal = this.emit("This", [], { ast: fn });
    const frame = this.pushFrame(fn, thisVal, null, { root: true });
    frame.awaited = true; frame.retBlock = u.retBlock; frame.retVals = [];
    u.frame = frame; u.thisVal = thisVal;
    const params = [];
    fn.parameters.forEach((prm, i) => {
      let v = this.emit("Param", [], { index: i, name: prm.name.getText(), ast: prm, ptype: prm });
      params.push(v);
      if (prm.initializer) {
        v = this.defaulted(v, prm.initializer);
      }
      this.bindPattern(prm.name, v, frame, prm);
    });
    u.params = params;
    this.lowerBody(fn, frame);
    if (this.cur) { frame.retVals.push(this.cst(undefined)); this.jump(frame.retBlock); }
    this.popFrame();
    for (const b of u.blocks) if (!b.sealed) this.seal(b);
    u.retVals = frame.retVals;
    this.finish();
    return u;
  }

  finish() {
    const u = this.u;
    // resolve forwarding everywhere, drop unreachable blocks
    const seen = new Set(); const st = [u.entry];
    while (st.length) { const b = st.pop(); if (seen.has(b)) continue; seen.add(b); for (const s of succs(b)) st.push(s); }
    u.blocks = u.blocks.filter((b) => seen.has(b) || b === u.retBlock || b === u.throwExit);
    for (const b of u.blocks) {
      b.allPreds = b.preds;
      const keep = b.preds.map((x) => seen.has(x));
      b.phis = b.phis.filter((v) => !v.fwd);
      for (const v of b.phis) { v.args = v.args.map(resolve).filter((_, i) => keep[i]); }
      b.preds = b.preds.filter((_, i) => keep[i]);
      for (const v of b.insts) { v.args = v.args.map(resolve); if (v.props) v.props.forEach((q) => { if (q.value) q.value = resolve(q.value); if (q.keyValue) q.keyValue = resolve(q.keyValue); }); }
      if (b.term?.cond) b.term.cond = resolve(b.term.cond);
      if (b.term?.value) b.term.value = resolve(b.term.value);
    }
    u.retVals = u.retVals.map(resolve);
  }

  newBlock() { return new Block(this.u); }
  emit(op, args, extra) {
    const v = new Value(op, args, extra);
    v.block = this.cur; v.frame = this.frame; this.cur.insts.push(v);
    if (++this.u.values > this.maxValues) throw new Error("IR too large");
    return v;
  }
  cst(c) { const v = new Value("Const", [], { value: c }); v.block = this.cur; v.frame = this.frame; if (this.cur) this.cur.insts.push(v); return v; }
  addEdge(from, to) { to.preds.push(from); }
  jump(to) { if (!this.cur) return; if (this.cur.dead) { this.cur = null; return; } this.cur.term = { kind: "jump", to }; this.addEdge(this.cur, to); this.cur = null; }
  branch(cond, t, f, ast) {
    if (!this.cur) return;
    if (this.cur.dead) { this.cur = null; return; }
    const c = resolve(cond);
    if (c.op === "Const") return this.jump(c.value ? t : f);
    if (alwaysTruthy(c)) return this.jump(t);
    this.cur.term = { kind: "branch", cond: c, t, f, ast }; this.addEdge(this.cur, t); this.addEdge(this.cur, f); this.cur = null;
  }
  /** ends the block after a throwing instruction */
  mayThrow(v) {
    if (this.cur.dead) return v;
    const b = this.cur, n = this.newBlock();
    b.term = { kind: "invoke", normal: n, exc: this.exc, inst: v };
    this.addEdge(b, n); n.sealed = true;
    this.addEdge(b, this.exc);
    this.cur = n;
    return v;
  }
  throwValue(v, ast) {
    if (!this.cur) return;
    if (this.cur.dead) { this.cur = null; return; }
    this.cur.term = { kind: "throw", value: v, exc: this.exc, ast }; this.addEdge(this.cur, this.exc);
    (this.exc.thrown ??= []).push(v);
    this.cur = null;
  }
  seal(b) {
    if (b.sealed) return;
    for (const [variable, phi] of b.incomplete) this.addPhiOperands(variable, phi);
    b.incomplete.clear(); b.sealed = true;
  }
  writeVar(variable, val) {
    if (!this.cur) return;
    if (variable.cell) { this.emit("Store", [val], { variable, name: variable.name }); return; }
    this.cur.defs.set(variable, val);
  }
  readVar(variable) {
    if (variable.cell) return this.emit("Load", [], { variable, name: variable.name });
    return resolve(this.readVarIn(variable, this.cur));
  }
  readVarIn(variable, block) {
    if (block.defs.has(variable)) return resolve(block.defs.get(variable));
    let val;
    if (!block.sealed) {
      val = this.newPhi(block, variable); block.incomplete.set(variable, val);
    } else if (block.preds.length === 1) {
      val = this.readVarIn(variable, block.preds[0]);
    } else if (block.preds.length === 0) {
      val = new Value("Undef", [], { name: variable.name }); val.block = block; val.frame = this.frame;
    } else {
      val = this.newPhi(block, variable); block.defs.set(variable, val);
      val = this.addPhiOperands(variable, val);
    }
    block.defs.set(variable, val);
    return val;
  }
  newPhi(block, variable) { const v = new Value("Phi", [], { name: variable?.name, variable }); v.block = block; v.frame = this.frame; v.users = new Set(); block.phis.push(v); return v; }
  addPhiOperands(variable, phi) {
    for (const pred of phi.block.preds) { const a = this.readVarIn(variable, pred); phi.args.push(a); if (resolve(a).op === "Phi") resolve(a).users.add(phi); }
    return this.tryRemoveTrivial(phi);
  }
  tryRemoveTrivial(phi) {
    let same = null;
    for (let a of phi.args) { a = resolve(a); if (a === same || a === phi) continue; if (same) return phi; same = a; }
    if (!same) same = new Value("Undef", [], { name: phi.name });
    phi.fwd = same;
    const users = [...phi.users];
    for (const us of users) if (us !== phi && !us.fwd && us.args.length === us.block.preds.length && us.block.sealed) this.tryRemoveTrivial(us);
    if (same.op === "Phi") for (const us of users) same.users.add(us);
    return resolve(same);
  }
  phiOf(block, vals, name) {
    // vals parallel to block.preds
    const v = new Value("Phi", vals, { name }); v.block = block; v.frame = this.frame; v.users = new Set(); block.phis.push(v);
    let same = null, triv = true;
    for (let a of vals) { a = resolve(a); if (same && a !== same && !(a.op === "Const" && same.op === "Const" && Object.is(a.value, same.value))) { triv = false; break; } same = a; }
    if (triv && same) { v.fwd = same; return same; }
    return v;
  }

  // ---- frames
  pushFrame(fn, thisVal, callAst, extra = {}) {
    const f = { fn, thisVal, callAst, parent: this.frame ?? null, vars: new Map(), depth: (this.frame?.depth ?? -1) + 1, awaited: false, ...extra };
    this.frames.push(f); this.frame = f; this.u.inlined.add(fn);
    return f;
  }
  popFrame() { this.frames.pop(); this.frame = this.frames[this.frames.length - 1]; }
  enclosingFn(node) { let n = node.parent; while (n && !ts.isFunctionLike(n) && !ts.isSourceFile(n) && !(ts.isPropertyDeclaration(n)) && !ts.isClassStaticBlockDeclaration?.(n)) n = n.parent; return n; }
  findVar(sym) {
    // frames on the dynamic stack, lexical ancestors first
    for (let f = this.frame; f; f = f.lex ?? f.parent) { if (f.vars.has(sym)) return f.vars.get(sym); }
    for (let i = this.frames.length - 1; i >= 0; i--) if (this.frames[i].vars.has(sym)) return this.frames[i].vars.get(sym);
    return undefined;
  }
  declareVar(nameNode, frame = this.frame) {
    const sym = this.p.checker.getSymbolAtLocation(nameNode);
    const v = new Var(nameNode.text, sym, frame);
    v.cell = this.isCell(sym, nameNode);
    frame.vars.set(sym, v);
    return v;
  }
  isCell(sym, nameNode) {
    if (!sym) return false;
    const d = sym.valueDeclaration; if (!d) return false;
    if (sym._verifCell !== undefined) return sym._verifCell;
    let cell = false;
    const root = this.enclosingFn(d) ?? d.getSourceFile();
    const declFn = this.enclosingFn(d);
    const visit = (n) => {
      if (cell) return;
      if (ts.isIdentifier(n) && n.text === sym.name && isWrite(n)) {
        const s = this.p.checker.getSymbolAtLocation(n) ;
        if (s === sym) {
          // enclosing functions up to declFn: all must be inlinable closures
          let f = this.enclosingFn(n);
          while (f && f !== declFn && f !== root) {
            if (!this.closureAlwaysInlined(f)) { cell = true; return; }
            f = this.enclosingFn(f);
          }
        }
      }
      ts.forEachChild(n, visit);
    };
    visit(root);
    sym._verifCell = cell;
    return cell;
  }
  closureAlwaysInlined(f) {
    if (isGenerator(f)) return false;
    let e = f; while (ts.isParenthesizedExpression(e.parent)) e = e.parent;
    const par = e.parent;
    if (ts.isCallExpression(par) && par.expression === e) return true; // IIFE
    if (ts.isNewExpression(par) && par.arguments?.[0] === e && par.expression.getText() === "Promise") return true;
    if (ts.isCallExpression(par) && ts.isPropertyAccessExpression(par.expression)) {
      const m = par.expression.name.text;
      if (ARRAY_CB.has(m) && m !== "sort" && m !== "toSorted" && par.arguments[0] === e) return true;
      if (m === "then" || m === "catch" || m === "finally") { return this.isAwaitedSyntactically(par); }
    }
    // local function only ever called
    const nm = ts.isFunctionDeclaration(f) ? f.name : (ts.isVariableDeclaration(par) && ts.isIdentifier(par.name) ? par.name : undefined);
    if (nm) {
      const sym = this.p.checker.getSymbolAtLocation(nm);
      let ok = true;
      const scope = this.enclosingFn(nm) ?? nm.getSourceFile();
      this.p.walk(scope, (n) => {
        if (ts.isIdentifier(n) && n.text === nm.text && n !== nm && this.p.checker.getSymbolAtLocation(n) === sym) {
          if (!(ts.isCallExpression(n.parent) && n.parent.expression === n)) ok = false;
          else if (isAsyncFn(f) && !this.isAwaitedSyntactically(n.parent)) ok = false;
        }
      });
      return ok;
    }
    return false;
  }
  isAwaitedSyntactically(e) {
    let n = e;
    for (;;) {
      const q = n.parent;
      if (!q) return false;
      if (ts.isAwaitExpression(q)) return true;
      if (ts.isParenthesizedExpression(q) || ts.isAsExpression(q) || ts.isNonNullExpression(q)) { n = q; continue; }
      if (ts.isPropertyAccessExpression(q) && q.expression === n && ts.isCallExpression(q.parent) && ["then", "catch", "finally"].includes(q.name.text)) { n = q.parent; continue; }
      if (ts.isReturnStatement(q)) { const f = this.enclosingFn(q); return !!f && isAsyncFn(f); }
      if (ts.isArrowFunction(q) && q.body === n) return isAsyncFn(q);
      return false;
    }
  }

  // ---- patterns
  defaulted(v, initializer) {
    // v === undefined ? init : v
    const isU = this.emit("Bin", [v, this.cst(undefined)], { operator: "===", ast: initializer });
    if (resolve(v).op === "Const") { return resolve(v).value === undefined ? this.expr(initializer) : v; }
    const t = this.newBlock(), j = this.newBlock(), f = this.newBlock();
    this.branch(isU, t, f, initializer); this.seal(t); this.seal(f);
    const vals = [];
    this.cur = t; const d = this.expr(initializer); if (this.cur) { vals.push(d); this.jump(j); }
    this.cur = f; vals.push(v); this.jump(j);
    this.seal(j); this.cur = j;
    return this.phiOf(j, vals, "default");
  }
  bindPattern(name, val, frame, declAst) {
    if (ts.isIdentifier(name)) {
      const v = this.declareVar(name, frame);
      this.writeVar(v, val);
      return;
    }
    if (ts.isObjectBindingPattern(name)) {
      const used = [];
      for (const el of name.elements) {
        if (el.dotDotDotToken) { this.bindPattern(el.name, this.emit("Rest", [val], { ast: el, used: [...used] }), frame, el); continue; }
        const keyNode = el.propertyName ?? el.name;
        let v;
        if (ts.isComputedPropertyName(keyNode)) v = this.emit("GetElem", [val, this.expr(keyNode.expression)], { ast: el });
        else { const key = keyNode.text; used.push(key); v = this.getProp(val, key, el); }
        if (el.initializer) v = this.defaulted(v, el.initializer);
        this.bindPattern(el.name, v, frame, el);
      }
    } else if (ts.isArrayBindingPattern(name)) {
      name.elements.forEach((el, i) => {
        if (ts.isOmittedExpression(el)) return;
        if (el.dotDotDotToken) { this.bindPattern(el.name, this.emit("ArrRest", [val], { ast: el, from: i }), frame, el); return; }
        let v = this.getElem(val, this.cst(i), el);
        if (el.initializer) v = this.defaulted(v, el.initializer);
        this.bindPattern(el.name, v, frame, el);
      });
    }
  }
  assignPattern(target, val) {
    target = stripParens(target);
    if (ts.isArrayLiteralExpression(target)) {
      target.elements.forEach((el, i) => { if (!ts.isOmittedExpression(el)) { if (ts.isSpreadElement(el)) this.assignPattern(el.expression, this.emit("ArrRest", [val], { ast: el, from: i })); else this.assignPattern(el, this.getElem(val, this.cst(i), el)); } });
      return;
    }
    if (ts.isObjectLiteralExpression(target)) {
      for (const pr of target.properties) {
        if (ts.isShorthandPropertyAssignment(pr)) {
          let w = this.getProp(val, pr.name.text, pr); if (pr.objectAssignmentInitializer) w = this.defaulted(w, pr.objectAssignmentInitializer);
          const sym = this.p.checker.getShorthandAssignmentValueSymbol(pr), v = sym && this.findVar(sym);
          if (v) this.writeVar(v, w); else this.assignPattern(pr.name, w);
        }
        else if (ts.isPropertyAssignment(pr)) this.assignPattern(pr.initializer, this.getProp(val, pr.name.getText(), pr));
      }
      return;
    }
    if (ts.isBinaryExpression(target) && target.operatorToken.kind === K.EqualsToken) { return this.assignPattern(target.left, this.defaulted(val, target.right)); }
    if (ts.isIdentifier(target)) {
      const sym = this.p.checker.getSymbolAtLocation(target);
      const v = this.findVar(sym);
      if (v) this.writeVar(v, val);
      else this.emit("SetGlobal", [val], { name: this.p.declName(this.p.symbolOf(target)?.valueDeclaration) ?? target.text, ast: target });
      return;
    }
    if (ts.isPropertyAccessExpression(target)) {
      const o = this.expr(target.expression);
      const r = this.p.symbolOf(target);
      const setter = r?.declarations?.find((d) => ts.isSetAccessor(d) && d.body);
      if (setter && this.shouldInline(setter, target)) { this.inlineCall(setter, o, [val], target, { awaited: false }); return; }
      this.emit("SetProp", [o, val], { name: target.name.text, ast: target, declName: this.p.declName(r?.valueDeclaration) });
      markMutated(o, target.name.text);
      return;
    }
    if (ts.isElementAccessExpression(target)) {
      const o = this.expr(target.expression), i = this.expr(target.argumentExpression);
      const ci = resolve(i);
      this.emit("SetElem", [o, i, val], { ast: target });
      markMutated(o, ci.op === "Const" ? String(ci.value) : "*");
    }
  }

  // ---- functions
  lowerBody(fn, frame) {
    if (!fn.body) return;
    if (ts.isBlock(fn.body)) { this.hoist(fn.body, frame); this.stmts(fn.body.statements); }
    else this.doReturn(fn.body, fn.body);
  }
  hoist(block, frame) {
    for (const s of block.statements) if (ts.isFunctionDeclaration(s) && s.name) {
      const v = this.declareVar(s.name, frame); v.cell = false;
      this.writeVar(v, this.emit("Closure", [], { fn: s, lexFrame: this.frame, ast: s, name: s.name.text }));
    }
  }
  doReturn(expr, ast) {
    const frame = this.frame;
    const hasFinally = this.finallyBetween();
    if (expr && frame.condTargets && !hasFinally) {
      this.cond(expr, frame.condTargets.t, frame.condTargets.f, frame.awaited && !leavesTry(ast));
      this.cur = null;
      return;
    }
    // a promise returned from within a try statement is not waited for there: its finally block runs, and its catch clause is left, before it settles
    const v = expr ? this.expr(expr, frame.awaited && !leavesTry(ast)) : this.cst(undefined);
    if (!this.cur) return;
    this.runFinally((c) => c.type === "frame");
    if (!this.cur) return;
    if (frame.condTargets) { this.branch(v, frame.condTargets.t, frame.condTargets.f, ast); this.cur = null; return; }
    frame.retVals.push(v);
    if (frame.root) this.emit("Return", [v], { ast });
    this.jump(frame.retBlock);
  }
  finallyBetween() { for (let i = this.ctl.length - 1; i >= 0; i--) { if (this.ctl[i].type === "frame") return false; if (this.ctl[i].type === "finally") return true; } return false; }
  /** lowers pending finally blocks up to the control entry for which stop() holds (exclusive) */
  runFinally(stop) {
    const saved = this.ctl, savedExc = this.exc;
    for (let i = saved.length - 1; i >= 0; i--) {
      const c = saved[i];
      if (stop(c)) break;
      if (c.type === "finally") {
        this.ctl = saved.slice(0, i); this.exc = c.outerExc;
        c.run();
        if (!this.cur) break;
      }
    }
    this.ctl = saved; this.exc = savedExc;
  }

  shouldInline(fn, ast, args) {
    if (!fn.body || isGenerator(fn)) return false;
    if (!this.p.isRepo(fn)) return false;
    if (this.frame.depth >= this.maxDepth) return false;
    for (let f = this.frame; f; f = f.parent) if (f.fn === fn) return false;
    const name = this.fnName(fn);
    if (this.policy.never && this.policy.never(name, fn)) return false;
    if (this.policy.inline) { const r = this.policy.inline(name, fn, this.frame); if (r !== undefined) return r; }
    return defaultInline(name, fn, this.frame, this.u.root);
  }
  fnName(fn) {
    if (ts.isArrowFunction(fn) || ts.isFunctionExpression(fn)) {
      let q = fn.parent; while (q && (ts.isParenthesizedExpression(q) || ts.isAsExpression(q))) q = q.parent;
      if (q && ts.isPropertyAccessExpression(q) && q.parent && ts.isCallExpression(q.parent)) q = q.parent.parent;
      if (q && (ts.isVariableDeclaration(q) || ts.isPropertyDeclaration(q) || ts.isPropertyAssignment(q))) return this.p.declName(q);
      return this.p.rel(fn.getSourceFile()) + "#<closure>";
    }
    return this.p.declName(fn);
  }

  /** inlines fn; returns its value (or undefined value when control does not continue) */
  inlineCall(fn, thisVal, args, ast, opts = {}) {
    const ret = this.newBlock();
    const lex = opts.lexFrame ?? null;
    const arrowThis = (ts.isArrowFunction(fn) && lex) ? lex.thisVal : thisVal;
    const retVals = [];
    const savedCtl = this.ctl;
    this.emit("Enter", [], { fn, ast, name: this.fnName(fn) });
    const frame = this.pushFrame(fn, arrowThis ?? this.emitThis(fn), ast, { lex, awaited: !!opts.awaited, condTargets: opts.condTargets });
    frame.retBlock = ret; frame.retVals = retVals; frame.argValues = args;
    this.ctl = [...this.ctl, { type: "frame" }];
    fn.parameters.forEach((prm, i) => {
      if (prm.name.text === "this") return;
      let v;
      if (prm.dotDotDotToken) v = this.emit("Array", args.slice(i), { ast: prm });
      else v = args[i] ?? this.cst(undefined);
      if (prm.initializer) v = this.defaulted(v, prm.initializer);
      if (this.cur) this.bindPattern(prm.name, v, frame, prm);
    });
    this.lowerBody(fn, frame);
    if (this.cur) {
      if (opts.condTargets) { this.jump(opts.condTargets.f); }
      else { retVals.push(this.cst(undefined)); this.jump(ret); }
    }
    this.ctl = savedCtl;
    this.popFrame();
    if (opts.condTargets) { this.cur = null; return undefined; }
    this.seal(ret);
    if (!ret.preds.length) { this.cur = null; const dead = new Value("Undef", []); return dead; }
    this.cur = ret;
    return this.phiOf(ret, retVals, "ret:" + (this.fnName(fn) ?? ""));
  }
  emitThis(fn) { return this.frame.thisVal ?? this.emit("This", [], { ast: fn }); }

  // ---- statements
  stmts(list) { for (const s of list) { if (!this.cur) return; this.stmt(s); } }
  stmt(s) {
    switch (s.kind) {
      case K.Block: this.hoist(s, this.frame); this.stmts(s.statements); return;
      case K.VariableStatement: for (const d of s.declarationList.declarations) { if (this.cur) this.varDecl(d); } return;
      case K.ExpressionStatement: this.exprStmt(s.expression); return;
      case K.IfStatement: {
        const t = this.newBlock(), f = this.newBlock(), j = s.elseStatement ? this.newBlock() : f;
        this.cond(s.expression, t, f); this.seal(t);
        if (s.elseStatement) this.seal(f);
        this.cur = t.preds.length ? t : null; if (this.cur) this.stmt(s.thenStatement); this.jump(j);
        if (s.elseStatement) { this.cur = f.preds.length ? f : null; if (this.cur) this.stmt(s.elseStatement); this.jump(j); }
        this.seal(j); this.cur = j.preds.length ? j : null;
        return;
      }
      case K.WhileStatement: return this.loop(s, null, s.expression, null, s.statement, false);
      case K.DoStatement: return this.loop(s, null, s.expression, null, s.statement, true);
      case K.ForStatement: {
        if (s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) for (const d of s.initializer.declarations) this.varDecl(d); else this.expr(s.initializer); }
        if (!this.cur) return;
        return this.loop(s, null, s.condition, s.incrementor, s.statement, false);
      }
      case K.ForOfStatement: case K.ForInStatement: return this.forOf(s);
      case K.ReturnStatement: return this.doReturn(s.expression, s);
      case K.ThrowStatement: { const v = this.expr(s.expression); this.throwValue(v, s); return; }
      case K.BreakStatement: case K.ContinueStatement: {
        const isB = s.kind === K.BreakStatement, label = s.label?.text;
        let target;
        for (let i = this.ctl.length - 1; i >= 0; i--) {
          const c = this.ctl[i]; if (c.type === "frame") break;
          if (c.type === "loop" && (label ? c.label === label : (isB || c.cont)) ) { if (!isB && !c.cont) continue; target = c; break; }
          if (c.type === "labelblock" && isB && label && c.label === label) { target = c; break; }
        }
        if (!target) { this.cur = null; return; }
        this.runFinally((c) => c === target);
        this.jump(isB ? target.brk : target.cont);
        return;
      }
      case K.LabeledStatement: {
        if (ts.isIterationStatement(s.statement, false)) { this.pendingLabel = s.label.text; this.stmt(s.statement); }
        else {
          const brk = this.newBlock(); const c = { type: "labelblock", label: s.label.text, brk }; this.ctl = [...this.ctl, c];
          this.stmt(s.statement); this.ctl = this.ctl.slice(0, -1); this.jump(brk); this.seal(brk); this.cur = brk.preds.length ? brk : null;
        }
        return;
      }
      case K.SwitchStatement: return this.switchStmt(s);
      case K.TryStatement: return this.tryStmt(s);
      case K.FunctionDeclaration: case K.ClassDeclaration: case K.InterfaceDeclaration: case K.TypeAliasDeclaration: case K.EmptyStatement: case K.DebuggerStatement: return;
      default: return;
    }
  }
  exprStmt(e) { this.expr(e, false, true); }
  varDecl(d) {
    if (!d.initializer) {
      if (ts.isIdentifier(d.name)) { const v = this.declareVar(d.name); if (!v.cell) this.writeVar(v, this.cst(undefined)); }
      return;
    }
    const val = this.expr(d.initializer);
    if (this.cur) this.bindPattern(d.name, val, this.frame, d);
  }
  loop(ast, _i, condE, incr, body, isDo) {
    const label = this.pendingLabel; this.pendingLabel = undefined;
    const head = this.newBlock(), bodyB = this.newBlock(), cont = this.newBlock(), exit = this.newBlock();
    head.loopHead = ast; 
    this.jump(isDo ? bodyB : head);
    if (!isDo) {
      this.cur = head;
      if (condE) this.cond(condE, bodyB, exit); else this.jump(bodyB);
      this.seal(bodyB);
    }
    const c = { type: "loop", label, brk: exit, cont };
    this.ctl = [...this.ctl, c];
    if (isDo) bodyB.loopHead = ast;
    this.cur = bodyB.preds.length ? bodyB : null;
    if (this.cur) this.stmt(body);
    this.jump(cont);
    this.ctl = this.ctl.slice(0, -1);
    this.seal(cont); this.cur = cont.preds.length ? cont : null;
    if (this.cur && incr) this.expr(incr);
    if (isDo) {
      if (this.cur) { const hb = this.newBlock(); this.jump(hb); this.seal(hb); this.cur = hb; this.cond(condE, bodyB, exit); }
      this.seal(bodyB); this.seal(head);
    } else { this.jump(head); this.seal(head); }
    this.seal(exit); this.cur = exit.preds.length ? exit : null;
  }
  forOf(s) {
    const label = this.pendingLabel; this.pendingLabel = undefined;
    const src = this.expr(s.expression);
    if (!this.cur) return;
    const isAwait = !!s.awaitModifier;
    const head = this.newBlock(), bodyB = this.newBlock(), exit = this.newBlock();
    head.loopHead = s;
    this.jump(head); this.cur = head;
    let has = this.emit("IterHas", [src], { ast: s, isAwait, forIn: ts.isForInStatement(s) });
    if (isAwait) { has.isAwaitPoint = true; this.mayThrow(has); }
    else if (this.iterMayThrow(s.expression)) this.mayThrow(has);
    this.branch(has, bodyB, exit, s); this.seal(bodyB); this.cur = bodyB;
    const el = this.emit(ts.isForInStatement(s) ? "IterKey" : "IterElem", [src], { ast: s, isAwait });
    if (ts.isVariableDeclarationList(s.initializer)) this.bindPattern(s.initializer.declarations[0].name, el, this.frame, s.initializer);
    else this.assignPattern(s.initializer, el);
    const c = { type: "loop", label, brk: exit, cont: head };
    this.ctl = [...this.ctl, c];
    if (this.cur) this.stmt(s.statement);
    this.ctl = this.ctl.slice(0, -1);
    this.jump(head); this.seal(head); this.seal(exit); this.cur = exit.preds.length ? exit : null;
  }
  iterMayThrow(e) { const t = this.p.checker.getTypeAtLocation(e); const n = t.symbol?.name; return !(n && (LIB_NOTHROW.has(n) || /Array|Map|Set|Iterator|Uint8/.test(n))) && !(t.flags & ts.TypeFlags.StringLike) && !this.p.checker.isTupleType(t); }
  switchStmt(s) {
    const disc = this.expr(s.expression);
    if (!this.cur) return;
    const exit = this.newBlock();
    const clauses = s.caseBlock.clauses;
    const bodies = clauses.map(() => this.newBlock());
    let defaultIdx = -1;
    this.hoist({ statements: clauses.flatMap((c) => [...c.statements]) }, this.frame);
    for (let i = 0; i < clauses.length; i++) {
      if (ts.isDefaultClause(clauses[i])) { defaultIdx = i; continue; }
      if (!this.cur) break;
      const v = this.expr(clauses[i].expression);
      const nx = this.newBlock();
      const cmp = this.foldOr("Bin", [disc, v], { operator: "===", ast: clauses[i].expression, isCase: true });
      this.branch(cmp, bodies[i], nx, clauses[i]); this.seal(nx); this.cur = nx.preds.length ? nx : null;
    }
    if (this.cur) {
      // an exhaustive switch over a literal union has no implicit default
      if (defaultIdx < 0 && this.isExhaustive(s)) { this.cur.term = { kind: "unreachable" }; this.cur = null; }
      else this.jump(defaultIdx >= 0 ? bodies[defaultIdx] : exit);
    }
    const c = { type: "loop", label: undefined, brk: exit, cont: null };
    this.ctl = [...this.ctl, c];
    for (let i = 0; i < clauses.length; i++) {
      const b = bodies[i];
      if (this.prevFall) { }
      if (this.fall) { this.cur = this.fall; this.jump(b); this.fall = null; }
      this.seal(b);
      this.cur = b.preds.length ? b : null;
      if (this.cur) this.stmts(clauses[i].statements);
      if (this.cur && i + 1 < clauses.length) { this.fall = this.cur; this.cur = null; }
      else if (this.cur) this.jump(exit);
    }
    this.fall = null;
    this.ctl = this.ctl.slice(0, -1);
    this.seal(exit); this.cur = exit.preds.length ? exit : null;
  }
  isExhaustive(s) {
    try {
      const t = this.p.checker.getTypeAtLocation(s.expression);
      const parts = t.isUnion() ? t.types : [t];
      if (!parts.every((x) => x.isLiteral() || x.flags & (ts.TypeFlags.BooleanLiteral | ts.TypeFlags.Null | ts.TypeFlags.Undefined))) return false;
      const seen = new Set(s.caseBlock.clauses.filter(ts.isCaseClause).map((c) => this.p.checker.typeToString(this.p.checker.getTypeAtLocation(c.expression))));
      return parts.every((x) => seen.has(this.p.checker.typeToString(x)) || seen.has(this.p.checker.typeToString(this.p.checker.getBaseConstraintOfType?.(x) ?? x)));
    } catch { return false; }
  }
  tryStmt(s) {
    const outerExc = this.exc, outerCtl = this.ctl;
    const join = this.newBlock();
    const runFin = s.finallyBlock ? () => { this.hoist(s.finallyBlock, this.frame); this.stmts(s.finallyBlock.statements); } : null;
    let finExc = null;
    if (runFin) { finExc = this.newBlock(); finExc.isFinally = true; }
    const catchB = s.catchClause ? this.newBlock() : null;
    if (catchB) { catchB.isCatch = s.catchClause; }
    // try body
    if (runFin) this.ctl = [...this.ctl, { type: "finally", run: runFin, outerExc, ast: s }];
    this.exc = catchB ?? finExc;
    const body = this.newBlock(); this.jump(body); this.seal(body); this.cur = body;
    this.hoist(s.tryBlock, this.frame);
    this.stmts(s.tryBlock.statements);
    const afterTry = this.cur; this.cur = null;
    // catch
    let afterCatch = null;
    if (catchB) {
      this.seal(catchB);
      if (catchB.preds.length) {
        this.exc = runFin ? finExc : outerExc;
        this.cur = catchB;
        const ev = this.emit("CatchVal", [], { ast: s.catchClause, thrown: catchB.thrown ?? [] });
        if (s.catchClause.variableDeclaration) this.bindPattern(s.catchClause.variableDeclaration.name, ev, this.frame, s.catchClause.variableDeclaration);
        this.hoist(s.catchClause.block, this.frame);
        this.stmts(s.catchClause.block.statements);
        afterCatch = this.cur; this.cur = null;
      }
    }
    this.ctl = outerCtl; this.exc = outerExc;
    const ends = [afterTry, afterCatch].filter(Boolean);
    if (runFin) {
      const fin = this.newBlock();
      for (const e of ends) { this.cur = e; this.jump(fin); }
      this.seal(fin);
      if (fin.preds.length) { this.cur = fin; runFin(); this.jump(join); }
      this.seal(finExc);
      if (finExc.preds.length) {
        this.cur = finExc;
        const ev = this.emit("CatchVal", [], { ast: s, thrown: finExc.thrown ?? [], finallyOf: true });
        runFin();
        if (this.cur) this.throwValue(ev, s);
      }
    } else for (const e of ends) { this.cur = e; this.jump(join); }
    this.seal(join); this.cur = join.preds.length ? join : null;
  }

  // ---- conditions
  cond(e, t, f, awaited = false) {
    if (!this.cur) return;
    e = stripParens(e);
    if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) return this.cond(e.operand, f, t);
    if (ts.isBinaryExpression(e)) {
      const op = e.operatorToken.kind;
      if (op === K.AmpersandAmpersandToken) { const m = this.newBlock(); this.cond(e.left, m, f); this.seal(m); this.cur = m.preds.length ? m : null; return this.cond(e.right, t, f); }
      if (op === K.BarBarToken) { const m = this.newBlock(); this.cond(e.left, t, m); this.seal(m); this.cur = m.preds.length ? m : null; return this.cond(e.right, t, f); }
      if (op === K.CommaToken) { this.expr(e.left); return this.cond(e.right, t, f); }
    }
    if (ts.isConditionalExpression(e)) {
      const a = this.newBlock(), b = this.newBlock();
      this.cond(e.condition, a, b); this.seal(a); this.seal(b);
      this.cur = a.preds.length ? a : null; this.cond(e.whenTrue, t, f);
      this.cur = b.preds.length ? b : null; this.cond(e.whenFalse, t, f);
      return;
    }
    if (ts.isAwaitExpression(e)) { const inner = stripParens(e.expression); if (ts.isCallExpression(inner)) { const r = this.call(inner, { awaited: true, condTargets: { t, f } }); if (r === COND_DONE) return; const v = this.awaitVal(r, e); this.branch(v, t, f, e); return; } }
    if (ts.isCallExpression(e)) { const r = this.call(e, { awaited, condTargets: { t, f } }); if (r === COND_DONE) return; this.branch(r, t, f, e); return; }
    const v = this.expr(e, awaited);
    this.branch(v, t, f, e);
  }

  // ---- expressions
  expr(e, awaited = false, isStmt = false) {
    if (!this.cur) return new Value("Undef", []);
    const v = this.expr0(e, awaited, isStmt);
    return resolve(v);
  }
  foldOr(op, args, extra) {
    args = args.map(resolve);
    if (op === "Bin" && args[0].op === "Const" && args[1].op === "Const") {
      const r = foldBin(extra.operator, args[0].value, args[1].value);
      if (r !== undefined) return this.cst(r);
    }
    return this.emit(op, args, extra);
  }
  expr0(e, awaited, isStmt) {
    switch (e.kind) {
      case K.ParenthesizedExpression: case K.NonNullExpression: case K.AsExpression: case K.TypeAssertionExpression: case K.SatisfiesExpression: return this.expr(e.expression, awaited, isStmt);
      case K.NumericLiteral: case K.BigIntLiteral: case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: case K.TrueKeyword: case K.FalseKeyword: case K.NullKeyword: { const v = this.cst(this.p.constOf(e)); v.ast = e; return v; }
      case K.Identifier: return this.ident(e);
      case K.ThisKeyword: return this.thisVal();
      case K.SuperKeyword: return this.emit("Super", [], { ast: e });
      case K.PropertyAccessExpression: case K.ElementAccessExpression: return this.chain(e, { awaited });
      case K.CallExpression: return this.call(e, { awaited, isStmt });
      case K.NewExpression: return this.newExpr(e);
      case K.AwaitExpression: return this.awaitExpr(e);
      case K.YieldExpression: { const v = e.expression ? this.expr(e.expression) : this.cst(undefined); return this.mayThrow(this.emit("Yield", [v], { ast: e, star: !!e.asteriskToken })); }
      case K.ConditionalExpression: {
        const t = this.newBlock(), f = this.newBlock(), j = this.newBlock();
        this.cond(e.condition, t, f); this.seal(t); this.seal(f);
        const vals = [];
        this.cur = t.preds.length ? t : null; if (this.cur) { const v = this.expr(e.whenTrue, awaited); if (this.cur) { vals.push(v); this.jump(j); } }
        this.cur = f.preds.length ? f : null; if (this.cur) { const v = this.expr(e.whenFalse, awaited); if (this.cur) { vals.push(v); this.jump(j); } }
        this.seal(j); this.cur = j.preds.length ? j : null;
        return this.cur ? this.phiOf(j, vals, "cond") : new Value("Undef", []);
      }
      case K.PrefixUnaryExpression: case K.PostfixUnaryExpression: return this.unary(e);
      case K.TypeOfExpression: return this.emit("Un", [this.expr(e.expression)], { operator: "typeof", ast: e });
      case K.VoidExpression: this.expr(e.expression); return this.cst(undefined);
      case K.DeleteExpression: { const t = stripParens(e.expression); if (ts.isPropertyAccessExpression(t)) { const o = this.expr(t.expression); this.emit("DelProp", [o], { name: t.name.text, ast: e }); markMutated(o, t.name.text); } else if (ts.isElementAccessExpression(t)) { const o = this.expr(t.expression); const i = this.expr(t.argumentExpression); this.emit("DelElem", [o, i], { ast: e }); markMutated(o, "*"); } return this.cst(true); }
      case K.BinaryExpression: return this.binary(e, awaited, isStmt);
      case K.TemplateExpression: {
        const parts = [], args = [];
        parts.push(e.head.text);
        for (const sp of e.templateSpans) { args.push(this.expr(sp.expression)); parts.push(sp.literal.text); }
        if (!this.cur) return new Value("Undef", []);
        if (args.every((a) => a.op === "Const")) return this.cst(parts[0] + args.map((a, i) => String(a.value) + parts[i + 1]).join(""));
        return this.emit("Template", args, { parts, ast: e });
      }
      case K.TaggedTemplateExpression: return this.mayThrow(this.emit("Call", [], { ast: e, name: this.p.resolveCallee(e).name }));
      case K.ObjectLiteralExpression: return this.object(e, awaited);
      case K.ArrayLiteralExpression: {
        const args = e.elements.map((x) => ts.isSpreadElement(x) ? this.emitSafe("Spread", [this.expr(x.expression)], { ast: x }) : ts.isOmittedExpression(x) ? this.cst(undefined) : this.expr(x, awaited));
        if (!this.cur) return new Value("Undef", []);
        return this.emit("Array", args, { ast: e });
      }
      case K.ArrowFunction: case K.FunctionExpression: return this.emit("Closure", [], { fn: e, lexFrame: this.frame, ast: e });
      case K.RegularExpressionLiteral: return this.emit("Regex", [], { ast: e, name: e.text });
      case K.ClassExpression: return this.emit("Opaque", [], { ast: e });
      case K.SpreadElement: return this.emit("Spread", [this.expr(e.expression)], { ast: e });
      default: return this.emit("Opaque", [], { ast: e });
    }
  }
  emitSafe(op, args, extra) { return this.cur ? this.emit(op, args, extra) : new Value("Undef", []); }
  thisVal() {
    return this.frame.thisVal ?? this.emit("This", [], {});
  }
  ident(e) {
    if (e.text === "undefined") return this.cst(undefined);
    let sym = this.p.checker.getSymbolAtLocation(e);
    const v = sym && this.findVar(sym);
    if (v) return this.readVar(v);
    if (ts.isShorthandPropertyAssignment(e.parent) && e.parent.name === e) { const s2 = this.p.checker.getShorthandAssignmentValueSymbol(e.parent); const v2 = s2 && this.findVar(s2); if (v2) return this.readVar(v2); sym = s2 ?? sym; }
    const c = this.p.constOf(e);
    if (c !== undefined) { const k = this.cst(c); k.ast = e; return k; }
    const s = this.p.aliased(sym);
    const d = s?.valueDeclaration ?? s?.declarations?.[0];
    // captured const of a function that is not on the stack
    return this.emit("Global", [], { name: d ? this.p.declName(d) : e.text, decl: d, ast: e });
  }
  getProp(o, name, ast) {
    o = resolve(o);
    if (o.op === "Object" && !isMutated(o, name)) {
      for (let i = o.props.length - 1; i >= 0; i--) { const q = o.props[i]; if (q.spread || q.key === undefined) break; if (q.key === name) return resolve(q.value); if (i === 0) return this.cst(undefined); }
    }
    if (o.op === "Const" && typeof o.value === "string" && name === "length") return this.cst(o.value.length);
    if (o.op === "Array" && name === "length" && !o.args.some((a) => a.op === "Spread") && !o.mutated) return this.cst(o.args.length);
    const sym = ast && (ts.isPropertyAccessExpression(ast)) ? this.p.symbolOf(ast) : undefined;
    return this.emit("GetProp", [o], { name, ast, declName: sym ? this.p.declName(sym.valueDeclaration ?? sym.declarations?.[0]) : undefined });
  }
  getElem(o, i, ast) {
    o = resolve(o); i = resolve(i);
    if (o.op === "Array" && i.op === "Const" && typeof i.value === "number" && !o.mutated && !o.args.slice(0, i.value + 1).some((a) => a.op === "Spread") && i.value < o.args.length) return resolve(o.args[i.value]);
    if (i.op === "Const" && typeof i.value === "string") return this.getProp(o, i.value, ast);
    return this.emit("GetElem", [o, i], { ast });
  }
  /** property/element access chains incl. optional ones */
  chain(e, opts = {}) {
    // optional chain root?
    if (e.flags & ts.NodeFlags.OptionalChain) return this.optChain(e, opts);
    return this.access(e, opts);
  }
  access(e, opts, base) {
    if (ts.isPropertyAccessExpression(e)) {
      if (!base) {
        const c = this.p.constOf(e);
        if (c !== undefined) { const k = this.cst(c); k.ast = e; return k; }
        // namespaces / static / module members
        const s = this.p.checker.getSymbolAtLocation(e.expression);
        if (s) { const a = this.p.aliased(s); if (a && (a.flags & (ts.SymbolFlags.ValueModule | ts.SymbolFlags.NamespaceModule)) && !this.findVar(s)) { const d = this.p.symbolOf(e); const dd = d?.valueDeclaration ?? d?.declarations?.[0]; return this.emit("Global", [], { name: dd ? this.p.declName(dd) : e.getText(), decl: dd, ast: e }); } }
      }
      const o = base ?? this.expr(e.expression);
      if (!this.cur) return o;
      const sym = this.p.symbolOf(e);
      const getter = sym?.declarations?.find((d) => ts.isGetAccessor(d) && d.body);
      if (getter && this.shouldInline(getter, e)) return this.inlineCall(getter, o, [], e, { awaited: opts.awaited });
      return this.getProp(o, e.name.text, e);
    }
    const o = base ?? this.expr(e.expression);
    const i = this.expr(e.argumentExpression);
    if (!this.cur) return o;
    return this.getElem(o, i, e);
  }
  optChain(e, opts) {
    // collect links from the root of this optional chain
    const nullB = this.newBlock(), j = this.newBlock();
    const v = this.optLink(e, nullB, opts);
    const vals = [];
    if (this.cur) { vals.push(v); this.jump(j); }
    this.seal(nullB);
    if (nullB.preds.length) { this.cur = nullB; vals.push(this.cst(undefined)); this.jump(j); }
    this.seal(j); this.cur = j.preds.length ? j : null;
    return this.cur ? this.phiOf(j, vals, "optchain") : new Value("Undef", []);
  }
  optLink(e, nullB, opts = {}) {
    // e is part of an optional chain: lower its object, test at ?. tokens
    const lowerObj = (x) => { const y = x; if ((ts.isPropertyAccessExpression(y) || ts.isElementAccessExpression(y) || ts.isCallExpression(y)) && (y.flags & ts.NodeFlags.OptionalChain)) return this.optLink(y, nullB); if (ts.isNonNullExpression(y) && (y.flags & ts.NodeFlags.OptionalChain)) return this.optLink(y.expression, nullB); return this.expr(y); };
    const test = (o) => {
      if (!this.cur) return;
      if (neverNullish(o)) return;
      const n = this.newBlock();
      const c = this.foldOr("Bin", [o, this.cst(null)], { operator: "==", ast: e, optional: true });
      this.branch(c, nullB, n, e); this.seal(n); this.cur = n.preds.length ? n : null;
    };
    if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) {
      const o = lowerObj(e.expression);
      if (e.questionDotToken) test(o);
      if (!this.cur) return o;
      return this.access(e, opts, o);
    }
    // call
    const callee = e.expression;
    let recv, fnv;
    const c2 = callee;
    if ((ts.isPropertyAccessExpression(c2) || ts.isElementAccessExpression(c2))) {
      recv = lowerObj(c2.expression);
      if (c2.questionDotToken) test(recv);
      if (!this.cur) return recv;
      if (e.questionDotToken) {
        const f = this.access(c2, {}, recv); test(f); fnv = f;
        if (!this.cur) return f;
      }
    } else { fnv = lowerObj(c2); if (e.questionDotToken) test(fnv); if (!this.cur) return fnv; }
    return this.callWith(e, recv, fnv, opts);
  }

  unary(e) {
    const op = e.operator;
    if (op === K.PlusPlusToken || op === K.MinusMinusToken) {
      const old = this.expr(e.operand);
      const isBig = this.isBigInt(e.operand);
      const nv = this.foldOr("Bin", [old, this.cst(isBig ? 1n : 1)], { operator: op === K.PlusPlusToken ? "+" : "-", ast: e });
      this.assignPattern(e.operand, nv);
      return ts.isPrefixUnaryExpression(e) ? nv : old;
    }
    const c = this.p.constOf(e); if (c !== undefined) return this.cst(c);
    const o = ts.tokenToString(op);
    if (o === "+" && this.isBool(e.operand)) return this.asNumber(e.operand);
    const v = this.expr(e.operand);
    if (!this.cur) return v;
    if (o === "!") {
      if (v.op === "Const") return this.cst(!v.value);
    }
    return this.emit("Un", [v], { operator: o, ast: e });
  }
  isBool(e) { try { return !!(this.p.checker.getTypeAtLocation(e).flags & ts.TypeFlags.BooleanLike); } catch { return false; } }
  /** a boolean made a number: the same as choosing between 1 and 0 */
  asNumber(e) {
    const t = this.newBlock(), f = this.newBlock(), j = this.newBlock();
    this.cond(e, t, f); this.seal(t); this.seal(f);
    const vals = [];
    for (const [b, k] of [[t, 1], [f, 0]]) { this.cur = b.preds.length ? b : null; if (this.cur) { vals.push(this.cst(k)); this.jump(j); } }
    this.seal(j); this.cur = j.preds.length ? j : null;
    return this.cur ? this.phiOf(j, vals, "cond") : new Value("Undef", []);
  }
  isBigInt(e) { try { return !!(this.p.checker.getTypeAtLocation(e).flags & ts.TypeFlags.BigIntLike); } catch { return false; } }
  binary(e, awaited, isStmt) {
    const k = e.operatorToken.kind;
    if (k === K.EqualsToken) { const v = this.expr(e.right, false); if (this.cur) this.assignPattern(e.left, v); return v; }
    if (k === K.CommaToken) { this.expr(e.left, false, true); return this.expr(e.right, awaited); }
    if (k === K.AmpersandAmpersandToken || k === K.BarBarToken || k === K.QuestionQuestionToken) return this.logical(e, k, awaited);
    if (k === K.AmpersandAmpersandEqualsToken || k === K.BarBarEqualsToken || k === K.QuestionQuestionEqualsToken) {
      const l = this.expr(e.left);
      if (!this.cur) return l;
      const rhs = this.newBlock(), j = this.newBlock(), keep = this.newBlock();
      if (k === K.QuestionQuestionEqualsToken) { if (neverNullish(l)) return l; const c = this.foldOr("Bin", [l, this.cst(null)], { operator: "==", ast: e }); this.branch(c, rhs, keep, e); }
      else if (k === K.BarBarEqualsToken) this.branch(l, keep, rhs, e); else this.branch(l, rhs, keep, e);
      this.seal(rhs); this.seal(keep);
      const vals = [];
      this.cur = rhs.preds.length ? rhs : null; if (this.cur) { const v = this.expr(e.right); if (this.cur) { this.assignPattern(e.left, v); vals.push(v); this.jump(j); } }
      this.cur = keep.preds.length ? keep : null; if (this.cur) { vals.push(l); this.jump(j); }
      this.seal(j); this.cur = j.preds.length ? j : null;
      return this.cur ? this.phiOf(j, vals, "logassign") : new Value("Undef", []);
    }
    if (k >= K.FirstCompoundAssignment && k <= K.LastCompoundAssignment) {
      const op = ts.tokenToString(k).slice(0, -1);
      const l = this.expr(e.left), r = this.expr(e.right);
      if (!this.cur) return l;
      const v = this.foldOr("Bin", [l, r], { operator: op, ast: e });
      this.assignPattern(e.left, v);
      return v;
    }
    const l = this.expr(e.left), r = this.expr(e.right);
    if (!this.cur) return l;
    let op = ts.tokenToString(k);
    return this.foldOr("Bin", [l, r], { operator: op, ast: e });
  }
  logical(e, k, awaited) {
    const l = this.expr(e.left);
    if (!this.cur) return l;
    if (k === K.QuestionQuestionToken && neverNullish(l)) return l;
    if (l.op === "Const") {
      if (k === K.AmpersandAmpersandToken) return l.value ? this.expr(e.right, awaited) : l;
      if (k === K.BarBarToken) return l.value ? l : this.expr(e.right, awaited);
      if (k === K.QuestionQuestionToken) return l.value == null ? this.expr(e.right, awaited) : l;
    }
    const rb = this.newBlock(), kb = this.newBlock(), j = this.newBlock();
    if (k === K.QuestionQuestionToken) { const c = this.foldOr("Bin", [l, this.cst(null)], { operator: "==", ast: e }); this.branch(c, rb, kb, e); }
    else if (k === K.AmpersandAmpersandToken) this.branch(l, rb, kb, e);
    else this.branch(l, kb, rb, e);
    this.seal(rb); this.seal(kb);
    const vals = [];
    this.cur = kb.preds.length ? kb : null; if (this.cur) { vals.push(l); this.jump(j); }
    this.cur = rb.preds.length ? rb : null; if (this.cur) { const v = this.expr(e.right, awaited); if (this.cur) { vals.push(v); this.jump(j); } }
    this.seal(j); this.cur = j.preds.length ? j : null;
    return this.cur ? this.phiOf(j, vals, "logical:" + ts.tokenToString(k)) : new Value("Undef", []);
  }
  object(e, awaited) {
    const props = [];
    for (const pr of e.properties) {
      if (!this.cur) break;
      if (ts.isSpreadAssignment(pr)) {
        const v = this.expr(pr.expression);
        if (v.op === "Object" && !v.mutated && !v.mutatedProps) { for (const q of v.props) props.push({ ...q }); }
        else props.push({ spread: true, value: v, ast: pr });
      } else if (ts.isPropertyAssignment(pr)) {
        let key, kv;
        if (ts.isComputedPropertyName(pr.name)) { kv = this.expr(pr.name.expression); key = kv.op === "Const" ? String(kv.value) : undefined; }
        else key = pr.name.text ?? pr.name.getText();
        props.push({ key, keyValue: kv, value: this.expr(pr.initializer, awaited), ast: pr });
      } else if (ts.isShorthandPropertyAssignment(pr)) {
        props.push({ key: pr.name.text, value: this.ident(pr.name), ast: pr });
      } else if (ts.isMethodDeclaration(pr) || ts.isGetAccessor(pr) || ts.isSetAccessor(pr)) {
        props.push({ key: pr.name.text ?? pr.name.getText(), value: this.emit("Closure", [], { fn: pr, lexFrame: this.frame, ast: pr }), ast: pr });
      }
    }
    if (!this.cur) return new Value("Undef", []);
    for (const q of props) q.value = resolve(q.value);
    return this.emit("Object", props.map((q) => q.value), { props, ast: e });
  }
  newExpr(e) {
    let ctorValue; // a constructor chosen at run time
    { const d0 = this.p.symbolOf(e.expression)?.valueDeclaration; if (ts.isElementAccessExpression(e.expression) || d0 && (ts.isVariableDeclaration(d0) || ts.isParameter(d0) || ts.isBindingElement(d0))  && this.p.isRepo(d0)) ctorValue = this.expr(e.expression); }
    const args = (e.arguments ?? []).map((a) => this.expr(a));
    if (!this.cur) return new Value("Undef", []);
    const s = this.p.symbolOf(e.expression);
    const d = s?.valueDeclaration ?? s?.declarations?.[0];
    const name = d ? this.p.declName(d) : e.expression.getText();
    const v = this.emit("New", args, { name, decl: d, ast: e, cls: s?.name ?? e.expression.getText(), ctorValue });
    const safe = ["Map", "Set", "WeakMap", "WeakSet", "Array", "Date", "Uint8Array", "AbortController", "Error", "TypeError", "Promise", "DataView"].includes(v.cls) || this.isErrorClass(d);
    // new Promise(executor): the executor runs synchronously
    if (v.cls === "Promise" && v.args.length === 1 && resolve(v.args[0]).op === "Closure") this.inlineExecutor(v, resolve(v.args[0]), e);
    return safe || this.policy.nothrow?.(name, v) === true ? v : this.mayThrow(v);
  }
  inlineExecutor(promise, clo, e) {
    const res = this.emit("Resolver", [promise], { which: "resolve", ast: e, name: "resolve" });
    const rej = this.emit("Resolver", [promise], { which: "reject", ast: e, name: "reject" });
    const outer = this.exc, ctl = this.ctl, failed = this.newBlock(), join = this.newBlock();
    this.exc = failed;
    this.inlineCall(clo.fn, clo.lexFrame?.thisVal, [res, rej], e, { lexFrame: clo.lexFrame });
    this.exc = outer; this.ctl = ctl;
    this.jump(join);
    this.seal(failed);
    if (failed.preds.length) { this.cur = failed; this.emit("CatchVal", [], { ast: e, thrown: [], executor: true }); this.jump(join); }
    this.seal(join); this.cur = join.preds.length ? join : null;
    if (!this.cur) { const b = this.newBlock(); b.sealed = true; this.cur = b; }
  }
  isErrorClass(d) {
    if (!d || !ts.isClassDeclaration(d)) return false;
    for (let i = 0; d && i < 6; i++) {
      const h = d.heritageClauses?.find((c) => c.token === K.ExtendsKeyword)?.types[0];
      if (!h) return false;
      if (h.expression.getText() === "Error") return true;
      d = this.p.symbolOf(h.expression)?.valueDeclaration;
      if (d && !ts.isClassDeclaration(d)) return false;
    }
    return false;
  }
  awaitVal(v, e) { if (!this.cur) return v; return this.mayThrow(this.emit("Await", [v], { ast: e })); }
  awaitExpr(e) {
    const inner = stripParens(e.expression);
    const v = this.expr(inner, true);
    if (!this.cur) return v;
    // the failure of an inlined callee already has its own edges; the await of its value does not throw again
    if (v.awaitDone) return v;
    if (v.fromInline) { const a = this.emit("Await", [v], { ast: e, inlined: true }); return a; }
    return this.awaitVal(v, e);
  }

  // ---- calls
  call(e, opts = {}) {
    if (e.flags & ts.NodeFlags.OptionalChain) return this.optChain(e, opts);
    const callee = stripParens(e.expression);
    if (ts.isIdentifier(callee) && callee.text === "Number" && e.arguments.length === 1 && this.isBool(e.arguments[0]) && !this.p.isRepo(this.p.symbolOf(callee)?.valueDeclaration ?? e.arguments[0])) return this.asNumber(e.arguments[0]);
    // promise chains in awaited position
    if (opts.awaited && ts.isPropertyAccessExpression(callee) && ["then", "catch", "finally"].includes(callee.name.text) && this.isPromise(callee.expression)) return this.promiseChain(e, callee, opts);
    if (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) {
      if (callee.kind === K.PropertyAccessExpression && stripParens(callee.expression).kind === K.SuperKeyword) return this.callWith(e, this.emit("Super", [], {}), undefined, opts);
      const s = this.p.checker.getSymbolAtLocation(callee.expression);
      const a = s && this.p.aliased(s);
      const isNs = a && (a.flags & (ts.SymbolFlags.ValueModule | ts.SymbolFlags.NamespaceModule)) && !this.findVar(s);
      const recv = isNs ? undefined : this.expr(callee.expression);
      if (!this.cur) return recv ?? new Value("Undef", []);
      let fnv;
      if (ts.isElementAccessExpression(callee)) { const i = this.expr(callee.argumentExpression); if (!this.cur) return i; fnv = this.emit("GetElem", [recv, i], { ast: callee }); }
      return this.callWith(e, recv, fnv, opts);
    }
    const fnv = this.expr(callee);
    if (!this.cur) return fnv;
    return this.callWith(e, undefined, fnv, opts);
  }
  isPromise(e) { try { const t = this.p.checker.getTypeAtLocation(e); return /^Promise(Like)?$/.test(t.symbol?.name ?? "") || (t.isUnion() && t.types.some((x) => x.symbol?.name === "Promise")); } catch { return false; } }
  /** function value known statically: closure, or .bind() of one, or a reference to a repo function */
  knownFn(v) {
    v = resolve(v);
    if (v.op === "Closure") return { fn: v.fn, lexFrame: v.lexFrame, thisVal: v.lexFrame?.thisVal };
    if (v.op === "Global" && v.decl) { const fn = this.p.functionOfDecl(v.decl); if (fn) return { fn, thisVal: undefined }; }
    if (v.op === "Call" && v.method === "bind" && v.recv) { const k = this.knownFn(v.recv); if (k) return { ...k, thisVal: v.args[1] ?? v.args[0] }; }
    if (v.op === "GetProp" && v.ast && ts.isPropertyAccessExpression(v.ast)) { const r = this.p.resolveFunctionRef(v.ast); if (r.fn) return { fn: r.fn, thisVal: v.args[0] }; }
    return undefined;
  }
  callWith(e, recv, fnv, opts) {
    const callee = stripParens(e.expression);
    const r = this.p.resolveCallee(e);
    const method = ts.isPropertyAccessExpression(callee) ? callee.name.text : undefined;
    // const-object / static / namespace alias resolved by symbol; local closures by value
    let target = null;
    if (fnv) { const k = this.knownFn(fnv); if (k) target = k; }
    if (!target && r.fn) target = { fn: r.fn, thisVal: recv };
    // array callbacks
    if (method && ARRAY_CB.has(method) && recv && e.arguments.length >= 1 && this.isArrayLike(callee.expression)) {
      const res = this.arrayCallback(e, recv, method, opts);
      if (res !== undefined) return res;
    }
    // Promise.all in awaited position
    if (opts.awaited && r.name === "lib#PromiseConstructor.all" && e.arguments.length === 1) {
      const arg = stripParens(e.arguments[0]);
      const v = ts.isArrayLiteralExpression(arg) ? this.expr(arg, true) : this.expr(arg, true);
      if (!this.cur) return v;
      if (v.op === "Array") { const vals = v.args.map((x) => this.needsAwait(x) ? this.awaitVal(x, e) : x); const a = this.emit("Array", vals, { ast: e }); a.fromInline = true; return a; }
      if (v.op === "MapResult") { v.fromInline = true; return v; }
      const c = this.emit("Call", [v], { ast: e, name: r.name, method, recv: undefined });
      return c;
    }
    // arguments
    const args = [];
    for (const a of e.arguments) { if (ts.isSpreadElement(a)) args.push(this.emitSafe("Spread", [this.expr(a.expression)], { ast: a })); else args.push(this.expr(a)); if (!this.cur) return new Value("Undef", []); }
    if (target && !args.some((a) => a.op === "Spread") && this.shouldInline(target.fn, e, args)) {
      const asyncFn = isAsyncFn(target.fn);
      if (!asyncFn || opts.awaited) {
        const v = this.inlineCall(target.fn, target.thisVal ?? recv, args, e, { awaited: opts.awaited, lexFrame: target.lexFrame, condTargets: opts.condTargets && (!asyncFn || opts.awaited) ? opts.condTargets : undefined });
        if (opts.condTargets) return COND_DONE;
        if (v && v.op !== "Undef" && opts.awaited && (asyncFn || this.needsNoAwait(v))) { return markInline(this, v); }
        return v;
      }
    }
    const v = this.emit("Call", recv ? [recv, ...args] : args, { ast: e, name: r.name ?? this.calleeText(callee), method: method ?? (ts.isIdentifier(callee) ? callee.text : undefined), recv, callArgs: args, fnValue: fnv, decl: r.decl, spawned: target && isAsyncFn(target.fn) && !opts.awaited, targetFn: target?.fn, awaitedPos: !!opts.awaited });
    if (recv && MUTATORS.has(method)) markMutated(recv, "*");
    for (const a of args) { if (a.op === "Object" || a.op === "Array") { /* callee may mutate: ignored for literals passed by value */ } }
    const rt = r.decl?.type; // a function declared to return never does not come back
    if (rt && rt.kind === K.NeverKeyword) {
      v.neverReturns = true;
      this.throwValue(v, e);
      this.cur = this.newBlock(); this.cur.sealed = true; this.cur.dead = true;
      return v;
    }
    if (this.isNoThrow(v, e)) return v;
    return this.mayThrow(v);
  }
  needsAwait(v) { v = resolve(v); return (v.op === "Call" || v.op === "GetProp" || v.op === "Phi" || v.op === "Load") && !v.fromInline; }
  needsNoAwait(v, seen = new Set()) { v = resolve(v); if (seen.has(v)) return true; seen.add(v); if (v.op === "Phi") return v.args.every((a) => this.needsNoAwait(a, seen)); return v.op !== "Call" || !!v.fromInline; }
  calleeText(c) { return "?" + c.getText().replace(/\s+/g, "").slice(0, 60); }
  isNoThrow(v, e) {
    const n = v.name ?? "";
    if (this.policy.nothrow) { const r = this.policy.nothrow(n, v); if (r !== undefined) return r; }
    if (/utilities\/\d_logger\.ts#/.test(n)) return true;
    if (n === "utilities/0_misc.ts#drop") return true;
    if (v.targetFn && isAsyncFn(v.targetFn)) return true; // rejection surfaces at the await
    if (v.targetFn && !this.p.mayThrow(v.targetFn)) return true;
    return !callMayThrow(this.p, e, 0, n, v.decl);
  }
  returnsPromise(e) { try { const t = this.p.checker.getTypeAtLocation(e); return t.symbol?.name === "Promise"; } catch { return false; } }
  isArrayLike(e) {
    try {
      const t = this.p.checker.getTypeAtLocation(e); const n = t.symbol?.name ?? "";
      if (/^(Array|ReadonlyArray|Uint8Array|Uint8ClampedArray|Int32Array|Set|Map|ReadonlySet|IteratorObject|MapIterator|SetIterator|ArrayIterator)$/.test(n) || this.p.checker.isArrayType(t) || this.p.checker.isTupleType(t)) return true;
      if (t.isUnion()) return t.types.every((x) => this.p.checker.isArrayType(x) || this.p.checker.isTupleType(x) || (x.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null)));
    } catch { /* */ }
    return false;
  }
  arrayCallback(e, recv, method, opts) {
    if (method === "sort" || method === "toSorted") return undefined;
    const cbNode = stripParens(e.arguments[0]);
    let k;
    const cbv = this.expr(cbNode);
    k = this.knownFn(cbv);
    if (!k || isGenerator(k.fn) || this.frame.depth >= this.maxDepth + 2) { return this.opaqueCb(e, recv, method, cbv); }
    for (let f = this.frame; f; f = f.parent) if (f.fn === k.fn) return this.opaqueCb(e, recv, method, cbv);
    if (cbv.op !== "Closure" && !this.shouldInline(k.fn, e)) return this.opaqueCb(e, recv, method, cbv);
    const asyncCb = isAsyncFn(k.fn);
    if (asyncCb && !(opts.awaited && method === "map")) return this.opaqueCb(e, recv, method, cbv);
    const src = recv;
    const init = (method === "reduce" || method === "reduceRight") ? (e.arguments[1] ? this.expr(e.arguments[1]) : this.emit("IterElem", [src], { ast: e })) : undefined;
    const head = this.newBlock(), body = this.newBlock(), exit = this.newBlock();
    head.loopHead = e;
    let accVar;
    if (init) { accVar = new Var("acc", null, this.frame); this.writeVar(accVar, init); }
    this.jump(head); this.cur = head;
    const has = this.emit("IterHas", [src], { ast: e, callback: method });
    this.branch(has, body, exit, e); this.seal(body); this.cur = body;
    const el = this.emit("IterElem", [src], { ast: e, callback: method });
    const idx = this.emit("IterIndex", [src], { ast: e });
    const args = init ? [this.readVar(accVar), el, idx, src] : [el, idx, src];
    const ct = opts.condTargets;
    if ((method === "some" || method === "every")) {
      let T = ct?.t, F = ct?.f; const own = !ct;
      if (own) { T = this.newBlock(); F = this.newBlock(); }
      const next = this.newBlock();
      this.inlineCall(k.fn, k.thisVal, args, e, { lexFrame: k.lexFrame, condTargets: method === "some" ? { t: T, f: next } : { t: next, f: F } });
      this.seal(next); this.cur = next.preds.length ? next : null; this.jump(head); this.seal(head);
      this.seal(exit); this.cur = exit.preds.length ? exit : null;
      this.jump(method === "some" ? F : T);
      if (!own) return COND_DONE;
      this.seal(T); this.seal(F);
      const j = this.newBlock(), vals = [];
      if (T.preds.length) { this.cur = T; vals.push(this.cst(true)); this.jump(j); }
      if (F.preds.length) { this.cur = F; vals.push(this.cst(false)); this.jump(j); }
      this.seal(j); this.cur = j;
      const ph = this.phiOf(j, vals, method); ph.quant = { method, src, fn: k.fn };
      return ph;
    }
    const rv = this.inlineCall(k.fn, k.thisVal, args, e, { lexFrame: k.lexFrame, awaited: asyncCb });
    let result;
    if (this.cur) {
      if (accVar) this.writeVar(accVar, rv);
      if (method === "map" || method === "flatMap") { this.emit("MapItem", [src, rv], { ast: e }); }
      if (method === "filter" || method === "find" || method === "findIndex" || method === "findLast") this.emit("FilterItem", [src, rv], { ast: e });
      this.jump(head);
    }
    this.seal(head); this.seal(exit); this.cur = exit.preds.length ? exit : null;
    if (!this.cur) return new Value("Undef", []);
    if (accVar) return this.readVar(accVar);
    if (method === "map" || method === "flatMap") { result = this.emit("MapResult", [src, rv], { ast: e, method }); }
    else if (method === "filter") result = this.emit("FilterResult", [src, rv], { ast: e, fn: k.fn });
    else if (method === "forEach") return this.cst(undefined);
    else result = this.emit("FindResult", [src, rv], { ast: e, method, fn: k.fn });
    return result;
  }
  opaqueCb(e, recv, method, cbv) {
    const rest = e.arguments.slice(1).map((a) => this.expr(a));
    if (!this.cur) return new Value("Undef", []);
    const r = this.p.resolveCallee(e);
    const v = this.emit("Call", [recv, cbv, ...rest], { ast: e, name: r.name ?? "?" + method, method, recv, callArgs: [cbv, ...rest] });
    return this.mayThrow(v);
  }
  promiseChain(e, callee, opts) {
    const m = callee.name.text;
    const cbs = e.arguments.map((a) => stripParens(a));
    const outerExc = this.exc, outerCtl = this.ctl;
    const callCb = (node, args) => {
      const cv = this.expr(node);
      const k = this.knownFn(cv);
      if (k && (cv.op === "Closure" || this.shouldInline(k.fn, e))) { const v = this.inlineCall(k.fn, k.thisVal, args, e, { lexFrame: k.lexFrame, awaited: true }); if (this.cur && this.needsAwait(v)) return this.awaitVal(v, e); return v; }
      return this.cur ? this.awaitVal(this.mayThrow(this.emit("Call", args, { ast: e, name: "?" + node.getText().slice(0, 40), callArgs: args, fnValue: cv })), e) : cv;
    };
    if (m === "then") {
      const hasRej = cbs.length > 1;
      let catchB, vals = [];
      const j = this.newBlock();
      if (hasRej) { catchB = this.newBlock(); this.exc = catchB; }
      let v = this.expr(callee.expression, true);
      if (this.cur && this.needsAwait(v)) v = this.awaitVal(v, e);
      this.exc = outerExc;
      if (this.cur && cbs[0] && cbs[0].kind !== K.NullKeyword && !(ts.isIdentifier(cbs[0]) && cbs[0].text === "undefined")) v = callCb(cbs[0], [v]);
      if (this.cur) { vals.push(v); this.jump(j); }
      if (hasRej) { this.seal(catchB); if (catchB.preds.length) { this.cur = catchB; const ev = this.emit("CatchVal", [], { ast: e, thrown: [] }); const r = callCb(cbs[1], [ev]); if (this.cur) { vals.push(r); this.jump(j); } } }
      this.seal(j); this.cur = j.preds.length ? j : null;
      return this.cur ? markInline(this, this.phiOf(j, vals, "then")) : new Value("Undef", []);
    }
    if (m === "catch") {
      const catchB = this.newBlock(), j = this.newBlock(), vals = [];
      this.exc = catchB;
      let v = this.expr(callee.expression, true);
      if (this.cur && this.needsAwait(v)) v = this.awaitVal(v, e);
      if (this.cur) { vals.push(v); this.jump(j); }
      this.exc = outerExc;
      this.seal(catchB);
      if (catchB.preds.length) { this.cur = catchB; const ev = this.emit("CatchVal", [], { ast: e, thrown: [] }); const r = callCb(cbs[0], [ev]); if (this.cur) { vals.push(r); this.jump(j); } }
      this.seal(j); this.cur = j.preds.length ? j : null;
      return this.cur ? markInline(this, this.phiOf(j, vals, "catch")) : new Value("Undef", []);
    }
    // finally
    const finExc = this.newBlock();
    this.exc = finExc;
    let v = this.expr(callee.expression, true);
    if (this.cur && this.needsAwait(v)) v = this.awaitVal(v, e);
    this.exc = outerExc;
    const normal = this.cur;
    this.seal(finExc);
    if (finExc.preds.length) { this.cur = finExc; const ev = this.emit("CatchVal", [], { ast: e, thrown: [] }); callCb(cbs[0], []); if (this.cur) this.throwValue(ev, e); }
    this.cur = normal;
    if (this.cur) callCb(cbs[0], []);
    return this.cur ? markInline(this, v) : v;
  }
}
/** may a call that is not looked into throw synchronously? */
function callMayThrow(p, e, depth = 0, name, decl) {
  if (name === undefined) {
    const r = p.resolveCallee(e);
    if (r.fn) { if (isAsyncFn(r.fn) || isGenerator(r.fn)) return false; return p.mayThrow(r.fn, depth + 1); }
    name = r.name ?? ""; decl = r.decl;
    if (/utilities\/\d_logger\.ts#/.test(name)) return false;
  }
  const n = name;
  if (n.startsWith("lib#")) {
    if (LIB_THROWING.has(n)) return true;
    const m = n.slice(4).split(".");
    if (m.length > 1 && LIB_NOTHROW.has(m[0])) return false;
    if (m.length === 1 && LIB_NOTHROW_FN.has(m[0])) return false;
    if (/^(Uint8Array|ArrayBuffer|TypedArray)/.test(m[0]) && ["subarray", "slice", "fill", "every", "some", "map", "indexOf"].includes(m[1])) return false;
    if (m[0] === "Promise") return false;
  }
  if (/^deps:std\/(cache|bytes)\//.test(n)) return false;
  let promise = false; try { promise = p.checker.getTypeAtLocation(e).symbol?.name === "Promise"; } catch { /* */ }
  if (promise && decl && (ts.isMethodSignature(decl) || ts.isPropertySignature(decl) || !p.isRepo(decl) || decl.body === undefined)) return false; // failure surfaces at the await
  return true;
}
const COND_DONE = { condDone: true };
const MUTATORS = new Set(["push", "pop", "shift", "unshift", "splice", "set", "fill", "sort", "reverse", "copyWithin", "add", "delete", "clear"]);
function markInline(l, v) { v = resolve(v); if (v.op === "Const" || v.op === "Param" || v.op === "Phi" || v.op === "GetProp" || v.op === "This" || v.op === "Global") { const a = l.emit("Id", [v], {}); a.fromInline = true; return a; } v.fromInline = true; return v; }
function isMutated(o, name) { return o.mutated || o.mutatedProps?.has(name); }
function markMutated(o, name) { o = resolve(o); if (name === "*") o.mutated = true; else (o.mutatedProps ??= new Set()).add(name); }
function alwaysTruthy(v) { return v.op === "Object" || v.op === "Array" || v.op === "Closure" || v.op === "New" || v.op === "Regex"; }
function neverNullish(v) { v = resolve(v); return alwaysTruthy(v) || v.op === "This" || v.op === "Template" || v.op === "MapResult" || (v.op === "Const" && v.value != null); }
function isWrite(n) {
  const q = n.parent;
  if (ts.isBinaryExpression(q) && q.left === n && q.operatorToken.kind >= K.FirstAssignment && q.operatorToken.kind <= K.LastAssignment) return true;
  if ((ts.isPrefixUnaryExpression(q) || ts.isPostfixUnaryExpression(q)) && (q.operator === K.PlusPlusToken || q.operator === K.MinusMinusToken)) return true;
  if (ts.isArrayLiteralExpression(q) || ts.isShorthandPropertyAssignment(q) || (ts.isPropertyAssignment(q) && q.initializer === n)) {
    // destructuring assignment
    let m = q; while (m && (ts.isArrayLiteralExpression(m) || ts.isObjectLiteralExpression(m) || ts.isPropertyAssignment(m) || ts.isShorthandPropertyAssignment(m) || ts.isParenthesizedExpression(m))) { const z = m.parent; if (z && ts.isBinaryExpression(z) && z.left === m && z.operatorToken.kind === K.EqualsToken) return true; if (z && ts.isForOfStatement(z) && z.initializer === m) return true; m = z; }
  }
  if (ts.isForOfStatement(q) && q.initializer === n) return true;
  return false;
}
function succs(b) {
  const t = b.term; if (!t) return [];
  switch (t.kind) {
    case "jump": return [t.to];
    case "branch": return [t.t, t.f];
    case "invoke": return [t.normal, t.exc];
    case "throw": return [t.exc];
    default: return [];
  }
}
const NEVER_INLINE = /^(utilities\/\d_logger\.ts|utilities\/0_color|tl\/|types\/|deps:|lib#)/;
/** follows every repository function except the wire codecs, primitives and loggers */
const DEEP = { inline: (name) => name === undefined ? undefined : NEVER_INLINE.test(name) || /^utilities\/(0_hash|0_int|0_misc|0_gzip|1_math|0_text|1_base64)|^storage\/|^0_deps/.test(name) ? false : true };
function defaultInline(name, fn, frame, root) {
  if (!name) return true;
  if (NEVER_INLINE.test(name)) return false;
  return undefined ?? (fn.getSourceFile() === root.getSourceFile() || fn.getSourceFile() === frame.fn.getSourceFile());
}

module.exports = { DEEP, callMayThrow, Lowerer, resolve, succs, isAsyncFn, stripParens, Value };
