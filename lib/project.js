"use strict";
// Loads /repo with the TypeScript compiler API. Nothing of /repo is executed.
const fs = require("fs"), path = require("path");
const TS_DIR = process.env.VERIF_TS || "/opt/veriftools/node/node_modules/typescript";
const ts = require(TS_DIR);
const REPO = process.env.VERIF_REPO || "/repo";
const IMPORT_MAP = "/opt/mtkruto-deps/import_map.json";

function listSources(dir = REPO, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    if (e.name === ".git" || e.name === "node_modules" || e.name === "dist") continue;
    const f = path.join(dir, e.name);
    if (e.isDirectory()) listSources(f, out);
    else if (e.name.endsWith(".ts") && !e.name.endsWith("_test.ts") && !e.name.endsWith(".d.ts")) out.push(f);
  }
  return out.sort();
}

class Project {
  constructor() {
    const map = JSON.parse(fs.readFileSync(IMPORT_MAP, "utf8")).imports;
    const mapDir = path.dirname(IMPORT_MAP);
    this.files = listSources();
    const options = {
      target: ts.ScriptTarget.ESNext, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler,
      allowImportingTsExtensions: true, noEmit: true, strict: true, skipLibCheck: true, types: [],
      lib: ["lib.esnext.d.ts", "lib.dom.d.ts", "lib.dom.iterable.d.ts", "lib.dom.asynciterable.d.ts"],
    };
    const host = ts.createCompilerHost(options, true);
    const cache = new Map();
    host.resolveModuleNameLiterals = (lits, containing) => lits.map((lit) => {
      const name = lit.text;
      const key = containing + "\0" + name;
      if (cache.has(key)) return cache.get(key);
      let file;
      if (map[name]) file = path.resolve(mapDir, map[name]);
      else if (name.startsWith(".") || name.startsWith("/")) file = path.resolve(path.dirname(containing), name);
      else {
        // imports inside vendored packages: longest prefix of the map
        file = undefined;
      }
      let r = { resolvedModule: undefined };
      if (file && fs.existsSync(file)) {
        r = { resolvedModule: { resolvedFileName: file, extension: file.endsWith(".d.ts") ? ".d.ts" : ".ts", isExternalLibraryImport: !file.startsWith(REPO + "/") } };
      }
      cache.set(key, r);
      return r;
    });
    this.program = ts.createProgram({ rootNames: this.files, options, host });
    this.checker = this.program.getTypeChecker();
    this.sourceFiles = this.program.getSourceFiles().filter((f) => f.fileName.startsWith(REPO + "/"));
    this._rel = new Map(this.sourceFiles.map((f) => [f, path.relative(REPO, f.fileName)]));
    this.byName = new Map(this.sourceFiles.map((f) => [path.relative(REPO, f.fileName), f]));
    this._fnIndex = null;
  }
  rel(sf) { return this._rel.get(sf) ?? sf.fileName; }
  isRepo(node) { return this._rel.has(node.getSourceFile()); }
  file(name) { return this.byName.get(name); }
  loc(node) {
    const sf = node.getSourceFile();
    const { line } = sf.getLineAndCharacterOfPosition(node.getStart(sf));
    return `${this.rel(sf)}:${line + 1}`;
  }
  text(node, n = 100) { const t = node.getText().replace(/\s+/g, " "); return t.length > n ? t.slice(0, n - 1) + "…" : t; }

  /** Name of a declaration: "file#Class.member", "file#function", "lib#X.y" */
  declName(decl) {
    if (!decl) return undefined;
    if (decl._verifName !== undefined) return decl._verifName;
    let name;
    const own = decl.name ? (ts.isIdentifier(decl.name) || ts.isPrivateIdentifier(decl.name) || ts.isStringLiteral(decl.name) ? decl.name.text : decl.name.getText()) :
      ts.isConstructorDeclaration(decl) ? "constructor" : "";
    let parent = decl.parent;
    let cls = "";
    while (parent && !ts.isSourceFile(parent)) {
      if ((ts.isClassLike(parent) || ts.isInterfaceDeclaration(parent)) && parent.name) { cls = parent.name.text + "."; break; }
      if (ts.isModuleDeclaration(parent) && parent.name) { cls = parent.name.text + "." + cls; }
      if (ts.isFunctionLike(parent)) break;
      parent = parent.parent;
    }
    const sf = decl.getSourceFile();
    const prefix = this._rel.has(sf) ? this.rel(sf) : /typescript\/lib\/lib\./.test(sf.fileName) ? "lib" : sf.fileName.replace(/^\/opt\/mtkruto-deps\//, "deps:");
    name = `${prefix}#${cls}${own}`;
    decl._verifName = name;
    return name;
  }

  aliased(sym) {
    if (sym && sym.flags & ts.SymbolFlags.Alias) { try { return this.checker.getAliasedSymbol(sym); } catch { return sym; } }
    return sym;
  }
  /** Symbol a (possibly qualified) expression denotes, aliases followed. */
  symbolOf(expr) {
    let s;
    if (ts.isPropertyAccessExpression(expr)) s = this.checker.getSymbolAtLocation(expr.name);
    else if (ts.isElementAccessExpression(expr)) s = this.checker.getSymbolAtLocation(expr.argumentExpression);
    else s = this.checker.getSymbolAtLocation(expr);
    return this.aliased(s);
  }
  /** Declaration with a body (or initializer function) that a call target resolves to, plus its name. */
  resolveCallee(callExpr) {
    let target = callExpr.expression ?? callExpr.tag;
    while (ts.isParenthesizedExpression(target) || ts.isNonNullExpression(target) || ts.isAsExpression(target) || ts.isSatisfiesExpression?.(target)) target = target.expression;
    return this.resolveFunctionRef(target, callExpr);
  }
  resolveFunctionRef(target, callExpr) {
    while (ts.isParenthesizedExpression(target) || ts.isNonNullExpression(target) || ts.isAsExpression(target)) target = target.expression;
    const sym = this.symbolOf(target);
    let decl, body;
    if (sym && sym.declarations) {
      for (const d of sym.declarations) {
        decl = decl ?? d;
        const b = this.functionOfDecl(d);
        if (b) { body = b; decl = d; break; }
      }
    }
    if (decl && ts.isVariableDeclaration(decl) && decl.initializer && ts.isIdentifier(decl.initializer) && (decl.parent.flags & ts.NodeFlags.Const)) {
      const r = this.resolveFunctionRef(decl.initializer); if (r.fn) return r; // const h = sha256
    }
    if (!body && decl && this.isRepo(decl) && (ts.isPropertySignature(decl) || ts.isMethodSignature(decl)) && ts.isInterfaceDeclaration(decl.parent)) {
      const impl = this.implementation(decl);
      if (impl) body = this.functionOfDecl(impl);
    }
    // f.bind(x): resolved by caller
    if (!body && callExpr && ts.isCallExpression(callExpr)) {
      let sig; try { sig = this.checker.getResolvedSignature(callExpr); } catch { /* */ }
      const d = sig && sig.declaration;
      if (d && !decl) decl = d;
    }
    return { sym, decl, fn: body, name: decl ? this.declName(decl) : undefined };
  }
  /** the property of the one object literal that plays the role of a repository interface, for an interface member */
  implementation(member) {
    const iface = member.parent;
    if (!this._impls) this._impls = new Map();
    if (!this._impls.has(iface)) {
      const req = iface.members.filter((m) => m.name && !m.questionToken).map((m) => m.name.text).filter(Boolean);
      let found = null, n = 0;
      if (req.length >= 5) for (const sf of this.sourceFiles) {
        if (/^tl\/1_.*_api\.ts$/.test(this.rel(sf))) continue;
        this.walk(sf, (o) => { if (ts.isObjectLiteralExpression(o) && o.properties.length >= req.length) { const k = new Set(o.properties.map((q) => q.name?.text)); if (req.every((x) => k.has(x))) { found = o; n++; } } });
      }
      this._impls.set(iface, n === 1 ? found : null);
    }
    const o = this._impls.get(iface);
    return o?.properties.find((q) => q.name?.text === member.name.text);
  }
  /** may a synchronous call of this function throw? (for an async function the failure surfaces at its await) */
  mayThrow(fn, depth = 0) {
    this._mayThrow ??= new Map();
    if (this._mayThrow.has(fn)) return this._mayThrow.get(fn);
    if (depth > 12 || !fn.body) return true;
    if (ts.canHaveModifiers(fn) && ts.getModifiers(fn)?.some((m) => m.kind === ts.SyntaxKind.AsyncKeyword)) return false;
    this._mayThrow.set(fn, false); // recursion: assume the best while computing
    const { callMayThrow } = require("./ir.js");
    const visit = (n) => {
      if (n !== fn && ts.isFunctionLike(n)) return false;
      if (ts.isThrowStatement(n)) return true;
      if (ts.isTryStatement(n) && n.catchClause) return visit(n.catchClause.block) || !!(n.finallyBlock && visit(n.finallyBlock));
      if (ts.isCallExpression(n) && callMayThrow(this, n, depth)) return true;
      if (ts.isNewExpression(n)) { const d = this.symbolOf(n.expression)?.valueDeclaration; const c = d && this.isRepo(d) && ts.isClassDeclaration(d) ? d.members.find((m) => ts.isConstructorDeclaration(m) && m.body) : undefined; if (c && this.mayThrow(c, depth + 1)) return true; }
      let r = false; ts.forEachChild(n, (x) => { if (!r) r = visit(x); });
      return r;
    };
    const r = visit(fn.body);
    this._mayThrow.set(fn, r);
    return r;
  }
  /** function-like node with body behind a declaration */
  functionOfDecl(d) {
    if (!d) return undefined;
    if ((ts.isFunctionDeclaration(d) || ts.isMethodDeclaration(d) || ts.isConstructorDeclaration(d) || ts.isGetAccessor(d) || ts.isSetAccessor(d) || ts.isArrowFunction(d) || ts.isFunctionExpression(d)) && d.body) return d;
    if ((ts.isVariableDeclaration(d) || ts.isPropertyDeclaration(d) || ts.isPropertyAssignment(d)) && d.initializer) {
      if (ts.isVariableDeclaration(d) && !(d.parent.flags & ts.NodeFlags.Const)) return undefined;
      let e = d.initializer;
      while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e))) e = e.expression;
      if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return e;
      if ((ts.isPropertyDeclaration(d) || ts.isPropertyAssignment(d)) && ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && e.expression.name.text === "bind") {
        let g = e.expression.expression;
        while (ts.isParenthesizedExpression(g) || ts.isAsExpression(g)) g = g.expression;
        if (ts.isArrowFunction(g) || ts.isFunctionExpression(g)) return g;
        if (ts.isPropertyAccessExpression(g) || ts.isElementAccessExpression(g)) { const r = this.resolveFunctionRef(g); return r.fn; }
      }
      if (ts.isPropertyAssignment(d) && ts.isPropertyAccessExpression(e)) return this.resolveFunctionRef(e).fn;
      if (ts.isVariableDeclaration(d) && (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e))) {
        // const h = sha256
        const r = this.resolveFunctionRef(e); return r.fn;
      }
    }
    return undefined;
  }

  /** index of all named functions: "file#Class.member" -> node (also fields initialised with functions) */
  get fns() {
    if (this._fnIndex) return this._fnIndex;
    const idx = this._fnIndex = new Map();
    const visit = (n) => {
      if (ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isGetAccessor(n) || ts.isSetAccessor(n) ||
        ts.isPropertyDeclaration(n) || (ts.isVariableDeclaration(n))) {
        const f = this.functionOfDecl(n);
        if (f) {
          let nm = this.declName(n);
          if (ts.isSetAccessor(n)) nm += "=";
          if (!idx.has(nm)) idx.set(nm, f);
        }
      }
      ts.forEachChild(n, visit);
    };
    for (const sf of this.sourceFiles) { if (!/^tl\/1_.*_api\.ts$/.test(this.rel(sf))) visit(sf); }
    return idx;
  }
  fn(name) { return this.fns.get(name); }
  class(name) {
    const [file, cls] = name.split("#");
    const sf = this.file(file);
    let r;
    if (sf) ts.forEachChild(sf, (n) => { if (ts.isClassDeclaration(n) && n.name?.text === cls) r = n; });
    return r;
  }
  /** Finds a class by its name anywhere in the repo (robust to file moves) */
  findClass(name) {
    if (!this._classes) {
      this._classes = new Map();
      for (const sf of this.sourceFiles) ts.forEachChild(sf, (n) => { if (ts.isClassDeclaration(n) && n.name) { const l = this._classes.get(n.name.text) ?? []; l.push(n); this._classes.set(n.name.text, l); } });
    }
    return this._classes.get(name) ?? [];
  }
  walk(node, f) { const v = (n) => { if (f(n) === false) return; ts.forEachChild(n, v); }; v(node); }

  /** compile-time constant value of an expression, or undefined */
  constOf(e, depth = 0) {
    if (!e || depth > 12) return undefined;
    while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e)) || ts.isTypeAssertionExpression?.(e)) e = e.expression;
    if (ts.isNumericLiteral(e)) return Number(e.text);
    if (ts.isBigIntLiteral(e)) return BigInt(e.text.replace(/n$/, "").replace(/_/g, ""));
    if (ts.isStringLiteral(e) || ts.isNoSubstitutionTemplateLiteral(e)) return e.text;
    if (e.kind === ts.SyntaxKind.TrueKeyword) return true;
    if (e.kind === ts.SyntaxKind.FalseKeyword) return false;
    if (e.kind === ts.SyntaxKind.NullKeyword) return null;
    if (ts.isPrefixUnaryExpression(e)) {
      const v = this.constOf(e.operand, depth + 1);
      if (v === undefined) return undefined;
      switch (e.operator) {
        case ts.SyntaxKind.MinusToken: return -v;
        case ts.SyntaxKind.PlusToken: return typeof v === "bigint" ? undefined : +v;
        case ts.SyntaxKind.TildeToken: return ~v;
        case ts.SyntaxKind.ExclamationToken: return !v;
      }
      return undefined;
    }
    if (ts.isBinaryExpression(e)) {
      const a = this.constOf(e.left, depth + 1), b = this.constOf(e.right, depth + 1);
      if (a === undefined || b === undefined) return undefined;
      return foldBin(ts.tokenToString(e.operatorToken.kind), a, b);
    }
    if (ts.isCallExpression(e) && ts.isIdentifier(e.expression) && e.expression.text === "BigInt" && e.arguments.length === 1) {
      const v = this.constOf(e.arguments[0], depth + 1);
      try { if (v !== undefined) return BigInt(v); } catch { /* */ }
      return undefined;
    }
    if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) {
      if (ts.isIdentifier(e) && e.text === "undefined") return undefined;
      const s = this.symbolOf(e);
      const d = s?.valueDeclaration;
      if (d && ts.isVariableDeclaration(d) && (d.parent.flags & ts.NodeFlags.Const) && d.initializer) return this.constOf(d.initializer, depth + 1);
      if (d && ts.isPropertyDeclaration(d) && d.initializer && d.modifiers?.some((m) => m.kind === ts.SyntaxKind.StaticKeyword)) return this.constOf(d.initializer, depth + 1);
      if (d && ts.isPropertyAssignment(d)) {
        // member of an `as const` object
        let o = d.parent; while (o && !ts.isVariableDeclaration(o)) o = o.parent;
        if (o && (o.parent.flags & ts.NodeFlags.Const)) return this.constOf(d.initializer, depth + 1);
      }
      if (d && ts.isEnumMember(d)) return this.checker.getConstantValue(d);
    }
    return undefined;
  }
}

function foldBin(op, a, b) {
  try {
    switch (op) {
      case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return typeof a === "bigint" && b === 0n ? undefined : a / b;
      case "%": return a % b; case "**": return a ** b; case "<<": return a << b; case ">>": return a >> b; case ">>>": return a >>> b;
      case "&": return a & b; case "|": return a | b; case "^": return a ^ b;
      case "===": case "==": return a === b; case "!==": case "!=": return a !== b;
      case "<": return a < b; case "<=": return a <= b; case ">": return a > b; case ">=": return a >= b;
    }
  } catch { /* */ }
  return undefined;
}

let _p;
module.exports = { ts, REPO, foldBin, load: () => _p ?? (_p = new Project()) };
