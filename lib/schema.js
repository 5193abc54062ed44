"use strict";
// The wire schemas as written in tl/*: every exported constant with the members `definitions` and `identifierToName`.
const { ts } = require("./project.js");
function unwrap(e) { for (;;) { if (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isSatisfiesExpression(e)) e = e.expression; else if (ts.isCallExpression(e) && e.arguments.length === 1 && /freeze$/.test(e.expression.getText())) e = e.arguments[0]; else if (ts.isIdentifier(e)) return e; else return e; } }
function keyOf(p, n) { if (ts.isComputedPropertyName(n)) { const v = p.constOf(n.expression); return v === undefined ? undefined : String(v); } if (ts.isNumericLiteral(n)) return String(Number(n.text)); return n.text; }
function schemas(p) {
  if (p._schemas) return p._schemas;
  const out = [];
  for (const sf of p.sourceFiles) {
    if (!p.rel(sf).startsWith("tl/")) continue;
    ts.forEachChild(sf, (n) => {
      if (!ts.isVariableStatement(n)) return;
      for (const d of n.declarationList.declarations) {
        if (!d.initializer) continue;
        let o = unwrap(d.initializer);
        if (!ts.isObjectLiteralExpression(o)) continue;
        const get = (k) => { const q = o.properties.find((x) => ts.isPropertyAssignment(x) && x.name.getText() === k || ts.isShorthandPropertyAssignment(x) && x.name.text === k); if (!q) return; let e = ts.isShorthandPropertyAssignment(q) ? q.name : q.initializer; e = unwrap(e); if (ts.isIdentifier(e)) { const s = ts.isShorthandPropertyAssignment(q) ? p.checker.getShorthandAssignmentValueSymbol(q) : p.checker.getSymbolAtLocation(e); e = s?.valueDeclaration?.initializer && unwrap(s.valueDeclaration.initializer); } return e; };
        const defs = get("definitions"), ids = get("identifierToName");
        if (!defs || !ids || !ts.isObjectLiteralExpression(defs)) continue;
        const s = { file: p.rel(sf), sf, name: d.name.getText(), entries: [], ids: [], bad: [] };
        for (const q of defs.properties) {
          if (!ts.isPropertyAssignment(q)) { s.bad.push(q); continue; }
          const name = keyOf(p, q.name); const arr = unwrap(q.initializer);
          if (!ts.isArrayLiteralExpression(arr)) { s.bad.push(q); continue; }
          const id = p.constOf(arr.elements[0]); const fl = unwrap(arr.elements[1]);
          const fields = fl.elements.map((f) => { f = unwrap(f); return [p.constOf(f.elements[0]), p.constOf(f.elements[1])]; });
          s.entries.push({ name, id, fields, parent: p.constOf(arr.elements[2]), node: q });
        }
        for (const q of ids.properties) { if (!ts.isPropertyAssignment(q)) { s.bad.push(q); continue; } s.ids.push({ id: Number(keyOf(p, q.name)), name: p.constOf(q.initializer), node: q }); }
        out.push(s);
      }
    });
  }
  return p._schemas = out;
}
const CRC = (() => { const t = []; for (let n = 0; n < 256; n++) { let c = n; for (let k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320 ^ (c >>> 1) : c >>> 1; t[n] = c >>> 0; } return t; })();
function crc32(s) { let c = 0xFFFFFFFF; for (const b of Buffer.from(s)) c = CRC[(c ^ b) & 255] ^ (c >>> 8); return (c ^ 0xFFFFFFFF) >>> 0; }
/** the TL line of an entry as it enters the identifier */
function tlLine(e, name = e.name) {
  let s = name, generic = false;
  for (const [, t] of e.fields) if (/(^|\?)!X$/.test(t)) generic = true;
  if (generic) s += " X:Type";
  for (const [f, t] of e.fields) { if (/^flags\d*\.\d+\?true$/.test(t)) continue; s += ` ${f}:${t}`; }
  s += " = " + e.parent;
  return s.replace(/:bytes( |$)/g, ":string$1").replace(/\?bytes( |$)/g, "?string$1").replace(/</g, " ").replace(/>/g, "").replace(/[{}]/g, "");
}
module.exports = { schemas, crc32, tlLine };
