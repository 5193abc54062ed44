"use strict";
const { schemas } = require("../lib/schema.js");
const { ts } = require("../lib/project.js");

module.exports = {
  technique: "type-checker query: declared types against runtime schema tables",
  explanation: "Every declared interface is resolved by the type checker and compared, field by field, with the runtime table entry of the same name: presence, optionality, value type (unions compared as sets of constructors), result type; and the name maps (Types, Functions, Enums) with the tables in both directions.",
  rules: ["declared fields = table fields", "optional iff conditional", "declared value type = type the codec maps the wire type to", "declared union = constructors of that result type", "declared result type = result type of the method", "name maps complete", "generic-method lists agree"],
  assumptions: ["the wire-type to value-type mapping (int→number, long/int128/int256→bigint, bytes→Uint8Array …) is that of the codec, which P03 checks"],
  run(ctx) {
    const p = ctx.p, ck = p.checker;
    for (const s of schemas(p)) {
      const decls = new Map(), aliases = new Map();
      ts.forEachChild(s.sf, (n) => { if (ts.isInterfaceDeclaration(n)) decls.set(n.name.text, n); if (ts.isTypeAliasDeclaration(n)) aliases.set(n.name.text, n); });
      const typeOfSym = (n) => { const d = decls.get(n) ?? aliases.get(n); return d && ck.getDeclaredTypeOfSymbol(ck.getSymbolAtLocation(d.name)); };
      const functions = mapMembers(p, decls.get("Functions"));
      const types = mapMembers(p, decls.get("Types"));
      const enums = mapMembers(p, decls.get("Enums"));
      const byParent = new Map();
      for (const e of s.entries) if (!functions.has(e.name)) { const l = byParent.get(e.parent) ?? []; l.push(e.name); byParent.set(e.parent, l); }
      const byName = new Map(s.entries.map((e) => [e.name, e]));
      // describe a checker type as a canonical string
      const memo = new Map();
      const describe = (t, depth = 0) => {
        if (memo.has(t)) return memo.get(t);
        let r = describe0(t, depth); memo.set(t, r); return r;
      };
      const describe0 = (t, depth) => {
        if (t.flags & ts.TypeFlags.BooleanLiteral) return t.intrinsicName;
        if (t.flags & ts.TypeFlags.Boolean) return "boolean";
        if (t.flags & ts.TypeFlags.Undefined) return "";
        if (t.isUnion()) {
          const parts = [...new Set(t.types.flatMap((x) => describe(x, depth + 1).split("|")))].filter(Boolean).sort();
          const k = parts.join("|");
          return k === "false|true" ? "boolean" : k;
        }
        if (t.flags & ts.TypeFlags.Number) return "number";
        if (t.flags & ts.TypeFlags.BigInt) return "bigint";
        if (t.flags & ts.TypeFlags.String) return "string";
        if (t.flags & ts.TypeFlags.TypeParameter) return "T:" + t.symbol.name;
        const n = t.symbol?.name;
        if (n === "Uint8Array") return "Uint8Array";
        if (n === "Array") return `Array<${describe(ck.getTypeArguments(t)[0], depth + 1)}>`;
        const u = t.getProperty?.("_");
        if (u) { const d = u.valueDeclaration?.type; const lit = d && ts.isLiteralTypeNode(d) ? d.literal.text : undefined; if (lit !== undefined) return "#" + lit; }
        return ck.typeToString(t);
      };
      const expParent = (name) => { const l = byParent.get(name); return l ? [...l].sort().map((x) => "#" + x).join("|") : undefined; };
      const expect = (w) => {
        const q = w.indexOf("?"); if (q >= 0) w = w.slice(q + 1);
        switch (w) {
          case "int": case "double": return "number";
          case "long": case "int128": case "int256": return "bigint";
          case "string": return "string"; case "bytes": return "Uint8Array";
          case "Bool": return "boolean"; case "true": return "true"; case "!X": case "X": return "T";
          case "#": return null;
          case "Object": return expParent("Object") ?? "?Object";
        }
        const m = /^[Vv]ector<(.+)>$/.exec(w);
        if (m) return `Array<${expect(m[1])}>`;
        if (w.startsWith("%")) w = w.slice(1);
        if (byName.has(w) && !functions.has(w)) return "#" + w; // bare constructor
        return expParent(w) ?? "?" + w;
      };
      const norm = (x) => x?.replace(/T:\w+/g, "T").split("|").sort().join("|");
      for (const e of s.entries) {
        const k = s.file + "/" + e.name, at = p.loc(e.node);
        const isFn = functions.has(e.name);
        if (!ctx.ob("entry is declared", isFn !== types.has(e.name), { key: k, at, message: `${e.name} must be declared in exactly one of Types and Functions` })) continue;
        const member = (isFn ? functions : types).get(e.name);
        let t = ck.getTypeAtLocation(member);
        const u = t.getProperty?.("_");
        const lit = u?.valueDeclaration?.type?.literal?.text;
        ctx.ob("declared under its own name", lit === e.name, { key: k, at: p.loc(member), message: `${isFn ? "Functions" : "Types"}["${e.name}"] is a type whose discriminator is "${lit}"` });
        const fields = new Map(e.fields.filter(([, w]) => w !== "#"));
        const props = t.getProperties().filter((x) => x.name !== "_");
        const seen = new Set();
        let result;
        for (const pr of props) {
          if (pr.valueDeclaration && pr.valueDeclaration.name && ts.isComputedPropertyName(pr.valueDeclaration.name)) { result = pr; continue; }
          seen.add(pr.name);
          const w = fields.get(pr.name), loc = p.loc(pr.valueDeclaration);
          if (!ctx.ob("declared field exists on the wire", w !== undefined, { key: k + "." + pr.name, at: loc, message: `${e.name}.${pr.name} is declared but the table has no such field: it is lost when encoding` })) continue;
          const opt = !!(pr.flags & ts.SymbolFlags.Optional);
          ctx.ob("optional iff conditional", opt === w.includes("?"), { key: k + "." + pr.name, at: loc, message: `${e.name}.${pr.name} is ${opt ? "optional" : "mandatory"} in the declaration but "${w}" on the wire` });
          const have = norm(describe(ck.getTypeOfSymbolAtLocation(pr, pr.valueDeclaration))), want = norm(expect(w));
          ctx.ob("declared value type", have === want, { key: k + "." + pr.name, at: loc, message: `${e.name}.${pr.name} is declared as ${short(have)} but "${w}" is encoded as ${short(want)}` });
        }
        for (const f of fields.keys()) ctx.ob("wire field is declared", seen.has(f), { key: k + "." + f, at, message: `${e.name}.${f} is on the wire but not in the declared type` });
        if (isFn) {
          if (!ctx.ob("method declares its result", !!result, { key: k, at: p.loc(member), message: `${e.name} declares no result type` })) continue;
          const rt = result.valueDeclaration.type;
          let have;
          if (e.parent === "X") { have = rt.getText().replace(/\s/g, ""); ctx.ob("declared result type", /^ReturnType<\w+>$/.test(have), { key: k, at: p.loc(result.valueDeclaration), message: `${e.name} is generic but declares the result ${have}` }); }
          else { have = norm(describe(ck.getTypeFromTypeNode(rt))); const want = norm(expect(e.parent)); ctx.ob("declared result type", have === want, { key: k, at: p.loc(result.valueDeclaration), message: `${e.name} declares the result ${short(have)} but answers ${short(want)}` }); }
        } else if (result) ctx.violate({ rule: "constructor has no result", key: k, at: p.loc(member), message: `${e.name} is a constructor but declares a result` });
      }
      for (const [n, m] of [...types, ...functions]) ctx.ob("declared name is on the wire", byName.has(n), { key: s.file + "/" + n, at: p.loc(m), message: `${n} is declared but has no table entry` });
      for (const [n, m] of enums) {
        const have = norm(describe(ck.getTypeAtLocation(m))), want = norm(expParent(n));
        ctx.ob("declared union", have === want, { key: s.file + "/" + n, at: p.loc(m), message: `${n} is declared as ${short(have)} but its constructors are ${short(want)}` });
      }
      for (const n of byParent.keys()) { if (["True", "Null", "Vector t"].includes(n)) continue; ctx.ob("union is declared", enums.has(n), { key: s.file + "/" + n, at: s.file, message: `no union is declared for ${n}` }); }
      // generic methods
      const gen = s.entries.filter((e) => e.fields.some(([, w]) => /!X/.test(w))).map((e) => e.name).sort();
      const ag = aliases.get("AnyGenericFunction");
      if (gen.length || ag) {
        const have = ag ? (ts.isUnionTypeNode(ag.type) ? ag.type.types : [ag.type]).map((x) => { const sy = ck.getSymbolAtLocation(x.typeName); const d = sy && sy.declarations?.[0]; const u = d && d.members?.find((q) => q.name?.text === "_"); return u?.type?.literal?.text; }).sort() : [];
        ctx.ob("generic methods listed", JSON.stringify(have) === JSON.stringify(gen), { key: s.file, at: ag ? p.loc(ag) : s.file, message: `generic methods ${gen} vs. declared ${have}` });
        // the runtime predicate
        const pred = p.fns.get("tl/2_telegram.ts#isGenericFunction");
        if (pred) {
          let listed = null;
          p.walk(pred, (n) => { if (ts.isCallExpression(n) && n.arguments.length === 2) { const a = n.arguments[0]; listed = literalList(p, a) ?? listed; } });
          if (listed) ctx.ob("generic predicate covers generic methods", JSON.stringify([...listed].sort()) === JSON.stringify(gen), { key: s.file + "/pred", at: p.loc(pred), message: `isGenericFunction knows ${listed} but the generic methods are ${gen}` });
        }
      }
    }
    ctx.floor("declared value type", 7000); ctx.floor("declared result type", 780); ctx.floor("declared union", 600);
  },
};
function short(s) { s = String(s); return s.length > 90 ? s.slice(0, 87) + "..." : s; }
function mapMembers(p, d) { const m = new Map(); if (d) for (const x of d.members) m.set(x.name.text ?? x.name.getText(), x); return m; }
function literalList(p, e) {
  while (ts.isAsExpression(e) || ts.isParenthesizedExpression(e)) e = e.expression;
  if (ts.isIdentifier(e)) { const d = p.symbolOf(e)?.valueDeclaration; return d?.initializer ? literalList(p, d.initializer) : null; }
  if (ts.isArrayLiteralExpression(e)) return e.elements.map((x) => ts.isSpreadElement(x) ? undefined : p.constOf(x));
  return null;
}
