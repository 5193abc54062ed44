"use strict";
// The safety tests for Diffie-Hellman parameters, found by what they do.
const { ts } = require("./project.js");
const { resolve } = require("./ir.js");
const { track } = require("./facts.js");
const { allFunctions, fnLabel } = require("./util.js");
const PRIME = "c71caeb9c6b1c9048e6c522f70f13f73980d40238e3e21c14934d037563d930f48198a0aa7c14058229493d22530f4dbfa336f6e0ac925139543aed44cce7c3720fd51f69458705ac68cd4fe6b6b13abdc9746512969328454f18faf8c595f642477fe96bb2a941d5bcd1d4ac8cc49880708fa9b378e3c4f3a9060bee67cf9a4a4a695811051907e162753b56b0f6b410dba74d8a84b2a14b3144e0ef1284754fd17ed950d5965b4b9dd46582db1178d169c6bc465b0d6ff9ca3928fef5b9ae4e418fc15e83ebea0f87fa9ff5eed70050ded2849f47bf959d956850ce929851f0d8115f635b105ee2e4e15d04b2454bf6f4fadf034b10403119cd8e3b92fcc5b";
/** generators that generate the subgroup of prime order modulo the known prime (conditions of the protocol) */
const P = BigInt("0x" + PRIME);
const GOOD_G = [[2, P % 8n === 7n], [3, P % 3n === 2n], [4, true], [5, [1n, 4n].includes(P % 5n)], [6, [19n, 23n].includes(P % 24n)], [7, [3n, 5n, 6n].includes(P % 7n)]].filter(([, y]) => y).map(([g]) => g);

const isBig = (p, d) => !!(p.checker.getTypeAtLocation(d).flags & ts.TypeFlags.BigIntLike);
const isNum = (p, d) => !!(p.checker.getTypeAtLocation(d).flags & ts.TypeFlags.NumberLike);
const isBytes = (p, d) => /^Uint8Array/.test(p.checker.typeToString(p.checker.getTypeAtLocation(d)));
const returnsBool = (p, f) => { const s = p.checker.getSignatureFromDeclaration(f); return !!s && !!(s.getReturnType().flags & (ts.TypeFlags.BooleanLike)) || !!s && s.getReturnType().isUnion?.() && s.getReturnType().types.every((t) => t.flags & ts.TypeFlags.BooleanLike); };
function named(f) { return ts.isFunctionDeclaration(f) || (ts.isArrowFunction(f) || ts.isFunctionExpression(f)) && ts.isVariableDeclaration(f.parent); }
/** { prime: fn(bytes, g), range: fn(x, p), obligations… } */
function find(ctx) {
  const p = ctx.p;
  const big = (f) => { let y = 0; const sf = f.getSourceFile(); p.walk(sf, (n) => { if (ts.isArrayLiteralExpression(n) && n.elements.length >= 200) y++; }); return y; };
  const prime = [], range = [];
  for (const f of allFunctions(p)) {
    if (!named(f) || f.parameters.length !== 2 || !returnsBool(p, f)) continue;
    const [a, b] = f.parameters;
    if (isBytes(p, a) && isNum(p, b) && big(f)) prime.push(f);
    if (isBig(p, a) && isBig(p, b) && /mod|exp|good|safe|range|valid/i.test(f.name?.text ?? f.parent.name?.text ?? "")) range.push(f);
  }
  return { prime: ctx.need(prime[0], "the test of a prime and generator"), range: ctx.need(range[0], "the range test of a public value") };
}
/** obligations on the two tests themselves */
function judgeTests(ctx, D) {
  const p = ctx.p;
  // ---- the prime
  {
    const f = D.prime, lab = fnLabel(p, f), at = p.loc(f);
    const good = (t) => {
      let q = t; if (q.h === "new" && q.a.length === 1) q = q.a[0];
      if (q.h === "global") { const e = globalArray(p, f, q.n); return e && e.map((x) => x.toString(16).padStart(2, "0")).join("") === PRIME; }
      return (q.h === "bytes" || q.h === "arr") && q.a.length === 256 && q.a.every((x) => x.h === "const") && q.a.map((x) => Number(x.n).toString(16).padStart(2, "0")).join("") === PRIME;
    };
    let rets = 0, seen = false;
    track(ctx, f, {
      policy: {},
      keep: (k) => k.includes("$0") || k.includes("$1"),
      edge(s, t, truth, cx, T, has, term) {
        // element-wise comparison in a loop
        const c = resolve(term.cond); let n = t, tr = truth;
        while (n.h === "not") { n = n.a[0]; tr = !tr; }
        if (n.h === "bin" && n.n === "===") {
          const el = [n.a[0], n.a[1]]; const mine = el.find((x) => x.h === "elem" && x.a[0].key === "$0"), other = el.find((x) => x !== mine);
          if (mine && other) {
            const src = other.h === "IterElem" ? other.a[0] : other.h === "elem" && other.a[1].key === mine.a[1].key ? other.a[0] : null;
            if (src && good(src)) { seen = true; return { ...s, x: { ...s.x, open: 0, bad: s.x.bad || !tr ? 1 : 0 } }; }
          }
        }
        const head = c.op === "IterHas" ? good(T(c.args[0])) : n.h === "bin" && n.n === "<" && (n.a[1].h === "const" && n.a[1].n === 256 || n.a[1].h === "prop" && n.a[1].n === "length" && (good(n.a[1].a[0]) || n.a[1].a[0].key === "$0"));
        if (head) return { ...s, x: { ...s.x, bad: s.x.bad || s.x.open ? 1 : 0, open: tr ? 1 : 0, done: tr ? 0 : 1 } };
      },
      inst(s, v, cx, T, has) {
        if (v.op !== "Return") return;
        const t = T(v.args[0] ?? v); if (t.h === "const" && !t.n) return;
        { let e = t, neg = false; while (e.h === "not") { e = e.a[0]; neg = !neg; } if (has.all.includes((neg ? "+" : "-") + e.key)) return; }
        rets++;
        const extra = t.h === "const" ? [] : ["+" + t.key];
        const facts = [...has.all, ...extra];
        const len = facts.some((k) => /^\+\(/.test(k) && k.includes("$0.length") && /===/.test(k));
        const viaEq = facts.some((k) => /^\+/.test(k) && /eqbytes|[Ee]qual/.test(k) && k.includes("$0"));
        const g = genTest(facts);
        ctx.ob("prime test", (len || viaEq), { key: lab + "|length", at, message: `${lab} accepts a prime without having compared its length with that of the known one` });
        ctx.ob("prime test", viaEq || !!(seen && s.x.done && !s.x.bad), { key: lab + "|bytes", at, message: `${lab} accepts a prime of which not every byte was found equal to the known one` });
        ctx.ob("prime test", !!g && g.every((x) => GOOD_G.includes(x)), { key: lab + "|generator", at, message: `${lab} accepts ${g ? "the generator " + g.find((x) => !GOOD_G.includes(x)) : "any generator"}; safe for this prime are ${GOOD_G.join(", ")}` });
      },
    });
    ctx.ob("prime test", rets > 0, { key: lab + "|never", at, message: `${lab} accepts nothing` });
  }
  // ---- the range
  {
    const f = D.range, lab = fnLabel(p, f), at = p.loc(f);
    let rets = 0;
    track(ctx, f, {
      policy: {},
      inst(s, v, cx, T, has) {
        if (v.op !== "Return") return;
        const t = T(v.args[0] ?? v); if (t.h === "const" && !t.n) return;
        let e = t, neg = false; while (e.h === "not") { e = e.a[0]; neg = !neg; }
        if (has.all.includes((neg ? "+" : "-") + e.key)) return; // refuses
        rets++;
        const facts = [...has.all, ...(e.h === "const" ? [] : [(neg ? "-" : "+") + e.key])];
        // x ≥ 2^(2048-64) and p - x ≥ 2^(2048-64), as bit lengths or as comparisons
        const low = (k, w) => facts.some((q) => bounds(q, w));
        ctx.ob("range test", low(0, "$0"), { key: lab + "|lower", at, message: `${lab} accepts values below 2^(2048-64)` });
        ctx.ob("range test", low(0, "diff"), { key: lab + "|upper", at, message: `${lab} accepts values above the prime less 2^(2048-64)` });
      },
    });
    ctx.ob("range test", rets > 0, { key: lab + "|never", at, message: `${lab} accepts nothing` });
  }
}
const DIFF = /^\((?:-\$0\+\$1|\+?\$1-\$0|\$1-\$0)\)$/;
/** does the fact q bound `w` ($0 or the difference prime - $0) from below by about 2^1984? */
function bounds(q, w) {
  const sub = (k) => w === "$0" ? k === "$0" : DIFF.test(k) || k === "(-$0+$1)" || k === "(+$1-$0)";
  let m;
  // -( w.toString(2).length < 1984 )
  if ((m = /^-\((call:[\w.]*toString\((.+),2\)(?:%\d+;)?\.length)<(\d+)\)$/.exec(q)) && sub(m[2]) && +m[3] >= 1984 && +m[3] <= 2000) return true;
  if ((m = /^\+\((\d+)<(call:[\w.]*toString\((.+),2\)(?:%\d+;)?\.length)\)$/.exec(q)) && sub(m[3]) && +m[1] >= 1983 && +m[1] <= 2000) return true;
  // -( w < 2n**1984n )
  if ((m = /^-\((.+)<(\d+)n\)$/.exec(q)) && sub(m[1]) && big2(m[2])) return true;
  if ((m = /^\+\((\d+)n<(.+)\)$/.exec(q)) && sub(m[2]) && big2(m[1])) return true;
  // $0 < $1 - 2^1984
  if (w === "diff" && (m = /\$1-(\d{500,})n/.exec(q)) && big2(m[1]) && /^[+-]/.test(q) && q.includes("$0")) return true;
  if (w === "diff" && (m = /-(\d{500,})n?\+\$1|\$1.?-(\d{500,})/.exec(q)) && big2(m[1] ?? m[2])) return true;
  return false;
}
function big2(s) { try { const l = BigInt(s).toString(2).length; return l >= 1984 && l <= 2000; } catch { return false; } }
/** values the facts leave for $1: [3,4,…] */
function genTest(facts) {
  const vals = [];
  for (const k of facts) {
    let m;
    if ((m = /^\+call:[\w.]*(?:includes|has)\((?:new:\w+\()?arr\(([\d,n]+)\)\)?(?:%\d+;)?,\$1\)/.exec(k))) return m[1].split(",").map((x) => parseInt(x));
    if ((m = /^\+call:[\w.]*includes\(bytes\(([\d,n]+)\),\$1\)/.exec(k))) return m[1].split(",").map((x) => parseInt(x));
    if ((m = /^\+\(\$1===(\d+)\)$/.exec(k))) vals.push(+m[1]);
  }
  return vals.length ? vals : null;
}
function globalArray(p, f, name) {
  const short = name.replace(/^.*#/, ""); let r = null;
  p.walk(f.getSourceFile(), (n) => { if (ts.isVariableDeclaration(n) && n.name.text === short && n.initializer) { let e = n.initializer; if (ts.isNewExpression(e)) e = e.arguments?.[0]; if (e && ts.isArrayLiteralExpression(e)) r = e.elements.map((x) => p.constOf(x)); } });
  return r;
}
module.exports = { find, judgeTests, GOOD_G };
