"use strict";
const fs = require("fs"), path = require("path");
const { schemas, crc32, tlLine } = require("../lib/schema.js");
const { ts } = require("../lib/project.js");
const pinned = JSON.parse(fs.readFileSync(path.join(__dirname, "..", "data", "p01.json"), "utf8"));
const baseName = (n) => n.replace(/(\D)\d+$/, "$1");
const variants = (n) => [n, baseName(n), n.replace(/(Prefix|Legacy)$/, "")];
const isTrueFlag = (t) => /^\w+\.\d+\?true$/.test(t);

function memberNames(p, sf, iface) {
  let r = null;
  ts.forEachChild(sf, (n) => { if (ts.isInterfaceDeclaration(n) && n.name.text === iface) r = new Set(n.members.map((m) => m.name.text)); });
  return r;
}
module.exports = {
  technique: "syntax-tree query: schema tables against CRC-32 of the reconstructed TL lines",
  explanation: "The schema tables are read from the syntax tree; for each entry the TL line is rebuilt from its fields and its CRC-32 compared with the identifier; what the CRC does not cover (bits of presence-only flags, and the few entries whose identifier was assigned under another name) is compared with a pinned table of layer 228; the identifier index is compared with the entries in both directions.",
  rules: ["identifier = CRC32(TL line)", "presence-only flag bits as pinned", "identifier index is the inverse of the entries", "identifiers and names are unique", "every flag field is declared before use, and no bit is out of range"],
  pinnedOf(p) {
    const out = { flags: {}, exact: {} };
    for (const s of schemas(p)) {
      for (const e of s.entries) {
        const tf = e.fields.filter(([, t]) => isTrueFlag(t)).map(([f, t]) => f + ":" + t);
        const k = s.file + "/" + e.name;
        if (tf.length) out.flags[k] = tf.sort().join(" ");
        if (!variants(e.name).some((n) => crc32(tlLine(e, n)) === e.id)) out.exact[k] = `${e.id} ${tlLine(e)}`;
      }
    }
    return out;
  },
  run(ctx) {
    const p = ctx.p;
    const list = schemas(p);
    for (const s of list) {
      for (const b of s.bad) ctx.violate({ rule: "readable table", key: s.file, at: p.loc(b), message: "schema table member that is not a plain entry: " + p.text(b) });
      const types = memberNames(p, s.sf, "Types"), functions = memberNames(p, s.sf, "Functions") ?? new Set();
      const byId = new Map(), byName = new Map();
      for (const e of s.entries) {
        const at = p.loc(e.node), k = s.file + "/" + e.name;
        ctx.ob("entry is complete", Number.isInteger(e.id) && e.parent !== undefined && e.fields.every(([a, b]) => typeof a === "string" && typeof b === "string"), { key: k, at, message: `entry ${e.name} is not made of constants` });
        if (pinned.exact[k] !== undefined) ctx.ob("pinned identifier", pinned.exact[k] === `${e.id} ${tlLine(e)}`, { key: k, at, message: `${e.name}#${(e.id >>> 0).toString(16)} differs from the pinned signature "${pinned.exact[k]}"` });
        else ctx.ob("identifier is CRC32 of the signature", variants(e.name).some((n) => crc32(tlLine(e, n)) === e.id), { key: k, at, message: `${e.name}: identifier 0x${(e.id >>> 0).toString(16)} is not the CRC32 (0x${crc32(tlLine(e)).toString(16)}) of "${tlLine(e)}"` });
        const tf = e.fields.filter(([, t]) => isTrueFlag(t)).map(([f, t]) => f + ":" + t).sort();
        if (k in pinned.flags) {
          const have = new Set(tf);
          for (const w of pinned.flags[k].split(" ")) ctx.ob("presence-only flag bit", have.has(w), { key: k + "." + w, at, message: `${e.name}: expected flag ${w}, the entry has [${tf.join(", ")}]` });
        }
        // flag bits: declared before use; a bit not shared by two presence-only flags
        const seenFlags = new Set(), bits = new Map(); const names = new Set();
        for (const [f, t] of e.fields) {
          ctx.ob("field named once", !names.has(f), { key: k + "." + f, at, message: `${e.name}: field ${f} occurs twice` }); names.add(f);
          if (t === "#") { seenFlags.add(f); continue; }
          const m = /^(\w+)\.(\d+)\?(.+)$/.exec(t);
          if (t.includes("?") && !m) ctx.violate({ rule: "flag syntax", key: k + "." + f, at, message: `${e.name}.${f}: malformed conditional type "${t}"` });
          if (!m) continue;
          ctx.ob("flag declared before use", seenFlags.has(m[1]) && +m[2] < 32, { key: k + "." + f, at, message: `${e.name}.${f}: flag ${m[1]}.${m[2]} is not declared before the field, or out of range` });
          if (m[3] === "true") { const b = m[1] + "." + m[2]; ctx.ob("presence-only bit used once", !bits.has(b) , { key: k + "." + f, at, message: `${e.name}: ${f} and ${bits.get(b)} share bit ${b}` }); bits.set(b, f); }
        }
        if (byId.has(e.id) && pinned.exact[k] === undefined) ctx.violate({ rule: "unique identifier", key: k, at, message: `${e.name} and ${byId.get(e.id)} share identifier 0x${(e.id >>> 0).toString(16)}` });
        if (pinned.exact[k] === undefined) byId.set(e.id, e.name);
        if (byName.has(e.name)) ctx.violate({ rule: "unique name", key: k, at, message: `${e.name} defined twice` });
        byName.set(e.name, e);
      }
      const seenIds = new Set();
      for (const i of s.ids) {
        const e = byName.get(i.name), at = p.loc(i.node);
        ctx.ob("index entry agrees with definition", e && e.id === i.id, { key: s.file + "/" + i.id, at, message: `identifierToName[0x${i.id.toString(16)}] = ${i.name}, whose definition ${e ? "has identifier 0x" + (e.id >>> 0).toString(16) : "does not exist"}` });
        if (seenIds.has(i.id)) ctx.violate({ rule: "index entry once", key: s.file + "/" + i.id, at, message: `identifier 0x${i.id.toString(16)} is indexed twice` });
        seenIds.add(i.id);
      }
      for (const e of s.entries) if (!functions.has(e.name)) ctx.ob("constructor is indexed", seenIds.has(e.id), { key: s.file + "/" + e.name, at: p.loc(e.node), message: `constructor ${e.name} cannot be recognised: its identifier is missing from identifierToName` });
      void types;
    }
    ctx.floor("identifier is CRC32 of the signature", 2300);
    ctx.floor("presence-only flag bit", 900);
    ctx.floor("index entry agrees with definition", 1500);
    if (list.length < 3) ctx.violate({ rule: "anchor", key: "schemas", at: "tl/", message: "fewer than three schema tables found" });
  },
};
