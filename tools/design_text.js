"use strict";
// The hand-written parts of DESIGN.md; tools/design.js puts them together with what the checks say about themselves.
exports.head = `# Static analysis of MTKruto: design

This file is put together by \`node tools/design.js\` (run by \`tools/gen.js\`) from the hand-written parts in
\`tools/design_text.js\`, the description every check carries (\`explanation\`, \`rules\`, \`assumptions\`), the planted
bugs in \`seeded/\` and \`known-findings.json\`.

## Method

Everything is decided from the TypeScript sources in /repo on every run, by programs in /verif that load the
whole project with the TypeScript compiler API (types and symbols resolved, \`jsr:\` imports mapped to
/opt/mtkruto-deps). No code of /repo is executed and no path is handed to a solver. Layers:

1. \`lib/project.js\`: program loading, symbol and call resolution (virtual dispatch to implementations, the
   \`C\` interface literal, worker counterparts), index of functions.
2. \`lib/ir.js\`: lowering of a function, with the repository helpers it calls inlined (so that an extracted or
   inlined helper makes no difference), to a control-flow graph in SSA form with exceptional edges for every call and
   await, \`finally\` duplication, await points, promise executors and short-circuit conditions as branches.
3. \`lib/terms.js\`: value numbering of SSA values to canonical terms (constants folded, linear normal form of
   sums, \`concat\`/\`subarray\`/\`slice\` normalised, comparisons oriented, byte-wise xor loops recognised); two ways
   of writing the same computation get the same term, which is then compared with what a protocol prescribes.
4. \`lib/sim.js\`: path-sensitive typestate dataflow (property simulation: states merge only when the abstract states
   are equal) to a fixpoint, with the path to a violation.
5. \`lib/facts.js\`: on top of it, the outcomes of the tests made on the path as facts about terms, killed by
   assignments to what they read; the "must have been tested before" checks use these.
6. \`checks/Pxx.js\`: one rule set per property. Anchors are found by what the code does or by type (the class whose
   method is handed to ..., the field that flows into ...), not by private names, wherever that was possible. Every rule
   has an instance floor: a construct that disappears or is no longer recognised is reported, not passed silently.

A check reports \`VIOLATION property=<id> replay=<file>\` with file, line, rule, construct and (for path rules) the
path. \`evidence/<id>.json\` lists what was analysed: functions, obligations per rule, and samples.
The bounds are those of the abstraction: all paths of the analysed functions with loops taken to a fixpoint; no
input, schedule or history is enumerated. What a check assumes about the rest of the system is listed with it. "Quick" and
"thorough" run the same analysis: it covers every path of the abstraction either way, so there is nothing to deepen.

Cost: 2 to 20 s per check, P05 about 40 s; a check is one single-threaded node process.

Why this reaches what the tests cannot: the tests sample a few inputs of the codecs, the storages and the entity parser, and
never meet a server, a lost connection or a second concurrent caller. The rules quantify over all paths and all values of
the SSA form, in particular over the exceptional ones and the interleavings at await points.
`;
exports.notes = {
  P01: "What the CRC does not cover is pinned in data/p01.json (tools/pin.js), made once from the committed schema of layer 228.",
  P03: "The first runs reported decodeText (repaired, 7b61fc7). p03a and mutants of its kind (a boundary value refused) were missed at first: the rule 'what fits is not refused' was added for them. Not followed: the three string functions that take a type name apart (tl/0_utilities.ts), and a container length computed by a reducing callback (counted in the evidence as not followed). The check is kept quiet on: collected flags in a helper, |= on the flag word, for loops instead of for-of, shifts instead of DataView calls, asIntN instead of a subtraction, padding written byte by byte, the two-branch prefix of bytes decided by either variable.",
  P05: "Does not claim replay protection within a session (duplicate msg_id), which the code does not implement; the property statement does not promise it.",
  P06: "Identifier order across containers relies on the send loop being one loop (checked as part of the rule that identifiers are drawn in the loop that sends).",
  P09: "First version missed p09a (acknowledgements carried by a container that is rejected as a whole); the rule that what was taken out of the queue is registered under the identifier whose loss brings it back was added for it.",
  P11: "Accepted misses: a read that takes the write lock's place, a write promise that is not awaited where the runtime reports errors otherwise (node), a websocket waiter that is resolved but not cleared (harmless). False alarms corrected while building: Deno sockets fail by themselves when closed, so the seen-open rule only applies where writing to a closed socket is silent; stride loops and withResolvers waiters were not recognised at first.",
  P12: "Accepted misses: announcing the padded encoding while sending frames without padding (valid), sending the tag in the other byte order (all tags are palindromes). Padded transport errors (4-byte code plus padding) are not recognised as errors by the code; not claimed. The check is kept quiet on: header built as its own array, byte-wise or DataView reads, helper for reading a part, set-based prefix tests, toReversed, shifts instead of division.",
  P29: "Handlers are recognised by the declared types MiddlewareFn and NextFunction. Refactorings tried while building (guard inverted, continuation named, helper extracted, fold written as a loop, promise kept in the guard variable, predicate through a local) are quiet. Not claimed: concurrency of the invoke-error handlers (Client.invoke.use), sticky regular expressions.",
  P35: "The first run reported a genuine defect (repaired, f23f071): Session.connect cleared the disconnected flag although a disconnect had come while it was opening the connection. Dropping the early return of the state handler when it was told to disconnect is accepted as quiet: the loop behind it makes the same test. Two handlers of ClientEncrypted (transport error -404, AUTH_KEY_PERM_EMPTY) disconnect and connect again without asking whether they were told to disconnect; they run only for messages of a live connection, which is the stated assumption.",
  P13: "Strengthened after a mutant that never recorded a difference's state was missed. Two places are assumptions rather than claims: recoverUpdateGap's early return when another recovery of the same box ended in between, and ids of stored updates depending on the clock.",
  P14: "False alarms corrected: matching the guard by name, a branch for nobody listening, extracted helpers and conditions captured by closures.",
  P16: "The DH helper tests are shared with P07 and P20 in lib/dh.js, which analyses the tests themselves (every accepting path).",
  P19: "The save and load sides are compared field by field, so a field added to one side only is found without knowing its name.",
};
exports.tail = `## How the machinery was tested

* Planted bugs (below) were written from the property texts; every one is confirmed by \`tools/seed.py\`: builds, the 167 stable
  tests pass, the demonstration exits 0 without and nonzero with it. For each check, \`tools/mut.js\` was run with 20 to
  60 hand-written changes of single statements in the anchored code (bounds, operands, order, guards removed, awaits
  removed, early returns, wrong field); what stayed quiet was either equivalent, listed as an accepted miss above, or led to a
  stronger rule.
* Refactorings that keep the behaviour (helper extracted or inlined, condition inverted, loop rewritten, constant named,
  statements reordered, locals renamed, other library call for the same thing) were run the same way; each alarm was
  removed by making the rule about the computed term or event rather than the form.

## Findings on the repository

Genuine defects were shown against the real code first (a fake server or fake socket drives the unmodified classes), then
repaired in /repo by one "fix:" commit each, listed in known-findings.json, which suppresses nothing for fixed entries.
`;
