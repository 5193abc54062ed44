"use strict";
module.exports = {
  P38: "Whether rendering and parsing agree depends on the characters of the text and the nesting of entities, i.e. on runtime strings walked by hand-written character loops; no static argument in reach relates the two loops, and a sampled round-trip would be a runtime test.",
  P39: "The results are arithmetic facts about all operands (loop invariants of modular exponentiation, factorisation and run-length coding); deciding them needs a program proof, not a syntactic, dataflow or type argument.",
  P40: "The bounds are on runtime quantities (queue lengths, waiting times, cache sizes) that depend on the server and the application; no sound static bound is in reach because several queues are unbounded by design.",
};
