"use strict";
// debugging aid: node lib/dump.js <function name>
const { Project, load } = require("./project.js"); const { Lowerer, resolve, succs } = require("./ir.js");
function fmt(v){v=resolve(v);return v.op==="Const"?(typeof v.value==="bigint"?v.value+"n":JSON.stringify(v.value)):"%"+v.id+(v.name&&v.op==="Phi"?":"+v.name:"");}
function dump(u,p){for(const b of u.blocks){console.log(`b${b.id}${b===u.entry?" entry":""}${b===u.retBlock?" RET":""}${b===u.throwExit?" THROW":""}${b.loopHead?" loop":""}${b.isCatch?" catch":""} <- ${b.preds.map(x=>x.id)}`);
for(const v of b.phis)console.log(`   ${fmt(v)} = phi ${v.args.map(fmt)}`);
for(const v of b.insts){if(v.op==="Const")continue;console.log(`   %${v.id} = ${v.op} ${v.operator??""} ${v.name??""} ${v.variable?.name??""}(${v.args.map(fmt)})${v.recv?" recv":""}${v.spawned?" SPAWN":""}${v.props?" {"+v.props.map(q=>(q.spread?"...":q.key)+":"+fmt(q.value))+"}":""}`);}
const t=b.term;if(t)console.log(`   -> ${t.kind} ${t.cond?fmt(t.cond):""} ${t.value?fmt(t.value):""} ${succs(b).map(x=>"b"+x.id)}`);}}
if(require.main===module){const p=load();const n=process.argv[2];if(n==="--all"){let c=0,m=0;for(const [k,f] of p.fns){try{const u=new Lowerer(p).lower(f,{name:k});c++;m=Math.max(m,u.values);if(u.values>8000)console.log(k,u.values);}catch(e){console.log("FAIL",k,e.message,e.stack.split("\n")[1]);}}console.log(c,"ok max",m);}
else{const f=p.fn(n);if(!f){console.log([...p.fns.keys()].filter(k=>k.includes(n)));process.exit(1);}dump(new Lowerer(p).lower(f,{name:n}),p);}}
module.exports={dump,fmt};
