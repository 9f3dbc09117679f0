import readline from 'node:readline'; import fs from 'node:fs';
const un = h => Buffer.from(h, 'hex').toString('utf8'); let n=0, d={}, ex={};
for await (const l of readline.createInterface({input: process.stdin})) { const [b,s,r]=l.split('\t'); n++; const base=un(b), inp=un(s); let got; try { got = b ? new URL(inp, base).href : new URL(inp).href } catch { got = '!' } const want = r==='!'?'!':un(r);
 // known differences: Node's last-label-number rule (2021), forbidden host characters added later, emoji labels, and three defects of ada
 const known = (got==='!' && /^(https?|ftp|file):\/\/(.*@)?[^\/]*(^|[.\/@])(0[xX][0-9a-fA-F]*|[0-9]+)\.?(:\d*)?([\/?#]|$)/.test(want)) || /^a:b/.test(base) || /^a:.*\.\./i.test(inp) || /^a:/.test(base)&&/\.\./.test(inp) || (want==='!' && /xn--/.test(got));
 if (got!==want && !known) { let k = got==='!'?'node rejects':want==='!'?'node accepts':'differ'; if(/\^/.test(inp)||/[<>|]/.test(inp)) k+=' (<>^|)'; d[k]=(d[k]||0)+1; (ex[k]=ex[k]||[]); if(ex[k].length<(+process.argv[2]||12)) ex[k].push([inp,base,got,want].map(x=>JSON.stringify(x)).join('  ')) } }
console.log(n,d); for(const k in ex){console.log(k); for(const x of ex[k]) console.log('   ',x)}
