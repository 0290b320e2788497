// Reads one JSON request {"srcs": {name: text}} per line and answers with the syntax errors.
const ts = require(process.argv[2]);
const rl = require('readline').createInterface({input: process.stdin, crlfDelay: Infinity});
rl.on('line', line => {
  const out = [];
  try {
    const srcs = JSON.parse(line).srcs;
    for (const n of Object.keys(srcs)) {
      const f = ts.createSourceFile(n, srcs[n], ts.ScriptTarget.ES2020, true, ts.ScriptKind.TS);
      for (const d of f.parseDiagnostics) out.push(n + ':' + d.start + ': ' + ts.flattenDiagnosticMessageText(d.messageText, ' '));
    }
  } catch (e) { out.push('INFRA ' + e); }
  process.stdout.write(JSON.stringify({errs: out}) + '\n');
});
