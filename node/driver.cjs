// Runs calls of the Node bindings: one JSON object with calls per line, one JSON array of results
// back.
const { NodejsLspFiles } = require(process.argv[2]);
const readline = require('node:readline');
let files;
readline.createInterface({ input: process.stdin }).on('line', (line) => {
  const { fresh, calls } = JSON.parse(line);
  if (fresh || !files) files = new NodejsLspFiles();
  const out = calls.map(([method, ...args]) => {
    try {
      const got = files[method](...args);
      return got === undefined ? null : got;
    } catch (e) {
      return { thrown: String(e.message) };
    }
  });
  process.stdout.write(JSON.stringify(out) + '\n');
});
