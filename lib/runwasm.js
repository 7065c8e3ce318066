// usage: node runwasm.js LIST OUT SCRATCH PREOPEN : runs each module of LIST under WASI, one JSON line per module to OUT
const { WASI } = require('wasi'); const fs = require('fs');
const [list, out, scratch, pre] = process.argv.slice(2);
for (const f of fs.readFileSync(list, 'utf8').split('\n')) {
  let rc, data = Buffer.alloc(0);
  try {
    const m = new WebAssembly.Module(fs.readFileSync(f));
    const fd = fs.openSync(scratch, 'w+');
    try {
      const w = new WASI({ version: 'preview1', args: [f], env: {}, preopens: { '/': pre }, returnOnExit: true, stdout: fd, stderr: fd });
      const i = new WebAssembly.Instance(m, Object.assign({}, w.getImportObject()));
      rc = w.start(i);
      if (rc === undefined) rc = 0;
    } catch (e) { rc = 'trap: ' + e; }
    data = fs.readFileSync(scratch);
    fs.closeSync(fd);
  } catch (e) { rc = 'invalid: ' + e; }
  fs.appendFileSync(out, JSON.stringify({ f, rc, out: data.toString('hex') }) + '\n');
}
