// node wasi.js FILE.wasm ROOT ARGS...   runs a WASI program; ROOT/include and ROOT/lib appear as /usr/include and /usr/lib
'use strict'
const { WASI } = require('wasi'), fs = require('fs')
const [file, root, ...args] = process.argv.slice(2)
const wasi = new WASI({ version: 'preview1', args: ['wcc', ...args], env: process.env, returnOnExit: true,
  preopens: { '.': '.', '/tmp': '/tmp', '/usr/include': root + '/include', '/usr/lib': root + '/lib' } })
WebAssembly.instantiate(fs.readFileSync(file), wasi.getImportObject()).then(({ instance }) => { process.exitCode = wasi.start(instance) })
