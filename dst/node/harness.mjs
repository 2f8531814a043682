// drives the repository's server, unmodified, one simulator command at a time (JSON lines on stdin/stdout).
// Everything the server could read from the outside - wall clock, timers, random numbers, http, chain - comes from
// the simulator; the server's own promises and handlers are the only thing that runs between two commands.
import { AsyncLocalStorage } from 'node:async_hooks'
import { createInterface } from 'node:readline'
import { pathToFileURL } from 'node:url'
import fs from 'node:fs'
import nodeCrypto from 'node:crypto'
import { syncBuiltinESMExports } from 'node:module'

const cfg = JSON.parse(process.env.DST_SERVER)
const realSetImmediate = setImmediate
const RealDate = Date
let now = cfg.now
let rnd = (cfg.seed >>> 0) || 1
function rand() { rnd ^= rnd << 13; rnd >>>= 0; rnd ^= rnd >>> 17; rnd ^= rnd << 5; rnd >>>= 0; return rnd / 4294967296 }
let events = []
const als = new AsyncLocalStorage()
const calls = new Map()
const timers = new Map()
let ncall = 0, ntimer = 0, answers = {}

const S = globalThis.__dst = {
  config: cfg,
  app: null,
  emit(e) { events.push(e) },
  backend(name, args) {
    const k = ++ncall, rid = als.getStore()
    return new Promise((res, rej) => {
      calls.set(k, { res, rej })
      S.emit({ ev: 'call', k, rid: rid === undefined ? null : rid, name, args: JSON.parse(JSON.stringify(args === undefined ? [] : args, (kk, v) => v === undefined ? null : v)) })
    })
  },
  backendSync(name, args) {
    const rid = als.getStore(), k = ++ncall
    S.emit({ ev: 'call', k, rid: rid === undefined ? null : rid, name, args, sync: true })
    const key = name + '|' + args.map(x => String(x).toLowerCase()).join('|')
    const a = answers[rid] || {}
    let ans = a.table && a.table[key]
    if (!ans && a.seq) ans = a.seq.length > 1 ? a.seq.shift() : a.seq[0]
    if (!ans) throw new Error('not initialized')
    if (!ans.ok) throw mkerr(ans.err)
    return ans.value
  },
}
// failures look like those of ethers: an error code next to the message
const CODES = { 'call revert': 'CALL_EXCEPTION', insufficient: 'INSUFFICIENT_FUNDS', timeout: 'TIMEOUT', 'missing response': 'SERVER_ERROR',
  reverted: 'UNPREDICTABLE_GAS_LIMIT', nonce: 'NONCE_EXPIRED', network: 'NETWORK_ERROR', rejected: 'ACTION_REJECTED' }
function mkerr(msg) {
  const e = new Error(msg)
  for (const k in CODES) if (String(msg).startsWith(k)) { e.code = CODES[k]; e.reason = msg }
  return e
}
globalThis.Date = class extends RealDate {
  constructor(...a) { if (a.length) super(...a); else super(now) }
  static now() { return now }
}
Math.random = rand
globalThis.performance.now = () => now - cfg.now
process.hrtime = Object.assign(() => [Math.floor(now / 1000), (now % 1000) * 1e6], { bigint: () => BigInt(now) * 1000000n })
globalThis.setTimeout = (f, d, ...a) => { const id = ++ntimer; timers.set(id, { f, a, rid: als.getStore() }); S.emit({ ev: 'timer', id, delay: Math.max(1, Number(d) || 1) }); return id }
globalThis.clearTimeout = (id) => { timers.delete(id) }
globalThis.setInterval = (f, d, ...a) => { const id = ++ntimer; timers.set(id, { f, a, every: Math.max(1, Number(d) || 1) }); S.emit({ ev: 'timer', id, delay: Math.max(1, Number(d) || 1) }); return id }
globalThis.clearInterval = globalThis.clearTimeout
try {
  const hex = n => Array.from({ length: n }, () => Math.floor(rand() * 16).toString(16)).join('')
  const uuid = () => `${hex(8)}-${hex(4)}-4${hex(3)}-8${hex(3)}-${hex(12)}`
  globalThis.crypto.randomUUID = uuid
  nodeCrypto.randomUUID = uuid
  nodeCrypto.randomInt = (a, b) => b === undefined ? Math.floor(rand() * a) : a + Math.floor(rand() * (b - a))
  nodeCrypto.randomBytes = (n) => Buffer.from(Array.from({ length: n }, () => Math.floor(rand() * 256)))
  syncBuiltinESMExports()
  globalThis.crypto.getRandomValues = (arr) => { for (let i = 0; i < arr.length; i++) arr[i] = Math.floor(rand() * 4294967296); return arr }
} catch (e) { }
let logs = 0
for (const k of ['log', 'info', 'warn', 'error', 'debug']) console[k] = () => { logs++ }

process.on('uncaughtException', e => { S.emit({ ev: 'crash', msg: String((e && e.message) || e) }) })
process.on('unhandledRejection', e => { S.emit({ ev: 'crash', msg: String((e && e.message) || e) }) })

const out = (o) => fs.writeSync(1, JSON.stringify(o) + '\n')
const turn = () => new Promise(r => realSetImmediate(r))
async function drain() { for (let i = 0; i < 4; i++) await turn(); const e = events; events = []; return e }

process.argv = ['node', 'sdkserver.mjs', ...cfg.argv]
let boot = null
try { await import(pathToFileURL(cfg.dir + '/sdkserver.mjs').href) } catch (e) { boot = String((e && e.stack) || e) }
out({ boot, events: await drain() })

const rl = createInterface({ input: process.stdin })
for await (const line of rl) {
  const c = JSON.parse(line)
  if (c.now !== undefined) now = c.now
  if (c.cmd === 'request') {
    answers[c.rid] = c.answers
    als.run(c.rid, () => S.app.handle(c))
  } else if (c.cmd === 'settle') {
    const p = calls.get(c.k); calls.delete(c.k)
    if (p) { if (c.ok) p.res(c.value); else p.rej(mkerr(c.err)) }
  } else if (c.cmd === 'fire') {
    const t = timers.get(c.id)
    if (t) {
      if (t.every) S.emit({ ev: 'timer', id: c.id, delay: t.every }); else timers.delete(c.id)
      als.run(t.rid, () => t.f(...t.a))
    }
  } else if (c.cmd === 'exit') { process.exit(0) }
  out({ events: await drain() })
}
