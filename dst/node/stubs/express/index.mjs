// the part of express 4.18 that decides which handler runs and what a reply looks like
import bodyParser from 'body-parser'
const S = globalThis.__dst

function compile(path) {
  const keys = []
  const src = path.replace(/\/$/, '').replace(/[.*+?^${}()|[\]\\]/g, '\\$&')
    .replace(/:([A-Za-z0-9_]+)/g, (m, k) => { keys.push(k); return '([^\\/]+?)' })
  return { re: new RegExp('^' + src + '\\/?$', 'i'), keys }
}

class Res {
  constructor(rid) { this.rid = rid; this.statusCode = 200; this.headersSent = false; this.h = {} }
  status(c) { this.statusCode = c; return this }
  sendStatus(c) { this.statusCode = c; return this.send(String(c)) }
  set(k, v) { this.h[String(k).toLowerCase()] = v; return this }
  setHeader(k, v) { return this.set(k, v) }
  header(k, v) { return this.set(k, v) }
  type(t) { return this.set('content-type', t) }
  _out(text, ctype) {
    if (this.headersSent) {
      const e = new Error('Cannot set headers after they are sent to the client')
      e.code = 'ERR_HTTP_HEADERS_SENT'
      S.emit({ ev: 'doublesend', rid: this.rid })
      throw e
    }
    this.headersSent = true
    S.emit({ ev: 'reply', rid: this.rid, status: this.statusCode, ctype: this.h['content-type'] || ctype, body: text })
    return this
  }
  json(o) { const t = JSON.stringify(o); return this._out(t === undefined ? '' : t, 'application/json; charset=utf-8') }
  send(b) {
    if (b === undefined) return this._out('', 'text/plain')
    if (typeof b === 'string') return this._out(b, 'text/html; charset=utf-8')
    if (typeof b === 'number' && arguments.length === 1) { this.statusCode = b; return this._out(String(b), 'text/plain') }
    return this.json(b)
  }
  end(b) { return this._out(b === undefined ? '' : String(b), 'text/plain') }
}

class Layerd {
  constructor() { this.layers = [] }
  use(p, ...fs) {
    if (typeof p !== 'string') { fs.unshift(p); p = null }
    for (const f of fs.flat()) this.layers.push({ method: null, prefix: p, f })
    return this
  }
  route(p) { const r = {}; for (const k of ['get', 'post', 'all']) r[k] = (...f) => { this[k](p, ...f); return r }; return r }
  _add(method, path, fs) { for (const f of fs.flat()) this.layers.push({ method, m: compile(path), f }); return this }
  get(p, ...f) { return this._add('GET', p, f) }
  post(p, ...f) { return this._add('POST', p, f) }
  all(p, ...f) { return this._add('*', p, f) }
  set() { return this }
  disable() { return this }
  enable() { return this }
  listen(port, cb) {
    if (typeof port !== 'number' || !(port >= 0 && port < 65536)) throw new RangeError('options.port should be >= 0 and < 65536.')
    S.app = this
    S.port = port
    S.emit({ ev: 'listening', port })
    const f = [...arguments].find(x => typeof x === 'function')
    if (f) queueMicrotask(f)
    return { close() { }, on() { }, address() { return { port } } }
  }
  handle(q) {
    const url = new URL('http://h' + q.path)
    const headers = {}
    for (const [k, v] of Object.entries(q.headers || {})) headers[k.toLowerCase()] = v
    const req = {
      method: q.method, path: url.pathname, url: q.path, originalUrl: q.path, headers, raw: q.body, params: {},
      query: Object.fromEntries(url.searchParams), ip: '127.0.0.1', get(k) { return headers[String(k).toLowerCase()] },
      header(k) { return headers[String(k).toLowerCase()] }
    }
    const res = new Res(q.rid)
    const fail = (err) => {
      if (res.headersSent) { S.emit({ ev: 'latethrow', rid: q.rid, msg: String(err && err.message) }); return }
      res.statusCode = (err && err.status) || 500
      res.send('<!DOCTYPE html><pre>' + String(err && err.message) + '</pre>')
    }
    const missing = (err) => {
      if (err) return fail(err)
      res.statusCode = 404
      res.send(`<!DOCTYPE html><pre>Cannot ${q.method} ${url.pathname}</pre>`)
    }
    this.walk(req, res, url.pathname, q, missing)
  }
  // runs the layers one after the other; a layer that fails hands the error to the next error handler (4 parameters)
  walk(req, res, path, q, out, err0) {
    let i = 0
    const next = (err) => {
      for (; i < this.layers.length;) {
        const L = this.layers[i++]
        const f = L.f instanceof Layerd ? null : L.f
        if (f && (f.length > 3) !== !!err) continue
        if (!f && err) continue
        let sub = path
        if (L.method === null) {
          if (L.prefix && L.prefix !== '/') {
            const p = L.prefix.replace(/\/$/, '')
            if (!(path === p || path.startsWith(p + '/'))) continue
            sub = path.slice(p.length) || '/'
          }
        } else {
          if (L.method !== '*' && L.method !== q.method && !(q.method === 'HEAD' && L.method === 'GET')) continue
          const m = L.m.re.exec(path)
          if (!m) continue
          try { L.m.keys.forEach((k, j) => { req.params[k] = decodeURIComponent(m[j + 1]) }) }
          catch (e) { err = Object.assign(new Error('Failed to decode param'), { status: 400 }); continue }
        }
        try {
          if (!f) return L.f.walk(req, res, sub, q, next)
          return err ? f(err, req, res, next) : f(req, res, next)   // a promise is not awaited by express 4
        } catch (e) { err = e }
      }
      return out(err)
    }
    next(err0)
  }
}
export default function express() { return new Layerd() }
express.json = () => bodyParser.json()
express.urlencoded = () => bodyParser.urlencoded()
export const Router = () => new Layerd()
express.Router = () => new Layerd()
