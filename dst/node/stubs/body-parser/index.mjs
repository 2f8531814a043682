// json(): what body-parser 1.20 does with a request body (strict mode)
const bodyParser = {
  json() {
    return (req, res, next) => {
      const ct = String(req.headers['content-type'] || '')
      if (!req.raw || !/^application\/([a-z.+-]*\+)?json\b/i.test(ct)) { req.body = {}; return next() }
      const first = req.raw.trimStart()[0]
      if (first !== '{' && first !== '[') { return next(Object.assign(new SyntaxError('Unexpected token in JSON'), { status: 400 })) }
      try { req.body = JSON.parse(req.raw) } catch (e) { return next(Object.assign(e, { status: 400 })) }
      next()
    }
  },
  urlencoded() { return (req, res, next) => next() },
}
export default bodyParser
export const json = bodyParser.json
export const urlencoded = bodyParser.urlencoded
