'use strict'
// Runs a Quint specification module against the real code, step by step.
//
// Every suite module has actions `init`, `choose` and `observe` and variables `op`, `ans`, `bad`, `tags`:
//   choose   picks the next request from the current state of the specification,
//   (driver) sends the request to the harness and stores the answer of the real code in `ans`,
//   observe  judges the answer (bad: violated properties) and continues from the observed state.
// The Quint evaluator is used as a library, so the specification is parsed and checked once and then executed.
const path = require('path')
const fs = require('fs')
const { spawn } = require('child_process')
const readline = require('readline')
const QUINT = process.env.QUINT_LIB || '/opt/veriftools/quint/node_modules/@informalsystems/quint/dist/src'
const q = f => require(path.join(QUINT, f))
const front = q('parsing/quintParserFrontend.js')
const { fileSourceResolver } = q('parsing/sourceResolver.js')
const { newIdGenerator } = q('idGenerator.js')
const { analyzeModules } = q('quintAnalyzer.js')
const { Evaluator } = q('runtime/impl/evaluator.js')
const { newTraceRecorder } = q('runtime/trace.js')
const { newRng } = q('rng.js')
const { buildDef } = q('runtime/impl/builder.js')
const { rv } = q('runtime/impl/runtimeValue.js')
const { right } = require(require.resolve('@sweet-monads/either', { paths: [QUINT] }))

function fail(msg) { throw new Error(msg) }

function loadSpec(file) {
  const p = path.resolve(file)
  const sourceCode = new Map([[p, fs.readFileSync(p, 'utf8')]])
  const idGen = newIdGenerator()
  const p1 = front.parsePhase1fromText(idGen, sourceCode.get(p), p)
  const resolver = fileSourceResolver(sourceCode)
  const main = resolver.lookupPath(path.dirname(p), path.basename(p))
  const p4 = front.parsePhase4toposort(front.parsePhase3importAndNameResolution(
    front.parsePhase2sourceResolution(idGen, resolver, main, { ...p1, defaultModuleName: undefined })))
  if (p4.errors.length > 0) fail('parse: ' + JSON.stringify(p4.errors[0], (k, v) => typeof v === 'bigint' ? String(v) : v))
  const [errors] = analyzeModules(p4.table, p4.modules)
  if (errors.length > 0) fail('typecheck: ' + JSON.stringify(errors[0], (k, v) => typeof v === 'bigint' ? String(v) : v))
  return p4
}

// ------------------------------------------------------------------ values
function toRv(v) {
  switch (typeof v) {
    case 'boolean': return rv.mkBool(v)
    case 'number': return rv.mkInt(BigInt(v))
    case 'bigint': return rv.mkInt(v)
    case 'string': return rv.mkStr(v)
  }
  if (Array.isArray(v)) return rv.mkList(v.map(toRv))
  if (v === null || typeof v !== 'object') fail('cannot convert ' + v)
  if (v['#bigint'] !== undefined) return rv.mkInt(BigInt(v['#bigint']))
  if (v['#set'] !== undefined) return rv.mkSet(v['#set'].map(toRv))
  if (v['#tup'] !== undefined) return rv.mkTuple(v['#tup'].map(toRv))
  if (v['#map'] !== undefined) return rv.mkMap(v['#map'].map(([k, x]) => [toRv(k), toRv(x)]))
  return rv.mkRecord(Object.entries(v).map(([k, x]) => [k, toRv(x)]))
}
// plain data: bigint, boolean, string, arrays, {'#set'}, {'#map'}, {'#tup'}, objects
function fromEx(ex) {
  switch (ex.kind) {
    case 'int': return ex.value
    case 'str': case 'bool': return ex.value
    case 'app':
      switch (ex.opcode) {
        case 'List': return ex.args.map(fromEx)
        case 'Set': return { '#set': ex.args.map(fromEx) }
        case 'Tup': return { '#tup': ex.args.map(fromEx) }
        case 'Rec': { const o = {}
          for (let i = 0; i < ex.args.length; i += 2) o[ex.args[i].value] = fromEx(ex.args[i + 1])
          return o }
        case 'Map': return { '#map': ex.args.map(e => e.args.map(fromEx)) }
      }
  }
  return fail('cannot read ' + ex.kind + ' ' + ex.opcode)
}
const fromRv = v => fromEx(rv.toQuintEx(v))
// JSON with integers of any size written as digits
function json(v) {
  if (v === undefined) return 'null'
  if (typeof v === 'bigint') return v.toString()
  if (Array.isArray(v)) return '[' + v.map(json).join(',') + ']'
  if (v && typeof v === 'object') return '{' + Object.entries(v).map(([k, x]) => JSON.stringify(k) + ':' + json(x)).join(',') + '}'
  return JSON.stringify(v)
}
// and back: integers become bigint
function parseOps(text) {
  return JSON.parse(text.replace(/([:\[,]\s*)(-?\d+)(?=\s*[,\]}])/g, '$1{"#i":"$2"}'), (k, v) =>
    v && typeof v === 'object' && v['#i'] !== undefined ? BigInt(v['#i']) : v)
}

// ------------------------------------------------------------------ the harness process
class Harness {
  constructor(cmd, suite) { this.cmd = cmd; this.suite = suite; this.start() }
  start() {
    this.dead = false
    this.waiting = null
    this.err = ''
    this.p = spawn(this.cmd, [this.suite], { stdio: ['pipe', 'pipe', 'pipe'], cwd: process.env.HARNESS_CWD || undefined })
    this.p.stdin.on('error', () => {})
    this.p.stderr.on('data', d => { this.err = (this.err + d).slice(-4000)
      if (process.env.HARNESS_DEBUG) process.stderr.write(d) })
    this.rl = readline.createInterface({ input: this.p.stdout, crlfDelay: Infinity })
    this.rl.on('line', l => { const w = this.waiting
      this.waiting = null
      if (w) w(l) })
    this.p.on('close', code => { this.dead = true
      this.code = code
      const w = this.waiting
      this.waiting = null
      if (w) w(null) })
  }
  ask(text) {
    if (this.dead) return Promise.resolve(null)
    return new Promise(res => { this.waiting = res
      this.p.stdin.write(text + '\n') })
  }
  async stop() { try { this.p.stdin.end()
    if (process.env.GOCOVERDIR && !this.dead) await new Promise(res => this.p.on('close', res))
    this.p.kill('SIGKILL') } catch (e) { } }
}

// ------------------------------------------------------------------ the loop
class Machine {
  constructor(file, main, seed) {
    this.spec = loadSpec(file)
    this.rng = newRng(seed)
    this.ev = new Evaluator(this.spec.table, newTraceRecorder(0, this.rng, 1), this.rng)
    this.ctx = this.ev.ctx
    const mod = this.spec.modules.find(m => m.name === main) || fail('no module ' + main)
    this.defs = {}
    for (const d of mod.declarations) if (d.kind === 'def') this.defs[d.name] = d
    this.acts = {}
    for (const n of ['init', 'choose', 'observe']) this.acts[n] = buildDef(this.ev.builder, this.defs[n] || fail('no ' + n))
    this.step('init') // discovers the variables
    this.reg = {}
    this.ctx.varStorage.vars.forEach(r => { this.reg[r.name] = r })
  }
  seed(s) { this.rng.setState(s) }
  step(name) {
    const r = this.acts[name](this.ctx)
    if (r.isLeft()) fail(`specification error in ${name}: ${r.value.code} ${r.value.message}`)
    if (!r.value.toBool()) fail(`action ${name} is not enabled`)
    this.ctx.varStorage.shiftVars()
    this.ctx.varStorage.clearMetadata()
  }
  get(name) { const v = this.reg[name].value
    return v.isRight() ? v.value : fail(name + ' is not set') }
  set(name, value) { this.reg[name].value = right(value)
    this.ctx.varStorage.clearCaches() }
  init() { this.ctx.varStorage.reset()
    this.ctx.varStorage.clearCaches()
    this.step('init') }
}

async function main() {
  const a = {}
  for (let i = 2; i < process.argv.length; i += 2) a[process.argv[i].replace(/^--/, '')] = process.argv[i + 1]
  const started = Date.now()
  const seed0 = (BigInt(a.seed || 1) * 4096n + BigInt(a.worker || 0)) * (1n << 40n)
  const m = new Machine(a.spec, a.module, seed0 + 7n)
  const h = new Harness(a.harness, a.suite || a.module)
  const maxSteps = Number(a.steps || 60), seconds = Number(a.time || 10), maxRuns = Number(a.runs || 1e9)
  const focus = a.focus ? a.focus.split(',') : []
  const stats = { runs: 0, steps: 0, kinds: {}, tags: {}, violations: [], samples: [], error: null, resyncErrors: 0, distinct: 0 }
  const profiles = a.profiles ? a.profiles.split(',').map(BigInt) : null
  const seen = new Set()
  const perLabel = {}
  const replay = a.replay ? parseOps(fs.readFileSync(a.replay, 'utf8')) : null
  let deadline = 0
  try {
    // the clock starts when the harness is up
    await h.ask('{"reset":true}')
    deadline = Date.now() + seconds * 1000
    for (let run = 0; run < (replay ? 1 : maxRuns) && (replay || Date.now() < deadline); run++) {
      if (h.dead) h.start()
      await h.ask('{"reset":true}')
      m.seed(replay ? BigInt(replay.seed) : seed0 + BigInt(run) * (1n << 22n))
      m.init()
      if (profiles && !replay) m.set('prof', toRv(profiles[(run + Number(a.worker || 0)) % profiles.length]))
      const ops = []
      let violated = 0, hits = 0
      const limit = replay ? replay.ops.length : maxSteps
      for (let s = 0; s < limit && (replay || Date.now() < deadline || s === 0); s++) {
        let ctl = null
        try {
          if (replay) m.set('op', toRv(replay.ops[s]))
          else m.step('choose')
          const op = fromRv(m.get('op'))
          const line = json(op)
          ops.push(op)
          if (op.kind === 'end') { ops.pop()
            break }
          const text = await h.ask(line)
          let ans
          if (text === null) {
            if (h.code === 4 || h.code === 2 && /bad request|no such suite|verif:/.test(h.err)) fail('harness failed: ' + h.err)
            ans = { crash: true }
          } else ans = JSON.parse(text)
          if (ans.crash || ans.hang > 0 && ans.hang !== true) {
            ctl = ans.crash ? 'crash' : 'hang'
            // the request did not return: take the previous answer with the hang flag set
            const prev = fromRv(m.get('ans'))
            m.set('ans', toRv({ ...prev, ok: false, hang: true }))
          } else m.set('ans', toRv(ans))
          m.step('observe')
          stats.steps++
          const kind = op.kind
          stats.kinds[kind] = (stats.kinds[kind] || 0) + 1
          if (!seen.has(line) && seen.size < 3e6) { seen.add(line)
            stats.distinct++ }
          for (const t of fromRv(m.get('tags'))['#set']) {
            const k = Array.isArray(t['#tup']) ? t['#tup'].join(': ') : String(t)
            stats.tags[k] = (stats.tags[k] || 0) + 1
          }
          const bad = fromRv(m.get('bad'))['#set']
          if (bad.length > 0) {
            violated++
            const fresh = bad.filter(b => (perLabel[b] = (perLabel[b] || 0) + 1) <= 2)
            if (fresh.length > 0) stats.violations.push({ labels: bad, ctl, seed: (seed0 + BigInt(run) * (1n << 22n)).toString(),
              ops: ops.slice(), answer: ans, stderr: ctl ? h.err : undefined })
            const hit = focus.length === 0 || bad.some(b => focus.includes(b.slice(0, 3)))
            if (hit) hits++
            if (!replay && (ctl || hits >= 10 || hit && stats.violations.length >= 4)) break
          }
        } catch (e) {
          // after a violation the observed state may be one the specification has no meaning for
          if (violated > 0) { stats.resyncErrors++
            break }
          stats.errorOps = ops.slice(-3)
          throw e
        }
      }
      stats.runs++
      if (stats.samples.length < 2 && ops.length > 0) stats.samples.push(ops.slice(0, 8))
      if (stats.violations.length >= 4 && stats.violations.some(v => focus.length === 0 || v.labels.some(b => focus.includes(b.slice(0, 3))))) break
      if (stats.violations.length >= 60) break
    }
  } catch (e) { stats.error = String(e && e.stack || e) }
  await h.stop()
  stats.ms = Date.now() - started
  const text = json(stats)
  if (a.out) fs.writeFileSync(a.out, text)
  else console.log(text)
  process.exit(stats.error ? 2 : 0)
}
if (require.main === module) main()
module.exports = { loadSpec, Machine, fromRv, toRv, json }
