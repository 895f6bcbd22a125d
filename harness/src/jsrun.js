// Runs pairs of programs and compares what they did. One JSON request per line: {id, a, b}.
'use strict';
const vm = require('vm');
const PRE = new vm.Script(`
Function.prototype.toString = function () { return 'fn' };
(function () {
  const trace = [];
  let left = 1500;
  const keys = Object.keys, str = String, isA = Array.isArray, sym = Symbol.prototype.toString;
  function show(v, d) {
    switch (typeof v) {
      case 'string': return JSON.stringify(v.length > 4000 ? v.slice(0, 4000) : v);
      case 'function': return 'function';
      case 'symbol': return 'symbol';
      case 'bigint': return v + 'n';
      case 'number': return Object.is(v, -0) ? '-0' : '' + v;
      case 'object':
        if (v === null) return 'null';
        // aggregation declares variables, and those show in the global object
        if (v === globalThis) return 'global';
        if (d > 3) return '...';
        try {
          if (v instanceof Error) return 'error ' + v.name;
          if (v instanceof RegExp) return 'regex ' + v.source + ' ' + v.flags;
          if (isA(v) && v.length > 200) return 'array ' + v.length;
          let o = isA(v) ? '[' + v.length + ':' : '{';
          for (const k of keys(v).slice(0, 50)) {
            const desc = Object.getOwnPropertyDescriptor(v, k);
            o += k + ':' + (desc && desc.get ? 'getter' : show(v[k], d + 1)) + ',';
          }
          return o + '}';
        } catch (e) { return 'unshowable' }
      default: return '' + v;
    }
  }
  globalThis.p = function p() {
    if (left-- <= 0) throw new RangeError('trace is full');
    let o = '';
    for (let i = 0; i < arguments.length; i++) o += show(arguments[i], 0) + ' ';
    trace.push(o);
    return arguments.length ? arguments[0] : undefined;
  };
  Object.defineProperty(globalThis, '__take', { value: () => trace.join('\\n'), enumerable: false });
  Object.defineProperty(globalThis, '__show', { value: show, enumerable: false });
})()`);
function run(src) {
  let script;
  try { script = new vm.Script(src) } catch (e) { return { syntax: String(e && e.message) } }
  const c = vm.createContext({}, { microtaskMode: 'afterEvaluate' });
  PRE.runInContext(c);
  let end;
  try { script.runInContext(c, { timeout: 1000 }); end = 'done' } catch (e) {
    if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') return { skip: 'timeout' };
    let n; try { n = e && typeof e === 'object' && typeof e.name === 'string' ? e.name : typeof e } catch (x) { n = 'odd' }
    end = 'threw ' + n;
    if (n === 'RangeError') return { skip: 'RangeError' };
  }
  const t = vm.runInContext('__take()', c);
  if (/RangeError/.test(t)) return { skip: 'RangeError' };
  return { trace: t + '\n' + end };
}
// ---- real files: their tokens and statement lists
let acorn;
try { acorn = require('/opt/veriftools/node/node_modules/acorn') } catch (e) {}
const OPT = { ecmaVersion: 'latest', allowReturnOutsideFunction: true, allowHashBang: true, allowAwaitOutsideFunction: true, allowSuperOutsideMethod: true };
function lexOnce(src) {
  let err;
  for (const sourceType of ['module', 'script']) {
    const asi = [], tk = [];
    try { return { ast: acorn.parse(src, { ...OPT, sourceType, onInsertedSemicolon: (p) => asi.push(p), onToken: tk }), asi, tk } } catch (e) { err = e }
  }
  throw err;
}
function lex(file) {
  let src = require('fs').readFileSync(file, 'utf8');
  let r = lexOnce(src);
  if (r.asi.length) {
    // written out, what isn't there
    for (const p of [...new Set(r.asi)].sort((a, b) => b - a)) src = src.slice(0, p) + ';' + src.slice(p);
    r = lexOnce(src);
    if (r.asi.length) throw new Error('semicolons');
  }
  const names = new Map(), lists = [];
  const str = (n, k) => { if (n && n.type === 'Literal' && typeof n.value === 'string') names.set(n.start, k) };
  (function walk(n) {
    if (Array.isArray(n)) { n.forEach(walk); return }
    if (!n || typeof n !== 'object' || typeof n.type !== 'string') return;
    switch (n.type) {
      case 'Property': case 'MethodDefinition': case 'PropertyDefinition': if (!n.computed) str(n.key, 'n'); break;
      case 'ImportDeclaration': case 'ExportNamedDeclaration': case 'ExportAllDeclaration': str(n.source, 'm'); str(n.exported, 'm'); break;
      case 'ImportSpecifier': str(n.imported, 'm'); break;
      case 'ExportSpecifier': str(n.local, 'm'); str(n.exported, 'm'); break;
      case 'ImportAttribute': str(n.key, 'm'); str(n.value, 'm'); break;
      case 'ExpressionStatement': if (n.directive) names.set(n.start, 'd'); break;
    }
    const l = n.type === 'SwitchCase' ? n.consequent : Array.isArray(n.body) && /^(Program|BlockStatement|StaticBlock)$/.test(n.type) ? n.body : null;
    if (l && l.length) lists.push(l.map((x) => [x.start, x.end]));
    for (const k of Object.keys(n)) if (k !== 'type') walk(n[k]);
  })(r.ast);
  const v = [];
  const tk = r.tk.filter((t) => t.type.label !== 'eof');
  let prev = 0;
  for (let i = 0; i < tk.length; i++) {
    const t = tk[i];
    let k, e = t.end;
    const l = t.type.label;
    if (l === '`') {
      k = 't';
      // up to the backtick that closes it
      let d = 0, j = i + 1;
      const st = ['`'];
      for (; st.length; j++) {
        const x = tk[j].type.label;
        if (x === '`') { if (st[st.length - 1] === '`') st.pop(); else st.push('`') }
        else if (x === '${' || x === '{') st.push('{');
        else if (x === '}') st.pop();
      }
      i = j - 1;
      e = tk[i].end;
    } else k = l === 'string' ? 's' : l === 'num' || l === 'bigint' ? 'd' : l === 'regexp' ? 'r' : l === 'name' || l === 'privateId' || t.type.keyword ? 'w' : 'p';
    const nl = /[\n\r\u2028\u2029]/.test(src.slice(prev, t.start));
    v.push({ k, s: t.start, e, f: names.get(t.start) || '-', nl });
    prev = e;
  }
  const at = new Map(v.map((x, i) => [x.s, i])), end = new Map(v.map((x, i) => [x.e, i + 1]));
  const ls = lists.map((l) => l.map(([s, e]) => at.get(s) + '-' + end.get(e)).join(',')).join(';');
  const cm = (a, b) => { const g = src.slice(a, b); return /\/\*|\/\//.test(g) ? 'c' : '-' };
  return JSON.stringify(src) + '\t' + v.map((x, i) => x.k + x.f + (x.nl ? 'n' : '-') + (x.s) + '+' + (x.e - x.s)).join(' ') + '\t' + ls + '\t' + (r.ast.sourceType === 'module' && r.ast.body.some((n) => /^(Im|Ex)port/.test(n.type)) ? 'm' : '-');
}
const rl = require('readline').createInterface({ input: process.stdin, terminal: false });
rl.on('line', (l) => {
  let q, r;
  try {
    q = JSON.parse(l);
    if (q.css) {
      // what another minifier makes of both
      const t = (code) => require('/opt/veriftools/node/node_modules/lightningcss').transform({ filename: 'x.css', code: Buffer.from(code), minify: true }).code.toString();
      let x, y;
      try { x = t(q.a) } catch (e) { r = 'badsrc ' + e.message }
      if (x !== undefined) try { y = t(q.b) } catch (e) { r = 'badout ' + e.message }
      if (x !== undefined && y !== undefined) {
        let i = 0;
        while (i < x.length && x[i] === y[i]) i++;
        r = x === y ? 'same' : 'differ ' + JSON.stringify(x.slice(Math.max(0, i - 40), i + 60)) + ' became ' + JSON.stringify(y.slice(Math.max(0, i - 40), i + 60));
      }
      process.stdout.write(r.replace(/[\r\n]/g, ' ') + '\n');
      return;
    }
    if (q.f) {
      try { r = 'lex\t' + lex(q.f) } catch (e) { r = 'bad ' + e }
      process.stdout.write(r.replace(/[\r\n]/g, ' ') + '\n');
      return;
    }
    if (q.m) {
      const parse = (src) => { try { new vm.SourceTextModule(src); return '' } catch (e) { return String(e && e.message) } };
      const x = parse(q.a), y = x || parse(q.b);
      r = x ? 'badsrc ' + x : y ? 'badout ' + y : 'same 0';
      process.stdout.write(r.replace(/[\r\n]/g, ' ') + '\n');
      return;
    }
    const a = run(q.a);
    if (a.syntax !== undefined) r = 'badsrc ' + a.syntax;
    else if (a.skip) r = 'skip ' + a.skip;
    else {
      const b = run(q.b);
      if (b.syntax !== undefined) r = 'badout ' + b.syntax;
      else if (b.skip) r = 'skip ' + b.skip;
      else if (a.trace === b.trace) r = 'same ' + a.trace.split('\n').length;
      else {
        const x = a.trace.split('\n'), y = b.trace.split('\n');
        let i = 0;
        while (i < x.length && x[i] === y[i]) i++;
        r = 'differ at event ' + i + ': ' + String(x[i]).slice(0, 300) + ' became ' + String(y[i]).slice(0, 300);
      }
    }
  } catch (e) { r = 'skip ' + (e && e.name) }
  process.stdout.write(r.replace(/[\r\n]/g, ' ') + '\n');
});
process.on('uncaughtException', () => {});
process.on('unhandledRejection', () => {});
