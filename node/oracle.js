'use strict';
// Independent JavaScript parser (acorn) and engine (node's vm). Reads one JSON request per line and
// writes one JSON answer per line.
const acorn = require('/opt/veriftools/node/node_modules/acorn');
const vm = require('vm');

function parse(text, module) {
  return acorn.parse(text, {
    ecmaVersion: 2022,
    sourceType: module ? 'module' : 'script',
    allowReturnOutsideFunction: !module,
  });
}

// The tree without places. A directive other than "use strict" is an ordinary string.
function plain(tree) {
  return JSON.stringify(tree, function (k, v) {
    if (k === 'start' || k === 'end') return undefined;
    if (k === 'raw' && this.type === 'Literal') return undefined;
    if (typeof v === 'bigint') return v + 'n';
    if (k === 'directive' && v !== 'use strict') return undefined;
    if (v instanceof RegExp) return null;
    return v;
  });
}

// The program with a call at the start of every loop body and function body, so that it ends.
function ticked(text, tree) {
  const at = [];
  (function walk(n) {
    if (!n || typeof n !== 'object') return;
    if (Array.isArray(n)) return n.forEach(walk);
    if (typeof n.type === 'string') {
      if (/^(While|DoWhile|For|ForIn|ForOf)Statement$/.test(n.type)) {
        at.push([n.body.start, '{__oracle_tick();', 0], [n.body.end, '}', 1]);
      }
      if (/^(FunctionDeclaration|FunctionExpression|ArrowFunctionExpression)$/.test(n.type) && n.body.type === 'BlockStatement') {
        let p = n.body.start + 1;
        for (const s of n.body.body) if (s.directive !== undefined) p = s.end; else break;
        at.push([p, ';__oracle_tick();', 0]);
      }
    }
    for (const k in n) if (k !== 'start' && k !== 'end') walk(n[k]);
  })(tree);
  // closing braces come before opening ones at the same place
  at.sort((a, b) => a[0] - b[0] || b[2] - a[2]);
  let out = '', p = 0;
  for (const [i, s] of at) { out += text.slice(p, i) + s; p = i; }
  return out + text.slice(p);
}

// ---- running a program whose free names, this and arguments are recording objects

const LIMIT = 1500, TICKS = 2000;
class Stop {}
const PRELUDE = new vm.Script(`
  Function.prototype.toString = function () { return 'function' };
  Error.prototype.toString = function () { return 'error' };
`);

function run(code) {
  const log = [];
  let ids = 0, dead = false, inner = 0;
  const universal = new WeakMap();
  const seen = new Set(), queue = [];
  function step(what) {
    if (dead || log.length >= LIMIT) { dead = true; throw new Stop(); }
    log.push(what);
  }
  function key(k) { return typeof k === 'symbol' ? k.toString() : k; }
  function describe(v, depth) {
    switch (typeof v) {
      case 'string': return JSON.stringify(v.length > 300 ? v.slice(0, 300) + v.length : v);
      case 'number': return Object.is(v, -0) ? '-0' : String(v);
      case 'undefined': case 'boolean': return String(v);
      case 'symbol': return 'symbol';
      case 'bigint': return v + 'n';
    }
    if (v === null) return 'null';
    if (universal.has(v)) return '#' + universal.get(v);
    if (typeof v === 'function') {
      if (!seen.has(v)) {
        seen.add(v);
        queue.push(v);
        const p = Object.getOwnPropertyDescriptor(v, 'prototype');
        let s = 'function/' + v.length;
        if (depth < 3) {
          s += '(' + members(v, depth) + ')';
          if (p && p.value && typeof p.value === 'object' && !universal.has(p.value)) s += '{' + members(p.value, depth) + '}';
        }
        return s;
      }
      return 'function';
    }
    const kind = Object.prototype.toString.call(v);
    if (kind === '[object Error]') return 'Error';
    if (kind === '[object RegExp]') return RegExp.prototype.toString.call(v);
    if (depth > 3) return '...';
    return (Array.isArray(v) ? 'array' : 'object') + '{' + members(v, depth) + '}';
  }
  function members(v, depth) {
    const out = [];
    for (const k of Reflect.ownKeys(v)) {
      if (k === 'prototype' || k === 'name' || k === 'length' && typeof v === 'function' || k === 'arguments' || k === 'caller' || k === 'constructor') continue;
      if (out.length > 12) { out.push('...'); break; }
      const d = Reflect.getOwnPropertyDescriptor(v, k);
      if (!d) continue;
      out.push(key(k) + ':' + ('value' in d ? describe(d.value, depth + 1)
        : 'get ' + describe(d.get, depth + 1) + ' set ' + describe(d.set, depth + 1)) + (d.enumerable ? '' : '!'));
    }
    return out.join(',');
  }
  function callback(f) {
    if (inner > 3) return;
    inner++;
    try { Reflect.apply(f, U(), [U(), U()]); } catch (e) { if (e instanceof Stop) throw e; step('callback threw ' + describe(e, 0)); } finally { inner--; }
  }
  function calls(args) {
    for (const a of args) if (typeof a === 'function' && !universal.has(a)) callback(a);
  }
  function U() {
    const id = ++ids;
    const target = (function () {}).bind();
    const p = new Proxy(target, {
      get(t, k) {
        step('get #' + id + ' ' + key(k));
        if (k === Symbol.toPrimitive) return (hint) => { step('primitive #' + id + ' ' + hint); return hint === 'string' ? 's' + id : id % 7; };
        if (k === Symbol.iterator) return () => { let n = 0; return { next() { step('next #' + id); return { done: ++n > 2, value: n > 2 ? undefined : U() }; }, return(v) { step('close #' + id); return {}; } }; };
        if (k === Symbol.hasInstance) return (v) => { step('instance #' + id + ' ' + describe(v, 0)); return id % 2 === 0; };
        if (typeof k === 'symbol') return undefined;
        return U();
      },
      set(t, k, v) { step('set #' + id + ' ' + key(k) + ' ' + describe(v, 0)); return true; },
      has(t, k) { step('has #' + id + ' ' + key(k)); return id % 2 === 0; },
      deleteProperty(t, k) { step('delete #' + id + ' ' + key(k)); return true; },
      apply(t, self, args) { step('call #' + id + ' ' + describe(self, 0) + ' (' + args.map((a) => describe(a, 0)) + ')'); calls(args); return U(); },
      construct(t, args) { step('new #' + id + ' (' + args.map((a) => describe(a, 0)) + ')'); calls(args); return U(); },
      ownKeys() { step('keys #' + id); return ['p', 'q']; },
      getOwnPropertyDescriptor(t, k) { step('own #' + id + ' ' + key(k)); return k === 'p' || k === 'q' ? { configurable: true, enumerable: true, writable: true, value: U() } : undefined; },
      defineProperty(t, k, d) { step('define #' + id + ' ' + key(k) + ' ' + ('value' in d ? describe(d.value, 0) : 'accessor')); return true; },
      getPrototypeOf() { return null; },
      setPrototypeOf() { return true; },
      isExtensible() { return true; },
    });
    universal.set(p, id);
    return p;
  }
  const names = new Map();
  const scope = new Proxy(Object.create(null), {
    has(t, k) { return typeof k === 'string' && k !== 'undefined' && !k.startsWith('__oracle'); },
    get(t, k) { if (typeof k === 'symbol') return undefined; step('read ' + k); if (!names.has(k)) names.set(k, U()); return names.get(k); },
    set(t, k, v) { step('write ' + key(k) + ' ' + describe(v, 0)); names.set(k, v); return true; },
    deleteProperty(t, k) { step('delete ' + key(k)); names.delete(k); return true; },
  });
  const sandbox = Object.create(null);
  sandbox.__oracle_scope = scope;
  let ticks = 0;
  sandbox.__oracle_tick = () => { if (dead || ++ticks > TICKS) { dead = true; throw new Stop(); } };
  sandbox.__oracle_this = U();
  sandbox.__oracle_seen = (...vs) => { step('top ' + vs.map((v) => describe(v, 0))); };
  const ctx = vm.createContext(sandbox, { codeGeneration: { strings: false, wasm: false } });
  PRELUDE.runInContext(ctx);
  try {
    const script = new vm.Script('with(__oracle_scope){(function(){' + code + '\n}).call(__oracle_this)}');
    const v = script.runInContext(ctx, { timeout: 500 });
    log.push('end ' + describe(v, 0));
  } catch (e) {
    if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') return { timeout: true };
    if (e instanceof Stop) return { log };
    // a SyntaxError is the outer realm's
    if (e instanceof SyntaxError) return { syntax: String(e.message) };
    log.push('threw ' + describe(e, 0) + (e && typeof e === 'object' && !universal.has(e) && Object.prototype.toString.call(e) === '[object Error]' ? ' ' + (Object.getPrototypeOf(e).constructor || {}).name : ''));
  }
  // run the functions that were seen
  try {
    const go = vm.runInContext('(function(f){f()})', ctx);
    sandbox.__oracle_go = () => {
      for (let i = 0; i < queue.length && i < 25; i++) {
        const f = queue[i];
        log.push('calling ' + i);
        try { const r = Reflect.apply(f, U(), [U(), U(), U()]); log.push('result ' + describe(r, 0)); pump(r); }
        catch (e) {
          if (e instanceof Stop) throw e;
          log.push('threw ' + describe(e, 0));
          try { const r = Reflect.construct(f, [U(), U()]); log.push('made ' + describe(r, 0)); }
          catch (e) { if (e instanceof Stop) throw e; log.push('threw ' + describe(e, 0)); }
        }
      }
    };
    function pump(r) {
      if (r && typeof r === 'object' && !universal.has(r) && Object.prototype.toString.call(r) === '[object Generator]') {
        for (let i = 0; i < 3; i++) log.push('pumped ' + describe(r.next(U()), 0));
      }
    }
    new vm.Script('__oracle_go()').runInContext(ctx, { timeout: 500 });
  } catch (e) {
    if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') return { timeout: true };
    if (!(e instanceof Stop)) log.push('driver ' + describe(e, 0));
  }
  return { log };
}

// names declared directly at the top, to look at when the program has ended
function tops(tree) {
  const out = [];
  for (const s of tree.body) {
    if (s.type === 'FunctionDeclaration' || s.type === 'ClassDeclaration') out.push(s.id.name);
    if (s.type === 'VariableDeclaration') for (const d of s.declarations) if (d.id.type === 'Identifier') out.push(d.id.name);
  }
  return out;
}

function differ(a, b) {
  let i = 0;
  while (i < a.length && i < b.length && a[i] === b[i]) i++;
  return { at: i, source: a[i] === undefined ? null : a[i].slice(0, 300), output: b[i] === undefined ? null : b[i].slice(0, 300), before: a.slice(Math.max(0, i - 3), i).map((x) => x.slice(0, 200)) };
}
function diffText(a, b) {
  let i = 0;
  while (i < a.length && a[i] === b[i]) i++;
  return a.slice(Math.max(0, i - 80), i + 120) + '  <>  ' + b.slice(Math.max(0, i - 80), i + 120);
}

// '' when the engine accepts the text, what it says otherwise
function refusal(text, module) {
  try {
    if (module) new vm.SourceTextModule(text); else new vm.Script('(function(){' + text + '\n})');
    return '';
  } catch (e) { return String(e && e.message || 'rejected'); }
}

const ops = {
  parse(q) {
    try { return { tree: parse(q.text, q.module) }; } catch (e) { if (!(e instanceof SyntaxError)) throw e; return { error: e.message, pos: e.pos === undefined ? -1 : e.pos }; }
  },
  // is the text a program, script or module? Only when both acorn and V8 say no it is not
  accepts(q) {
    const errors = [];
    for (const module of [false, true]) {
      try { parse(q.text, module); return { ok: true }; } catch (e) { if (!(e instanceof SyntaxError)) throw e; errors.push(e); }
    }
    const engine = [false, true].map((module) => refusal(q.text, module));
    if (engine.includes('')) return { ok: true };
    return { script: errors[0].message, module: errors[1].message, engine: engine[0] };
  },
  // q.source, q.outputs: do the outputs denote the source's program?
  same(q) {
    let tree;
    try { tree = parse(q.source, q.module); } catch (e) { if (!(e instanceof SyntaxError)) throw e; return { rejected: e.message }; }
    const want = plain(tree), trees = [];
    for (let i = 0; i < q.outputs.length; i++) {
        let got;
      try { trees[i] = parse(q.outputs[i], q.module); got = plain(trees[i]); } catch (e) { if (!(e instanceof SyntaxError)) throw e; 
        // acorn's tokenizer guesses wrong now and then: for([a] of function(){}/b);
        if (!refusal(q.outputs[i], q.module)) return { rejected: 'output: ' + e.message };
        return { bad: i, why: 'the output is rejected: ' + e.message };
      }
      if (got !== want) return { bad: i, why: 'the output is another program: ' + diffText(want, got) };
    }
    const r = { tree };
    if (!q.module && q.run) {
      const names = tops(tree);
      const tail = names.length ? '\n;__oracle_seen(' + names.map((n) => '(function(){try{return ' + n + '}catch(e){}})()').join(',') + ')' : '';
      const source = ticked(q.source, tree) + tail;
      const a = run(source);
      if (a.timeout) { r.timeout = true; return r; }
      if (a.syntax) { r.syntax = a.syntax; return r; }
      r.steps = a.log.length;
      for (let i = 0; i < q.outputs.length; i++) {
        const output = ticked(q.outputs[i], trees[i]) + tail;
        const b = run(output);
        if (b.timeout) { r.timeout = true; return r; }
        // (V8 rejects some valid patterns: f([a] + b, {} = c))
        if (b.syntax) { r.syntax = b.syntax; continue; }
        if (JSON.stringify(a.log) !== JSON.stringify(b.log)) {
          // the trace of one text has to be stable before a difference counts
          const a2 = run(source), b2 = run(output);
          if (a2.log && b2.log && JSON.stringify(a.log) === JSON.stringify(a2.log) && JSON.stringify(b.log) === JSON.stringify(b2.log)) {
            return { bad: i, why: 'the traces differ: ' + JSON.stringify(differ(a.log, b.log)) };
          }
          r.unstable = true;
        }
      }
    }
    return r;
  },
};

let rest = '';
process.stdin.setEncoding('utf8');
process.stdin.on('data', (chunk) => {
  rest += chunk;
  let i;
  while ((i = rest.indexOf('\n')) >= 0) {
    const line = rest.slice(0, i);
    rest = rest.slice(i + 1);
    let answer;
    try { const q = JSON.parse(line); answer = ops[q.op](q); } catch (e) { answer = { failure: String(e && e.stack || e) }; }
    process.stdout.write(JSON.stringify(answer, (k, v) => (v instanceof RegExp ? null : typeof v === 'bigint' ? String(v) : v)) + '\n');
  }
});
process.stdin.on('end', () => process.exit(0));
