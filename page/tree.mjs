// The tree the native library builds (its compact Debug text), and how to
// find it again in the module's value or in what the page displays.

// --- Debug text -> nodes
// {k:'id', id, args} | {k:'rec', id, fields:[[name,node]]} | {k:'list', v} |
// {k:'map', v:[[string,node]]} | {k:'str', v} | {k:'num', v}
export function parseDebug(t) {
  let i = 0;
  const bad = (m) => { throw new Error(`debug text: ${m} at ${i}: ${t.slice(i, i + 40)}`); };
  const ws = () => { while (t[i] === ' ') i++; };
  const eat = (c) => { ws(); if (t[i] === c) { i++; return true; } return false; };
  const need = (c) => { if (!eat(c)) bad(`expected ${c}`); };
  function str() {
    let s = '';
    i++;
    for (;;) {
      const c = t[i];
      if (c === undefined) bad('string');
      if (c === '"') { i++; return s; }
      if (c === '\\') {
        const e = t[i + 1];
        if (e === 'u') {
          const end = t.indexOf('}', i);
          s += String.fromCodePoint(parseInt(t.slice(i + 3, end), 16));
          i = end + 1;
          continue;
        }
        s += { n: '\n', r: '\r', t: '\t', 0: '\0' }[e] ?? e;
        i += 2;
        continue;
      }
      s += c;
      i++;
    }
  }
  function list(close) {
    const v = [];
    while (!eat(close)) {
      v.push(node());
      if (!eat(',')) { need(close); break; }
    }
    return v;
  }
  function node() {
    ws();
    const c = t[i];
    if (c === '"') return { k: 'str', v: str() };
    if (c === '[') { i++; return { k: 'list', v: list(']') }; }
    if (c === '(') { i++; return { k: 'list', v: list(')') }; }
    if (c === '{') {
      i++;
      const v = [];
      while (!eat('}')) {
        ws();
        if (t[i] !== '"') bad('key');
        const key = str();
        need(':');
        v.push([key, node()]);
        if (!eat(',')) { need('}'); break; }
      }
      return { k: 'map', v };
    }
    const m = /^-?(?:inf|NaN|\d[\d.]*(?:e[+-]?\d+)?)(?![A-Za-z_])/.exec(t.slice(i, i + 400));
    if (m) { i += m[0].length; return { k: 'num', v: m[0].includes('inf') ? (m[0][0] === '-' ? -Infinity : Infinity) : Number(m[0]) }; }
    const w = /^[A-Za-z_][A-Za-z0-9_]*/.exec(t.slice(i, i + 100));
    if (!w) bad('node');
    const id = w[0];
    i += id.length;
    if (t[i] === '(') { i++; return { k: 'id', id, args: list(')') }; }
    if (t[i] === ' ' && t[i + 1] === '{') {
      i += 2;
      const fields = [];
      while (!eat('}')) {
        ws();
        const f = /^[A-Za-z_][A-Za-z0-9_]*/.exec(t.slice(i, i + 100));
        if (!f) bad('field');
        i += f[0].length;
        need(':');
        fields.push([f[0], node()]);
        if (!eat(',')) { need('}'); break; }
      }
      return { k: 'rec', id, fields };
    }
    return { k: 'id', id, args: null };
  }
  const r = node();
  ws();
  if (i !== t.length) bad('rest');
  return r;
}

// --- A value: from the module (objects of its realm) or read back from text.
// Values read back are {obj: [[k, v]]}, {arr: [...]} and primitives.
const tagOf = (v) => Object.prototype.toString.call(v);
function norm(v) {
  if (v === null || typeof v !== 'object') return v;
  if (v.arr || v.obj) return v;
  if (Array.isArray(v)) return { arr: v };
  if (tagOf(v) === '[object Map]') return { obj: [...v.entries()], map: true };
  return { obj: Object.keys(v).map((k) => [k, v[k]]) };
}
const brief = (v) => { try { return (typeof v === 'bigint' ? `${v}n` : JSON.stringify(v)).slice(0, 80); } catch { return String(v).slice(0, 80); } };
const field = (o, k) => o.find((e) => e[0] === k);

// Where the value does not say what the node says; null if it does.
// Values nested deeply enough would be a problem of this function, so the
// walk keeps its own stack.
export function differs(root, value) {
  const todo = [[root, value, '']];
  const isNum = (n) => n.k === 'num';
  while (todo.length) {
    const [n, raw, at] = todo.pop();
    const v = norm(raw);
    const no = (w) => `${at || 'tree'}: ${w}, found ${brief(raw)}`;
    switch (n.k) {
      case 'str': if (v !== n.v) return no(`string ${JSON.stringify(n.v)}`); break;
      case 'num':
        if (!(typeof v === 'number' && Object.is(v, n.v)) && !(typeof v === 'bigint' && Number(v) === n.v)) return no(`number ${n.v}`);
        break;
      case 'list':
        if (!v?.arr || v.arr.length !== n.v.length) return no(`list of ${n.v.length}`);
        n.v.forEach((x, k) => todo.push([x, v.arr[k], `${at}[${k}]`]));
        break;
      case 'map':
        if (!v?.obj || v.obj.length !== n.v.length) return no(`map of ${n.v.length}`);
        for (let k = 0; k < n.v.length; k++) {
          if (v.obj[k][0] !== n.v[k][0]) return no(`key ${JSON.stringify(n.v[k][0])} as entry ${k}`);
          todo.push([n.v[k][1], v.obj[k][1], `${at}.${n.v[k][0]}`]);
        }
        break;
      case 'rec': {
        // A map, or a record with one field of no interest, may be bare.
        const one = n.fields.length === 1;
        if (v?.obj && !v.map && n.fields.every(([f]) => field(v.obj, f))) {
          for (const [f, x] of n.fields) todo.push([x, field(v.obj, f)[1], `${at}.${f}`]);
        } else if (one && (n.id === 'Cell' || n.id === 'RefCell' || n.fields[0][1].k === 'map' || isNum(n.fields[0][1]))) {
          todo.push([n.fields[0][1], raw, at]);
        } else {
          return no(`${n.id} with ${n.fields.map((f) => f[0])}`);
        }
        break;
      }
      case 'id': {
        if (n.id === 'true' || n.id === 'false') { if (v !== (n.id === 'true')) return no(n.id); break; }
        if (n.id === 'None' && !n.args) { if (v !== undefined && v !== null) return no('nothing'); break; }
        if (n.id === 'Some' && n.args?.length === 1) { todo.push([n.args[0], raw, at]); break; }
        const type = v?.obj && field(v.obj, 'type');
        if (!n.args) {
          if (v !== n.id && !(type && type[1] === n.id)) return no(n.id);
          break;
        }
        if (type && type[1] === n.id) {
          const a = field(v.obj, 'args');
          if (n.args.length === 1) {
            if (!a) return no(`${n.id} with args`);
            todo.push([n.args[0], a[1], `${at}.${n.id}`]);
          } else {
            const l = a && norm(a[1]);
            if (!l?.arr || l.arr.length !== n.args.length) return no(`${n.id} with ${n.args.length} args`);
            n.args.forEach((x, k) => todo.push([x, l.arr[k], `${at}.${n.id}[${k}]`]));
          }
        } else if (n.args.length === 1 && isNum(n.args[0])) {
          todo.push([n.args[0], raw, at]); // an index with a name for its type
        } else {
          return no(n.id);
        }
        break;
      }
    }
  }
  return null;
}

// --- Two values of the module
export function same(a, b) {
  const todo = [[a, b]];
  while (todo.length) {
    const [p, q] = todo.pop();
    const x = norm(p), y = norm(q);
    if (x === null || typeof x !== 'object' || y === null || typeof y !== 'object') {
      if (!Object.is(x, y)) return false;
    } else if (x.arr) {
      if (!y.arr || x.arr.length !== y.arr.length) return false;
      x.arr.forEach((e, k) => todo.push([e, y.arr[k]]));
    } else {
      if (!y.obj || x.obj.length !== y.obj.length || !!x.map !== !!y.map) return false;
      for (let k = 0; k < x.obj.length; k++) {
        if (x.obj[k][0] !== y.obj[k][0]) return false;
        todo.push([x.obj[k][1], y.obj[k][1]]);
      }
    }
  }
  return true;
}

// --- Displayed text -> value
export function readBack(t) {
  let i = 0;
  const bad = (m) => { throw new Error(`${m} at ${i}: ${JSON.stringify(t.slice(i, i + 40))}`); };
  const ws = () => { while (i < t.length && /\s/.test(t[i])) i++; };
  function str(q) {
    const m = q === '"' ? /"(?:[^"\\]|\\.)*"/sy : /'(?:[^'\\]|\\.)*'/sy;
    m.lastIndex = i;
    const r = m.exec(t);
    if (!r) bad('string');
    i += r[0].length;
    try { return JSON.parse(q === '"' ? r[0] : '"' + r[0].slice(1, -1).replace(/"/g, '\\"') + '"'); } catch { bad('string'); }
  }
  // No recursion: displays are as deep as the trees.
  const stack = [];
  let top = null;
  const put = (v) => {
    const s = stack[stack.length - 1];
    if (!s) { top = { v }; return; }
    if (s.arr) s.arr.push(v); else { s.obj.push([s.key, v]); s.key = undefined; }
    s.comma = false;
  };
  for (;;) {
    ws();
    const s = stack[stack.length - 1];
    if (!s && top) { if (i < t.length) bad('rest'); return top.v; }
    if (i >= t.length) bad('end');
    const c = t[i];
    if (s) {
      const close = s.arr ? ']' : '}';
      if (c === close) { i++; stack.pop(); put(s); continue; }
      if (s.n > 0 && !s.comma) {
        if (c !== ',') bad('comma');
        i++;
        s.comma = true;
        continue;
      }
      if (s.obj && s.key === undefined) {
        if (c === '"' || c === "'") s.key = str(c);
        else {
          const m = /^(?:Map\(\d+\)|[A-Za-z_$][\w$]*|\d+)/.exec(t.slice(i, i + 4000));
          if (!m) bad('key');
          s.key = m[0];
          i += m[0].length;
        }
        ws();
        if (t[i] !== ':') bad('colon');
        i++;
        continue;
      }
      s.n++;
    }
    if (c === '[') { i++; stack.push({ arr: [], n: 0, comma: true }); continue; }
    if (c === '{') { i++; stack.push({ obj: [], n: 0, comma: true }); continue; }
    if (c === '"' || c === "'") { put(str(c)); continue; }
    const m = /^(?:true|false|null|undefined|-?Infinity|NaN|-?\d[\d.]*(?:[eE][+-]?\d+)?n?)(?![\w$])/.exec(t.slice(i, i + 400));
    if (!m) bad('value');
    i += m[0].length;
    const w = m[0];
    put(w === 'true' ? true : w === 'false' ? false : w === 'null' ? null : w === 'undefined' ? undefined : w.endsWith('n') ? Number(w.slice(0, -1)) : Number(w));
  }
}

// --- Diagnostics in a message: all of them, in order, and nothing besides.
export function missing(diags, text) {
  let p = 0;
  for (const d of diags) {
    const where = `${d.line}:${d.col}`;
    let k = p;
    for (;;) {
      k = text.indexOf(where, k);
      if (k < 0) return `no ${where} after character ${p}`;
      if (!/[\d:]/.test(text[k - 1] ?? ' ') && !/\d/.test(text[k + where.length] ?? ' ')) break;
      k++;
    }
    p = k + where.length;
    if (d.token !== null) {
      const a = text.indexOf(d.quoted, p), b = text.indexOf(`'${d.token}'`, p);
      const q = a < 0 ? b : b < 0 ? a : Math.min(a, b);
      if (q < 0) return `no token ${d.quoted} after ${where}`;
      p = q + 2;
    }
    const m = text.indexOf(d.msg, p);
    if (m < 0) return `no message ${JSON.stringify(d.msg)} after ${where}`;
    p = m + d.msg.length;
  }
  if (/^\s*\S/.test(text.slice(p)) && /\d+:\d+/.test(text.slice(p))) return `more than the ${diags.length} diagnostics`;
  return null;
}
