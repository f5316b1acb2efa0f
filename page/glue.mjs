// The JavaScript half of wasm-bindgen for the module as the compiler left it
// (the wasm-bindgen tool that writes it is not installed): objects live in a
// table here and the module holds their indices.
import fs from 'node:fs';

export class Harness extends Error {}

const sectionText = (module) => WebAssembly.Module.customSections(module, '__wasm_bindgen_unstable')
  .map((b) => Buffer.from(b).toString('latin1').replace(/[^\x20-\x7e]+/g, '|')).join('|');

export class Compiled {
  constructor(path) {
    this.module = new WebAssembly.Module(fs.readFileSync(path));
    this.imports = WebAssembly.Module.imports(this.module);
    const t = sectionText(this.module);
    this.about = {};
    for (const { name } of this.imports) {
      const k = t.indexOf('|' + name + '|') >= 0 ? t.indexOf('|' + name + '|') + 1 : t.indexOf(name + '|');
      if (k >= 0) this.about[name] = t.slice(k + name.length + 1, k + name.length + 60).split('|');
    }
  }
}

export class Instance {
  // `g` gives the constructors of the caller's realm: Object, Array, Map, Error.
  constructor(compiled, g = globalThis) {
    this.g = g;
    this.heap = new Array(128).fill(undefined);
    this.heap.push(undefined, null, true, false);
    this.free = [];
    this.live = 0;
    this.calls = 0;
    this.logged = [];
    const imports = {};
    for (const { module, name, kind } of compiled.imports) {
      if (kind !== 'function') throw new Harness(`import ${name} is a ${kind}`);
      imports[module] ??= {};
      imports[module][name] = this.shim(name, compiled.about[name] ?? []);
    }
    this.x = new WebAssembly.Instance(compiled.module, imports).exports;
    if (this.x.__wbindgen_start) this.x.__wbindgen_start();
  }
  add(o) {
    const i = this.free.length ? this.free.pop() : this.heap.push(undefined) - 1;
    this.heap[i] = o;
    this.live++;
    return i;
  }
  get(i) { return this.heap[i]; }
  drop(i) {
    if (i < 132) return;
    this.heap[i] = undefined;
    this.free.push(i);
    this.live--;
  }
  take(i) { const o = this.get(i); this.drop(i); return o; }
  bytes() { return new Uint8Array(this.x.memory.buffer); }
  view() { return new DataView(this.x.memory.buffer); }
  str(p, n) { return new TextDecoder('utf-8', { ignoreBOM: true, fatal: true }).decode(this.bytes().slice(p >>> 0, (p >>> 0) + (n >>> 0))); }
  pass(s) {
    const b = new TextEncoder().encode(s);
    const p = this.x.__wbindgen_malloc(b.length, 1) >>> 0;
    this.bytes().set(b, p);
    return [p, b.length];
  }
  shim(name, about) {
    const h = this, g = this.g;
    const named = (p) => name.startsWith(p);
    switch (name) {
      case '__wbindgen_describe': return () => { throw new Harness('describe called'); };
      case '__wbindgen_as_number': return (i) => Number(h.get(i));
      case '__wbindgen_number_new': return (x) => h.add(x);
      case '__wbindgen_bigint_from_i64': return (x) => h.add(x);
      case '__wbindgen_bigint_from_u64': return (x) => h.add(BigInt.asUintN(64, x));
      case '__wbindgen_error_new': return (p, n) => h.add(new g.Error(h.str(p, n)));
      case '__wbindgen_string_new': return (p, n) => h.add(h.str(p, n));
      case '__wbindgen_object_clone_ref': return (i) => (i < 132 ? i : h.add(h.get(i)));
      case '__wbindgen_object_drop_ref': return (i) => { h.drop(i); };
      case '__wbindgen_is_string': return (i) => (typeof h.get(i) === 'string' ? 1 : 0);
      case '__wbindgen_is_object': return (i) => { const v = h.get(i); return typeof v === 'object' && v !== null ? 1 : 0; };
      case '__wbindgen_is_function': return (i) => (typeof h.get(i) === 'function' ? 1 : 0);
      case '__wbindgen_is_undefined': return (i) => (h.get(i) === undefined ? 1 : 0);
      case '__wbindgen_is_null': return (i) => (h.get(i) === null ? 1 : 0);
      case '__wbindgen_string_get': return (r, i) => {
        const v = h.get(i);
        const [p, n] = typeof v === 'string' ? h.pass(v) : [0, 0];
        h.view().setInt32(r, p, true); h.view().setInt32(r + 4, n, true);
      };
      case '__wbindgen_throw': return (p, n) => { throw new g.Error(h.str(p, n)); };
      case '__wbindgen_rethrow': return (i) => { throw h.take(i); };
      case '__wbindgen_externref_table_grow': return () => { throw new Harness('externref table'); };
      case '__wbindgen_externref_table_set_null': return () => {};
    }
    const cls = about[0] ?? '';
    if (named('__wbg_new_')) {
      switch (cls) {
        case 'Object': return () => h.add(new g.Object());
        case 'Array': return () => h.add(new g.Array());
        case 'Map': return () => h.add(new g.Map());
        case 'Error': return (p, n) => h.add(new g.Error(h.str(p, n)));
      }
    }
    if (named('__wbg_newwithlength_') && cls === 'Array') return (n) => h.add(new g.Array(n >>> 0));
    if (named('__wbg_set_')) {
      switch (cls) {
        case 'ObjectExt': return (o, k, v) => { h.get(o)[h.take(k)] = h.take(v); };
        case 'Array': return (o, i, v) => { h.get(o)[i >>> 0] = h.take(v); };
        case 'Map': return (o, k, v) => h.add(h.get(o).set(h.get(k), h.get(v)));
        case 'Reflect': return (o, k, v) => Reflect.set(h.get(o), h.get(k), h.get(v)) ? 1 : 0;
      }
    }
    if (named('__wbg_push_') && cls === 'Array') return (o, v) => h.get(o).push(h.get(v));
    if (named('__wbg_String_')) {
      return (r, i) => {
        const [p, n] = h.pass(String(h.get(i)));
        h.view().setInt32(r, p, true); h.view().setInt32(r + 4, n, true);
      };
    }
    if (named('__wbg_log_')) return (p, n) => { h.logged.push(h.str(p, n)); };
    if (named('__wbg_now_') || named('__wbg_random_')) return () => { h.impure = name; return 0.5; };
    // Not known: an error of this file if it is ever called.
    return () => { throw new Harness(`import ${name} (${about.slice(0, 3)}) is not simulated`); };
  }
  // As the generated parseString does it.
  parseString(text) {
    this.calls++;
    const ret = this.x.__wbindgen_malloc(16, 4) >>> 0;
    const [p, n] = this.pass(String(text));
    let a, e, bad;
    try {
      this.x.parseString(ret, p, n);
      const v = this.view();
      [a, e, bad] = [v.getInt32(ret, true), v.getInt32(ret + 4, true), v.getInt32(ret + 8, true)];
    } catch (err) {
      if (err instanceof Harness) this.harness = err;
      throw err;
    }
    this.x.__wbindgen_free(ret, 16, 4);
    if (bad) throw this.take(e >>> 0);
    return this.take(a >>> 0);
  }
  pages() { return this.x.memory.buffer.byteLength / 65536; }
}
