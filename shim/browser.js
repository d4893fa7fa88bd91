// A page for programs that were written for a browser: runs their JavaScript,
// keeps their documents and talks to them over descriptor 3.
'use strict';
const fs = require('fs');
const FD = 3;

// ---- frames: [u32 length][bytes] ----
let held = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
function readExactly(n) {
  while (held.length < n) {
    let k;
    try { k = fs.readSync(FD, chunk, 0, chunk.length, null); }
    catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') k = 0; else process.exit(1); }
    if (!k) process.exit(0);
    held = held.length ? Buffer.concat([held, chunk.subarray(0, k)]) : Buffer.from(chunk.subarray(0, k));
  }
  const r = held.subarray(0, n);
  held = held.subarray(n);
  return r;
}
function readFrame() { return readExactly(readExactly(4).readUInt32LE(0)); }
function writeFrame(bufs) {
  const body = Buffer.concat(bufs);
  const out = Buffer.alloc(4 + body.length);
  out.writeUInt32LE(body.length, 0);
  body.copy(out, 4);
  let at = 0;
  while (at < out.length) {
    try { at += fs.writeSync(FD, out, at, out.length - at); } catch (e) { if (e.code !== 'EAGAIN') process.exit(1); }
  }
}

// ---- values ----
const table = new Map();
let nextId = 1;
function enc(v) {
  switch (typeof v) {
    case 'undefined': return Buffer.from('u');
    case 'boolean': return Buffer.from(v ? 't' : 'f');
    case 'number': { const b = Buffer.alloc(9); b[0] = 0x64; b.writeDoubleLE(v, 1); return b; }
    case 'string': {
      const s = Buffer.from(v, 'utf8'), b = Buffer.alloc(5 + s.length);
      b[0] = 0x73; b.writeUInt32LE(s.length, 1); s.copy(b, 5);
      return b;
    }
    default: {
      if (v === null) return Buffer.from('n');
      const id = nextId++;
      table.set(id, v);
      const b = Buffer.alloc(5);
      b[0] = 0x6f; b.writeUInt32LE(id, 1);
      return b;
    }
  }
}
class In {
  constructor(b) { this.b = b; this.at = 0; }
  op() { return String.fromCharCode(this.b[this.at++]); }
  more() { return this.at < this.b.length; }
  val() {
    switch (this.op()) {
      case 'u': return undefined;
      case 'n': return null;
      case 't': return true;
      case 'f': return false;
      case 'd': { const v = this.b.readDoubleLE(this.at); this.at += 8; return v; }
      case 's': { const n = this.b.readUInt32LE(this.at); this.at += 4; const v = this.b.toString('utf8', this.at, this.at + n); this.at += n; return v; }
      case 'o': { const id = this.b.readUInt32LE(this.at); this.at += 4; if (!table.has(id)) throw new Error('a value that was given back is used'); return table.get(id); }
    }
    throw new Error('bad value');
  }
  bytes() { this.at++; const n = this.b.readUInt32LE(this.at); this.at += 4; const v = this.b.subarray(this.at, this.at + n); this.at += n; return v; }
  rest() { const r = []; while (this.more()) r.push(this.val()); return r; }
}

// what JavaScript asks of the program; the program may ask back meanwhile
function ask(bufs) {
  writeFrame(bufs);
  for (;;) {
    const f = new In(readFrame());
    const op = f.op();
    if (op === 'R') return f.val();
    if (op === 'B') return f.bytes();
    if (op === 'X') { f.val(); const e = new Error('the program threw'); e.fromProgram = true; throw e; }
    serve(op, f);
  }
}
const num = enc;
function readMemory(p, n) { return Buffer.from(ask([Buffer.from('Qm'), num(p), num(n)])); }
function textAt(p, max) { return ask([Buffer.from('Qt'), num(p), num(max === undefined ? -1 : max)]).toString('utf8'); }
function writeMemory(p, bytes) { bytes = Buffer.from(bytes); const h = Buffer.alloc(5); h[0] = 0x73; h.writeUInt32LE(bytes.length, 1); ask([Buffer.from('Qw'), num(p), h, bytes]); }

// ---- what Emscripten gives to programs ----
// a view of the program's memory: what it held when the view was made; set() writes to it.
// Its buffer is the whole memory, as it is in a page.
const HEAP = { heap: true, toString: () => '[object ArrayBuffer]' };
class HeapView extends Uint8Array {
  constructor(p, n) { if (!(n > 0)) { super(0); this.p = p; return; } super(readMemory(p, n)); this.p = p; }
  static get [Symbol.species]() { return Uint8Array; }
  set(v, at) { const b = Uint8Array.from(v); at = at || 0; if (at + b.length > this.length) throw new RangeError('offset is out of bounds'); super.set(b, at); if (b.length) writeMemory(this.p + at, b); }
  fill(v) { this.set(new Uint8Array(this.length).fill(v)); return this; }
  subarray(b, e) { const n = this.length; b = b === undefined ? 0 : b < 0 ? Math.max(n + b, 0) : Math.min(b, n); e = e === undefined ? n : e < 0 ? Math.max(n + e, 0) : Math.min(e, n); return new HeapView(this.p + b, e - b); }
  get buffer() { return HEAP; }
  get byteOffset() { return this.p; }
}
class Bytes extends Uint8Array {
  constructor(...a) { if (a[0] === HEAP) return new HeapView(a[1], a[2]); super(...a); }
}
const HEAPU8 = {
  buffer: HEAP,
  subarray: (b, e) => new HeapView(b, e - b),
  slice: (b, e) => new Uint8Array(new HeapView(b, e - b)),
  set: (v, p) => { const b = Uint8Array.from(v); if (b.length) writeMemory(p, b); },
};
const runtime = {
  UTF8ToString: textAt,
  AsciiToString: (p) => textAt(p),
  lengthBytesUTF8: (s) => Buffer.byteLength(String(s), 'utf8'),
  stringToAscii: (s, p) => { const b = Buffer.alloc(s.length + 1); for (let i = 0; i < s.length; i++) b[i] = s.charCodeAt(i) & 255; writeMemory(p, b); },
  stringToUTF8: (s, p, n) => {
    if (!(n > 0)) return 0;
    let k = 0, out = '';
    for (const ch of String(s)) { const w = Buffer.byteLength(ch, 'utf8'); if (k + w >= n) break; k += w; out += ch; }
    writeMemory(p, Buffer.concat([Buffer.from(out, 'utf8'), Buffer.alloc(1)]));
    return k;
  },
  writeStringToMemory: (s, p) => runtime.stringToUTF8(s, p, 1 << 30),
  intArrayFromString: (s) => Array.from(Buffer.from(s + '\0', 'utf8')),
};
const own = Object.assign({}, runtime, { HEAPU8 });
const Module = new Proxy(own, {
  get(t, k) {
    if (k in t || typeof k !== 'string' || k[0] !== '_') return t[k];
    return (...a) => ask([Buffer.from('Qc'), enc(k), ...a.map(enc)]);
  }
});
globalThis.Module = Module;
Object.assign(globalThis, runtime, { HEAPU8 });

const compiled = new Map();
function asm(key, code, args) {
  let f = compiled.get(key);
  if (!f) {
    const names = [];
    for (let i = 0; i < 16; i++) names.push('$' + i);
    // a C++ statement that does nothing is no JavaScript, and does nothing here either
    f = new Function('Module', 'Uint8Array', ...names, code.replace(/\(void\)\s*0;/g, ''));
    compiled.set(key, f);
  }
  return f(Module, Bytes, ...args);
}

// ---- documents ----
class DOMError extends Error { }
class Node {
  #up = null; #kids = []; #listeners = [];
  get parentNode() { return this.#up; }
  get parentElement() { return this.#up; }
  get childNodes() { return this.#kids.slice(); }
  get firstChild() { return this.#kids[0] || null; }
  get lastChild() { return this.#kids[this.#kids.length - 1] || null; }
  get nextSibling() { const k = this.#up ? this.#up.childNodes : []; return k[k.indexOf(this) + 1] || null; }
  get previousSibling() { const k = this.#up ? this.#up.childNodes : []; return k[k.indexOf(this) - 1] || null; }
  hasChildNodes() { return this.#kids.length > 0; }
  contains(o) { for (let n = o; n; n = n.parentNode) if (n === this) return true; return false; }
  #check(c) {
    if (!(c instanceof Node)) throw new DOMError('not a node: ' + String(c));
    if (c.contains(this)) throw new DOMError('a node cannot hold what holds it');
  }
  #out(c) { if (c.#up) { const k = c.#up.#kids; k.splice(k.indexOf(c), 1); c.#up = null; } }
  #adopt(c, at) {
    for (const x of c instanceof Fragment ? c.childNodes : [c]) { this.#out(x); this.#kids.splice(at++, 0, x); x.#up = this; }
  }
  appendChild(c) { this.#check(c); this.#out(c); this.#adopt(c, this.#kids.length); return c; }
  removeChild(c) { if (!(c instanceof Node) || c.#up !== this) throw new DOMError('not a child'); this.#out(c); return c; }
  insertBefore(c, ref) {
    this.#check(c);
    if (ref === null || ref === undefined) return this.appendChild(c);
    if (!(ref instanceof Node) || ref.#up !== this) throw new DOMError('not a child');
    if (ref === c) return c;
    this.#out(c);
    this.#adopt(c, this.#kids.indexOf(ref));
    return c;
  }
  replaceChild(c, old) {
    this.#check(c);
    if (!(old instanceof Node) || old.#up !== this) throw new DOMError('not a child');
    if (c === old) return old;
    this.#out(c);
    const at = this.#kids.indexOf(old);
    this.#out(old);
    this.#adopt(c, at);
    return old;
  }
  remove() { this.#out(this); }
  append(...c) { for (const x of c) this.appendChild(typeof x === 'string' ? new Text(x) : x); }
  prepend(...c) { for (const x of c.reverse()) this.insertBefore(typeof x === 'string' ? new Text(x) : x, this.firstChild); }
  replaceWith(...c) { const p = this.#up; if (!p) return; for (const x of c) p.insertBefore(typeof x === 'string' ? new Text(x) : x, this); this.remove(); }
  before(...c) { for (const x of c) this.#up.insertBefore(typeof x === 'string' ? new Text(x) : x, this); }
  after(...c) { const n = this.nextSibling; for (const x of c) this.#up.insertBefore(typeof x === 'string' ? new Text(x) : x, n); }
  replaceChildren(...c) { for (const x of this.childNodes) this.#out(x); this.append(...c); }
  get textContent() { return this.#kids.map((x) => x instanceof Comment ? '' : x.textContent).join(''); }
  set textContent(v) { for (const x of this.childNodes) this.#out(x); v = v === null || v === undefined ? '' : String(v); if (v !== '') this.appendChild(new Text(v)); }
  get nodeValue() { return null; }
  set nodeValue(v) { }
  get isConnected() { let n = this; while (n.#up) n = n.#up; return n === document.body; }
  addEventListener(type, f) {
    if (typeof f !== 'function' && !(f && typeof f.handleEvent === 'function')) throw new TypeError('not a listener: ' + String(f));
    type = String(type);
    if (!this.#listeners.some((l) => l.type === type && l.f === f)) this.#listeners.push({ type, f });
  }
  removeEventListener(type, f) { type = String(type); this.#listeners = this.#listeners.filter((l) => l.type !== type || l.f !== f); }
  dispatchEvent(ev) {
    ev.target = this;
    for (let n = this; n && !ev.stopped; n = ev.bubbles === false ? null : n.#up) {
      ev.currentTarget = n;
      for (const l of n.#listeners.slice()) {
        if (l.type !== ev.type || !n.#listeners.includes(l)) continue;
        if (typeof l.f === 'function') l.f.call(n, ev); else l.f.handleEvent(ev);
      }
    }
    return !ev.defaultPrevented;
  }
  get listenerCount() { return this.#listeners.length; }
  listenersOf(type) { return this.#listeners.filter((l) => l.type === type).length; }
  cloneNode(deep) { const c = this.bareClone(); if (deep) for (const k of this.#kids) c.appendChild(k.cloneNode(true)); return c; }
}
class Text extends Node {
  #text;
  constructor(t) { super(); this.#text = String(t); }
  get nodeType() { return 3; }
  get nodeName() { return '#text'; }
  get nodeValue() { return this.#text; }
  set nodeValue(v) { this.#text = v === null ? '' : String(v); }
  get data() { return this.#text; }
  set data(v) { this.nodeValue = v; }
  get textContent() { return this.#text; }
  set textContent(v) { this.nodeValue = v; }
  bareClone() { return new Text(this.#text); }
}
class Comment extends Text { get nodeType() { return 8; } get nodeName() { return '#comment'; } bareClone() { return new Comment(this.nodeValue); } }
class Fragment extends Node { get nodeType() { return 11; } get nodeName() { return '#document-fragment'; } bareClone() { return new Fragment(); } }
class Raw extends Text { }                                  // markup that was set as it is
class Element extends Node {
  #name; #attrs = new Map(); #style = {}; #clicking = false;
  constructor(name) { super(); this.#name = String(name).toLowerCase(); if (!/^[a-z][a-z0-9-]*$/.test(this.#name)) throw new DOMError('bad element name ' + name); }
  get nodeType() { return 1; }
  get nodeName() { return this.#name.toUpperCase(); }
  get tagName() { return this.#name.toUpperCase(); }
  get localName() { return this.#name; }
  get style() { return this.#style; }
  get children() { return this.childNodes.filter((x) => x instanceof Element); }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  get attributeNames() { return [...this.#attrs.keys()]; }
  getAttributeNames() { return [...this.#attrs.keys()]; }
  setAttribute(n, v) { if (arguments.length < 2) throw new TypeError('setAttribute needs a value'); n = String(n).toLowerCase(); if (!/^[^\s"'<>\/=]+$/.test(n)) throw new DOMError('bad attribute name ' + n); this.#attrs.set(n, String(v)); }
  getAttribute(n) { n = String(n).toLowerCase(); return this.#attrs.has(n) ? this.#attrs.get(n) : null; }
  hasAttribute(n) { return this.#attrs.has(String(n).toLowerCase()); }
  removeAttribute(n) { this.#attrs.delete(String(n).toLowerCase()); }
  toggleAttribute(n, on) { n = String(n).toLowerCase(); if (on === undefined) on = !this.#attrs.has(n); if (on) { if (!this.#attrs.has(n)) this.#attrs.set(n, ''); } else this.#attrs.delete(n); return on; }
  get id() { return this.getAttribute('id') || ''; }
  set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') || ''; }
  set className(v) { this.setAttribute('class', v); }
  get classList() {
    const el = this;
    const words = () => [...new Set(el.className.split(/\s+/).filter((x) => x))];
    const check = (c) => { c = String(c); if (c === '' || /\s/.test(c)) throw new DOMError('bad class ' + JSON.stringify(c)); return c; };
    const put = (w) => { if (w.length || el.hasAttribute('class')) el.className = w.join(' '); };
    return {
      add(...cs) { const w = words(); for (const c of cs.map(check)) if (!w.includes(c)) w.push(c); put(w); },
      remove(...cs) { cs = cs.map(check); put(words().filter((x) => !cs.includes(x))); },
      contains(c) { return words().includes(String(c)); },
      toggle(c, on) { c = check(c); if (on === undefined) on = !this.contains(c); if (on) this.add(c); else this.remove(c); return on; },
      get length() { return words().length; },
      get value() { return el.className; },
    };
  }
  get innerHTML() { return this.childNodes.map(html).join(''); }
  set innerHTML(v) { for (const x of this.childNodes) this.removeChild(x); v = v === null ? '' : String(v); if (v !== '') this.appendChild(new Raw(v)); }
  get outerHTML() { return html(this); }
  click() { if (this.#clicking) return; this.#clicking = true; try { this.dispatchEvent({ type: 'click', preventDefault() { this.defaultPrevented = true; }, stopPropagation() { this.stopped = true; } }); } finally { this.#clicking = false; } }
  focus() { }
  blur() { }
  bareClone() { const c = new Element(this.#name); for (const [k, v] of this.#attrs) c.setAttribute(k, v); return c; }
}
const esc = (s) => s.replace(/[&<>"]/g, (c) => ({ '&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;' }[c]));
// one text for all documents that look alike
function html(n) {
  if (n instanceof Raw) return '[' + n.nodeValue + ']';
  if (n instanceof Comment) return '';
  if (n instanceof Text) return esc(n.nodeValue);
  let a = '';
  const names = n.getAttributeNames().sort();
  for (const k of names) {
    let v = n.getAttribute(k);
    // an empty list of classes is none
    if (k === 'class') { v = [...new Set(v.split(/\s+/).filter((x) => x))].sort().join(' '); if (v === '') continue; }
    a += ' ' + k + '="' + esc(v) + '"';
  }
  for (const k of Object.keys(n).sort()) a += ' .' + k + '="' + esc(String(n[k])) + '"';
  return '<' + n.localName + a + '>' + n.childNodes.map(html).join('') + '</' + n.localName + '>';
}
const document = {
  body: new Element('body'),
  createElement: (n) => new Element(n),
  createTextNode: (t) => new Text(t),
  createComment: (t) => new Comment(t),
  createDocumentFragment: () => new Fragment(),
  getElementById(id) { const find = (n) => { for (const c of n.childNodes) { if (c instanceof Element && c.id === String(id)) return c; const r = find(c); if (r) return r; } return null; }; return find(this.body); },
};
globalThis.document = document;
globalThis.window = globalThis;
globalThis.Node = Node;
globalThis.Element = Element;
globalThis.HTMLElement = Element;
globalThis.Text = Text;
globalThis.vf = { html };

// ---- a history of places ----
const places = { list: ['/'], at: 0 };
Object.defineProperty(globalThis, 'location', { configurable: true, value: {
  get pathname() { return places.list[places.at].replace(/[?#].*$/s, ''); },
  get href() { return 'http://page' + places.list[places.at]; },
} });
function place(url) {
  const u = new URL(String(url), 'http://page' + places.list[places.at]);
  return u.pathname + u.search + u.hash;
}
globalThis.history = {
  pushState(a, b, url) { const p = url === undefined || url === null ? places.list[places.at] : place(url); places.list.length = places.at + 1; places.list.push(p); places.at++; },
  replaceState(a, b, url) { places.list[places.at] = place(url); },
  get length() { return places.list.length; },
  go(n) {
    const to = places.at + n;
    if (to < 0 || to >= places.list.length || !n) return;
    places.at = to;
    if (typeof globalThis.onpopstate === 'function') globalThis.onpopstate({ type: 'popstate', state: null });
  },
  back() { this.go(-1); },
  forward() { this.go(1); },
};
globalThis.vf.places = places;
globalThis.vf.reset = () => {
  document.body = new Element('body');
  places.list = ['/'];
  places.at = 0;
  globalThis.onpopstate = undefined;
  sockets.length = 0;
  delete own.NBDL_WEBUI_NAV_URI_PREFIX;
};
globalThis.vf.fire = (el, type, data) => el.dispatchEvent(Object.assign({ type, preventDefault() { this.defaultPrevented = true; }, stopPropagation() { this.stopped = true; } }, data || {}));
globalThis.vf.registered = () => own.nbdl_detail_json_val ? Object.keys(own.nbdl_detail_json_val).length : 0;
globalThis.vf.held = () => table.size;

// ---- sockets, told what to do by the program's test ----
const sockets = [];
globalThis.vf.sockets = sockets;
globalThis.WebSocket = class {
  constructor(url) { this.url = String(url); this.readyState = 0; this.sent = []; this.closes = 0; this.heard = []; sockets.push(this); }
  addEventListener(type, f) { this.heard.push({ type, f }); }
  removeEventListener(type, f) { this.heard = this.heard.filter((l) => l.type !== type || l.f !== f); }
  send(x) {
    if (this.readyState === 0) throw new DOMError('InvalidStateError');
    if (this.readyState !== 1) return;
    if (x === HEAP) { this.sent.push('m'); return; }              // the whole memory of the program
    this.sent.push(typeof x === 'string' ? 's' + x : 'b' + (x instanceof ArrayBuffer ? Buffer.from(x) : Buffer.from(Uint8Array.from(x))).toString('latin1'));
  }
  close() { this.closes++; if (this.readyState < 2) this.readyState = 2; }
  fire(type, data) {
    if (type === 'open') this.readyState = 1;
    if (type === 'close') this.readyState = 3;
    const ev = Object.assign({ type, target: this }, data || {});
    for (const l of this.heard.slice()) if (l.type === type) l.f.call(this, ev);
    if (typeof this['on' + type] === 'function') this['on' + type](ev);
  }
  onBytes(latin1) { const b = Buffer.from(latin1, 'latin1'); this.fire('message', { data: this.binaryType === 'arraybuffer' ? b.buffer.slice(b.byteOffset, b.byteOffset + b.length) : { size: b.length } }); }
};
globalThis.WebSocket.OPEN = 1;

// ---- commands ----
const evaluated = new Map();
function serve(op, f) {
  let reply;
  try {
    let r;
    switch (op) {
      case 'D': { while (f.more()) { table.delete(f.b.readUInt32LE(f.at)); f.at += 4; } return; }  // no reply
      case 'A': { const key = f.val(), code = f.val(); r = asm(key, code, f.rest()); break; }
      case 'g': { const name = f.val(); r = globalThis[name]; break; }
      case 'm': { const name = f.val(); r = Module[name]; break; }
      case 'p': { const o = f.val(), k = f.val(); r = o[k]; break; }
      case 'S': { const o = f.val(), k = f.val(), v = f.val(); o[k] = v; break; }
      case 'x': { const o = f.val(), k = f.val(); r = delete o[k]; break; }
      case 'h': { const o = f.val(), k = f.val(); r = Object.prototype.hasOwnProperty.call(o, k); break; }
      case 'c': { const o = f.val(), k = f.val(), a = f.rest(); if (typeof o[k] !== 'function') throw new TypeError(k + ' is not a function'); r = o[k](...a); break; }
      case 'F': { const o = f.val(), a = f.rest(); r = o(...a); break; }
      case 'N': { const o = f.val(), a = f.rest(); r = new o(...a); break; }
      case 'T': r = typeof f.val(); break;
      case '=': r = f.val() === f.val(); break;
      case '~': r = f.val() == f.val(); break;
      case '<': r = f.val() < f.val(); break;
      case 'i': { const a = f.val(), b = f.val(); r = a instanceof b; break; }
      case '!': r = !f.val(); break;
      case 's': r = String(f.val()); break;
      case '#': r = Number(f.val()); break;
      case 'a': r = []; break;
      case 'O': r = {}; break;
      case 'J': { const code = f.val(); let fn = evaluated.get(code); if (!fn) evaluated.set(code, fn = new Function('Module', 'a', 'b', 'c', 'd', code)); r = fn(Module, ...f.rest()); break; }
      default: throw new Error('bad command ' + op);
    }
    reply = [Buffer.from('R'), enc(r)];
  } catch (e) {
    reply = [Buffer.from('E'), enc(e && e.fromProgram ? true : false), enc(e && e.message !== undefined ? e.constructor.name + ': ' + e.message : String(e))];
  }
  writeFrame(reply);
}
for (;;) { const f = new In(readFrame()); serve(f.op(), f); }
