'use strict';
// run.js page OUT SCENARIOS REPO: replays histories of the page (C23) on the sources in REPO/src, run under Node
// against stand-ins for the browser, for React and for the watermarking library, and records what the page shows.
const fs = require('fs'), path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const makeReact = require('./minireact.js');
const [, , , OUT, SCEN, REPO] = process.argv;
const SRC = path.join(REPO, 'src');
process.on('unhandledRejection', () => undefined);
process.on('uncaughtException', e => { if (live) live.errors.push('' + e); else { console.error(e); process.exit(3); } });
let live = null;

// ---------------------------------------------------------------- sources
const code = new Map();
const transpile = file => {
  if (!code.has(file)) {
    const r = ts.transpileModule(fs.readFileSync(file, 'utf8'), { fileName: file, compilerOptions: {
      target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, jsx: ts.JsxEmit.ReactJSX, esModuleInterop: true } });
    code.set(file, r.outputText);
  }
  return code.get(file);
};
const resolve = (from, name) => {
  const base = name.startsWith('.') ? path.resolve(path.dirname(from), name) : path.join(SRC, name);
  for (const e of ['', '.tsx', '.ts', '.jsx', '.js', '.json', '/index.tsx', '/index.ts', '/index.js'])
    if (fs.existsSync(base + e) && fs.statSync(base + e).isFile()) return base + e;
  return null;
};

// ---------------------------------------------------------------- the pictures and the library
// a file is [magic, format, width, height, seed, filler...]; what the library makes of it is Page.tla's Source and Marked
const FORMATS = ['Png', 'Jpeg', 'Gif', 'Tiff', 'Bmp'];
const MAGIC = 137;
const describe = bytes => ({ magic: bytes[0] | 0, f: bytes[1] | 0, w: bytes[2] | 0, h: bytes[3] | 0, seed: bytes[4] | 0,
  len: bytes.length, sum: bytes.reduce((a, b) => (a + b) % 65536, 0) });
const makeFile = s => {
  const n = s.len, b = new Uint8Array(n);
  for (let i = 0; i < n; i++) b[i] = (s.seed * 37 + i * 11 + (i >> 5)) & 255;
  b[0] = s.junk ? 1 : MAGIC; b[1] = s.f; b[2] = s.w; b[3] = s.h; b[4] = s.seed;
  return b;
};
const clampInt = x => (Number.isFinite(x) ? Math.max(-1000000000, Math.min(1000000000, Math.round(x))) : -7);
const makeLibrary = page => {
  let ready = false;
  class Model {
    constructor(w, h, d) { this.w = w; this.h = h; this.d = d; }
    get_width() { return this.w; } get_height() { return this.h; } get_data() { return this.d; }
    set_width(w) { this.w = w; } set_height(h) { this.h = h; } set_data(d) { this.d = d; } free() {}
  }
  class Process {
    constructor(f, s, m) { this.f = f; this.s = s; this.m = m; }
    get_source_format() { return this.f; } get_source() { return this.s; } get_watermarked() { return this.m; }
    free() {}
  }
  const init = () => new Promise((ok, fail) => page.job('init', null, good => { if (good) { ready = true; ok({}); } else fail(new Error('no library')); }));
  const get_watermarking_process = (blob, depth, step) => {
    if (!(blob instanceof Uint8Array)) throw new TypeError('not a Uint8Array');
    const d = describe(Uint8Array.from(blob));
    page.calls.push({ depth: clampInt(depth * 16), step: clampInt(step * 16), len: d.len, sum: d.sum, ready: ready ? 1 : 0 });
    if (!ready) throw new Error('the library is not loaded');
    if (d.magic !== MAGIC || d.f >= FORMATS.length) throw new Error('unreachable');
    const src = new Uint8Array(4 * d.w * d.h), wm = new Uint8Array(src.length);
    for (let k = 0; k < src.length; k++) {
      src[k] = d.seed * 31 + k * 7 + d.sum * 3 + d.len;
      wm[k] = src[k] + clampInt(depth * 16) * 3 + clampInt(step * 16) * 5 + k;
    }
    return new Process(FORMATS[d.f], new Model(d.w, d.h, src), new Model(d.w, d.h, wm));
  };
  return { __esModule: true, default: init, init, initSync: init, get_watermarking_process, ImageModel: Model, WatermarkingProcess: Process };
};

// ---------------------------------------------------------------- the browser
const makeDom = () => {
  class Node {
    constructor(tag) { this.tagName = (tag || '').toUpperCase(); this.tag = tag; this.attrs = {}; this.props = {}; this.kids = []; this.listeners = {};
      this.style = {}; this.dataset = {}; this.classList = { add() {}, remove() {}, toggle() {} }; this.files = []; this.value = ''; this.html = null;
      if (tag === 'canvas') { this._w = 300; this._h = 150; this.clear(); } }
    clear() { this.bitmap = new Uint8Array(4 * this._w * this._h); }
    get width() { return this.tag === 'canvas' ? this._w : this.attrs.width; }
    set width(v) { if (this.tag === 'canvas') { this._w = Math.max(0, Math.floor(+v)) || 0; this.clear(); } else this.attrs.width = v; }
    get height() { return this.tag === 'canvas' ? this._h : this.attrs.height; }
    set height(v) { if (this.tag === 'canvas') { this._h = Math.max(0, Math.floor(+v)) || 0; this.clear(); } else this.attrs.height = v; }
    get textContent() { return this.tag === undefined ? this.text : this.kids.map(k => k.textContent).join(''); }
    set textContent(v) { const t = new Node(); t.text = '' + v; this.kids = [t]; }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    setAttribute(k, v) { if (k === 'width' || k === 'height') this[k] = v; else this.attrs[k] = v; }
    getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
    removeAttribute(k) { delete this.attrs[k]; }
    addEventListener(t, f) { (this.listeners[t] = this.listeners[t] || []).push(f); }
    removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(g => g !== f); }
    appendChild(n) { this.kids.push(n); return n; }
    removeChild(n) { this.kids = this.kids.filter(k => k !== n); return n; }
    click() {} focus() {} blur() {} remove() {}
    getContext(kind) {
      if (kind !== '2d' || this.tag !== 'canvas') return null;
      const canvas = this;
      return this.ctx = this.ctx || {
        canvas,
        createImageData: (w, h) => (typeof w === 'object' ? new ImageData(w.width, w.height) : new ImageData(w, h)),
        getImageData: (x, y, w, h) => { const d = new ImageData(w, h);
          for (let j = 0; j < h; j++) for (let i = 0; i < w; i++) for (let c = 0; c < 4; c++) {
            const X = x + i, Y = y + j;
            if (X >= 0 && Y >= 0 && X < canvas._w && Y < canvas._h) d.data[4 * (j * w + i) + c] = canvas.bitmap[4 * (Y * canvas._w + X) + c];
          } return d; },
        putImageData: (d, x, y) => {
          for (let j = 0; j < d.height; j++) for (let i = 0; i < d.width; i++) {
            const X = x + i, Y = y + j;
            if (X < 0 || Y < 0 || X >= canvas._w || Y >= canvas._h) continue;
            for (let c = 0; c < 4; c++) canvas.bitmap[4 * (Y * canvas._w + X) + c] = d.data[4 * (j * d.width + i) + c];
          } },
        clearRect: (x, y, w, h) => { for (let Y = Math.max(0, y); Y < Math.min(canvas._h, y + h); Y++) for (let X = Math.max(0, x); X < Math.min(canvas._w, x + w); X++)
          for (let c = 0; c < 4; c++) canvas.bitmap[4 * (Y * canvas._w + X) + c] = 0; },
        save() {}, restore() {}, setTransform() {}, scale() {},
      };
    }
  }
  const set = (n, k, v, old) => {
    if (k === 'children' || k === 'key') return;
    if (k === 'dangerouslySetInnerHTML') { n.html = v && v.__html; return; }
    if (k === 'width' || k === 'height') { n[k] = v === undefined || v === null ? (k === 'width' ? 300 : 150) : v; return; }
    if (/^on[A-Z]/.test(k)) return;
    n.attrs[k] = v;
  };
  return { Node, text: () => new Node(), create: t => new Node(t),
    setProps: (n, old, props) => {
      for (const k in old) if (!(k in props)) set(n, k, undefined);
      for (const k in props) if (!Object.is(old[k], props[k]) || !(k in old)) set(n, k, props[k]);
      n.props = props;
    },
    setChildren: (n, kids) => { n.kids = kids; kids.forEach(k => { k.parentNode = n; }); } };
};
class ImageData {
  constructor(a, b, c) {
    if (typeof a === 'number') { this.width = a; this.height = b; this.data = new Uint8ClampedArray(4 * a * b); }
    else {
      if (!(a instanceof Uint8ClampedArray)) throw new TypeError('not a Uint8ClampedArray');
      this.data = a; this.width = b; this.height = c === undefined ? a.length / 4 / b : c;
      if (a.length !== 4 * this.width * this.height) throw new RangeError('wrong length');
    }
  }
}
class PageBlob {
  constructor(bytes, type, name) { this.bytes = bytes; this.type = type; this.size = bytes.length; this.name = name; this.lastModified = 0; }
}

class Page {
  constructor() {
    this.calls = []; this.errors = []; this.jobs = []; this.done = new Map(); this.files = [];
    const page = this;
    this.dom = makeDom();
    const container = this.dom.create('div');
    this.container = container;
    const body = this.dom.create('body');
    const { React, ReactDOM, runtime } = makeReact(this.dom);
    this.React = React;
    const library = makeLibrary(this);
    const read = (blob, then, fail) => page.job('read', blob, good => (good ? then(blob.bytes) : fail(new Error('NotReadableError'))));
    const dataUrl = (blob, bytes) => 'data:' + (blob.type || 'application/octet-stream') + ';base64,' + Buffer.from(bytes).toString('base64');
    class Target { constructor() { this.listeners = {}; }
      addEventListener(t, f) { (this.listeners[t] = this.listeners[t] || []).push(f); }
      removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(g => g !== f); }
      fire(t) { const e = { type: t, target: this, currentTarget: this, loaded: 1, total: 1, lengthComputable: true };
        try { if (typeof this['on' + t] === 'function') this['on' + t](e); (this.listeners[t] || []).forEach(f => f.call(this, e)); } catch (x) { page.errors.push('' + x); } } }
    class FileReader extends Target {
      constructor() { super(); this.readyState = 0; this.result = null; this.error = null; }
      begin(blob, f) {
        if (!(blob instanceof PageBlob)) throw new TypeError('parameter 1 is not of type Blob');
        if (this.readyState === 1) throw new Error('InvalidStateError');
        this.readyState = 1; this.result = null; const turn = this.turn = {};
        read(blob, b => { if (this.turn !== turn) return; this.readyState = 2; this.result = f(b); this.fire('progress'); this.fire('load'); this.fire('loadend'); },
          e => { if (this.turn !== turn) return; this.readyState = 2; this.error = e; this.fire('error'); this.fire('loadend'); });
      }
      readAsDataURL(b) { this.begin(b, x => dataUrl(b, x)); }
      readAsArrayBuffer(b) { this.begin(b, x => Uint8Array.from(x).buffer); }
      readAsBinaryString(b) { this.begin(b, x => Buffer.from(x).toString('latin1')); }
      readAsText(b) { this.begin(b, x => Buffer.from(x).toString('utf8')); }
      abort() { if (this.readyState === 1) { this.turn = null; this.readyState = 2; this.result = null; this.fire('abort'); this.fire('loadend'); } }
    }
    const blobMethods = { arrayBuffer() { return new Promise((ok, no) => read(this, b => ok(Uint8Array.from(b).buffer), no)); },
      bytes() { return new Promise((ok, no) => read(this, b => ok(Uint8Array.from(b)), no)); },
      text() { return new Promise((ok, no) => read(this, b => ok(Buffer.from(b).toString('utf8')), no)); },
      slice() { return this; } };
    for (const k in blobMethods) Object.defineProperty(PageBlob.prototype, k, { value: blobMethods[k], configurable: true, writable: true });
    class XMLHttpRequest extends Target {
      constructor() { super(); this.readyState = 0; this.status = 0; this.responseType = ''; this.response = null; }
      open(m, u) { this.url = u; this.readyState = 1; }
      setRequestHeader() {} overrideMimeType() {}
      send() {
        page.job('get', this.url, good => {
          this.readyState = 4;
          if (good) {
            this.status = 200; const f = page.builtin;
            this.response = this.responseType === 'arraybuffer' ? Uint8Array.from(f.bytes).buffer : f;
            this.fire('readystatechange'); this.fire('load');
          } else { this.fire('readystatechange'); this.fire('error'); }
          this.fire('loadend');
        });
      }
      abort() {}
    }
    const urls = new Map();
    const fetch = url => new Promise((ok, no) => {
      const respond = f => ok({ ok: true, status: 200, headers: { get: () => f.type }, blob: async () => f,
        arrayBuffer: async () => Uint8Array.from(f.bytes).buffer, bytes: async () => Uint8Array.from(f.bytes) });
      if (typeof url === 'string' && url.startsWith('data:')) {
        const at = url.indexOf(','); respond(new PageBlob(Uint8Array.from(Buffer.from(url.slice(at + 1), 'base64')), url.slice(5, at).split(';')[0]));
      } else if (urls.has(url)) read(urls.get(url), () => respond(urls.get(url)), no);
      else page.job('get', url, good => (good ? respond(page.builtin) : no(new TypeError('Failed to fetch'))));
    });
    const URLs = { createObjectURL: b => { const u = 'blob:' + (urls.size + 1); urls.set(u, b); return u; }, revokeObjectURL: () => undefined };
    this.document = { getElementById: id => (id === 'root' ? container : null), querySelector: q => (q === '#root' ? container : null),
      createElement: t => this.dom.create(t), createTextNode: t => { const n = this.dom.text(); n.text = t; return n; }, body, head: this.dom.create('head'),
      documentElement: this.dom.create('html'), addEventListener() {}, removeEventListener() {}, title: '' };
    const quiet = { log() {}, info() {}, warn() {}, error() {}, debug() {}, time() {}, timeEnd() {}, trace() {} };
    const window = { document: this.document, addEventListener() {}, removeEventListener() {}, devicePixelRatio: 1, location: { href: 'http://localhost/', origin: 'http://localhost', pathname: '/', search: '' },
      requestAnimationFrame: f => setImmediate(f), cancelAnimationFrame: clearImmediate, FileReader, XMLHttpRequest, fetch, ImageData, URL: URLs, atob, btoa, setTimeout, clearTimeout,
      navigator: { userAgent: 'node', language: 'en' }, alert() {}, console: quiet, performance, queueMicrotask };
    window.window = window; window.self = window;
    const env = { window, self: window, globalThis: window, document: this.document, navigator: window.navigator, FileReader, XMLHttpRequest, fetch, ImageData, File: PageBlob, Blob: PageBlob, URL: URLs,
      requestAnimationFrame: window.requestAnimationFrame, cancelAnimationFrame: clearImmediate, console: quiet, alert() {}, HTMLCanvasElement: this.dom.Node, HTMLInputElement: this.dom.Node, HTMLElement: this.dom.Node,
      process: { env: { NODE_ENV: 'production', PUBLIC_URL: '' } } };
    const cache = new Map();
    const asset = name => ({ __esModule: true, default: '/static/media/' + path.basename(name), ReactComponent: () => null });
    const outside = { 'react': React, 'react/jsx-runtime': runtime, 'react/jsx-dev-runtime': runtime, 'react-dom/client': ReactDOM, 'react-dom': ReactDOM,
      'sia-watermarking-lib': library };
    const load = (from, name) => {
      if (outside[name]) return outside[name];
      if (/\.(css|scss|sass)$/.test(name)) return { __esModule: true, default: new Proxy({}, { get: (_, k) => '' + String(k) }) };
      if (/\.(jpe?g|png|gif|svg|bmp|tiff?|webp|ico)$/.test(name)) return asset(name);
      const file = resolve(from, name);
      if (!file) return new Proxy({ __esModule: true, default: () => undefined }, { get: (t, k) => (k in t ? t[k] : () => undefined) });
      if (cache.has(file)) return cache.get(file).exports;
      const module = { exports: {} };
      cache.set(file, module);
      if (file.endsWith('.json')) { module.exports = JSON.parse(fs.readFileSync(file, 'utf8')); return module.exports; }
      const names = Object.keys(env);
      new Function('require', 'module', 'exports', ...names, transpile(file))(n => load(file, n), module, module.exports, ...names.map(n => env[n]));
      return module.exports;
    };
    this.load = load;
  }
  // something the page waits for: kind, what it belongs to, and how to complete it
  job(kind, what, end) {
    const key = kind === 'read' ? (what === this.builtin ? 'get' : what) : kind;
    if (this.done.has(key)) { const good = this.done.get(key); setImmediate(() => end(good)); return; }
    this.jobs.push({ key, end });
  }
  async complete(key, good) {
    this.done.set(key, good);
    const mine = this.jobs.filter(j => j.key === key);
    this.jobs = this.jobs.filter(j => j.key !== key);
    mine.forEach(j => { try { j.end(good); } catch (e) { this.errors.push('' + e); } });
    await this.settle();
  }
  async settle() { for (let i = 0; i < 12; i++) await new Promise(r => setImmediate(r)); }
  nodes(n = this.container) { return [n].concat(...n.kids.map(k => this.nodes(k))); }
  async choose(list) {
    const input = this.nodes().find(n => n.tag === 'input' && n.attrs.type === 'file');
    if (!input) return 0;
    const files = Object.assign(list.slice(), { item: i => list[i] || null });
    input.files = files; input.value = list.length ? 'C:\\fakepath\\' + list[0].name : '';
    const event = { type: 'change', target: input, currentTarget: input, nativeEvent: {}, bubbles: true, preventDefault() {}, stopPropagation() {}, persist() {} };
    const call = f => { try { f(event); } catch (e) { this.errors.push('' + e); } };
    (input.listeners.change || []).forEach(call);
    for (let n = input; n; n = n.parentNode) for (const p of ['onInput', 'onChange'])
      if (n.props && typeof n.props[p] === 'function') { event.currentTarget = n; call(n.props[p]); }
    await this.settle();
    return 1;
  }
  look() {
    const nodes = this.nodes();
    const calls = this.calls.splice(0);
    return { words: this.container.textContent.length > 4000 ? [] : nodes.filter(n => n.tag === undefined).length === 0 ? []
      : this.wordsOf(this.container),
      input: nodes.some(n => n.tag === 'input' && n.attrs.type === 'file') ? 1 : 0,
      canvases: nodes.filter(n => n.tag === 'canvas').map(n => ({ w: n._w, h: n._h, d: n._w * n._h <= 4096 ? Array.from(n.bitmap) : [] })), calls };
  }
  // the words of the page: texts of one block element belong together
  wordsOf(n) {
    const inline = new Set(['span', 'b', 'i', 'em', 'strong', 'code', 'small', 'a']);
    const parts = [];
    const walk = m => { if (m.tag === undefined) parts.push(m.text);
      else { if (!inline.has(m.tag)) parts.push(' '); m.kids.forEach(walk); if (!inline.has(m.tag)) parts.push(' '); } };
    walk(n);
    return parts.join('').split(/[\s:;,()]+/).filter(x => x);
  }
}

// ---------------------------------------------------------------- histories
async function history(s, write) {
  const page = live = new Page();
  const seen = f => ({ f: f.f, w: f.w, h: f.h, seed: f.seed, len: f.bytes.length, sum: describe(f.bytes).sum });
  const file = (spec, name) => { const b = makeFile(spec); const f = new PageBlob(b, spec.type, name); return Object.assign(f, { spec: { ...spec, bytes: b } }); };
  page.builtin = file(s.builtin, 'peppers.jpg');
  try { page.load(path.join(SRC, 'index.tsx'), './index'); } catch (e) { page.errors.push('' + (e.stack || e)); }
  await page.settle();
  write({ ev: 'start', builtin: seen(page.builtin.spec), page: page.look() });
  const files = [];
  for (const op of s.ops) {
    if (op.op === 'init') { await page.complete('init', op.ok === 1); write({ ev: 'init', ok: op.ok, page: page.look() }); }
    else if (op.op === 'first') { await page.complete('get', op.ok === 1); write({ ev: 'first', ok: op.ok, page: page.look() }); }
    else if (op.op === 'choose') {
      const f = file(op.file, op.file.name); files.push(f);
      const input = await page.choose([f]);
      write({ ev: 'choose', junk: op.file.junk, file: seen(f.spec), page: page.look(), input });
    } else if (op.op === 'cancel') { const input = await page.choose([]); write({ ev: 'cancel', page: page.look(), input }); }
    else if (op.op === 'finish') { await page.complete(files[op.i - 1], op.ok === 1); write({ ev: 'finish', i: op.i, ok: op.ok, page: page.look() }); }
  }
  if (process.env.PAGE_DEBUG) console.error(page.errors, page.React.$$errors);
  live = null;
}
(async () => {
  const parts = Array.from({ length: 8 }, () => []);
  const scen = fs.readFileSync(SCEN, 'utf8').split('\n').filter(x => x).map(x => JSON.parse(x));
  for (let n = 0; n < scen.length; n++) await history(scen[n], e => parts[n % 8].push(JSON.stringify(e)));
  parts.forEach((p, i) => { if (p.length) fs.writeFileSync(OUT + '.' + i, p.join('\n') + '\n'); });
  process.exit(0);
})();
