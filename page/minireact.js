'use strict';
// A small renderer with React 18's production meaning: function and class components, hooks, context,
// Suspense/lazy, memo, forwardRef, error boundaries; host nodes are plain objects made by `dom`.
// Rendering is always from the root; updates are batched into a microtask, effects run after the commit.
module.exports = function makeReact(dom) {
  const FRAGMENT = Symbol('fragment'), SUSPENSE = Symbol('suspense'), STRICT = Symbol('strict');
  const React = {};
  let current = null; // the component whose hooks are being called
  const roots = new Set();
  let scheduled = false, rendering = false, again = false;

  const element = (type, props, key, ref) => ({ $$el: true, type, props, key, ref });
  const jsx = (type, config, key) => {
    const { ref, key: k2, ...props } = config || {};
    if (typeof type === 'function' && type.defaultProps)
      for (const p in type.defaultProps) if (props[p] === undefined) props[p] = type.defaultProps[p];
    const k = key !== undefined ? key : k2;
    return element(type, props, k === undefined ? null : '' + k, ref === undefined ? null : ref);
  };
  React.createElement = (type, config, ...children) => {
    const c = { ...(config || {}) };
    if (children.length === 1) c.children = children[0];
    else if (children.length > 1) c.children = children;
    return jsx(type, c);
  };
  React.cloneElement = (el, config, ...children) => {
    const c = { ...el.props, ...(config || {}) };
    if (children.length === 1) c.children = children[0];
    else if (children.length > 1) c.children = children;
    if (el.ref !== null && c.ref === undefined) c.ref = el.ref;
    return jsx(el.type, c, el.key === null ? undefined : el.key);
  };
  React.isValidElement = x => !!x && x.$$el === true;
  React.Fragment = FRAGMENT;
  React.Suspense = SUSPENSE;
  React.StrictMode = STRICT;
  React.Profiler = STRICT;
  React.version = '18.2.0';
  React.Children = {
    toArray: c => flat(c).filter(x => x !== null && x !== undefined && typeof x !== 'boolean'),
    map: (c, f) => (c === null || c === undefined ? c : flat(c).map((x, i) => f(x, i))),
    forEach: (c, f) => flat(c).forEach((x, i) => f(x, i)),
    count: c => flat(c).length,
    only: c => c,
  };
  const flat = c => (Array.isArray(c) ? c.reduce((a, x) => a.concat(flat(x)), []) : c === undefined || c === null ? [] : [c]);

  // ---- special types
  React.memo = (type, equal) => ({ $$kind: 'memo', type, equal });
  React.forwardRef = render => ({ $$kind: 'forward', render });
  React.lazy = load => {
    const t = { $$kind: 'lazy', state: 'new', value: undefined };
    t.read = () => {
      if (t.state === 'done') return t.value;
      if (t.state === 'failed') throw t.value;
      if (t.state === 'new') {
        t.state = 'pending';
        t.promise = Promise.resolve().then(load).then(
          m => { t.state = 'done'; t.value = m && m.default !== undefined ? m.default : m; },
          e => { t.state = 'failed'; t.value = e; });
      }
      throw t.promise;
    };
    return t;
  };
  React.createContext = def => {
    const ctx = { $$kind: 'context', def, stack: [] };
    ctx.Provider = { $$kind: 'provider', ctx };
    ctx.Consumer = { $$kind: 'consumer', ctx };
    return ctx;
  };
  class Component {
    constructor(props) { this.props = props; this.state = null; this.refs = {}; }
    setState(u, cb) { this.$$queue.push(u); if (cb) this.$$callbacks.push(cb); schedule(); }
    forceUpdate(cb) { if (cb) this.$$callbacks.push(cb); this.$$force = true; schedule(); }
  }
  Component.prototype.isReactComponent = true;
  React.Component = Component;
  React.PureComponent = class PureComponent extends Component {};
  React.createRef = () => ({ current: null });
  React.startTransition = f => f();

  // ---- hooks
  const changed = (a, b) => !a || !b || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));
  const hook = make => {
    if (!current) throw new Error('Invalid hook call');
    const i = current.at++;
    if (i >= current.hooks.length) current.hooks.push(make());
    return current.hooks[i];
  };
  React.useReducer = (reducer, arg, init) => {
    const inst = current;
    const h = hook(() => {
      const cell = { value: init ? init(arg) : arg, queue: [] };
      cell.dispatch = a => { if (!inst.dead) { cell.queue.push(a); schedule(); } };
      return cell;
    });
    while (h.queue.length) h.value = reducer(h.value, h.queue.shift());
    return [h.value, h.dispatch];
  };
  const basic = (s, a) => (typeof a === 'function' ? a(s) : a);
  React.useState = init => React.useReducer(basic, undefined, () => (typeof init === 'function' ? init() : init));
  React.useRef = v => hook(() => ({ current: v }));
  React.useMemo = (f, deps) => {
    const h = hook(() => ({ deps: null }));
    if (changed(h.deps, deps)) { h.value = f(); h.deps = deps; }
    return h.value;
  };
  React.useCallback = (f, deps) => React.useMemo(() => f, deps);
  const effect = (kind, f, deps) => {
    const h = hook(() => ({ deps: null, kind, clean: null }));
    if (changed(h.deps, deps)) { h.next = f; h.deps = deps || null; current.pending.push(h); }
  };
  React.useEffect = (f, d) => effect('passive', f, d);
  React.useLayoutEffect = (f, d) => effect('layout', f, d);
  React.useInsertionEffect = (f, d) => effect('layout', f, d);
  React.useImperativeHandle = (ref, make, deps) =>
    React.useLayoutEffect(() => { setRef(ref, make()); return () => setRef(ref, null); }, deps);
  React.useContext = ctx => (ctx.stack.length ? ctx.stack[ctx.stack.length - 1] : ctx.def);
  React.useTransition = () => [false, f => f()];
  React.useDeferredValue = v => v;
  let ids = 0;
  React.useId = () => hook(() => ({ id: ':r' + ids++ + ':' })).id;
  React.useDebugValue = () => undefined;
  React.useSyncExternalStore = (subscribe, get) => {
    const [, force] = React.useReducer(x => x + 1, 0);
    React.useEffect(() => subscribe(() => force()), [subscribe]);
    return get();
  };
  const setRef = (ref, v) => { if (typeof ref === 'function') ref(v); else if (ref) ref.current = v; };

  // ---- reconciliation
  const same = (inst, node) => {
    if (!inst) return false;
    if (node === null || node === undefined || typeof node === 'boolean') return inst.tag === 'empty';
    if (typeof node === 'string' || typeof node === 'number') return inst.tag === 'text';
    if (Array.isArray(node) || (!node.$$el && typeof node[Symbol.iterator] === 'function')) return inst.tag === 'list';
    return inst.tag === 'el' && inst.el.type === node.type && inst.el.key === node.key;
  };
  const update = (inst, node, work) => {
    if (!same(inst, node)) {
      if (inst) work.removed.push(inst);
      inst = null;
    }
    if (node === null || node === undefined || typeof node === 'boolean') return inst || { tag: 'empty', kids: [] };
    if (typeof node === 'string' || typeof node === 'number') {
      inst = inst || { tag: 'text', kids: [], node: dom.text() };
      work.commits.push(() => { inst.node.text = '' + node; });
      return inst;
    }
    if (!node.$$el && typeof node[Symbol.iterator] === 'function') {
      inst = inst || { tag: 'list', kids: [] };
      inst.kids = children(inst.kids, Array.from(node), work);
      return inst;
    }
    if (!node.$$el) throw new Error('Objects are not valid as a React child');
    return updateElement(inst || { tag: 'el', kids: [], hooks: [], pending: [], el: node, fresh: true }, node, work);
  };
  const keyOf = (node, i) => (node && node.$$el && node.key !== null ? 'k' + node.key : 'i' + i);
  const children = (old, nodes, work) => {
    const by = new Map();
    old.forEach(o => by.set(o.slot, o));
    const out = nodes.map((n, i) => {
      const slot = keyOf(n, i), prev = by.get(slot);
      by.delete(slot);
      const inst = update(prev || null, n, work);
      inst.slot = slot;
      return inst;
    });
    by.forEach(o => work.removed.push(o));
    return out;
  };
  const one = (inst, node, work) => { inst.kids = children(inst.kids, [node], work); };
  const shallow = (a, b) => { const k = Object.keys(a); return k.length === Object.keys(b).length && k.every(x => x in b && Object.is(a[x], b[x])); };
  const updateElement = (inst, el, work) => {
    const type = el.type, props = el.props;
    const before = inst.fresh ? null : inst.el;
    inst.el = el;
    if (typeof type === 'string') {
      if (!inst.node) inst.node = dom.create(type);
      const kids = props.children;
      inst.kids = children(inst.kids, kids === undefined ? [] : Array.isArray(kids) ? kids : [kids], work);
      work.commits.push(() => {
        dom.setProps(inst.node, before ? before.props : {}, props);
        dom.setChildren(inst.node, hostsOf(inst.kids));
      });
      const ref = el.ref, oldRef = before ? before.ref : null;
      if (ref !== oldRef || inst.fresh) {
        work.detach.push(() => oldRef && setRef(oldRef, null));
        work.attach.push(() => setRef(ref, inst.node));
      }
    } else if (type === FRAGMENT || type === STRICT) {
      one(inst, props.children, work);
    } else if (type === SUSPENSE) {
      const saved = { commits: work.commits.length, removed: work.removed.length, effects: work.effects.length,
        attach: work.attach.length, detach: work.detach.length };
      const kids = inst.kids;
      try {
        one(inst, element(FRAGMENT, { children: props.children }, 'primary', null), work);
        inst.waiting = false;
      } catch (e) {
        if (!e || typeof e.then !== 'function') throw e;
        work.commits.length = saved.commits; work.removed.length = saved.removed; work.effects.length = saved.effects;
        work.attach.length = saved.attach; work.detach.length = saved.detach;
        inst.kids = kids;
        inst.waiting = true;
        const wake = () => schedule();
        e.then(wake, wake);
        one(inst, element(FRAGMENT, { children: props.fallback }, 'fallback', null), work);
      }
    } else if (typeof type === 'function' && type.prototype && type.prototype.isReactComponent) {
      updateClass(inst, type, props, before, work);
    } else if (typeof type === 'function') {
      component(inst, () => type(props), work);
    } else if (type && type.$$kind === 'memo') {
      // equal properties: the component keeps those it had (its own state may still have changed)
      const keep = inst.memo && inst.memoRef === el.ref && (type.equal || shallow)(inst.memo, props);
      if (!keep) { inst.memo = props; inst.memoRef = el.ref; }
      one(inst, element(type.type, inst.memo, null, el.ref), work);
    } else if (type && type.$$kind === 'forward') {
      component(inst, () => type.render(props, el.ref), work);
    } else if (type && type.$$kind === 'lazy') {
      one(inst, element(type.read(), props, null, el.ref), work);
    } else if (type && type.$$kind === 'provider') {
      type.ctx.stack.push(props.value);
      try { one(inst, props.children, work); } finally { type.ctx.stack.pop(); }
    } else if (type && (type.$$kind === 'consumer' || type.$$kind === 'context')) {
      const ctx = type.ctx || type;
      one(inst, props.children(React.useContext(ctx)), work);
    } else throw new Error('Element type is invalid');
    inst.fresh = false;
    return inst;
  };
  const component = (inst, render, work) => {
    const outer = current;
    let node, rounds = 0;
    do {
      if (++rounds > 50) throw new Error('Too many re-renders');
      inst.at = 0; inst.pending = [];
      current = inst;
      try { node = render(); } finally { current = outer; }
    } while (inst.hooks.some(h => h.queue && h.queue.length));
    one(inst, node, work);
    if (inst.pending.length) { const list = inst.pending; work.effects.push(...list); }
  };
  const updateClass = (inst, Type, props, before, work) => {
    const first = !inst.self;
    if (first) {
      inst.self = new Type(props);
      Object.assign(inst.self, { $$queue: [], $$callbacks: [], props });
    }
    const self = inst.self, oldProps = self.props, oldState = self.state;
    let state = self.state;
    for (const u of self.$$queue.splice(0)) {
      const part = typeof u === 'function' ? u.call(self, state, props) : u;
      if (part) state = { ...state, ...part };
    }
    if (Type.getDerivedStateFromProps) state = { ...state, ...Type.getDerivedStateFromProps(props, state) };
    self.state = state; self.props = props;
    if (Type.contextType) self.context = React.useContext(Type.contextType);
    const boundary = Type.getDerivedStateFromError || self.componentDidCatch;
    const kids = inst.kids;
    try { one(inst, self.render(), work); } catch (e) {
      if (!boundary || (e && typeof e.then === 'function')) throw e;
      if (Type.getDerivedStateFromError) self.state = { ...self.state, ...Type.getDerivedStateFromError(e) };
      inst.kids = kids;
      one(inst, self.render(), work);
      if (self.componentDidCatch) work.layout.push(() => self.componentDidCatch(e, {}));
    }
    work.layout.push(() => {
      if (first) { if (self.componentDidMount) self.componentDidMount(); }
      else if (self.componentDidUpdate) self.componentDidUpdate(oldProps, oldState);
      self.$$callbacks.splice(0).forEach(f => f.call(self));
    });
    const ref = inst.el.ref;
    if (first && ref) work.attach.push(() => setRef(ref, self));
  };
  const hostsOf = kids => kids.reduce((a, k) => a.concat(k.node ? [k.node] : hostsOf(k.kids)), []);
  const unmount = inst => {
    if (inst.dead) return;
    inst.dead = true;
    (inst.hooks || []).forEach(h => { if (h.clean) { const c = h.clean; h.clean = null; c(); } });
    if (inst.self && inst.self.componentWillUnmount) inst.self.componentWillUnmount();
    if (inst.el && inst.el.ref && (inst.node || inst.self)) setRef(inst.el.ref, null);
    inst.kids.forEach(unmount);
  };
  const run = h => {
    if (h.clean) { const c = h.clean; h.clean = null; c(); }
    const f = h.next; h.next = null;
    const c = f && f();
    h.clean = typeof c === 'function' ? c : null;
  };
  const renderRoot = root => {
    const work = { commits: [], removed: [], effects: [], attach: [], detach: [], layout: [] };
    try {
      root.kids = children(root.kids, [root.node], work);
      work.removed.forEach(unmount);
      work.detach.forEach(f => f());
      work.commits.forEach(f => f());
      dom.setChildren(root.container, hostsOf(root.kids));
      work.attach.forEach(f => f());
      work.layout.forEach(f => f());
      const effects = work.effects.filter(h => h.next);
      effects.filter(h => h.kind === 'layout').forEach(run);
      effects.filter(h => h.kind === 'passive').forEach(run);
    } catch (e) {
      // no boundary caught it: React takes the whole tree down
      root.kids.forEach(k => { try { unmount(k); } catch (_) { /* ignored */ } });
      root.kids = []; root.node = null;
      dom.setChildren(root.container, []);
      React.$$errors.push('' + (e && e.stack || e));
    }
  };
  React.$$errors = [];
  const flush = () => {
    if (rendering) { again = true; return; }
    rendering = true;
    let rounds = 0;
    try {
      do { again = false; scheduled = false; roots.forEach(renderRoot); } while ((again || scheduled) && ++rounds < 100);
    } finally { rendering = false; }
  };
  const schedule = () => {
    if (rendering) { again = true; return; }
    if (scheduled) return;
    scheduled = true;
    Promise.resolve().then(() => { if (scheduled) flush(); });
  };
  const createRoot = container => {
    const root = { container, kids: [], node: null };
    roots.add(root);
    return { render: node => { root.node = node; schedule(); }, unmount: () => { root.node = null; schedule(); } };
  };
  const ReactDOM = { createRoot, hydrateRoot: (c, n) => { const r = createRoot(c); r.render(n); return r; },
    render: (n, c) => createRoot(c).render(n), flushSync: f => { const r = f && f(); flush(); return r; }, unstable_batchedUpdates: f => f() };
  React.default = React;
  ReactDOM.default = ReactDOM;
  return { React, ReactDOM, runtime: { jsx, jsxs: jsx, jsxDEV: jsx, Fragment: FRAGMENT } };
};
