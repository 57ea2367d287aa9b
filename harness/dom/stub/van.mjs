// What packages/mitex-web needs of vanjs-core: states, what is derived from them, and elements.
// With globalThis.vanLater, what is derived is renewed later, together, and not at once.
let reading;
let due = new Set();
const renew = (f) => {
  if (!globalThis.vanLater) return f();
  if (due.size === 0) queueMicrotask(() => { const d = due; due = new Set(); for (const f of d) f(); });
  due.add(f);
};
class State {
  constructor(v) { this.v = v; this.users = new Set(); }
  get val() { if (reading) this.users.add(reading); return this.v; }
  set val(v) { if (v === this.v) return; this.v = v; const u = [...this.users]; for (const f of u) renew(f); }
  get rawVal() { return this.v; }
  get oldVal() { return this.v; }
}
const state = (v) => new State(v);
const track = (f, give) => {
  const go = () => {
    const old = reading;
    reading = go;
    try { give(f()); } finally { reading = old; }
  };
  go();
};
const derive = (f) => {
  const s = state();
  track(f, (v) => { s.val = v; });
  return s;
};
const add = (el, ...kids) => {
  for (const k of kids.flat(Infinity)) {
    if (k === null || k === undefined) continue;
    if (k instanceof State) { const t = { text: "" }; track(() => k.val, (v) => { t.text = String(v ?? ""); }); el.kids.push(t); }
    else if (typeof k === "function") {
      const at = el.kids.length;
      el.kids.push(null);
      track(() => k(el.kids[at] ?? undefined), (v) => { el.kids[at] = v?.kids || v === null ? v : { text: String(v) }; });
    } else el.kids.push(k.kids ? k : { text: String(k) });
  }
  return el;
};
const make = (tag) => (...args) => {
  const plain = args[0] && Object.getPrototypeOf(args[0]) === Object.prototype && !args[0].kids;
  const props = plain ? args.shift() : {};
  const el = { tag, kids: [], on: {} };
  for (const [k, v] of Object.entries(props)) {
    if (k.startsWith("on")) el.on[k.slice(2)] = v;
    else if (v instanceof State) track(() => v.val, (x) => { el[k] = x; });
    else if (typeof v === "function") track(v, (x) => { el[k] = x instanceof State ? x.val : x; });
    else el[k] = v;
  }
  return add(el, ...args);
};
const tags = new Proxy((ns) => new Proxy({}, { get: (_, t) => make(t) }), { get: (_, t) => make(String(t)) });
export default { state, derive, add, tags, val: (x) => (x instanceof State ? x.val : x) };
export { State };
