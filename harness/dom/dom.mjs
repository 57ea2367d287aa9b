// A small DOM: what packages/typst-dom needs of a browser, with live collections.
class List extends Array {
  item(i) { return this[i] ?? null; }
  namedItem() { return null; }
}
// what an HTMLCollection does not have
for (const k of ["map", "filter", "forEach", "push", "pop", "shift", "unshift", "splice", "slice", "concat", "reverse", "sort", "indexOf", "find", "findIndex", "some", "every", "reduce", "includes", "join", "at"])
  Object.defineProperty(List.prototype, k, { value: undefined, enumerable: false });
const A = Array.prototype;
const splice = (l, ...x) => A.splice.apply(l, x);
const indexOf = (l, x) => A.indexOf.call(l, x);

class Attrs extends List {
  getNamedItem(n) { return A.find.call(this, (a) => a.name === n) ?? null; }
}
const esc = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;");
const unesc = (s) => s.replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&amp;/g, "&");

export class Node {
  parentNode = null;
  get parentElement() { return this.parentNode; }
  get isConnected() { for (let n = this; n; n = n.parentNode) if (n.isRoot) return true; return false; }
  remove() { this.parentNode?._take(this); }
  _siblings() { return this.parentNode ? this.parentNode.childNodes : []; }
  get nextSibling() { return this._siblings()[indexOf(this._siblings(), this) + 1] ?? null; }
  get previousSibling() { return this._siblings()[indexOf(this._siblings(), this) - 1] ?? null; }
  before(...ns) { for (const n of ns) this.parentNode.insertBefore(n, this); }
  after(...ns) { const r = this.nextSibling; for (const n of ns) this.parentNode.insertBefore(n, r); }
  replaceWith(...ns) {
    const p = this.parentNode;
    if (!p) return;
    const r = this.nextSibling;
    this.remove();
    for (const n of ns) p.insertBefore(n, r);
  }
}
export class Text extends Node {
  nodeType = 3;
  constructor(data) { super(); this.data = data; }
  get textContent() { return this.data; }
  get outerHTML() { return esc(this.data); }
  cloneNode() { return new Text(this.data); }
}
class Sheet {
  constructor(text) {
    this.cssRules = new List();
    for (const r of text.split("}")) if (r.trim()) A.push.call(this.cssRules, { cssText: r.trim().replace(/\s+/g, " ") + " }" });
  }
  insertRule(t, i = 0) {
    if (i > this.cssRules.length) throw new Error("IndexSizeError");
    splice(this.cssRules, i, 0, { cssText: t });
    return i;
  }
  deleteRule(i) { splice(this.cssRules, i, 1); }
}
export class Element extends Node {
  nodeType = 1;
  childNodes = new List();
  children = new List();
  attributes = new Attrs();
  constructor(tagName) { super(); this.tagName = tagName; }
  get nodeName() { return this.tagName; }
  get localName() { return this.tagName; }

  getAttribute(n) { return this.attributes.getNamedItem(n)?.value ?? null; }
  hasAttribute(n) { return this.attributes.getNamedItem(n) !== null; }
  setAttribute(n, v) {
    const a = this.attributes.getNamedItem(n);
    if (a) a.value = String(v);
    else A.push.call(this.attributes, { name: n, value: String(v) });
  }
  removeAttribute(n) {
    const i = A.findIndex.call(this.attributes, (a) => a.name === n);
    if (i >= 0) splice(this.attributes, i, 1);
  }
  getAttributeNames() { return Array.from(this.attributes, (a) => a.name); }
  hasAttributes() { return this.attributes.length > 0; }
  get id() { return this.getAttribute("id") ?? ""; }
  set id(v) { this.setAttribute("id", v); }
  get className() { return this.getAttribute("class") ?? ""; }
  set className(v) { this.setAttribute("class", v); }
  get classList() {
    const el = this;
    const get = () => el.className.split(/\s+/).filter((c) => c);
    return {
      [Symbol.iterator]: () => get()[Symbol.iterator](),
      get length() { return get().length; },
      contains: (c) => get().includes(c),
      add: (...cs) => { const l = get(); for (const c of cs) if (!l.includes(c)) l.push(c); el.className = l.join(" "); },
      remove: (...cs) => { el.className = get().filter((c) => !cs.includes(c)).join(" "); },
      toggle: (c) => { const l = get(); const h = l.includes(c); el.className = (h ? l.filter((x) => x !== c) : [...l, c]).join(" "); return !h; },
    };
  }
  get style() {
    const el = this;
    const dash = (k) => k.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
    const get = () => new Map((el.getAttribute("style") ?? "").split(";").filter((s) => s.trim()).map((s) => s.split(":").map((x) => x.trim())));
    const set = (k, v) => { const m = get(); if (v === "") m.delete(k); else m.set(k, v); el.setAttribute("style", [...m].map(([a, b]) => `${a}: ${b};`).join(" ")); return true; };
    return new Proxy({}, {
      get: (_, k) => k === "setProperty" ? set : k === "removeProperty" ? (n) => set(n, "") : k === "getPropertyValue" ? (n) => get().get(n) ?? "" : get().get(dash(String(k))) ?? "",
      set: (_, k, v) => set(dash(String(k)), String(v)),
    });
  }
  get dataset() {
    const el = this;
    const n = (k) => "data-" + k.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
    return new Proxy({}, { get: (_, k) => el.getAttribute(n(String(k))) ?? undefined, set: (_, k, v) => (el.setAttribute(n(String(k)), v), true), deleteProperty: (_, k) => (el.removeAttribute(n(String(k))), true) });
  }

  get firstElementChild() { return this.children[0] ?? null; }
  get lastElementChild() { return this.children[this.children.length - 1] ?? null; }
  get childElementCount() { return this.children.length; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
  get nextElementSibling() { const s = this.parentNode?.children ?? []; return s[indexOf(s, this) + 1] ?? null; }
  get previousElementSibling() { const s = this.parentNode?.children ?? []; return s[indexOf(s, this) - 1] ?? null; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }

  _take(n) {
    splice(this.childNodes, indexOf(this.childNodes, n), 1);
    const i = indexOf(this.children, n);
    if (i >= 0) splice(this.children, i, 1);
    n.parentNode = null;
  }
  insertBefore(n, ref) {
    if (typeof n === "string") n = new Text(n);
    if (!(n instanceof Node)) throw new TypeError("insertBefore: not a node");
    if (n.contains?.(this)) throw new Error("HierarchyRequestError");
    if (ref === n) ref = n.nextSibling;
    if (ref != null && ref.parentNode !== this) throw new Error("NotFoundError");
    n.remove();
    const at = ref == null ? this.childNodes.length : indexOf(this.childNodes, ref);
    splice(this.childNodes, at, 0, n);
    if (n instanceof Element) {
      let c = 0;
      for (let i = 0; i < at; i++) if (this.childNodes[i] instanceof Element) c++;
      splice(this.children, c, 0, n);
    }
    n.parentNode = this;
    return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  append(...ns) { for (const n of ns) this.insertBefore(n, null); }
  prepend(...ns) { const f = this.firstChild; for (const n of ns) this.insertBefore(n, f); }
  removeChild(n) { if (n.parentNode !== this) throw new Error("NotFoundError"); n.remove(); return n; }
  replaceChild(n, o) { const r = o.nextSibling; this.removeChild(o); this.insertBefore(n, r); return o; }
  replaceChildren(...ns) { while (this.firstChild) this.firstChild.remove(); this.append(...ns); }
  insertAdjacentElement(w, n) {
    if (w === "beforebegin") this.before(n);
    else if (w === "afterbegin") this.prepend(n);
    else if (w === "beforeend") this.append(n);
    else this.after(n);
    return n;
  }
  cloneNode(deep) {
    const e = new Element(this.tagName);
    for (const a of this.attributes) e.setAttribute(a.name, a.value);
    if (deep) for (const c of this.childNodes) e.append(c.cloneNode(true));
    return e;
  }
  *_all() { for (const c of this.children) { yield c; yield* c._all(); } }
  getElementsByTagName(t) { return Array.from(this._all()).filter((e) => e.tagName === t); }
  getElementsByClassName(t) { return Array.from(this._all()).filter((e) => e.classList.contains(t)); }
  matches(s) {
    return s.split(",").some((p) => {
      const m = /^\s*([\w-]*)((?:[.#][\w-]+|\[[^\]]*\])*)\s*$/.exec(p);
      if (!m) throw new Error("selector: " + s);
      if (m[1] && m[1] !== this.tagName) return false;
      return (m[2].match(/[.#][\w-]+|\[[^\]]*\]/g) ?? []).every((c) => {
        if (c[0] === ".") return this.classList.contains(c.slice(1));
        if (c[0] === "#") return this.id === c.slice(1);
        const a = /^\[([\w-]+)(?:=["']?(.*?)["']?)?\]$/.exec(c);
        return a[2] === undefined ? this.hasAttribute(a[1]) : this.getAttribute(a[1]) === a[2];
      });
    });
  }
  querySelectorAll(s) { return Array.from(this._all()).filter((e) => e.matches(s)); }
  querySelector(s) { return this.querySelectorAll(s)[0] ?? null; }
  closest(s) { for (let n = this; n; n = n.parentNode) if (n.matches(s)) return n; return null; }

  get textContent() { return Array.from(this.childNodes, (c) => c.textContent).join(""); }
  set textContent(t) { this.replaceChildren(); if (t) this.append(new Text(t)); }
  get innerText() { return this.textContent; }
  set innerText(t) { this.textContent = t; }
  get innerHTML() { return Array.from(this.childNodes, (c) => c.outerHTML).join(""); }
  set innerHTML(s) { this.replaceChildren(); parse(this, s); }
  get outerHTML() { return `<${this.tagName}${Array.from(this.attributes, (a) => ` ${a.name}="${esc(a.value)}"`).join("")}>${this.innerHTML}</${this.tagName}>`; }
  get sheet() {
    if (this.tagName !== "style" || !this.isConnected) return null;
    return (this._sheet ??= new Sheet(this.textContent));
  }
  addEventListener(t, f) { (this._on ??= []).push([t, f]); }
  removeEventListener(t, f) { this._on = (this._on ?? []).filter(([k, g]) => k !== t || g !== f); }
  dispatch(t, e) { for (const [k, f] of this._on ?? []) if (k === t) f({ target: this, ...e }); }
  // the same, whatever the order of the attributes
  canon(skip) {
    const at = Array.from(this.attributes).filter((a) => !skip.includes(a.name)).sort((a, b) => (a.name < b.name ? -1 : 1));
    const kids = Array.from(this.childNodes, (c) => (c instanceof Element ? c.canon(skip) : c.outerHTML)).join("");
    return `<${this.tagName}${at.map((a) => ` ${a.name}="${esc(a.value)}"`).join("")}>${kids}</${this.tagName}>`;
  }
}
function parse(root, s) {
  const stack = [root];
  const re = /<(\/?)([\w-]+)((?:\s+[\w:-]+="[^"]*")*)\s*(\/?)>|([^<]+)/g;
  for (let m; (m = re.exec(s)); ) {
    const top = stack[stack.length - 1];
    if (m[5] !== undefined) top.append(new Text(unesc(m[5])));
    else if (m[1]) stack.pop();
    else {
      const e = new Element(m[2]);
      for (const a of m[3].matchAll(/([\w:-]+)="([^"]*)"/g)) e.setAttribute(a[1], unesc(a[2]));
      top.append(e);
      if (!m[4]) stack.push(e);
    }
  }
}
export class Document {
  constructor() {
    this.documentElement = new Element("html");
    this.documentElement.isRoot = true;
    this.head = this.documentElement.appendChild(new Element("head"));
    this.body = this.documentElement.appendChild(new Element("body"));
    this.implementation = { createHTMLDocument: () => new Document() };
  }
  createElement(t) { return new Element(t); }
  createElementNS(_, t) { return new Element(t); }
  createTextNode(t) { return new Text(t); }
  getElementById(i) { return this.querySelector("#" + i); }
  querySelector(s) { return this.documentElement.querySelector(s); }
  querySelectorAll(s) { return this.documentElement.querySelectorAll(s); }
}
