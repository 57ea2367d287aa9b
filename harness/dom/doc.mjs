// ["doc", [config, actions, prefix, depth]]: every history of `actions` on the preview `config` that
// begins with `prefix` and goes up to `depth` actions further, on a preview of typst-dom under a scheduler that decides when frames, timers and drawings happen.
// The answer: [executions, transitions, outcomes, [[history, what is wrong], ..]]
import { Document, Element } from "./dom.mjs";

const immediate = globalThis.setImmediate;
const flush = () => new Promise((r) => immediate(r));
const FACTORS = [0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1, 1.1, 1.3, 1.5, 1.7, 1.9, 2.1, 2.4, 2.7, 3, 3.3, 3.7, 4.1, 4.6, 5.1, 5.7, 6.3, 7, 7.7, 8.5, 9.4, 10];

class Canvas extends Element {
  drawn = "";
  get width() { return this._w; }
  set width(v) { this._w = v; this.drawn = ""; }
  get height() { return this._h; }
  set height(v) { this._h = v; this.drawn = ""; }
  getContext() { return { canvas: this }; }
}
class Doc extends Document {
  createElement(t) { return t === "canvas" ? new Canvas(t) : super.createElement(t); }
}

// the pages of the document that the `n`-th compilation gives
const SIZES = [
  [[100, 50], [100, 50], [80, 40]],
  [[100, 60], [100, 55]],
  [[100, 50]],
  [[80, 40], [120, 50], [100, 50], [100, 50]],
];

const OUTLINES = [
  [{ title: "A", position: { page_no: 1, x: 0, y: 0 }, children: [] }],
  [{ title: "A", position: { page_no: 1, x: 0, y: 0 }, children: [{ title: "B", children: [] }] }, { title: "C", children: [] }],
];

const SETUPS = {
  doc: { render: 0, mode: 0 },
  partial: { render: 0, mode: 0, partial: true },
  slide: { render: 0, mode: 1 },
  canvas: { render: 1, mode: 0 },
  color: { render: 0, mode: 0 },
  zoom: { render: 0, mode: 0 },
  zooms: { render: 0, mode: 0, first: "DFF" },
  gone: { render: 0, mode: 0 },
  content: { render: 0, mode: 0, content: true },
};

export const doc = (code) => async ([[config, actions, prefix, depth]]) => {
  const setup = SETUPS[config];
  let runs = 0, steps = 0;
  const outcomes = new Set(), bad = [];
  const visit = async (seq, left) => {
    const r = await execute(code, setup, seq);
    if (r === null) return;
    runs++;
    steps += r.steps;
    outcomes.add(r.outcome);
    if (r.wrong && bad.length < 20) bad.push([seq, r.wrong]);
    if (left > 0) for (const a of actions) await visit(seq + a, left - 1);
  };
  await visit(prefix, depth);
  return [runs, steps, [...outcomes], bad];
};

async function execute(code, setup, seq) {
  const w = new World(code, setup);
  const restore = w.install();
  try {
    for (const a of (setup.first ?? "") + seq) if (!(await w.act(a))) return null;
    await w.drain();
    // what fails may hold back those after it until there is another one
    for (const a of seq) if ("BX".includes(a)) { await w.act("D"); await w.drain(); }
    if (setup.partial) { w.doc.addViewportChange(); await w.drain(); }
    const wrong = w.wrong[0] ?? w.verdict();
    return { steps: w.steps, outcome: w.shown, wrong };
  } catch (e) {
    return { steps: w.steps, outcome: "throws", wrong: "throws " + (e.stack ?? e) };
  } finally {
    restore();
  }
}

class World {
  wrong = [];
  steps = 0;
  shown = "";
  frames = [];
  timers = [];
  drawings = [];
  now = 0;
  ids = 0;
  // what the preview must show
  log = [];
  ratio = 1;
  color = "white";
  page = 1;
  width = 200;
  height = 150;
  top = 0;
  scrolls = 0;
  // the session of the renderer
  merged = [];
  pages = [];
  sent = new Set();

  constructor(code, setup) { this.code = code; this.setup = setup; }

  install() {
    const old = {};
    const g = {
      document: new Doc(),
      requestAnimationFrame: (f) => { this.frames.push(f); return this.frames.length; },
      cancelAnimationFrame: () => {},
      setTimeout: (f, ms = 0) => { const id = ++this.ids; this.timers.push({ id, at: this.now + Math.max(0, ms), f }); return id; },
      clearTimeout: (id) => { this.timers = this.timers.filter((t) => t.id !== id); },
      performance: { now: () => this.now },
      getComputedStyle: () => ({ getPropertyValue: () => "#111111" }),
      screenLeft: 0, screenTop: 0, innerWidth: 200, innerHeight: 150, onresize: null,
      scrollBy: (x, y) => this.scrolled(x, y),
      initTypstSvg: () => {},
      typstWebsocket: { send: (m) => { this.message = m; } },
    };
    for (const k in g) {
      old[k] = Object.getOwnPropertyDescriptor(globalThis, k);
      Object.defineProperty(globalThis, k, { value: g[k], configurable: true, writable: true });
    }
    const err = console.error;
    console.error = (e) => { if (!String(e).includes("a broken ")) this.wrong.push("an error: " + e); };
    const rej = (e) => String(e).includes("a broken ") || this.wrong.push("an error that nobody handles: " + e);
    process.on("unhandledRejection", rej);
    this.start();
    return () => {
      console.error = err;
      process.off("unhandledRejection", rej);
      for (const k in g) if (old[k]) Object.defineProperty(globalThis, k, old[k]); else delete globalThis[k];
    };
  }

  start() {
    const { setup } = this;
    const document = globalThis.document;
    this.body = document.body;
    const indicator = (this.indicator = document.createElement("span"));
    indicator.className = "typst-page-number-indicator";
    this.outer = document.createElement("div");
    this.hooked = document.createElement("div");
    document.body.append(indicator, this.outer);
    this.outer.append(this.hooked);
    this.doc = new this.code.TypstDocument(this.hooked, this.session(), {
      renderMode: setup.render,
      previewMode: setup.mode,
      sourceMapping: false,
      isContentPreview: setup.content,
      retrieveDOMState: () => ({ width: this.width, height: this.height, boundingRect: { left: 0, top: -this.top } }),
    });
    if (setup.partial) this.doc.setPartialRendering(true);
  }

  content(i) { return (i === 1 ? "same " : this.merged.join(",") + " ") + i; }

  session() {
    const w = this;
    const svg = (lo, hi) => {
      let y = 0, out = "";
      const sent = new Set();
      w.pages.forEach(([pw, ph], i) => {
        const inside = y < hi && y + ph > lo;
        y += ph;
        const tid = "t" + w.content(i).replace(/[ ,]/g, "_");
        const at = `class="typst-page" data-page-width="${pw}" data-page-height="${ph}"`;
        if (!inside) out += `<g data-tid="d${i}" ${at} data-dummy="1"></g>`;
        else {
          sent.add(tid);
          if (w.sent.has(tid)) out += `<g data-tid="${tid}" data-reuse-from="${tid}" ${at}></g>`;
          else out += `<g data-tid="${tid}" ${at}><g data-tid="x${tid}"><path d="${w.content(i)}"></path></g></g>`;
        }
      });
      w.sent = sent;
      return `<svg><style></style><defs class="glyph"></defs><defs class="clip-path"></defs>${out}</svg>`;
    };
    const merge = (d) => {
      if (w.drawings.length) w.wrong.push("an update is applied while a page is being drawn");
      if (d.broken) throw new Error("a broken update");
      w.merged.push(d.id);
      w.pages = SIZES[(d.id - 1) % SIZES.length];
      w.page = Math.min(w.page, w.pages.length);
    };
    return {
      backgroundColor: "",
      pixelPerPt: 1,
      get docWidth() { return Math.max(...w.pages.map((p) => p[0])); },
      get docHeight() { return w.pages.reduce((a, p) => a + p[1], 0); },
      reset() { w.merged = []; w.pages = []; w.sent = new Set(); },
      merge_delta: merge,
      manipulateData: ({ data }) => merge(data),
      retrievePagesInfo: () => w.pages.map(([width, height], pageOffset) => ({ pageOffset, width, height })),
      render_in_window: (_x, lo, _y, hi) => svg(lo, hi),
      renderSvgDiff: ({ window } = {}) => svg(window?.lo.y ?? 0, window?.hi.y ?? 1e33),
      renderCanvas({ canvas, pageOffset, cacheKey }) {
        if (w.drawings.length) w.wrong.push("two pages are being drawn at once");
        const c = w.content(pageOffset);
        const draw = (r) => {
          if (cacheKey !== c) canvas.canvas.drawn = c + " x" + this.pixelPerPt;
          r({ cacheKey: c });
        };
        return new Promise((r, no) => w.drawings.push({ R: () => draw(r), X: () => no(new Error("a broken drawing")) }));
      },
    };
  }

  // Does the action, if it is possible.
  async act(a) {
    if (this.wrong.length) return false;
    switch (a) {
      case "D": case "N": case "B": {
        const d = { id: ++this.ids_, broken: a === "B" };
        if (a === "N") this.log = [];
        if (a !== "B") this.log.push(d.id);
        this.doc.addChangement([a === "N" ? "new" : "diff-v1", d]);
        break;
      }
      case "V": this.doc.addViewportChange(); break;
      case "Z": this.width = this.width === 200 ? 90 : 200; this.height = this.height === 150 ? 70 : 150; this.doc.addViewportChange(); break;
      case "S": this.top = (this.top + 120) % 360; this.doc.addViewportChange(); break;
      case "1": case "2": case "3": {
        const ok = this.doc.setPartialPageNumber(+a);
        if (ok !== +a <= this.pages.length) this.wrong.push(`page ${a} of ${this.pages.length} is ${ok ? "" : "not "}taken`);
        if (ok) this.page = +a;
        break;
      }
      case "k": case "K": this.doc.setPageColor((this.color = a === "k" ? "black" : "white")); break;
      case "c": case "C": this.doc.setCursor(...(this.cursor = a === "c" ? [1, 10, 20] : [2, 30, 5])); this.doc.addViewportChange(); break;
      case "o": case "O": this.outline = a === "o" ? OUTLINES[0] : OUTLINES[1]; this.doc.setOutineData({ items: this.outline }); break;
      case "x": this.doc.dispose(); this.gone = true; break;
      case "u": case "d": {
        const prev = this.ratio;
        const i = FACTORS.indexOf(prev) + (a === "u" ? 1 : -1);
        if (!this.gone) this.ratio = FACTORS[Math.min(Math.max(i, 0), FACTORS.length - 1)];
        this.moved = undefined;
        let kept = false;
        this.body.dispatch("wheel", { ctrlKey: true, deltaY: a === "u" ? -1 : 1, pageX: 40, pageY: 30, preventDefault: () => { kept = true; } });
        if (kept === !!this.gone) this.wrong.push(kept ? "it still zooms" : "the browser zooms as well");
        const f = this.ratio / prev - 1, [x, y] = this.moved ?? [0, 0];
        if (Math.abs(x - 40 * f) > 1e-6 || Math.abs(y - 30 * f) > 1e-6) this.wrong.push(`zooming from ${prev} to ${this.ratio} scrolls by ${x}, ${y}`);
        break;
      }
      case "F": {
        if (!this.frames.length) return false;
        const fs = this.frames;
        this.frames = [];
        for (const f of fs) f(this.now);
        break;
      }
      case "T": {
        if (!this.timers.length) return false;
        this.fire();
        break;
      }
      case "R": case "X": {
        if (!this.drawings.length) return false;
        this.drawings.shift()[a]();
        break;
      }
    }
    this.steps++;
    await flush();
    return true;
  }
  ids_ = 0;
  scrolled(x, y) { this.moved = [x, y]; }
  fire() {
    const t = this.timers.reduce((a, b) => (b.at < a.at ? b : a));
    this.timers.splice(this.timers.indexOf(t), 1);
    this.now = Math.max(this.now, t.at);
    t.f();
  }
  async drain() {
    for (let i = 0; ; i++) {
      if (this.frames.length) await this.act("F");
      else if (this.drawings.length) await this.act("R");
      else if (this.timers.length) await this.act("T");
      else return;
      if (this.wrong.length) return;
      if (i > 500) { this.wrong.push("the preview never comes to rest"); return; }
    }
  }

  // What is wrong with what the preview shows, once nothing is left to do.
  verdict() {
    const { hooked, setup } = this;
    if (this.merged.join() !== this.log.join()) return `the updates ${this.log} came since the last new document, ${this.merged} are applied`;
    if (!this.log.length) return hooked.querySelectorAll("path").length ? "a page out of nothing" : undefined;
    const root = hooked.firstElementChild;
    const near = (what, a, b) => (Math.abs(Number(a) - b) < 1e-3 ? undefined : `${what} is ${a}, not ${b}`);
    let pages = Array.from(root?.children ?? []).filter((c) => c.classList.contains("typst-page"));
    if (setup.content) pages = root?.querySelectorAll(".typst-page") ?? [];
    if (pages.length !== this.pages.length) return `${pages.length} pages show, not ${this.pages.length}`;
    this.shown = this.log.join() + ";" + this.ratio + this.color + this.page + this.width;
    const drawn = (p, i) => {
      const c = p.querySelectorAll("canvas")[0];
      const px = setup.content ? 1 : 3;
      const want = this.content(i) + " x" + px;
      if (c?.drawn !== want) return `the canvas of page ${i} shows ${c?.drawn}, not ${want}`;
      const [w, h] = this.pages[i];
      return near("the width of the canvas", c.width, w * px) ?? near("the height of the canvas", c.height, h * px);
    };
    if (setup.render === 1 || setup.content) {
      const titles = Array.from(root.querySelectorAll(".typst-outline-title"), (t) => t.textContent.trim()).join();
      const want = (l) => l.flatMap((o) => [o.title, ...want(o.children)]);
      if (titles !== want(this.outline ?? []).join()) return `the outline shows ${titles}`;
      for (const [i, p] of pages.entries()) {
        const [w, h] = this.pages[i];
        if (p.getAttribute("data-page-number") !== String(i)) return `page ${p.getAttribute("data-page-number")} is at ${i}`;
        const e = p.firstElementChild, scale = ((this.width - (setup.content ? 10 : 0)) / w) * this.ratio;
        const r = drawn(p, i)
          ?? near("the width of the page", parseFloat(e.style.width), Math.ceil(w * scale))
          ?? near("the height of the page", parseFloat(e.style.height), Math.ceil(h * scale))
          ?? near("the scale", /scale\(([-.\d]+)\)/.exec(e.style.transform)?.[1], scale / (setup.content ? 1 : 3));
        if (r) return r;
        if (setup.content) {
          this.message = "";
          p.dispatch("click", {});
          if (this.message !== "outline-sync," + (i + 1)) return `a click on page ${i} tells ${this.message}`;
        }
      }
      return;
    }
    const slide = setup.mode === 1;
    if (slide) {
      if (this.doc.getPartialPageNumber() !== this.page) return `it says that page ${this.doc.getPartialPageNumber()} shows, not ${this.page}`;
      if (this.indicator.textContent !== String(this.pages.length)) return `it says that there are ${this.indicator.textContent} pages`;
    }
    const here = slide ? [this.page - 1] : pages.map((_, i) => i);
    const maxW = Math.max(...here.map((i) => this.pages[i][0]));
    const margin = 5 / (this.ratio * (this.width / maxW));
    const rects = Array.from(root.children).filter((c) => c.classList.contains("typst-page-inner"));
    if (rects.length !== here.length) return `${rects.length} sheets for ${here.length} pages`;
    let y = 0;
    for (const [k, i] of here.entries()) {
      const [w, h] = this.pages[i];
      const p = pages[i];
      if (k) y += 2 * margin;
      for (const e of [p, rects[k]]) {
        const m = /^translate\(([-.\d]+), ([-.\de]+)\)/.exec(e.getAttribute("transform") ?? "");
        const r = near("x of page " + i, m?.[1], (maxW - w) / 2) ?? near("y of page " + i, m?.[2], y)
          ?? near("the width of page " + i, e.getAttribute("data-page-width"), w) ?? near("the height of page " + i, e.getAttribute("data-page-height"), h);
        if (r) return r;
      }
      if (rects[k].getAttribute("fill") !== this.color) return `page ${i} is ${rects[k].getAttribute("fill")}, not ${this.color}`;
      const path = p.querySelectorAll("path");
      if (path.length) {
        if (path.length !== 1 || path[0].getAttribute("d") !== this.content(i)) return `page ${i} shows ${Array.from(path, (x) => x.getAttribute("d"))}, not ${this.content(i)}`;
        if (p.querySelectorAll("canvas").length) return `page ${i} shows twice`;
      } else if (!setup.partial) return `page ${i} is blank`;
      else {
        const r = drawn(p, i);
        if (r) return r;
        const rev = maxW / this.width / this.ratio;
        if (y < (this.top + 150) * rev && y + h > this.top * rev) return `page ${i} is in view, but only an image of it shows`;
      }
      y += h;
    }
    const dots = root.querySelectorAll("circle");
    const at = this.cursor && pages[this.cursor[0] - 1];
    if (dots.length !== (at ? 1 : 0)) return `${dots.length} cursors show`;
    if (at) {
      const [d] = dots, t = d.getAttribute("transform");
      if (!t.startsWith(at.getAttribute("transform"))) return "the cursor is on another page";
      const r = near("x of the cursor", d.getAttribute("cx"), this.cursor[1] * 100) ?? near("y of the cursor", d.getAttribute("cy"), this.cursor[2] * 100);
      if (r) return r;
    }
    if (slide && root.querySelectorAll("path").length !== 1) return "other pages show on the slide";
    const total = Number(root.getAttribute("data-height"));
    if (total < y - 1e-3 || total > y + 2 * margin) return `the height is ${total}, the pages end at ${y}`;
    const scale = (slide ? Math.min(this.width / maxW, this.height / total) : this.width / maxW) * this.ratio;
    return near("the width", root.getAttribute("data-width"), maxW)
      ?? near("the width of the picture", root.getAttribute("width"), Math.ceil(maxW * scale))
      ?? near("the height of the picture", root.getAttribute("height"), Math.ceil(total * scale))
      ?? near("the place of the picture", /translate\(([-.\d]+)px/.exec(hooked.style.transform)?.[1], Math.max((this.width - Math.ceil(maxW * scale)) / 2, 0));
  }
}
