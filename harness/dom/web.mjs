// ["web", [config, actions, prefix, depth]]: every history of `actions` on the page of packages/mitex-web that begins with
// `prefix` and goes up to `depth` actions further. The answer is as in doc.mjs.
import { readFileSync } from "node:fs";
import { dirname, join } from "node:path";

const immediate = globalThis.setImmediate;
const flush = () => new Promise((r) => immediate(r));
const Async = (async () => {}).constructor;
const page = new Async(readFileSync(join(dirname(process.argv[2]), "web.mjs"), "utf8"));
const TEXT = { a: "a+b", e: "", t: "\\text{`}", q: 'x"\\\\y', n: "a\nb", b: "\\`a", B: "\\", s: " a ", u: "\u{3b1}#$", "!": "\\bad" };
const convert = (s) => { if (s === "\\bad") throw "error: bad"; return s === " a " ? s : s && "T " + s; };

export const web = async ([[config, actions, prefix, depth]]) => {
  let runs = 0, steps = 0;
  const outcomes = new Set(), bad = [];
  const visit = async (seq, left) => {
    const r = await execute(config, seq);
    if (r === null) return;
    runs++;
    steps += r.steps;
    outcomes.add(r.outcome);
    if (r.wrong && bad.length < 20) bad.push([seq, r.wrong]);
    if (left > 0) for (const a of actions) await visit(seq + a, left - 1);
  };
  await visit(prefix, depth);
  return [runs, steps, [...outcomes], bad];
};

async function execute(config, seq) {
  const w = new Page(config);
  const restore = w.install();
  try {
    for (const a of seq) if (!(await w.act(a))) return null;
    for (let i = 0; i < 100 && !w.wrong; i++) {
      const a = ["L", "W", "S"].find((a) => w.can(a));
      if (!a) break;
      await w.act(a);
    }
    const wrong = w.wrong ?? (await w.verdict());
    return { steps: w.steps, outcome: w.outcome ?? "", wrong };
  } finally {
    restore();
  }
}

class Page {
  steps = 0;
  pending = [];
  text = undefined;
  constructor(config) { this.dark = config.includes("dark"); this.later = config.includes("later"); }
  install() {
    const w = this;
    this.app = { tag: "body", kids: [], on: {} };
    const head = { appendChild: (s) => { w.script = s; }, append: (s) => { w.script = s; } };
    const g = {
      vanLater: this.later,
      wasmArrives: new Promise((r) => { this.wasm = r; }),
      convertMath: (s) => convert(s),
      document: {
        head,
        getElementsByTagName: () => [head],
        createElement: (tag) => ({ tag, kids: [], on: {} }),
        querySelector: () => this.app,
        getElementById: () => this.app,
      },
      matchMedia: () => ({ matches: this.dark, addEventListener() {} }),
      $typst: undefined,
      $typst$script: undefined,
    };
    const old = {};
    const set = (k, v) => { old[k] ??= [Object.getOwnPropertyDescriptor(globalThis, k)]; Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true }); };
    for (const k in g) set(k, g[k]);
    set("navigator", { clipboard: { writeText: async (t) => { this.copied = t; } } });
    const rej = (e) => { this.wrong ??= "an error that nobody handles: " + (e?.stack ?? e); };
    process.on("unhandledRejection", rej);
    page().catch(rej);
    return () => {
      process.off("unhandledRejection", rej);
      for (const k in old) if (old[k][0]) Object.defineProperty(globalThis, k, old[k][0]); else delete globalThis[k];
    };
  }
  *all(e = this.app) { yield e; for (const k of e.kids ?? []) if (k) yield* this.all(k); }
  find(f) { return [...this.all()].filter(f); }
  get input() { return this.find((e) => e.tag === "textarea" && e.on.input)[0]; }
  get output() { return this.find((e) => e.tag === "textarea" && !e.on.input)[0]; }
  can(a) {
    switch (a) {
      case "L": return !this.loaded && !!this.script;
      case "W": return !!this.wasm;
      case "S": return this.pending.length > 0;
      default: return !!this.input;
    }
  }
  async act(a) {
    if (this.wrong || !this.can(a)) return false;
    switch (a) {
      case "L":
        this.loaded = true;
        globalThis.$typst = {
          setCompilerInitOptions() {}, setRendererInitOptions() {},
          getCompiler: async () => ({}), getRenderer: async () => ({}),
          svg: ({ mainContent }) => new Promise((r) => this.pending.push(() => r(`<svg>${mainContent}</svg>`))),
        };
        this.script.onload();
        break;
      case "W": this.wasm(); this.wasm = undefined; break;
      case "S": this.pending.shift()(); break;
      default:
        this.text = TEXT[a];
        this.input.value = this.text;
        this.input.on.input({ target: this.input });
    }
    this.steps++;
    await flush();
    return true;
  }
  async verdict() {
    const text = this.text ?? this.input?.value;
    if (text === undefined) return "there is nothing to type into";
    let want = "", error = "";
    try { want = convert(text); } catch (e) { error = e; }
    this.outcome = text;
    if (this.output.value !== want) return `the output for ${JSON.stringify(text)} is ${JSON.stringify(this.output.value)}`;
    const e = this.find((e) => e.class === "error")[0];
    if (String(e?.textContent ?? "") !== error) return `the error for ${JSON.stringify(text)} is ${JSON.stringify(e?.textContent)}`;
    const html = this.find((e) => e.innerHTML !== undefined)[0]?.innerHTML ?? "";
    const shown = formula(String(html));
    if (shown !== want) return `the rendered formula for ${JSON.stringify(text)} is ${JSON.stringify(shown ?? html)}`;
    if (!html.includes(`fill: rgb("#${this.dark ? "fff" : "000"}")`)) return "the formula is rendered in a colour that does not show";
    const buttons = this.find((e) => e.tag === "button");
    if (buttons.length !== 2) return `there are ${buttons.length} buttons`;
    for (const [i, b] of buttons.entries()) {
      await b.on.click({ target: b });
      if (formula(this.copied) !== want) return `what is copied for ${JSON.stringify(text)} shows another formula: ${this.copied}`;
      if (/#import "@preview\/mitex:[\d.]+": \*/.test(this.copied) !== (i === 1)) return `the import in what is copied: ${this.copied}`;
    }
  }
}

// The formula that a piece of Typst shows.
function formula(t) {
  const m = /#math\.equation\(eval\("\$" \+ (?:`([^`]*)`\.text|"((?:[^"\\]|\\[\\"nrt])*)") \+ "\$", mode: "markup", scope: mitex-scope\), block: true\)/.exec(t);
  if (!m) return undefined;
  return m[1] ?? m[2].replace(/\\(.)/g, (_, c) => ({ n: "\n", r: "\r", t: "\t" })[c] ?? c);
}
