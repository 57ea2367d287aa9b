// Reads cases (one JSON value per line), runs them on the bundled code under test, writes one JSON value per line.
import { existsSync } from "node:fs";
import { dirname, join } from "node:path";
import { createInterface } from "node:readline";
import { pathToFileURL } from "node:url";
import { Document, Element } from "./dom.mjs";

const code = await import(pathToFileURL(process.argv[2]).href);
const quiet = () => {};
console.log = console.info = console.debug = console.warn = console.error = quiet;
globalThis.window = globalThis;
globalThis.Doc = Document;
globalThis.Element = Element;
globalThis.HTMLElement = Element;
globalThis.SVGElement = Element;

const SKIP = ["data-reuse-from"];

// ["svg", patch, patch, ..]: the state of the page after each patch
function svg(patches) {
  const document = (globalThis.document = new Document());
  const hooked = document.createElement("div");
  document.body.append(hooked);
  return patches.map((p) => {
    code.patchSvgToContainer(hooked, p);
    const head = document.getElementById("typst-svg-resources");
    const defs = Array.from(head?.children ?? [], (c) => {
      if (c.tagName !== "style") return c.canon([]);
      return "style " + [...new Set(Array.from(c.sheet.cssRules, (r) => r.cssText))].sort().join(" ");
    }).join("\n");
    return [Array.from(hooked.children, (c) => c.canon(SKIP)).join(""), defs, Array.from(document.body.children).length];
  });
}

const out = [];
const flush = () => out.length && (process.stdout.write(out.join("\n") + "\n"), (out.length = 0));
const kinds = { svg };
if (existsSync(join(dirname(process.argv[2]), "web.mjs"))) kinds.web = (await import("./web.mjs")).web;
if (code.TypstDocument) kinds.click = (await import("./click.mjs")).click(code);
if (code.TypstDocument) kinds.doc = (await import("./doc.mjs")).doc(code);
if (code.patchOutlineEntry) kinds.outline = (await import("./outline.mjs")).outline(code);
for await (const line of createInterface({ input: process.stdin })) {
  const [kind, ...rest] = JSON.parse(line);
  try {
    out.push(JSON.stringify(await kinds[kind](rest)));
  } catch (e) {
    out.push(JSON.stringify("throws " + e));
  }
  if (out.length > 500) flush();
}
flush();
