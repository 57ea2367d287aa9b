// ["click", tree]: the messages that a click on each element of the page sends, elements in document order.
// A tree is written as the letters of the elements (p page, t text, g group, i image, s shape, n none), each followed by its
// children in parentheses.
import { Document } from "./dom.mjs";

const CLASS = { p: "typst-page", t: "typst-text", g: "typst-group", i: "typst-image", s: "typst-shape" };

export const click = (code) => ([tree, uses]) => {
  const document = (globalThis.document = new Document());
  globalThis.getComputedStyle = () => ({ getPropertyValue: () => "" });
  document.body.getBoundingClientRect = () => ({ left: 0, top: 0 });
  const hooked = document.createElement("div");
  document.body.append(hooked);
  const messages = [];
  globalThis.typstWebsocket = { send: (m) => messages.push(m) };
  const session = { get_source_loc: (p) => (p.length % 4 === 2 && p[p.length - 1] === 3 ? undefined : p.join(" ")) };
  // the last preview of a container is the one that counts
  const docs = Array.from({ length: Math.abs(uses) }, () => new code.TypstDocument(hooked, session, { renderMode: 0 }));
  if (uses < 0) docs.at(-1).dispose();
  const svg = document.createElement("svg");
  svg.className = "typst-doc";
  hooked.append(svg);
  const stack = [svg];
  const all = [];
  let last;
  for (const c of tree) {
    if (c === "(") stack.push(last);
    else if (c === ")") stack.pop();
    else {
      last = document.createElement(c === "n" ? "path" : "g");
      if (CLASS[c]) last.className = CLASS[c];
      stack.at(-1).append(last);
      all.push(last);
    }
  }
  return all.map((e) => {
    messages.length = 0;
    hooked.dispatch("click", { target: e, clientX: 1, clientY: 2 });
    return messages.join(";");
  });
};
