// ["outline", [pages, items], ..]: the outline after each update, in place and built anew
export const outline = (code) => (steps) => {
  globalThis.document = new globalThis.Doc();
  const div = () => document.body.appendChild(document.createElement("div"));
  const doc = div();
  const all = [];
  return steps.map(([pages, items]) => {
    const fresh = div();
    const r = [update(code, doc, pages, items, all), update(code, fresh, pages, items, [])];
    fresh.remove();
    return r;
  });
};

// as toggleCanvasViewportChange and ensureCreatedCanvas do
function update(code, doc, n, items, all) {
  const pages = Array.from({ length: n }, (_, index) => ({ tag: "canvas", index, width: 1, height: 1 }));
  code.patchOutlineEntry(doc, pages, items);
  for (const ch of [...doc.children]) {
    if (!ch.classList.contains("typst-page")) continue;
    const i = Number.parseInt(ch.getAttribute("data-page-number"));
    if (i >= n) ch.remove();
    else { pages[i].container = ch; pages[i].elem = ch.firstElementChild; }
  }
  for (const p of pages) {
    if (!p.elem) {
      p.elem = document.createElement("div");
      p.elem.setAttribute("class", "typst-page-canvas");
      p.container = document.createElement("div");
      p.container.setAttribute("data-tid", "canvas:" + p.index);
      p.container.setAttribute("class", "typst-page canvas-mode");
      p.container.setAttribute("data-page-number", String(p.index));
      p.container.append(p.elem);
    }
    if (!p.container.parentElement) {
      if (p.inserter) p.inserter(p);
      else if (p.index === 0) doc.prepend(p.container);
      else pages[p.index - 1].container.after(p.container);
    }
  }
  return show(doc);
}

function show(e) {
  return Array.from(e.children, (c) => {
    if (c.classList.contains("typst-page")) return "p" + (1 + Number(c.getAttribute("data-page-number"))) + ";";
    if (c.classList.contains("typst-outline")) return "[" + show(c) + "]";
    if (c.classList.contains("typst-outline-title")) return [...c.classList].pop().replace("level-", "") + "<" + c.textContent + ">";
    return "?" + c.outerHTML;
  }).join("");
}
