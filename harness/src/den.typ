// What a piece of content shows, as a string: its characters and its structure.
#let mark(l) = "⟨" + str(l).replace("−", "⊖").replace("–", "⊟").replace("—", "⊠").replace("…", "⊙").replace(" ", "␣") + "⟩"
// (images are not read)
#let mitex-scope = mitex-scope + (image: (path, width: auto, height: auto) => "image(" + (
  if width != auto { ("width: " + repr(width),) } + if height != auto { ("height: " + repr(height),) } + (repr(path),)
).join(", ") + ")")
// (colours are shown by their names, after they were given to the handlers)
#let plain(c) = if type(c) == str { c } else if c.has("text") { c.text } else if c.has("children") { c.children.map(plain).join("", default: "") } else if repr(c.func()) == "space" { " " } else if repr(c.func()) == "smartquote" { "'" } else { repr(c) }
#let paint(handler, pre) = (model, color, ..body) => {
  let shown = handler(model, color, ..body)
  let mark = metadata("⟪" + pre + (if model != none { plain(model) + ":" }) + plain(color) + "⟫")
  if pre == "" { text(fill: red, mark + body.pos().sum(default: none)) } else { mark + body.pos().sum(default: none) + metadata("⟪⟫") }
}
#let mitex-scope = mitex-scope + (
  mitexcolor: paint(mitex-scope.mitexcolor, ""),
  colortext: paint(mitex-scope.colortext, ""),
  mitexcolorbox: paint(mitex-scope.mitexcolorbox, "box "),
)
#let den(c, labelled: false) = {
  if not labelled and type(c) == content and c.has("label") { return den(c, labelled: true) + mark(c.label) }
  if c == none { return "" }
  if type(c) == str { return c }
  if type(c) == array { return "[" + c.map(den).join("¦", default: "") + "]" }
  if type(c) != content { return repr(c) }
  let f = c.func()
  let n = repr(f)
  let at(k) = den(c.at(k, default: none))
  if n == "sequence" { return c.children.map(den).join("", default: "") }
  if n == "styled" { return "⦃" + den(c.child) + "⦄" }
  if c.has("text") and type(c.text) == str and (n == "text" or n == "symbol") { return c.text.replace("\u{200b}", "") }
  if n == "metadata" { return c.value }
  if n == "space" { return " " }
  if n == "linebreak" { return "↵" }
  if n == "parbreak" { return "¶" }
  if n == "smartquote" { return if c.at("double", default: true) { "\"" } else { "'" } }
  if n == "align-point" { return "&" }
  if n == "primes" { return "'" * c.at("count") }
  if n == "equation" {
    return if c.at("block", default: false) { "『" + den(c.body) + "』" } else { "「" + den(c.body) + "」" }
  }
  if n == "attach" {
    // primes next to their base
    let tr = c.at("tr", default: none)
    let pr = if tr != none and repr(tr.func()) == "primes" { den(tr) } else { "" }
    if pr != "" and not ("b", "t", "tl", "bl", "br").any(k => c.at(k, default: none) != none) { return at("base") + pr }
    let r = "‹" + at("base") + pr + "›"
    for k in ("b", "t") { if c.has(k) and c.at(k) != none { r += (if k == "b" {"_"} else {"^"}) + "‹" + at(k) + "›" } }
    for k in ("tl", "bl", "tr", "br") { if k == "tr" and pr != "" { continue }; if c.has(k) and c.at(k) != none { r += k + "‹" + at(k) + "›" } }
    return r
  }
  if n == "frac" { return "frac(" + at("num") + "|" + at("denom") + ")" }
  if n == "binom" { return "binom(" + at("upper") + "|" + c.lower.map(den).join(",") + ")" }
  if n == "root" { return "root(" + at("index") + "|" + at("radicand") + ")" }
  if n == "accent" { return "accent(" + at("base") + "|" + c.accent + ")" }
  if n == "op" { return (if c.at("limits", default: false) { "OP(" } else { "op(" }) + at("text") + ")" }
  if n == "mat" { return "mat" + repr(c.at("delim", default: auto)).replace(" ", "") + "⟦" + c.rows.map(r => r.map(den).join("¦")).join("⁏", default: "") + "⟧" }
  if n == "cases" { return "cases⟦" + c.children.map(den).join("⁏", default: "") + "⟧" }
  if n == "vec" { return "vec⟦" + c.children.map(den).join("⁏", default: "") + "⟧" }
  if n == "grid" or n == "table" {
    let cols = c.at("columns", default: 1)
    let k = if type(cols) == array { cols.len() } else { cols }
    let al = c.at("align", default: ())
    let r = n + (if n == "table" { "[" + (if type(al) == array { al } else { (al,) }).map(repr).join(",", default: "") + "]" }) + "⟦"
    let i = 0
    for x in c.children {
      if repr(x.func()) != "cell" {
        r += "〈" + repr(x.func()) + (if x.has("x") and type(x.x) == int { " " + str(x.x) }) + (if x.has("y") and type(x.y) == int { " y" + str(x.y) }) + " " + repr(x.at("stroke", default: none)) + "〉"
        continue
      }
      if i > 0 { r += if calc.rem(i, k) == 0 { "⁏" } else { "¦" } }
      r += den(x.body)
      i += 1
    }
    return r + "⟧"
  }
  if n == "item" { return (if f == list.item { "•" } else if f == enum.item { "№" } else { "/" }) + "⦅" + at("body") + "⦆" }
  if n == "heading" { return "heading" + repr(c.at("level", default: c.at("depth", default: none))) + "(" + at("body") + ")" }
  if n == "h" { return "h(" + repr(c.amount) + ")" }
  if n == "label" { return "label" }
  if n == "ref" or n == "cite" { return n + mark(if n == "ref" { c.target } else { c.key }) }
  if n == "figure" { return "figure(" + at("body").trim() + (if c.at("caption", default: none) != none { "|" + at("caption") }) + ")" }
  if n == "caption" { return at("body") }
  if n in ("pad", "block", "box") { return at("body") }
  let r = n + "("
  for (k, v) in c.fields().pairs().sorted() {
    if k in ("body", "child") or type(v) in (content, array) { r += den(v) }
  }
  r + ")"
}
