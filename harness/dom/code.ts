export { patchSvgToContainer, interpretTargetView, changeViewPerspective } from "/repo/packages/typst-dom/src/typst-patch.mts";
export { patchOutlineEntry } from "/repo/packages/typst-dom/src/typst-outline.mts";
export { TypstDocument } from "/repo/packages/typst-dom/src/typst-doc.mts";
