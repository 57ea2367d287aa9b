await globalThis.wasmArrives;
export default () => globalThis.wasmArrives;
export const convert_math = (...a) => globalThis.convertMath(...a);
export const convert_text = convert_math;
