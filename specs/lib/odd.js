// Values that can be thrown and have no message, some of them no string form either.
export const oddValues = () => [Object.create(null), { toString() { throw new Error("no"); } }, { toString: 5, valueOf: null }, Symbol("s"), undefined, null, 0, "", NaN, [], () => 1];
