/*META {"trusted":["API client methods datasets.get, datasetItems.list, datasetRunItems.create and experiment.run (harness stubs)"],"assumptions":["page counts 1 to 4 are executed one by one; the number of items per page is unbounded"]} */
import { DatasetManager } from "@repo/packages/client/src/dataset/index.ts";
import { parseJsonPath, setValueAtPath } from "@repo/packages/client/src/dataset/jsonPath.ts";
import { LangfuseMediaReference } from "@repo/packages/core/src/media.ts";
import "./lib/otel.js";
function mk(pages, o) {
  const h = { lists: [], gets: [], links: [], runs: [] };
  h.m = new DatasetManager({ langfuseClient: { api: {
    datasets: { get: async (n) => { h.gets.push(n); if (o?.getFails) throw new Error("get"); return { id: "ds", name: n, description: "d", metadata: { a: 1 } }; } },
    datasetItems: { list: async (q) => { h.lists.push(q); if (o?.failPage === q.page) throw new Error("list"); return { data: pages[q.page - 1] ?? [], meta: { page: q.page, limit: q.limit, totalItems: 0, totalPages: o?.totalPages ?? pages.length } }; } },
    datasetRunItems: { create: async (r) => { h.links.push(r); if (o?.linkFails) throw new Error("link"); return { id: "ri" }; } } },
    experiment: { run: async (p) => { h.runs.push(p); return { runName: "r" }; } } } });
  return h;
}
const item = (T) => T.obj({ id: T.str, input: T.any, expectedOutput: T.any, metadata: T.any, status: T.str });
const media = (i) => ({ mediaId: "m" + i, contentType: "image/png", url: "https://u/" + i, urlExpiry: "2030-01-01T00:00:00Z", contentLength: 5 + i });
const ref = (field, jsonPath, i, m) => ({ field, jsonPath, referenceString: "@@@langfuseMedia:type=image/png|id=m" + i + "|source=bytes@@@", media: m === undefined ? media(i) : m });
const isRef = (x, i) => x instanceof LangfuseMediaReference && x.mediaId === "m" + i && x.contentType === "image/png" && x.url === "https://u/" + i && x.urlExpiry === "2030-01-01T00:00:00Z" && x.contentLength === 5 + i && x.referenceString === "@@@langfuseMedia:type=image/png|id=m" + i + "|source=bytes@@@";
export const units = {
  pages: async ($, T) => {
    const name = $.in("name", T.str), size = $.in("size", T.opt(T.range(1, 1000))), version = $.in("version", T.opt(T.strOf({ nonEmpty: true })));
    const P = [1, 2, 3, 4].map((i) => $.in("page" + i, T.arr(item(T))));
    for (const n of [1, 2, 3, 4]) {
      const pages = P.slice(0, n), h = mk(pages);
      const r = await h.m.get(name, { fetchItemsPageSize: size, version });
      $.assert("each page once, in order", h.lists.length === n && h.lists.every((q, i) => q.page === i + 1 && q.datasetName === name && q.limit === (size ?? 50) && q.version === version));
      $.same("all items of all pages, in order", r.items.map((x) => ({ id: x.id, input: x.input, expectedOutput: x.expectedOutput, metadata: x.metadata, status: x.status })), pages.flat().map((x) => ({ id: x.id, input: x.input, expectedOutput: x.expectedOutput, metadata: x.metadata, status: x.status })));
      $.assert("with the dataset's own fields", r.id === "ds" && r.name === name && r.description === "d" && r.version === version && h.gets.length === 1 && h.gets[0] === name);
    }
  },
  empty: async ($, T) => {
    const name = $.in("name", T.str), h = mk([], { totalPages: 0 });
    const r = await h.m.get(name);
    $.assert("an empty dataset has no items", r.items.length === 0 && h.lists.length === 1 && h.lists[0].limit === 50 && !("version" in h.lists[0]));
  },
  failures: async ($, T) => {
    const name = $.in("name", T.str);
    for (const bad of [0, 1, 2, 3]) {
      const h = mk([[{ id: "a" }], [{ id: "b" }], [{ id: "c" }]], bad === 0 ? { getFails: true } : { failPage: bad });
      let e; try { await h.m.get(name); } catch (x) { e = x; }
      $.assert("a failing request reaches the caller instead of a partial dataset", e instanceof Error && e.message === (bad === 0 ? "get" : "list"));
    }
  },
  links: async ($, T) => {
    const id = $.in("id", T.str), runName = $.in("run", T.str), traceId = $.in("trace", T.str), spanId = $.in("span", T.str), args = $.in("args", T.opt(T.obj({ description: T.opt(T.str), metadata: T.opt(T.any) })));
    const h = mk([[{ id: "first" }, { id }]]);
    const r = await h.m.get("d");
    await r.items[1].link({ otelSpan: { spanContext: () => ({ traceId, spanId }) } }, runName, args);
    const q = h.links[0];
    $.assert("links the item to the span's trace in the run", h.links.length === 1 && q.datasetItemId === id && q.runName === runName && q.traceId === traceId && q.observationId === spanId && q.runDescription === (args === undefined ? undefined : args.description));
    $.same("with the metadata given", q.metadata, args === undefined ? undefined : args.metadata);
  },
  experiment: async ($, T) => {
    const version = $.in("version", T.opt(T.str)), name = $.in("name", T.str), h = mk([[{ id: "a" }], [{ id: "b" }]]);
    const r = await h.m.get("d", { version }); const task = async () => 1;
    const out = await r.runExperiment({ name, task });
    const p = h.runs[0];
    $.assert("runs on all items of this dataset version", out.runName === "r" && h.runs.length === 1 && p.name === name && p.task === task && p.datasetVersion === version && p.data.length === 2 && p.data[0].id === "a" && p.data[1].id === "b");
  },
  hydrate: async ($, T) => {
    const keep = $.in("keep", T.any), other = $.in("other", T.str);
    const it = { id: "i", input: { img: "ref", list: [other, { deep: "ref" }], keep, last: "ref" }, expectedOutput: "ref", metadata: { "a.b": { "it's": "ref" }, keep }, mediaReferences: [ref("input", "$['img']", 0), ref("input", "$['list'][1]['deep']", 1), ref("expectedOutput", "$", 2), ref("metadata", "$['a.b']['it's']", 3), ref("input", "$['gone']['x']", 4), ref("input", "nonsense", 5), ref("other", "$['img']", 6), ref("input", "$['keep']", 7, null), ref("input", "$['list'][0]['x']", 8), ref("input", "$['last']", 9)] };
    const h = mk([[{ id: "before", input: other }, it, { id: "after", input: keep }]]);
    const r = await h.m.get("d"), x = r.items[1];
    $.assert("references are resolved at their path", isRef(x.input.img, 0) && isRef(x.input.list[1].deep, 1) && isRef(x.expectedOutput, 2) && isRef(x.metadata["a.b"]["it's"], 3) && isRef(x.input.last, 9));
    $.same("everything else is unchanged", [x.input.keep, x.metadata.keep, x.input.list[0], x.id, x.input.list.length, Object.keys(x.input).length], [keep, keep, other, "i", 2, 4]);
    $.assert("an unknown field adds nothing", !("undefined" in x) && !("other" in x));
    $.same("other items are unchanged", [r.items[0].input, r.items[2].input, r.items.length], [other, keep, 3]);
  },
  path: { bounded: "paths of up to 5 generated segments over generated keys", runs: 3000, run: ($, T) => {
    const n = $.in("n", T.range(0, 5)), segs = []; let path = "$";
    for (let i = 0; i < n; i++) {
      const s = $.in("s" + i, T.or(T.range(0, 20), T.strOf({ pool: ["a", "it's", "a[0]", "x'", "]", "['", "", "$", "0", "a.b", "\"", "\\", "é"] })));
      if (typeof s === "string" && (s + "']").indexOf("']") !== s.length) return;
      segs.push(s); path += typeof s === "number" ? `[${s}]` : `['${s}']`;
    }
    $.same("parsed into its segments", parseJsonPath(path), segs);
    const bad = $.in("bad", T.lit("", "x", "$x", "$.a", "$[", "$[]", "$[-1]", "$['a'", "$['a]", "$[1", "$[a]", "$['a'].b", "$[ 1]", "$[\"a\"]")); let threw = false;
    try { parseJsonPath(bad); } catch { threw = true; }
    $.assert("anything else is rejected", threw);
  } },
  set: ($, T) => {
    const v = $.in("v", T.any), w = $.in("w", T.any);
    for (const k of ["a", "it's", "a.b", "x[0]", "0", "", "__proto__x", "constructor"]) {
      const o = { z: w, [k]: 1 };
      const r = setValueAtPath(o, "$['" + k + "']", v);
      $.assert("same object", r === o);
      $.same("set at the key, the rest unchanged", [o[k], o.z, Object.keys(o).length], [v, w, 2]);
      $.same("the root path replaces the value", setValueAtPath(o, "$", v), v);
      const a = [w, { q: 1 }, w]; setValueAtPath(a, "$[1]['q']", v); setValueAtPath(a, "$[2]", k);
      $.same("indices", a, [w, { q: v }, k]);
    }
    let threw = 0; for (const p of ["$[0]", "$['none']['y']"]) try { setValueAtPath({ z: {} }, p, v); } catch { threw++; }
    $.assert("unresolvable paths are errors", threw === 2);
  },
};
