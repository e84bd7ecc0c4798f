/*META {"trusted":["API client methods datasets.get, datasetItems.create, media.* and fetch (harness stubs)","SHA-256 digest (uninterpreted in the prover for unknown contents)"],"assumptions":["values are nested to the depths executed (up to 3 free levels, and a fixed chain of 25 levels)"]} */
import { DatasetManager } from "@repo/packages/client/src/dataset/index.ts";
import { LangfuseMedia, LangfuseMediaReference } from "@repo/packages/core/src/media.ts";
import { getGlobalLogger } from "@repo/packages/core/src/logger/index.ts";
import "./lib/otel.js";
const M = (b64, type) => new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${type ?? "image/png"};base64,${b64}` });
const LEAF = (T) => T.or(T.str, T.num, T.bool, T.nul, T.undef);
const R = (s) => new LangfuseMediaReference({ mediaId: "x", contentType: "image/png", url: "u", referenceString: s });
function mk(o) {
  const h = { log: [], created: [], asked: [], gets: [], ids: {} };
  globalThis.fetch = async (url, init) => { h.log.push("put"); return { status: o?.putFails ? 403 : 200, ok: true, text: async () => "" }; };
  h.m = new DatasetManager({ langfuseClient: { api: {
    datasets: { get: async (n) => { h.gets.push(n); h.log.push("get"); if (o?.getFails) throw new Error("get"); return { id: "ds-" + n, name: n }; } },
    datasetItems: { create: async (r) => { h.log.push("create"); h.created.push(r); if (o?.createFails) throw new Error("create"); return { id: r.id, ok: true }; } },
    media: { getUploadUrl: async (r) => { h.log.push("ask"); h.asked.push(r); return { uploadUrl: o?.known ? null : "https://s3/x", mediaId: h.ids[r.sha256Hash] ?? "?" }; }, patch: async () => { h.log.push("patch"); } } } } });
  h.know = async (m) => { h.ids[await m.getSha256Hash()] = await m.getId(); return m.getTag(); };
  return h;
}
// uploads whose given stage waits for its gate; the one gated last fails if asked to
function mkGated(h, stage, gated, fails) {
  let asked = 0;
  globalThis.fetch = async (url, init) => { if (stage === "put") await gated(); return { status: 200, ok: true, text: async () => "" }; };
  return new DatasetManager({ langfuseClient: { api: {
    datasets: { get: async (n) => ({ id: "ds-" + n, name: n }) },
    datasetItems: { create: async (r) => { h.created.push(r); return { id: r.id }; } },
    media: { getUploadUrl: async (r) => { const i = asked++; if (stage === "ask") await gated(); return { uploadUrl: "https://s3/x", mediaId: fails() && i === 1 && stage !== "patch" ? "wrong" : h.ids[r.sha256Hash] }; }, patch: async () => { if (stage === "patch") await gated(); } } } } });
}
export const units = {
  plain: async ($, T) => {
    getGlobalLogger();
    const h = mk(), q = { datasetName: $.in("name", T.str), id: $.in("id", T.opt(T.str)), input: $.in("input", LEAF(T)), expectedOutput: $.in("expected", LEAF(T)), metadata: $.in("metadata", T.arr(LEAF(T))), sourceTraceId: $.in("trace", T.opt(T.str)), status: $.in("status", T.opt(T.str)) };
    const r = await h.m.createItem(q), c = h.created[0];
    $.assert("one request, nothing uploaded", h.log.length === 1 && h.log[0] === "create" && r.ok === true && r.id === c.id);
    $.assert("fields as given", c.datasetName === q.datasetName && c.sourceTraceId === q.sourceTraceId && c.status === q.status && (q.id !== undefined ? c.id === q.id : typeof c.id === "string" && c.id !== ""));
    $.same("values as given", [c.input, c.expectedOutput, c.metadata], [q.input, q.expectedOutput, q.metadata]);
  },
  shapes: async ($, T) => {
    const h = mk(), s = $.in("s", T.str), n = $.in("n", T.num), b = $.in("b", T.bool), name = $.in("name", T.str);
    class Own { constructor() { this.x = s; } }
    const own = new Own(), d = new Date(0), input = { a: [s, { b: n, c: [b, null, [s]] }], d: undefined, own, date: d };
    input.self = input;
    await h.m.createItem({ datasetName: name, input, expectedOutput: [[s], n] });
    const c = h.created[0];
    $.same("nested values are kept", [c.input.a, c.expectedOutput], [[s, { b: n, c: [b, null, [s]] }], [[s], n]]);
    $.assert("foreign objects and cycles are passed through", c.input.own === own && c.input.date === d && c.input.self === input && Object.keys(c.input).length === 5);
    $.assert("the caller's object is not modified", input.a[1].b === n && input.self === input && Object.keys(input).length === 5);
  },
  media: async ($, T) => {
    const name = $.in("name", T.str), id = $.in("id", T.str), s = $.in("s", T.str), known = $.in("known", T.bool);
    const h = mk({ known }), a = M("AAAA"), a2 = M("AAAA"), b = M("SGVsbG8=", "audio/wav"), c = M("iVBORw0KGgo=");
    const ta = await h.know(a), tb = await h.know(b), tc = await h.know(c);
    const input = { x: a, list: [s, a2, { y: b }], r: R("@@@langfuseMedia:type=image/png|id=zz|source=bytes@@@") }, meta = { a, c };
    await h.m.createItem({ datasetName: name, id, input, expectedOutput: b, metadata: meta });
    const q = h.created[0];
    $.same("media and references become reference strings in place", [q.input, q.expectedOutput, q.metadata], [{ x: ta, list: [s, ta, { y: tb }], r: "@@@langfuseMedia:type=image/png|id=zz|source=bytes@@@" }, tb, { a: ta, c: tc }]);
    $.assert("each distinct media is uploaded once for this item of this dataset", h.asked.length === 3 && h.asked.every((r) => r.datasetId === "ds-" + name && r.datasetItemId === id && r.traceId === undefined && r.observationId === undefined) && h.gets.length === 1 && h.gets[0] === name);
    $.assert("under the field that holds it", h.asked.every((r) => r.field === "input" || r.field === "metadata" || r.field === "expectedOutput") && h.asked.filter((r) => r.contentType === "audio/wav").length === 1 && h.asked.filter((r) => r.contentLength === 8).every((r) => r.field === "metadata"));
    $.assert("the item is created after all uploads", h.log[h.log.length - 1] === "create" && h.log.filter((x) => x === "create").length === 1 && h.log.filter((x) => x === "put").length === (known ? 0 : 3) && h.log.filter((x) => x === "patch").length === (known ? 0 : 3));
    $.assert("the caller's values are not modified", input.x === a && input.list[1] === a2 && meta.a === a);
  },
  waits: async ($, T) => {
    const name = $.in("name", T.str), fails = $.in("fails", T.bool);
    for (const stage of ["ask", "put", "patch"]) for (const first of [0, 1]) {
      const h = mk(), ms = [M("AAAA"), M("SGVsbG8=", "audio/wav")], gates = [$.deferred(), $.deferred()], tags = [];
      for (const m of ms) tags.push(await h.know(m));
      let k = 0;
      const gated = async () => { const i = k++; await gates[i].promise; return i; };
      const doing = mkGated(h, stage, gated, () => fails);
      let done = false, err; const pr = doing.createItem({ datasetName: name, id: "i", input: ms }).then(() => { done = true; }, (e) => { err = e; });
      await $.drain();
      $.assert(stage + ": nothing is created while uploads are pending", h.created.length === 0 && !done);
      gates[first].resolve(); await $.drain();
      $.assert(stage + ": nor while one of them is", h.created.length === 0 && !done);
      gates[1 - first].resolve(); await pr;
      $.assert(stage + ": but once all are done, and only if they succeeded", fails && stage !== "patch" ? err instanceof Error && h.created.length === 0 : done && h.created.length === 1);
    }
  },
  repeated: async ($, T) => {
    const h = mk({ known: true }), s = $.in("s", T.str), a = M("AAAA"), ta = await h.know(a), shared = { img: a, s }, list = [a, shared];
    await h.m.createItem({ datasetName: "d", id: "i", input: { x: shared, y: shared, l: list, m: list }, metadata: [list, list, shared] });
    const q = h.created[0], sh = { img: ta, s }, ls = [ta, sh];
    $.same("an object held at several places is replaced at each of them", [q.input, q.metadata], [{ x: sh, y: sh, l: ls, m: ls }, [ls, ls, sh]]);
    $.assert("and uploaded once", h.asked.length === 1);
  },
  anyMedia: async ($, T) => {
    const b64 = $.in("b64", T.strOf({ nonEmpty: true, pool: ["AAAA", "SGVsbG8=", "*", "A"] })), field = $.in("field", T.lit("input", "expectedOutput", "metadata"));
    $.assume(!b64.includes(","));
    let ok = true; try { atob(b64); } catch { ok = false; }
    const h = mk({ known: true }), m = M(b64), tag = await h.know(m);
    let err; try { await h.m.createItem({ datasetName: "d", id: "i", [field]: { v: m } }); } catch (e) { err = e; }
    if (!ok) return $.assert("an item with invalid media is an error and is not created", err instanceof Error && h.created.length === 0);
    if (m.contentLength === 0) return;
    $.assert("created with the reference", err === undefined && h.created.length === 1 && h.created[0][field].v === tag && h.asked.length === 1 && h.asked[0].field === field);
  },
  failures: async ($, T) => {
    const name = $.in("name", T.str);
    for (const o of [{ getFails: true }, { putFails: true }, { createFails: true }]) {
      const h = mk(o), m = M("AAAA"); await h.know(m);
      let err; try { await h.m.createItem({ datasetName: name, input: [m] }); } catch (e) { err = e; }
      $.assert("failures reach the caller", err instanceof Error);
      $.assert("no item is created without its media", h.created.length === (o.createFails ? 1 : 0));
    }
  },
  deep: async ($, T) => {
    const s = $.in("s", T.str);
    for (const depth of [5, 19, 20, 25]) {
      const h = mk({ known: true }), m = M("AAAA"), tag = await h.know(m);
      let v = m; for (let i = 0; i < depth; i++) v = i % 2 ? { k: v, s } : [v];
      let err; try { await h.m.createItem({ datasetName: "d", input: v }); } catch (e) { err = e; }
      let x = h.created[0].input; for (let i = depth - 1; i >= 0; i--) x = i % 2 ? x.k : x[0];
      $.assert("media up to twenty levels deep are replaced, deeper ones passed through", err === undefined && x === (depth <= 20 ? tag : m) && h.asked.length === (depth <= 20 ? 1 : 0));
    }
  },
};
