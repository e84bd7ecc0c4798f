/*META {"trusted":["fetch, media.getUploadUrl and media.patch (harness stubs)","WHATWG URL parsing (uninterpreted in the prover, the real one in concrete runs)","SHA-256 digest"]} */
import { uploadMedia } from "@repo/packages/core/src/mediaUpload.ts";
import { LangfuseMedia } from "@repo/packages/core/src/media.ts";
import "./lib/otel.js";
const B = "iVBORw0KGgo=";
const media = () => new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:image/png;base64,${B}` });
// results: per attempt an HTTP status or "throw"
async function setup(results, o) {
  const h = { times: [], puts: [], patches: [], asked: [] };
  const m = o.media ?? media(), id = await m.getId();
  globalThis.fetch = async (url, init) => { const i = h.puts.length; h.puts.push({ url, init }); if (o.now) h.times.push(o.now()); const r = results[i]; if (r === "throw") throw new Error("net"); return { status: r, ok: r >= 200 && r < 300, text: async () => "body" + i }; };
  h.api = { media: {
    getUploadUrl: async (r) => { h.asked.push(r); if (o.urlFails) throw new Error("no url"); return { uploadUrl: o.url === undefined ? "https://bucket.s3.amazonaws.com/x?sig=1" : o.url, mediaId: o.mismatch ? (o.mismatch === true ? "other" : o.mismatch(id)) : id }; },
    patch: async (i, b) => { h.patches.push({ id: i, b }); if (o.patchFails) throw new Error("patch"); } } };
  h.m = m; h.id = id;
  h.go = async (extra) => { try { await uploadMedia({ apiClient: h.api, media: m, field: "input", ...extra }); return "ok"; } catch (e) { return "error"; } };
  return h;
}
const BYTES = [137, 80, 78, 71, 13, 10, 26, 10];
const sameBytes = (b) => { const v = b instanceof ArrayBuffer ? new Uint8Array(b) : b; return v.length === 8 && BYTES.every((x, i) => v[i] === x); };
const good = (r) => r === 200 || r === 201;
export const units = {
  request: async ($, T) => {
    const h = await setup([200], {}), p = { traceId: $.in("traceId", T.opt(T.str)), observationId: $.in("observationId", T.opt(T.str)), datasetId: $.in("datasetId", T.opt(T.str)), datasetItemId: $.in("datasetItemId", T.opt(T.str)), field: $.in("field", T.str) };
    const r = await h.go(p), a = h.asked[0];
    $.assert("succeeds", r === "ok" && h.asked.length === 1);
    $.assert("asks for an upload of this media for this entity", a.traceId === p.traceId && a.observationId === p.observationId && a.datasetId === p.datasetId && a.datasetItemId === p.datasetItemId && a.field === p.field && a.contentType === "image/png" && a.contentLength === 8 && a.sha256Hash === (await h.m.getSha256Hash()));
    $.assert("puts exactly the bytes", h.puts.length === 1 && h.puts[0].init.method === "PUT" && sameBytes(h.puts[0].init.body) && h.puts[0].url === "https://bucket.s3.amazonaws.com/x?sig=1");
    $.assert("reports the outcome", h.patches.length === 1 && h.patches[0].id === h.id && h.patches[0].b.uploadHttpStatus === 200 && h.patches[0].b.uploadHttpError === "body0");
  },
  outcomes: async ($, T) => {
    const R = T.or(T.range(100, 599), T.lit("throw")), rs = [$.in("r0", R), $.in("r1", R), $.in("r2", R), $.in("r3", R)];
    const h = await setup(rs, {});
    const r = await h.go({});
    let used = 0, last; for (const x of rs) { used++; last = x; if (good(x)) break; }
    $.assert("retries up to three times, stopping at the first success", h.puts.length === used);
    $.assert("succeeds exactly if the media was stored", r === (good(last) ? "ok" : "error"));
    $.assert("reports the final response", last === "throw" ? h.patches.length === 0 : h.patches.length === 1 && h.patches[0].b.uploadHttpStatus === last && h.patches[0].b.uploadHttpError === "body" + (used - 1));
    $.assert("the same bytes every time", h.puts.every((p) => sameBytes(p.init.body) && p.url === h.puts[0].url));
  },
  retryCount: async ($, T) => {
    for (const n of [0, 1, 2, 5]) { const h = await setup([500, 503, "throw", 429, 500, 502, 200], {}); const r = await h.go({ maxRetries: n }); $.assert("one attempt plus the given retries", h.puts.length === n + 1 && r === "error"); }
  },
  backoff: async ($, T) => {
    for (const base of [undefined, 10, 1000]) {
      const h = await setup([500, "throw", 500, 200], { now: $.now });
      const r = await h.go({ baseDelay: base });
      let want = base ?? 1000;
      for (let i = 1; i <= 3; i++) { const gap = h.times[i] - h.times[i - 1]; $.assert("waits the doubled base delay and at most a second more", gap >= want && gap <= want + 1000); want *= 2; }
      $.assert("done", r === "ok" && h.patches.length === 1 && h.times.length === 4);
    }
  },
  headers: async ($, T) => {
    const url = $.in("url", T.strOf({ nonEmpty: true, pool: ["https://storage.googleapis.com/b/x", "https://b.storage.googleapis.com/x", "https://evil.com/storage.googleapis.com", "https://storage.googleapis.com.evil.com/x", "https://xstorage.googleapis.com/x", "http://minio:9000/b", "not a url", "https://acc.blob.core.windows.net/c/x", "HTTPS://STORAGE.GOOGLEAPIS.COM/x"] }));
    const h = await setup([200], { url });
    const r = await h.go({});
    let host = ""; try { host = new URL(url).hostname; } catch {}
    const gcs = host === "storage.googleapis.com" || host.endsWith(".storage.googleapis.com"), hd = h.puts[0].init.headers;
    $.assert("stored at the given url", r === "ok" && h.puts[0].url === url);
    if (gcs) $.same("google storage gets only the content type", hd, { "Content-Type": "image/png" });
    else $.same("other storages get checksum and blob type", hd, { "Content-Type": "image/png", "x-amz-checksum-sha256": await h.m.getSha256Hash(), "x-ms-blob-type": "BlockBlob" });
  },
  noUpload: async ($, T) => {
    const kind = $.in("kind", T.lit("known", "mismatch", "urlFails", "empty", "undecodable"));
    const bad = kind === "empty" ? new LangfuseMedia({ source: "bytes", contentBytes: new Uint8Array([]), contentType: "image/png" }) : kind === "undecodable" ? new LangfuseMedia({ source: "base64_data_uri", base64DataUri: "data:image/png,xx" }) : undefined;
    const h = await setup([200], { url: kind === "known" ? ($.in("nul", T.bool) ? null : "") : undefined, mismatch: kind === "mismatch", urlFails: kind === "urlFails", media: bad });
    const r = await h.go({});
    $.assert("known media is skipped, broken or mismatching media is an error, none is sent", r === (kind === "known" ? "ok" : "error") && h.puts.length === 0 && h.patches.length === 0);
    if (bad) $.assert("incomplete media is not announced", h.asked.length === 0);
  },
  nearIds: async ($, T) => {
    const x = $.in("x", T.strOf({ nonEmpty: true }));
    for (const other of [(id) => id + x, (id) => x + id, (id) => id.slice(0, -1), (id) => id.slice(1), () => "", (id) => id + " "]) {
      const h = await setup([200], { mismatch: other }), r = await h.go({});
      $.assert("only the very same media id will do", r === "error" && h.puts.length === 0 && h.patches.length === 0);
    }
  },
  patchFails: async ($, T) => {
    const st = $.in("status", T.range(200, 201)), h = await setup([st], { patchFails: true }), r = await h.go({});
    $.assert("a failed status report is an error", r === "error" && h.puts.length === 1);
  },
};
