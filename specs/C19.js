/*META {"trusted":["API client media.get and fetch (harness stubs)","SHA-256 digest (uninterpreted in the prover for unknown contents)"],"assumptions":["resolveReferences is applied to JSON-like values (strings, numbers, booleans, null, arrays, plain objects)"]} */
import { MediaManager } from "@repo/packages/client/src/media/index.ts";
import { LangfuseMedia, LangfuseMediaReference } from "@repo/packages/core/src/media.ts";
import { getGlobalLogger } from "@repo/packages/core/src/logger/index.ts";
import "./lib/otel.js";
const bytesOf = (b64) => Uint8Array.from(atob(b64), (m) => m.codePointAt(0));
const tag = (id, type, source) => `@@@langfuseMedia:type=${type ?? "image/png"}|id=${id}|source=${source ?? "bytes"}@@@`;
// store: id -> { b64, type, status, getFails, netFails }
function mk(store) {
  const h = { gets: [], urls: [] };
  globalThis.fetch = async (url, init) => { h.urls.push(url); const m = store[url.slice(8)]; if (m.netFails) throw new Error("net"); return { status: m.status ?? 200, ok: (m.status ?? 200) < 300, arrayBuffer: async () => bytesOf(m.b64).buffer }; };
  h.m = new MediaManager({ apiClient: { media: { get: async (id) => { h.gets.push(id); const m = store[id]; for (let i = 0; i < (m?.slow ?? 0); i++) await null; if (!m || m.getFails) throw new Error("get"); return { mediaId: id, url: "https://" + id, contentType: m.type }; } } } });
  return h;
}
const STORE = () => ({ a: { b64: "AAAA", type: "image/png" }, b: { b64: "SGVsbG8=", type: "audio/wav" }, empty: { b64: "", type: "text/plain" }, gone: { b64: "AAAA", type: "image/png", status: 404 }, made: { b64: "AAAA", type: "image/png", status: 201 }, err: { b64: "AAAA", type: "image/png", getFails: true }, net: { b64: "AAAA", type: "image/png", netFails: true } });
const uri = (st, id) => `data:${st[id].type};base64,${st[id].b64}`;
const IDS = ["a", "b", "empty", "gone", "made", "err", "net", "unknown"], OKID = ["a", "b", "empty"];
const TEXT = ["", " ", "x", "see @@@", "@@", "langfuseMedia:", "$&", "$1", "@@@langfuseMedia:\n", "data:image/png;base64,AAAA", "|id=a|", "é😀"];
const BROKEN = ["@@@langfuseMedia:@@@@", "@@@langfuseMedia:type=image/png|id=a@@@", "@@@langfuseMedia:id=a|source=bytes@@@", "@@@langfuseMedia:type=image/png|source=bytes@@@", "@@@langfuseMedia:nonsense@@@", "@@@langfuseMedia:type=image/png| id=a|source=bytes@@@", "@@@langfuseMedia:type=image/png|ID=a|source=bytes@@@"];
export const units = {
  strings: async ($, T) => {
    for (const id of IDS) for (const pre of ["", "see ", "x$&"]) {
      const st = STORE(), h = mk(st), t = tag(id);
      const exp = OKID.includes(id) ? uri(st, id) : t;
      $.same("a reference becomes its content as data uri, or stays if it cannot be fetched", await h.m.resolveReferences({ obj: pre + t + "!" }), pre + exp + "!");
    }
    const st = STORE(), h = mk(st);
    $.same("several references in one text", await h.m.resolveReferences({ obj: `${tag("a")} and ${tag("b")} and ${tag("gone")} and ${tag("a")}` }), `${uri(st, "a")} and ${uri(st, "b")} and ${tag("gone")} and ${uri(st, "a")}`);
    for (const order of [["a", "b", "empty"], ["b", "empty", "a"], ["empty", "a", "gone", "b", "a"]]) for (const slow of ["a", "b", "gone"]) {
      const st2 = STORE(); st2[slow].slow = 7; const g = mk(st2);
      $.same("in whatever order the answers arrive", await g.m.resolveReferences({ obj: { v: order.map((i) => tag(i)).join(","), w: tag("b") } }), { v: order.map((i) => (OKID.includes(i) ? uri(st2, i) : tag(i))).join(","), w: uri(st2, "b") });
    }
    for (const b of BROKEN) { const g = mk(st); $.same("malformed references stay", await g.m.resolveReferences({ obj: "x" + b + tag("b") }), "x" + b + uri(st, "b")); }
  },
  structure: async ($, T) => {
    const n = $.in("n", T.num), b = $.in("b", T.bool), x = $.in("x", T.or(T.num, T.bool, T.nul, T.undef)), st = STORE(), h = mk(st), t = tag("a");
    const obj = { k: t, list: [n, t, [b, { deep: "-" + t, x }]], plain: "text", nul: null, gone: tag("gone"), e: [], o: {} };
    const r = await h.m.resolveReferences({ obj });
    $.same("references are resolved in place, all other values kept", r, { k: uri(st, "a"), list: [n, uri(st, "a"), [b, { deep: "-" + uri(st, "a"), x }]], plain: "text", nul: null, gone: tag("gone"), e: [], o: {} });
    $.same("the caller's object is not modified", obj, { k: t, list: [n, t, [b, { deep: "-" + t, x }]], plain: "text", nul: null, gone: tag("gone"), e: [], o: {} });
    $.same("scalars are returned as they are", [await h.m.resolveReferences({ obj: n }), await h.m.resolveReferences({ obj: x })], [n, x]);
  },
  plain: async ($, T) => {
    const x = $.in("x", T.or(T.num, T.bool, T.nul, T.undef)), y = $.in("y", T.num);
    for (const l of [[], [x], [x, [y], { x }], { a: { b: { c: [x, y] } } }, "no reference", "@@@", ""]) {
      const h = mk(STORE());
      $.same("values without references are returned unchanged", await h.m.resolveReferences({ obj: l }), l);
      $.assert("without any request", h.gets.length === 0 && h.urls.length === 0);
    }
  },
  depth: async ($, T) => {
    for (const max of [undefined, 0, 1, 3]) for (const level of [0, 1, 2, 3, 4, 9, 10, 11, 12]) {
      const st = STORE(), h = mk(st); let obj = tag("a"), exp = level <= (max ?? 10) ? uri(st, "a") : tag("a");
      for (let i = 0; i < level; i++) { obj = i % 2 ? [obj] : { v: obj }; exp = i % 2 ? [exp] : { v: exp }; }
      $.same("references are resolved up to the given depth, deeper values kept", await h.m.resolveReferences(max === undefined ? { obj } : { obj, maxDepth: max }), exp);
    }
  },
  text: { bounded: "generated texts of up to 6 pieces of text, references (resolvable or not) and malformed references", runs: 3000, run: async ($, T) => {
    const st = STORE(), h = mk(st), n = $.in("n", T.range(0, 6)); let v = "", exp = "";
    for (let i = 0; i < n; i++) {
      const kind = $.in("kind" + i, T.range(0, 3));
      if (kind < 2) { const id = IDS[$.in("id" + i, T.range(0, IDS.length - 1))], t = tag(id, $.in("ty" + i, T.lit("image/png", "a/b", "application/x+y")), $.in("so" + i, T.lit("bytes", "base64_data_uri", "file"))); v += t; exp += OKID.includes(id) ? uri(st, id) : t; }
      else { const x = kind === 2 ? TEXT[$.in("x" + i, T.range(0, TEXT.length - 1))] + " " : BROKEN[$.in("br" + i, T.range(1, BROKEN.length - 1))] + " "; if (x.includes("@@@langfuseMedia:\n") || /@$/.test(v)) { v += " "; exp += " "; } v += x; exp += x; }
    }
    if (v.includes("see @@@ @@@") || v.includes("@@@langfuseMedia:\n") || v.includes("see @@@")) return;
    $.same("exactly the resolvable references are replaced", await h.m.resolveReferences({ obj: { v } }), { v: exp });
  } },
  noHash: async ($, T) => {
    const msg = $.in("msg", T.str), digest = crypto.subtle.digest;
    try {
      for (const f of [() => Promise.reject(new Error(msg)), () => { throw new Error(msg); }]) {
        Object.defineProperty(crypto.subtle, "digest", { value: f, configurable: true, writable: true, enumerable: true });
        const m = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: "data:image/png;base64,AAAA" });
        $.same("without a hash a medium has neither id nor reference, but its content", [(await m.getId()) ?? null, (await m.getTag()) ?? null, m.base64DataUri, m.contentLength], [null, null, "data:image/png;base64,AAAA", 3]);
      }
    } finally { Object.defineProperty(crypto.subtle, "digest", { value: digest, configurable: true, writable: true, enumerable: true }); }
  },
  parse: ($, T) => {
    for (const type of ["image/png", "audio/wav", "application/x+y", "text/plain; charset=utf-8".replace("=", ":")]) for (const source of ["bytes", "base64_data_uri", "file"]) for (const id of ["abc", "-_a9", ""]) {
      $.same("the fields of a reference", MediaManager.parseReferenceString(`@@@langfuseMedia:type=${type}|id=${id}|source=${source}@@@`), { mediaId: id, source, contentType: type });
      $.same("in any order", MediaManager.parseReferenceString(`@@@langfuseMedia:source=${source}|type=${type}|id=${id}@@@`), { mediaId: id, source, contentType: type });
    }
    for (const bad of ["", "x", "@@@langfuseMedia:type=a|id=b|source=c", "langfuseMedia:type=a|id=b|source=c@@@", "x@@@langfuseMedia:type=a|id=b|source=c@@@", "@@@langfuseMedia:type=a|id=b|source=c@@@x", ...BROKEN]) {
      let err; try { MediaManager.parseReferenceString(bad); } catch (e) { err = e; }
      $.assert("anything else is an error", err instanceof Error);
    }
  },
  roundTrip: async ($, T) => {
    for (const [type, b64] of [["image/png", "iVBORw0KGgo="], ["audio/wav", "AA=="], ["application/pdf", "/+8="]]) for (const bytes of [false, true]) {
      const m = bytes ? new LangfuseMedia({ source: "bytes", contentBytes: bytesOf(b64), contentType: type }) : new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${type};base64,${b64}` });
      const p = MediaManager.parseReferenceString(await m.getTag()), id = await m.getId();
      $.same("a media's tag parses to its id, type and source", p, { mediaId: id, source: bytes ? "bytes" : "base64_data_uri", contentType: type });
      $.assert("its id is 22 url-safe characters and its content is kept", /^[A-Za-z0-9_-]{22}$/.test(id) && m.base64DataUri === `data:${type};base64,${b64}` && JSON.stringify({ m }) === `{"m":"data:${type};base64,${b64}"}` && m.contentLength === bytesOf(b64).length);
    }
  },
  dataUri: async ($, T) => {
    for (const [u, type, b64] of [["data:image/png;base64,AAAA", "image/png", "AAAA"], ["data:text/plain;charset=utf-8;base64,SGk=", "text/plain", "SGk="], ["data:image/png;base64,AAAA,BBBB", "image/png", "AAAA"]]) {
      const m = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: u });
      $.assert("a data uri is split into type and content", m.base64DataUri === `data:${type};base64,${b64}`);
    }
    for (const u of ["", "image/png;base64,AAAA", "data:image/png,AAAA", "data:;base64,AAAA", "data:image/png;base64,", "data:image/png;base64", "data:,", "data:image/png;base64,*", "data:image/png;base64,A", undefined, null, 5, {}]) {
      const m = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: u });
      $.assert("anything else yields no media and no exception", m.contentLength === undefined && (await m.getId()) === null && (await m.getTag()) === null && m.base64DataUri === null);
    }
  },
  anyBytes: async ($, T) => {
    const b64 = $.in("b64", T.strOf({ nonEmpty: true, pool: ["AAAA", "SGVsbG8=", "/+8="] })), type = $.in("type", T.strOf({ nonEmpty: true, pool: ["image/png", "a/b"] }));
    let bytes; try { bytes = bytesOf(b64); } catch { return; }
    const m = new LangfuseMedia({ source: "bytes", contentBytes: bytes, contentType: type }), m2 = new LangfuseMedia({ source: "bytes", contentBytes: bytesOf(b64), contentType: type });
    $.assert("the same content has the same id and hash", (await m.getId()) === (await m2.getId()) && (await m.getSha256Hash()) === (await m2.getSha256Hash()) && (await m.getTag()) === (await m2.getTag()));
    $.assert("the tag names type, id and source", (await m.getTag()) === `@@@langfuseMedia:type=${type}|id=${await m.getId()}|source=bytes@@@`);
  },
  expiry: { clock: 1700000000000, run: ($, T) => {
    const th = $.in("th", T.num), len = $.in("len", T.opt(T.num));
    const mkRef = (urlExpiry) => new LangfuseMediaReference({ mediaId: "m", contentType: "image/png", url: "u", urlExpiry, contentLength: len, referenceString: tag("m") });
    for (const d of [-5000, 0, 1, 59000, 60000, 60001, 61000, 3600000]) {
      const r = mkRef(new Date(1700000000000 + d).toISOString());
      $.assert("expired iff the expiry is within the threshold", r.isUrlExpired(th) === (d <= th * 1000));
      $.assert("threshold one minute by default", r.isUrlExpired() === (d <= 60000));
    }
    for (const e of [undefined, "", "soon"]) $.assert("without a valid expiry a url does not expire", mkRef(e).isUrlExpired(th) === false);
    const r = mkRef("x");
    $.assert("it carries the given fields and serialises to its reference", r.contentLength === len && r.mediaId === "m" && r.contentType === "image/png" && r.url === "u" && JSON.stringify({ a: [r] }) === JSON.stringify({ a: [tag("m")] }));
  } },
  fetching: async ($, T) => {
    const status = $.in("status", T.range(100, 599)), url = $.in("url", T.str), type = $.in("type", T.str);
    for (const b64 of ["AAAA", "SGVsbG8=", ""]) {
      let got; globalThis.fetch = async (u, init) => { got = [u, init.method]; return { status, ok: status >= 200 && status < 300, arrayBuffer: async () => bytesOf(b64).buffer }; };
      const r = new LangfuseMediaReference({ mediaId: "m", contentType: type, url, referenceString: "r" });
      let v, d, err; try { v = await r.fetchBase64(); d = await r.fetchDataUri(); } catch (e) { err = e; }
      if (status >= 200 && status < 300) $.assert("the content of its url", err === undefined && v === b64 && d === `data:${type};base64,${b64}` && got[0] === url && got[1] === "GET");
      else $.assert("an unsuccessful response is an error", err instanceof Error && v === undefined);
    }
    globalThis.fetch = async () => { throw new Error("net"); };
    let e2; try { await new LangfuseMediaReference({ mediaId: "m", contentType: type, url, referenceString: "r" }).fetchBytes(); } catch (e) { e2 = e; }
    $.assert("a network failure is an error", e2 instanceof Error && e2.message === "net");
  },
};
