/*META {"trusted":["SHA-256 digest (uninterpreted in the prover, the real one in concrete runs)","API client media.getUploadUrl (harness stub)"]} */
import { MediaService } from "@repo/packages/otel/src/MediaService.ts";
import { LangfuseMedia } from "@repo/packages/core/src/media.ts";
import { recorder, mkSpan, LangfuseSpanProcessor } from "./lib/proc.js";
const bytesOf = (b64) => Uint8Array.from(atob(b64), (m) => m.codePointAt(0));
const b64Of = (bytes) => btoa(Array.from(bytes, (b) => String.fromCharCode(b)).join(""));
const sha = async (b64) => b64Of(new Uint8Array(await crypto.subtle.digest("SHA-256", bytesOf(b64))));
const idOf = async (b64) => (await sha(b64)).replaceAll("+", "-").replaceAll("/", "_").slice(0, 22);
const tagOf = async (type, b64, source) => `@@@langfuseMedia:type=${type}|id=${await idOf(b64)}|source=${source}@@@`;
function mk(fail) {
  const h = { asked: [] };
  h.m = new MediaService({ apiClient: { media: { getUploadUrl: async (r) => { h.asked.push(r); if (fail) throw new Error("down"); return { uploadUrl: null, mediaId: "m" }; } } } });
  return h;
}
const span = (attributes, scope, traceId, spanId) => ({ name: "s", attributes, instrumentationScope: { name: scope ?? "langfuse-sdk" }, spanContext: () => ({ traceId: traceId ?? "t", spanId: spanId ?? "s", traceFlags: 1 }) });
const PRE = ["langfuse.observation.input", "langfuse.observation.output", "langfuse.observation.metadata", "langfuse.trace.input", "langfuse.trace.output", "langfuse.trace.metadata"];
const fieldOf = (k) => (k.endsWith("input") ? "input" : k.endsWith("output") ? "output" : "metadata");
const TYPES = ["image/png", "image/svg+xml", "audio/wav", "application/vnd.openxmlformats-officedocument.wordprocessingml.document", "text/plain"];
const B64 = ["AAAA", "AAAABBBB", "SGVsbG8=", "SGk=", "aA==", "+/+/", "iVBORw0KGgo=", "AAAAB3Nz"];
const TEXT = ["", " ", "hello ", "the data: is here ", "data:", "data:x ", "\",\"", "{\"a\":\"", "\"}", ";base64,", "data:image/png;base64,", "$&", "\\n", "@@@", "data:text/plain,abc ", "\n", "x;y"];
export const units = {
  tag: async ($, T) => {
    const b64 = $.in("b64", T.strOf({ nonEmpty: true, pool: ["AAAA", "+/+/AAAA", "iVBORw0K", "SGk=", "A", "aGk*", "AAAAA"] })), type = $.in("type", T.strOf({ nonEmpty: true, pool: ["image/png", "audio/wav"] }));
    $.assume(!b64.includes(",") && !type.includes(",") && !type.includes(";"));
    let ok = true; try { atob(b64); } catch { ok = false; }
    const a = new LangfuseMedia({ source: "base64_data_uri", base64DataUri: `data:${type};base64,${b64}` });
    if (!ok) return $.assert("undecodable content has no tag", (await a.getTag()) === null && a.toJSON() === null && a.contentLength === undefined);
    $.assert("hash", (await a.getSha256Hash()) === (await sha(b64)));
    $.assert("reference tag of a data uri", (await a.getTag()) === (await tagOf(type, b64, "base64_data_uri")));
    const b = new LangfuseMedia({ source: "bytes", contentBytes: bytesOf(b64), contentType: type });
    $.assert("reference tag of bytes", (await b.getTag()) === (await tagOf(type, b64, "bytes")));
    $.assert("the id depends only on the content", (await a.getId()) === (await b.getId()));
    $.assert("serialised as the data uri", b.toJSON() === `data:${type};base64,${b64Of(bytesOf(b64))}` && a.base64DataUri === b.base64DataUri);
  },
  attribute: async ($, T) => {
    const prefix = $.in("prefix", T.range(0, 5)), suffix = $.in("suffix", T.lit("", ".key", ".input", ".output", ".a.b", ".x y.output")), traceId = $.in("traceId", T.str), spanId = $.in("spanId", T.str), other = $.in("other", T.str), down = $.in("down", T.bool);
    const h = mk(down), uri = "data:image/png;base64,iVBORw0KGgo=", u2 = "data:audio/wav;base64,SGk=";
    const key = PRE[prefix] + suffix, attrs = { "some.other": other, copy: uri };
    attrs[key] = `{"text":"see the data: here","a":"${uri}","b":["${u2}","${uri}"]}`;
    const s = span(attrs, "langfuse-sdk", traceId, spanId);
    await h.m.process(s); await h.m.flush();
    $.assert("every data uri is replaced by its tag, the rest unchanged", s.attributes[key] === `{"text":"see the data: here","a":"${await tagOf("image/png", "iVBORw0KGgo=", "base64_data_uri")}","b":["${await tagOf("audio/wav", "SGk=", "base64_data_uri")}","${await tagOf("image/png", "iVBORw0KGgo=", "base64_data_uri")}"]}`);
    $.assert("other attributes are untouched", s.attributes["some.other"] === other && s.attributes.copy === uri);
    $.assert("each distinct media is uploaded once, for this span and field", h.asked.length === 2 && h.asked.every((r) => r.traceId === traceId && r.observationId === spanId && r.field === fieldOf(PRE[prefix])) && h.asked[0].contentType === "image/png" && h.asked[1].contentType === "audio/wav");
    $.assert("with its length and hash", h.asked[0].contentLength === 8 && h.asked[0].sha256Hash === (await sha("iVBORw0KGgo=")));
  },
  text: { bounded: "generated texts of up to 7 pieces of plain text and data uris", runs: 2500, run: async ($, T) => {
    const h = mk(false), n = $.in("n", T.range(0, 7)), key = PRE[$.in("k", T.range(0, 5))]; let v = "", exp = ""; const seen = new Set();
    for (let i = 0; i < n; i++) {
      if ($.in("uri" + i, T.bool)) { const ty = TYPES[$.in("t" + i, T.range(0, 4))], b = B64[$.in("b" + i, T.range(0, 7))], end = $.in("e" + i, T.lit("\"", " ", ",", ")", "\\")); v += `data:${ty};base64,${b}${end}`; exp += (await tagOf(ty, b, "base64_data_uri")) + end; seen.add(ty + b); }
      else { const x = TEXT[$.in("x" + i, T.range(0, TEXT.length - 1))] + " "; v += x; exp += x; }
    }
    const s = span({ [key]: v });
    await h.m.process(s); await h.m.flush();
    $.assert("exactly the data uris are replaced", s.attributes[key] === exp);
    $.assert("one upload per distinct media", h.asked.length === seen.size && h.asked.every((r) => r.field === fieldOf(key)));
  } },
  everySpan: async ($, T) => {
    const name = $.in("name", T.str), scope = $.in("scope", T.str), type = $.in("type", T.str), traceId = $.in("traceId", T.strOf({ nonEmpty: true })), id = $.in("id", T.strOf({ nonEmpty: true })), root = $.in("root", T.bool);
    const uri = "data:image/png;base64,iVBORw0KGgo=", tag = await tagOf("image/png", "iVBORw0KGgo=", "base64_data_uri");
    for (const key of [...PRE, PRE[2] + ".k", PRE[5] + ".k"]) {
      const ex = recorder(), asked = [];
      globalThis.fetch = async (url, init) => { asked.push(JSON.parse(init.body)); return { status: 200, ok: true, headers: { get: () => null }, body: {}, text: async () => '{"mediaId":"m","uploadUrl":null}' }; };
      const proc = new LangfuseSpanProcessor({ exporter: ex, publicKey: "pk", secretKey: "sk", baseUrl: "https://h", mediaUploadEnabled: true, shouldExportSpan: () => true });
      proc.onEnd(mkSpan({ name, scope, traceId, id, parent: root ? undefined : { traceId, spanId: "p", traceFlags: 1 }, attributes: { [key]: uri, "langfuse.observation.type": type } }));
      await proc.forceFlush();
      $.assert("whatever the span, the media of " + key + " becomes its tag", ex.seen.length === 1 && ex.seen[0][key] === tag && ex.seen[0]["langfuse.observation.type"] === type);
      $.assert("and is uploaded for that span", asked.length === 1 && asked[0].traceId === traceId && asked[0].observationId === id);
    }
  },
  untouched: async ($, T) => {
    const v = $.in("v", T.or(T.num, T.bool, T.arr(T.str), T.strOf({ re: /^[^:]*$/, ex: ["plain text"], pool: ["base64,AAAA", "data"] }))), k = $.in("k", T.str), w = $.in("w", T.str), scope = $.in("scope", T.str);
    $.assume(!k.startsWith("langfuse.") && !k.startsWith("ai.") && !k.startsWith("gen_ai."));
    const h = mk(false), attrs = { "langfuse.observation.input": v }; attrs[k] = w;
    const s = span(attrs, scope);
    await h.m.process(s);
    $.same("nothing changes", s.attributes["langfuse.observation.input"], v);
    $.assert("nothing changes elsewhere and nothing is uploaded", s.attributes[k] === w && h.asked.length === 0);
  },
  invalid: async ($, T) => {
    const traceId = $.in("traceId", T.str);
    for (const bad of ["data:image/png;base64,A", "data:image/png;base64,AAAAA"]) {
      const h = mk(false), s = span({ "langfuse.observation.output": `${bad} data:image/png;base64,AAAA` }, "x", traceId);
      await h.m.process(s); await h.m.flush();
      $.assert("an undecodable uri is left alone and the others are still replaced", s.attributes["langfuse.observation.output"] === `${bad} ${await tagOf("image/png", "AAAA", "base64_data_uri")}` && h.asked.length === 1 && h.asked[0].traceId === traceId);
    }
  },
  aiSdk: async ($, T) => {
    const down = $.in("down", T.bool), traceId = $.in("traceId", T.str), spanId = $.in("spanId", T.str);
    for (const scope of ["ai", "gen_ai", "langfuse-sdk", "ais"]) for (const attr of ["ai.prompt.messages", "ai.prompt"]) for (const field of ["data", "image"]) {
      const h = mk(down);
      const mk1 = (a, b) => JSON.stringify([{ role: "system", content: "text AAAA" }, { role: "user", content: [{ type: "text", text: "AAAA" }, { type: "file", mediaType: "image/png", [field]: a }, { type: "file", mediaType: "image/png", [field]: "http://x/y.png" }, { type: "file", mediaType: "image/png", [field]: "https://x/y.png" }, { type: "file", [field]: "CCCC" }, { type: "file", mediaType: 5, [field]: "CCCC" }, { type: "text", mediaType: "image/png", [field]: "CCCC" }, { type: "file", mediaType: "image/png", [field]: "" }, { type: "file", mediaType: "image/png", [field]: 5 }, { type: "file", mediaType: "audio/wav", [field]: b }] }]);
      const before = mk1("iVBORw0KGgo=", "SGVsbG8=");
      const s = span({ [attr]: before }, scope, traceId, spanId);
      await h.m.process(s); await h.m.flush();
      const on = scope === "ai" || scope === "gen_ai";
      $.assert("inline file parts of AI SDK prompts become tags, urls and untyped parts stay", s.attributes[attr] === (on ? mk1(await tagOf("image/png", "iVBORw0KGgo=", "bytes"), await tagOf("audio/wav", "SGVsbG8=", "bytes")) : before));
      $.assert("uploaded as input of this span", h.asked.length === (on ? 2 : 0) && h.asked.every((r) => r.field === "input" && r.traceId === traceId && r.observationId === spanId) && (!on || (h.asked[0].contentType === "image/png" && h.asked[1].contentType === "audio/wav")));
    }
  },
  genAi: async ($, T) => {
    const traceId = $.in("traceId", T.str), spanId = $.in("spanId", T.str);
    for (const scope of ["ai", "gen_ai", "x"]) for (const out of [false, true]) for (const pre of ["", "data:image/png;base64,"]) {
      const h = mk(false), attr = out ? "gen_ai.output.messages" : "gen_ai.input.messages";
      const mk1 = (a, b) => JSON.stringify([{ role: "user", parts: [{ type: "text", content: "AAAA" }, { type: "blob", mime_type: "image/png", content: "https://x" }, { type: "blob", content: "CCCC" }, { type: "blob", mime_type: 5, content: "CCCC" }, { type: "text", mime_type: "image/png", content: "CCCC" }, { type: "blob", mime_type: "image/png", content: "" }, { type: "blob", mime_type: "image/png", content: 5 }, { type: "blob", mime_type: "image/png", uri: "CCCC" }, { type: "blob", mime_type: "image/png", content: "data:image/png,xx" }, { type: "blob", mime_type: "image/png", content: "data:image/png;base64," }, { type: "blob", mime_type: "image/png", content: a }] }, { role: "x", content: "y" }, { role: "user", parts: [{ type: "blob", mime_type: "audio/wav", content: b }] }]);
      const before = mk1(pre + "iVBORw0KGgo=", pre + "SGVsbG8=");
      const s = span({ [attr]: before }, scope, traceId, spanId);
      await h.m.process(s); await h.m.flush();
      const on = scope === "ai" || scope === "gen_ai";
      $.assert("blob parts become tags, everything else stays", s.attributes[attr] === (on ? mk1(await tagOf("image/png", "iVBORw0KGgo=", "bytes"), await tagOf("audio/wav", "SGVsbG8=", "bytes")) : before));
      $.assert("uploaded as the right field", h.asked.length === (on ? 2 : 0) && h.asked.every((r) => r.field === (out ? "output" : "input") && r.traceId === traceId && r.observationId === spanId));
    }
  },
  aiSdkPrefix: async ($, T) => {
    const traceId = $.in("traceId", T.str);
    for (const a of B64.slice(0, 5)) for (const b of B64.slice(0, 5)) for (const gen of [false, true]) {
      const h = mk(false), key = gen ? "gen_ai.input.messages" : "ai.prompt.messages";
      const mk1 = (x, y) => JSON.stringify([gen ? { parts: [{ type: "blob", mime_type: "image/png", content: x }, { type: "blob", mime_type: "image/png", content: y }] } : { content: [{ type: "file", mediaType: "image/png", data: x }, { type: "file", mediaType: "image/png", data: y }] }]);
      const s = span({ [key]: mk1(a, b) }, "ai", traceId);
      await h.m.process(s); await h.m.flush();
      $.assert("each part gets its own tag", s.attributes[key] === mk1(await tagOf("image/png", a, "bytes"), await tagOf("image/png", b, "bytes")));
      $.assert("and its own upload", h.asked.length === 2 && h.asked[0].sha256Hash === (await sha(a)) && h.asked[1].sha256Hash === (await sha(b)));
    }
  },
  enabled: async ($, T) => {
    const traceId = $.in("traceId", T.strOf({ nonEmpty: true })), uri = "data:image/png;base64,iVBORw0KGgo=", tag = await tagOf("image/png", "iVBORw0KGgo=", "base64_data_uri");
    for (const opt of [undefined, true, false]) for (const v of [undefined, "true", "1", "false", "False", "FALSE", "0", "yes"]) {
      delete process.env.LANGFUSE_MEDIA_UPLOAD_ENABLED;
      if (v !== undefined) process.env.LANGFUSE_MEDIA_UPLOAD_ENABLED = v;
      const ex = recorder(), asked = [];
      globalThis.fetch = async (url, init) => { asked.push({ url, auth: new Map(Object.entries(init.headers).map(([k, v]) => [k.toLowerCase(), v])).get("authorization"), body: JSON.parse(init.body) }); return { status: 200, ok: true, headers: { get: () => null }, body: {}, text: async () => '{"mediaId":"m","uploadUrl":null}' }; };
      const proc = new LangfuseSpanProcessor({ exporter: ex, publicKey: "pk", secretKey: "sk", baseUrl: "https://h", mediaUploadEnabled: opt });
      delete process.env.LANGFUSE_MEDIA_UPLOAD_ENABLED;
      proc.onEnd(mkSpan({ traceId, attributes: { "langfuse.observation.input": uri } }));
      await proc.forceFlush();
      const on = opt !== undefined ? opt : v === undefined || !["false", "0"].includes(v.toLowerCase());
      $.assert("the exported span holds the tag, or the media itself if uploads are switched off", ex.seen.length === 1 && ex.seen[0]["langfuse.observation.input"] === (on ? tag : uri));
      $.assert("uploaded to the configured server, or nothing is", on ? asked.length === 1 && asked[0].url === "https://h/api/public/media" && asked[0].auth === "Basic " + Buffer.from("pk:sk", "utf8").toString("base64") && asked[0].body.traceId === traceId : asked.length === 0);
    }
  },
  malformed: async ($, T) => {
    const num = $.in("num", T.num), traceId = $.in("traceId", T.str);
    for (const v of ["not json", "", "null", "3", "{}", "[null]", "[1]", "[{\"content\":[null]}]", "[{\"content\":3}]", "[{\"parts\":[null]}]", "[{\"content\":[{\"type\":\"file\",\"mediaType\":\"image/png\",\"data\":\"*\"}]}]", num]) for (const k of ["ai.prompt", "ai.prompt.messages", "gen_ai.input.messages", "gen_ai.output.messages"]) {
      const h = mk(false), s = span({ [k]: v }, "ai", traceId);
      await h.m.process(s);
      $.assert("anything else is left as it is", s.attributes[k] === v && h.asked.length === 0);
    }
  },
};
