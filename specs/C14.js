/*META {"trusted":["mustache 4.2 render (uninterpreted in the prover, the real library in concrete runs)"]} */
import { ChatPromptClient, TextPromptClient } from "@repo/packages/client/src/prompt/promptClients.ts";
import mustache from "mustache";
import "./lib/otel.js";
[ChatPromptClient, TextPromptClient]; // evaluated before any unit runs (it configures mustache)
const base = { name: "n", version: 1, config: {}, labels: [], tags: [] };
const text = (prompt) => new TextPromptClient({ ...base, type: "text", prompt });
const chat = (prompt) => new ChatPromptClient({ ...base, type: "chat", prompt });
// reference rendering without HTML escaping
const render = (tpl, vars) => { const e = mustache.escape; mustache.escape = (x) => x; try { return mustache.render(tpl, vars); } finally { mustache.escape = e; } };
const PH = (name) => ({ type: "placeholder", name });
const M = (role, content) => ({ role, content });
const tpl = (T) => T.strOf({ pool: ["hi {{a}}", "{{a}}{{b}}", "{{{a}}} & {{&b}}", "<{{a}}>", "no vars", "{{#a}}x{{/a}}", "{ {{a}} }", "{{ a }} and {{b}}"] });
export const units = {
  textVerbatim: { bounded: "mustache itself: concrete runs with the real library over generated templates", run: ($, T) => {
    const pre = $.in("pre", T.str), post = $.in("post", T.str), name = $.in("name", T.lit("a", "name", "user_id", "x1")), v = $.in("v", T.str);
    $.assume(!/[{}]/.test(pre) && !/[{}]/.test(post));
    $.assert("value inserted verbatim, without HTML escaping", text(`${pre}{{${name}}}${post}`).compile({ [name]: v, other: "o" }) === pre + v + post);
    $.assert("missing variables become empty", text(`${pre}{{${name}}}${post}`).compile({}) === pre + post && text(`${pre}{{${name}}}${post}`).compile() === pre + post);
    $.assert("chat content likewise", chat([M("user", `${pre}{{${name}}}${post}`)]).compile({ [name]: v })[0].content === pre + v + post);
  } },
  text: ($, T) => {
    const p = $.in("template", tpl(T)), vars = $.in("vars", T.dict(T.str)), has = $.in("has", T.bool);
    let exp, ok = true; try { exp = render(p, vars); } catch { ok = false; }
    const c = text(p);
    if (ok) $.assert("rendered with the given variables", !has || c.compile(vars) === exp);
    $.assert("the prompt itself is not modified", c.prompt === p);
  },
  messages: ($, T) => {
    const r1 = $.in("r1", T.str), c1 = $.in("c1", tpl(T)), r2 = $.in("r2", T.str), c2 = $.in("c2", tpl(T)), vars = $.in("vars", T.dict(T.str)), legacy = $.in("legacy", T.bool);
    let e1, e2; try { e1 = render(c1, vars); e2 = render(c2, vars); } catch { return; }
    const t1 = legacy ? {} : { type: "chatmessage" };
    const p = chat([{ ...t1, role: r1, content: c1 }, { ...t1, role: r2, content: c2 }]);
    const got = p.compile(vars);
    $.assert("one compiled message each, in order", got.length === 2);
    $.same("first", got[0], { role: r1, content: e1 });
    $.same("second", got[1], { role: r2, content: e2 });
    $.assert("prompt unchanged", p.prompt[0].content === c1 && p.prompt[1].content === c2);
  },
  placeholders: ($, T) => {
    const kind = $.in("kind", T.lit("messages", "one", "empty", "missing", "string", "object", "mixed", "noRole", "null", "nullItem", "undefinedValue", "num")), name = $.in("name", T.strOf({ re: /^[a-z]+$/, ex: ["hist", "msgs"], pool: ["hist", "msgs", "h"] })), s = $.in("s", T.str), c1 = $.in("c1", tpl(T)), vars = $.in("vars", T.dict(T.str)), other = $.in("other", T.bool);
    let e1; try { e1 = render(c1, vars); } catch { return; }
    const val = { messages: [M("user", c1), { role: "assistant", content: "plain", extra: s }], one: [M("user", c1)], empty: [], string: s, object: { a: s }, mixed: [M("user", "x"), s], noRole: [{ content: s }], null: null, nullItem: [null], num: 7 }[kind];
    const ph = {}; if (kind !== "missing") ph[name] = val; if (other) ph[name + "2"] = [M("user", "other")];
    const p = chat([M("system", "S"), PH(name), M("user", "U")]);
    const got = p.compile(vars, ph), mid = got.slice(1, -1);
    $.assert("surrounding messages stay in place", got[0].content === render("S", vars) && got[got.length - 1].content === render("U", vars));
    if (kind === "messages") { $.assert("expanded in place", mid.length === 2); $.same("first", mid[0], { role: "user", content: e1 }); $.same("second keeps its fields", mid[1], { role: "assistant", content: render("plain", vars), extra: s }); }
    else if (kind === "one") $.same("single message", mid, [{ role: "user", content: e1 }]);
    else if (kind === "empty") $.assert("an empty list removes the placeholder", mid.length === 0);
    else if (kind === "missing" || kind === "undefinedValue") $.same("unresolved placeholders stay", mid, [{ type: "placeholder", name }]);
    else $.same("anything else is stringified", mid, [JSON.stringify(val)]);
    if (kind === "messages" || kind === "one") $.assert("the given messages are not modified", val[0].content === c1 && val[0].role === "user" && (kind === "one" ? val.length === 1 : val[1].content === "plain" && val.length === 2));
    $.assert("the prompt keeps its placeholder", p.prompt.length === 3 && p.prompt[1].name === name);
  },
  toJSON: ($, T) => {
    const name = $.in("name", T.str), version = $.in("version", T.range(0, 99)), prompt = $.in("prompt", T.str), fb = $.in("fallback", T.bool), label = $.in("label", T.str), role = $.in("role", T.str);
    const t1 = new TextPromptClient({ name, version, prompt, config: { a: 1 }, labels: [label], tags: [], type: "text" }, fb);
    $.same("text", JSON.parse(t1.toJSON()), { name, prompt, version, isFallback: fb, tags: [], labels: [label], type: "text", config: { a: 1 } });
    const t2 = new ChatPromptClient({ name, version, prompt: [M(role, prompt), PH(label)], config: {}, labels: [label], tags: [], type: "chat" }, fb);
    $.same("chat", JSON.parse(t2.toJSON()), { name, prompt: [M(role, prompt), PH(label)], version, isFallback: fb, tags: [], labels: [label], type: "chat", config: {} });
  },
};
