/*META {"trusted":["LangChain f-string template semantics (reference formatter in this file)"]} */
import { ChatPromptClient, TextPromptClient } from "@repo/packages/client/src/prompt/promptClients.ts";
import "./lib/otel.js";
[ChatPromptClient, TextPromptClient];
const base = { name: "n", version: 1, config: {}, labels: [], tags: [] };
const text = (prompt) => new TextPromptClient({ ...base, type: "text", prompt });
const chat = (prompt) => new ChatPromptClient({ ...base, type: "chat", prompt });
// LangChain's f-string templates: doubled braces are literal braces, {name} is a variable
function format(tpl, vars) {
  let out = "";
  for (let i = 0; i < tpl.length; ) {
    const two = tpl.slice(i, i + 2);
    if (two === "{{") { out += "{"; i += 2; } else if (two === "}}") { out += "}"; i += 2; }
    else if (tpl[i] === "{") { const j = tpl.indexOf("}", i); if (j < 0) throw new Error("unbalanced"); out += vars[tpl.slice(i + 1, j)]; i = j + 1; }
    else if (tpl[i] === "}") throw new Error("single }");
    else out += tpl[i++];
  }
  return out;
}
// the conversion as specified: existing double braces stay, a single brace pair is doubled iff a quote follows its opening brace (white space aside), then {{word}} becomes {word}
function convert(s) {
  const tok = s.match(/\{\{|\}\}|[^]/g) ?? [], open = [];
  let out = "", at = 0;
  for (const k of tok) {
    at += k.length;
    if (k === "{") { const json = /^\s*["']/.test(s.slice(at)); open.push(json); out += json ? "{{" : "{"; }
    else if (k === "}") out += open.pop() ? "}}" : "}";
    else out += k;
  }
  return out.replace(/\{\{([A-Za-z0-9_]+)\}\}/g, (_, v) => "{" + v + "}");
}
const PLAIN = ["", "a", " ", "hello, ", "\n", "\"q\"", "'", ":", "x1", "[", "]", "$1", "$&", "\\"];
const V = { a: "A<1>", b: "$&{}", name_1: "}}", x: "" };
export const units = {
  variables: { bounded: "400 generated templates per run (10,000 thorough) of up to 6 pieces; the character loop over arbitrary text is beyond the prover", run: ($, T) => {
    const n = $.in("n", T.range(0, 6)); let tpl = "", exp = "";
    for (let i = 0; i < n; i++) {
      const k = $.in("k" + i, T.lit("plain", "var", "lcvar", "json", "json2", "doubled", "jsonVar", "spaced")), p = $.in("p" + i, T.lit(...PLAIN)), v = $.in("v" + i, T.lit("a", "b", "name_1", "x"));
      const sep = $.in("s" + i, T.lit(" ", ".", "\n", ", "));
      if (k === "plain") { tpl += p; exp += p; }
      else if (k === "var") { tpl += `{{${v}}}`; exp += V[v]; }
      else if (k === "lcvar") { tpl += `{${v}}`; exp += V[v]; }
      else if (k === "json") { tpl += `{"k": "${p}"}`; exp += `{"k": "${p}"}`; }
      else if (k === "json2") { tpl += `{ "k": {'n': 1} }`; exp += `{ "k": {'n': 1} }`; }
      else if (k === "doubled") { tpl += `{{"k": 1}}`; exp += `{"k": 1}`; }
      else if (k === "jsonVar") { tpl += `{\n  "k": {{${v}}}, "l": {${v}} }`; exp += `{\n  "k": ${V[v]}, "l": ${V[v]} }`; }
      else { tpl += `{  "k": 1 }`; exp += `{  "k": 1 }`; }
      tpl += sep; exp += sep;
    }
    const got = text(tpl).getLangchainPrompt();
    let f; try { f = format(got, V); } catch (e) { f = String(e); }
    $.assert("formatting the converted template with LangChain yields the prompt with its variables filled in", f === exp);
    $.assert("chat messages convert the same way", chat([{ role: "user", content: tpl }]).getLangchainPrompt()[0].content === got);
  } },
  exhaustive: { bounded: "every text of up to 6 characters over { } \" ' a and one white-space character", runs: 8, run: ($, T) => {
    const ws = $.in("ws", T.lit(" ", "\t", "\n", "\r", "\u00a0")), A = ["{", "}", "\"", "'", "a", ws], c = text("");
    let todo = [""];
    for (let n = 0; n < 6; n++) { const next = []; for (const p of todo) for (const ch of A) next.push(p + ch); for (const s of next) if (text(s).getLangchainPrompt() !== convert(s)) $.fail("converted as specified: " + JSON.stringify(s)); todo = next; }
  } },
  longer: { bounded: "generated texts of up to 14 characters over braces, quotes, word characters and white space", runs: 3000, run: ($, T) => {
    const n = $.in("n", T.range(0, 14)); let s = "";
    for (let i = 0; i < n; i++) s += $.in("c" + i, T.lit("{", "}", "{{", "}}", "\"", "'", "a", "_", "1", "é", "-", ".", " ", "\t", "\n", "\r", "\v", "\u00a0", "\u2003"));
    $.assert("converted as specified", text(s).getLangchainPrompt() === convert(s));
  } },
  plainUnchanged: { bounded: "text without braces, concrete runs", run: ($, T) => {
    const s = $.in("s", T.str);
    $.assume(!/[{}]/.test(s));
    $.assert("text without braces is unchanged", text(s).getLangchainPrompt() === s);
  } },
  structure: ($, T) => {
    const kind = $.in("kind", T.lit("messages", "empty", "missing", "string", "noRole", "noContent", "mixed", "null", "nullItem", "num")), name = $.in("name", T.strOf({ re: /^[a-z]+$/, ex: ["hist"], pool: ["hist", "h"] })), role = $.in("role", T.str), s = $.in("s", T.str), legacy = $.in("legacy", T.bool);
    const val = { messages: [{ role, content: "{{v}}", extra: 1 }, { role: "user", content: "q" }], empty: [], string: s, noRole: [{ content: s }], noContent: [{ role }], mixed: [{ role, content: "x" }, { role: "user" }], null: null, nullItem: [null], num: 7 }[kind];
    const t1 = legacy ? {} : { type: "chatmessage" };
    const p = chat([{ ...t1, role, content: "S {{a}} {\"j\": 1}" }, { type: "placeholder", name }, { ...t1, role: "user", content: "{b}" }]);
    const got = kind === "missing" ? p.getLangchainPrompt() : p.getLangchainPrompt({ placeholders: { [name]: val } });
    const mid = got.slice(1, -1);
    $.same("messages before", got[0], { role, content: "S {a} {{\"j\": 1}}" });
    $.same("messages after", got[got.length - 1], { role: "user", content: "{b}" });
    if (kind === "messages") $.same("filled placeholder", mid, [{ role, content: "{v}" }, { role: "user", content: "q" }]);
    else if (kind === "empty") $.assert("empty list removes the placeholder", mid.length === 0);
    else if (kind === "missing") $.same("unresolved placeholders become LangChain placeholders", mid, [["placeholder", "{" + name + "}"]]);
    else $.same("anything else is stringified", mid, [JSON.stringify(val)]);
    $.assert("the prompt is not modified", p.prompt.length === 3 && p.prompt[0].content === "S {{a}} {\"j\": 1}");
  },
};
