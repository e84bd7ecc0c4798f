// JS regex source -> SMT-LIB RegLan text (subset). Returns {re} for the full-match language of a *search* (unanchored parts padded) or null.
import { smtStr } from "./terms.mjs";
export function parseRegex(src) {
  let i = 0;
  const peek = () => src[i];
  function alt() {
    const bs = [seq()];
    while (peek() === "|") { i++; bs.push(seq()); }
    return bs.length === 1 ? bs[0] : { t: "alt", bs };
  }
  function seq() {
    const items = [];
    while (i < src.length && peek() !== "|" && peek() !== ")") items.push(quant());
    return { t: "seq", items };
  }
  function quant() {
    let a = atom();
    for (;;) {
      const c = peek();
      let lo, hi;
      if (c === "*") { lo = 0; hi = Infinity; i++; }
      else if (c === "+") { lo = 1; hi = Infinity; i++; }
      else if (c === "?") { lo = 0; hi = 1; i++; }
      else if (c === "{" && /^\{\d+(,\d*)?\}/.test(src.slice(i))) { const m = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(i)); i += m[0].length; lo = +m[1]; hi = m[2] ? (m[3] ? +m[3] : Infinity) : lo; }
      else return a;
      if (peek() === "?") i++;
      a = { t: "rep", a, lo, hi };
    }
  }
  function esc(inClass) {
    const c = src[i++];
    const cls = { d: [["0", "9"]], w: [["a", "z"], ["A", "Z"], ["0", "9"], ["_", "_"]], s: [[" ", " "], ["\t", "\r"], ["\u00a0", "\u00a0"]] };
    if (cls[c]) return { t: "class", rs: cls[c], neg: false };
    if ("DWS".includes(c)) return { t: "class", rs: cls[c.toLowerCase()], neg: true };
    const ctl = { n: "\n", r: "\r", t: "\t", f: "\f", v: "\v", 0: "\0" };
    if (c === "b" || c === "B" || /[1-9]/.test(c)) throw new Error("unsupported escape");
    if (c === "x") { const h = src.slice(i, i + 2); i += 2; return { t: "lit", c: String.fromCharCode(parseInt(h, 16)) }; }
    if (c === "u") { const h = src.slice(i, i + 4); i += 4; return { t: "lit", c: String.fromCharCode(parseInt(h, 16)) }; }
    return { t: "lit", c: ctl[c] ?? c };
  }
  function atom() {
    const c = src[i++];
    if (c === "(") {
      let kind = "group";
      if (src.startsWith("?:", i)) i += 2;
      else if (src.startsWith("?!", i)) { i += 2; kind = "nla"; }
      else if (src.startsWith("?=", i)) { i += 2; kind = "la"; }
      else if (src.startsWith("?<", i) && !"=!".includes(src[i + 2])) { i = src.indexOf(">", i) + 1; }
      else if (src[i] === "?") throw new Error("lookbehind");
      const a = alt();
      if (src[i++] !== ")") throw new Error("paren");
      return kind === "group" ? a : { t: kind, a };
    }
    if (c === "[") {
      let neg = false; if (peek() === "^") { neg = true; i++; }
      const rs = [];
      let first = true;
      while (peek() !== "]" || first) {
        first = false;
        if (i >= src.length) throw new Error("class");
        let a;
        if (peek() === "\\") { i++; const e = esc(true); if (e.t === "class") { if (e.neg) throw new Error("neg class in class"); rs.push(...e.rs); continue; } a = e.c; } else a = src[i++];
        if (peek() === "-" && src[i + 1] !== "]") { i++; let b; if (peek() === "\\") { i++; const e = esc(true); if (e.t === "class") throw new Error("range"); b = e.c; } else b = src[i++]; rs.push([a, b]); }
        else rs.push([a, a]);
      }
      i++;
      return { t: "class", rs, neg };
    }
    if (c === ".") return { t: "class", rs: [["\n", "\n"], ["\r", "\r"], ["\u2028", "\u2029"]], neg: true };
    if (c === "^") return { t: "bol" };
    if (c === "$") return { t: "eol" };
    if (c === "\\") return esc(false);
    return { t: "lit", c };
  }
  const r = alt();
  if (i !== src.length) throw new Error("trailing regex");
  return r;
}
const ALL = "re.all", ANY = "re.allchar";
function conv(n) {
  switch (n.t) {
    case "lit": return `(str.to_re ${smtStr(n.c)})`;
    case "class": {
      const rs = n.rs.map(([a, b]) => a === b ? `(str.to_re ${smtStr(a)})` : `(re.range ${smtStr(a)} ${smtStr(b)})`);
      const u = rs.length === 1 ? rs[0] : `(re.union ${rs.join(" ")})`;
      return n.neg ? `(re.diff re.allchar ${u})` : u;
    }
    case "seq": {
      if (n.items.length === 0) return `(str.to_re "")`;
      const xs = n.items.map(conv);
      return xs.length === 1 ? xs[0] : `(re.++ ${xs.join(" ")})`;
    }
    case "alt": return `(re.union ${n.bs.map(conv).join(" ")})`;
    case "rep": {
      const a = conv(n.a);
      if (n.lo === 0 && n.hi === Infinity) return `(re.* ${a})`;
      if (n.lo === 1 && n.hi === Infinity) return `(re.+ ${a})`;
      if (n.lo === 0 && n.hi === 1) return `(re.opt ${a})`;
      if (n.hi === Infinity) return `(re.++ ((_ re.^ ${n.lo}) ${a}) (re.* ${a}))`;
      return `((_ re.loop ${n.lo} ${n.hi}) ${a})`;
    }
  }
  throw new Error("regex node " + n.t);
}
function foldCase(n) {
  if (n.t === "lit" && /[a-zA-Z]/.test(n.c)) return { t: "class", neg: false, rs: [[n.c.toLowerCase(), n.c.toLowerCase()], [n.c.toUpperCase(), n.c.toUpperCase()]] };
  if (n.t === "class") { const rs = [...n.rs]; for (const [a, b] of n.rs) { if (/[a-z]/.test(a) && /[a-z]/.test(b)) rs.push([a.toUpperCase(), b.toUpperCase()]); if (/[A-Z]/.test(a) && /[A-Z]/.test(b)) rs.push([a.toLowerCase(), b.toLowerCase()]); } return { ...n, rs }; }
  if (n.items) return { ...n, items: n.items.map(foldCase) };
  if (n.bs) return { ...n, bs: n.bs.map(foldCase) };
  if (n.a) return { ...n, a: foldCase(n.a) };
  return n;
}
// language of strings s for which re.test(s)
export function searchLanguage(source, flags) {
  if (/[^gimu]/.test(flags || "")) return null;
  try {
    let n = parseRegex(source);
    if ((flags || "").includes("i")) n = foldCase(n);
    return searchNode(n, (flags || "").includes("m"));
  } catch { return null; }
}
function searchNode(n, ml) {
  if (n.t === "alt") return `(re.union ${n.bs.map((b) => searchNode(b, ml)).join(" ")})`;
  let items = n.t === "seq" ? n.items.slice() : [n];
  if (items.length === 1 && (items[0].t === "alt" || items[0].t === "seq")) return searchNode(items[0], ml);
  let bol = false, eol = false;
  if (items[0]?.t === "bol") { bol = true; items.shift(); }
  if (items[items.length - 1]?.t === "eol") { eol = true; items.pop(); }
  // leading lookaheads
  const las = [];
  while (items[0] && (items[0].t === "nla" || items[0].t === "la")) { if (!bol) throw new Error("unanchored lookahead"); las.push(items.shift()); }
  if (ml && las.length) throw new Error("lookahead in multi-line mode");
  let core = conv({ t: "seq", items });
  let full = core;
  const NL = `(re.union (str.to_re "\\u{a}") (str.to_re "\\u{d}") (re.range "\\u{2028}" "\\u{2029}"))`;
  if (!bol) full = `(re.++ ${ALL} ${full})`; else if (ml) full = `(re.++ (re.opt (re.++ ${ALL} ${NL})) ${full})`;
  if (!eol) full = `(re.++ ${full} ${ALL})`; else if (ml) full = `(re.++ ${full} (re.opt (re.++ ${NL} ${ALL})))`;
  for (const l of las) {
    let inner = l.a, anchored = false;
    if (inner.t === "seq" && inner.items[inner.items.length - 1]?.t === "eol") { anchored = true; inner = { t: "seq", items: inner.items.slice(0, -1) }; }
    const p = anchored ? conv(inner) : `(re.++ ${conv(inner)} ${ALL})`;
    full = l.t === "nla" ? `(re.diff ${full} ${p})` : `(re.inter ${full} ${p})`;
  }
  return full;
}
