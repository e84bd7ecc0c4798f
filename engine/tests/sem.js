export const units = {
  narrowing: ($, T) => {
    const v = $.in("v", T.any);
    if (typeof v === "string") { $.assert("right s", v.length >= 0 && v !== null); $.assert("wrong s", v.length > 0); }
    else if (v === null) $.assert("right null", typeof v === "object");
    else if (Array.isArray(v)) { $.assert("right a", typeof v === "object"); $.assert("wrong a", v.length === 0); }
    else if (typeof v === "object") $.assert("wrong o", Object.keys(v).length === 0);
    else { $.assert("right rest", v === undefined || typeof v === "number" || typeof v === "boolean" || typeof v === "function" || typeof v === "bigint" || typeof v === "symbol"); $.assert("wrong rest", v === undefined); }
  },
  truthy: ($, T) => {
    const v = $.in("v", T.or(T.str, T.num, T.bool, T.nul, T.undef));
    const r = v || "d";
    $.assert("right", v ? r === v : r === "d");
    $.assert("wrong", r === v);
    const q = v ?? "d";
    $.assert("right nullish", q === (v === null || v === undefined ? "d" : v));
    $.assert("wrong nullish", q === (v ? v : "d"));
  },
  strings: { strlen: "exact", run: ($, T) => {
    const a = $.in("a", T.str), b = $.in("b", T.str);
    $.assert("right concat", (a + b).startsWith(a) && (a + b).endsWith(b) && (a + b).length === a.length + b.length);
    $.assert("wrong concat", a + b === b + a);
    $.assert("right slice", a.slice(0, 3).length <= 3 && a.slice(0, a.length) === a);
    $.assert("wrong slice", a.slice(0, 3) === a);
    $.assert("right incl", !a.includes(b) || a.length >= b.length);
    $.assert("wrong incl", !a.includes(b));
    $.assert("wrong trim", a.trim() === a);
    $.assert("wrong lower", a.toLowerCase() === a);
    $.assert("wrong split", a.split(",").length === 1);
    $.assert("wrong idx", a.indexOf(b) === -1);
    $.assert("wrong repl", a.replace("x", "y") === a);
    $.assert("wrong cmp", a < b);
    $.assert("wrong num", Number(a) > 0);
    $.assert("wrong parse", Number.isNaN(parseInt(a, 10)));
  } },
  numbers: ($, T) => {
    const a = $.in("a", T.num), b = $.in("b", T.num);
    $.assert("right", Math.max(a, b) >= a && Math.min(a, b) <= b);
    $.assert("wrong", a + b > a);
    $.assert("wrong2", Math.floor(a) === a);
    $.assert("right2", Math.floor(a) <= a && Math.ceil(a) >= a);
    $.assert("wrong3", a * b >= 0);
  },
  tryCatch: ($, T) => {
    const f = $.in("f", T.bool); let s = "";
    const g = () => { try { if (f) throw new TypeError("x"); s += "a"; return 1; } catch (e) { s += e instanceof TypeError ? "c" : "?"; return 2; } finally { s += "f"; } };
    const r = g();
    $.assert("right", f ? r === 2 && s === "cf" : r === 1 && s === "af");
    $.assert("wrong", s === "cf");
  },
  finallyOverride: ($, T) => {
    const f = $.in("f", T.bool);
    const g = () => { try { if (f) throw new Error("x"); return 1; } finally { if (f) return 3; } };
    $.assert("right", g() === (f ? 3 : 1));
    $.assert("wrong", g() === 1);
  },
  closures: ($, T) => {
    const b = $.in("b", T.bool); let n = 0; const inc = () => { n++; return n; };
    if (b) inc(); inc();
    $.assert("right", n === (b ? 2 : 1));
    $.assert("wrong", n === 1);
  },
  spread: ($, T) => {
    const d = $.in("d", T.obj({ a: T.num, b: T.opt(T.str) })), k = $.in("k", T.num);
    const e = { ...d, a: k };
    $.assert("right", e.a === k && e.b === d.b);
    $.assert("wrong", e.a === d.a);
    const { a, ...rest } = d;
    $.assert("right rest", a === d.a && rest.b === d.b && !("a" in rest));
    $.assert("wrong rest", "a" in rest);
  },
  optional: ($, T) => {
    const o = $.in("o", T.nullable(T.obj({ x: T.opt(T.obj({ y: T.num })) })));
    const v = o?.x?.y;
    $.assert("right", v === undefined ? !(o && o.x) : v === o.x.y);
    $.assert("wrong", v !== undefined);
    $.assert("wrong2", v === undefined);
  },
  classes: ($, T) => {
    const x = $.in("x", T.num);
    class A { #p = 1; static s = 2; constructor(v) { this.v = v; } get w() { return this.v + this.#p; } m() { return "A"; } }
    class B extends A { constructor(v) { super(v * 2); } m() { return super.m() + "B"; } }
    const b = new B(x);
    $.assert("right", b.w === x * 2 + 1 && b.m() === "AB" && b instanceof A && A.s === 2);
    $.assert("wrong", b.w === x + 1);
  },
  mergeMutation: ($, T) => {
    const c = $.in("c", T.bool), x = $.in("x", T.num); const o = { v: 0 }; const alias = o; const l = [];
    if (c) { o.v = x; l.push(1); } else { o.w = 1; l.push(2, 3); }
    $.assert("right", c ? alias.v === x && !("w" in o) && l.length === 1 : alias.v === 0 && o.w === 1 && l.length === 2);
    $.assert("wrong", alias.v === 0);
    $.assert("wrong2", l.length === 2);
  },
  unionObj: ($, T) => {
    const c = $.in("c", T.bool); const a = { v: 1 }, b = { v: 1 }; const p = c ? a : b; p.v = 2;
    $.assert("right", a.v + b.v === 3 && (c ? a.v === 2 : b.v === 2));
    $.assert("wrong", a.v === 2);
  },
  order: async ($, T) => {
    const log = []; const b = $.in("b", T.bool);
    const f = async (n) => { log.push(n + "1"); await null; log.push(n + "2"); };
    const p = f("a"), q = f("b"); log.push("s"); if (b) await p; await q;
    $.assert("right", log.join() === "a1,b1,s,a2,b2");
    $.assert("wrong", log.join() === "a1,a2,b1,b2,s");
  },
  promiseOrder: async ($, T) => {
    const log = [];
    Promise.resolve().then(() => log.push("m1")).then(() => log.push("m3"));
    queueMicrotask(() => log.push("m2"));
    await new Promise((r) => setTimeout(r, 5)).then(() => log.push("t"));
    $.assert("right", log.join() === "m1,m2,m3,t");
    $.assert("wrong", log.join() === "t,m1,m2,m3");
  },
  rejection: async ($, T) => {
    const f = $.in("f", T.bool);
    const g = async () => { if (f) throw new Error("e"); return 1; };
    const r = await g().then((v) => v, (e) => e.message);
    $.assert("right", r === (f ? "e" : 1));
    $.assert("wrong", r === 1);
    const s = await Promise.allSettled([g(), Promise.reject(1)]);
    $.assert("right settled", s[0].status === (f ? "rejected" : "fulfilled") && s[1].reason === 1);
  },
  mapIter: ($, T) => {
    const k1 = $.in("k1", T.str), k2 = $.in("k2", T.str); const m = new Map();
    m.set(k1, 1); m.set(k2, 2);
    $.assert("right", m.get(k1) === (k1 === k2 ? 2 : 1) && m.size === (k1 === k2 ? 1 : 2));
    $.assert("wrong", m.size === 2);
    m.delete(k1);
    $.assert("right2", !m.has(k1) && (k1 === k2 || m.get(k2) === 2));
    $.assert("wrong2", m.has(k2));
  },
  dynKeys: ($, T) => {
    const k1 = $.in("k1", T.str), k2 = $.in("k2", T.str); const o = {};
    o[k1] = 1; o[k2] = 2;
    $.assert("right", o[k1] === (k1 === k2 ? 2 : 1) && Object.keys(o).length === (k1 === k2 ? 1 : 2));
    $.assert("wrong", o[k1] === 1);
    $.assert("wrong2", o.x === undefined);
  },
  protoKeys: ($, T) => {
    const k = $.in("k", T.str); const o = {};
    $.assert("wrong", o[k] === undefined);
    $.assert("right", !Object.hasOwn(o, k));
  },
  json: ($, T) => {
    const a = $.in("a", T.str), b = $.in("b", T.str), v = $.in("v", T.or(T.str, T.num, T.undef));
    $.assert("right", JSON.stringify({ a }) === JSON.stringify({ a: a }));
    $.assert("wrong", JSON.stringify({ a, b }) === JSON.stringify({ b, a }));
    $.assert("wrong2", JSON.stringify(v) !== undefined);
    $.assert("wrong3", JSON.stringify(a) === a);
  },
  regex: { strlen: "exact", run: ($, T) => {
    const a = $.in("a", T.str);
    $.assert("wrong", /^[a-z]+$/.test(a));
    $.assert("wrong2", !/^[a-z]+$/.test(a));
    if (/^[a-f0-9]{2}$/.test(a)) { $.assert("right", a.length === 2 && a !== "zz"); $.assert("wrong3", a === "00"); }
    const m = a.match(/^(\d+)-(\d*)$/);
    if (m) { $.assert("wrong m", m[2] !== ""); }
  } },
  args: ($, T) => {
    const x = $.in("x", T.opt(T.num)); const f = (a = 5, ...r) => [a, r.length];
    $.assert("right", f(x)[0] === (x === undefined ? 5 : x) && f(x, 1, 2)[1] === 2);
    $.assert("wrong", f(x)[0] === 5);
  },
  sw: ($, T) => {
    const x = $.in("x", T.str); let r = "";
    switch (x) { case "a": r += "1"; case "b": r += "2"; break; default: r = "d"; }
    $.assert("right", r === (x === "a" ? "12" : x === "b" ? "2" : "d"));
    $.assert("wrong", r === "d");
  },
  gen: ($, T) => {
    const n = $.in("n", T.num); function* g() { yield n; yield n + 1; return 9; }
    const l = [...g()];
    $.assert("right", l.length === 2 && l[1] === n + 1);
    $.assert("wrong", l.length === 3);
  },
  destr: ($, T) => {
    const o = $.in("o", T.obj({ a: T.opt(T.num), l: T.arr(T.num) }));
    const { a = 7, l: [h, ...tl] } = o;
    $.assert("right", a === (o.a === undefined ? 7 : o.a) && h === o.l[0] && tl.length === Math.max(0, o.l.length - 1));
    $.assert("wrong", h !== undefined);
  },
  freeze: ($, T) => {
    const x = $.in("x", T.num); const o = Object.freeze({ a: 1 }); let err;
    try { o.a = x; } catch (e) { err = e; }
    $.assert("right", o.a === 1);
    $.assert("wrong", o.a === x);
  },
  defProp: ($, T) => {
    const x = $.in("x", T.num); const o = {}; Object.defineProperty(o, "h", { value: x, enumerable: false });
    $.assert("right", o.h === x && Object.keys(o).length === 0 && JSON.stringify(o) === "{}");
    $.assert("wrong", Object.keys(o).length === 1);
  },
  proxy: ($, T) => {
    const x = $.in("x", T.num); const p = new Proxy({ a: x }, { get: (t, k, r) => (k === "b" ? 2 : Reflect.get(t, k, r)) });
    $.assert("right", p.a === x && p.b === 2 && p.c === undefined);
    $.assert("wrong", p.b === undefined);
  },
  timers: async ($, T) => {
    const d = $.in("d", T.num); $.assume(d > 0 && d < 100); let n = 0;
    const id = setTimeout(() => n++, d); setTimeout(() => { n += 10; }, 100);
    await $.advance(50);
    $.assert("right", n === (d <= 50 ? 1 : 0));
    $.assert("wrong", n === 0);
    clearTimeout(id); await $.advance(60);
    $.assert("right2", n === (d <= 50 ? 11 : 10));
  },
};
