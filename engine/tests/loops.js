export const units = {
  push: ($, T) => {
    const arr = $.in("arr", T.arr(T.num)); const out = [];
    for (const x of arr) { const o = {}; o.v = x; out.push(o); }
    $.assert("right", out.every((e) => e.v !== undefined));
    $.assert("wrong", out.every((e) => e.v === undefined));
  },
  cls: ($, T) => {
    class A { constructor(x) { this.x = x; this.y = {}; this.y.z = x; } }
    const arr = $.in("arr", T.arr(T.num));
    const out = arr.map((x) => new A(x));
    $.assert("right", out.every((e, i) => e.x === arr[i] && e.y.z === arr[i]));
    $.assert("wrong", out.every((e, i) => e.x === undefined));
  },
  inner: ($, T) => {
    const arr = $.in("arr", T.arr(T.num));
    const out = arr.map((x) => { const l = []; l.push(x); l.push(x + 1); return l; });
    $.assert("right", out.every((e, i) => e.length === 2 && e[0] === arr[i]));
    $.assert("wrong", out.every((e, i) => e.length === 0));
  },
  key: ($, T) => {
    const arr = $.in("arr", T.arr(T.str)); const d = {};
    for (const x of arr) { const o = {}; o.v = x; d[x] = o; }
    $.assert("right", arr.every((e) => d[e].v === e));
    $.assert("wrong", arr.every((e) => d[e].v === undefined));
  },
  mapset: ($, T) => {
    const arr = $.in("arr", T.arr(T.str));
    const out = arr.map((x) => { const m = new Map(); m.set("k", x); return m; });
    $.assert("right", out.every((e, i) => e.get("k") === arr[i]));
    $.assert("wrong", out.every((e, i) => e.get("k") === undefined));
  },
  pr: async ($, T) => {
    const arr = $.in("arr", T.arr(T.str));
    const out = await Promise.all(arr.map(async (x) => x));
    $.assert("right", out.every((e, i) => e === arr[i]) && out.length === arr.length);
    $.assert("wrong", out.every((e, i) => e === undefined));
  },
  prRej: async ($, T) => {
    const arr = $.in("arr", T.arr(T.str)); let err;
    try { await Promise.all(arr.map(async (x) => { if (x === "bad") throw new Error("bad"); return x; })); } catch (e) { err = e; }
    $.assert("right", (err !== undefined) === arr.includes("bad"));
    $.assert("wrong", err === undefined);
  },
  last: ($, T) => {
    const arr = $.in("arr", T.arr(T.num)); let last;
    for (const x of arr) { const o = {}; o.v = x; last = o; }
    $.assert("wrong", !last || last.v === undefined);
  },
  counter: ($, T) => {
    const arr = $.in("arr", T.arr(T.num)); let n = 0, s = 0, m = -1;
    for (const x of arr) { n++; s += x; if (x > m) m = x; }
    $.assert("right", n === arr.length);
    $.assert("wrong: sum", s === 0);
    $.assert("wrong: max", m === -1);
  },
  dedupe: ($, T) => {
    const arr = $.in("arr", T.arr(T.str)); const seen = new Set(), out = [];
    for (const x of arr) if (!seen.has(x)) { seen.add(x); out.push(x); }
    $.assert("wrong: all kept", out.length === arr.length);
    $.assert("wrong: none", out.length === 0);
  },
  brk: ($, T) => {
    const arr = $.in("arr", T.arr(T.num)); let hit;
    for (const x of arr) { if (x > 10) { hit = x; break; } }
    $.assert("right", hit === undefined ? arr.every((x) => !(x > 10)) : hit > 10);
    $.assert("right first", hit === arr.find((x) => x > 10));
    $.assert("wrong", hit === undefined);
  },
  filtermap: ($, T) => {
    const arr = $.in("arr", T.arr(T.num));
    const out = arr.filter((x) => x > 0).map((x) => -x);
    $.assert("right", out.every((x) => x < 0) && out.length <= arr.length);
    $.assert("wrong", out.length === arr.length);
    $.assert("wrong2", out.length === 0);
  },
  whileScope: ($, T) => {
    const n = $.in("n", T.num); $.assume(n === 2); let i = 0, fs = [];
    while (i < 3) { fs.push(() => i); i++; }
    $.assert("right", fs[0]() === 3);
    $.assert("wrong", fs[0]() === 0);
    const gs = []; for (let j = 0; j < 3; j++) gs.push(() => j);
    $.assert("right for", gs[0]() === 0 && gs[2]() === 2);
    $.assert("wrong for", gs[0]() === 3);
  },
  nestedArr: ($, T) => {
    const a = $.in("a", T.arr(T.obj({ k: T.str, l: T.arr(T.str) })));
    const out = []; for (const o of a) for (const x of o.l) out.push(o.k + x);
    $.assert("wrong", out.length === a.length);
  },
  sortRev: ($, T) => {
    const a = $.in("a", T.arr(T.num)); const b = [...a].reverse();
    $.assert("right", b.length === a.length);
    $.assert("wrong", b.every((x, i) => x === a[i]));
  },
  entries: ($, T) => {
    const d = $.in("d", T.dict(T.num)); const o = {};
    for (const [k, v] of Object.entries(d)) o[k] = { v };
    $.assert("right", Object.keys(d).every((k) => o[k].v === d[k]));
    $.assert("wrong", Object.keys(o).length === 0);
    delete o.x; $.assert("right del", o.x === undefined);
    $.assert("wrong del", Object.hasOwn(d, "x") === false);
  },

  clos: ($, T) => {
    const arr = $.in("arr", T.arr(T.num)); 
    const fs = arr.map((x) => { let n = 0; n = x; return () => n + 1; });
    $.assert("right", fs.every((f, i) => f() === arr[i] + 1));
    $.assert("wrong", fs.every((f, i) => f() === 1));
  },
  clos2: ($, T) => {
    const arr = $.in("arr", T.arr(T.num)); 
    class A { constructor(x) { this.x = x; } get() { return this.x; } }
    const fs = arr.map((x) => { const a = new A(x); return { f: () => a.get(), a }; });
    $.assert("right", fs.every((f, i) => f.f() === arr[i] && f.a.x === arr[i]));
    if (arr.length > 2) { $.assert("r2", fs[1].f() === arr[1] && fs[0].a !== fs[1].a); $.assert("wrong", fs[1].f() === arr[0]); }
  },
  ident: ($, T) => {
    const arr = $.in("arr", T.arr(T.num)); const i = $.in("i", T.num), j = $.in("j", T.num);
    const fs = arr.map((x) => ({}));
    $.assume(Number.isInteger(i) && Number.isInteger(j) && i >= 0 && j >= 0 && i < arr.length && j < arr.length);
    $.assert("right", (fs[i] === fs[j]) === (i === j));
    $.assert("wrong", fs[i] === fs[j]);
  },
  mut: ($, T) => {
    const arr = $.in("arr", T.arr(T.num));
    const fs = arr.map((x) => ({ v: 0 }));
    for (const f of fs) f.v = 1;
    $.assert("wrong", fs.every((f) => f.v === 0));
  },
  mut2: ($, T) => {
    const arr = $.in("arr", T.arr(T.obj({ v: T.num })));
    for (const f of arr) f.v = 1;
    $.assert("right", arr.every((f) => f.v === 1));
    $.assert("wrong", arr.every((f) => f.v === 0));
  },
  mut3: ($, T) => {
    const arr = $.in("arr", T.arr(T.obj({ v: T.num }))); const i = $.in("i", T.num);
    $.assume(Number.isInteger(i) && i >= 0 && i < arr.length);
    const before = arr[0].v;
    arr[i].v = before + 1;
    $.assert("wrong", arr[0].v === before);
  },
  mut4: ($, T) => {
    const arr = $.in("arr", T.arr(T.obj({ v: T.num })));
    if (arr.length < 2) return;
    arr[0].v = 5;
    $.assert("wrong", arr.every((x) => x.v !== 5));
    $.assert("right", arr[0].v === 5);
  },
  mut5: ($, T) => {
    const arr = $.in("arr", T.arr(T.num));
    if (arr.length < 2) return;
    const o = arr.map((x) => ({ x }));
    o[0].x = "s";
    $.assert("wrong", o.every((x) => x.x !== "s"));
    $.assert("right", o[0].x === "s");
  },
  mut6: ($, T) => {
    const d = $.in("d", T.dict(T.obj({ v: T.num }))); const k = $.in("k", T.str);
    $.assume(Object.hasOwn(d, k));
    d[k].v = 5;
    $.assert("right", d[k].v === 5);
    $.assert("wrong", Object.values(d).every((x) => x.v !== 5));
  },
  nest: ($, T) => {
    const a = $.in("a", T.arr(T.arr(T.num)));
    const out = a.map((r) => { const l = []; for (const x of r) { const o = {}; o.x = x; l.push(o); } return l; });
    $.assert("right", out.every((r, i) => r.length === a[i].length && r.every((o, j) => o.x === a[i][j])));
    $.assert("wrong", out.every((r, i) => r.every((o, j) => o.x === undefined)));
  },
};
