/*META {"trusted":["@opentelemetry/api 1.9 (interpreted, not modelled)","harness context manager and span (specs/lib/otel.js)"]} */
import { propagateAttributes, getPropagatedAttributesFromContext } from "@repo/packages/core/src/propagation.ts";
import { setupOtel, context, trace } from "./lib/otel.js";
const attrs = () => getPropagatedAttributesFromContext(context.active());
const v = (T) => T.strOf({ nonEmpty: true, maxLen: 200 });
export const units = {
  nestedScalars: ($, T) => {
    setupOtel();
    const u1 = $.in("u1", v(T)), u2 = $.in("u2", v(T)), s1 = $.in("s1", v(T)), n2 = $.in("n2", v(T));
    const before = attrs();
    propagateAttributes({ userId: u1, sessionId: s1 }, () => {
      propagateAttributes({ userId: u2, traceName: n2 }, () => {
        const a = attrs();
        $.assert("inner overrides", a["user.id"] === u2);
        $.assert("outer inherited", a["session.id"] === s1);
        $.assert("inner added", a["langfuse.trace.name"] === n2);
      });
      const a = attrs();
      $.assert("outer restored after inner", a["user.id"] === u1 && a["session.id"] === s1);
      $.assert("inner value gone after inner", a["langfuse.trace.name"] === undefined);
    });
    $.same("nothing leaks after the outermost callback", attrs(), before);
  },
  nestedTags: ($, T) => {
    setupOtel();
    const a = $.in("a", T.strOf({ maxLen: 200 })), b = $.in("b", T.strOf({ maxLen: 200 })), c = $.in("c", T.strOf({ maxLen: 200 })), d = $.in("d", T.strOf({ maxLen: 200 }));
    $.assume(a !== b);
    propagateAttributes({ tags: [a, b] }, () => {
      propagateAttributes({ tags: [c, d] }, () => {
        const expected = [a, b];
        if (c !== a && c !== b) expected.push(c);
        if (d !== a && d !== b && d !== c) expected.push(d);
        $.same("union without duplicates, outer first", attrs()["langfuse.trace.tags"], expected);
      });
      $.same("outer tags restored", attrs()["langfuse.trace.tags"], [a, b]);
    });
    $.assert("no tags after", attrs()["langfuse.trace.tags"] === undefined);
  },
  nestedMetadata: ($, T) => {
    setupOtel();
    const m1 = $.in("outer", T.dict(T.strOf({ maxLen: 200 }))), m2 = $.in("inner", T.dict(T.strOf({ maxLen: 200 })));
    const k = $.in("probe", T.str);
    const has = (o) => Object.prototype.hasOwnProperty.call(o, k);
    const key = "langfuse.trace.metadata." + k;
    propagateAttributes({ metadata: m1 }, () => {
      propagateAttributes({ metadata: m2 }, () => {
        $.assert("inner wins, outer otherwise", attrs()[key] === (has(m2) ? m2[k] : has(m1) ? m1[k] : undefined));
      });
      $.assert("outer restored", attrs()[key] === (has(m1) ? m1[k] : undefined));
    });
    $.assert("nothing after", attrs()[key] === undefined);
  },
  invalidInnerKeepsOuter: ($, T) => {
    setupOtel();
    const u = $.in("u", v(T)), bad = $.in("bad", T.any);
    $.assume(!(typeof bad === "string"));
    propagateAttributes({ userId: u }, () => {
      propagateAttributes({ userId: bad, sessionId: bad, environment: bad }, () => {
        const a = attrs();
        $.assert("invalid inner value does not erase the outer one", a["user.id"] === u);
        $.assert("invalid values are not propagated", a["session.id"] === undefined && a["langfuse.environment"] === undefined);
      });
    });
  },
  transparentReturn: ($, T) => {
    setupOtel();
    const r = $.in("result", T.any), u = $.in("u", T.any);
    const got = propagateAttributes({ userId: u }, () => r);
    $.assert("returns what the callback returned", Object.is(got, r) || got === r);
  },
  transparentThrow: ($, T) => {
    setupOtel();
    const e = { tag: $.in("tag", T.str) };
    let caught, n = 0;
    try { propagateAttributes({ userId: $.in("u", T.any) }, () => { n++; throw e; }); } catch (x) { caught = x; }
    $.assert("callback ran once", n === 1);
    $.assert("the callback's error propagates unchanged", caught === e);
    $.same("context restored after a throw", attrs(), {});
  },
  asyncCallback: async ($, T) => {
    setupOtel();
    const u = $.in("u", v(T)), r = $.in("result", T.str);
    const gate = $.deferred();
    let inside;
    const p = propagateAttributes({ userId: u }, async () => { await gate.promise; inside = attrs()["user.id"]; return r; });
    $.same("caller context unaffected while the callback is pending", attrs(), {});
    gate.resolve(1);
    const got = await p;
    $.assert("still propagated after an await", inside === u);
    $.assert("resolves with the callback's result", got === r);
  },
  asyncRejection: async ($, T) => {
    setupOtel();
    const e = { tag: $.in("tag", T.str) };
    let caught;
    try { await propagateAttributes({ userId: $.in("u", v(T)) }, async () => { await Promise.resolve(); throw e; }); } catch (x) { caught = x; }
    $.assert("rejection propagates unchanged", caught === e);
  },
  concurrentSiblings: async ($, T) => {
    setupOtel();
    const a = $.in("a", v(T)), b = $.in("b", v(T));
    const first = $.in("first", T.bool);
    const g1 = $.deferred(), g2 = $.deferred(); let s1, s2;
    const p1 = propagateAttributes({ userId: a }, async () => { await g1.promise; s1 = attrs()["user.id"]; });
    const p2 = propagateAttributes({ userId: b }, async () => { await g2.promise; s2 = attrs()["user.id"]; });
    if (first) { g1.resolve(); await p1; g2.resolve(); } else { g2.resolve(); await p2; g1.resolve(); }
    await p1; await p2;
    $.assert("first sibling sees its own value", s1 === a);
    $.assert("second sibling sees its own value", s2 === b);
  },
  activeSpanOnly: ($, T) => {
    const provider = setupOtel();
    const u = $.in("u", v(T));
    const tracer = trace.getTracer("x");
    const recording = $.in("recording", T.bool);
    provider.recording = recording;
    const outer = tracer.startSpan("outer"), other = tracer.startSpan("other");
    context.with(trace.setSpan(context.active(), outer), () => { propagateAttributes({ userId: u }, () => 1); });
    $.assert("recording active span is annotated", outer.attributes["user.id"] === (recording ? u : undefined));
    $.assert("other spans are untouched", other.attributes["user.id"] === undefined);
  },
};
