// Stand-in for mustache 4 in the prover: render is an unspecified function of template, view and escape setting.
const mustache = { escape: (x) => "&" + x, render(template, view) { return __uf("mustache", template, view, mustache.escape("<") === "<" && mustache.escape("&") === "&"); } };
export default mustache;
