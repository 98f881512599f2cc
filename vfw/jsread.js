// Reads the scripts that JSX components render to. One JSON request per line on stdin, one JSON
// answer per line on stdout. A request is {js, names}; the answer describes the argument of the
// only ReactDOM.render() call, both as parsed and as executed against stand-ins for React and the DOM.
"use strict";
let acorn;
try { acorn = require("/opt/veriftools/node/node_modules/acorn"); } catch (e) { acorn = require("internal/deps/acorn/acorn/dist/acorn"); }
const vm = require("vm");
const readline = require("readline");

function isCE(n) {
  return n.type === "CallExpression" && n.callee.type === "MemberExpression" && !n.callee.computed &&
    n.callee.object.name === "React" && n.callee.property.name === "createElement";
}
function num(v) { return { k: "num", v: Number.isNaN(v) ? "NaN" : v === Infinity ? "inf" : v === -Infinity ? "-inf" : String(v) }; }

function describe(n, js) {
  const src = js.slice(n.start, n.end);
  if (isCE(n)) {
    const a = n.arguments;
    if (a.length < 1) throw new Error("createElement without arguments");
    const t = a[0].type === "Literal" && typeof a[0].value === "string" ? { html: a[0].value } : { comp: js.slice(a[0].start, a[0].end) };
    let props = [];
    if (a.length > 1) {
      if (a[1].type === "Literal" && a[1].value === null) props = [];
      else if (a[1].type === "ObjectExpression") props = describe(a[1], js).v;
      else throw new Error("second argument of createElement is " + a[1].type);
    }
    return { k: "el", ...t, props, kids: a.slice(2).map((x) => describe(x, js)) };
  }
  switch (n.type) {
    case "ArrayExpression":
      return { k: "arr", v: n.elements.map((x) => (x === null ? { k: "hole" } : describe(x, js))), src };
    case "ObjectExpression":
      return { k: "obj", src, v: n.properties.map((p) => {
        if (p.type !== "Property" || p.kind !== "init" || p.method || p.shorthand || p.computed) return [null, { k: "src", src: js.slice(p.start, p.end) }];
        const key = p.key.type === "Literal" ? String(p.key.value) : p.key.name;
        return [key, describe(p.value, js)];
      }) };
    case "Literal":
      if (typeof n.value === "string") return { k: "str", v: n.value, q: src[0], src };
      if (typeof n.value === "number") return { ...num(n.value), src };
      if (typeof n.value === "boolean") return { k: "bool", v: n.value, src };
      if (n.value === null && src === "null") return { k: "null", src };
      return { k: "src", src };
    case "UnaryExpression":
      if ((n.operator === "-" || n.operator === "+") && (n.argument.type === "Literal" && typeof n.argument.value === "number"))
        return { ...num(n.operator === "-" ? -n.argument.value : n.argument.value), src };
      if (n.operator === "-" && n.argument.type === "Identifier" && n.argument.name === "Infinity") return { k: "num", v: "-inf", src };
      return { k: "src", src };
    case "Identifier":
      if (n.name === "NaN") return { k: "num", v: "NaN", src };
      if (n.name === "Infinity") return { k: "num", v: "inf", src };
      return { k: "src", src };
    default:
      return { k: "src", src };
  }
}

function find(n, out) {
  if (Array.isArray(n)) { for (const x of n) find(x, out); return; }
  if (n === null || typeof n !== "object") return;
  if (n.type === "CallExpression" && n.callee.type === "MemberExpression" && n.callee.object.name === "ReactDOM" && n.callee.property.name === "render") out.push(n);
  for (const k of Object.keys(n)) if (k !== "type" && k !== "start" && k !== "end") find(n[k], out);
}

// executed form
function shape(v, depth) {
  if (depth > 400) return { k: "deep" };
  if (v === null) return { k: "null" };
  if (v === undefined) return { k: "undef" };
  if (typeof v === "string") return { k: "str", v };
  if (typeof v === "number") return num(v);
  if (typeof v === "boolean") return { k: "bool", v };
  if (typeof v === "function") return { k: "fn" };
  if (v && v.$el === EL) return { k: "el", ...(typeof v.type === "string" ? { html: v.type } : { comp: v.type.$name }), props: Object.keys(v.props).map((k) => [k, shape(v.props[k], depth + 1)]), kids: v.kids.map((x) => shape(x, depth + 1)) };
  if (Array.isArray(v)) return { k: "arr", v: Array.from(v, (x) => shape(x, depth + 1)) };
  return { k: "obj", v: Object.keys(v).map((k) => [k, shape(v[k], depth + 1)]) };
}
const EL = Symbol("el");
function run(js, names) {
  const log = [];
  let rendered = [];
  const thisScript = { after(c) { log.push(["after", c === frag]); }, removeAttribute(a) { log.push(["removeAttribute", a]); } };
  let frag = null;
  class DocumentFragment { constructor() { frag = this; } }
  const g = {
    React: { createElement: (type, props, ...kids) => { if (type === undefined || type === null) throw new Error("undefined component"); return { $el: EL, type, props: props || {}, kids }; } },
    ReactDOM: { render: (el, c) => { rendered.push([el, c === frag]); log.push(["render"]); } },
    document: { querySelector: (q) => { log.push(["query", q]); return thisScript; } },
    DocumentFragment, console: { log() {} },
  };
  for (const nm of names) {
    const parts = nm.split(".");
    let o = g, path = "";
    for (const p of parts) {
      path = path ? path + "." + p : p;
      if (!Object.prototype.hasOwnProperty.call(o, p)) o[p] = { $name: path };
      o = o[p];
    }
  }
  vm.createContext(g);
  vm.runInContext(js, g, { timeout: 20000 });
  return { log, rendered: rendered.map(([e, c]) => [shape(e, 0), c]) };
}

const rl = readline.createInterface({ input: process.stdin, terminal: false });
rl.on("line", (line) => {
  let ans;
  try {
    const q = JSON.parse(line);
    ans = {};
    try {
      const ast = acorn.parse(q.js, { ecmaVersion: 2022, sourceType: "script" });
      const calls = [];
      find(ast, calls);
      ans.calls = calls.length;
      if (calls.length === 1) ans.expr = describe(calls[0].arguments[0], q.js);
    } catch (e) { ans.error = "parse: " + e.message; }
    if (!ans.error) {
      try { ans.run = run(q.js, q.names); } catch (e) { ans.error = "run: " + e.message; }
    }
  } catch (e) { ans = { harness: String(e && e.stack) }; }
  process.stdout.write(JSON.stringify(ans) + "\n");
});
