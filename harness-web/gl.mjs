// A software stand-in for a WebGL 2 context: keeps the state that decides a
// picture and evaluates the shaders (a subset of GLSL) for every pixel.
export class Unsupported extends Error {}

// ---- GLSL to JavaScript ------------------------------------------------------
const TYPES = new Set(["void", "float", "int", "bool", "vec2", "vec3", "vec4", "sampler2D"]);
const QUAL = new Set(["precision", "attribute", "varying", "uniform", "in", "out", "const", "highp", "mediump", "lowp", "flat", "smooth", "layout"]);
function tokens(src) {
  src = src.replace(/\/\*[^]*?\*\//g, " ").replace(/\/\/[^\n]*/g, " ").replace(/^\s*#version[^\n]*/m, " ");
  const ctl = /^\s*#/m;
  if (ctl.test(src)) throw new Unsupported("preprocessor");
  const re = /\s*([A-Za-z_]\w*|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?f?|[<>=!]=|&&|\|\||[-+*/]=|\+\+|--|[-+*/%<>=!?:;,.(){}[\]])/y;
  const out = [];
  let i = 0;
  while (i < src.length) {
    if (/^\s*$/.test(src.slice(i))) break;
    re.lastIndex = i;
    const m = re.exec(src);
    if (!m) throw new Unsupported("token at " + src.slice(i, i + 20));
    out.push(m[1]);
    i = re.lastIndex;
  }
  return out;
}
export function compile(src) {
  const t = tokens(src);
  let p = 0;
  const peek = () => t[p];
  const next = () => t[p++];
  const eat = (x) => {
    if (t[p] !== x) throw new Unsupported(`expected ${x}, found ${t[p]}`);
    p++;
  };
  const is = (x) => (t[p] === x ? (p++, true) : false);
  const decls = { attribute: {}, varying: {}, uniform: {}, out: {} };
  const funcs = new Set();
  let code = "";
  const globals = [];
  // expressions
  const bin = [["||"], ["&&"], ["==", "!="], ["<", ">", "<=", ">="], ["+", "-"], ["*", "/", "%"]];
  function expr() {
    const l = ternary();
    const op = peek();
    if (["=", "+=", "-=", "*=", "/="].includes(op)) {
      next();
      const r = expr();
      const v = op === "=" ? r : `$.b("${op[0]}",${l},${r})`;
      const sw = /^\$\.s\((v_\w+),"(\w+)"\)$/.exec(l);
      if (sw) return `(${sw[1]}=$.w(${sw[1]},"${sw[2]}",${v}))`;
      if (!/^v_\w+$/.test(l)) throw new Unsupported("assignment to " + l);
      return `(${l}=${v})`;
    }
    return l;
  }
  function ternary() {
    const c = binary(0);
    if (is("?")) {
      const a = expr();
      eat(":");
      const b = ternary();
      return `(${c}?${a}:${b})`;
    }
    return c;
  }
  function binary(k) {
    if (k === bin.length) return unary();
    let l = binary(k + 1);
    while (bin[k].includes(peek())) {
      const op = next();
      const r = binary(k + 1);
      l = op === "&&" || op === "||" ? `(${l}${op}${r})` : `$.b("${op}",${l},${r})`;
    }
    return l;
  }
  function unary() {
    if (is("-")) return `$.b("*",-1,${unary()})`;
    if (is("+")) return unary();
    if (is("!")) return `(!${unary()})`;
    return postfix();
  }
  function args() {
    const a = [];
    if (!is(")")) {
      do a.push(expr());
      while (is(","));
      eat(")");
    }
    return a.join(",");
  }
  function postfix() {
    let e;
    const x = next();
    if (x === "(") {
      e = expr();
      eat(")");
      e = /^v_\w+$/.test(e) ? e : `(${e})`;
    } else if (/^[\d.]/.test(x)) e = x.replace(/f$/, "");
    else if (x === "true" || x === "false") e = x;
    else if (/^[A-Za-z_]/.test(x)) {
      if (is("(")) e = funcs.has(x) ? `f_${x}(${args()})` : `$.call("${x}",[${args()}])`;
      else e = "v_" + x;
    } else throw new Unsupported("expression at " + x);
    for (;;) {
      if (is(".")) e = `$.s(${e},"${next()}")`;
      else if (peek() === "[") {
        next();
        const i = expr();
        eat("]");
        e = `$.i(${e},${i})`;
      } else if (peek() === "++" || peek() === "--") {
        const op = next()[0];
        if (!/^v_\w+$/.test(e)) throw new Unsupported("increment");
        e = `(${e}=$.b("${op}",${e},1))`;
      } else return e;
    }
  }
  // statements
  function declaration() {
    while (QUAL.has(peek())) next();
    const ty = next();
    if (!TYPES.has(ty)) throw new Unsupported("type " + ty);
    let s = "";
    do {
      const n = next();
      if (peek() === "[") throw new Unsupported("array");
      s += `let v_${n}=${is("=") ? expr() : ty.startsWith("vec") ? `$.zero(${ty[3]})` : 0};`;
    } while (is(","));
    eat(";");
    return s;
  }
  function stmt() {
    if (is(";")) return ";";
    if (peek() === "{") return block();
    if (is("if")) {
      eat("(");
      const c = expr();
      eat(")");
      let s = `if(${c}){${stmt()}}`;
      if (is("else")) s += `else{${stmt()}}`;
      return s;
    }
    if (is("for")) {
      eat("(");
      const i = peek() === ";" ? (next(), ";") : TYPES.has(peek()) || QUAL.has(peek()) ? declaration() : (() => { const e = expr(); eat(";"); return e + ";"; })();
      const c = peek() === ";" ? "true" : expr();
      eat(";");
      const n = peek() === ")" ? "" : expr();
      eat(")");
      return `{${i}for(let $n=0;(${c});${n}){if(++$n>100000)throw new Error("endless");${stmt()}}}`;
    }
    if (is("return")) {
      const e = peek() === ";" ? "" : expr();
      eat(";");
      return `return ${e};`;
    }
    if (is("discard")) throw new Unsupported("discard");
    if (is("break")) return eat(";"), "break;";
    if (is("continue")) return eat(";"), "continue;";
    if (TYPES.has(peek()) && t[p + 1] !== "(" || QUAL.has(peek())) return declaration();
    const e = expr();
    eat(";");
    return e + ";";
  }
  function block() {
    eat("{");
    let s = "{";
    while (!is("}")) s += stmt();
    return s + "}";
  }
  while (p < t.length) {
    if (is(";")) continue;
    if (is("precision")) {
      while (next() !== ";");
      continue;
    }
    let kind = null;
    while (QUAL.has(peek())) {
      const q = next();
      if (q === "layout") {
        eat("(");
        while (next() !== ")");
      }
      if (["attribute", "varying", "uniform", "in", "out"].includes(q)) kind = q;
    }
    const ty = next();
    if (!TYPES.has(ty)) throw new Unsupported("type " + ty);
    const name = next();
    if (peek() === "(") {
      next();
      const ps = [];
      if (!is(")")) {
        if (peek() === "void") next();
        else
          do {
            while (QUAL.has(peek())) {
              if (["out"].includes(peek())) throw new Unsupported("out parameter");
              next();
            }
            next();
            ps.push("v_" + next());
          } while (is(","));
        eat(")");
      }
      funcs.add(name);
      if (is(";")) continue;
      code += `function f_${name}(${ps.join(",")})${block()}\n`;
      continue;
    }
    let n = name;
    for (;;) {
      if (kind) {
        (decls[kind] ??= {})[n] = ty;
        globals.push(n);
        code += `let v_${n}=${ty.startsWith("vec") ? `$.zero(${ty[3]})` : 0};\n`;
      } else code += `let v_${n}=${is("=") ? expr() : ty.startsWith("vec") ? `$.zero(${ty[3]})` : 0};\n`;
      if (!is(",")) break;
      n = next();
    }
    eat(";");
  }
  const get = [...globals, "gl_Position", "gl_FragColor"].map((g) => `${g}:v_${g}`).join(",");
  const set = globals.map((g) => `if("${g}" in $in)v_${g}=$in["${g}"];`).join("");
  const js = `let v_gl_Position=[0,0,0,1],v_gl_FragColor=[0,0,0,0],v_gl_PointSize=1;${code}\nreturn function($in){${set};f_main();return {${get}};}`;
  return { decls, make: (tex) => new Function("$", js)(runtime(tex)) };
}
function runtime(sample) {
  const v = Array.isArray;
  const map = (f, ...a) => {
    const n = a.find(v)?.length;
    if (n === undefined) return f(...a);
    return Array.from({ length: n }, (_, i) => f(...a.map((x) => (v(x) ? x[i] : x))));
  };
  const idx = (c) => {
    for (const s of ["xyzw", "rgba", "stpq"]) if (s.includes(c)) return s.indexOf(c);
    throw new Unsupported("component " + c);
  };
  const num = (f) => (...a) => map(f, ...a);
  const lib = {
    log: num(Math.log), log2: num(Math.log2), exp: num(Math.exp), exp2: num((x) => 2 ** x), pow: num(Math.pow),
    sqrt: num(Math.sqrt), inversesqrt: num((x) => 1 / Math.sqrt(x)), abs: num(Math.abs), floor: num(Math.floor),
    ceil: num(Math.ceil), fract: num((x) => x - Math.floor(x)), min: num(Math.min), max: num(Math.max),
    sin: num(Math.sin), cos: num(Math.cos), sign: num(Math.sign), round: num(Math.round), trunc: num(Math.trunc),
    clamp: num((x, a, b) => Math.min(Math.max(x, a), b)), mix: num((a, b, t) => a * (1 - t) + b * t),
    step: num((e, x) => (x < e ? 0 : 1)), mod: num((a, b) => a - b * Math.floor(a / b)),
    smoothstep: num((a, b, x) => ((x = Math.min(Math.max((x - a) / (b - a), 0), 1)), x * x * (3 - 2 * x))),
    dot: (a, b) => a.reduce((s, x, i) => s + x * b[i], 0), length: (a) => Math.hypot(...a),
    float: (x) => +(v(x) ? x[0] : x), int: (x) => Math.trunc(v(x) ? x[0] : x), bool: Boolean,
    texture2D: (s, c) => sample(s, c), texture: (s, c) => sample(s, c),
  };
  for (const n of [2, 3, 4])
    lib["vec" + n] = (...a) => {
      const f = a.flat();
      if (f.length === 1) return Array(n).fill(f[0]);
      if (f.length < n) throw new Unsupported("vec" + n);
      return f.slice(0, n);
    };
  return {
    zero: (n) => Array(+n).fill(0),
    call(n, a) {
      if (!lib[n]) throw new Unsupported("function " + n);
      return lib[n](...a);
    },
    b(op, x, y) {
      switch (op) {
        case "+": return map((a, b) => a + b, x, y);
        case "-": return map((a, b) => a - b, x, y);
        case "*": return map((a, b) => a * b, x, y);
        case "/": return map((a, b) => a / b, x, y);
        case "%": return map((a, b) => a % b, x, y);
        case "<": return x < y;
        case ">": return x > y;
        case "<=": return x <= y;
        case ">=": return x >= y;
        case "==": return v(x) ? x.every((a, i) => a === y[i]) : x === y;
        case "!=": return v(x) ? x.some((a, i) => a !== y[i]) : x !== y;
      }
      throw new Unsupported(op);
    },
    s: (x, w) => (w.length === 1 ? x[idx(w)] : [...w].map((c) => x[idx(c)])),
    w(x, w, val) {
      x = [...x];
      [...w].forEach((c, i) => (x[idx(c)] = v(val) ? val[i] : val));
      return x;
    },
    i: (x, k) => x[k],
  };
}

// ---- the context --------------------------------------------------------------
const C = {
  VERTEX_SHADER: 0x8b31, FRAGMENT_SHADER: 0x8b30, ARRAY_BUFFER: 0x8892, STATIC_DRAW: 0x88e4, DYNAMIC_DRAW: 0x88e8,
  FLOAT: 0x1406, UNSIGNED_BYTE: 0x1401, TRIANGLES: 4, TRIANGLE_STRIP: 5, TRIANGLE_FAN: 6, TEXTURE_2D: 0x0de1, TEXTURE0: 0x84c0,
  TEXTURE_MIN_FILTER: 0x2801, TEXTURE_MAG_FILTER: 0x2800, TEXTURE_WRAP_S: 0x2802, TEXTURE_WRAP_T: 0x2803,
  NEAREST: 0x2600, LINEAR: 0x2601, CLAMP_TO_EDGE: 0x812f, REPEAT: 0x2901, RED: 0x1903, RG: 0x8227, RGB: 0x1907, RGBA: 0x1908,
  R32F: 0x822e, RG32F: 0x8230, RGBA32F: 0x8814, RGB32F: 0x8815, LUMINANCE: 0x1909, COMPILE_STATUS: 0x8b81, LINK_STATUS: 0x8b82,
  COLOR_BUFFER_BIT: 0x4000, UNPACK_FLIP_Y_WEBGL: 0x9240, UNPACK_ALIGNMENT: 0x0cf5, NO_ERROR: 0, MAX_TEXTURE_SIZE: 0x0d33,
};
// float textures that WebGL 2 accepts, and their channels
const FLOATS = { [C.R32F]: [C.RED, 1], [C.RG32F]: [C.RG, 2], [C.RGB32F]: [C.RGB, 3], [C.RGBA32F]: [C.RGBA, 4] };
const QUIET = new Set(["compileShader", "linkProgram", "clear", "clearColor", "deleteShader", "deleteProgram", "deleteTexture", "deleteBuffer", "flush", "finish", "getExtension", "disable", "validateProgram", "disableVertexAttribArray", "bindVertexArray", "createVertexArray", "detachShader"]);
export class GlMock {
  constructor() {
    this.units = {};
    this.unit = C.TEXTURE0;
    this.attribs = {};
    this.flip = false;
    this.pic = null;
    this.unknown = null;
  }
  proxy() {
    const g = this;
    return new Proxy(
      {},
      {
        get(_, n) {
          if (n === "$canvas") return (c) => (g.canvas = c);
          if (n === "$picture")
            return () => {
              if (g.unknown) throw new Unsupported("WebGL " + g.unknown);
              return g.pic;
            };
          if (n in C) return C[n];
          if (n === "drawingBufferWidth") return g.canvas.width;
          if (n === "drawingBufferHeight") return g.canvas.height;
          if (n === "canvas") return g.canvas;
          if (typeof g[n] === "function") return (...a) => g[n](...a);
          if (typeof n === "string" && /^[a-z]/.test(n))
            return () => {
              if (!QUIET.has(n)) g.unknown = n;
              return {};
            };
          return undefined;
        },
        has: () => true,
      },
    );
  }
  createShader(type) { return { type }; }
  shaderSource(s, src) { s.src = src; }
  getShaderParameter() { return true; }
  getProgramParameter() { return true; }
  getShaderInfoLog() { return ""; }
  getProgramInfoLog() { return ""; }
  getError() { return 0; }
  getParameter() { return 16384; }
  createProgram() { return { uniforms: {}, locs: {}, nloc: 0 }; }
  attachShader(pr, s) { pr[s.type] = s; }
  useProgram(pr) { this.prog = pr; }
  createBuffer() { return {}; }
  bindBuffer(_, b) { this.buf = b; }
  bufferData(_, d) { this.buf.data = d; }
  getAttribLocation(pr, n) { return (pr.locs[n] ??= pr.nloc++); }
  bindAttribLocation(pr, i, n) { pr.locs[n] = i; }
  enableVertexAttribArray(l) { (this.attribs[l] ??= {}).on = true; }
  vertexAttribPointer(l, size, type, norm, stride, off) { Object.assign((this.attribs[l] ??= {}), { size, type, stride, off, buf: this.buf }); }
  createTexture() { return { par: {} }; }
  activeTexture(u) { this.unit = u; }
  bindTexture(_, t) { this.units[this.unit] = t; }
  texParameteri(_, k, v) { this.units[this.unit].par[k] = v; }
  pixelStorei(k, v) { if (k === C.UNPACK_FLIP_Y_WEBGL) this.flip = !!v; }
  texImage2D(target, level, internal, w, h, border, format, type, data) {
    const t = this.units[this.unit];
    t.img = null;
    const f = FLOATS[internal];
    if (level !== 0 || border !== 0 || !f || f[0] !== format || type !== C.FLOAT || !(data instanceof Float32Array) || data.length < w * h * f[1]) return;
    t.img = { w, h, ch: f[1], data: Float32Array.from(data), flip: this.flip };
  }
  getUniformLocation(pr, n) { return { pr, n }; }
  uniform1f(l, v) { l.pr.uniforms[l.n] = Math.fround(v); }
  uniform1i(l, v) { l.pr.uniforms[l.n] = v; }
  uniform2f(l, ...v) { l.pr.uniforms[l.n] = v.map(Math.fround); }
  uniform3f(l, ...v) { l.pr.uniforms[l.n] = v.map(Math.fround); }
  uniform4f(l, ...v) { l.pr.uniforms[l.n] = v.map(Math.fround); }
  viewport(x, y, w, h) { this.view = [x, y, w, h]; }
  sample(unit, uv) {
    const t = this.units[C.TEXTURE0 + unit];
    const im = t && t.img;
    // an incomplete texture reads as opaque black
    if (!im || t.par[C.TEXTURE_MIN_FILTER] !== C.NEAREST || t.par[C.TEXTURE_MAG_FILTER] !== C.NEAREST) return [0, 0, 0, 1];
    const at = (u, n, wrap) => {
      let k = Math.floor(u * n);
      k = wrap === C.CLAMP_TO_EDGE ? Math.min(Math.max(k, 0), n - 1) : ((k % n) + n) % n;
      return k;
    };
    const x = at(uv[0], im.w, t.par[C.TEXTURE_WRAP_S]);
    let y = at(uv[1], im.h, t.par[C.TEXTURE_WRAP_T]);
    if (im.flip) y = im.h - 1 - y;
    const o = [0, 0, 0, 1];
    for (let k = 0; k < im.ch; k++) o[k] = im.data[(y * im.w + x) * im.ch + k];
    return o;
  }
  drawArrays(mode, first, count) {
    const { width: W, height: H } = this.canvas;
    const pr = this.prog;
    const vs = compile(pr[C.VERTEX_SHADER].src);
    const fs = compile(pr[C.FRAGMENT_SHADER].src);
    const tex = (s, c) => this.sample(s, c);
    const vrun = vs.make(tex);
    const frun = fs.make(tex);
    const varyings = Object.keys({ ...fs.decls.varying, ...(fs.decls.in ?? {}) });
    const outName = Object.keys(fs.decls.out)[0] ?? "gl_FragColor";
    const verts = [];
    for (let i = first; i < first + count; i++) {
      const a = { ...pr.uniforms };
      for (const [n, ty] of Object.entries({ ...vs.decls.attribute, ...(vs.decls.in ?? {}) })) {
        const at = this.attribs[pr.locs[n]];
        if (!at || !at.on || !at.buf) throw new Unsupported("attribute " + n);
        const stride = (at.stride || at.size * 4) / 4;
        const v = Array.from({ length: at.size }, (_, k) => at.buf.data[at.off / 4 + i * stride + k]);
        const want = ty === "float" ? 1 : +ty[3];
        while (v.length < want) v.push(v.length === 3 ? 1 : 0);
        a[n] = want === 1 ? v[0] : v.slice(0, want);
      }
      const r = vrun(a);
      const w = r.gl_Position[3];
      verts.push({ x: r.gl_Position[0] / w, y: r.gl_Position[1] / w, r });
    }
    const tris = [];
    for (let i = 0; i + 2 < verts.length; i += mode === C.TRIANGLES ? 3 : 1) {
      if (mode === C.TRIANGLE_FAN) tris.push([verts[0], verts[i + 1], verts[i + 2]]);
      else if (mode === C.TRIANGLES || mode === C.TRIANGLE_STRIP) tris.push([verts[i], verts[i + 1], verts[i + 2]]);
      else throw new Unsupported("draw mode " + mode);
    }
    const [vx, vy, vw, vh] = this.view ?? [0, 0, 300, 150];
    const pic = this.pic && this.pic.length === 4 * W * H ? this.pic : new Float64Array(4 * W * H);
    for (let py = 0; py < H; py++)
      for (let px = 0; px < W; px++) {
        // window coordinates have their origin at the bottom left
        const x = ((px + 0.5 - vx) / vw) * 2 - 1;
        const y = ((H - py - 0.5 - vy) / vh) * 2 - 1;
        if (x < -1 || x > 1 || y < -1 || y > 1) continue;
        for (const [a, b, c] of tris) {
          const d = (b.y - c.y) * (a.x - c.x) + (c.x - b.x) * (a.y - c.y);
          if (d === 0) continue;
          const u = ((b.y - c.y) * (x - c.x) + (c.x - b.x) * (y - c.y)) / d;
          const v = ((c.y - a.y) * (x - c.x) + (a.x - c.x) * (y - c.y)) / d;
          const w = 1 - u - v;
          if (u < -1e-9 || v < -1e-9 || w < -1e-9) continue;
          const inp = { ...pr.uniforms };
          for (const n of varyings) {
            const [p, q, r] = [a.r[n], b.r[n], c.r[n]];
            inp[n] = Array.isArray(p) ? p.map((_, k) => u * p[k] + v * q[k] + w * r[k]) : u * p + v * q + w * r;
          }
          const o = frun(inp)[outName];
          for (let k = 0; k < 4; k++) pic[4 * (py * W + px) + k] = Math.min(Math.max(o[k], 0), 1);
          break;
        }
      }
    this.pic = pic;
  }
}
