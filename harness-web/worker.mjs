// Runs the page script and the service worker of web-spectrogram against
// stand-ins for the browser.  One request per input line, one answer per output
// line: {"class": ...} when everything is as it must be, {"err": ...} otherwise.
import { registerHooks } from "node:module";
import { createInterface } from "node:readline";
import { pathToFileURL } from "node:url";
import fs from "node:fs";
import vm from "node:vm";
import { GlMock, Unsupported } from "./gl.mjs";

const WEB = process.argv[2];
console.log = console.warn = console.error = () => {};

// the compiled wasm package is replaced by functions that the case provides
let stub = {};
globalThis.__stub = (name, args) => stub[name](...args);
const PKG = "data:text/javascript," + encodeURIComponent(`
const call = (n) => (...a) => globalThis.__stub(n, a);
export const Colormap = { Fire: 0, Legacy: 1, Gray: 2, Viridis: 3, Plasma: 4, Inferno: 5, Rainbow: 6 };
export const stft_magnitudes = call("stft_magnitudes");
export const color_from_magnitude_u8 = call("color_from_magnitude_u8");
export const map_color_u8 = call("map_color_u8");
export const magnitude_to_db = call("magnitude_to_db");
export const db_scale = call("db_scale");
export default async function init() {}
`);
registerHooks({
  resolve(spec, ctx, next) {
    if (/web_spectrogram\.js$/.test(spec)) return { url: PKG, shortCircuit: true };
    return next(spec, ctx);
  },
});
const app = await import(pathToFileURL(WEB + "/app.mjs").href);

const f64 = new Float64Array(1);
const u8 = new Uint8Array(f64.buffer);
// a colour that identifies every argument
function pure(mag, max, floor, map) {
  let h = 2166136261;
  for (const v of [mag, max, floor, map === undefined ? -1 : map]) {
    f64[0] = v;
    for (const b of u8) h = Math.imul(h ^ b, 16777619) >>> 0;
  }
  return [h & 255, (h >>> 8) & 255, (h >>> 16) & 255];
}
function canvasMock(gl, log) {
  const c = {
    width: 300,
    height: 150,
    last: null,
    getContext(type) {
      log.push(type);
      if (type === "2d") return ctx2d;
      if (gl && type === "webgl2") return gl;
      return null;
    },
  };
  const ctx2d = {
    createImageData(w, h) {
      if (!(w > 0) || !(h > 0)) throw new Error("IndexSizeError");
      return { width: w, height: h, data: new Uint8ClampedArray(4 * w * h) };
    },
    putImageData(img, x, y) {
      if (!c.last || c.last.w !== c.width || c.last.h !== c.height) c.last = { w: c.width, h: c.height, px: new Uint8ClampedArray(4 * c.width * c.height) };
      for (let j = 0; j < img.height; j++)
        for (let i = 0; i < img.width; i++) {
          const X = x + i, Y = y + j;
          if (X < 0 || Y < 0 || X >= c.width || Y >= c.height) continue;
          for (let k = 0; k < 4; k++) c.last.px[4 * (Y * c.width + X) + k] = img.data[4 * (j * img.width + i) + k];
        }
    },
    fillRect(x, y, w, h) {
      throw new Unsupported("fillRect");
    },
  };
  return c;
}
function judgePicture(c, q, map) {
  const { w, h } = q;
  if (c.width !== w || c.height !== h) return `the canvas is ${c.width} x ${c.height} for a ${w} x ${h} spectrogram`;
  if (!c.last) return "nothing was drawn";
  for (let x = 0; x < w; x++)
    for (let y = 0; y < h; y++) {
      const want = [...pure(q.mags[x * h + y], q.max, -80, map), 255];
      const got = [...c.last.px.slice(4 * (y * w + x), 4 * (y * w + x) + 4)];
      if (want.some((v, k) => v !== got[k])) return `pixel (${x},${y}) is ${got}, the colour of magnitude ${q.mags[x * h + y]} is ${want}`;
    }
  return null;
}
const ops = {
  // [mag, max]
  db(q) {
    const got = app.magnitudeToDb(q.mag, q.max);
    const want = 20 * Math.log10(Math.max(q.mag / q.max, 1e-12));
    if (!(Math.abs(got - want) <= 1e-9 * Math.max(1, Math.abs(want)))) return { err: `magnitudeToDb(${q.mag}, ${q.max}) is ${got}, expected ${want}` };
    return { class: q.mag / q.max > 1e-12 ? "above the floor" : "floor" };
  },
  canvas(q) {
    const log = [];
    const c = canvasMock(null, log);
    delete globalThis.navigator;
    const gpu = q.gpu ? { gpu: {} } : {};
    Object.defineProperty(globalThis, "navigator", { value: gpu, configurable: true, writable: true });
    const res = { mags: Float32Array.from(q.mags), width: q.w, height: q.h, max_mag: q.max };
    q.mags = [...res.mags];
    app.drawSpectrogram(c, res, pure, q.map);
    const e = judgePicture(c, q, q.map);
    return e ? { err: e } : { class: q.w > 1 && q.h > 1 && q.w !== q.h ? "rectangle" : "square or line" };
  },
  gl(q) {
    const log = [];
    const gl = new GlMock(true).proxy();
    const c = canvasMock(gl, log);
    gl.$canvas(c);
    const mags = Float32Array.from(q.mags);
    app.drawSpectrogram(c, { mags, width: q.w, height: q.h, max_mag: q.max }, pure, 6);
    if (c.last) return { class: "drawn without WebGL" };
    const pic = gl.$picture();
    if (c.width !== q.w || c.height !== q.h) return { err: `the canvas is ${c.width} x ${c.height} for a ${q.w} x ${q.h} spectrogram` };
    if (!pic) return { err: "WebGL: nothing was drawn" };
    for (let x = 0; x < q.w; x++)
      for (let y = 0; y < q.h; y++) {
        const got = pic.slice(4 * (y * q.w + x), 4 * (y * q.w + x) + 4);
        const i = 3 * (x * q.h + y);
        for (let k = 0; k < 3; k++)
          if (!(Math.abs(got[k] * 255 - q.want[i + k]) <= 2.5)) return { err: `WebGL: pixel (${x},${y}) is ${[...got].slice(0, 3).map((v) => (v * 255).toFixed(1))}, the core colour of magnitude ${q.mags[x * q.h + y]} is ${q.want.slice(i, i + 3)}` };
        if (!(Math.abs(got[3] - 1) < 0.01)) return { err: `WebGL: pixel (${x},${y}) is not opaque` };
      }
    return { class: q.w > 1 && q.h > 1 && q.w !== q.h ? "rectangle" : "square or line" };
  },
  async page(q) {
    const log = [];
    const c = canvasMock(null, log);
    const listeners = {};
    const calls = [];
    const data = Float32Array.from(q.samples);
    const bytes = new ArrayBuffer(q.samples.length);
    globalThis.document = {
      getElementById: (id) => (id === "file" ? { addEventListener: (ev, cb) => (listeners[ev] = cb) } : id === "spec" ? c : null),
    };
    let decoded = null;
    globalThis.AudioContext = class {
      async decodeAudioData(b) {
        decoded = b;
        return { numberOfChannels: 2, length: data.length, getChannelData: (k) => (k === 0 ? data : data.map((v) => -v)) };
      }
    };
    stub = {
      stft_magnitudes(...a) {
        calls.push(a);
        return { mags: Float32Array.from(q.mags), width: q.w, height: q.h, max_mag: q.max };
      },
      color_from_magnitude_u8: pure,
    };
    q.mags = [...Float32Array.from(q.mags)];
    await app.initApp();
    if (!listeners.change) return { err: "no listener for the file input" };
    await listeners.change({ target: { files: [] } });
    if (c.last || calls.length) return { err: "drew something although no file was chosen" };
    for (let round = 0; round < 2; round++) {
      await listeners.change({ target: { files: [{ name: "x.wav", arrayBuffer: async () => bytes }] } });
      if (decoded !== bytes) return { err: "decoded something other than the file" };
      if (calls.length !== round + 1) return { err: `${calls.length} transforms for ${round + 1} files` };
      const [s, win, hop] = calls[round];
      if (s.length !== data.length || [...s].some((v, i) => v !== data[i])) return { err: "the transform did not get the decoded samples" };
      if (win !== 1024 || hop !== 512) return { err: `the transform got window ${win} and hop ${hop}` };
      const e = judgePicture(c, q, 6);
      if (e) return { err: e };
    }
    return { class: "file drawn" };
  },
  // service worker: q.urls requests, q.extra entries put in the cache beforehand
  async sw(q) {
    const handlers = {};
    const net = [];
    const store = new Map();
    const cacheObj = {
      addAll: async (l) => {
        for (const u of l) store.set(u, "cached " + u);
      },
      add: async (u) => void store.set(u, "cached " + u),
      put: async (r, v) => void store.set(r.url ?? r, v),
      match: async (r) => store.get(r.url ?? r),
    };
    const names = new Set();
    const ctx = {
      console: { log() {} },
      caches: {
        open: async (n) => (names.add(n), cacheObj),
        match: async (r) => store.get(r.url ?? r),
        keys: async () => [...names],
        delete: async (n) => names.delete(n),
      },
      fetch: async (r) => {
        const u = r.url ?? r;
        net.push(u);
        if (q.offline) throw new Error("offline");
        return "network " + u;
      },
      URL, Promise,
    };
    ctx.self = { addEventListener: (ev, cb) => (handlers[ev] = cb), skipWaiting() {}, clients: { claim() {} } };
    ctx.addEventListener = ctx.self.addEventListener;
    vm.runInNewContext(fs.readFileSync(WEB + "/sw.js", "utf8"), ctx);
    let wait = null;
    handlers.install({ waitUntil: (p) => (wait = p) });
    await wait;
    if (!names.size) return { err: "installing opens no cache" };
    const own = ["/", "/index.html", "/app.mjs", "/manifest.json"];
    for (const u of own) if (!store.has(u)) return { err: `${u} is not stored for offline use` };
    for (const u of q.extra) store.set(u, "cached " + u);
    for (const u of q.urls) {
      net.length = 0;
      let answer = null;
      handlers.fetch({ request: { url: u, method: "GET" }, respondWith: (p) => (answer = p) });
      let got;
      try {
        got = await answer;
      } catch (e) {
        got = "failed";
      }
      const want = store.has(u) ? "cached " + u : q.offline ? "failed" : "network " + u;
      if (got !== want) return { err: `request for ${u}: answered with ${got}, expected ${want}` };
      if (store.has(u) && q.offline && net.length) return { err: `request for ${u} needed the network` };
    }
    return { class: q.urls.some((u) => store.has(u)) ? "stored and other requests" : "nothing stored" };
  },
};
for await (const line of createInterface({ input: process.stdin })) {
  let out;
  try {
    const q = JSON.parse(line);
    out = await ops[q.op](q);
  } catch (e) {
    out = e instanceof Unsupported ? { skip: e.message } : { err: `exception: ${e && e.message}` };
  }
  process.stdout.write(JSON.stringify(out) + "\n");
}
