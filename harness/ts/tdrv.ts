// The TypeScript implementation under the line protocol of the monitor.
import * as P from "@polyglot/index";
import * as readline from "node:readline";
import * as fs from "node:fs";

const unhex = (s: string) => new Uint8Array(s === "-" || s === "" ? Buffer.alloc(0) : Buffer.from(s, "hex"));
const hex = (b: Uint8Array) => Buffer.from(b.buffer, b.byteOffset, b.length).toString("hex");

function digest(b: Uint8Array): string {
  let h1 = 2166136261 | 0;
  let h2 = 84696351 | 0;
  for (let i = 0; i < b.length; i += 1) {
    h1 = Math.imul(h1 ^ b[i], 16777619);
    h2 = Math.imul(h2 ^ b[i], 16777619);
    h2 = (h2 << 5) | (h2 >>> 27);
  }
  const h = (x: number) => (x >>> 0).toString(16).padStart(8, "0");
  return `#${b.length}:${h(h1)}:${h(h2)}`;
}

function pattern(n: number, seed: number, ascii: boolean): Uint8Array {
  const b = new Uint8Array(n);
  let x = (Math.imul(seed, 2654435761 | 0) + 1) | 0;
  const wide = ascii && seed >= 200;
  for (let i = 0; i < n; ) {
    x = (Math.imul(x, 1664525) + 1013904223) | 0;
    const c = x >>> 24;
    const room = n - i;
    if (wide && c % 3 === 0 && room >= 2) {
      b[i++] = 0xc3;
      b[i++] = 0x80 + (c % 64);
    } else if (wide && c % 7 === 0 && room >= 3) {
      b[i++] = 0xe4;
      b[i++] = 0xb8;
      b[i++] = 0x80 + (c % 64);
    } else if (wide && c % 11 === 0 && room >= 4) {
      b[i++] = 0xf0;
      b[i++] = 0x9f;
      b[i++] = 0x98;
      b[i++] = 0x80 + (c % 64);
    } else b[i++] = ascii ? 97 + (c % 26) : c;
  }
  return b;
}

const dataText = (c: string, b: Uint8Array) => c + (b.length > 4096 ? digest(b) : hex(b));
const text = (b: Uint8Array) => new TextDecoder("utf-8", { fatal: true, ignoreBOM: true }).decode(b);

const fbits = (s: string) => {
  const d = new DataView(new ArrayBuffer(4));
  d.setUint32(0, parseInt(s, 16));
  return d.getFloat32(0);
};
const dbits = (s: string) => {
  const d = new DataView(new ArrayBuffer(8));
  d.setBigUint64(0, BigInt(`0x${s}`));
  return d.getFloat64(0);
};

// errors of every make whose message is the given one and nothing else about them is
class Named extends Error {
  name = "Named";
  code = 7;
  toString() { return "as a string"; }
  toJSON() { return "as JSON"; }
}
class Computed extends Error {
  constructor(private readonly text: string) { super("given to the constructor"); Object.defineProperty(this, "message", { get: () => this.text }); }
}
function errorOf(t: string): Error {
  const n = t.length + (t.length > 0 ? t.charCodeAt(t.length >> 1) : 0);
  switch (n % 8) {
    case 0: return new Error(t);
    case 1: return new TypeError(t);
    case 2: return new Named(t);
    case 3: return Object.assign(new Error(t), { cause: new Error("inner") });
    case 4: return Object.assign(new RangeError(t), { cause: "a text" });
    case 5: return new AggregateError([new Error("first"), new Error("second")], t);
    case 6: return new Computed(t);
    default: { const e = new Error(t); e.stack = undefined; return e; }
  }
}

function encode(e: P.Encoder, t: string) {
  const a = t.slice(1).split(",");
  const n = Number(a[0]);
  switch (t[0]) {
    case "n": return e.null();
    case "y": return e.any();
    case "a": return e.array(Number(a[1]), n);
    case "m": return e.map(Number(a[2]), n, Number(a[1]));
    case "x": {
      // a view in the middle of a larger store
      const d = unhex(a[0]);
      const { all: big, view } = place(3, d.length, 4, (k) => (k >= 3 && k < 3 + d.length ? d[k - 3] : 0xee));
      e.uint8Array(view);
      if (hex(big.subarray(3, 3 + d.length)) !== hex(d) || big[0] !== 0xee || big[big.length - 1] !== 0xee) {
        throw new Error("argument changed");
      }
      big.fill(0x44); // the caller goes on to use its array
      return e;
    }
    case "X": return e.uint8Array(pattern(n, Number(a[1]), false));
    case "s": return e.string(text(unhex(a[0])));
    case "S": return e.string(text(pattern(n, Number(a[1]), true)));
    case "e": return e.error(errorOf(text(unhex(a[0]))));
    case "R": return e.error(errorOf(text(pattern(n, Number(a[1]), true))));
    case "b": return e.boolean(n === 1);
    case "u": return e.uint8(n);
    case "v": return e.uint16(n);
    case "w": return e.uint32(n);
    case "q": return e.uint64(BigInt(a[0]));
    case "i": return e.int32(n);
    case "l": return e.int64(BigInt(a[0]));
    case "f": return e.float32(fbits(a[0]));
    case "d": return e.float64(dbits(a[0]));
    default: throw new Error("op");
  }
}

const errs: [string, new () => Error][] = [
  ["a", P.InvalidArrayError], ["m", P.InvalidMapError], ["x", P.InvalidUint8ArrayError], ["s", P.InvalidStringError],
  ["e", P.InvalidErrorError], ["b", P.InvalidBooleanError], ["u", P.InvalidUint8Error], ["v", P.InvalidUint16Error],
  ["w", P.InvalidUint32Error], ["q", P.InvalidUint64Error], ["i", P.InvalidInt32Error], ["l", P.InvalidInt64Error],
  ["f", P.InvalidFloat32Error], ["d", P.InvalidFloat64Error],
];

function num(c: string, v: unknown, big: boolean): string {
  if (typeof v !== (big ? "bigint" : "number")) return `?type-${typeof v}`;
  if (Object.is(v, -0)) return `${c}-0`;
  return c + String(v);
}

function decode(d: P.Decoder, t: string): unknown {
  const a = t.slice(1).split(",").map(Number);
  switch (t[0]) {
    case "n": return d.null();
    case "y": return d.any();
    case "a": return d.array(a[0]);
    case "m": return d.map(a[0], a[1]);
    case "x": return d.uint8Array();
    case "s": return d.string();
    case "e": return d.error();
    case "b": return d.boolean();
    case "u": return d.uint8();
    case "v": return d.uint16();
    case "w": return d.uint32();
    case "q": return d.uint64();
    case "i": return d.int32();
    case "l": return d.int64();
    case "f": return d.float32();
    case "d": return d.float64();
    default: throw new Error("req");
  }
}

function show(t: string, v: unknown): string {
  const c = t[0];
  switch (c) {
    case "n": case "y": case "b":
      return typeof v === "boolean" ? `${c}${v ? 1 : 0}` : `?type-${typeof v}`;
    case "x": return v instanceof Uint8Array ? dataText("x", v) : `?type-${typeof v}`;
    case "s": return typeof v === "string" ? dataText("s", new TextEncoder().encode(v)) : `?type-${typeof v}`;
    case "e": return v instanceof Error ? dataText("e", new TextEncoder().encode(v.message)) : `?type-${typeof v}`;
    case "f": {
      if (typeof v !== "number") return `?type-${typeof v}`;
      const d = new DataView(new ArrayBuffer(4));
      d.setFloat32(0, v);
      return `f${d.getUint32(0).toString(16).padStart(8, "0")}`;
    }
    case "d": {
      if (typeof v !== "number") return `?type-${typeof v}`;
      const d = new DataView(new ArrayBuffer(8));
      d.setFloat64(0, v);
      return `d${d.getBigUint64(0).toString(16).padStart(16, "0")}`;
    }
    default: return num(c, v, c === "q" || c === "l");
  }
}

const oneLine = (e: unknown) => String(e).split(/\s+/).join("_");

class Fail { constructor(readonly e: unknown) {} }

function attempt(d: P.Decoder, t: string): unknown {
  try {
    return decode(d, t);
  } catch (e) {
    return new Fail(e);
  }
}

function render(t: string, v: unknown): string {
  if (v instanceof Fail) {
    const m = errs.find(([, E]) => v.e instanceof E);
    return m ? `!${m[0]}` : `?${oneLine(v.e)}`;
  }
  return show(t, v);
}

// The bytes given to a decoder or encoder, in every make a caller can have them: all of an array, the middle of a larger one, what
// Node's files and sockets give, which is an array whose own methods share its bytes, and arrays that can be resized.
class Callers extends Uint8Array {}

let made = 0;

interface Store { all: Uint8Array; view: Uint8Array; lo: number; hi: number }

function place(before: number, n: number, after: number, fill: (k: number) => number): Store {
  const size = before + n + after;
  let all: Uint8Array;
  let view: Uint8Array;
  made += 1;
  switch (made % 6) {
    case 0: all = new Uint8Array(size); view = all.subarray(before, before + n); break;
    case 1: all = Buffer.alloc(size); view = all.subarray(before, before + n); break;
    case 2: { const b = Buffer.allocUnsafe(size); all = b; view = Buffer.from(b.buffer, b.byteOffset + before, n); break; }
    case 3: all = new Uint8Array(new (ArrayBuffer as any)(size, { maxByteLength: size + 64 })); view = all.subarray(before, before + n); break;
    case 4: { const c = new Callers(size); all = c; view = c.subarray(before, before + n); break; }
    default: { const b = Buffer.alloc(size); all = b; view = new Uint8Array(b.buffer, b.byteOffset + before, n); break; }
  }
  for (let k = 0; k < size; k += 1) all[k] = fill(k);
  return { all, view, lo: before, hi: before + n };
}

function memory() {
  const m = process.memoryUsage();
  return m.arrayBuffers + m.heapUsed;
}

function command(f: string[]): string {
  switch (f[0]) {
    case "E": {
      let e: P.Encoder;
      let i = 2;
      let check = () => "";
      const init = f[2] !== undefined && f[2][0] === "I" ? f[i++] : "I-";
      const a = init.slice(2).split(",").map(Number);
      if (init[1] === "z") e = new P.Encoder(new Uint8Array(a[0]));
      else if (init[1] === "b") {
        const store = place(a[0], a[2], a[3], () => 0xa5);
        e = new P.Encoder(store.view);
        check = () => (store.all.some((c, k) => (k < store.lo || k >= store.hi) && c !== 0xa5) ? "?storage" : "");
      } else e = new P.Encoder();
      for (; i < f.length; i += 1) encode(e, f[i]);
      const bad = check();
      if (bad) return bad;
      const b = e.bytes;
      return b.length > 65536 ? digest(b) : `=${hex(b)}`;
    }
    case "D": {
      // the input is a view in the middle of a larger store; the decoder must stay inside it
      const src = unhex(f[2]);
      const at = (src.length * 7) % 16;
      const store = place(at, src.length, 24, (k) => (k >= at && k < at + src.length ? src[k - at] : k));
      const before = hex(store.all);
      const d = new P.Decoder(store.view);
      const out: string[] = [];
      for (let i = 3; i < f.length; i += 1) {
        out.push(render(f[i], attempt(d, f[i])));
      }
      if (hex(store.all) !== before) out.push("?input-changed");
      return out.join(" ");
    }
    case "A": {
      const d = new P.Decoder(unhex(f[2]));
      const out: unknown[] = [];
      const m0 = memory();
      for (let i = 3; i < f.length; i += 1) out.push(attempt(d, f[i]));
      const m1 = memory();
      return `${out.map((v, k) => render(f[k + 3], v)).join(" ")} @${Math.max(0, m1 - m0)}`;
    }
    case "O": {
      const b = unhex(f[2]);
      const store = place(3, b.length, 5, (k) => (k >= 3 && k < 3 + b.length ? b[k - 3] : k));
      const d = new P.Decoder(store.view);
      const out: unknown[] = [];
      for (let i = 3; i < f.length; i += 1) out.push(attempt(d, f[i]));
      store.all.fill(0xee);
      return out.map((v, k) => render(f[k + 3], v)).join(" ");
    }
    case "R": {
      const e = new P.Encoder();
      encode(e, f[2]);
      e.uint8(77);
      const b = e.bytes;
      const d = new P.Decoder(b);
      const c = f[2][0];
      const q = c === "R" ? "e" : c === "a" ? f[2].split(",")[0] : c === "m" ? f[2].split(",").slice(0, 2).join(",") : c.toLowerCase();
      return `=${hex(b.subarray(0, 16))} ${digest(b)} ${[q, "u", "u"].map((t) => render(t, attempt(d, t))).join(" ")}`;
    }
    default: return "";
  }
}

// Uses the library again and again with values that never come twice: what is alive afterwards is what was before.
function keep(seed: number, n: number) {
  const say = (o: object) => fs.writeSync(1, `${JSON.stringify(o)}\n`);
  let x = (seed * 2654435761 + 1) | 0;
  const next = () => { x ^= x << 13; x ^= x >>> 17; x ^= x << 5; return x >>> 0; };
  const live = () => {
    let best = Infinity;
    for (let k = 0; k < 3; k += 1) {
      (globalThis as any).gc();
      const m = process.memoryUsage();
      best = Math.min(best, m.heapUsed + m.external);
    }
    return best;
  };
  let rounds = 0;
  for (const c of "nyamxsebuvwqilfd") {
    for (const size of [40, 700, 70000]) {
      const data = "xse".includes(c);
      if (size > 40 && !data) continue;
      const per = size > 10000 ? Math.ceil(n / 20) : n;
      const stretch = (count: number) => {
        for (let k = 0; k < count; k += 1) {
          rounds += 1;
          const r = next();
          const len = (size >> 1) + (r % (size >> 1));
          const b32 = BigInt(r) * 4294967291n + BigInt(rounds);
          let tok = c;
          switch (c) {
            case "n": case "y": break;
            case "a": tok = `a${r & 15},${next()}`; break;
            case "m": tok = `m${r & 15},${(r >> 4) & 15},${next()}`; break;
            case "x": tok = `X${len},${r >>> 24}`; break;
            case "s": tok = `S${len},${r >>> 24}`; break;
            case "e": tok = `R${len},${r >>> 24}`; break;
            case "b": tok = `b${r & 1}`; break;
            case "u": tok = `u${r >>> 24}`; break;
            case "v": tok = `v${r >>> 16}`; break;
            case "w": tok = `w${r}`; break;
            case "q": tok = `q${BigInt.asUintN(64, b32)}`; break;
            case "i": tok = `i${r | 0}`; break;
            case "l": tok = `l${BigInt.asIntN(64, b32)}`; break;
            case "f": tok = `f${(r & 0x7f7fffff).toString(16).padStart(8, "0")}`; break;
            default: tok = `d${(b32 & 0x7fefffffffffffffn).toString(16).padStart(16, "0")}`;
          }
          const e = r % 3 === 0 ? new P.Encoder() : new P.Encoder(new Uint8Array(r % 50));
          encode(e, tok);
          e.uint32(r);
          const b = e.bytes;
          const q = c === "a" ? tok.split(",")[0] : c === "m" ? tok.split(",").slice(0, 2).join(",") : c;
          const d = new P.Decoder(b);
          decode(d, q);
          if (d.uint32() !== r) say({ violation: `${tok} does not decode in order` });
          const f = new P.Decoder(b.subarray(0, r % b.length));
          for (const w of [q, "s", "e", "x", "w"]) attempt(f, w);
        }
      };
      stretch((per >> 2) + 1);
      let last = live();
      let least = Infinity;
      let base = last;
      for (let k = 0; k < 3; k += 1) {
        stretch(per);
        const now = live();
        least = Math.min(least, now - last);
        last = now;
        if (least < 100000) break;
      }
      if (least > 150000) say({ violation: `after everything was dropped, every ${per} rounds of ${c} up to ${size} bytes leave ${least} bytes more alive (${last - base} after all)` });
      say({ note: `${c} up to ${size} bytes` });
      // small values of large inputs (what the engine's stack traces hold is not the library's: no errors)
      if (!data || c === "e" || size < 700) continue;
      const held: unknown[] = [];
      const count = size > 10000 ? 300 : 3000;
      base = live();
      for (let k = 0; k < count; k += 1) {
        const e = new P.Encoder();
        encode(e, `${c}${Buffer.from(`held ${k} 16 bytes`).toString("hex")}`);
        e.uint8Array(pattern(size, k & 255, false));
        const d = new P.Decoder(e.bytes);
        held.push(decode(d, c));
      }
      const used = live() - base;
      if (used > count * 3000 + 300000 && used > (count * size) / 3) say({ violation: `${count} values ${c} of 16 bytes from inputs of ${size} bytes keep ${used} bytes alive` });
      if (held.length !== count) throw new Error("held");
      say({ note: `${c} held from inputs of ${size} bytes` });
    }
  }
  say({ counts: { "rounds of use": rounds }, done: true });
}

if (process.argv[2] === "keep") {
  keep(Number(process.argv[3]), Number(process.argv[4]));
  process.exit(0);
}

const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
rl.on("line", (line) => {
  const f = line.split(" ").filter((x) => x.length > 0);
  if (f.length < 2) return;
  let r: string;
  try {
    r = command(f);
  } catch (e) {
    r = `P:${oneLine(e)}`;
  }
  const line2 = Buffer.from(`${f[1]} ${r}\n`);
  for (let at = 0; at < line2.length;) at += fs.writeSync(1, line2, at);
});
