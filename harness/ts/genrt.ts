// Runs generated TypeScript classes under the line protocol of the monitor.
import * as readline from "node:readline";
import * as fs from "node:fs";
import { types } from "@gen/registry";

// A field: property name, how it holds values (1 single, 2 list, 3 map), type, key type, message name.
type Field = [string, number, number, number, string];
type Type = { cls: any; fields: Field[] };

const T: Record<string, Type> = types;

const f32 = (s: string) => { const d = new DataView(new ArrayBuffer(4)); d.setUint32(0, parseInt(s, 16)); return d.getFloat32(0); };
const f64 = (s: string) => { const d = new DataView(new ArrayBuffer(8)); d.setBigUint64(0, BigInt(`0x${s}`)); return d.getFloat64(0); };
const hex32 = (v: number) => { const d = new DataView(new ArrayBuffer(4)); d.setFloat32(0, v); return d.getUint32(0).toString(16).padStart(8, "0"); };
const hex64 = (v: number) => { const d = new DataView(new ArrayBuffer(8)); d.setFloat64(0, v); return d.getBigUint64(0).toString(16).padStart(16, "0"); };

class Toks {
  at = 0;
  constructor(readonly t: string[]) {}
  next() { this.at += 1; return this.t[this.at - 1]; }
}

// protobuf type numbers
function scalar(t: number, s: string): unknown {
  switch (t) {
    case 1: return f64(s);
    case 2: return f32(s);
    case 8: return s === "1";
    case 9: return Buffer.from(s.slice(1), "hex").toString("utf8");
    case 12: return new Uint8Array(Buffer.from(s.slice(1), "hex"));
    case 3: case 4: case 6: case 16: case 18: return BigInt(s);
    default: return Number(s);
  }
}

function want(ok: boolean, v: unknown, what: string) {
  if (!ok) throw new Error(`DUMP: ${typeof v} instead of ${what}`);
}

function dumpScalar(t: number, v: any): string {
  switch (t) {
    case 1: want(typeof v === "number", v, "number"); return hex64(v);
    case 2: want(typeof v === "number", v, "number"); return hex32(v);
    case 8: want(typeof v === "boolean", v, "boolean"); return v ? "1" : "0";
    case 9: want(typeof v === "string", v, "string"); return `x${Buffer.from(v, "utf8").toString("hex")}`;
    case 12: want(v instanceof Uint8Array, v, "Uint8Array"); return `x${Buffer.from(v.buffer, v.byteOffset, v.length).toString("hex")}`;
    case 3: case 4: case 6: case 16: case 18: want(typeof v === "bigint", v, "bigint"); return v.toString();
    default: want(typeof v === "number", v, "number"); return v.toString();
  }
}

let turn = 0;

function build(t: Type, k: Toks): any {
  if (k.next() !== "(") throw new Error("BUILD: no message");
  const one = (n: number, m: string) => (n === 11 ? build(T[m], k) : scalar(n, k.next()));
  const args = t.fields.map(([, how, n, key, m]) => {
    if (how === 1) return one(n, m);
    const c = Number(k.next().slice(1));
    if (how === 2) {
      const a: unknown[] = [];
      for (let i = 0; i < c; i += 1) a.push(one(n, m));
      return a;
    }
    const a = new Map();
    for (let i = 0; i < c; i += 1) {
      const x = one(key, "");
      a.set(x, one(n, m));
    }
    return a;
  });
  turn += 1;
  const { cls: C } = t;
  if (turn % 2 === 0) return new C(...args);
  // the same through the setters, in reverse
  const v = new C(...args.map(() => undefined));
  for (let i = args.length - 1; i >= 0; i -= 1) v[t.fields[i][0]] = args[i];
  return v;
}

function dump(t: Type, v: any, o: string[]) {
  want(v instanceof t.cls, v, "an instance of the class");
  o.push("(");
  const one = (n: number, m: string, x: any, to: string[]) => { if (n === 11) dump(T[m], x, to); else to.push(dumpScalar(n, x)); };
  t.fields.forEach(([name, how, n, key, m]) => {
    const x = v[name];
    if (how === 1) { one(n, m, x, o); return; }
    if (how === 2) {
      want(Array.isArray(x), x, "array");
      o.push(`[${x.length}`);
      x.forEach((e: any) => one(n, m, e, o));
      return;
    }
    want(x instanceof Map, x, "Map");
    const es: [string, string][] = [];
    x.forEach((e: any, k: any) => {
      const eo: string[] = [];
      one(n, m, e, eo);
      es.push([dumpScalar(key, k), eo.join(" ")]);
    });
    es.sort((a, b) => (`${a[0]} ` < `${b[0]} ` ? -1 : 1));
    o.push(`{${es.length}`);
    es.forEach((e) => o.push(e[0], e[1]));
  });
}

const hex = (b: Uint8Array) => Buffer.from(b.buffer, b.byteOffset, b.length).toString("hex");
const line1 = (e: unknown) => String((e as Error)?.stack ?? e).split("\n").slice(0, 4).join(" | ");

// Messages and raw bytes ("#") written behind one another and read again in turn. The answer: the bytes and where each part ends.
function sequence(f: string[]): string {
  const ends: number[] = [];
  const texts: string[] = [];
  const show = (t: Type, v: any) => { const o: string[] = []; dump(t, v, o); return o.join(" "); };
  let b = new Uint8Array(0);
  for (let i = 0; i < f.length; i += 2) {
    const raw = f[i + 1] === "-" ? Buffer.alloc(0) : Buffer.from(f[i + 1], "hex");
    const before = hex(b);
    let next: Uint8Array;
    if (f[i] === "#") {
      next = new Uint8Array(b.length + raw.length);
      next.set(b);
      next.set(raw, b.length);
      texts.push("");
    } else {
      const t = T[f[i]];
      if (!t) throw new Error(`no type ${f[i]}`);
      const { value } = t.cls.decode(new Uint8Array(raw));
      texts.push(show(t, value));
      next = value.encode(b);
    }
    if (hex(b) !== before || hex(next).slice(0, before.length) !== before) return `!part ${i / 2} changed what was there`;
    b = new Uint8Array(next);
    ends.push(b.length);
  }
  const whole = hex(b);
  let rest: Uint8Array = b;
  for (let i = 0; i < f.length; i += 2) {
    if (f[i] === "#") {
      rest = b.subarray(ends[i / 2]);
    } else {
      const t = T[f[i]];
      const r = t.cls.decode(rest);
      if (show(t, r.value) !== texts[i / 2]) return `!part ${i / 2} is read as ${show(t, r.value)} instead of ${texts[i / 2]}`;
      rest = r.buf;
      if (rest.length !== b.length - ends[i / 2]) return `!after part ${i / 2} was read ${rest.length} bytes are left instead of ${b.length - ends[i / 2]}`;
    }
  }
  if (hex(b) !== whole) return "!decoding changed its input";
  return `S${whole} ${ends.join(",")}`;
}

function command(f: string[]): string {
  if (f[0] === "S") return sequence(f.slice(2));
  const t = T[f[2]];
  if (!t) throw new Error(`no type ${f[2]}`);
  switch (f[0]) {
    case "E": {
      const v = build(t, new Toks(f.slice(3)));
      const pre = new Uint8Array([turn & 255, 7, 9].slice(0, turn % 4));
      const b = v.encode(pre);
      if (hex(b.subarray(0, pre.length)) !== hex(pre)) return "?the bytes before the message changed";
      return `=${hex(b.subarray(pre.length))}`;
    }
    case "P": {
      const src = f[3] === "-" ? Buffer.alloc(0) : Buffer.from(f[3], "hex");
      const store = new Uint8Array(src.length + 30).fill(0xc3);
      store.set(src, 11);
      const before = hex(store);
      let r;
      try {
        turn += 1; // what Node's files and sockets give is a Buffer
        const view = store.subarray(11, 11 + src.length);
        r = t.cls.decode(turn % 3 === 0 ? Buffer.from(store.buffer, 11, src.length) : view);
      } catch (e) {
        const n = (e as Error)?.constructor?.name ?? "";
        return /^_?Invalid\w+Error\d*$/.test(n) ? `!0 ${n}` : `P:${line1(e)}`;
      }
      if (hex(store) !== before) return "?the input changed";
      const o: string[] = [];
      dump(t, r.value, o);
      const again = hex(r.value.encode(new Uint8Array(0)));
      store.fill(0x3c);
      const o2: string[] = [];
      dump(t, r.value, o2);
      if (o.join(" ") !== o2.join(" ")) return "?the message changed with its input";
      return `+0 ${o.join(" ")} =${again}@${src.length - r.buf.length}`;
    }
    case "L": {
      // messages that never come twice, dropped at once: by how much what is alive grew in each of three stretches
      const rounds = Number(f[3]);
      const pad = Number(f[4]);
      let n = 0;
      const stretch = (k: number) => {
        for (; k > 0; k -= 1) {
          n += 1;
          const more = Buffer.from(String(n).padStart(8, "0").repeat(pad / 8 + 1).slice(0, pad)).toString("hex");
          const v = build(t, new Toks(f.slice(5).map((s) => (s[0] === "x" ? s + more : s))));
          const b = v.encode(new Uint8Array(0));
          t.cls.decode(b);
          try { t.cls.decode(b.subarray(0, (n * 7919) % Math.max(1, b.length))); } catch { /* expected */ }
        }
      };
      const live = () => {
        let best = Infinity;
        for (let k = 0; k < 3; k += 1) {
          (globalThis as any).gc();
          const m = process.memoryUsage();
          best = Math.min(best, m.heapUsed + m.external);
        }
        return best;
      };
      stretch((rounds >> 2) + 1);
      let last = live();
      const grown: number[] = [];
      for (let k = 0; k < 3; k += 1) {
        stretch(rounds);
        const now = live();
        grown.push(now - last);
        last = now;
      }
      return `L${grown.join(",")}`;
    }
    default: throw new Error(`no command ${f[0]}`);
  }
}

const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
rl.on("line", (line) => {
  const f = line.split(" ").filter((x) => x.length > 0);
  if (f.length < 3) return;
  let r: string;
  try {
    r = command(f);
  } catch (e) {
    r = `P:${line1(e)}`;
  }
  const out = Buffer.from(`${f[1]} ${r}\n`);
  for (let at = 0; at < out.length;) at += fs.writeSync(1, out, at);
});
