// The functions generated TypeScript imports from "polyglot", over the repository's Encoder, Decoder and Kind: each takes the
// bytes so far and gives the bytes after it, so the generated code has to pass every result on.
import { Decoder, Encoder, Kind } from "@polyglot/index";

export { Kind };

// spare room behind the bytes handed out last, so that appending does not copy everything every time
let store = new Uint8Array(1 << 16);
let used = 0;

function append(buf: Uint8Array, item: Uint8Array): Uint8Array {
  if (!(buf instanceof Uint8Array)) throw new Error("SHIM: an encoder function got no buffer");
  const n = buf.length + item.length;
  if (buf.buffer === store.buffer && buf.byteOffset === 0 && buf.length === used && n <= store.length) {
    store.set(item, used);
  } else {
    const s = new Uint8Array(Math.max(1 << 12, 2 * n));
    s.set(buf);
    s.set(item, buf.length);
    store = s;
  }
  used = n;
  return store.subarray(0, n);
}

function enc(buf: Uint8Array, f: (e: Encoder) => Encoder): Uint8Array {
  return append(buf, f(new Encoder(new Uint8Array(16))).bytes);
}

function dec<T>(buf: Uint8Array, f: (d: Decoder) => T): { value: T; buf: Uint8Array } {
  if (!(buf instanceof Uint8Array)) throw new Error("SHIM: a decoder function got no buffer");
  const d = new Decoder(buf);
  const value = f(d);
  return { value, buf: buf.subarray(buf.length - d.length) };
}

function num(v: unknown): asserts v is number {
  if (typeof v !== "number") throw new Error(`SHIM: ${typeof v} instead of number`);
}

export const encodeNull = (b: Uint8Array) => enc(b, (e) => e.null());
export const encodeBoolean = (b: Uint8Array, v: boolean) => enc(b, (e) => e.boolean(v));
export const encodeUint8 = (b: Uint8Array, v: number) => enc(b, (e) => e.uint8(v));
export const encodeUint16 = (b: Uint8Array, v: number) => enc(b, (e) => e.uint16(v));
export const encodeUint32 = (b: Uint8Array, v: number) => { num(v); return enc(b, (e) => e.uint32(v)); };
export const encodeUint64 = (b: Uint8Array, v: bigint) => enc(b, (e) => e.uint64(v));
export const encodeInt32 = (b: Uint8Array, v: number) => { num(v); return enc(b, (e) => e.int32(v)); };
export const encodeInt64 = (b: Uint8Array, v: bigint) => enc(b, (e) => e.int64(v));
export const encodeFloat32 = (b: Uint8Array, v: number) => { num(v); return enc(b, (e) => e.float32(v)); };
export const encodeFloat64 = (b: Uint8Array, v: number) => { num(v); return enc(b, (e) => e.float64(v)); };
export const encodeString = (b: Uint8Array, v: string) => enc(b, (e) => e.string(v));
export const encodeBytes = (b: Uint8Array, v: Uint8Array) => enc(b, (e) => e.uint8Array(v));
export const encodeError = (b: Uint8Array, v: Error) => enc(b, (e) => e.error(v));
export const encodeArray = (b: Uint8Array, n: number, kind: Kind) => { num(kind); return enc(b, (e) => e.array(n, kind)); };
export const encodeMap = (b: Uint8Array, n: number, key: Kind, value: Kind) => { num(key); num(value); return enc(b, (e) => e.map(n, key, value)); };

export const decodeNull = (b: Uint8Array) => dec(b, (d) => d.null());
export const decodeBoolean = (b: Uint8Array) => dec(b, (d) => d.boolean());
export const decodeUint8 = (b: Uint8Array) => dec(b, (d) => d.uint8());
export const decodeUint16 = (b: Uint8Array) => dec(b, (d) => d.uint16());
export const decodeUint32 = (b: Uint8Array) => dec(b, (d) => d.uint32());
export const decodeUint64 = (b: Uint8Array) => dec(b, (d) => d.uint64());
export const decodeInt32 = (b: Uint8Array) => dec(b, (d) => d.int32());
export const decodeInt64 = (b: Uint8Array) => dec(b, (d) => d.int64());
export const decodeFloat32 = (b: Uint8Array) => dec(b, (d) => d.float32());
export const decodeFloat64 = (b: Uint8Array) => dec(b, (d) => d.float64());
export const decodeString = (b: Uint8Array) => dec(b, (d) => d.string());
export const decodeBytes = (b: Uint8Array) => dec(b, (d) => d.uint8Array());
export const decodeError = (b: Uint8Array) => dec(b, (d) => d.error());

// The kinds of the elements are not passed to these: they take what the bytes say.
export const decodeArray = (b: Uint8Array) => {
  const r = dec(b, (d) => d.array(b[1] as Kind));
  return { size: r.value, buf: r.buf };
};
export const decodeMap = (b: Uint8Array) => {
  const r = dec(b, (d) => d.map(b[1] as Kind, b[2] as Kind));
  return { size: r.value, buf: r.buf };
};
