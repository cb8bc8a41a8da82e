"use strict";
// Engine self-test: JavaScript snippets over symbolic inputs; every path's observation is compared with a native run.
// node engine/main.js dev/selftest.js -v
const S = {
  loops: (s, t, n) => { let o = ""; for (let i = 0; i < s.length; i++) o = s[i] + o; let k = 0; while (k < n) { k++; if (k === 2) continue; o += k; } do { k--; } while (k > 0); return [o, k]; },
  forof: (s) => { const out = []; for (const c of s) out.push(c); for (const [i, c] of [...s].entries()) out.push(i + c); return out; },
  labeled: (s, t) => { let r = 0; outer: for (const a of s) { for (const b of t) { if (a === b) { r++; continue outer; } if (b === "x") break outer; } } return r; },
  switchs: (s, t, n) => { switch (s) { case "a": return 1; case t: return 2; case "b": case "c": n++; break; default: n += 10; } return n; },
  destruct: (s, t, n) => { const { a = 5, b: { c, ...d }, ...e } = { b: { c: s, x: t, y: 1 }, z: n }; const [f, , g = "d", ...hh] = [s, t, undefined, n, 2]; return [a, c, d, e, f, g, hh]; },
  spread: (s, t, n) => [...s, ...[t], ...new Set([s, t, s]), Math.max(...[1, n, 2]), { ...{ a: s }, ...(n > 0 && { b: t }), ...null }],
  closures: (s, t, n) => { const mk = (x) => () => x++; const f = mk(n); f(); return [f(), f()]; },
  gens: (s, t, n) => { function* g() { let i = 0; while (i < n) { const r = yield i++ + s; if (r) return r; } return t; } const it = g(); const a = [...g()]; return [a, it.next(), it.next("q"), it.next()]; },
  classes: (s, t, n) => { class A { #p = s; static z = 3; q = n; constructor(x) { this.x = x; } get p() { return this.#p + this.x; } set p(v) { this.#p = v; } m() { return "A" + this.x; } static make(x) { return new this(x); } #h() { return 1; } hh() { return this.#h(); } } class B extends A { m() { return super.m() + "B"; } } const b = B.make(t); b.p = "k" + s; return [b.p, b.m(), b.hh(), b instanceof A, B.z, b.q, Object.keys(b)]; },
  trys: (s, t, n) => { const log = []; const f = () => { try { if (n === 1) throw new Error(s); if (n === 2) return "r"; log.push("a"); } catch (e) { log.push(e.message); return "c"; } finally { log.push("f"); } return "e"; }; return [f(), log]; },
  asyncs: async (s, t, n) => { const log = []; const d = async (x) => { await null; log.push(x); if (n === 1) throw new Error(x); return x; }; const r = await Promise.allSettled([d(s), d(t)]); const q = await Promise.race([d("z").catch(() => "cz"), new Promise(() => {})]); let z; try { z = await Promise.all([d("1"), 2]); } catch (e) { z = e.message; } return [r.map((x) => x.status + (x.value ?? x.reason.message)), q, z, log]; },
  asyncgen: async (s, t, n) => { async function* g() { for (let i = 0; i < n; i++) { await null; yield s + i; } } const o = []; for await (const x of g()) o.push(x); for await (const x of [Promise.resolve(t)]) o.push(x); return o; },
  optional: (s, t, n) => { const o = n === 0 ? null : n === 1 ? { f: () => s, g: { h: t } } : undefined; return [o?.f?.(), o?.g.h, o?.["x"]?.y.z, o?.q?.(1) ?? t]; },
  logical: (s, t, n) => { let a = s, b = null, c = 0; a ||= t; b ??= n; c &&= 5; return [a, b, c, s && t, s || n, !s, !!t, s ? 1 : 2, null ?? s]; },
  strops: (s, t) => [s.toUpperCase(), t.toLowerCase(), s.trim(), s.trimStart(), s.trimEnd(), s.length, s.charAt(0), s.charCodeAt(0), s.at(-1), s.slice(1), s.slice(-1), s.substring(1, 0), s.substr(0, 1), s.concat(t, "!"), s.repeat(2), s.padStart(3, "-"), s.padEnd(3)],
  strsearch: (s, t) => [s.includes(t), s.startsWith(t), s.endsWith(t), s.indexOf(t), s.lastIndexOf(t), s.indexOf("b", 1), s === t, s < t, s.localeCompare(s), s.startsWith("a", 1), s.search(/b/)],
  split: (s, t) => [s.split(""), s.split("a"), s.split(","), s.split(/b/), s.split(""). reverse().join(""), [s, t].join("/"), s.split("a", 1)],
  replace: (s, t) => [s.replace("a", t), s.replaceAll("a", "$&x"), s.replace(/a/g, "z"), s.replace(/[ab]/g, (m) => m + m), s.replace(/(a)(b)?/, "$2$1"), s.replaceAll(/b/g, () => t), s.replace(/^\s+|\s+$/g, "")],
  regex: (s) => [/^a+$/.test(s), /^[^a]/.test(s), /b$/i.test(s), s.match(/a(.)/), /\d/.test(s), (s.match(/a/g) || []).length, /^(?:ab|ba)$/.exec(s)?.[0], /\bab\b/.test(s), /(?<x>a)/.exec(s)?.groups.x],
  matchall: (s) => { const r = [...s.matchAll(/[ab]/g)].map((m) => m[0] + m.index); const re = /a/g; let m; const k = []; while ((m = re.exec(s)) !== null) k.push(m.index, re.lastIndex); return [r, k]; },
  template: (s, t, n) => `${s}-${n}-${[s, t]}-${{}}-${null}-${n > 1}`,
  arrs: (s, t, n) => { const a = [s, t, n, "a"]; return [a.map((x) => x + "!"), a.filter((x) => x === "a"), a.find((x) => x === t), a.findIndex((x) => x === "a"), a.findLast((x) => x === s), a.some((x) => x === "b"), a.every((x) => x !== "q"), a.includes(s), a.indexOf("a"), a.lastIndexOf("a"), a.reduce((p, c) => p + c, ""), a.reduceRight((p, c) => p + c, ""), a.slice(1, 3), a.concat([1], 2), a.flat(), a.flatMap((x) => [x, x]), a.at(-1), a.join("|"), [...a].reverse(), Array.from(a, (x, i) => i + "" + x), Array.of(s), Array.isArray(a), a.entries().next().value]; },
  arrmut: (s, t, n) => { const a = [s]; a.push(t, n); a.unshift("u"); const p = a.pop(), q = a.shift(); a.splice(1, 0, "k", "l"); const r = a.splice(-1); a.fill("f", 1, 2); a.length = 2; a[3] = 1; delete a[0]; return [p, q, r, a.length, 0 in a, a[3], [3, 1, 2].sort((x, y) => y - x), [s, t].sort(), [..."ab"].copyWithin(0, 1)]; },
  objs: (s, t, n) => { const o = { [s]: 1, [t + "k"]: n, get g() { return s; }, m() { return this.g; } }; o.z = 2; delete o[t + "k"]; return [Object.keys(o), Object.values({ a: s }), Object.entries({ a: s, b: t }), s in o, "q" in o, Object.hasOwn(o, s), o.hasOwnProperty("z"), o.m(), Object.assign({}, { x: s }, null, { y: t }), Object.fromEntries([[s, 1], [t, 2]]), o[s]]; },
  forin: (s, t) => { const o = { [s]: 1, b2: 2 }; const k = []; for (const x in o) k.push(x); return k; },
  maps: (s, t, n) => { const m = new Map([[s, 1]]); m.set(t, 2); const st = new Set([s, t]); st.add("a"); const r = [m.get("a"), m.size, m.has(t), [...m.keys()], [...m.values()], [...m.entries()], st.has(s), st.size]; m.delete(s); st.delete("a"); m.forEach((v, k) => r.push(k, v)); const w = new WeakMap(); const key = {}; w.set(key, s); r.push(w.get(key), [...m].length, [...st]); return r; },
  json: (s, t, n) => { const j = JSON.stringify({ a: s, b: [t, n, null, undefined], c: undefined, d: { e: n > 1 } }); return [j, JSON.parse(j), JSON.stringify(s), JSON.stringify([s], null, 2), JSON.stringify({ a: 1, b: s }, (k, v) => (k === "a" ? undefined : v)), JSON.parse(JSON.stringify({ x: s }), (k, v) => (k === "x" ? v + "!" : v)), JSON.stringify(undefined)]; },
  nums: (s, t, n) => [n + 1, n - 1, n * 2, n / 2, n % 2, -n, n ** 2, n > 1, n >= 1, n < 1, n === 1, Math.min(n, 1), Math.abs(-n), Math.floor(n / 2), Math.ceil(n / 2), Math.round(n / 2), Math.trunc(n / 2), n & 1, n | 2, n << 1, n >> 1, n ^ 1, ~n, Number(String(n)), parseInt("1" + n, 10), String(n), n.toString(), Number.isInteger(n / 2), Number.isNaN(n), isFinite(n), +true, Math.sign(n), n.toString(16), (n + 0.5).toFixed(1), Number.isSafeInteger(n)],
  numparse: (s) => [Number(s), parseInt(s, 10), parseFloat(s), isNaN(s), +s, Number.parseInt("2" + s)],
  typeofs: (s, t, n) => [typeof s, typeof n, typeof (n > 1), typeof null, typeof undefined, typeof {}, typeof (() => 1), s instanceof String, s == null, s != undefined, s == t, n == "1", Object.is(s, t), Object(s).length, void 0],
  conv: (s, t, n) => [String(s), Boolean(s), Number(n), `${n}`, [s] + "", s + n, n + s, "" + true, String(null), String([s, [t]]), String({ toString: () => s })],
  dates: (s, t, n) => { const d = new Date(1700000000000 + n * 1000); return [d.getTime(), d.toISOString(), d.valueOf(), +d, new Date("2024-01-01T00:00:00Z").getTime(), d > new Date(0), JSON.stringify({ d }), Date.UTC(2020, 1, 1)]; },
  errors: (s, t) => { class E2 extends Error { constructor(m) { super(m); this.name = "E2"; } } const e = new E2(s); const c = new TypeError(t, { cause: e }); return [e.message, String(e), e instanceof Error, c.cause === e, c.name, e.stack !== undefined]; },
  args: (s, t, n) => { function f(a, b = a + "d", ...r) { return [arguments.length, a, b, r, this === undefined]; } return [f(s), f(s, t, n, 1), f.call({}, s), f.apply(null, [s, undefined]), f.bind(null, "q")(t), f.length, f.name]; },
  protos: (s) => { const p = { hi() { return this.v; } }; const o = Object.create(p, { v: { value: s, enumerable: true } }); return [o.hi(), Object.getPrototypeOf(o) === p, Object.getOwnPropertyNames(o), Object.isFrozen(Object.freeze({ a: s })), structuredClone({ a: [s] }), Object.getOwnPropertyDescriptor({ a: s }, "a").value]; },
  proxies: (s, t) => { const log = []; const p = new Proxy({ a: s }, { get: (o, k, r) => { log.push(String(k)); return Reflect.get(o, k, r); }, has: (o, k) => k === t || k in o, set: (o, k, v) => Reflect.set(o, k, v + "!") }); p.b = t; return [p.a, "a" in p, t in p, p.b, log]; },
  symbols: (s) => { const k = Symbol("k"); const o = { [k]: s, [Symbol.iterator]: function* () { yield s; yield 1; }, [Symbol.toPrimitive]: () => s }; return [o[k], [...o], `${o}`, Object.keys(o), k.description]; },
  encode: (s) => [encodeURIComponent(s), decodeURIComponent(encodeURIComponent(s)), btoa(s), atob(btoa(s)), Buffer.from(s).toString("base64"), Buffer.from(s, "utf8").toString("hex"), Buffer.from(s).length, new TextEncoder().encode(s).length, escape(s), encodeURI(s)],
  chars: (s, t, n) => [String.fromCharCode(97 + n), String.fromCodePoint(98, 99), s.codePointAt(0), [...s].map((c) => c.charCodeAt(0)), [...s].map((c) => c.codePointAt(0).toString(16).padStart(4, "0")).join("")],
  comma: (s, t, n) => { let i = 0; const r = (i++, i += n, i); for (let a = 0, b = 5; a < b; a += 2, b--) i += a; return [r, i, i++ + ++i, i--]; },
  getset: (s, t, n) => { const o = { a: { b: [s] } }; o.a.b[0] += t; o.a.c = o.a.c ?? n; o.a.c++; o["a"]["b"].push(o.a.c); const { a: { b: [x] } } = o; [o.p, o.q] = [s, t]; ({ x: o.r = 9 } = {}); return [o, x]; },
  reduceobj: (s, t, n) => ["a", s, t].reduce((acc, k, i) => { acc[k] = (acc[k] || 0) + i; return acc; }, {}),
  groupby: (s, t) => { const g = {}; for (const x of [s, t, "a"]) (g[x] ||= []).push(x); return g; },
  recursion: (s, t, n) => { const walk = (v) => (Array.isArray(v) ? v.map(walk) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k + s, walk(x)])) : typeof v === "string" ? v + t : v); return walk({ a: [s, { b: n }], c: null }); },
  timers: async (s, t, n, h) => { const log = []; const p = new Promise((r) => setTimeout(() => { log.push("t"); r(s); }, 10)); queueMicrotask(() => log.push("m")); Promise.resolve().then(() => log.push("p")); const st = await h.settle(p, { timers: true }); return [st, log]; },
  iter: (s, t, n) => { const it = { i: 0, next() { return this.i < n ? { value: s + this.i++, done: false } : { value: undefined, done: true }; }, return() { this.closed = true; return {}; }, [Symbol.iterator]() { return this; } }; const o = []; for (const x of it) { o.push(x); if (o.length === 2) break; } return [o, !!it.closed]; },
  tagged: (s, t) => { const tag = (st, ...v) => st.raw.join("|") + v.join(","); return tag`a${s}\nb${t}`; },
  exceptions: (s, t, n) => { const r = []; for (const f of [() => null.x, () => undefinedVar, () => JSON.parse("{" + s), () => { throw s; }, () => { throw { code: n }; }, () => new Array(-1), () => "x".repeat(-1), () => decodeURIComponent("%")]) { try { r.push(f()); } catch (e) { r.push(e instanceof Error ? e.constructor.name : e); } } return r; },
  bigs: (s, t, n) => [BigInt(5) + 2n, typeof 1n, String(10n ** 3n), (255).toString(2), 0x1f, 1e3, 0b11, 1_000],
  dynimport: (s, t, n) => { const f = new Map([["x", (q) => q + s], ["y", (q) => q + t]]); return [...f].map(([k, v]) => v(k)); },
  newers: (s, t, n) => [[s, t].toSorted?.(), [1, 2].toReversed?.(), [1, n].with?.(0, s), Object.groupBy ? Object.keys(Object.groupBy([s, t], (x) => x + "g")) : 0, [s, t].findLastIndex((x) => x === "a"), "a-b".replaceAll("-", s), s.isWellFormed?.(), [[s, 1]].flat(2), Array.from({ length: n }, (_, i) => i), Array(n).fill(s), new Array(2).join(s)],
  urls: (s, t, n) => { const u = new URL("https://h.example/p?q=1#f"); const p = new URLSearchParams({ a: "b c" }); return [u.hostname, u.pathname, u.searchParams.get("q"), p.toString(), u.href]; },
  uint: (s, t, n) => { const a = new Uint8Array([1, n, 255]); const b = Buffer.from(a); return [a.length, [...a], Array.from(a).map((x) => x.toString(16).padStart(2, "0")).join(""), a.slice(1).length, a[1], b.toString("hex"), a.reduce((p, c) => p + c, 0)]; },
};
const H = Object.entries(S).map(([name, f]) => ({ name, bounds: "", quick: { timeS: 20 }, run: async (h) => { const s = h.string("s", { max: 2, chars: "ab 1A," }), t = h.string("t", { max: 1, chars: "ab" }), n = h.int("n", 0, 3); const r = await f(s, t, n, h); h.observe("r", r); h.assert(true, "ran"); } }));
module.exports = { harnesses: H };
