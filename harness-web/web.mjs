// Conformance driver for the web page (index.html, index.js) and its worker (webworker.js).
// Runs both scripts of the repository, unchanged, in contexts of their own, with stand-ins for the
// browser (elements, images, canvases, object URLs, message passing) and for the WebAssembly
// module. What the user and the module see is recorded; the messages between the two scripts are
// not looked into. Usage: node --experimental-vm-modules web.mjs SRCDIR RECORDS < sessions
import vm from "node:vm";
import fs from "node:fs";
import path from "node:path";
import readline from "node:readline";

const SRC = path.resolve(process.argv[2]);
const HTML = fs.readFileSync(path.join(SRC, "html", "index.html"), "utf8");
let S = null; // the session being run

process.on("unhandledRejection", (e) => { if (S) S.errs.push(String(e && e.message || e)); });
process.on("uncaughtException", (e) => { if (S) S.errs.push(String(e && e.message || e)); });

// ---------------------------------------------------------------- elements
function domError(name, msg) { const e = new Error(msg); e.name = name; return e; }
class Targ {
    constructor() { this._l = {}; }
    addEventListener(t, f, o) {
        const l = (this._l[t] ??= []);
        if (!l.some((x) => x.f === f)) l.push({ f, once: !!(o && o.once) });
    }
    removeEventListener(t, f) { this._l[t] = (this._l[t] || []).filter((x) => x.f !== f); }
    dispatchEvent(ev) {
        ev.target ??= this; ev.currentTarget = this;
        const run = (f) => { try { typeof f == "function" ? f.call(this, ev) : f.handleEvent(ev); } catch (e) { S.errs.push(String(e && e.message || e)); } };
        for (const x of [...(this._l[ev.type] || [])]) {
            if (x.once) this.removeEventListener(ev.type, x.f);
            run(x.f);
        }
        if (typeof this["on" + ev.type] == "function") run(this["on" + ev.type]);
        if (ev.bubbles && !ev._stop && this.parentNode) this.parentNode.dispatchEvent(ev);
        return true;
    }
}
function event(type, bubbles) {
    return { type, bubbles, preventDefault() {}, stopPropagation() { this._stop = true; }, stopImmediatePropagation() { this._stop = true; } };
}
function collection(list) {
    return new Proxy(list, {
        get(t, k) {
            const l = t();
            if (k === "length") return l.length;
            if (k === Symbol.iterator) return () => l[Symbol.iterator]();
            if (k === "item") return (i) => l[i] ?? null;
            if (k === "forEach") return (f) => l.forEach(f);
            if (typeof k == "string" && /^\d+$/.test(k)) return l[k];
            const named = (n) => l.find((e) => e.attrs.id === n || e.attrs.name === n);
            if (k === "namedItem") return (n) => named(n) ?? null;
            return typeof k == "string" ? named(k) : undefined;
        },
        has(t, k) { return typeof k == "string" && /^\d+$/.test(k) ? +k < t().length : k in t; },
    });
}
const color = (v) => /^#[0-9a-fA-F]{6}$/.test(v) ? v.toLowerCase() : "#000000";
class El extends Targ {
    constructor(tag) {
        super();
        this.tagName = tag.toUpperCase(); this.attrs = {}; this.kids = []; this.parentNode = null;
        this.style = { setProperty(k, v) { this[k] = v; }, removeProperty(k) { this[k] = ""; } };
        this.dataset = {}; this.textContent = ""; this._value = undefined;
        this.children = collection(() => this.kids); this.childNodes = this.children;
        const cl = () => new Set((this.attrs.class || "").split(/\s+/).filter(Boolean));
        const put = (s) => { this.attrs.class = [...s].join(" "); };
        this.classList = {
            add: (...c) => put(new Set([...cl(), ...c])), remove: (...c) => { const s = cl(); for (const x of c) s.delete(x); put(s); },
            contains: (c) => cl().has(c), toggle: (c, f) => { const s = cl(); (f ?? !s.has(c)) ? s.add(c) : s.delete(c); put(s); },
        };
    }
    get id() { return this.attrs.id || ""; } set id(v) { this.attrs.id = v; }
    get name() { return this.attrs.name || ""; } set name(v) { this.attrs.name = v; }
    get className() { return this.attrs.class || ""; } set className(v) { this.attrs.class = v; }
    get type() { return this.attrs.type || ""; }
    get parentElement() { return this.parentNode; }
    get firstElementChild() { return this.kids[0] ?? null; } get firstChild() { return this.kids[0] ?? null; }
    get lastElementChild() { return this.kids.at(-1) ?? null; } get lastChild() { return this.kids.at(-1) ?? null; }
    get childElementCount() { return this.kids.length; }
    get nextElementSibling() { const k = this.parentNode?.kids ?? []; return k[k.indexOf(this) + 1] ?? null; }
    get previousElementSibling() { const k = this.parentNode?.kids ?? []; return k[k.indexOf(this) - 1] ?? null; }
    get nextSibling() { return this.nextElementSibling; } get previousSibling() { return this.previousElementSibling; }
    get disabled() { return "disabled" in this.attrs; } set disabled(v) { if (v) this.attrs.disabled = ""; else delete this.attrs.disabled; }
    get hidden() { return "hidden" in this.attrs; } set hidden(v) { if (v) this.attrs.hidden = ""; else delete this.attrs.hidden; }
    get value() { const v = this._value ?? this.attrs.value ?? ""; return this.type == "color" ? color(v) : v; }
    set value(v) { this._value = this.type == "color" ? color(String(v)) : String(v); }
    get valueAsNumber() { return parseFloat(this.value); }
    get src() { return this.attrs.src ?? ""; }
    set src(v) { this.setAttribute("src", v); }
    getAttribute(k) { return this.attrs[k] ?? null; }
    hasAttribute(k) { return k in this.attrs; }
    setAttribute(k, v) { this.attrs[k] = String(v); if (k == "src" && this.tagName == "IMG") imageSource(this); }
    removeAttribute(k) { delete this.attrs[k]; }
    toggleAttribute(k, f) { if (f ?? !(k in this.attrs)) this.attrs[k] = ""; else delete this.attrs[k]; }
    detach() { const p = this.parentNode; if (p) { p.kids.splice(p.kids.indexOf(this), 1); this.parentNode = null; } }
    remove() { this.detach(); }
    appendChild(c) { c.detach(); this.kids.push(c); c.parentNode = this; return c; }
    append(...cs) { for (const c of cs) this.appendChild(c); }
    prepend(...cs) { for (const c of cs.reverse()) this.insertBefore(c, this.kids[0] ?? null); }
    insertBefore(c, r) { c.detach(); const i = r ? this.kids.indexOf(r) : this.kids.length; this.kids.splice(i, 0, c); c.parentNode = this; return c; }
    removeChild(c) { if (c?.parentNode !== this) throw domError("NotFoundError", "not a child"); c.detach(); return c; }
    replaceChild(n, c) { this.insertBefore(n, c); return this.removeChild(c); }
    replaceWith(n) { this.parentNode.replaceChild(n, this); }
    replaceChildren(...cs) { for (const c of [...this.kids]) c.detach(); this.append(...cs); }
    cloneNode(deep) {
        const c = new El(this.tagName); c.attrs = { ...this.attrs }; c._value = this._value;
        Object.assign(c.style, this.style);
        if (deep) for (const k of this.kids) c.appendChild(k.cloneNode(true));
        return c;
    }
    contains(e) { for (; e; e = e.parentNode) if (e === this) return true; return false; }
    *all() { for (const k of this.kids) { yield k; yield* k.all(); } }
    matches(q) {
        return q.split(",").some((s) => {
            let r = s.trim(); let m;
            if (r == ":scope") return true;
            if ((m = /^[a-zA-Z*][\w-]*/.exec(r))) { if (m[0] != "*" && m[0].toUpperCase() != this.tagName) return false; r = r.slice(m[0].length); }
            while (r) {
                if ((m = /^#([\w-]+)/.exec(r))) { if (this.id != m[1]) return false; }
                else if ((m = /^\.([\w-]+)/.exec(r))) { if (!this.classList.contains(m[1])) return false; }
                else if ((m = /^\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]/.exec(r))) { if (!(m[1] in this.attrs) || (m[2] !== undefined && this.attrs[m[1]] != m[2])) return false; }
                else throw new Error("selector " + q);
                r = r.slice(m[0].length);
            }
            return true;
        });
    }
    closest(q) { for (let e = this; e; e = e.parentNode) if (e.matches(q)) return e; return null; }
    querySelectorAll(q) {
        return q.split(",").flatMap((s) => {
            const parts = s.trim().replace(/\s*>\s*/g, " > ").split(/\s+/); let set = [this];
            let child = false;
            for (const p of parts) {
                if (p == ":scope") continue;
                if (p == ">") { child = true; continue; }
                set = [...new Set(set.flatMap((e) => child ? e.kids : [...e.all()]))].filter((e) => e.matches(p));
                child = false;
            }
            return set;
        });
    }
    querySelector(q) { return this.querySelectorAll(q)[0] ?? null; }
    getElementsByTagName(t) { return this.querySelectorAll(t); }
    getElementsByClassName(t) { return this.querySelectorAll("." + t); }
    click() { if (!this.disabled) this.dispatchEvent(event("click", true)); }
    focus() {} blur() {}
    // images
    get complete() { return !this._pending; }
    get width() { return this.tagName == "CANVAS" ? this.canvas.width : this._cur?.w ?? 0; }
    get height() { return this.tagName == "CANVAS" ? this.canvas.height : this._cur?.h ?? 0; }
    set width(v) { if (this.tagName == "CANVAS") this.canvas.width = +v; else this.attrs.width = String(v); }
    set height(v) { if (this.tagName == "CANVAS") this.canvas.height = +v; else this.attrs.height = String(v); }
    get naturalWidth() { return this._cur?.w ?? 0; } get naturalHeight() { return this._cur?.h ?? 0; }
    decode() { return this._pending ? Promise.reject(domError("EncodingError", "not decoded")) : Promise.resolve(); }
    // canvas elements
    get canvas() { return this._canvas ??= new Canvas(300, 150); }
    getContext(t) { return this.canvas.getContext(t); }
    toBlob(f) { this.canvas.convertToBlob().then(f, () => f(null)); }
    insertAdjacentElement(w, e) {
        const p = this.parentNode;
        if (w == "beforeend") this.appendChild(e); else if (w == "afterbegin") this.prepend(e);
        else if (w == "beforebegin") p.insertBefore(e, this); else p.insertBefore(e, this.nextElementSibling);
        return e;
    }
    before(...es) { for (const e of es) this.parentNode.insertBefore(e, this); }
    after(...es) { for (const e of es.reverse()) this.parentNode.insertBefore(e, this.nextElementSibling); }
    getAttributeNames() { return Object.keys(this.attrs); }
    get isConnected() { let e = this; while (e.parentNode) e = e.parentNode; return e.tagName == "#DOCUMENT"; }
    get tabIndex() { return 0; }
}
function parse(html) {
    const root = new El("#document"); let cur = root;
    const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<(\/?)([a-zA-Z][\w-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>|([^<]+)/gi;
    for (const m of html.matchAll(re)) {
        if (m[5] !== undefined) { if (cur !== root) cur.textContent += m[5].trim(); continue; }
        if (!m[2]) continue;
        const tag = m[2].toLowerCase();
        const empty = ["img", "input", "br", "hr", "link", "meta"].includes(tag);
        if (m[1]) {
            if (empty) continue;
            let e = cur; while (e && e.tagName != tag.toUpperCase()) e = e.parentNode;
            if (e) cur = e.parentNode;
            continue;
        }
        const e = new El(tag);
        for (const a of m[3].matchAll(/([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) e.attrs[a[1].toLowerCase()] = a[2] ?? a[3] ?? a[4] ?? "";
        if (e.attrs.style) for (const d of e.attrs.style.split(";")) { const [k, v] = d.split(":"); if (v) e.style[k.trim()] = v.trim(); }
        cur.appendChild(e);
        if (!empty && !m[4]) cur = e;
    }
    return root;
}

// ---------------------------------------------------------------- images, canvases, object URLs
// An element keeps its old picture until the new one has been loaded.
function imageSource(el) {
    const u = S.urls.get(el.src);
    if (u && u.loaded) { el._cur = u.blob.pic ?? null; el._pending = null; return; }
    el._pending = el.src;
}
class ImgData {
    constructor(a, w, h) {
        if (typeof a == "number") { [w, h] = [a, w]; a = new Uint8ClampedArray(4 * w * h); }
        if (h === undefined) h = a.length / 4 / w;
        if (!w || !h) throw domError("IndexSizeError", "empty image data");
        if (a.length != 4 * w * h) throw domError("InvalidStateError", "length of image data");
        this.data = a; this.width = w; this.height = h;
    }
}
class Canvas {
    constructor(w, h) { this.width = w; this.height = h; this.px = null; }
    init() { if (!this.px || this.px.length != 4 * this.width * this.height) this.px = new Uint8ClampedArray(4 * this.width * this.height); }
    getContext() {
        const c = this;
        return {
            canvas: c,
            drawImage(img, x, y) {
                c.init(); const p = img._cur; if (!p) return;
                for (let i = 0; i < p.h; i++) for (let j = 0; j < p.w; j++) for (let k = 0; k < 4; k++) {
                    const X = j + x, Y = i + y;
                    if (X >= 0 && X < c.width && Y >= 0 && Y < c.height) c.px[4 * (Y * c.width + X) + k] = p.rgba[4 * (i * p.w + j) + k];
                }
            },
            getImageData(x, y, w, h) {
                c.init(); if (!w || !h) throw domError("IndexSizeError", "empty area");
                const d = new Uint8ClampedArray(4 * w * h);
                for (let i = 0; i < h; i++) for (let j = 0; j < w; j++) for (let k = 0; k < 4; k++) {
                    const X = j + x, Y = i + y;
                    if (X >= 0 && X < c.width && Y >= 0 && Y < c.height) d[4 * (i * w + j) + k] = c.px[4 * (Y * c.width + X) + k];
                }
                return new ImgData(d, w, h);
            },
            putImageData(d, x, y) {
                c.init();
                for (let i = 0; i < d.height; i++) for (let j = 0; j < d.width; j++) for (let k = 0; k < 4; k++) {
                    const X = j + x, Y = i + y;
                    if (X >= 0 && X < c.width && Y >= 0 && Y < c.height) c.px[4 * (Y * c.width + X) + k] = d.data[4 * (i * d.width + j) + k];
                }
            },
        };
    }
    async convertToBlob() {
        this.init(); if (!this.width || !this.height) throw domError("IndexSizeError", "empty canvas");
        return newBlob({ pic: { w: this.width, h: this.height, rgba: [...this.px] } });
    }
}
function newBlob(b) { const id = S.blobs.push(b) - 1; return { __blob: id, size: 1, type: "image/png" }; }
const fakeURL = {
    createObjectURL(b) {
        if (b === null || typeof b != "object" || !("__blob" in b)) throw new TypeError("createObjectURL: not a blob");
        const id = ++S.urlCount; const name = "blob:" + id;
        const blob = S.blobs[b.__blob];
        S.urls.set(name, { id, blob, loaded: false });
        S.made.push({ u: id, pic: blob.pic ?? null, file: blob.file ?? 0 });
        return name;
    },
    revokeObjectURL(u) {
        const m = /^blob:(\d+)$/.exec(u); if (m) S.gone.push(+m[1]);
    },
};

// ---------------------------------------------------------------- the module
class Trap extends Error {}
class Module {
    constructor(grow, seed) {
        this.memory = new WebAssembly.Memory({ initial: 1, maximum: 65536 });
        this.top = 1024; this.live = new Map(); this.free = new Map(); this.handles = new Map(); this.next = 1;
        this.mode = grow; this.rng = seed >>> 0; this.u8().fill(0xA5); this.next = 0;
        // some modules compute the same palette for every image, some reuse handles that were freed,
        // some have no memory behind a buffer
        this.same = seed % 4 == 0; this.reuse = seed % 3 == 0; this.tight = seed % 5 < 2; this.unused = [];
        this.calls = []; this.outcome = "ok"; this.arg = 0; this.req = 0; this.grew = 0;
        const f = {};
        for (const n of ["create_image_buffer", "free_image_buffer", "create_image_weights", "free_image_weights", "compute_palette",
            "free_computed_palette", "create_decomposed_image", "free_decomposed_image", "get_decomposed_image_width",
            "get_decomposed_image_height", "get_decomposed_image_num_channels", "reconstruct_image", "grayscale_image_channel"])
            f[n] = (...a) => this.call(n, a);
        f.memory = this.memory;
        this.exports = Object.freeze(f);
    }
    u8() { return new Uint8Array(this.memory.buffer); }
    rand() { let x = this.rng = (Math.imul(this.rng, 1664525) + 1013904223) >>> 0; return x >>> 8; }
    grown() {
        const old = this.memory.buffer.byteLength; this.memory.grow(1); this.grew++;
        this.u8().fill(0xA5, old);
    }
    inside(p, n) { for (const [q, b] of this.live) if (p >= q && p + n <= q + b.n) return true; return false; }
    clean() {
        const m = this.u8(); const bs = [...this.live].sort((a, b) => a[0] - b[0]); let at = 0; let ok = true;
        const gap = (a, b) => { for (let i = a; i < b; i++) if (m[i] != 0xA5) { ok = false; m[i] = 0xA5; } };
        for (const [q, b] of bs) { gap(at, q); at = q + b.n; }
        gap(at, Math.max(this.top + 256, at));
        return ok;
    }
    alloc(n, kind, data) {
        const l = this.free.get(n); let p;
        const taken = (a, b) => [...this.live].find(([q, x]) => a < q + x.n + 16 && q < b + 16);
        if (this.tight && n) {
            const e = this.memory.buffer.byteLength;
            if (e - n > this.top + 512 && !taken(e - n, e)) {
                this.live.set(e - n, { n, kind, tight: true }); this.u8().set(data ?? new Uint8Array(n), e - n); return e - n;
            }
        }
        if (l && l.length) p = l.pop();
        else { let b; while (this.tight && (b = taken(this.top, this.top + n))) this.top = b[0] + b[1].n + 16;
            p = this.top; this.top += n + 16; while (this.top + 512 > this.memory.buffer.byteLength) this.grown(); }
        this.live.set(p, { n, kind }); this.u8().set(data ?? new Uint8Array(n), p);
        return p;
    }
    release(p, n) { const b = this.live.get(p); if (!b) return; this.live.delete(p); this.u8().fill(0xA5, p, p + b.n); if (b.n && !b.tight) { const l = this.free.get(b.n) ?? []; l.push(p); this.free.set(b.n, l); } }
    handle(d) { const h = (this.reuse && this.unused.pop()) || 1000 + 16 * ++this.next; this.handles.set(h, d); return h; }
    call(f, a) {
        const u32 = (v) => (+v || 0) >>> 0, u8 = (v) => u32(v) & 255;
        const r = { f, req: this.req, h: 0, p: 0, w: 0, ht: 0, n: 0, lim: [], inp: [], out: [], ret: 0, oob: false, thr: false };
        r.oob = !this.clean();
        this.calls.push(r);
        const read = (p, n) => { if (n && !this.inside(p, n)) r.oob = true; return [...this.u8().slice(p, p + n)]; };
        const write = (p, d) => { if (d.length && !this.inside(p, d.length)) { r.oob = true; return; } this.u8().set(d, p); };
        const bytes = (n) => Array.from({ length: n }, () => this.rand() % 256);
        const worth = (want) => { if (this.outcome == "throw") { r.thr = true; r.inp = want(); throw new Trap("unreachable"); } };
        const grow = () => { if (this.mode == 1 && (this.grew < 40 || this.rand() % 4 == 0) || (this.mode == 2 && this.rand() % 3 == 0)) this.grown(); };
        if (f != "create_image_buffer") grow();
        switch (f) {
        case "create_image_buffer": r.n = u32(a[0]); grow(); r.ret = this.alloc(r.n, "img"); break;
        case "free_image_buffer": r.n = u32(a[0]); r.p = u32(a[1]); this.release(r.p, r.n); break;
        case "create_image_weights":
            r.w = u32(a[0]); r.ht = u32(a[1]); r.p = u32(a[2]);
            r.inp = read(r.p, 3 * r.w * r.ht); worth(() => r.inp);
            r.ret = this.handle({ kind: "w", w: r.w, ht: r.ht }); break;
        case "compute_palette": {
            r.w = u32(a[0]); r.ht = u32(a[1]); r.p = u32(a[2]); r.lim = [u8(a[3]), u8(a[4]), Math.round(1000 * (+a[5]))];
            r.inp = read(r.p, 3 * r.w * r.ht); worth(() => r.inp);
            r.n = this.arg || 4; r.out = this.same ? Array.from({ length: 3 * r.n }, (_, i) => (i * 53 + 10) % 256) : bytes(3 * r.n); write(u32(a[6]), [r.n]);
            r.ret = this.alloc(3 * r.n, "pal", r.out); break;
        }
        case "free_computed_palette": r.p = u32(a[0]); r.n = u8(a[1]); this.release(r.p, 3 * r.n); break;
        case "create_decomposed_image": {
            r.h = u32(a[0]); r.n = u8(a[1]); r.p = u32(a[2]);
            r.inp = read(r.p, 3 * r.n); worth(() => r.inp);
            if (this.outcome == "refuse" || r.n == 0) break;
            const w = this.handles.get(r.h);
            r.ret = this.handle({ kind: "d", n: r.n, w: w?.w ?? 1, ht: w?.ht ?? 1 }); break;
        }
        case "free_image_weights": case "free_decomposed_image":
            r.h = u32(a[0]); if (this.handles.delete(r.h)) this.unused.push(r.h); break;
        case "get_decomposed_image_width": r.h = u32(a[0]); r.ret = this.handles.get(r.h)?.w ?? 1; break;
        case "get_decomposed_image_height": r.h = u32(a[0]); r.ret = this.handles.get(r.h)?.ht ?? 1; break;
        case "get_decomposed_image_num_channels": r.h = u32(a[0]); r.ret = this.handles.get(r.h)?.n ?? 0; break;
        case "reconstruct_image": {
            r.h = u32(a[0]); r.p = u32(a[1]); const d = this.handles.get(r.h) ?? { n: 0, w: 1, ht: 1 };
            r.inp = read(r.p, 3 * d.n); worth(() => r.inp);
            if (this.outcome == "refuse") break;
            r.w = d.w; r.ht = d.ht; r.out = bytes(3 * d.w * d.ht); write(u32(a[2]), r.out); r.ret = 1; break;
        }
        case "grayscale_image_channel": {
            r.h = u32(a[0]); r.n = u8(a[1]); const d = this.handles.get(r.h) ?? { n: 0, w: 1, ht: 1 };
            worth(() => []);
            if (this.outcome == "refuse" || r.n >= d.n) break;
            r.w = d.w; r.ht = d.ht; r.out = bytes(d.w * d.ht); write(u32(a[2]), r.out); r.ret = 1; break;
        }
        }
        return r.ret;
    }
}

// ---------------------------------------------------------------- running the scripts
const sources = new Map();
function source(p) { if (!sources.has(p)) sources.set(p, fs.readFileSync(p, "utf8")); return sources.get(p); }
async function load(context, file, externals) {
    const seen = new Map();
    const get = (p) => {
        if (!seen.has(p)) seen.set(p, new vm.SourceTextModule(source(p), { context, identifier: p }));
        return seen.get(p);
    };
    const ext = new Map();
    const linker = (spec, from) => {
        if (spec.startsWith(".")) {
            let p = path.resolve(path.dirname(from.identifier), spec);
            if (!fs.existsSync(p)) p += ".js";
            return get(p);
        }
        if (!externals[spec]) throw new Error("unknown module " + spec);
        if (!ext.has(spec)) {
            const names = Object.keys(externals[spec]);
            ext.set(spec, new vm.SyntheticModule(names, function () { for (const n of names) this.setExport(n, externals[spec][n]); }, { context, identifier: spec }));
        }
        return ext.get(spec);
    };
    const m = get(path.join(SRC, "js", file));
    await m.link(linker); await m.evaluate();
}
const tick = () => new Promise((r) => setImmediate(r));
async function settle() { for (let i = 0; i < 3; i++) await tick(); while (S.timers > 0) await tick(); await tick(); }
const quiet = { log() {}, error() {}, warn() {}, info() {}, debug() {}, assert() {}, time() {}, timeEnd() {} };
function common() {
    const s = S;
    return {
        console: quiet, structuredClone, TextDecoder, TextEncoder, queueMicrotask, performance, AbortController,
        setTimeout(f, ms, ...a) { s.timers++; return setTimeout(() => { s.timers--; f(...a); }, Math.min(ms || 0, 5)); },
        clearTimeout(t) { if (t) { s.timers--; clearTimeout(t); } },
        setInterval() { return 0; }, clearInterval() {},
        requestAnimationFrame(f) { s.timers++; return setTimeout(() => { s.timers--; f(0); }, 1); },
        OffscreenCanvas: Canvas, ImageData: ImgData, URL: fakeURL, Blob: class { constructor() { Object.assign(this, newBlob({})); } },
    };
}
function makeRegistry() {
    const s = S;
    const ThreadWorker = class {
        constructor(self) { this.self = self; s.worker = this; }
        onRequest() {}
        sendResponse(id, payload, transfer) { s.answer(id, true, payload, transfer); }
        sendError(id, e) { s.answer(id, false, e); }
    };
    const Thread = class {
        constructor() {}
        sendRequest(payload, transfer) {
            return new Promise((resolve, reject) => {
                const id = ++s.msgCount; s.sent.push(id); s.pendingIds.add(id);
                s.inbox.push({ id, payload: structuredClone(payload, { transfer: transfer ?? [] }) });
                s.waiting.set(id, { resolve, reject });
            });
        }
        terminate() {}
    };
    return { Thread, ThreadWorker };
}
async function start(sess) {
    const s = S = {
        errs: [], urls: new Map(), urlCount: 0, blobs: [], made: [], gone: [], sent: [], msgCount: 0, pendingIds: new Set(), inbox: [], waiting: new Map(),
        offs: [], goneAll: new Set(), outbox: [], timers: 0, fetches: [], mod: new Module(sess.grow ?? 0, sess.seed ?? 1), images: sess.images, log: [],
    };
    s.answer = (id, ok, payload, transfer) => s.outbox.push({ id, ok, payload: structuredClone(payload, { transfer: transfer ?? [] }) });
    const reg = makeRegistry();
    // the page
    const doc = parse(HTML);
    s.doc = doc;
    doc.getElementById = (id) => { for (const e of doc.all()) if (e.id === id) return e; return null; };
    doc.createElement = (t) => new El(t); doc.body = doc.querySelector("body"); doc.readyState = "complete";
    s.el = (id) => doc.getElementById(id);
    const win = new Targ();
    const page = { ...common(), document: doc, Image: class extends El { constructor() { super("img"); s.offs.push(this); } },
        FileReader: class { readAsDataURL() { this.onerror?.(new Error("no")); } },
        addEventListener: win.addEventListener.bind(win), removeEventListener: win.removeEventListener.bind(win), alert() {},
        fetch: (u) => new Promise((resolve, reject) => s.fetches.push({ resolve, reject })) };
    page.window = page; page.self = page;
    const pctx = vm.createContext(page);
    // the worker
    const WA = { Memory: class { // made when it is used (the module has a memory of its own)
            constructor(d) { this.d = d; } get real() { return this._m ??= new WebAssembly.Memory(this.d); }
            get buffer() { return this.real.buffer; } grow(n) { return this.real.grow(n); } },
        compileStreaming: async () => ({ module: 1 }), compile: async () => ({ module: 1 }),
        instantiate: async (m) => m && m.module ? { exports: s.mod.exports } : { module: {}, instance: { exports: s.mod.exports } },
        instantiateStreaming: async () => ({ module: {}, instance: { exports: s.mod.exports } }), RuntimeError: Trap };
    const work = { ...common(), WebAssembly: WA, fetch: async () => ({ arrayBuffer: async () => new ArrayBuffer(8) }), postMessage() {}, addEventListener() {} };
    work.self = work;
    const wctx = vm.createContext(work);
    const wasi = {
        WASI: class { constructor() { this.wasiImport = {}; } start() { return 0; } initialize() {} },
        File: class { constructor(d) { this.data = new Uint8Array(d); } }, OpenFile: class { constructor(f) { this.file = f; } },
        PreopenDirectory: class {}, Directory: class {}, Fd: class {}, ConsoleStdout: class {},
    };
    const ext = { "@bjorn3/browser_wasi_shim": wasi, "async-thread-worker": reg };
    await load(wctx, "webworker.js", ext);
    await load(pctx, "index.js", ext);
    win.dispatchEvent(event("load"));
    await settle();
    return s;
}
function snapshot(s, env, arg) {
    const g = (id) => s.el(id);
    const url = (e) => { const u = /^blob:(\d+)$/.exec(e.src); return u ? +u[1] : 0; };
    const codes = (t) => [...t].map((c) => c.codePointAt(0));
    const wrap = g("palette-wrapper");
    const num = (id) => { const v = parseFloat(g(id).value); return Number.isFinite(v) ? v : 0; };
    const r = {
        env, ...arg,
        rows: wrap.kids.map((d) => {
            const c = (n) => [...d.all()].find((e) => e.name === n);
            return { src: codes(c("palette-src-color").value), srct: codes(c("palette-src-color-txt").value), dst: codes(c("palette-dst-color").value),
                dstt: codes(c("palette-dst-color-txt").value), u: url(c("palette-img")) };
        }),
        shown: { src: url(g("src-img")), dst: url(g("dst-img")) },
        lim: [Math.trunc(num("min-palette-cnt")) , Math.trunc(num("max-palette-cnt")), Math.round(1000 * num("palette-err-limit"))],
        off: [g("recompute-output-button").disabled, g("recompute-palette-button").disabled, g("src-img-picker").disabled].map((x) => !!x),
        spin: g("dst-spinner").style.visibility == "visible",
        wait: s.pendingIds.size, sent: s.sent, made: s.made.map((m) => ({ u: m.u, file: m.file, w: m.pic?.w ?? 0, h: m.pic?.h ?? 0, px: m.pic?.rgba ?? [] })), gone: s.gone,
        calls: s.mod.calls, errs: s.errs.length,
    };
    s.sent = []; s.made = []; s.gone = []; s.mod.calls = []; 
    r.why = s.errs; s.errs = [];
    return r;
}
async function step(s, it) {
    const [op, ...a] = it; const g = s.el;
    const none = { ans: [], req: 0, tidy: true, img: 0, row: 0, fld: "", text: [], act: true };
    if (op == "fetched") {
        const f = s.fetches.shift(); if (!f) return null;
        if (a[0]) f.resolve({ ok: true, status: 200, blob: async () => newBlob({ file: a[0], pic: s.images[a[0] - 1] }) }); else f.reject(new TypeError("fetch failed"));
        await settle(); return snapshot(s, "fetched", { ...none, img: a[0] });
    }
    if (op == "load") {
        const e = g("src-img"); if (!e._pending) return null;
        const u = s.urls.get(e._pending); const gone = s.goneAll.has(e._pending);
        if (!u || gone || !u.blob.pic) { e._pending = null; e._cur = null; e.dispatchEvent(event("error")); await settle(); return snapshot(s, "broken", none); }
        u.loaded = true;
        for (const i of s.offs) if (i._pending == e._pending) { i._cur = u.blob.pic; i._pending = null; }
        e._cur = u.blob.pic; e._pending = null; e.dispatchEvent(event("load"));
        await settle(); return snapshot(s, "load", { ...none, img: u.blob.file });
    }
    if (op == "pick") {
        const e = g("src-img-picker"); if (e.disabled) return null;
        e.files = a[0] ? [newBlob({ file: a[0], pic: s.images[a[0] - 1] })] : [];
        e.files.item = (i) => e.files[i] ?? null;
        e.dispatchEvent(event("input", true)); e.dispatchEvent(event("change", true));
        await settle(); return snapshot(s, "pick", { ...none, img: a[0] });
    }
    if (op == "out" || op == "pal") {
        const e = g(op == "out" ? "recompute-output-button" : "recompute-palette-button"); if (e.disabled) return null;
        e.click(); await settle(); return snapshot(s, op, none);
    }
    if (op == "set") {
        const e = g(["min-palette-cnt", "max-palette-cnt", "palette-err-limit"][a[0]]);
        e.value = a[0] == 2 ? String(a[1] / 1000) : String(a[1]);
        e.dispatchEvent(event("input", true)); e.dispatchEvent(event("change", true));
        await settle(); return snapshot(s, "set", none);
    }
    if (op == "edit") {
        const row = g("palette-wrapper").kids[a[0] - 1]; if (!row) return null;
        const name = { src: "palette-src-color", srct: "palette-src-color-txt", dst: "palette-dst-color", dstt: "palette-dst-color-txt" }[a[1]];
        const e = [...row.all()].find((x) => x.name === name);
        e.value = String.fromCodePoint(...a[2]);
        e.dispatchEvent(event("input", true)); e.dispatchEvent(event("change", true));
        await settle(); return snapshot(s, "edit", { ...none, row: a[0], fld: a[1], text: a[2] });
    }
    if (op == "ans") {
        const m = s.inbox.shift(); if (!m) return null;
        s.mod.outcome = a[0]; s.mod.arg = a[1] ?? 0; s.mod.req = m.id;
        let failed = null;
        try { Promise.resolve(s.worker.onRequest(m.id, m.payload)).catch((e) => { failed = e; }); } catch (e) { failed = e; }
        await settle();
        const tidy = s.mod.clean(); const before = s.mod.calls.length;
        if (failed) s.outbox.push({ id: m.id, ok: false, payload: String(failed.message) });
        const ans = s.outbox.map((o) => ({ id: o.id, ok: o.ok }));
        for (const o of s.outbox.splice(0)) {
            const w = s.waiting.get(o.id); s.pendingIds.delete(o.id);
            if (w) { s.waiting.delete(o.id); o.ok ? w.resolve(o.payload) : w.reject(new Error(o.payload)); }
        }
        await settle(); return snapshot(s, "ans", { ...none, ans, req: m.id, tidy, act: a[0] == "ok" });
    }
    throw new Error("unknown step " + op);
}
async function run(sess) {
    const s = await start(sess);
    const rec = [{ env: "init", images: sess.images.map((i) => ({ w: i.w, h: i.h, px: i.rgba })), ...(({ env, ...x }) => x)(snapshot(s, "init", { ans: [], req: 0, tidy: true, img: 0, row: 0, fld: "", text: [], act: true })) }];
    // A session that records far more than any does with this code is cut short: what is there is judged
    let size = 0; const full = () => size > 1.5e6;
    const add = (r) => { if (!r || full()) return false; size += JSON.stringify(r).length; for (const u of r.gone) s.goneAll.add("blob:" + u); rec.push(r); return true; };
    for (const it of sess.script) if (!full()) add(await step(s, it));
    // whatever is left to do is done
    for (let i = 0; i < 300 && !full(); i++) {
        if (s.inbox.length) add(await step(s, ["ans", "ok", sess.last ?? 2]));
        else if (!add(await step(s, ["load"]))) break;
    }
    return rec;
}
const OUT = fs.openSync(process.argv[3], "w");
const rl = readline.createInterface({ input: process.stdin });
for await (const line of rl) {
    if (!line.trim()) continue;
    let rec;
    try { rec = await run(JSON.parse(line)); } catch (e) { rec = { error: String(e && e.stack || e) }; }
    fs.writeSync(OUT, JSON.stringify(rec) + "\n");
}
process.exit(0);
