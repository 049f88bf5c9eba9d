// Core of the JavaScript simulations: PRNG, history hash, native library, simulated WebAssembly module.
import fs from 'node:fs';
import crypto from 'node:crypto';

export class Rng {
    constructor(seed) { // sfc32
        this.a = 0x9e3779b9 ^ seed; this.b = (seed * 2654435761) | 0; this.c = 0x243f6a88; this.d = 1;
        for (let i = 0; i < 12; ++i) this.next();
    }
    next() {
        const t = (((this.a + this.b) | 0) + this.d) | 0;
        this.d = (this.d + 1) | 0;
        this.a = this.b ^ (this.b >>> 9);
        this.b = (this.c + (this.c << 3)) | 0;
        this.c = (this.c << 21) | (this.c >>> 11);
        this.c = (this.c + t) | 0;
        return t >>> 0;
    }
    below(n) { return n <= 0 ? 0 : this.next() % n; }
    range(lo, hi) { return lo + this.below(hi - lo + 1); }
    chance(a, b) { return this.below(b) < a; }
    logu(max) {
        let bits = 0;
        while ((max >> bits) > 1) ++bits;
        const b = this.below(bits + 1);
        return Math.min(max, (1 << b) + this.below(1 << b));
    }
    pick(a) { return a[this.below(a.length)]; }
}

export class History {
    constructor(keep = false) { this.h1 = 0x811c9dc5; this.h2 = 0x1234567; this.keep = keep; this.lines = []; }
    ev(...parts) {
        let s = parts.map(p => typeof p === 'string' ? p : JSON.stringify(p)).join(' ');
        if (this.keep) this.lines.push(s);
        if (s.length > 500) s = crypto.createHash('md5').update(s).digest('hex');
        for (let i = 0; i < s.length; ++i) {
            this.h1 = Math.imul(this.h1 ^ s.charCodeAt(i), 16777619);
            this.h2 = (Math.imul(this.h2, 31) + s.charCodeAt(i)) | 0;
        }
        this.h1 = Math.imul(this.h1 ^ 10, 16777619);
    }
    get hash() { return (this.h1 >>> 0).toString(16).padStart(8, '0') + (this.h2 >>> 0).toString(16).padStart(8, '0'); }
}

export const stats = {};
export function hit(name, by = 1) { stats[name] = (stats[name] ?? 0) + by; }

export class Violation extends Error {
    constructor(cls, detail) { super(detail); this.cls = cls; }
}
export function fail(cls, detail) { throw new Violation(cls, detail); }

// ---------------------------------------------------------------------------------- real library

export class Native {
    constructor(toPath, fromPath) {
        this.to = fs.openSync(toPath, 'w');
        this.from = fs.openSync(fromPath, 'r');
        this.cache = new Map();
        this.cacheBytes = 0;
    }
    ask(bytes) {
        const head = Buffer.alloc(4);
        head.writeUInt32LE(bytes.length);
        const q = Buffer.concat([head, bytes]);
        for (let at = 0; at < q.length;) at += fs.writeSync(this.to, q, at, q.length - at);
        const n = this.read(4).readUInt32LE();
        return this.read(n);
    }
    read(n) {
        const b = Buffer.alloc(n);
        for (let at = 0; at < n;) {
            const k = fs.readSync(this.from, b, at, n - at);
            if (k === 0) throw new Error('INFRASTRUCTURE: the native library is gone');
            at += k;
        }
        return b;
    }
    html(lang, flags, tokens, text, source) {
        const key = `${lang} ${flags} ${tokens} ${text} ${Buffer.from(source).toString('latin1')}`;
        const c = this.cache.get(key);
        if (c) return c;
        const q = Buffer.alloc(17 + source.length);
        q[0] = 'H'.charCodeAt(0);
        [lang, flags, tokens, text].forEach((v, i) => q.writeUInt32LE(v >>> 0, 1 + 4 * i));
        q.set(source, 17);
        const a = this.ask(q);
        const status = a.readUInt32LE(0), en = a.readUInt32LE(4);
        const error = a.subarray(8, 8 + en).toString();
        let p = 8 + en;
        const nc = a.readUInt32LE(p);
        p += 4;
        const chunks = [];
        for (let i = 0; i < nc; ++i, p += 4) chunks.push(a.readUInt32LE(p));
        const hn = a.readUInt32LE(p);
        const res = { status, error, chunks, html: a.subarray(p + 4, p + 4 + hn) };
        this.cacheBytes += key.length + hn;
        if (this.cacheBytes > 30e6) {
            this.cache.clear();
            this.cacheBytes = 0;
        }
        this.cache.set(key, res);
        return res;
    }
    langId(bytes) {
        return this.ask(Buffer.concat([Buffer.from('L'), Buffer.from(bytes)])).readUInt32LE(0);
    }
    /** Names of highlight types, long to short. */
    types() {
        const a = this.ask(Buffer.from('N'));
        let p = 0;
        const num = () => { const v = a.readUInt32LE(p); p += 4; return v; };
        const str = () => { const n = num(); const s = a.subarray(p, p + n).toString(); p += n; return s; };
        const types = new Map();
        for (let n = num(); n--;) types.set(str(), str());
        return types;
    }
    tables() {
        const a = this.ask(Buffer.from('T'));
        let p = 0;
        const num = () => { const v = a.readUInt32LE(p); p += 4; return v; };
        const str = () => { const n = num(); const s = a.subarray(p, p + n); p += n; return s; };
        const list = [], display = [];
        for (let n = num(); n--;) { const name = str(); list.push({ name, id: num() }); }
        for (let n = num(); n--;) display.push(str());
        return { list, display };
    }
}

// ------------------------------------------------------------------------------ simulated module

const page = 65536;
const guard = 16;
const guardByte = 0xfd;

/** The compiled library as JavaScript sees it: real code behind, simulated memory and faults. */
export class Module {
    /** faults: consulted at every call; see `Faults`. */
    constructor(layout, native, tables, history, pages = 5) {
        this.l = layout;
        this.native = native;
        this.history = history;
        this.buffer = new ArrayBuffer(pages * page);
        this.live = new Map();
        this.free_ = [];
        this.notify = () => { };
        this.faults = {};
        this.calls = { alloc: 0, html: 0 };
        this.problems = [];
        const self = this;
        this.memory = { get buffer() { return self.buffer; } };
        this.table = new WebAssembly.Table({ element: 'anyfunc', initial: 3 });
        // static data
        let at = 1024;
        const put = bytes => { new Uint8Array(this.buffer).set(bytes, at); const r = at; at += bytes.length + 1; return r; };
        const aligned = n => { at = (at + 7) & ~7; const r = at; at += n; return r; };
        const names = tables.list.map(e => put(e.name));
        const displays = tables.display.map(d => put(d));
        this.listAt = aligned(tables.list.length * layout.size_entry);
        this.displayAt = aligned(tables.display.length * layout.size_view);
        this.lengthAt = aligned(4);
        const v = this.view();
        tables.list.forEach((e, i) => {
            const b = this.listAt + i * layout.size_entry;
            v.setUint32(b + layout.off_entry_name, names[i], true);
            v.setUint32(b + layout.off_entry_name_length, e.name.length, true);
            v.setUint32(b + layout.off_entry_lang, e.id, true);
        });
        tables.display.forEach((d, i) => {
            const b = this.displayAt + i * layout.size_view;
            v.setUint32(b + layout.off_view_text, displays[i], true);
            v.setUint32(b + layout.off_view_length, d.length, true);
        });
        v.setUint32(this.lengthAt, tables.list.length, true);
        this.errorAt = aligned(512);
        this.tagAt = put(Buffer.from('h-'));
        this.attrAt = put(Buffer.from('data-h'));
        this.heapStart = this.top = (at + 63) & ~63;
        const global = value => new WebAssembly.Global({ value: 'i32' }, value);
        this.exports = {
            memory: this.memory,
            __indirect_function_table: this.table,
            _initialize: () => { },
            ulight_lang_list: global(this.listAt),
            ulight_lang_list_length: global(this.lengthAt),
            ulight_lang_display_names: global(this.displayAt),
            ulight_alloc: (n, a) => this.alloc(n >>> 0, a >>> 0, 'alloc'),
            ulight_free: (p, n, a) => this.free(p >>> 0, n >>> 0, a >>> 0),
            ulight_new: () => this.newState(),
            ulight_delete: s => this.deleteState(s >>> 0),
            ulight_get_lang: (p, n) => this.native.langId(this.bytes(p >>> 0, n >>> 0)),
            ulight_source_to_html: s => this.toHtml(s >>> 0),
        };
    }
    view() { return new DataView(this.buffer); }
    bytes(p, n) {
        if (p + n > this.buffer.byteLength) throw new WebAssembly.RuntimeError('memory access out of bounds');
        return new Uint8Array(this.buffer, p, n).slice();
    }
    problem(s) { this.problems.push(s); }
    grow(pages) {
        this.buffer = this.buffer.transfer(this.buffer.byteLength + pages * page); // detaches the old one
        hit('memory-grows');
        this.history.ev('grow', this.buffer.byteLength);
        this.notify(0);
    }
    alloc(n, align, kind) {
        const k = this.calls.alloc++;
        const f = this.faults;
        if (f.fail_at !== undefined && k >= f.fail_at && k < f.fail_at + (f.fail_for ?? 1)) {
            hit('allocation-fails');
            this.failed = (this.failed ?? 0) + 1;
            this.history.ev('alloc-fails', k);
            return 0;
        }
        if (f.grow?.includes(k)) this.grow(1);
        align = Math.max(align, 1);
        let i = this.free_.findIndex(b => b.n === n && b.p % align === 0), p;
        if (i >= 0) {
            p = this.free_[i].p;
            this.free_.splice(i, 1);
        } else {
            p = Math.ceil((this.top + guard) / align) * align;
            const end = p + n + guard;
            if (end > this.buffer.byteLength) this.grow(Math.ceil((end - this.buffer.byteLength) / page));
            this.top = end;
        }
        const u = new Uint8Array(this.buffer);
        u.fill(guardByte, p - guard, p);
        u.fill(0xa5, p, p + n);
        u.fill(guardByte, p + n, p + n + guard);
        this.live.set(p, { n, align, kind });
        this.history.ev(kind, k, p, n, align);
        return p;
    }
    free(p, n, align, kind = 'alloc') {
        if (p === 0) return;
        const b = this.live.get(p);
        this.history.ev('free', p, n, align);
        if (!b) return this.problem(`${p} (${n} bytes) was freed, but is not allocated`);
        if (b.kind !== kind || b.n !== n || b.align !== align) {
            this.problem(`allocated by ${b.kind} with size ${b.n}, alignment ${b.align}; freed by ${kind} with size ${n}, alignment ${align}`);
        }
        this.checkGuards(p, b);
        this.live.delete(p);
        new Uint8Array(this.buffer).fill(0xdd, p, p + b.n);
        this.free_.push({ p, n: b.n });
    }
    checkGuards(p, b) {
        const u = new Uint8Array(this.buffer);
        for (let i = 1; i <= guard; ++i) {
            if (u[p - i] !== guardByte || u[p + b.n + i - 1] !== guardByte) {
                return this.problem(`memory next to an allocation of ${b.n} bytes was overwritten`);
            }
        }
    }
    newState() {
        const p = this.alloc(this.l.size_state, this.l.align_state, 'state');
        if (p === 0) return 0;
        new Uint8Array(this.buffer).fill(0, p, p + this.l.size_state);
        const v = this.view();
        v.setUint32(p + this.l.off_html_tag_name, this.tagAt, true);
        v.setUint32(p + this.l.off_html_tag_name_length, 2, true);
        v.setUint32(p + this.l.off_html_attr_name, this.attrAt, true);
        v.setUint32(p + this.l.off_html_attr_name_length, 6, true);
        return p;
    }
    deleteState(p) { this.free(p, this.l.size_state, this.l.align_state, 'state'); }

    inside(p, n, what) { // [p, p + n) has to lie within one live allocation
        for (const [q, b] of this.live) {
            if (p >= q && p + n <= q + b.n) return true;
        }
        this.problem(`${what} at ${p} with ${n} bytes is not allocated memory`);
        return false;
    }
    toHtml(s) {
        const call = this.calls.html++;
        const f = { ...this.faults };
        // Minimised scenarios may lack some of this.
        if (f.status) f.status = { chunk: 0, text: 'failed', ...f.status, code: f.status.code || 1 };
        const L = this.l;
        this.converted = (this.converted ?? 0) + 1;
        if (this.live.get(s)?.kind !== 'state') {
            this.problem('the state is not allocated');
            return 4;
        }
        let v = this.view();
        const get = k => v.getUint32(s + L['off_' + k], true);
        const source = get('source'), n = get('source_length'), lang = get('lang'), flags = get('flags');
        const tb = get('token_buffer'), tn = get('token_buffer_length'), xb = get('text_buffer'), xn = get('text_buffer_length');
        const fn = get('flush_text'), data = get('flush_text_data');
        const ok = (n === 0 || this.inside(source, n, 'the source')) & this.inside(tb, tn * L.size_token, 'the token buffer')
            & this.inside(xb, xn, 'the text buffer');
        this.lang = lang;
        if (!ok) return 4;
        if (tb % L.align_token !== 0) this.problem('the token buffer is not aligned');
        if (get('html_tag_name') !== this.tagAt || get('html_tag_name_length') !== 2 || get('html_attr_name') !== this.attrAt || get('html_attr_name_length') !== 6) {
            this.problem('the names of tags and attributes were overwritten');
        }
        const callback = fn < this.table.length ? this.table.get(fn) : null;
        const setError = (status, text) => {
            const t = Buffer.from(text).subarray(0, 500);
            new Uint8Array(this.buffer).set(t, this.errorAt);
            v = this.view();
            v.setUint32(s + L.off_error, this.errorAt, true);
            v.setUint32(s + L.off_error_length, t.length, true);
            this.errorText = t.toString();
            this.history.ev('status', status);
            return status;
        };
        const bytes = this.bytes(source, n);
        this.capacities = [Math.min(tn, 1 << 20), Math.min(xn, 1 << 22)];
        const r = this.native.html(lang, flags, ...this.capacities, bytes);
        if (r.status === 0 && !callback) {
            this.problem('there is no function to flush text into');
            return 1;
        }
        if (f.grow_html?.includes(0)) this.grow(1);
        let sizes = r.chunks;
        if (f.chunks) { // another way to cut the same output
            const rng = new Rng(f.chunks);
            sizes = [];
            const most = Math.min(xn, rng.chance(1, 2) ? rng.logu(8) : rng.logu(20000), 1 << 22);
            for (let at = 0; at < r.html.length;) {
                const k = Math.min(r.html.length - at, 1 + rng.below(most));
                sizes.push(k);
                at += k;
                if (sizes.length > 3000) { // the rest in big pieces
                    while (at < r.html.length) {
                        const big = Math.min(xn, r.html.length - at);
                        sizes.push(big);
                        at += big;
                    }
                }
            }
            hit('output-cut-elsewhere');
        }
        let at = 0, k = 0;
        for (const size of sizes) {
            if (f.status && (f.status.html ?? 0) === call && f.status.chunk <= k) break;
            if (f.trap !== undefined && f.trap <= k) break;
            new Uint8Array(this.buffer).set(r.html.subarray(at, at + size), xb);
            if (at > 0 && (r.html[at] & 0xc0) === 0x80) hit('flush-inside-character');
            callback(data, xb, size);
            new Uint8Array(this.buffer).fill(0xee, xb, xb + size);
            at += size;
            ++k;
            if (f.grow_html?.includes(k)) this.grow(1);
        }
        if (f.trap !== undefined) {
            hit('module-traps');
            this.trapped = true;
            throw new WebAssembly.RuntimeError('unreachable');
        }
        if (f.status && (f.status.html ?? 0) === call) {
            hit('conversion-fails');
            this.failedStatus = f.status.code;
            return setError(f.status.code, f.status.text);
        }
        if (r.status !== 0) {
            hit('library-rejects');
            this.failedStatus = r.status;
            return setError(r.status, r.error);
        }
        return 0;
    }
}

/** What a page loads: stands in for fetch and WebAssembly. */
export function loader(module, flushModuleBytes, settle = x => x) {
    return {
        fetch: async name => {
            await settle('fetch ' + name);
            const bytes = new Uint8Array(flushModuleBytes);
            return { ok: true, bytes: async () => bytes, arrayBuffer: async () => bytes.buffer, name };
        },
        WebAssembly: {
            instantiateStreaming: async (response, imports) => {
                await response;
                module.notify = x => imports.env?.emscripten_notify_memory_growth?.(x);
                await settle('instantiate');
                return { module: {}, instance: { exports: module.exports } };
            },
            // synchronous compilation: no background threads in the simulation
            compile: async bytes => new WebAssembly.Module(bytes),
            instantiate: async (m, imports) => m instanceof WebAssembly.Module
                ? new WebAssembly.Instance(m, imports)
                : { module: new WebAssembly.Module(m), instance: new WebAssembly.Instance(new WebAssembly.Module(m), imports) },
            Module: WebAssembly.Module,
            Instance: WebAssembly.Instance,
            RuntimeError: WebAssembly.RuntimeError,
        },
    };
}
