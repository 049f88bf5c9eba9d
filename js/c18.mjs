// C18: histories of using the live editor, with reloads, storage faults and failing conversions.
import vm from 'node:vm';
import { Module, loader, fail, hit, stats } from './core.mjs';
import { Ev, Target, El, make, parsePage } from './dom.mjs';
import { genText } from './text.mjs';

const themes = ['default', 'light-eelis', 'light-github', 'light-ulight', 'dark-eelis', 'dark-ulight', 'dark-vs', 'dark-wg21'];

function genFaults(r) {
    const f = {};
    switch (r.below(4)) {
        case 0: f.fail_at = r.below(10); if (r.chance(1, 3)) f.fail_for = 100; break;
        case 1: f.status = { html: r.below(2), chunk: r.below(2), code: r.range(1, 7), text: 'failed' }; break;
        case 2: f.trap = r.below(3); break;
        default: f.grow = [r.below(8)]; f.grow_html = [r.below(3)];
    }
    return f;
}

export function generate(r, env) {
    const ops = [{ op: 'load' }];
    const n = r.logu(20);
    let hold = 0;
    for (let i = 0; i < n; ++i) {
        const o = {};
        const early = hold > 0;
        if (hold > 0) --hold;
        switch (early ? r.pick([0, 0, 6, 7]) : r.below(11)) {
            case 0:
            case 1:
            case 2: {
                o.op = 'type';
                const before = ops.filter(x => x.op === 'type');
                if (before.length && r.chance(1, 3)) { // back to an earlier text, or nearly
                    o.text = r.pick(before).text;
                    if (r.chance(1, 4)) o.text = o.text.slice(r.below(3));
                    if (r.chance(1, 4)) o.text = o.text.slice(0, o.text.length - 1);
                } else {
                    o.text = genText(r, env.docs, r.range(1, 25), 300);
                    if (r.chance(1, 8)) o.text = `${r.below(30)}${o.text}`;
                }
                break;
            }
            case 3:
                o.op = 'key'; o.key = r.pick(['Tab', 'Tab', 'Enter', 'a']); o.shift = r.chance(1, 3);
                o.start = r.chance(1, 5) ? 0 : r.below(200); o.end = r.chance(2, 3) ? o.start : o.start + r.below(50);
                break;
            case 4: o.op = 'lang'; o.id = r.chance(1, 3) ? r.pick([1, 2, 11, 12, 21]) : r.range(1, 25); break;
            case 5: o.op = 'theme'; o.name = r.pick(themes); break;
            case 6: o.op = 'split'; o.vertical = r.chance(1, 2); break;
            case 7: {
                o.op = 'drag';
                o.moves = Array.from({ length: r.range(1, 3) }, () => [r.range(0, 1100) - 50, r.range(0, 900) - 50]);
                if (r.chance(1, 6)) o.hold = true; // the button is not released
                break;
            }
            case 8: o.op = 'quota'; o.limit = r.chance(1, 3) ? 1e9 : r.logu(600); break;
            default: {
                o.op = 'load';
                o.light = r.chance(1, 2);
                if (r.chance(1, 4)) o.hold = hold = r.range(1, 3);
            }
        }
        if (o.op !== 'quota' && r.chance(1, 4)) o.reject = r.chance(1, 2) ? [0, 1, 2, 3, 4] : [r.below(3)]; // storage writes
        if (['type', 'key', 'lang', 'load'].includes(o.op) && r.chance(1, 4)) o.faults = genFaults(r);
        ops.push(o);
    }
    if (r.chance(1, 2)) ops.push({ op: 'load' });
    return { ops };
}

class Storage {
    constructor(history) { this.m = new Map(); this.limit = 1e9; this.reject = []; this.history = history; this.writes = 0; this.rejected = 0; }
    used() { let n = 0; for (const [k, v] of this.m) n += k.length + v.length; return n; }
    getItem(k) { return this.m.get(String(k)) ?? null; }
    setItem(k, v) {
        k = String(k);
        v = String(v);
        const w = this.writes++;
        const full = this.used() - (this.m.has(k) ? k.length + this.m.get(k).length : 0) + k.length + v.length > this.limit;
        if (full || this.reject.includes(w)) {
            hit(full ? 'storage-full' : 'storage-rejects-write');
            this.rejected++;
            this.history.ev('rejects', k);
            const e = new Error('The quota has been exceeded.');
            e.name = 'QuotaExceededError';
            e.code = 22;
            throw e;
        }
        this.history.ev('stores', k, v);
        this.m.set(k, v);
    }
    removeItem(k) { this.m.delete(String(k)); }
    clear() { this.m.clear(); }
    key(i) { return [...this.m.keys()][i] ?? null; }
    get length() { return this.m.size; }
}

const compiled = new Map();
const tick = () => new Promise(r => setImmediate(r));

class Page {
    constructor(env, storage, history, light) {
        this.env = env;
        this.history = history;
        this.errors = [];
        this.timers = [];
        this.waiting = [];
        this.holding = false;
        const { byId, scripts } = parsePage(this, env.index);
        this.byId = byId;
        this.scripts = scripts;
        const document = new Target(this);
        this.document = document;
        document.body = make(this, 'body');
        document.documentElement = make(this, 'html');
        document.body.parent = document.documentElement;
        document.documentElement.parent = document;
        for (const e of byId.values()) e.parent = document.body;
        document.getElementById = id => byId.get(String(id)) ?? null;
        document.querySelector = q => q.startsWith('#') ? byId.get(q.slice(1)) ?? null : q === 'body' ? document.body : null;
        document.createElement = t => make(this, t);
        document.createTextNode = t => { const e = new El(this, 'text'); e.text = String(t); return e; };
        document.readyState = 'interactive';
        this.module = new Module(env.layout, env.native, env.tables, history, 3);
        const l = loader(this.module, env.flushModule, () => this.holding ? new Promise(r => this.waiting.push(r)) : undefined);
        const page = this;
        const globals = {
            document, localStorage: storage, console: { log() { }, warn() { }, error() { }, info() { }, debug() { } },
            Event: Ev, InputEvent: Ev, CustomEvent: Ev, KeyboardEvent: Ev, MouseEvent: Ev,
            TextDecoder, TextEncoder, fetch: l.fetch, WebAssembly: l.WebAssembly, queueMicrotask,
            matchMedia: q => ({ matches: /light/.test(q) ? light : !light, addEventListener() { }, media: q }),
            setTimeout: (f, ms = 0, ...a) => page.timers.push({ f: () => f(...a), ms }),
            clearTimeout: id => { if (page.timers[id - 1]) page.timers[id - 1] = null; },
            requestAnimationFrame: f => page.timers.push({ f: () => f(0), ms: 0 }),
            performance: { now: () => 0 },
        };
        this.context = vm.createContext(globals);
        const w = new Target(this);
        this.context.window = this.context.self = this.context; // window.x is the global x
        this.context.addEventListener = w.addEventListener.bind(w);
        this.context.removeEventListener = w.removeEventListener.bind(w);
    }
    uncaught(x) { this.errors.push(x); this.history.ev('uncaught', String(x?.message ?? x)); }
    el(id) { return this.byId.get(id); }

    async start() {
        for (const s of this.scripts) {
            try { vm.runInContext(s, this.context); } catch (e) { this.uncaught(e); }
        }
        const made = new Map();
        const get = name => {
            if (!made.has(name)) {
                const source = this.env.read18(name);
                const m = new vm.SourceTextModule(source, { context: this.context, identifier: name, cachedData: compiled.get(name) });
                if (!compiled.has(name)) compiled.set(name, m.createCachedData());
                made.set(name, m);
            }
            return made.get(name);
        };
        const main = get('live_edit.js');
        await main.link(spec => get(spec.replace(/^\.\//, '')));
        // a module whose dependency throws does not run, as in the browser
        this.done = false;
        main.evaluate().then(() => { this.done = true; }, e => { this.done = true; this.failedToLoad = e; });
        await this.settle();
    }
    async settle() {
        for (let i = 0; i < 40 && !this.done; ++i) {
            if (!this.holding) this.waiting.splice(0).forEach(r => r());
            await tick();
            if (this.holding && i >= 4) return;
        }
    }
    runTimers() {
        for (let i = 0; i < 1000 && this.timers.some(t => t); ++i) {
            const t = this.timers.shift();
            if (!t) continue;
            try { t.f(); } catch (e) { this.uncaught(e); }
        }
    }
}

const items = ['text', 'lang', 'theme', 'vertical', 'fraction'];

function frac(style) { // the split as displayed: [fraction of columns, fraction of rows]
    const one = s => {
        if (s === '') return null;
        const m = s.trim().split(/\s+/);
        const a = parseFloat(m[0]), b = parseFloat(m.at(-1));
        return Math.abs(a + b - 1) < 1e-6 ? a : NaN;
    };
    return [one(style.gridTemplateColumns), one(style.gridTemplateRows)];
}

export async function execute(sc, env, history) {
    const storage = new Storage(history);
    const dec = s => s.replace(/\r\n?/g, '\n');
    const init = { text: '', lang: 1, theme: 'default', vertical: false, fraction: null };
    let cur = { ...init };
    /** What may be saved: one value, or several after a write was rejected. */
    const saved = Object.fromEntries(items.map(k => [k, [init[k]]]));
    let page = null, light = false, loaded = false, hold = 0;
    let shown = null;
    let number = 0, what = '';
    let dragging = false;

    const resolve = t => t !== 'default' ? t : light ? 'light-ulight' : 'dark-ulight';
    const displayed = () => {
        const [c, r] = frac(page.el('container').style);
        return {
            text: page.el('code-input').value,
            lang: page.el('language-id').value,
            theme: page.el('theme-picker').value,
            vertical: page.document.body.classList.contains('vertical'),
            columns: c, rows: r,
            attrs: [page.document.documentElement, page.el('code-input-container'), page.el('output-container')].map(e => e.getAttribute('data-ulight-theme')),
        };
    };
    const checkLayout = () => {
        const d = displayed();
        if (d.attrs.some(a => a !== resolve(cur.theme)) || d.theme !== cur.theme) {
            fail('wrong-theme', what + `the theme is ${cur.theme}, but displayed are ${d.theme} and ${d.attrs}`);
        }
        if (d.vertical !== cur.vertical) fail('wrong-layout', what + `displayed ${d.vertical ? 'vertically' : 'horizontally'}`);
        const [on, off] = cur.vertical ? [d.rows, d.columns] : [d.columns, d.rows];
        if (off !== null || (cur.fraction === null ? on !== null : !(Math.abs(on - cur.fraction) < 1e-9))) {
            fail('wrong-layout', what + `the fraction is ${cur.fraction} (${cur.vertical ? 'vertical' : 'horizontal'}), but displayed are columns ${d.columns}, rows ${d.rows}`);
        }
    };
    const checkHighlight = converted => {
        const m = page.module;
        const failed = m.failed || m.trapped || m.failedStatus !== undefined;
        const input = page.el('code-highlight'), output = page.el('output');
        const text = page.el('code-input').value;
        const lang = Number(page.el('language-id').value);
        if (text !== cur.text) fail('wrong-text', what + 'the text in the editor changed');
        if (lang !== cur.lang) fail('wrong-language', what + `language ${lang} is selected, expected ${cur.lang}`);
        const caps = m.capacities ?? [5461, 65536];
        const bytes = new TextEncoder().encode(text);
        const a = env.native.html(lang, 0, ...caps, bytes);
        const b = env.native.html(4, 0, ...caps, a.html);
        const right = a.status === 0 && b.status === 0 && input.html === a.html.toString() && output.html === b.html.toString();
        const fallback = input.html === null && input.textContent === text && /rror/.test(output.html ?? output.textContent);
        if (right) {
            const n = t => t.split('\n').length;
            if (page.el('input-line-numbers').textContent.split('\n').length !== n(text) || page.el('output-line-numbers').textContent.split('\n').length !== n(output.html)) {
                fail('wrong-lines', what + 'the line numbers do not fit');
            }
            shown = 'right';
            return;
        }
        if (fallback && page.el('input-line-numbers').textContent.split('\n').length !== text.split('\n').length) fail('wrong-lines', what + 'the line numbers do not fit');
        if (fallback && (failed || a.status !== 0 || b.status !== 0 || (!converted && shown === 'fallback'))) {
            hit('probe:shown-without-highlighting');
            shown = 'fallback';
            return;
        }
        fail('stale-highlighting', what + (fallback ? 'nothing failed, but the text is not highlighted: ' + output.textContent.slice(0, 100)
            : `the highlighting does not belong to the text and language ${lang}: ${JSON.stringify((input.html ?? input.text).slice(0, 60))}, expected ${JSON.stringify(a.html.toString().slice(0, 60))}`));
    };
    const finishLoading = () => {
        if (page.failedToLoad) fail('exception', what + 'loading failed: ' + (page.failedToLoad?.stack ?? page.failedToLoad));
        if (!page.done) fail('hang', what + 'the page never finishes loading');
        loaded = true;
        if (Number(page.el('language-id').value) !== cur.lang) {
            fail('not-restored', what + `language ${page.el('language-id').value} is selected, saved is ${saved.lang.join(' or ')}`);
        }
        shown = null;
        checkHighlight(true);
        checkLayout();
    };

    for (const op of sc.ops) {
        what = `step ${number++} (${op.op}): `;
        history.ev('step', op.op);
        hit('events');
        if (op.op === 'quota') {
            storage.limit = op.limit;
            continue;
        }
        if (!page && op.op !== 'load') continue;
        storage.reject = op.reject ?? [];
        storage.writes = storage.rejected = 0;
        if (page) {
            const m = page.module;
            m.faults = op.faults ?? {};
            m.calls = { alloc: 0, html: 0 };
            m.failed = m.converted = 0;
            m.failedStatus = m.trapped = undefined;
            page.errors.length = 0;
        }
        const before = { ...cur };
        let changed = [];
        let converted = false;
        if (op.op === 'load') {
            if (page) hit(loaded ? 'reload' : 'reload-while-loading');
            light = !!op.light;
            page = new Page(env, storage, history, light);
            page.module.faults = op.faults ?? {};
            page.module.failed = 0;
            page.holding = !!op.hold;
            hold = op.hold ?? 0;
            loaded = dragging = false;
            await page.start();
            page.runTimers();
            const d = displayed();
            // everything most recently saved is back (the language follows when the list is there)
            if (!saved.text.some(t => dec(t) === d.text)) fail('not-restored', what + `the text is ${JSON.stringify(d.text.slice(0, 60))}, saved is ${JSON.stringify(saved.text.map(t => t.slice(0, 60)))}`);
            if (!saved.theme.includes(d.theme)) fail('not-restored', what + `the theme is ${d.theme}, saved is ${saved.theme.join(' or ')}`);
            if (!saved.vertical.includes(d.vertical)) fail('not-restored', what + `the orientation is ${d.vertical}, saved is ${saved.vertical.join(' or ')}`);
            const f = d.vertical ? d.rows : d.columns;
            if (!saved.fraction.some(s => s === null ? f === null : Math.abs(s - f) < 1e-9)) fail('not-restored', what + `the fraction is ${f}, saved is ${saved.fraction.join(' or ')}`);
            cur = { text: d.text, theme: d.theme, vertical: d.vertical, fraction: f, lang: saved.lang.at(-1) };
            if (!hold) {
                const l = Number(page.el('language-id').value);
                if (saved.lang.includes(l)) cur.lang = l;
                finishLoading();
            }
            for (const k of items) if (k !== 'lang' || !hold) saved[k] = [cur[k]];
        } else {
            const input = page.el('code-input');
            const user = (t, e) => t.dispatchEvent(e);
            switch (op.op) {
                case 'type':
                    input.value = op.text;
                    user(input, new Ev('input', { bubbles: true, cancelable: false, inputType: 'insertText' }));
                    cur.text = dec(op.text);
                    changed = ['text'];
                    converted = true;
                    break;
                case 'key': {
                    input.setSelectionRange(Math.min(op.start, input.value.length), Math.min(op.end, input.value.length));
                    const old = input.value;
                    const e = new Ev('keydown', { bubbles: true, key: op.key, shiftKey: op.shift });
                    if (user(input, e) && op.key !== 'Tab') {
                        const t = op.key === 'Enter' ? '\n' : op.key;
                        const [a, b] = [input.selectionStart, input.selectionEnd];
                        const v = input.value;
                        input.value = v.slice(0, a) + t + v.slice(b);
                        input.setSelectionRange(a + 1, a + 1);
                        user(input, new Ev('input', { bubbles: true, cancelable: false }));
                    }
                    cur.text = input.value;
                    if (cur.text !== old) changed = ['text'];
                    converted = cur.text !== old; // otherwise, there is no need to
                    break;
                }
                case 'lang': {
                    if (!loaded) break;
                    const s = page.el('language-id');
                    s.value = String(op.id);
                    user(s, new Ev('input', { bubbles: true }));
                    user(s, new Ev('change', { bubbles: true }));
                    cur.lang = op.id;
                    changed = ['lang'];
                    converted = true;
                    break;
                }
                case 'theme': {
                    if (!loaded) break;
                    const s = page.el('theme-picker');
                    s.value = op.name;
                    if (s.value !== op.name) { s.value = cur.theme; break; }
                    user(s, new Ev('input', { bubbles: true }));
                    user(s, new Ev('change', { bubbles: true }));
                    cur.theme = op.name;
                    changed = ['theme'];
                    break;
                }
                case 'split':
                    user(page.el(op.vertical ? 'button-split-vertical' : 'button-split-horizontal'), new Ev('click', { bubbles: true }));
                    if (cur.vertical !== op.vertical) changed = ['vertical'];
                    cur.vertical = op.vertical;
                    break;
                case 'drag': {
                    user(page.el('separator'), new Ev('mousedown', { bubbles: true, clientX: 0, clientY: 0 }));
                    const rect = page.el('container').getBoundingClientRect();
                    for (const [x, y] of op.moves) {
                        user(page.document.body, new Ev('mousemove', { bubbles: true, clientX: x, clientY: y }));
                        const f = cur.vertical ? (y - rect.top) / rect.height : (x - rect.left) / rect.width;
                        cur.fraction = Math.min(Math.max(f, 0.1), 0.9);
                        if (storage.rejected) (saved.fraction.includes(cur.fraction) || saved.fraction.push(cur.fraction));
                        else saved.fraction = [cur.fraction];
                    }
                    if (!op.hold) user(page.document.body, new Ev('mouseup', { bubbles: true }));
                    else user(page.document.body, new Ev('mouseup', { bubbles: true })); // released elsewhere, later
                    changed = ['fraction'];
                    break;
                }
            }
            page.runTimers();
            await Promise.resolve();
            // what may be saved now
            const early = !loaded;
            for (const k of items) {
                const add = v => { if (!saved[k].includes(v)) saved[k].push(v); };
                if (changed.includes(k)) {
                    if (storage.rejected || (early && k === 'text')) add(cur[k]);
                    else if (k !== 'fraction') saved[k] = [cur[k]];
                } else if (saved[k].at(-1) !== cur[k]) add(cur[k]); // saved along with another item
            }
            if (page.errors.length && !storage.rejected) fail('exception', what + 'uncaught: ' + (page.errors[0]?.stack ?? page.errors[0]));
            if (loaded) {
                checkHighlight(converted);
                checkLayout();
            } else if (--hold === 0) {
                page.holding = false;
                page.module.faults = {};
                await page.settle();
                page.runTimers();
                const l = Number(page.el('language-id').value);
                if (saved.lang.includes(l)) cur.lang = l;
                finishLoading();
                saved.lang = [cur.lang];
                if (!saved.text.includes(cur.text)) saved.text.push(cur.text);
            }
        }
        if (page.module.problems.length) fail('memory', what + page.module.problems[0]);
        if (page.module.live.size && !page.holding) fail('leak', what + 'memory of the module leaks');
        history.ev('state', cur.lang, cur.theme, cur.vertical, cur.fraction ?? 'none', shown ?? 'loading');
    }
}

export async function prepare(env, read) {
    const sources = new Map();
    env.read18 = name => {
        if (!sources.has(name)) sources.set(name, read(name));
        return sources.get(name);
    };
}
