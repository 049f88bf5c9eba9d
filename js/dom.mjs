// A small document: what the live editor uses of the DOM, and a bit more.

export class Ev {
    constructor(type, init = {}) {
        this.type = type;
        this.bubbles = !!init.bubbles;
        this.cancelable = init.cancelable ?? true;
        this.defaultPrevented = false;
        Object.assign(this, init);
    }
    preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
    stopPropagation() { this.stopped = true; }
    stopImmediatePropagation() { this.stopped = this.stoppedNow = true; }
}

export class Target {
    constructor(page) { this.page = page; this.listeners = []; }
    addEventListener(type, f, options) { this.listeners.push({ type, f, once: options?.once }); }
    removeEventListener(type, f) { this.listeners = this.listeners.filter(l => l.type !== type || l.f !== f); }
    dispatchEvent(e) {
        e.target ??= this;
        for (let t = this; t; t = e.bubbles ? t.parent : null) {
            e.currentTarget = t;
            for (const l of [...t.listeners]) {
                if (l.type !== e.type) continue;
                if (l.once) t.removeEventListener(l.type, l.f);
                try {
                    if (typeof l.f === 'function') l.f.call(t, e);
                    else l.f.handleEvent(e);
                } catch (x) {
                    t.page.uncaught(x);
                }
                if (e.stoppedNow) break;
            }
            const on = t['on' + e.type];
            if (typeof on === 'function') {
                try { on.call(t, e); } catch (x) { t.page.uncaught(x); }
            }
            if (e.stopped) break;
        }
        return !e.defaultPrevented;
    }
}

class ClassList {
    constructor() { this.s = new Set(); }
    add(...c) { c.forEach(x => this.s.add(x)); }
    remove(...c) { c.forEach(x => this.s.delete(x)); }
    contains(c) { return this.s.has(c); }
    toggle(c, force) {
        const on = force === undefined ? !this.s.has(c) : !!force;
        if (on) this.s.add(c); else this.s.delete(c);
        return on;
    }
    get length() { return this.s.size; }
}

function style() {
    const values = {};
    const track = /^(\+?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?fr|var\(--[\w-]+\)|\d+px|auto)$/;
    const kebab = k => k.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
    const set = (k, v) => {
        v = v === null ? '' : String(v);
        if (/^gridTemplate(Rows|Columns)$/.test(k) && v !== '' && !v.trim().split(/\s+/).every(t => track.test(t))) return; // not valid CSS
        values[k] = v;
    };
    return new Proxy({}, {
        get: (_, k) => k === 'setProperty' ? (n, v) => set(kebab(n), v)
            : k === 'removeProperty' ? n => { const o = values[kebab(n)] ?? ''; delete values[kebab(n)]; return o; }
                : k === 'getPropertyValue' ? n => values[kebab(n)] ?? '' : typeof k === 'string' ? values[k] ?? '' : undefined,
        set: (_, k, v) => { set(k, v); return true; },
    });
}

export class El extends Target {
    constructor(page, tag) {
        super(page);
        this.tagName = tag.toUpperCase();
        this.attrs = new Map();
        this.classList = new ClassList();
        this.style = style();
        this.childNodes = [];
        this.text = ''; // if there are no children
        this.html = null; // set through innerHTML
        this.rect = { left: 0, top: 0, width: 1000, height: 800 };
        this.dataset = new Proxy({}, {
            get: (_, k) => typeof k === 'string' ? this.getAttribute('data-' + k.replace(/[A-Z]/g, c => '-' + c.toLowerCase())) ?? undefined : undefined,
            set: (_, k, v) => { this.setAttribute('data-' + k.replace(/[A-Z]/g, c => '-' + c.toLowerCase()), v); return true; },
        });
    }
    get id() { return this.attrs.get('id') ?? ''; }
    get children() { return this.childNodes; }
    setAttribute(k, v) { this.attrs.set(k, String(v)); }
    getAttribute(k) { return this.attrs.get(k) ?? null; }
    hasAttribute(k) { return this.attrs.has(k); }
    removeAttribute(k) { this.attrs.delete(k); }
    get textContent() { return this.childNodes.length ? this.childNodes.map(c => c.textContent).join('') : this.text; }
    set textContent(v) { this.childNodes = []; this.html = null; this.text = v === null ? '' : String(v); }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    get innerHTML() { return this.html ?? this.text.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;'); }
    set innerHTML(v) { this.childNodes = []; this.text = ''; this.html = String(v); }
    appendChild(c) { this.childNodes.push(c); c.parent = this; return c; }
    append(...c) { c.forEach(x => this.appendChild(x)); }
    replaceChildren(...c) { this.childNodes = []; this.html = null; this.text = ''; this.append(...c); }
    getBoundingClientRect() { return { ...this.rect, x: this.rect.left, y: this.rect.top, right: this.rect.left + this.rect.width, bottom: this.rect.top + this.rect.height }; }
    focus() { }
    blur() { }
    get isConnected() { return true; }
}

export class TextArea extends El {
    constructor(page) { super(page, 'textarea'); this.dirty = false; this.raw = ''; this.selectionStart = this.selectionEnd = 0; }
    get value() { return (this.dirty ? this.raw : this.text).replace(/\r\n?/g, '\n'); }
    set value(v) {
        const old = this.value;
        this.raw = v === null ? '' : String(v);
        this.dirty = true;
        if (this.value !== old) this.selectionStart = this.selectionEnd = this.value.length;
    }
    get defaultValue() { return this.text; }
    set defaultValue(v) { this.textContent = v; }
    setSelectionRange(a, b) {
        const n = this.value.length;
        this.selectionEnd = Math.min(Math.max(b, 0), n);
        this.selectionStart = Math.min(Math.max(a, 0), this.selectionEnd);
    }
}

export class Select extends El {
    constructor(page) { super(page, 'select'); this.selectedIndex = -1; }
    get options() { return this.childNodes; }
    appendChild(c) {
        super.appendChild(c);
        if (this.selectedIndex < 0 && !this.unset) this.selectedIndex = 0;
        return c;
    }
    get value() { return this.selectedIndex < 0 ? '' : this.childNodes[this.selectedIndex].value; }
    set value(v) {
        this.selectedIndex = this.childNodes.findIndex(o => o.value === String(v));
    }
}

export class Option extends El {
    constructor(page) { super(page, 'option'); }
    get value() { return this.attrs.get('value') ?? this.textContent; }
    set value(v) { this.attrs.set('value', String(v)); }
}

export function make(page, tag) {
    switch (tag.toLowerCase()) {
        case 'textarea': return new TextArea(page);
        case 'select': return new Select(page);
        case 'option': return new Option(page);
        default: return new El(page, tag);
    }
}

/** Elements with ids, the options of selects, and inline scripts. Enough of HTML for index.html. */
export function parsePage(page, html) {
    const byId = new Map();
    let select = null;
    const body = html.replace(/<!--[\s\S]*?-->/g, '');
    const scripts = [...body.matchAll(/<script>([\s\S]*?)<\/script>/g)].map(m => m[1]);
    const tags = body.replace(/<script[\s\S]*?<\/script>/g, '').matchAll(/<(\/?)([a-zA-Z][\w-]*)((?:\s+[\w-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>"']+))?)*)\s*\/?>([^<]*)/g);
    for (const [, close, tag, attrs, text] of tags) {
        if (close) {
            if (tag.toLowerCase() === 'select') select = null;
            continue;
        }
        const el = make(page, tag);
        for (const [, k, , a, b, c] of attrs.matchAll(/([\w-]+)(\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>"']+)))?/g)) {
            el.setAttribute(k, a ?? b ?? c ?? '');
            if (k === 'class') el.classList.add(...(a ?? b ?? c ?? '').split(/\s+/).filter(Boolean));
        }
        el.text = tag.toLowerCase() === 'textarea' ? '' : text;
        if (el.tagName === 'SELECT') select = el;
        if (el.tagName === 'OPTION' && select) select.appendChild(el);
        if (el.id) byId.set(el.id, el);
    }
    return { byId, scripts };
}
