// C17: histories of calls on the JavaScript binding.
import vm from 'node:vm';
import { Module, loader, fail, hit } from './core.mjs';
import { genText } from './text.mjs';

export function generate(r, env) {
    const ops = [];
    const n = r.logu(8);
    // Some names come up again and again, and so do whole calls.
    const favourites = [r.pick(env.names), r.pick(env.names)];
    const name = () => r.chance(1, 2) ? r.pick(favourites) : r.pick(env.names);
    for (let i = 0; i < n; ++i) {
        if (i > 0 && r.chance(1, 5)) {
            const again = JSON.parse(JSON.stringify(r.pick(ops)));
            if (r.chance(2, 3)) delete again.faults;
            ops.push(again);
            continue;
        }
        const op = {};
        switch (r.below(12)) {
            case 0: op.op = 'id'; op.name = r.chance(3, 4) ? name() : r.pick(['', 'x', 'JAVASCRIPT', 'c++ ', 'ü', 'cpp\0']); break;
            case 1: op.op = 'display'; op.key = r.chance(1, 2) ? r.range(1, 25) : name(); break;
            case 2: op.op = r.chance(1, 2) ? 'list' : 'length'; break;
            default: {
                op.op = 'html';
                const lang = r.range(1, 25);
                op.lang = r.chance(1, 3) ? name() : r.chance(1, 20) ? r.pick([0, 26, 255, 1000, -1]) : r.chance(1, 25) ? 'no such language' : lang;
                op.text = genText(r, env.docs, lang);
                if (r.chance(1, 12)) op.text = genText(r, env.docs, lang, 500) + 'é→x';
                if (op.text && r.chance(1, 14)) {
                    // more output than fits into one buffer
                    op.repeat = r.range(1, Math.ceil((r.chance(1, 4) ? 300000 : 70000) / op.text.length));
                }
                if (r.chance(1, 4)) {
                    op.bytes = true; // given as UTF-8
                    if (r.chance(1, 6)) op.cut = r.below(op.text.length * 2 + 1); // possibly inside a character
                }
            }
        }
        if (r.chance(1, 2)) {
            const f = {};
            if (r.chance(1, 2)) {
                f.fail_at = r.below(6);
                if (r.chance(1, 2)) f.fail_for = r.pick([2, 1000]);
            }
            if (r.chance(1, 2)) f.grow = [r.below(6), r.below(6)];
            if (r.chance(1, 3)) f.grow_html = [r.below(4), r.below(4)];
            if (r.chance(1, 2)) f.chunks = r.range(1, 1e6);
            if (r.chance(1, 5)) f.status = { chunk: r.below(4), code: r.range(1, 7), text: r.pick(['something failed', 'Fehler: ü', 'x']) };
            else if (r.chance(1, 10)) f.trap = r.below(4);
            op.faults = f;
        }
        ops.push(op);
    }
    return { ops };
}

function source(op) {
    let s = op.text.repeat(op.repeat ?? 1);
    if (!op.bytes) return { given: s, bytes: new TextEncoder().encode(s) };
    let b = new TextEncoder().encode(s);
    if (op.cut !== undefined) b = b.slice(0, op.cut);
    return { given: b, bytes: b };
}

export async function execute(sc, env, history) {
    const module = new Module(env.layout, env.native, env.tables, history, 3);
    const l = loader(module, env.flushModule);
    const errors = [];
    const console_ = { error: (...a) => errors.push(a.map(String).join(' ')), warn: () => { }, log: () => { }, info: () => { } };
    Object.assign(env.context17, { fetch: l.fetch, WebAssembly: l.WebAssembly, console: console_ });
    const wasm = await env.ns17.loadWasm();
    if (module.live.size) fail('leak', 'memory is allocated after loading');
    const decode = b => new TextDecoder('utf-8', { fatal: true, ignoreBOM: true }).decode(b);
    let number = 0;
    for (const op of sc.ops) {
        const what = `call ${number++} (${op.op}): `;
        const src = op.op === 'html' ? source(op) : null;
        module.faults = op.faults ?? {};
        module.calls = { alloc: 0, html: 0 };
        module.failed = module.converted = 0;
        module.failedStatus = module.trapped = module.errorText = undefined;
        errors.length = 0;
        let result, thrown, threw = false;
        history.ev('call', op.op);
        try {
            switch (op.op) {
                case 'id': result = wasm.getLanguageId(op.name); break;
                case 'display': result = wasm.getLanguageDisplayName(op.key); break;
                case 'list': result = wasm.getLanguageList(); break;
                case 'length': result = wasm.getLanguageListLength(); break;
                case 'html': result = wasm.toHtml(src.given, op.lang); break;
            }
            if (result instanceof Promise || typeof result?.then === 'function') result = await result;
        } catch (e) {
            threw = true;
            thrown = e;
        }
        history.ev('returns', threw ? `thrown ${typeof thrown === 'object' ? thrown?.name : thrown}` : typeof result === 'string' ? result : JSON.stringify(result));
        module.faults = {};
        if (module.problems.length) fail('memory', what + module.problems[0]);
        for (const [p, b] of module.live) module.checkGuards(p, b);
        if (module.problems.length) fail('memory', what + module.problems[0]);
        if (module.live.size) {
            const b = [...module.live.values()][0];
            fail('leak', what + `${module.live.size} allocations are never freed; the first has ${b.n} bytes` + (threw ? ' (after ' + thrown + ')' : ''));
        }
        const isError = e => e !== null && typeof e === 'object' && typeof e.message === 'string' && typeof e.name === 'string';
        if (module.failed) {
            if (threw) {
                if (!isError(thrown)) fail('wrong-failure', what + 'an allocation failed, and this was thrown: ' + thrown);
                if (['ReferenceError', 'TypeError', 'SyntaxError'].includes(thrown.name)) fail('wrong-failure', what + 'an allocation failed, and reporting it went wrong: ' + thrown);
                continue;
            }
            fail('failure-not-reported', what + 'an allocation failed, but the call returned');
        }
        if (module.trapped) {
            if (!threw || thrown?.name !== 'RuntimeError') fail('failure-not-reported', what + 'the module trapped, and the result is ' + (threw ? thrown : 'success'));
            continue;
        }
        if (op.op === 'html' && module.converted) {
            const id = typeof op.lang === 'string' ? env.native.langId(new TextEncoder().encode(op.lang)) : op.lang;
            if (module.lang !== id >>> 0) fail('wrong-result', what + `the library was asked for language ${module.lang}, expected ${id} for ${op.lang}`);
        }
        if (module.failedStatus !== undefined) {
            if (!threw) fail('failure-not-reported', what + `the conversion failed with status ${module.failedStatus}, but the call returned`);
            if (thrown !== module.failedStatus && !isError(thrown)) fail('wrong-failure', what + `the conversion failed with status ${module.failedStatus}, but ${thrown} was thrown`);
            if (isError(thrown) && ['ReferenceError', 'TypeError', 'SyntaxError'].includes(thrown.name)) fail('wrong-failure', what + 'reporting the failure went wrong: ' + thrown);
            if (!errors.join('\n').includes(module.errorText) && !String(thrown?.message).includes(module.errorText)) {
                fail('wrong-failure', what + `the library's error text is not reported: ${JSON.stringify(errors)}`);
            }
            continue;
        }
        if (op.op === 'html') {
            if (!module.converted) fail('wrong-result', what + 'nothing was converted' + (threw ? ': ' + thrown : ''));
            const id = typeof op.lang === 'string' ? env.native.langId(new TextEncoder().encode(op.lang)) : op.lang;
            const want = env.native.html(id, 0, ...module.capacities, src.bytes);
            let text;
            try {
                text = decode(want.html);
            } catch {
                hit('source-not-utf-8');
                if (!threw && result !== new TextDecoder('utf-8', { ignoreBOM: true }).decode(want.html)) {
                    fail('wrong-result', what + 'HTML that is not UTF-8 was neither rejected nor decoded to the end');
                }
                continue; // nothing more than that nothing leaks
            }
            if (threw) fail('wrong-result', what + 'nothing failed, but this was thrown: ' + thrown);
            if (result !== text) {
                let i = 0;
                while (i < text.length && result?.[i] === text[i]) ++i;
                fail('wrong-result', what + `the HTML differs at ${i} of ${text.length}: ${JSON.stringify(String(result).slice(i, i + 40))}, expected ${JSON.stringify(text.slice(i, i + 40))}`);
            }
        } else {
            if (threw) fail('wrong-result', what + 'nothing failed, but this was thrown: ' + thrown);
            let want;
            const id = k => typeof k === 'string' ? env.native.langId(new TextEncoder().encode(k)) : k;
            switch (op.op) {
                case 'id': want = id(op.name); break;
                case 'display': { const k = id(op.key); want = k === 0 ? null : env.tables.display[k].toString(); break; }
                case 'length': want = env.tables.list.length; break;
                case 'list': want = env.tables.list.map(e => ({ name: e.name.toString(), displayName: env.tables.display[e.id].toString(), id: e.id })); break;
            }
            if (JSON.stringify(result) !== JSON.stringify(want)) {
                fail('wrong-result', what + `${JSON.stringify(result)?.slice(0, 80)}, expected ${JSON.stringify(want)?.slice(0, 80)}`);
            }
        }
    }
}

export async function prepare(env, read) {
    const context = vm.createContext({ TextDecoder, TextEncoder, console });
    const m = new vm.SourceTextModule(read('ulight.js'), { context, identifier: 'ulight.js' });
    await m.link(() => { throw new Error('unexpected import'); });
    await m.evaluate();
    env.context17 = context;
    env.ns17 = m.namespace;
}
