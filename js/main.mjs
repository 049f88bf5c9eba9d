// worker | replay | minimise for the JavaScript simulations.
import fs from 'node:fs';
import path from 'node:path';
import * as c17 from './c17.mjs';
import * as c18 from './c18.mjs';
import * as c23 from './c23.mjs';
import { Rng, History, Native, Violation, stats } from './core.mjs';
import { loadCorpus } from './text.mjs';

const args = JSON.parse(process.argv[2]);
const prop = { C17: c17, C18: c18, C23: c23 }[args.prop];
const env = {
    layout: JSON.parse(fs.readFileSync(args.layout)),
    native: new Native(args.to, args.from),
    flushModule: fs.readFileSync(path.join(args.repo, 'src/main/wasm/f_i32_i32_i32_to_void.wasm')),
    docs: loadCorpus(args.corpus),
};
env.tables = env.native.tables();
env.names = env.tables.list.map(e => e.name.toString());
env.repo = args.repo;
const read = name => fs.readFileSync(path.join(args.repo, 'www/js', name), 'utf8');
env.index = fs.readFileSync(path.join(args.repo, 'www/index.html'), 'utf8');
await prop.prepare(env, read);

function seedOf(master, worker, run) {
    let h = 0x9e3779b9;
    for (const v of [master, worker, run]) h = Math.imul((h ^ v) >>> 0, 0x85ebca6b) ^ (h >>> 13);
    return h >>> 0;
}

async function run(sc, keep = false) {
    const history = new History(keep);
    try {
        await prop.execute(sc, env, history);
        return { ok: true, cls: null, detail: '', hash: history.hash, history };
    } catch (e) {
        if (!(e instanceof Violation)) {
            if (String(e.message).startsWith('INFRASTRUCTURE')) throw e;
            // the page's code threw where nothing may be thrown
            return { ok: false, cls: 'exception', detail: String(e?.stack ?? e).slice(0, 600), hash: history.hash, history };
        }
        return { ok: false, cls: e.cls, detail: e.message, hash: history.hash, history };
    }
}

if (args.mode === 'worker') {
    const t0 = Date.now();
    const seen = new Set();
    const samples = [];
    const out = { runs: 0, first: args.first ?? 0, violation: null };
    const hashes = [];
    for (let k = args.first ?? 0; k < args.runs && (Date.now() - t0) / 1000 < args.cap; ++k) {
        if (args.some && out.runs >= args.some) break;
        const seed = seedOf(args.seed, args.worker, k);
        const sc = prop.generate(new Rng(seed), env);
        sc.prop = args.prop;
        sc.seed = seed;
        fs.writeFileSync(args.out + '.current', JSON.stringify(sc));
        const v = await run(sc);
        ++out.runs;
        seen.add(v.hash);
        if (args.hashes) hashes.push(v.hash);
        if (k < 2) samples.push(JSON.stringify(sc).slice(0, 500));
        if (!v.ok) {
            out.violation = { cls: v.cls, detail: v.detail, run: k };
            fs.writeFileSync(args.out + '.violation', JSON.stringify(sc));
            break;
        }
    }
    Object.assign(out, { histories: seen.size, stats, samples, wall: (Date.now() - t0) / 1000, hashes });
    fs.writeFileSync(args.out, JSON.stringify(out));
} else if (args.mode === 'replay') {
    const sc = JSON.parse(fs.readFileSync(args.file));
    const res = [];
    for (let i = 0; i < 2; ++i) {
        const v = await run(sc, args.log && i === 0);
        if (args.log && i === 0) console.log(v.history.lines.map(l => l.slice(0, 300)).join('\n'));
        res.push({ ok: v.ok, cls: v.cls, detail: v.detail, hash: v.hash });
    }
    console.log('REPLAY ' + JSON.stringify(res));
} else if (args.mode === 'minimise') {
    let best = JSON.parse(fs.readFileSync(args.file));
    const first = await run(best);
    const deadline = Date.now() + args.budget * 1000;
    const fails = async sc => {
        const v = await run(sc);
        return !v.ok && v.cls === first.cls;
    };
    const copy = x => JSON.parse(JSON.stringify(x));
    let changed = !first.ok;
    while (changed && Date.now() < deadline) {
        changed = false;
        const attempt = async edit => {
            if (Date.now() > deadline) return false;
            const c = copy(best);
            if (edit(c) === false || JSON.stringify(c).length >= JSON.stringify(best).length) return false;
            if (!await fails(c)) return false;
            best = c;
            changed = true;
            return true;
        };
        for (let block = Math.ceil(best.ops.length / 2); block >= 1; block = Math.floor(block / 2)) {
            for (let i = 0; i < best.ops.length;) {
                if (!await attempt(c => { c.ops.splice(i, block); })) i += block;
            }
        }
        // fields, texts, lists, of every operation
        const walk = async at => {
            const node = at.reduce((o, k) => o?.[k], best);
            if (node === undefined || node === null) return;
            if (typeof node === 'string' && at.length > 2 && !['op', 'name', 'lang', 'key', 'id', 'item'].includes(at.at(-1))) {
                const set = (c, v) => { at.slice(0, -1).reduce((o, k) => o[k], c)[at.at(-1)] = v; };
                for (let block = Math.ceil(node.length / 2); block >= 1; block = Math.floor(block / 2)) {
                    let cur = at.reduce((o, k) => o[k], best);
                    for (let i = 0; i < cur.length;) {
                        if (await attempt(c => set(c, cur.slice(0, i) + cur.slice(i + block)))) cur = at.reduce((o, k) => o[k], best);
                        else i += block;
                    }
                }
            } else if (typeof node === 'number' && at.length > 2 && Number.isInteger(node) && node > 9) {
                for (const v of [1, node >> 4, node >> 1]) {
                    await attempt(c => { at.slice(0, -1).reduce((o, k) => o[k], c)[at.at(-1)] = v; });
                }
            } else if (typeof node === 'object') {
                for (const k of Array.isArray(node) ? [...node.keys()].reverse() : Object.keys(node)) {
                    if (!(at.length === 0 && ['prop', 'seed', 'ops'].includes(k)) && k !== 'op' && !(at.length === 1)) {
                        if (at.length >= 2 && await attempt(c => {
                            const o = at.reduce((x, q) => x[q], c);
                            if (Array.isArray(o)) o.splice(k, 1);
                            else delete o[k];
                        })) continue;
                    }
                    await walk([...at, k]);
                }
            }
        };
        await walk([]);
    }
    fs.writeFileSync(args.out, JSON.stringify(best, null, 1) + '\n');
    console.log('MINIMISE ok');
}
process.exit(0);
