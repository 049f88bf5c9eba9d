// C23: the theme generator (scripts/theme-to-css.cjs) on a simulated disk, with faults.
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import { createRequire } from 'node:module';
import { fail, hit } from './core.mjs';

const libraries = createRequire('/opt/veriftools/node/node_modules/x.js');
const words = ['ulight', 'github', 'vs', 'vs_plus', 'wg21', 'night', 'a', 'solar_flare', 'zebra', 'x9'];
const colours = ['#fff', '#1e1e1e', 'red', '#12345678', 'rgb(1, 2, 3)', 'rgba(0 0 0 / 40%)', 'hsl(120, 50%, 50%)', 'var(--c)', 'currentcolor', '#ABC'];
const locales = ['en', 'en', 'de', 'th', 'da', 'lt', 'et', 'ja', 'cs'];

// ------------------------------------------------------------------------------------- generation

function genTheme(r, env) {
    const t = {};
    const palette = {};
    const names = [];
    for (let n = r.chance(1, 2) ? r.range(1, 6) : 0; n--;) {
        const name = r.pick(['bg', 'fg', 'accent', 'red', 'blue', 'dim', 'a', 'b']) + (r.chance(1, 3) ? r.below(4) : '');
        palette[name] = names.length && r.chance(1, 3) ? '$' + r.pick(names) : r.pick(colours);
        if (!names.includes(name)) names.push(name);
    }
    if (names.length && r.chance(1, 20)) palette[r.pick(names)] = '$' + r.pick(names); // perhaps a cycle
    if (names.length && r.chance(1, 20)) palette[r.pick(names)] = r.pick([5, null, {}, 0, true]);
    const colour = () => names.length && r.chance(1, 2) ? '$' + r.pick(names) : r.pick(colours);
    const value = () => {
        if (r.chance(1, 200)) return r.pick(['', '$nothing', '$', '$constructor']);
        if (!r.chance(1, 5)) return colour();
        const o = {};
        for (let n = r.range(1, 3); n--;) {
            const p = r.pick(['color', 'font-weight', 'font-style', 'text-decoration', 'background-color', 'opacity', 'content']);
            o[p] = p === 'font-weight' ? r.pick(['bold', 700, 'normal']) : p === 'opacity' ? 0.5 : p === 'content' ? r.pick(['"\u00e9\u2192"', '"\u{1f600}"', '"x"']) : p.endsWith('color') ? colour() : r.pick(['italic', 'underline', 'none']);
        }
        return o;
    };
    const variant = () => {
        const v = {};
        const keys = [...env.types.keys()];
        const n = r.chance(1, 10) ? keys.length : r.logu(30);
        if (r.chance(1, 2)) v.background = r.chance(1, 60) ? { color: 'red' } : colour();
        for (let i = 0; i < n; ++i) {
            // families, of which the general one has to come first
            const k = n === keys.length ? keys[i] : r.pick(keys);
            v[k] = value();
            if (r.chance(1, 2)) {
                const near = keys.filter(x => x.startsWith(k.split('-')[0]));
                v[r.pick(near)] = value();
            }
        }
        if (r.chance(1, 2)) v.foreground = r.chance(1, 60) ? { color: 'red' } : colour();
        if (r.chance(1, 60)) v[r.pick(['nonsense', 'name_var', 'Name', 'constructor', 'toString', 'kw', ''])] = colour();
        return v;
    };
    const parts = [];
    parts.push(['meta', { name: 'x', author: 'light' }]);
    if (r.chance(1, 2)) parts.push(['$schema', './ulight-theme.schema.json']);
    if (Object.keys(palette).length || r.chance(1, 5)) parts.push(['palette', palette]);
    if (r.chance(4, 5)) parts.push(['light', variant()]);
    if (r.chance(4, 5)) parts.push(['dark', variant()]);
    if (r.chance(1, 60)) parts.push([r.pick(['Light', 'sepia', 'darker', 'toString']), variant()]);
    while (parts.length) {
        const i = r.below(parts.length);
        t[parts[i][0]] = parts[i][1];
        parts.splice(i, 1);
    }
    return t;
}

function genText(r, env) {
    if (r.chance(1, 4)) return r.pick(env.themes);
    const s = JSON.stringify(genTheme(r, env), null, r.pick([0, 1, 4]));
    return s;
}

function damage(r, s) {
    if (r.chance(1, 3)) return s.slice(0, r.below(s.length + 1));
    const b = Buffer.from(s);
    for (let n = r.range(1, 3); n-- && b.length;) {
        const i = r.below(b.length);
        b[i] ^= 1 << r.below(7);
    }
    return b.toString('latin1');
}

export function generate(r, env) {
    const ops = [];
    const put = dir => {
        let name = r.pick(words) + '.json';
        if (r.chance(1, 30)) name = r.pick(['ulight-theme.schema.json', 'notes.txt', 'two.dots.json', 'x.json.bak']);
        let text = name === 'notes.txt' ? 'no theme' : genText(r, env);
        if (r.chance(1, 25)) {
            text = damage(r, text);
            hit('theme-damaged');
        }
        ops.push({ op: 'put', name: dir + '/' + name, text });
        return dir + '/' + name;
    };
    const files = [];
    for (let n = r.range(1, 4); n--;) files.push(put('themes'));
    for (let n = r.range(1, 3); n--;) {
        if (r.chance(1, 3)) files.push(put('themes'));
        const o = { op: 'run', input: r.chance(1, 2) ? 'themes' : r.pick(files), args: [], locale: r.pick(locales), order: r.below(1000) };
        if (r.chance(1, 30)) o.input = r.pick(['nothing', 'nothing.json']);
        if (r.chance(2, 3)) o.output = r.pick(['out.css', 'css/theme.css', 'themes.css']);
        if (r.chance(1, 2)) o.args.push(r.pick(['-t', '--themed']));
        if (r.chance(1, 4)) o.args.push(r.pick(['-B', '--no-block-background']));
        if (r.chance(1, 4)) o.args.push(r.pick(['-F', '--no-foreground']));
        if (r.chance(1, 5)) o.args.push(r.pick(['-M', '--cowel']));
        if (r.chance(1, 3)) {
            const f = o.faults = {};
            switch (r.below(5)) {
                case 0: f.read = { at: r.below(4), code: r.pick(['EIO', 'EACCES', 'ENOENT', 'EMFILE']) }; break;
                case 1: f.readdir = r.pick(['EIO', 'EACCES']); break;
                case 2: f.stat = r.pick(['EIO', 'EACCES']); break;
                case 3: f.write = { code: r.pick(['ENOSPC', 'EIO', 'EDQUOT']), after: r.chance(1, 3) ? 0 : r.logu(3000) }; break;
                case 4: f.open = r.pick(['EACCES', 'EROFS', 'EISDIR', 'ENOENT']); break;
            }
        }
        ops.push(o);
    }
    if (r.chance(1, 40)) ops.push({ op: 'shipped' });
    return { ops };
}

// -------------------------------------------------------------------------------------- reference

class Bad extends Error { }

/** The rules that a theme has to turn into; throws `Bad` if it is no valid theme. */
function expected(env, file, text, o) {
    let theme;
    try {
        theme = JSON.parse(text);
    } catch {
        throw new Bad('not JSON');
    }
    let name = '';
    if (o.themed) {
        name = file.slice(file.lastIndexOf('/') + 1);
        if (name.lastIndexOf('.') > 0) name = name.slice(0, name.lastIndexOf('.'));
        name = name.replace('_', '-');
        if (name.includes('.')) throw new Bad('name');
    }
    const own = (x, k) => x !== null && typeof x === 'object' && Object.prototype.hasOwnProperty.call(x, k);
    const resolve = v => {
        const seen = new Set();
        while (typeof v === 'string' && v.startsWith('$')) {
            const n = v.slice(1);
            if (seen.has(n) || !own(theme.palette, n)) throw new Bad('palette');
            seen.add(n);
            v = theme.palette[n];
            if (typeof v !== 'string') throw new Bad('palette');
        }
        return v;
    };
    if (theme === null || typeof theme !== 'object' || Array.isArray(theme)) throw new Bad('no object');
    const rules = [];
    for (const themedPass of o.cowel ? [false, true] : [false]) {
        for (const [variant, data] of Object.entries(theme)) {
            if (['meta', 'palette', '$schema'].includes(variant)) continue;
            if (variant !== 'light' && variant !== 'dark') throw new Bad('variant');
            if (data === null || typeof data !== 'object') throw new Bad('variant');
            const media = name === '' && !themedPass ? variant : '';
            const prefix = name !== '' ? `[data-ulight-theme=${variant}-${name}]` : themedPass ? `html.${variant}` : '';
            for (const [key, value] of Object.entries(data)) {
                const ground = key === 'background' || key === 'foreground';
                if (ground && typeof value !== 'string') throw new Bad('ground');
                if (key === 'background' && o.noBackground || key === 'foreground' && o.noForeground) continue;
                let selectors;
                if (ground) {
                    const c = key === 'background' ? ['.ulight-code-block'] : ['.ulight-code', '.ulight-code-block'];
                    selectors = prefix === '' ? c : c.flatMap(x => [prefix + x, prefix + ' ' + x]);
                } else {
                    if (!env.types.has(key)) throw new Bad('type');
                    selectors = [(prefix === '' ? '' : prefix + ' ') + `h-[data-h^=${env.types.get(key)}]`];
                }
                let decls;
                if (typeof value === 'string') {
                    if (value === '') throw new Bad('empty');
                    const c = resolve(value);
                    decls = key === 'background' ? [['background-color', c], ['border-color', c]] : [['color', c]];
                } else {
                    if (value === null || typeof value !== 'object') throw new Bad('value');
                    decls = Object.entries(value).map(([p, v]) => [p, String(resolve(v))]);
                }
                rules.push({ media, selectors: selectors.sort(), decls });
            }
        }
    }
    return rules;
}

/** Is it clear what a theme with these names and values means? A damaged one may contain anything. */
function tame(text) {
    try {
        JSON.parse(text, (k, v) => {
            if (/[{};@\\<>*\x00-\x1f\x7f-\xbf]|[^\S ]/.test(k) || typeof v === 'string' && /[{};@\\*\x00-\x1f\x7f-\xbf]|[^\S ]|^\s|\s$|\s\s/.test(v)) throw new Bad('untame');
            if (Array.isArray(v) || v === null || typeof v === 'boolean') throw new Bad('untame');
            return v;
        });
    } catch (e) {
        return !(e instanceof Bad);
    }
    return true;
}

/** Parses a stylesheet as far as themes need it. */
function parseCss(css) {
    const rules = [];
    let p = 0;
    css = css.replace(/\/\*[^]*?\*\//g, ' ');
    const block = media => {
        while (true) {
            const open = css.indexOf('{', p), close = css.indexOf('}', p);
            if (close !== -1 && (open === -1 || close < open)) {
                if (media === '') fail('not-css', `unexpected } at ${close}`);
                if (css.slice(p, close).trim() !== '') fail('not-css', 'text without a block: ' + css.slice(p, close).trim().slice(0, 60));
                p = close + 1;
                return;
            }
            if (open === -1) {
                if (media !== '' || css.slice(p).trim() !== '') fail('not-css', 'a block is not closed');
                return;
            }
            const prelude = css.slice(p, open).trim().replace(/\s+/g, ' ');
            p = open + 1;
            const m = /^@media ?\( ?prefers-color-scheme ?: ?(light|dark) ?\)$/.exec(prelude);
            if (m) {
                block(m[1]);
                continue;
            }
            const end = css.indexOf('}', p);
            if (end === -1) fail('not-css', 'a block is not closed');
            const decls = css.slice(p, end).split(';').map(d => d.trim()).filter(d => d !== '').map(d => {
                const c = d.indexOf(':');
                return [d.slice(0, c).trim(), d.slice(c + 1).trim()];
            });
            rules.push({ media, selectors: prelude.split(',').map(s => s.trim().replace(/"/g, '')).sort(), decls });
            p = end + 1;
        }
    };
    block('');
    return rules;
}

function compare(what, css, want, ordered) {
    const got = parseCss(css);
    const count = new Map();
    for (const r of want) count.set(JSON.stringify(r), (count.get(JSON.stringify(r)) ?? 0) + 1);
    for (const r of got) {
        const s = JSON.stringify(r), n = count.get(s) ?? 0;
        if (n === 0) fail('wrong-stylesheet', what + 'contains ' + s + ', which no theme asks for');
        count.set(s, n - 1);
    }
    for (const [s, n] of count) {
        if (n !== 0) fail('wrong-stylesheet', what + 'lacks ' + s);
    }
    if (!ordered) return; // several themes for the same elements: none of them takes precedence
    // of two rules that match the same element the later one wins, so the special one has to follow
    const last = new Map();
    got.forEach((r, i) => {
        for (const s of r.selectors) {
            const m = /^(.*)h-\[data-h\^=(\w+)\]$/.exec(s);
            if (m) last.set(r.media + '|' + m[1], (last.get(r.media + '|' + m[1]) ?? new Map()).set(m[2], i));
        }
    });
    for (const [group, g] of last) {
        for (const [a, i] of g) {
            for (let k = 1; k < a.length; ++k) {
                const j = g.get(a.slice(0, k));
                if (j !== undefined && j > i) fail('wrong-stylesheet', what + `${group}: the rule for ${a.slice(0, k)} overrides that for ${a}`);
            }
        }
    }
}

// ------------------------------------------------------------------------------------- simulation

class Exit { }

function simulatedDisk(disk, faults, order, state) {
    const err = (code, call, p) => {
        state.faults++;
        hit(call + '-fails-' + code);
        return systemError(code, call, p);
    };
    const systemError = (code, call, p) => Object.assign(new Error(`${code}: simulated, ${call} '${p}'`), { code, syscall: call, path: p, errno: -5 });
    const norm = p => path.posix.normalize(String(p)).replace(/\/$/, '');
    const isDir = p => p === '.' || [...disk.keys()].some(k => k.startsWith(p + '/')) || p === 'css';
    const alive = () => { if (state.exited) throw state.exited; };
    let reads = 0, room = faults.write ? faults.write.after ?? 0 : Infinity;
    const list = p => {
        const names = [...new Set([...disk.keys()].filter(k => p === '.' || k.startsWith(p + '/')).map(k => (p === '.' ? k : k.slice(p.length + 1)).split('/')[0]))];
        // any order; the operating system decides
        let h = order;
        for (let i = names.length - 1; i > 0; --i) {
            h = (Math.imul(h, 1103515245) + 12345) >>> 0;
            const j = (h >>> 8) % (i + 1);
            [names[i], names[j]] = [names[j], names[i]];
        }
        return names;
    };
    const stats = p => ({ isDirectory: () => isDir(p) && !disk.has(p), isFile: () => disk.has(p), isSymbolicLink: () => false, size: disk.get(p)?.length ?? 0 });
    const stat = (p0, o) => {
        alive();
        const p = norm(p0);
        if (faults.stat) throw err(faults.stat, 'stat', p);
        if (!disk.has(p) && !isDir(p)) {
            if (o?.throwIfNoEntry === false) return undefined;
            throw systemError('ENOENT', 'stat', p);
        }
        return stats(p);
    };
    const store = (p, data, append) => {
        let old = append ? disk.get(p) ?? Buffer.alloc(0) : Buffer.alloc(0);
        const n = Math.min(room, data.length);
        room -= n;
        state.wrote.add(p);
        disk.set(p, Buffer.concat([old, data.subarray(0, n)]));
        if (n < data.length) throw err(faults.write.code ?? 'ENOSPC', 'write', p);
    };
    const openForWriting = p => {
        if (faults.open) throw err(faults.open, 'open', p);
        const dir = path.posix.dirname(p);
        if (!isDir(dir)) throw systemError('ENOENT', 'open', p);
        if (isDir(p) && !disk.has(p)) throw systemError('EISDIR', 'open', p);
    };
    const bytes = (d, enc) => typeof d === 'string' ? Buffer.from(d, enc ?? 'utf8') : Buffer.from(d.buffer ?? d, d.byteOffset ?? 0, d.byteLength);
    const encoding = o => typeof o === 'string' ? o : o?.encoding;
    const fds = new Map();
    let nextFd = 10;
    const target = p => typeof p === 'number' ? fds.get(p)?.p : norm(p);
    const write = (p0, data, o, append) => {
        alive();
        if (p0 === 1 || p0 === '/dev/stdout') return void state.stdout.push(bytes(data, encoding(o)).toString());
        if (p0 === 2 || p0 === '/dev/stderr') return void state.stderr.push(bytes(data, encoding(o)).toString());
        const p = target(p0);
        if (typeof p0 !== 'number') openForWriting(p);
        store(p, bytes(data, encoding(o)), append || typeof p0 === 'number' || String(o?.flag ?? '').startsWith('a'));
    };
    const f = {
        lstatSync: stat,
        statSync: stat,
        existsSync: p => { alive(); return disk.has(norm(p)) || isDir(norm(p)); },
        accessSync: p => { stat(p); },
        readdirSync: (p0, o) => {
            alive();
            const p = norm(p0);
            if (faults.readdir) throw err(faults.readdir, 'scandir', p);
            if (disk.has(p)) throw systemError('ENOTDIR', 'scandir', p);
            if (!isDir(p)) throw systemError('ENOENT', 'scandir', p);
            const l = list(p);
            return o?.withFileTypes ? l.map(name => ({ name, parentPath: p, path: p, ...stats(p === '.' ? name : p + '/' + name) })) : l;
        },
        readFileSync: (p0, o) => {
            alive();
            const p = target(p0);
            const k = reads++;
            if (faults.read && (faults.read.at ?? 0) === k) throw err(faults.read.code ?? 'EIO', 'read', p);
            if (isDir(p) && !disk.has(p)) throw systemError('EISDIR', 'read', p);
            if (!disk.has(p)) throw systemError('ENOENT', 'open', p);
            const b = Buffer.from(disk.get(p));
            return encoding(o) ? b.toString(encoding(o)) : b;
        },
        writeFileSync: (p, d, o) => write(p, d, o, false),
        appendFileSync: (p, d, o) => write(p, d, o, true),
        openSync: (p0, flags = 'r') => {
            alive();
            const p = norm(p0);
            if (/[wa]/.test(flags)) {
                openForWriting(p);
                if (flags.includes('w')) { state.wrote.add(p); disk.set(p, Buffer.alloc(0)); }
                else if (!disk.has(p)) disk.set(p, Buffer.alloc(0));
            } else if (!disk.has(p)) throw systemError('ENOENT', 'open', p);
            fds.set(nextFd, { p });
            return nextFd++;
        },
        writeSync: (fd, d, ...r) => {
            const b = typeof d === 'string' ? Buffer.from(d) : Buffer.from(d).subarray(r[0] ?? 0, (r[0] ?? 0) + (r[1] ?? d.length));
            if (room > 0 && room < b.length) { // the first part is written, and the next call meets the error
                const n = room;
                state.faults++;
                hit('short-write');
                write(fd, b.subarray(0, n));
                return n;
            }
            write(fd, b);
            return b.length;
        },
        closeSync: fd => { fds.delete(fd); },
        fsyncSync: () => { alive(); },
        renameSync: (a, b) => {
            alive();
            if (!disk.has(norm(a))) throw systemError('ENOENT', 'rename', norm(a));
            state.wrote.add(norm(b));
            disk.set(norm(b), disk.get(norm(a)));
            disk.delete(norm(a));
        },
        unlinkSync: p => { alive(); if (!disk.delete(norm(p))) throw systemError('ENOENT', 'unlink', norm(p)); },
        rmSync: (p, o) => { alive(); if (!disk.delete(norm(p)) && !o?.force) throw systemError('ENOENT', 'rm', norm(p)); },
        mkdirSync: () => { alive(); },
        copyFileSync: (a, b) => f.writeFileSync(b, f.readFileSync(a)),
        constants: fs.constants,
    };
    f.promises = Object.fromEntries(Object.entries(f).filter(([k]) => k.endsWith('Sync'))
        .map(([k, g]) => [k.slice(0, -4), async (...a) => g(...a)]));
    return f;
}

let onRejection = () => { };

async function runTool(op, env, disk) {
    const state = { exited: null, rejected: undefined, code: undefined, stdout: [], stderr: [], wrote: new Set(), faults: 0 };
    const args = ['-i', op.input, ...(op.output !== undefined ? ['-o', op.output] : []), ...op.args ?? []];
    const simFs = simulatedDisk(disk, op.faults ?? {}, op.order ?? 0, state);
    const process = {
        argv: ['node', 'scripts/theme-to-css.cjs', ...args],
        env: {}, platform: 'linux', cwd: () => '/', on() { return process; }, once() { return process; }, emit() { },
        exitCode: undefined,
        exit(code) {
            if (!state.exited) {
                state.code = code ?? process.exitCode ?? 0;
                state.exited = new Exit();
            }
            throw state.exited;
        },
        stdout: { write: (s, ...a) => { if (!state.exited) state.stdout.push(String(s)); a.findLast(x => typeof x === 'function')?.(); return true; }, isTTY: false, columns: 80 },
        stderr: { write: s => { state.stderr.push(String(s)); return true; }, isTTY: false },
    };
    const say = (...a) => { state.stderr.push(a.map(String).join(' ')); };
    const out = (...a) => { if (!state.exited) state.stdout.push(a.map(String).join(' ') + '\n'); };
    const makeYargs = (a = args) => libraries('yargs/yargs')(a).exitProcess(false).fail((m, e) => { if (!state.exited) say(String(m ?? e)); process.exit(1); });
    const require_ = name => {
        switch (name.replace(/^node:/, '')) {
            case 'fs': return simFs;
            case 'fs/promises': return simFs.promises;
            case 'yargs': {
                let y;
                const get = () => y ??= makeYargs();
                return new Proxy(a => makeYargs(a), { get: (_, k) => { const v = get()[k]; return typeof v === 'function' ? v.bind(get()) : v; } });
            }
            case 'yargs/yargs': return makeYargs;
            case 'yargs/helpers': return { hideBin: a => a.slice(2) };
            case 'process': return process;
            default: return libraries(name);
        }
    };
    const module = { exports: {} };
    const collator = new Intl.Collator(op.locale ?? 'en');
    env.context.setCollator((a, b) => collator.compare(a, b));
    let thrown;
    onRejection = e => { if (!(e instanceof Exit)) state.rejected ??= e; };
    try {
        env.script(require_, process, { error: say, warn: say, log: out, info: out, debug: out }, module, module.exports, '/scripts/theme-to-css.cjs', '/scripts');
    } catch (e) {
        if (!(e instanceof Exit)) {
            thrown = e;
            if (String(e?.message).startsWith('Cannot find module')) throw new Error('INFRASTRUCTURE: ' + e.message);
            if (['ReferenceError', 'SyntaxError'].includes(e?.name)) fail('exception', String(e?.stack ?? e));
        }
    }
    for (let i = 0; i < 3; ++i) await new Promise(setImmediate); // an asynchronous script ends here
    onRejection = () => { };
    thrown ??= state.exited ? undefined : state.rejected;
    if (['ReferenceError', 'SyntaxError'].includes(state.rejected?.name)) fail('exception', String(state.rejected.stack));
    const status = state.exited ? state.code : thrown !== undefined ? 1 : process.exitCode ?? 0;
    return { ...state, status, thrown };
}

const flags = ['-t', '--themed', '-B', '--no-block-background', '-F', '--no-foreground', '-M', '--cowel'];

/** Minimising may make nonsense of an operation; that is left out. */
function validRun(op) {
    const filename = /^[a-z][a-z0-9_./-]*$/;
    return typeof op.input === 'string' && filename.test(op.input)
        && (op.output === undefined || typeof op.output === 'string' && filename.test(op.output))
        && (op.args === undefined || Array.isArray(op.args) && op.args.every(a => flags.includes(a)) && new Set(op.args).size === op.args.length)
        && (op.locale === undefined || locales.includes(op.locale))
        && (op.order === undefined || Number.isInteger(op.order));
}

export async function execute(sc, env, history) {
    const disk = new Map();
    let number = 0;
    for (const op of sc.ops) {
        const what = `step ${number++}: `;
        hit('calls');
        if (op.op === 'put') {
            if (typeof op.name !== 'string' || typeof op.text !== 'string' || !/^themes\/[a-z]/.test(op.name)) continue;
            disk.set(op.name, Buffer.from(op.text));
            history.ev('put', op.name, op.text);
            continue;
        }
        if (op.op === 'shipped') {
            const want = Object.entries(env.themeFiles).flatMap(([f, t]) => expected(env, f, t, { themed: true }));
            compare('www/css/theme.css ', env.shipped, want, true);
            history.ev('shipped', env.shipped.length);
            continue;
        }
        if (op.op !== 'run' || !validRun(op)) continue;
        const before = new Map([...disk].map(([k, v]) => [k, v.toString('latin1')]));
        const any = (...l) => (op.args ?? []).some(a => l.includes(a));
        const o = { themed: any('-t', '--themed'), noBackground: any('-B', '--no-block-background'), noForeground: any('-F', '--no-foreground'), cowel: any('-M', '--cowel') };
        // what should happen
        let want = [], bad = null, clear = true;
        const inDir = [...disk.keys()].filter(k => k.startsWith(op.input + '/') && k.endsWith('.json') && !k.endsWith('/ulight-theme.schema.json'));
        const files = disk.has(op.input) ? [op.input] : inDir;
        if (!disk.has(op.input) && op.input !== 'themes') bad = 'input';
        for (const f of files) {
            const text = disk.get(f).toString();
            clear &&= tame(text);
            try {
                want.push(...expected(env, f, text, o));
            } catch (e) {
                if (!(e instanceof Bad)) throw e;
                bad ??= e.message;
            }
        }
        const r = await runTool(op, env, disk);
        history.ev('run', op.input, op.args, op.output ?? '', 'status', r.status, r.faults, r.stdout.join(''));
        const written = op.output === undefined ? r.stdout.join('') : disk.get(op.output)?.toString();
        const success = r.status === 0;
        hit(success ? 'runs:succeed' : 'runs:fail');
        if (bad) hit('themes:' + bad.replace(' ', '-'));
        for (const [k, v] of disk) {
            if (k !== op.output && before.has(k) && before.get(k) !== v.toString('latin1')) fail('input-changed', what + `${k} was changed`);
        }
        for (const k of before.keys()) {
            if (!disk.has(k)) fail('input-changed', what + `${k} was removed`);
        }
        if (success) {
            if (bad && clear) fail('failure-not-reported', what + `exit status 0, but a theme is invalid (${bad})`);
            if (bad) continue;
            if (written === undefined) fail('failure-not-reported', what + 'exit status 0, but nothing was written');
            if (op.output !== undefined && r.stdout.join('') !== '' && parseCss(r.stdout.join('')).length) fail('wrong-stylesheet', what + 'the stylesheet went to standard output, too');
            if (clear) compare(what, written, want, o.themed || files.length === 1);
        } else {
            if (!bad && r.faults === 0 && clear) fail('wrong-failure', what + `exit status ${r.status}, but nothing failed: ${r.stderr.join(' ').slice(0, 300)} ${r.thrown ?? ''}`);
            if (r.thrown === undefined && r.stderr.join('').trim() === '') fail('failure-not-reported', what + 'failed without any message');
            const writing = op.faults?.write !== undefined && r.faults > 0;
            if (op.output !== undefined && !writing && (before.get(op.output) !== disk.get(op.output)?.toString('latin1'))) {
                fail('output-damaged', what + `failed before the output was written, but ${op.output} was changed`);
            }
            if (op.output === undefined && r.stdout.join('') !== '') fail('output-damaged', what + 'failed, but wrote to standard output');
        }
    }
}

export async function prepare(env) {
    process.on('unhandledRejection', e => onRejection(e));
    const source = fs.readFileSync(path.join(env.repo, 'scripts/theme-to-css.cjs'), 'utf8').replace(/^#!.*/, '');
    const context = vm.createContext({ Buffer, URL, TextDecoder, TextEncoder });
    env.context = {
        setCollator: vm.runInContext(`(f => { String.prototype.localeCompare = function (o) { return f(String(this), String(o)); }; })`, context),
    };
    env.script = vm.runInContext(`(function (require, process, console, module, exports, __filename, __dirname) {${source}\n})`, context,
        { filename: 'scripts/theme-to-css.cjs' });
    env.types = env.native.types();
    env.themeFiles = {};
    for (const f of fs.readdirSync(path.join(env.repo, 'themes')).sort()) {
        if (f.endsWith('.json') && f !== 'ulight-theme.schema.json') env.themeFiles['themes/' + f] = fs.readFileSync(path.join(env.repo, 'themes', f), 'utf8');
    }
    env.themes = Object.values(env.themeFiles);
    env.shipped = fs.readFileSync(path.join(env.repo, 'www/css/theme.css'), 'utf8');
}
