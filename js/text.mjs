// Texts: parts of the corpus, repeated, cut, with multi-byte characters.
import fs from 'node:fs';
import path from 'node:path';

export function loadCorpus(dir) {
    const docs = [];
    for (let l = 1; l <= 25; ++l) {
        const out = [];
        for (const kind of ['.pack', '.snip']) try {
            const b = fs.readFileSync(path.join(dir, l + kind));
            for (let p = 0; p < b.length;) {
                const e = b.indexOf(10, p);
                if (e < 0) break;
                const n = Number(b.subarray(p, e).toString());
                if (n < 4000) out.push(b.subarray(e + 1, e + 1 + n));
                p = e + 1 + n;
            }
        } catch { /* no such language */ }
        docs[l] = out;
    }
    return docs;
}

const special = ['é', 'ß', '→', '\u{1F600}', '\u2028', '\uFEFF', '<', '&', '>', '"', '\n', '\r\n', '\t', 'x', '{', '}', '\0', '\ud800', '\u{10ffff}', '漢字'];

/** A string (as a user would type or paste it). */
export function genText(r, docs, lang, max = 3000) {
    let s = '';
    if (r.chance(1, 12)) return '';
    if (docs[lang]?.length && r.chance(3, 4)) {
        const d = r.pick(docs[lang]).toString();
        const at = r.chance(1, 2) ? 0 : r.below(d.length);
        s = d.substr(at, r.logu(max));
    }
    for (let n = r.logu(8) - 1; n-- > 0;) {
        const at = r.below(s.length + 1);
        let w = r.pick(special);
        if (r.chance(1, 6)) w = w.repeat(r.logu(50));
        s = s.slice(0, at) + w + s.slice(at);
    }
    return s;
}
