'use strict';
// Configurations of fonts: a spec (plain data) and the files and the reference fonts made from it
const zlib = require('zlib');
const { Rng } = require('../wsim/rng.js');

const BLOCKS = [[0x0, 0x7F], [0x80, 0xFF], [0x100, 0x17F], [0x2000, 0x206F], [0x20A0, 0x20CF], [0x2100, 0x214F], [0x2190, 0x21FF], [0x2300, 0x23FF],
  [0x2460, 0x24FF], [0x25A0, 0x25FF], [0x2600, 0x26FF], [0x2700, 0x27BF], [0x2900, 0x297F], [0x2B00, 0x2BFF], [0x3000, 0x303F], [0x3200, 0x32FF],
  [0x3400, 0x4DBF], [0x4E00, 0x9FFF], [0xE000, 0xF8FF], [0xFF00, 0xFFEF], [0xFFF0, 0xFFFF], [0x1F000, 0x1F02F], [0x1F0A0, 0x1F0FF], [0x1F100, 0x1F1FF],
  [0x1F200, 0x1F2FF], [0x1F300, 0x1F5FF], [0x1F600, 0x1F64F], [0x1F680, 0x1F6FF], [0x1F780, 0x1F7FF], [0x1F900, 0x1F9FF], [0x1FA70, 0x1FAFF],
  [0x20000, 0x2A6DF], [0x2A700, 0x2B73F], [0x2B740, 0x2B81F], [0x2B820, 0x2CEAF], [0x2CEB0, 0x2EBEF], [0x2F800, 0x2FA1F], [0x30000, 0x3134F]];
const LATIN = ['Bold', 'Regular', 'Small'];
const ALL = ['Emoji', 'Hanzi', ...LATIN];

function murmur3(cps, seed) {
  const rot = (x, n) => (x << n) | (x >>> (32 - n));
  let h = seed | 0, len = 0;
  for (const c of cps) {
    len += c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    h = (Math.imul(rot(h ^ Math.imul(rot(Math.imul(c, 0xcc9e2d51), 15), 0x1b873593), 13), 5) + 0xe6546b64) | 0;
  }
  h ^= len;
  h = Math.imul(h ^ (h >>> 16), 0x85ebca6b);
  h = Math.imul(h ^ (h >>> 13), 0xc2b2ae35);
  return (h ^ (h >>> 16)) >>> 0;
}
const cps = hex => hex.split('-').map(x => parseInt(x, 16));

function genSet(r, name, fixed) {
  const latin = LATIN.includes(name);
  const size = fixed ? fixed[name] : latin ? 8 + r.below(25) : r.pick([1 + r.below(32), 16 + r.below(17), 32]);
  const gutter = r.below(4), border = r.p(0.5) ? gutter : r.below(4);
  const cols = latin ? 3 + r.below(4) : 1 + r.below(7);
  const s = {
    name, size, cols, gutter, border, m3Seed: r.p(0.3) ? 0 : r.u32(), indexType: r.p(0.5) ? 'txt-row-major' : 'json-grid-coord',
    trim: !latin && r.p(0.35) ? 'CJK' : 'proportional', legal: r.p(0.8), look: r.u32(),
    png: { type: r.pick(['gray1', 'gray8', 'rgb8', 'rgba8', 'pal1', 'pal8', 'gray16', 'rgba16']), filter: r.below(5), idat: r.pick([0, 0, 1 + r.below(200)]), level: r.below(10),
      text: r.p(0.2), short: r.p(0.2), extra: r.p(0.2) ? 1 + r.below(size + gutter) : 0, wide: r.p(0.3) ? 1 + r.below(2 * (size + gutter)) : 0, noise: r.p(0.4) },
    clusters: [], aliases: [], out: '../src/fonts/' + name.toLowerCase() + '.rs',
  };
  const blocks = Array.from({ length: 1 + r.below(5) }, () => r.pick(BLOCKS));
  const seen = new Set(), hashes = new Set();
  const accept = list => {
    const hex = list.map(c => { const h = c.toString(16); return r.p(0.3) ? h.toUpperCase() : r.p(0.05) ? '0' + h : h; }).join('-');
    const key = list.join('-'), h = murmur3(list, s.m3Seed);
    if (seen.has(key) || hashes.has(h)) return null;
    seen.add(key); hashes.add(h);
    return hex;
  };
  const cluster = () => {
    const b = r.pick(blocks);
    const first = r.p(0.15) ? r.pick(b) : b[0] + r.below(b[1] - b[0] + 1);
    const list = [seen.size && r.p(0.3) ? +r.pick([...seen]).split('-')[0] : first === 10 ? 11 : first];
    if (r.p(0.4)) {
      for (let n = 1 + r.below(r.p(0.3) ? 7 : 2); n > 0; n--)
        list.push(r.pick([0x300 + r.below(0x6F), 0xFE0F, 0x200D, 0x20E3, 0x1F3FB + r.below(5), 0x1F1E6 + r.below(26), b[0] + r.below(b[1] - b[0] + 1), 0x2640]));
    }
    return accept(list);
  };
  const want = 1 + r.below(r.p(0.1) ? 80 : 24);
  const cell = i => ({ row: Math.floor(i / cols), col: i % cols });
  for (let i = 0; i < want || (latin && i < 4); i++) {
    let hex = latin && i === 2 ? accept([0x20]) : latin && i === 3 ? accept([0xFFFD]) : null;
    while (!hex) hex = cluster();
    s.clusters.push({ hex, ...cell(i) });
  }
  if (s.indexType === 'json-grid-coord') { // any order, sprites used twice, unused cells
    const n = s.clusters.length + r.below(6);
    for (const [i, c] of s.clusters.entries()) if (!(latin && i === 2) && r.p(0.4)) {
      const t = r.below(n);
      if (!(latin && t === 2)) Object.assign(c, cell(t));
    }
    for (let i = s.clusters.length - 1; i > 0; i--) { const j = r.below(i + 1); [s.clusters[i], s.clusters[j]] = [s.clusters[j], s.clusters[i]]; }
  }
  if (r.p(0.6)) {
    s.useAliases = true;
    for (let n = r.below(10); n > 0; n--) { const a = cluster(); if (a) s.aliases.push([r.pick(s.clusters).hex, a]); }
  }
  s.rows = Math.max(...s.clusters.map(c => c.row)) + 1 + (r.p(0.2) ? 1 : 0);
  return s;
}

// Some sets of a family are cut from the sheet of another, with another seed, trimming or aliases
function genFamily(r) {
  let names = [...ALL];
  for (let i = names.length - 1; i > 0; i--) { const j = r.below(i + 1); [names[i], names[j]] = [names[j], names[i]]; }
  const sets = [];
  for (const name of names.slice(0, 2 + r.below(4))) {
    const kin = sets.filter(s => LATIN.includes(s.name) === LATIN.includes(name));
    if (!kin.length || r.p(0.5)) { sets.push(genSet(r, name)); continue; }
    const a = r.pick(kin), s = { ...a, name, base: a.base || a.name.toLowerCase(), out: '../src/fonts/' + name.toLowerCase() + '.rs' };
    if (r.p(0.7)) s.m3Seed = r.u32();
    if (r.p(0.4)) s.trim = s.trim === 'CJK' || LATIN.includes(name) ? 'proportional' : 'CJK';
    if (r.p(0.3)) Object.assign(s, { useAliases: false, aliases: [] });
    if (r.p(0.3)) s.legal = false;
    if (r.p(0.3)) { // an index of its own: some of the glyphs, other pictures for them
      s.ownIndex = true;
      s.clusters = s.clusters.slice(0, s.clusters.length - r.below(Math.max(1, s.clusters.length - 3))).map(c => ({ ...c }));
      if (s.indexType === 'json-grid-coord' && !LATIN.includes(name)) for (const c of s.clusters) if (r.p(0.2)) { const o = r.pick(a.clusters); Object.assign(c, { row: o.row, col: o.col }); }
    }
    if (s.useAliases && (s.ownIndex || r.p(0.4))) {
      s.ownAliases = true;
      s.aliases = s.aliases.filter(() => r.p(0.8)).map(x => [r.pick(s.clusters).hex, x[1]]);
    }
    sets.push(s);
  }
  for (const s of sets) { // the sheet's files are there also if only a relative names them
    const all = [...s.clusters.map(c => c.hex), ...s.aliases.map(a => a[1])].map(h => murmur3(cps(h), s.m3Seed));
    if (new Set(all).size < all.length) return genFamily(r);
  }
  return { sets, look: r.u32() };
}

function genWorld(r, five) {
  let names = [...ALL];
  for (let i = names.length - 1; i > 0; i--) { const j = r.below(i + 1); [names[i], names[j]] = [names[j], names[i]]; }
  if (!five) names = names.slice(0, 1 + r.below(3));
  // The five together: sizes that relate as those of the repository's fonts do, so that the library's line heights mean the same
  let [a, b, c] = [8 + r.below(25), 8 + r.below(25), 8 + r.below(25)].sort((x, y) => x - y);
  if (five && r.p(0.3)) c = 32;
  const sizes = five ? { Small: a, Regular: b, Bold: b, Emoji: c, Hanzi: c } : null;
  return { sets: names.map(n => genSet(r, n, sizes)), look: r.u32() };
}

// ---- two meanings for one hash
const blockOf = c => BLOCKS.findIndex(b => b[0] <= c && c <= b[1]);
const entries = s => [...s.clusters.map(c => ({ hex: c.hex, c })), ...(s.useAliases ? s.aliases : []).map(([a, hex]) => ({ hex, c: s.clusters.find(c => c.hex === a) }))]
  .map(e => ({ ...e, list: cps(e.hex), g: JSON.stringify(glyph(s, e.c.row, e.c.col), (k, v) => (v instanceof Uint8Array ? [...v].join('') : v)) }));
// 'mixed': clusters of one block share a hash and have different sprites; 'same': only the sprites agree; null: hashes tell all clusters apart
function conflict(w) {
  let found = null;
  for (const s of w.sets) {
    const by = new Map();
    for (const e of entries(s)) {
      const k = blockOf(e.list[0]) + ' ' + murmur3(e.list, s.m3Seed), o = by.get(k);
      if (!o) { by.set(k, e); continue; }
      if (o.g !== e.g) return 'mixed';
      found = 'same';
    }
  }
  return found;
}

// A cluster that begins in the block of `first` and whose hash is that of `list`
function twin(r, list, seed) {
  const rot = (x, n) => (x << n) | (x >>> (32 - n)), len = c => (c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4);
  const inv = a => { let x = a; for (let i = 0; i < 5; i++) x = Math.imul(x, 2 - Math.imul(a, x)); return x; };
  const key = c => Math.imul(rot(Math.imul(c, 0xcc9e2d51), 15), 0x1b873593), step = (h, c) => (Math.imul(rot(h ^ key(c), 13), 5) + 0xe6546b64) | 0;
  const state = l => l.reduce(step, seed | 0), bytes = l => l.reduce((a, c) => a + len(c), 0);
  const i5 = inv(5), ia = inv(0xcc9e2d51 | 0), ib = inv(0x1b873593), b = BLOCKS[blockOf(list[0])], end = state(list) ^ bytes(list);
  for (let t = 0; t < 300000; t++) {
    const head = [r.p(0.5) ? list[0] : b[0] + r.below(b[1] - b[0] + 1)];
    if (head[0] === 10 || head[0] > 0xD7FF && head[0] < 0xE000) continue;
    for (let n = t < 1000 ? 0 : 1 + r.below(2); n > 0; n--) head.push(0x20 + r.below(0xD000));
    const h = state(head), n = bytes(head);
    for (let k = 1; k <= 4; k++) { // bytes of the last code point
      const c = Math.imul(rot(Math.imul(rot(Math.imul((end ^ (n + k)) - 0xe6546b64, i5), 19) ^ h, ib), 17), ia) >>> 0;
      if (c < 0x110000 && c > 31 && (c < 0xD800 || c > 0xDFFF) && len(c) === k && murmur3([...head, c], seed) === murmur3(list, seed)) return [...head, c];
    }
  }
  return null;
}

// One set of the world gets two clusters that its hashes do not tell apart, or one cluster twice
function addConflict(r, w) {
  const i = r.below(w.sets.length), s = w.sets[i], n = s.clusters.length, latin = LATIN.includes(s.name);
  const put = list => {
    const c = { hex: (r.p(0.2) ? '0' : '') + list.map(x => x.toString(16)).join('-'), row: Math.floor(n / s.cols), col: n % s.cols };
    if (s.indexType === 'json-grid-coord' && r.p(0.5)) { const o = r.pick(s.clusters); if (!(latin && o.row === 0 && o.col === 2)) { c.row = o.row; c.col = o.col; } }
    s.clusters.splice(s.indexType === 'txt-row-major' ? n : r.below(n + 1), 0, c);
    s.rows = Math.max(s.rows, c.row + 1);
    return c;
  };
  const alias = list => {
    s.useAliases = true;
    s.aliases.splice(r.below(s.aliases.length + 1), 0, [r.pick(s.clusters).hex, (r.p(0.2) ? '0' : '') + list.map(x => x.toString(16)).join('-')]);
  };
  const known = entries(s).map(e => e.list), a = r.pick(known.slice(-(r.p(0.5) ? 3 : known.length)));
  const b = r.p(0.7) ? twin(r, a, s.m3Seed) : a;
  if (!b || (b === a && latin && s.indexType === 'txt-row-major' && n < 4)) return;
  if (b === a && r.p(0.2)) { const t = twin(r, a, s.m3Seed); if (t) alias(t); }
  if (r.p(0.5)) put(b); else alias(b);
}

// ---- sprites
function sprite(s, row, col) {
  const r = new Rng('sprite ' + s.look + ' ' + row + ' ' + col), n = s.size;
  const space = LATIN.includes(s.name) && row === 0 && col === 2;
  const kind = space ? 'blank' : r.pick(['dense', 'dense', 'box', 'sparse', 'pixel', 'edges', 'full', 'row', 'column', 'blank']);
  const m = Array.from({ length: n }, () => new Uint8Array(n));
  const x0 = r.below(n), x1 = x0 + r.below(n - x0), y0 = r.below(n), y1 = y0 + r.below(n - y0);
  for (let y = 0; y < n; y++) for (let x = 0; x < n; x++) {
    m[y][x] = { blank: () => 0, dense: () => r.p(0.5), box: () => x >= x0 && x <= x1 && y >= y0 && y <= y1 && r.p(0.6), sparse: () => r.p(0.03),
      pixel: () => x === x0 && y === y0, edges: () => x === 0 || y === 0 || x === n - 1 || y === n - 1, full: () => 1, row: () => y === y0, column: () => x === x0 }[kind]() ? 1 : 0;
  }
  return m;
}

const crcTable = Array.from({ length: 256 }, (_, n) => { for (let k = 0; k < 8; k++) n = n & 1 ? 0xedb88320 ^ (n >>> 1) : n >>> 1; return n >>> 0; });
const crc = b => { let c = 0xffffffff; for (const x of b) c = crcTable[(c ^ x) & 255] ^ (c >>> 8); return (c ^ 0xffffffff) >>> 0; };
function chunk(type, data) {
  const b = Buffer.alloc(12 + data.length);
  b.writeUInt32BE(data.length, 0); b.write(type, 4, 'latin1'); data.copy(b, 8);
  b.writeUInt32BE(crc(b.subarray(4, 8 + data.length)), 8 + data.length);
  return b;
}

function png(s) {
  const r = new Rng('png ' + s.look), g = s.size + s.gutter;
  const w = s.border + s.cols * g - (s.png.short ? s.gutter : 0) + s.png.wide, h = s.border + s.rows * g + s.png.extra;
  const px = Array.from({ length: h }, () => new Uint8Array(w)); // 1 = black
  if (s.png.noise) for (const l of px) for (let x = 0; x < w; x++) l[x] = r.p(0.5) ? 1 : 0;
  for (let row = 0; row < s.rows; row++) for (let col = 0; col < s.cols; col++)
    sprite(s, row, col).forEach((l, y) => l.forEach((v, x) => { px[s.border + row * g + y][s.border + col * g + x] = v; }));
  const t = s.png.type, depth = t.endsWith('16') ? 16 : t.endsWith('8') ? 8 : 1;
  const color = t.startsWith('gray') ? 0 : t.startsWith('rgba') ? 6 : t.startsWith('rgb') ? 2 : 3;
  const samples = { 0: 1, 2: 3, 3: 1, 6: 4 }[color], bpp = Math.max(1, samples * depth >> 3);
  const blackIndex = r.below(2);
  // Only black is ink: in some sheets the paper has shades, down to almost black
  const q = new Rng('shades ' + s.look), shades = q.p(0.3), paper = () => shades ? q.pick([255, 254, 128, 127, 2, 1, 1 + q.below(255)]) : 255;
  const paperIndexed = paper();
  const lines = px.map(l => {
    const o = [];
    if (depth === 1) {
      for (let x = 0; x < w; x += 8) { let b = 0; for (let k = 0; k < 8; k++) { const on = x + k < w && l[x + k]; b |= (color === 3 ? (on ? blackIndex : 1 - blackIndex) : on ? 0 : 1) << (7 - k); } o.push(b); }
      return Buffer.from(o);
    }
    for (let x = 0; x < w; x++) {
      if (color === 3) { o.push(l[x] ? blackIndex : 1 - blackIndex); continue; }
      const shade = paper(), high = shades && q.p(0.3) ? 0 : shade; // the high byte of 16 bits
      for (let c = 0; c < samples; c++) { const on = c < 3 && l[x]; if (depth === 16) o.push(c === 3 ? 255 : on ? 0 : high); o.push(c === 3 ? 255 : on ? 0 : shade); }
    }
    return Buffer.from(o);
  });
  const raw = [];
  let prev = Buffer.alloc(lines[0].length);
  for (const l of lines) {
    const f = s.png.filter === 4 ? r.below(5) : s.png.filter, o = Buffer.alloc(l.length + 1);
    o[0] = f;
    for (let i = 0; i < l.length; i++) {
      const a = i >= bpp ? l[i - bpp] : 0, b = prev[i], c = i >= bpp ? prev[i - bpp] : 0, p = a + b - c;
      const pa = Math.abs(p - a), pb = Math.abs(p - b), pc = Math.abs(p - c);
      o[i + 1] = l[i] - [0, a, b, (a + b) >> 1, pa <= pb && pa <= pc ? a : pb <= pc ? b : c][f];
    }
    raw.push(o); prev = l;
  }
  const z = zlib.deflateSync(Buffer.concat(raw), { level: s.png.level });
  const hdr = Buffer.alloc(13);
  hdr.writeUInt32BE(w, 0); hdr.writeUInt32BE(h, 4); hdr[8] = depth; hdr[9] = color;
  const out = [Buffer.from('89504e470d0a1a0a', 'hex'), chunk('IHDR', hdr)];
  if (s.png.text) out.push(chunk('tEXt', Buffer.from('Comment\0made by csim')));
  if (color === 3) { const p = Buffer.alloc(6, paperIndexed); p.fill(0, blackIndex * 3, blackIndex * 3 + 3); out.push(chunk('PLTE', p)); }
  // at most some thousands of chunks: a reader makes a few system calls for each
  for (let i = 0, n = s.png.idat ? Math.max(s.png.idat, Math.ceil(z.length / 2000)) : z.length; i < z.length; i += n) out.push(chunk('IDAT', z.subarray(i, i + n)));
  out.push(chunk('IEND', Buffer.alloc(0)));
  return Buffer.concat(out);
}

// ---- files of a world, relative to the codegen directory
function files(w) {
  const r = new Rng('files ' + w.look), f = {};
  const conf = { comment: ['made by csim'], glyphSets: [] };
  for (const s of w.sets) {
    const own = 'src_data/' + s.name.toLowerCase(), base = s.base ? 'src_data/' + s.base : own, spice = () => r.p(0.2);
    f[base + '.png'] = png(s);
    if (s.legal) f[base + '_legal.txt'] = Buffer.from((spice() ? '\n  ' : '') + '// Sprites of ' + s.name + '\n//\n// Copyright somebody ©\n' + (spice() ? ' \n\n' : ''));
    let index;
    if (s.indexType === 'txt-row-major') {
      index = (s.ownIndex ? own : base) + '_index.txt';
      const eol = spice() ? '\r\n' : '\n';
      let t = spice() ? '# index' + eol : '';
      for (const c of s.clusters) {
        if (r.p(0.05)) t += r.pick(['', '# not a cluster', '   ']) + eol;
        t += (r.p(0.1) ? ' ' : '') + c.hex + (r.p(0.1) ? r.pick([' # comment', '\t', '  ', '# x']) : '') + eol;
      }
      if (spice()) t = t.trimEnd();
      f[index] = Buffer.from(t);
    } else {
      index = (s.ownIndex ? own : base) + '_index.json';
      f[index] = Buffer.from(JSON.stringify({ comment: ['x'], map: s.clusters.map(c => ({ hex: c.hex, row: c.row, col: c.col, ...(r.p(0.3) ? { label: '"\\' } : {}) })) }, null, r.below(3)));
    }
    if (s.useAliases) {
      const eol = spice() ? '\r\n' : '\n', lead = spice() ? ['', '  ', '\t'] : [''], tail = spice() ? ['', '   # x', '\t', '\t# x y', ' ', '#x'] : ['', '', '   # x'];
      let t = spice() ? '\n\n# aliases' + eol + eol : '# aliases\n';
      for (const [a, b] of s.aliases) {
        if (r.p(0.05)) t += r.pick(['', '#', '# ' + a + ' ' + b, '   ', a]) + eol;
        t += r.pick(lead) + a + ' ' + b + r.pick(tail) + eol;
      }
      f[(s.ownAliases ? own : base) + '_aliases.txt'] = Buffer.from(spice() ? t.trimEnd() : t);
    }
    conf.glyphSets.push({ name: s.name, m3Seed: s.m3Seed, sprites: base + '.png', size: s.size, cols: s.cols, gutter: s.gutter, border: s.border,
      legal: s.legal ? base + '_legal.txt' : '', index, indexType: s.indexType, aliases: s.useAliases ? (s.ownAliases ? own : base) + '_aliases.txt' : '', glyphTrim: s.trim, rustout: s.out });
  }
  f['config.json'] = Buffer.from(JSON.stringify(conf, null, r.below(3)));
  return f;
}

// ---- reference fonts (the format of ref/fonts.bin)
function glyph(s, row, col) {
  let m = sprite(s, row, col);
  if (s.trim === 'CJK') return { w: s.size, h: s.size, y: 0, m };
  const n = s.size;
  let top = n, left = n, bottom = n, right = n;
  if (LATIN.includes(s.name) && row === 0 && col === 2) { left = right = Math.floor(n / 2) - 2; top = bottom = Math.floor(n / 2) - 1; }
  const blankRow = y => m[y].every(v => !v), blankCol = x => m.every(l => !l[x]);
  let x0 = 0, x1 = n, y0 = 0, y1 = n;
  while (x0 < x1 && x0 < left && blankCol(x0)) x0++;
  while (x1 > x0 && n - x1 < right && blankCol(x1 - 1)) x1--;
  if (x0 === x1) return { w: 0, h: 0, y: 0, m: [] };
  while (y0 < y1 && y0 < top && blankRow(y0)) y0++;
  while (y1 > y0 && n - y1 < bottom && blankRow(y1 - 1)) y1--;
  return { w: x1 - x0, h: y1 - y0, y: y0, m: m.slice(y0, y1).map(l => l.slice(x0, x1)) };
}
function reference(w) {
  const o = [Buffer.from('REF1')];
  const u = (n, v) => { const b = Buffer.alloc(n); b.writeUIntLE(v, 0, n); o.push(b); };
  for (const name of ALL) {
    const s = w.sets.find(x => x.name === name);
    u(1, s.size); u(4, s.m3Seed); u(2, 1); u(4, 0); u(4, 0x10ffff);
    u(4, s.clusters.length);
    for (const c of s.clusters) {
      const g = glyph(s, c.row, c.col);
      u(1, g.w); u(1, g.h); u(1, g.y);
      for (const l of g.m) u(4, l.reduce((a, v, x) => a + (v ? 2 ** x : 0), 0));
    }
    u(4, s.clusters.length + s.aliases.length);
    const put = (hex, i) => { const l = cps(hex); u(1, l.length); l.forEach(c => u(4, c)); u(4, i); };
    s.clusters.forEach((c, i) => put(c.hex, i));
    for (const [a, b] of s.aliases) put(b, s.clusters.findIndex(c => c.hex === a));
  }
  return Buffer.concat(o);
}
module.exports = { genWorld, genFamily, addConflict, conflict, png, files, reference, ALL };
