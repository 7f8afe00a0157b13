// Generated EDTF strings: every feature of levels 0-2, valid and nearly valid.
const p2 = n => String(n).padStart(2, '0');
const p4 = n => String(n).padStart(4, '0');
const Q = ['?', '~', '%'];

// years at which calendars, clocks and number formats have corners
const SPECIAL = [0, 1, 4, 10, 100, 400, 999, 1000, 1582, 1600, 1700, 1752, 1800, 1900, 1900, 1904, 1969, 1970, 1970, 1970, 1999, 2000, 2000, 2001, 2004, 2023, 2024, 2037, 2038, 2100, 2400, 9999];
function y(r) { return r.weighted([[6, () => p4(r.range(1800, 2030))], [2, () => p4(r.range(1, 9999))], [3, () => p4(r.pick(SPECIAL))]])(); }
function ym(r) { return y(r) + '-' + p2(r.chance(0.25) ? r.pick([1, 2, 2, 12]) : r.range(1, 12)); }
function ymd(r) { return ym(r) + '-' + p2(r.chance(0.2) ? r.range(28, 31) : r.chance(0.1) ? 1 : r.range(1, 28)); }
// a string closely related to s: what a lossy comparison might mistake for it
export function sibling(r, s) {
  const year = /(?<!\d)\d{4}(?!\d)/.exec(s), q = Q.find(c => s.includes(c));
  const put = (i, n, v) => s.slice(0, i) + v + s.slice(i + n);
  const digit = [...s.matchAll(/\d/g)];
  const moves = [() => s + ' ', () => ' ' + s, () => s.toLowerCase(), () => s + r.pick(Q), () => (s[0] === '-' ? s.slice(1) : '-' + s), () => s.replace(/\d(?=\D*$)/, 'X'), () => s + '/..', () => '../' + s, () => s + '/', () => s + '/' + s];
  if (year) for (let k = 0; k < 10; k++) moves.push(() => { const n = Number(year[0]) + r.pick([1, -1, 4, 10, -10, 28, 100, -100, 200, 300, 400, -400, 1000, -1000]); return n < 0 || n > 9999 ? s : put(year.index, 4, p4(n)); });
  if (digit.length) for (let k = 0; k < 6; k++) moves.push(() => { const d = r.pick(digit); return put(d.index, 1, String(r.int(10))); });
  if (q) for (let k = 0; k < 3; k++) moves.push(() => s.replace(q, r.pick(['', ...Q])));
  if (s.includes('/')) for (let k = 0; k < 3; k++) moves.push(() => s.split('/').reverse().join('/'), () => s.split('/')[r.int(2)]);
  if (/^[[{]/.test(s)) for (let k = 0; k < 4; k++) moves.push(() => (s[0] === '[' ? '{' + s.slice(1, -1) + '}' : '[' + s.slice(1, -1) + ']'), () => s.split(',').reverse().join(','));
  if (/^\d{4}-\d\d/.test(s)) for (let k = 0; k < 4; k++) moves.push(() => put(5, 2, p2(r.pick([1, 2, 3, 11, 12, 13]))), () => s.slice(0, 7), () => s.slice(0, 4));
  return r.pick(moves)();
}
// a set of strings that differ from s in one component only, drawn from a narrow
// pool: what a cache with too coarse a key would mix up
export function family(r, s, n) {
  const out = new Set([s]);
  const years = [...s.matchAll(/(?<!\d)\d{4}(?!\d)/g)], m = /(\d{4})-(\d\d)(?!\d)/.exec(s), dd = /(\d{4})-(\d\d)-(\d\d)(?!\d)/.exec(s), y0 = years.length ? Number(years[0][0]) : 0;
  const at = (i, t) => s.slice(0, i) + t + s.slice(i + t.length);
  const base = r.pick([0, 4, 1, 99, y0 % 100]), cent = r.int(20) * 100, step = r.pick([1, 4, 10, 100, 400]);
  const year = r.pick([() => r.range(1, 24) * 100, () => r.range(10, 24) * 100 + base, () => cent + r.int(100), () => Math.abs(y0 + step * r.range(-6, 6)) % 10000, () => r.pick([1, 19, 20, 190, 1900, 2000, 200, 2]), () => y0 % 1000 + 1000 * r.int(10)]);
  const kinds = [[2, () => sibling(r, s)]];
  if (years.length) { const k = r.pick(years), all = r.chance(0.5); kinds.push([4, () => (all ? s.replace(/(?<!\d)\d{4}(?!\d)/g, () => p4(year())) : at(k.index, p4(year())))]); }
  if (m) kinds.push([1, () => at(m.index + 5, p2(r.range(1, 12)))], [1, () => at(m.index, p4(year()) + '-' + p2(r.pick([2, 2, 2, 1, 11, 12])))]);
  if (dd) kinds.push([1, () => at(dd.index + 8, p2(r.range(1, 31)))], [1, () => at(dd.index + 5, p2(r.range(1, 12)) + '-' + p2(r.range(28, 31)))]);
  const one = r.weighted(kinds.map(([w, f]) => [w, () => f]))();
  for (let k = 0; k < 3 * n && out.size < n; k++) out.add(one());
  return [...out];
}
export function siblingOp(r, op) { const k = 1 + r.int(Math.max(1, op.length - 1)); return op.length < 2 || /^(settime|tsunjson|daysinmonth|timeymd|flip)$/.test(op[0]) ? op : op.map((x, i) => (i === k ? sibling(r, x) : x)); }
function d0(r) { return r.weighted([[2, y], [3, ym], [5, ymd]])(r); }
function x(r, s) { return [...s].map(c => c !== '-' && r.chance(0.3) ? 'X' : c).join(''); }

export const FEATURES = {
  date: d0,
  datetime: r => (r.chance(0.1) ? '-' : '') + ymd(r) + 'T' + p2(r.int(24)) + ':' + p2(r.int(60)) + ':' + p2(r.int(60)) + r.pick(['', 'Z', '-04', '+04:30', '+00:00', '-11:45']),
  interval0: r => d0(r) + '/' + d0(r),
  letter: r => 'Y' + r.pick(['', '-']) + r.pick([r.range(1, 9999), r.range(10000, 200000)]),
  season: r => r.chance(0.2) ? r.pick(['Spring', 'summer', 'FALL', 'Winter']) + r.pick([', ', ',', ' , ']) + y(r) : y(r) + '-' + r.range(21, 24),
  qualified: r => d0(r) + r.pick(Q),
  unspec1: r => r.pick([p4(r.int(10000)).slice(0, 3) + 'X', p4(r.int(10000)).slice(0, 2) + 'XX', y(r) + '-XX', ym(r) + '-XX', y(r) + '-XX-XX']),
  open1: r => r.pick([d0(r) + '/..', '../' + d0(r), d0(r) + '/', '/' + d0(r), d0(r) + '/' + r.pick(['open', 'unknown', 'uuuu'])]),
  neg: r => '-' + y(r),
  negdate: r => '-' + d0(r) + r.pick(['', r.pick(Q)]),
  exp: r => 'Y' + r.pick(['', '-']) + r.range(1, 99) + 'E' + (r.chance(0.1) ? r.pick([9, 18, 19, 40, 308, 999999999999]) : r.range(0, 6)),
  sig: r => r.pick([y(r), 'Y' + r.range(1, 99999), 'Y' + r.range(1, 9) + 'E' + r.range(1, 4), '-' + y(r), 'Y-' + r.range(1, 9999)]) + 'S' + (r.chance(0.1) ? r.pick([0, 5, 9, 20, '99999999999999999999']) : r.range(1, 4)),
  sub: r => y(r) + '-' + r.range(21, 41),
  set: r => { const items = []; for (let i = r.range(1, 4); i > 0; i--) items.push(d0(r)); let s = r.chance(0.3) && items.length > 1 ? items[0] + '..' + items[1] : items.join(','); if (r.chance(0.2)) s = '..' + s; else if (r.chance(0.2)) s += '..'; return r.chance(0.5) ? '[' + s + ']' : '{' + s + '}'; },
  group: r => { const s = ymd(r).split('-'); return s.map((c, i) => c + (r.chance(0.4) ? r.pick(Q) : '')).join('-'); },
  indiv: r => { const s = ymd(r).split('-'); return s.map((c, i) => (r.chance(0.4) ? r.pick(Q) : '') + c).join('-'); },
  unspec2: r => x(r, ymd(r)),
  interval2: r => [0, 1].map(() => r.chance(0.4) ? r.pick(Q) + ymd(r) : x(r, ymd(r))).join('/'),
  special: r => r.pick(['', '..', 'open', 'uuuu', 'unknown', '/', '../..', 'X', 'XXXX', 'Y', 'S', '[]', '{}', '1985-02-30', '2021-02-29', '2000-02-29', '1900-02-29', '1985-13', '1985-00', '1985-04-31', ' 1985', '1985 ', '1985\n']),
  junk: r => r.pick(['not a date', 'hello', '１９８５', '198', '19855', '1985-1', '1985/1/1', '2004-06-(01)~', 'décembre 1985', '1985-04-12T', 'T10:10:10Z', '💥', '%s%d%v', "'; --", '1985\u0000', '<b>1985</b>', '"1985"', '\\']),
};
// text a user or a program hands over by mistake
const BLANK = [' ', '\t', '\n', '\r\n', '\u00a0', '\u2003', '\ufeff', '\u200b', '\v', '\f'];
export function odd(r) {
  const some = (a, n) => { let s = ''; for (let i = 0; i < n; i++) s += r.pick(a); return s; };
  const valid = () => FEATURES[r.pick(['date', 'datetime', 'interval0', 'season', 'qualified', 'set', 'indiv', 'letter'])](r);
  return r.pick([
    () => some(BLANK, r.range(1, 4)), () => some([' '], r.pick([1, 2, 7, 80])), () => r.pick(BLANK) + valid(), () => valid() + r.pick(BLANK), () => { const s = valid(), i = r.int(s.length); return s.slice(0, i) + r.pick(BLANK) + s.slice(i); },
    () => some([...'0123456789'], r.range(1, 40)), () => some([...'-/.?~%X,'], r.range(1, 12)), () => some([...'[]{}()'], r.range(1, 6)), () => String.fromCharCode(r.range(1, 126)), () => some([...'0123456789X'], 4) + '-' + some([...'0123456789X'], 2),
    () => valid().repeat(r.pick([2, 3, 30])), () => valid().toLowerCase(), () => valid() + '/' + valid() + '/' + valid(), () => '-' + valid(), () => valid().replace(/\d/, 'O'), () => valid().replace('-', '\u2013'), () => '"' + valid() + '"', () => some([...'abcdefghijklmnopqrstuvwxyzäéñ'], r.range(1, 30)),
    () => valid().replace(/^\d+/, m => m + '0'), () => valid().replace(/\d/, m => String.fromCharCode(0xff10 + Number(m))), () => 'Y' + some([...'0123456789'], r.range(1, 30)), () => valid() + 'S' + r.range(0, 9), () => r.pick(['null', 'undefined', 'NaN', 'true', '0', '-0', '1e3', '[object Object]', 'today', 'now', '1985-04-12T23:20:30Z[UTC]', '{"edtf":"1985"}']),
  ])();
}
FEATURES.odd = odd;
export const FEATURE_NAMES = Object.keys(FEATURES);

export function genEdtf(r) {
  let s = FEATURES[r.pick(FEATURE_NAMES)](r);
  if (r.chance(0.12)) s = mutate(r, s);
  return s;
}
export function mutate(r, s) {
  const a = [...s];
  const alpha = '0123456789X-/.?~%YTESZ[]{},:+ ';
  for (let k = r.range(1, 2); k > 0; k--) {
    const i = r.int(a.length + 1);
    switch (r.int(4)) {
      case 0: a.splice(i, 1); break;
      case 1: a.splice(i, 0, r.pick([...alpha])); break;
      case 2: if (i < a.length) a[i] = r.pick([...alpha]); break;
      case 3: a.splice(i, 0, ...a.slice(i, i + 3)); break;
    }
  }
  return a.join('').slice(0, 60);
}

const FEATURE_OPS = {
  p0date: 'date', p0dt: 'datetime', p0int: 'interval0', i0date: 'date', i0dt: 'datetime', i0int: 'interval0',
  p1letter: 'letter', p1season: 'season', p1qual: 'qualified', p1unspec: 'unspec1', p1int: 'open1', p1ints: 'open1', p1inte: 'open1', p1neg: 'neg',
  i1letter: 'letter', i1season: 'season', i1qual: 'qualified', i1unspec: 'unspec1', i1int: 'open1', i1neg: 'neg',
  p2exp: 'exp', p2sig: 'sig', p2sub: 'sub', p2set: 'set', p2group: 'group', p2indiv: 'indiv', p2unspec: 'unspec2', p2int: 'interval2',
  i2exp: 'exp', i2sig: 'sig', i2sub: 'sub', i2set: 'set', i2group: 'group', i2indiv: 'indiv', i2unspec: 'unspec2', i2int: 'interval2',
  ymd: 'date', daysinmonthstr: 'date', exponent: 'exp', strrange: 'unspec2', rangestr: 'unspec2',
};
const WEIGHTS = [
  [14, 'parse'], [4, 'valid'], [5, 'matches'], [6, 'unix'], [4, 'before'], [4, 'after'], [4, 'between'], [6, 'json'], [3, 'roundtrip'], [2, 'tsjson'], [1, 'tsunjson'], [3, 'strings'], [4, 'bounds'], [2, 'flags'], [1, 'settime'], [2, 'ymdeq'], [1, 'spanstr'], [0.2, 'notset'],
  [2, 'level0'], [3, 'level1'], [4, 'level2'], [1, 'l0match'], [1, 'l1match'], [1, 'l2match'], [1, 'isl0'], [1, 'isl1'], [1, 'isl2'],
  [1, 'open'], [1, 'unknown'], [1, 'unspec'], [2, 'isdep'], [2, 'undep'], [1, 'errs'],
];
const MORE = [
  [2, 'daysinmonth'], [2, 'daysinmonthstr'], [4, 'span'], [2, 'exponent'], [3, 'strrange'], [1, 'rangestr'], [3, 'ymd'], [2, 'timeymd'], [1, 'empties'], [1, 'flip'],
  ...Object.keys(FEATURE_OPS).filter(k => /^[pi]\d/.test(k)).map(k => [k[0] === 'p' ? 1 : 0.4, k]),
];
export function opWeights(core) { return core ? WEIGHTS : WEIGHTS.concat(MORE); }

export function genOp(r, { core = false, text = genEdtf, name = null } = {}) {
  const op = name ?? r.weighted(opWeights(core));
  const own = FEATURE_OPS[op];
  const t = () => own && r.chance(0.8) ? FEATURES[own](r) : text(r);
  switch (op) {
    case 'before': case 'after': case 'ymdeq': return [op, t(), t()];
    case 'between': return [op, t(), t(), t()];
    case 'settime': return [op, String(r.range(-2000000000, 2000000000))];
    case 'tsunjson': return [op, r.pick([String(r.range(-2000000000, 2000000000)), '"' + r.int(1e9) + '"', 'null', '12x', '', '-', String(r.range(-62135596800, 253402300799))])];
    case 'daysinmonth': return [op, String(r.range(-5, 2400)), String(r.range(-1, 14))];
    case 'daysinmonthstr': return [op, r.chance(0.8) ? ym(r) : t()];
    case 'timeymd': return [op, p4(r.range(0, 2500)), r.pick(['', p2(r.range(0, 13))]), r.pick(['', p2(r.range(0, 32))]), r.pick(['00:00:00', '23:59:59', '12:34:56'])];
    case 'empties': case 'notset': return [op];
    case 'flip': return [op, String(r.range(-4000, 4000))];
    case 'isdep': case 'undep': return [op, r.pick(['open', 'uuuu', '..', '', 'x', t()])];
    case 'open': case 'unknown': case 'unspec': return [op, r.pick(['open', 'uuuu', '..', '', t()])];
    case 'errs': return [op, r.pick(['Date', 'Seasons', 'x']), t()];
    case 'exponent': return [op, r.pick(['', '', '', '-']) + r.range(1, 99) + r.pick(['E', 'E', 'E', 'e']) + r.pick([r.range(0, 5), r.range(0, 25), r.pick(['', '99999999999999999999', '-1'])])];
    default: return [op, t()];
  }
}

// a string about the time the simulated clock shows
export function nearClock(r, wall) {
  const d = new Date((wall + r.pick([0, 0, 0, 86400, -86400, 2592000, -2592000, 31536000, -31536000])) * 1000);
  const Y = d.getUTCFullYear(); if (Y < 0 || Y > 9999) return 'Y' + Y;
  const yy = p4(Y), mm = p2(d.getUTCMonth() + 1), dd = p2(d.getUTCDate()), y1 = yy.slice(0, 3), y2 = yy.slice(0, 2);
  const full = `${yy}-${mm}-${dd}`, t = d.toISOString().slice(10, 19);
  return r.pick([yy, yy, `${yy}-${mm}`, `${yy}-${mm}`, full, full, full + t + 'Z', full + t, y1 + 'X', y1 + 'X', y2 + 'XX', yy + '-XX', `${yy}-${mm}-XX`, yy + '-XX-XX', `${yy}-2${r.range(1, 4)}`, `${yy}-${r.range(25, 41)}`, full + '/..', yy + '/..', `../${full}`, full + '/', '/' + yy, `${yy}-${mm}/..`, full + r.pick(Q), yy + r.pick(Q), `[${yy}..]`, `{..${full}}`, `[${yy},${p4(Math.max(0, Y - 1))}]`, `Y${Y}`, `Y${Y}S${r.range(1, 4)}`, `${yy}S2`, `${yy}S3`, `${yy}-${mm[0]}X`, `${full.slice(0, 9)}X`, '..', '', 'open', 'uuuu', r.pick(['Spring', 'Summer', 'Fall', 'Winter']) + ', ' + yy, `${p4(Math.max(0, Y - 10))}/${yy}`, `${full}/${p4(Math.min(9999, Y + 1))}`]);
}
