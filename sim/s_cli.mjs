// Scenarios on the command-line tools (C05 parse, C06 matches, C07 parse-wasi:
// success means delivered; C08: failure is never mistaken for completion).
// Each run is one process of the unmodified tool, built for wasip1; the host
// decides the fate of every write, and may end the process at any of them.
// C18: the same processes where nothing fails, but everything around them is
// different: clock, zone, environment, files, standard input, descriptors.
import { Host, Abort, E, text } from './wasi.mjs';
import { Disk } from './disk.mjs';
import { Decider } from './decider.mjs';
import { genEdtf, nearClock, sibling, FEATURES } from './corpus.mjs';
import { workerApi, dropSome } from './runner.mjs';
import { asModule, ENVS, ZONES, WALLS } from './s_lib.mjs';

const ENC = new TextEncoder();
const K = { ok: 0, short: 1, eintr: 2, eagain: 3, enospc: 4, eio: 5, epipe: 6, ebadf: 7, edquot: 8, efbig: 9, kill: 10, killTorn: 11, tornThen: 12, zero: 13 };
const NAME = Object.fromEntries(Object.entries(K).map(([k, v]) => [v, k]));
const ERR = { [K.eintr]: E.INTR, [K.eagain]: E.AGAIN, [K.enospc]: E.NOSPC, [K.eio]: E.IO, [K.epipe]: E.PIPE, [K.ebadf]: E.BADF, [K.edquot]: E.DQUOT, [K.efbig]: E.FBIG };
const code = (kind, param = 0) => kind + 16 * param;

export async function worker(ctx) {
  const mods = {}; for (const [k, m] of Object.entries(ctx.tools)) mods[k] = await asModule(m);
  const lib = await asModule(ctx.plainModule);
  const base = new Map(), refs = new Map();
  const words = [];

  function alone(op) {
    const key = JSON.stringify(op);
    let v = base.get(key);
    if (v === undefined) {
      const h = new Host(lib, { args: ['libsim'], env: [], clock: {}, decider: new Decider({ decisions: {} }), stdin: ENC.encode(JSON.stringify({ tasks: [[op]] })) });
      const r = h.run();
      v = r.emits[0]?.replace(/^0 0 /, '') ?? 'DIED';
      if (v.startsWith('harness')) throw new Error(v);
      base.set(key, v);
    }
    return v;
  }
  const jsonOf = s => JSON.parse(alone(['rawjson', s]));       // {ok, v} | {err}
  const matchOf = s => JSON.parse(alone(['rawmatch', s]));     // {ok, level, feature} | {err}

  function proc(plan, dec, faults, disk = null) {
    const dead = {}; const st = { hard: { 1: 0, 2: 0 }, soft: 0, killed: false, writes: { 1: 0, 2: 0 } };
    const host = new Host(mods[plan.tool + (faults && plan.build && plan.build !== 'stock' ? '-' + plan.build : '')], {
      args: [plan.prog ?? plan.tool, ...(plan.args.some(a => a.startsWith('-')) || plan.dashes ? ['--'] : []), ...plan.args],
      env: plan.env ?? [], clock: plan.clock ?? {}, entropy: plan.entropy ?? 0, decider: dec, filetype: plan.filetype, nonblock: new Set(faults ? plan.nonblock ?? [] : []),
      limits: { calls: 2_000_000 }, ...(faults ? around(plan) : {}), ...(faults && disk ? { disk, alsoThere: besides(plan), diskErr: plan.disk?.err, dieAt: plan.dieAt, dieTorn: plan.dieTorn, tag: plan.tag } : {}),
      sched: (g, n) => g.int(n),
      preempt: (g, kind) => { const q = plan.style?.[kind ? 'hot' : 'mem']; return q ? g.geom(q) : Infinity; },
      onWrite: (fd, b) => {
        if (!faults) return { n: b.length };
        const i = st.writes[fd]++;
        const v = dec.choose('w' + fd, 0, r => draw(r, plan, fd, i, b.length));
        const kind = v % 16, param = Math.floor(v / 16);
        const note = k => { dec.fault((fd === 2 ? 'stderr-' : '') + NAME[k]); dec.event(`write ${i} of ${b.length} bytes to fd ${fd}: ${NAME[k]}${param ? ' ' + param : ''}`); };
        if (dead[fd]) { dec.event(`write to fd ${fd}: still ${NAME[dead[fd]]}`); st.hard[fd]++; return { errno: ERR[dead[fd]] }; }
        switch (kind) {
          case K.ok: dec.event(`write ${b.length} to fd ${fd}`); return { n: b.length };
          case K.short: if (b.length < 2) return { n: b.length }; note(kind); st.soft++; return { n: 1 + param % (b.length - 1) };
          case K.zero: if (!b.length) return { n: 0 }; note(kind); st.hard[fd]++; return { n: 0 };
          case K.eintr: note(kind); st.soft++; return { errno: E.INTR };
          case K.eagain: note(kind); if (plan.nonblock?.includes(fd)) st.soft++; else st.hard[fd]++; return { errno: E.AGAIN };
          case K.kill: note(kind); st.killed = true; return { abort: new Abort('killed', '') };
          case K.killTorn: note(kind); st.killed = true; host.out[fd].push(b.slice(0, param % (b.length + 1))); return { abort: new Abort('killed', '') };
          case K.tornThen: { // part of the data, then nothing more: a full disk or a closed pipe
            note(kind); dead[fd] = [K.enospc, K.epipe, K.eio, K.edquot][param % 4]; const n = Math.floor(param / 4) % (b.length || 1);
            if (n === 0) { st.hard[fd]++; return { errno: ERR[dead[fd]] }; } return { n };
          }
          default: note(kind); st.hard[fd]++; if (param & 1) dead[fd] = kind; return { errno: ERR[kind] };
        }
      },
      onPoll: () => { dec.event('poll'); return true; },
    });
    const r = host.run(); if (typeof r.exit === 'number') r.exit &= 255; // all a parent process sees
    r.st = st; r.host = host; return r;
  }
  const around = plan => ({
    zone: plan.zone, stdin: plan.stdin === undefined ? undefined : ENC.encode(plan.stdin), stdinFate: plan.stdinFate,
    ...(plan.anyEnv === undefined ? {} : { anyEnv: k => (/^(TZ|ZONEINFO|GO[A-Z]*)$/.test(k) ? null : plan.anyEnv) }),
    ...(plan.anyFile === undefined ? {} : { files: name => (/zoneinfo|localtime/.test(name) ? null : ENC.encode(plan.anyFile)) }),
  });
  // what a pattern among the arguments would match, were it taken for the name of a file
  const besides = plan => (plan.anyFile === undefined ? [] : [...new Set(plan.args.filter(a => /[?*[]/.test(a) && !a.includes('/')).map(a => a.replace(/[?*]/g, '7').replace(/\[(.).*?\]/g, '$1')))]);
  // fates are concentrated: most runs have one interesting write
  function draw(r, plan, fd, i, len) {
    const s = plan.faults?.[fd]; if (!s) return 0;
    const hit = s.at !== undefined ? i === s.at : r.chance(s.p);
    const bg = s.soft && r.chance(s.soft);
    if (hit) {
      const kind = r.pick(s.kinds);
      return code(kind, r.pick([r.int(4), r.int(64), r.int(100000)]));
    }
    return bg ? code(r.pick(plan.nonblock?.includes(fd) ? [K.short, K.eintr, K.eagain] : [K.short, K.eintr]), r.int(4096)) : 0;
  }

  // the fault-free run of the same command line, itself compared with the library
  function reference(plan) {
    const key = JSON.stringify([plan.tool, plan.args, !!plan.dashes]);
    let v = refs.get(key);
    if (v) return v;
    const r = proc({ ...plan, clock: {}, env: [], entropy: 0, filetype: undefined, prog: undefined }, new Decider({ decisions: {} }), false);
    v = { out: r.stdout, exit: r.exit, err: text(r.stderr), problem: null };
    if (r.abort) v.problem = { class: r.abort.kind, detail: r.abort.detail };
    else v.problem = semantics(plan, v);
    if (refs.size > 500) refs.clear();
    refs.set(key, v);
    return v;
  }
  function semantics(plan, v) {
    const bad = (cls, d) => ({ class: cls, detail: `${plan.tool} ${JSON.stringify(plan.args)} with nothing going wrong: ${d}` });
    const out = text(v.out);
    const answers = plan.args.map(a => (plan.tool === 'matches' ? matchOf(a) : jsonOf(a)));
    const firstBad = answers.findIndex(a => a.err !== undefined);
    if (plan.tool === 'parse-wasi') {
      if (v.exit !== 0) return bad('exit', `exit status ${v.exit}, expected 0; standard error: ${v.err.slice(0, 300)}`);
      const lines = out.split('\n');
      if (lines.pop() !== '' || lines.length !== plan.args.length) return bad('output', `${lines.length} lines for ${plan.args.length} arguments: ${out.slice(0, 300)}`);
      for (let i = 0; i < lines.length; i++) {
        const a = answers[i];
        if (a.err !== undefined ? lines[i] !== a.err : !sameJSON(lines[i], a.v)) return bad('output', `line ${i} is ${lines[i].slice(0, 400)}, but the library answers ${JSON.stringify(a).slice(0, 400)}`);
      }
      return null;
    }
    if (firstBad >= 0) {
      if (v.exit === 0) return bad('exit', `exit status 0 although ${JSON.stringify(plan.args[firstBad])} cannot be parsed`);
      if (!named(v.err, plan, answers)) return bad('stderr', `standard error does not name the string that cannot be parsed (${JSON.stringify(plan.args[firstBad])}): ${v.err.slice(0, 300)}`);
    } else if (v.exit !== 0) return bad('exit', `exit status ${v.exit}, expected 0; standard error: ${v.err.slice(0, 300)}`);
    if (plan.tool === 'matches') {
      const lines = answers.slice(0, firstBad < 0 ? undefined : firstBad).map((a, i) => `${plan.args[i]} level ${a.level} (${a.feature})\n`).join('');
      if (firstBad < 0 ? out !== lines : !lines.startsWith(out)) return bad('output', `standard output is ${JSON.stringify(out.slice(0, 400))}, expected ${JSON.stringify(lines.slice(0, 400))}`);
      return null;
    }
    let doc; try { doc = JSON.parse(out); } catch (e) { doc = undefined; }
    if (firstBad >= 0) return doc === undefined ? null : bad('complete', `it failed, but wrote a complete JSON document: ${out.slice(0, 300)}`);
    if (!Array.isArray(doc) || doc.length !== plan.args.length) return bad('output', `not a JSON array of ${plan.args.length} items: ${out.slice(0, 300)}`);
    for (let i = 0; i < doc.length; i++) if (!sameJSON(JSON.stringify(doc[i]), answers[i].v)) return bad('output', `item ${i} is ${JSON.stringify(doc[i]).slice(0, 400)}, but the library answers ${answers[i].v.slice(0, 400)}`);
    return null;
  }
  const named = (err, plan, answers) => {
    const b = plan.args.filter((a, i) => answers[i].err !== undefined);
    return b.some(a => !/^[\x21\x23-\x26\x28-\x5b\x5d-\x7e ]*$/.test(a) || err.includes(a));
  };

  function exec(plan, { seed = null, decisions = null, trace = false }) {
    const ref = reference(plan);
    const dec = new Decider({ seed, decisions, log: trace ? [] : null });
    const disk = plan.disk || plan.anyFile !== undefined ? new Disk({ readOnly: plan.disk?.ro }) : null;
    let violation = ref.problem;
    for (const [i, b] of (plan.disk?.before ?? []).entries()) { // what ran on this disk before
      const p = { ...plan, ...b, tag: 'b' + i, clock: { ...plan.clock, wall: b.wall, jumps: [] } }, before = reference(p);
      const q = proc(p, dec, true, disk); dec.event(`before: ${p.tool} ${JSON.stringify(p.args)} exit ${q.exit} ${q.abort?.kind}`);
      if (!(q.abort?.kind === 'killed')) violation ??= before.problem ?? judge(p, before, q);
      else if (plan.disk.power) { dec.fault('power-lost'); disk.lose(n => dec.choose('lost', 0, g => g.pick([0, 0, g.int(n), n - 1])) % n); }
      if (disk.written) dec.fired['earlier-run-left-files'] = 1; else dec.fired['earlier-run'] = 1;
    }
    const r = proc(plan, dec, true, disk);
    violation ??= judge(plan, ref, r);
    if (ctx.property === 'C18') { for (const k of ['anyEnv', 'anyFile', 'stdin', 'zone', 'prog']) if (plan[k] !== undefined) dec.fired['given-' + k] = 1; if (plan.env.length) dec.fired['given-env'] = 1; if (plan.filetype) dec.fired['other-descriptors'] = 1; }
    dec.event('ref ' + ref.out.length + ' ' + text(ref.out));
    dec.event('out ' + text(r.stdout)); dec.event('exit ' + r.exit + ' ' + r.abort?.kind);
    dec.event('verdict ' + (violation ? violation.class + violation.detail : 'ok'));
    const hash = dec.hash.hex();
    const faulty = Object.keys(dec.fired).length > 0;
    const p = {};
    p['build:' + (plan.build ?? 'stock')] = 1;
    p[r.st.killed ? 'killed' : r.exit === 0 ? 'exit-0' : 'exit-nonzero'] = 1;
    if (faulty && r.exit === 0) p['success-despite-faults'] = 1;
    if (r.stdout.length && r.stdout.length < ref.out.length) p['output-cut-short'] = 1;
    if (ref.exit !== 0) p['unparsable-argument'] = 1;
    return {
      violation, hash, decisions: dec.rec, fired: dec.fired, trace: dec.log, sig: hash, nontrivial: faulty, probes: p,
      sum: { arguments: plan.args.length, writes: r.st.writes[1] + r.st.writes[2], bytes_delivered: r.stdout.length },
      sample: { plan: { ...plan, args: plan.args.slice(0, 6), of: plan.args.length }, decisions: dec.rec, exit: r.exit, killed: r.st.killed, delivered: r.stdout.length, fault_free: ref.out.length },
    };
  }
  function judge(plan, ref, r) {
    const what = `${plan.tool} ${JSON.stringify(plan.args).slice(0, 600)}`;
    const got = r.stdout, want = ref.out;
    if (r.abort && r.abort.kind !== 'killed') return { class: r.abort.kind, detail: `${what}: ${r.abort.detail}` };
    const prefix = startsWith(want, got);
    const stdoutNote = `standard output received ${got.length} of ${want.length} bytes`;
    if (ctx.property === 'C18') {
      if (r.exit !== ref.exit) return { class: 'exit', detail: `${what}: exit status ${r.exit}, but ${ref.exit} in a plain environment; standard error: ${JSON.stringify(text(r.stderr).slice(0, 300))}` };
      if (!(got.length === want.length && prefix)) return { class: 'output', detail: `${what}: standard output depends on the surroundings: ${JSON.stringify(text(got).slice(0, 300))}, but ${JSON.stringify(text(want).slice(0, 300))} in a plain environment` };
      return null;
    }
    if (ctx.property !== 'C08') {
      if (r.exit === 0 && !(got.length === want.length && prefix)) return { class: 'lost-output', detail: `${what}: exit status 0, but ${stdoutNote}${prefix ? '' : ', not the ones of a fault-free run'}: ${JSON.stringify(text(got).slice(-200))}` };
      if (!prefix) return { class: 'wrong-output', detail: `${what}: what arrived is not a prefix of the fault-free output: ${JSON.stringify(text(got).slice(0, 300))}` };
      return null;
    }
    const answers = plan.args.map(a => (plan.tool === 'matches' ? matchOf(a) : jsonOf(a)));
    const bad = answers.findIndex(a => a.err !== undefined);
    if (bad >= 0 && r.exit === 0) return { class: 'exit', detail: `${what}: exit status 0 although ${JSON.stringify(plan.args[bad])} cannot be parsed` };
    if (r.exit === 0) return null;
    if (bad >= 0 && !r.st.killed && !r.st.hard[1] && !r.st.hard[2] && !named(text(r.stderr), plan, answers)) return { class: 'stderr', detail: `${what}: standard error could be written, but does not name ${JSON.stringify(plan.args[bad])}: ${JSON.stringify(text(r.stderr).slice(0, 300))}` };
    if (plan.tool === 'parse') {
      let doc = true; try { JSON.parse(text(got)); } catch { doc = false; }
      const whole = bad < 0 && got.length === want.length && prefix;
      if (doc && !whole) return { class: 'complete', detail: `${what}: ${r.st.killed ? 'it was killed' : `exit status ${r.exit}`}, yet standard output is a complete JSON document: ${JSON.stringify(text(got).slice(0, 300))}` };
    } else {
      const lines = ENC.encode(answers.slice(0, bad < 0 ? undefined : bad).map((a, i) => `${plan.args[i]} level ${a.level} (${a.feature})\n`).join(''));
      if (!startsWith(lines, got)) return { class: 'wrong-output', detail: `${what}: what arrived is not a prefix of the lines for the arguments before the failing one: ${JSON.stringify(text(got).slice(0, 300))}` };
    }
    return null;
  }

  // everything around the process is drawn; nothing fails
  function genAround(r) {
    const tool = r.pick(['parse', 'matches', 'parse-wasi']), build = r.weighted([[2, 'stock'], [6, 'sched'], [1, 'mem']]);
    const wall = r.pick(WALLS) + r.pick([0, 0, r.int(86400), r.int(86400 * 3650)]), near = r.chance(0.4) ? r.pick([0.3, 0.8]) : 0;
    const okFor = s => (tool === 'matches' ? matchOf(s) : jsonOf(s)).err === undefined, good = words.filter(okFor), list = r.chance(0.75) && good.length ? good : words;
    const args = Array.from({ length: r.pick([0, 1, 1, 1, 1, 2, 2, 4, 12]) }, () => { const s = near && r.chance(near) ? nearClock(r, wall) : r.pick(list); return /[\n\r\0]/.test(s) || ![['rawjson', s], ['rawmatch', s]].every(op => alone(op)[0] === '{') || (near && list === good && !okFor(s)) ? r.pick(list) : s; });
    const value = () => (ctx.dict?.length && r.chance(0.3) ? r.pick(ctx.dict) : r.pick(['1', 'true', '0', 'fr_FR.UTF-8', 'debug', '2', '1985', '80', 'never', 'always', 'xterm-256color', '/tmp'])), opt = (p, f) => (r.chance(p) ? f() : undefined);
    const jumps = []; if (r.chance(0.5)) for (let i = r.range(1, 5); i > 0; i--) jumps.push([r.int(20), r.pick([-1, 1, 3600, -3600, 86400, -86400, 31536000, -31536000, -1700000000])]);
    // arguments that mean something to a shell or to other tools, but nothing here
    if (r.chance(0.1) && args.length) for (let k = r.range(1, 3); k > 0; k--) { const i = r.int(args.length), s = args[i], w = r.pick(words); args[i] = r.pick([() => '@' + s, () => '$' + r.pick(['HOME', 'EDTF', 'x', '{HOME}']) + s, () => s + '$EDTF', () => '~/' + s, () => s.replace(/\d/, '?'), () => s.replace(/\d\d/, '*'), () => '-', () => 'file:' + s, () => `${s}%20`, () => ` ${s}`, () => `${s},${w}`, () => `"${s}"`, () => s.replace(/\d/, '[0-9]')])(); if (/[\n\r\0]/.test(args[i]) || args[i].startsWith('-') && args[i] !== '-' || ![['rawjson', args[i]], ['rawmatch', args[i]]].every(op => alone(op)[0] === '{')) args[i] = s; }
    const fits = s => !/[\n\r\0]/.test(s) && (!s.startsWith('-') || s === '-') && [['rawjson', s], ['rawmatch', s]].every(op => alone(op)[0] === '{');
    const twist = () => { const was = args.slice(); args.forEach((a, i) => { const s = r.pick([() => a, () => a.toLowerCase(), () => a.toUpperCase(), () => sibling(r, a), () => sibling(r, a)])(); if (fits(s)) args[i] = s; }); return was; };
    const disk = opt(0.35, () => ({
      ro: r.chance(0.1) || undefined, err: r.pick([0, 0, 0.1, 0.5]), power: r.chance(0.5) || undefined,
      before: Array.from({ length: r.pick([1, 1, 2, 4]) }, () => ({ tool: r.chance(0.75) ? tool : r.pick(['parse', 'matches', 'parse-wasi']), wall: wall + r.pick([-1, -3600, -86400 * 30, -86400 * 400, 86400, 0]), args: r.pick([() => args.slice(), twist, () => r.shuffle(args.slice()), () => args.slice(0, -1), () => args.map(a => { const s = sibling(r, a); return fits(s) ? s : a; }), () => [r.pick(list), ...args], () => [r.pick(list)]])(), ...(r.chance(0.3) ? { dieAt: r.pick([1, 2, 2, 3, r.int(12)]), dieTorn: r.pick([0, 0.5, 0.9, 1]), ...(r.chance(0.7) ? { tool, args: args.slice() } : {}) } : {}) })),
    }));
    return {
      disk, tool, args, build, style: build === 'mem' ? { mem: 400, hot: 3 } : undefined, dashes: r.chance(0.2), nonblock: r.pick([[], [], [1], [1, 2]]), filetype: r.pick([undefined, { 0: 2, 1: 2, 2: 2 }, { 0: 4, 1: 4, 2: 4 }, { 0: 6, 1: 6, 2: 2 }, { 0: 4, 1: 2, 2: 2 }, { 0: 6, 1: 4, 2: 4 }, { 0: 0, 1: 0, 2: 0 }, { 0: 2, 1: 4, 2: 2 }]),
      clock: { wall, mono: 1 + r.int(1e6), tick: r.pick([0, 1000, 1000000, 1000000000]), jumps }, entropy: r.int(1e9), env: r.pick(ENVS).concat(disk ? r.pick([['HOME=/home/user'], ['HOME=/home/user', 'PWD=/work'], ['HOME=/home/user', 'XDG_CACHE_HOME=/var/cache', 'TMPDIR=/var/tmp']]) : []),
      zone: opt(0.6, () => r.pick(ZONES.slice(1))), anyEnv: opt(0.4, value), anyFile: opt(0.3, () => value() + '\n'), stdin: opt(0.5, () => r.pick([r.pick(words) + '\n', '1985-04-12\n2004?\n', '{"edtf": "1985"}', 'x'.repeat(100000)])), stdinFate: opt(0.3, () => r.pick(['silent', 'closed', 'failing'])),
      prog: opt(0.3, () => r.pick(['/usr/local/bin/' + tool, './' + tool + '.wasm', 'edtf-' + (tool === 'parse' ? 'matches' : 'parse'), '', 'edtf', value()])),
    };
  }

  function gen(r) {
    if (ctx.property === 'C18') return genAround(r);
    const tool = ctx.property === 'C08' ? r.pick(['parse', 'parse', 'matches']) : ctx.toolName;
    const build = r.weighted([[5, 'stock'], [2, 'sched'], [2, 'mem']]);
    const n = r.weighted([[1, 0], [4, 1], [4, 2], [4, 3], [4, 6], [3, 15], [2, 60], [build === 'mem' ? 0 : 1, 200]]);
    const wantBad = ctx.property === 'C08' ? 0.75 : 0.15;
    const okFor = s => (tool === 'matches' ? matchOf(s) : jsonOf(s)).err === undefined;
    const good = words.filter(okFor), bad = words.filter(s => !okFor(s));
    const args = []; for (let i = 0; i < n; i++) args.push(r.pick(good.length ? good : words));
    if (r.chance(wantBad) && n && bad.length) for (let k = r.pick([1, 1, 1, 2, 3]); k > 0; k--) args[r.pick([0, n - 1, r.int(n)])] = r.pick(bad);
    if (ctx.property === 'C08' && bad.length && r.chance(0.015)) { const one = r.pick(bad); args.splice(0, args.length, ...Array.from({ length: r.pick([256, 512, 255, 128]) }, () => (r.chance(0.5) ? one : r.pick(bad)))); } // an exit status has eight bits
    if (tool === 'parse-wasi') for (let i = 0; i < n; i++) if (r.chance(0.15) && bad.length) args[i] = r.pick(bad);
    const hard = [K.enospc, K.eio, K.epipe, K.ebadf, K.edquot, K.efbig, K.tornThen, K.tornThen, K.tornThen, K.zero, K.eagain];
    const kinds = ctx.property === 'C08' ? r.pick([[K.kill, K.killTorn], [K.kill, K.killTorn, K.killTorn], hard, hard.concat([K.kill, K.killTorn])]) : r.pick([hard, hard, [K.short, K.eintr], [r.pick(hard)]]);
    const soft = r.pick([0, 0, 0.1, 0.5]);
    const where = () => r.chance(0.7) ? { at: r.pick([0, 1, 2, r.int(2 * n + 3), r.int(n + 2), 2 * n, 2 * n + 1]) } : { p: r.pick([0.02, 0.2, 0.6]) };
    const faults = {};
    if (r.chance(0.95)) faults[1] = { ...where(), kinds, soft };
    if (r.chance(ctx.property === 'C08' ? 0.4 : 0.25)) faults[2] = { ...(r.chance(0.5) ? { at: 0 } : { p: 0.5 }), kinds: ctx.property === 'C08' && r.chance(0.3) ? [K.kill, K.killTorn] : hard, soft };
    return {
      tool, args, faults, build, style: build === 'mem' ? { mem: r.pick([0, 40, 400, 4000]), hot: r.pick([1, 3, 10]) } : undefined, dashes: r.chance(0.2), nonblock: r.pick([[], [], [1], [1, 2]]), filetype: r.pick([undefined, { 1: 4, 2: 4 }, { 1: 6, 2: 2 }]),
      clock: { wall: r.pick([1700000000, 0, 4102444799]), mono: 1 }, env: r.pick([[], ['TZ=Asia/Kathmandu'], ['GODEBUG=gctrace=0']]), entropy: r.int(1e9),
    };
  }

  function* reduce(plan) {
    const put = (k, v) => ({ ...plan, [k]: v });
    for (const a of dropSome(plan.args)) yield put('args', a);
    for (let i = 0; i < plan.args.length && plan.args.length < 4; i++) if (plan.args[i] !== '1985' && plan.args[i] !== 'x') { yield put('args', plan.args.map((x, k) => k === i ? '1985' : x)); yield put('args', plan.args.map((x, k) => k === i ? 'x' : x)); }
    for (const k of ['zone', 'anyEnv', 'anyFile', 'stdin', 'stdinFate', 'prog']) if (plan[k] !== undefined) yield put(k, undefined);
    if (plan.disk) {
      yield put('disk', undefined);
      for (const b of dropSome(plan.disk.before)) yield put('disk', { ...plan.disk, before: b });
      for (const k of ['ro', 'power', 'err']) if (plan.disk[k]) yield put('disk', { ...plan.disk, [k]: undefined });
      for (const [i, b] of plan.disk.before.entries()) { const w = x => put('disk', { ...plan.disk, before: plan.disk.before.map((y, j) => (j === i ? x : y)) }); if (b.dieAt !== undefined) yield w({ ...b, dieAt: undefined }); for (const a of dropSome(b.args)) yield w({ ...b, args: a }); }
    }
    if (plan.clock?.jumps?.length) yield put('clock', { ...plan.clock, jumps: [] });
    for (const k of ['env', 'nonblock']) if (plan[k]?.length) yield put(k, []);
    if (plan.build && plan.build !== 'stock') yield put('build', 'stock');
    if (plan.dashes) yield put('dashes', false);
    if (plan.filetype) yield put('filetype', undefined);
    if (plan.clock?.wall !== 1700000000) yield put('clock', { wall: 1700000000, mono: 1 });
    if (plan.entropy) yield put('entropy', 0);
  }

  return workerApi(ctx, {
    gen, exec, reduce, extra: {
      async baselines(list) { return list.map(op => [JSON.stringify(op), alone(op)]); },
      async learn({ list, pairs }) { for (const [k, v] of pairs) base.set(k, v); words.push(...list.filter(w => [['rawjson', w], ['rawmatch', w]].every(op => alone(op)[0] === '{'))); return true; },
    },
  });
}

export function startsWith(whole, part) { if (part.length > whole.length) return false; for (let i = 0; i < part.length; i++) if (whole[i] !== part[i]) return false; return true; }
// JSON texts with the same value (numbers compared by their text)
export function sameJSON(a, b) { if (a === b) return true; try { return canon(JSON.parse(a)) === canon(JSON.parse(b)); } catch { return false; } }
function canon(v) { return Array.isArray(v) ? '[' + v.map(canon).join() + ']' : v && typeof v === 'object' ? '{' + Object.keys(v).sort().map(k => JSON.stringify(k) + ':' + canon(v[k])).join() + '}' : JSON.stringify(v); }

export function cliWords(r, n, seeds = [], any = false) {
  const okay = s => any || !/[\n\r\0]/.test(s);
  const set = new Set(['1985-04-12', '', '..', 'not a date', '-0500', '-x', '--', '1985?', 'Y1E9', '2004-06-XX/2004-07-03', ...seeds.filter(okay)]);
  while (set.size < n) { const s = r.chance(0.7) ? FEATURES[r.pick(['date', 'datetime', 'interval0', 'letter', 'season', 'qualified', 'unspec1', 'open1', 'neg', 'exp', 'sig', 'sub', 'set', 'group', 'indiv', 'unspec2', 'interval2', 'odd', 'odd'])](r) : genEdtf(r); if (okay(s)) set.add(s); }
  return [...set];
}
