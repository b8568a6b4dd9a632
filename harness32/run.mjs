// node run.mjs MODULE.wasm IN OUTPREFIX THREADS [LIMIT]: makes the calls of IN in the wasm32 build of the crate and
// writes the same records as the native harness.  A trap is recorded as a panic; a call that does not return within
// LIMIT seconds ends the process with status 75.
import fs from 'fs';
import { Worker, isMainThread, workerData } from 'worker_threads';
import { fileURLToPath } from 'url';

const INFO = ['ok', 'iw', 'ih', 'lv', 'fc', 'bpb', 'u0', 'u1', 'fmt'];
const esc = (s) => [...s].map((c) => (c === '"' || c === '\\' || c < ' ' ? '_' : c)).join('');

function work({ wasm, input, output, threads, k, clock }) {
  const mod = new WebAssembly.Module(fs.readFileSync(wasm));
  const busy = new Int32Array(clock);
  const out = fs.openSync(output, 'w');
  const fresh = () => new WebAssembly.Instance(mod).exports;
  let x = fresh();
  const u8 = () => new Uint8Array(x.memory.buffer);
  const lines = fs.readFileSync(input, 'utf8').split('\n').filter((l) => l);
  for (let q = k; q < lines.length; q += threads) {
    const v = lines[q].split(' ');
    const [w, h, a, b, n, fill] = v.slice(2, 8).map(Number);
    const d = v[8] === '-' ? Buffer.alloc(0) : Buffer.from(v[8], 'hex');
    const f = Buffer.from(v[1]);
    Atomics.store(busy, k, Math.floor(performance.timeOrigin + performance.now() - Atomics.load(busy, threads) * 1000) | 1);
    let r = 'ok', e = '', extra = '', p = [];
    x.reset();
    const fp = x.room(f.length), dp = x.room(d.length), ip = x.room(4 * n);
    if (!fp || !ip) { throw new Error('no room for ' + n + ' pixels'); }
    u8().set(f, fp);
    u8().set(d, dp);
    new Uint32Array(x.memory.buffer, ip, n).fill(fill);
    try {
      const c = x.call(fp, f.length, w | 0, h | 0, a | 0, b | 0, dp, d.length, ip, n);
      if (c === 2) { console.error('unknown function ' + v[1]); process.exit(2); }
      if (c === 1) { r = 'err'; e = Buffer.from(u8().slice(x.text(), x.text() + x.text_len())).toString(); }
    } catch (t) {
      r = 'panic';
      e = Buffer.from(u8().slice(x.text(), x.text() + x.text_len())).toString() || String(t);
    }
    if (v[1] === 'info') {
      const i = new Int32Array(x.memory.buffer, x.info(), 9);
      INFO.forEach((nm, j) => { extra += `,"${nm}":${i[j]}`; });
    }
    if (r !== 'panic' && Buffer.compare(Buffer.from(u8().slice(dp, dp + d.length)), d) !== 0) { r = 'corrupted'; e = 'the data was written to'; }
    p = Array.from(new Int32Array(x.memory.buffer, ip, n));
    if (r === 'panic') { x = fresh(); }
    Atomics.store(busy, k, 0);
    const sat = (z) => Math.min(z, 1 << 30);
    fs.writeSync(out, `{"i":${v[0]},"f":"${v[1]}","w":${sat(w)},"h":${sat(h)},"a":${sat(a)},"b":${Math.min(b, 0x7fffffff)},"n":${n},"o":${fill | 0},` +
      `"r":"${r}","e":"${esc(e)}"${extra},"d":[${Array.from(d).join(',')}],"p":[${p.join(',')}]}\n`);
  }
  fs.closeSync(out);
}

if (isMainThread) {
  const [wasm, input, prefix, threads, limit] = [process.argv[2], process.argv[3], process.argv[4], Number(process.argv[5]), Number(process.argv[6] || 20)];
  const clock = new SharedArrayBuffer(4 * (threads + 1));
  const busy = new Int32Array(clock);
  busy[threads] = Math.floor(Date.now() / 1000);
  let left = threads;
  for (let k = 0; k < threads; k++) {
    const t = new Worker(fileURLToPath(import.meta.url), { workerData: { wasm, input, output: `${prefix}.${k}`, threads, k, clock } });
    t.on('error', (e) => { console.error(e.stack || String(e)); process.exit(2); });
    t.on('exit', (c) => { if (c !== 0) process.exit(c); if (--left === 0) process.exit(0); });
  }
  setInterval(() => {
    const now = Date.now() - busy[threads] * 1000;
    for (let k = 0; k < threads; k++) {
      const s = Atomics.load(busy, k);
      if (s !== 0 && now > s + limit * 1000) process.exit(75);
    }
  }, 200);
} else {
  work(workerData);
}
