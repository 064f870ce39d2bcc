// Runs the script of each listing page, given as a JSON array of base64 pages, as a browser would; gives what was shown.
const vm = require('vm');
const pages = JSON.parse(require('fs').readFileSync(0, 'utf8'));
const out = pages.map((b64) => {
  const page = Buffer.from(b64, 'base64').toString('utf8');
  const r = { rows: null, pwned: 0, error: null, scripts: 0 };
  const el = { innerHTML: '', childNodes: [], removeChild() {}, get firstChild() { return null; } };
  const doc = { getElementById: (i) => el, write(t) { r.pwned++; } };
  const g = { document: doc, pwned() { r.pwned++; }, alert() { r.pwned++; } };
  g.window = g;
  const ctx = vm.createContext(g);
  const re = /<script[^>]*>([\s\S]*?)<\/script/gi;
  let m;
  try {
    while ((m = re.exec(page))) { r.scripts++; vm.runInContext(m[1], ctx, { timeout: 2000 }); }
    if (typeof g.onload === 'function') vm.runInContext('onload()', ctx, { timeout: 2000 });
  } catch (e) { r.error = String(e); }
  r.rows = el.innerHTML;
  return r;
});
process.stdout.write(JSON.stringify(out));
