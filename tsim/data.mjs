// What the search reads from a CSV text (the rules of web/wasm's reader), and the texts simulated users bring.
const NUM = /^[+-]?(inf(inity)?|nan|(\d+\.?\d*|\.\d+)(e[+-]?\d+)?)$/i;
const num = (s) => (/inf/i.test(s) ? (s[0] === "-" ? -Infinity : Infinity) : /nan/i.test(s) ? NaN : Number(s));

export function readCsv(text, opts) {
  const lines = text.split(/\r\n|\n|\r/).filter((l) => l.length).map((l) => l.split(",").map((c) => c.trim()));
  const width = lines.length ? lines[0].length : 0;
  const odd = lines.findIndex((l) => l.length !== width);
  if (odd >= 0) return { error: `CSV error: record ${odd}: found record with ${lines[odd].length} fields, but the previous record has ${width} fields` };
  const body = opts.has_headers ? lines.slice(1) : lines;
  const rows = [];
  for (const l of body) {
    const bad = l.find((c) => !NUM.test(c));
    if (bad !== undefined) return { error: `failed to parse "${bad}" as f64: invalid float literal` };
    rows.push(l.map(num));
  }
  if (!rows.length) return { error: "CSV had no data rows" };
  const n = rows[0].length;
  if (n < 2) return { error: "CSV must have at least 2 columns" };
  const y = opts.y_column ?? n - 1, w = opts.weights_column ?? null;
  if (y >= n) return { error: `y_column out of range: ${y} (n_cols=${n})` };
  if (w != null && w >= n) return { error: `weights_column out of range: ${w} (n_cols=${n})` };
  if (w === y) return { error: "weights_column must be different from y_column" };
  const xs = [...new Set(opts.x_columns ?? Array.from({ length: n }, (_, i) => i).filter((i) => i !== y && i !== w))].sort((a, b) => a - b);
  if (!xs.length) return { error: "x_columns is empty" };
  if (xs.some((c) => c >= n)) return { error: "x_columns contains an out-of-range index" };
  if (xs.includes(y)) return { error: "x_columns must not include y_column" };
  if (w != null && xs.includes(w)) return { error: "x_columns must not include weights_column" };
  return { rows, y, w, xs };
}

export function split(n, fraction, rng) {
  const all = Array.from({ length: n }, (_, i) => i);
  const v = Math.min(n - 1, Math.round(Math.min(0.9, Math.max(0, fraction)) * n));
  if (!v) return { train: all, val: [] };
  for (let i = n - 1; i > 0; i--) {
    const j = rng.int(i + 1);
    [all[i], all[j]] = [all[j], all[i]];
  }
  return { train: all.slice(v), val: all.slice(0, v) };
}

// Every value names the text, row and column it is in, and is below 1000; now and then rows share the values of a column.
export function makeCsvs(r) {
  return Array.from({ length: 1 + r.int(4) }, (_, k) => {
    const c = k + 1, cols = r.pick([2, 2, 3, 3, 4, 5]), rows = 1 + r.int(9);
    const kind = r.pick(["plain", "plain", "plain", "plain", "holes", "holes", "holes", "holes", "bare", "crlf", "spaces", "words", "ragged", "quote", "empty", "blank"]);
    const lines = [];
    if (kind !== "bare") lines.push(Array.from({ length: cols }, (_, j) => `c${c}_${j}`).join(","));
    // a hole is a missing value in one column
    const at = r.chance(0.3) ? cols - 1 : r.int(cols);
    const shared = r.chance(0.25) ? r.int(cols) : -1;
    for (let i = 0; i < rows; i++) {
      const l = Array.from({ length: cols }, (_, j) => (c * 50 + ((i * 7 + c) % 11) + j * 0.1).toFixed(1));
      if (shared >= 0) l[shared] = (c * 50 + (i % 3) + shared * 0.1).toFixed(1);
      if (kind === "holes" && r.chance(0.4)) l[at] = r.pick(["nan", "NaN", "inf"]);
      if (kind === "words" && i === rows - 1) l[at] = r.pick(["n/a", "n/a", "true", " "]);
      if (kind === "blank" && i === rows - 1) l[at] = "";
      if (kind === "ragged" && i === rows - 1) l.pop();
      lines.push(l.join(kind === "spaces" ? " , " : ","));
      if (kind === "spaces" && r.chance(0.3)) lines.push("");
    }
    let text = lines.join(kind === "crlf" ? "\r\n" : "\n") + (r.chance(0.7) ? "\n" : "");
    if (kind === "quote") text += '"1,2';
    if (kind === "empty") text = r.pick(["", "\n", "x\n1\n"]);
    return text;
  });
}
