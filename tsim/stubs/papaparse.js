// Papa.parse for comma-separated text without quoted fields, with its typing rules and its complaints.
const FLOAT = /^\s*-?(\d+\.?|\.\d+|\d+\.\d+)([eE][-+]?\d+)?\s*$/;
const typed = (s) => (s === "true" || s === "TRUE" ? true : s === "false" || s === "FALSE" ? false : FLOAT.test(s) ? parseFloat(s) : s === "" ? null : s);
export function parse(text, opts) {
  const o = opts || {};
  const lines = text.split(text.includes("\r\n") ? "\r\n" : text.includes("\n") || !text.includes("\r") ? "\n" : "\r");
  const errors = [];
  if (!/[,\t|;\x1e\x1f]/.test(text)) errors.push({ type: "Delimiter", code: "UndetectableDelimiter", message: "Unable to auto-detect delimiting character; defaulted to ','" });
  if (lines.some((l) => l.split(",").some((c) => c.startsWith("\"") && !/^".*"$/.test(c)))) errors.push({ type: "Quotes", code: "MissingQuotes", message: "Quoted field unterminated" });
  const keep = (l) => (o.skipEmptyLines === "greedy" ? l.trim() !== "" : o.skipEmptyLines ? l !== "" : true);
  const data = lines.filter(keep).map((l) => l.split(",").map((c) => (o.dynamicTyping ? typed(c) : c)));
  return { data, errors, meta: {} };
}
export default { parse };
